import json,sys
tot=0
for s in json.load(open(sys.argv[1])):
    tot+=s['Executions']
    print(s['Scenario'],'done',s['Done'],'exec',s['Executions'],'out',len(s['Outcomes'] or []),s['WallMS'],'ms stuck',s['Stuck'],'unst',s['Unstable'],s['Diverged'],'viol',[v['Fails'] for v in s['Violations'] or []])
print(tot)
