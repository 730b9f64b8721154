#!/usr/bin/env python3
"""Writes the toolchain overlay: patched copies of a few files of package runtime,
sync, internal/sync, sync/atomic and internal/runtime/maps, plus overlay.json.
usage: mkoverlay.py GOROOT OUTDIR"""
import json, os, re, sys
goroot, out = sys.argv[1], sys.argv[2]
src = os.path.join(goroot, "src")
here = os.path.dirname(os.path.abspath(__file__))
os.makedirs(out, exist_ok=True)
replace = {}

def patch(rel, subs):
    p = os.path.join(src, rel)
    s = open(p).read()
    for old, new, n in subs:
        c = s.count(old)
        if c != n:
            sys.exit(f"mkoverlay: {rel}: expected {n} occurrences, found {c}: {old!r}")
        s = s.replace(old, new)
    put(rel, s)

def put(rel, s):
    o = os.path.join(out, rel.replace("/", "__"))
    if not (os.path.exists(o) and open(o).read() == s):
        open(o, "w").write(s)
    replace[os.path.join(src, rel)] = o

put("runtime/verif.go", open(os.path.join(here, "verif.go.txt")).read())

patch("runtime/runtime2.go", [
    ("\tbubble  *synctestBubble\n", "\tbubble  *synctestBubble\n\tverif   *VerifThread\n", 1),
    ("\twaitReasonSynctestSelect:        true,\n}", "\twaitReasonSynctestSelect:        true,\n"
     "\twaitReasonSyncMutexLock: true, waitReasonSyncRWMutexRLock: true, waitReasonSyncRWMutexLock: true,\n"
     "\twaitReasonSyncWaitGroupWait: true, waitReasonChanReceive: true, waitReasonChanSend: true, waitReasonSelect: true,\n}", 1),
])
patch("runtime/proc.go", [
    # newproc: controlled goroutines start parked
    ("\tgp := getg()\n\tpc := sys.GetCallerPC()\n\tsystemstack(func() {\n\t\tnewg := newproc1(fn, gp, pc, false, waitReasonZero)\n\n\t\tpp := getg().m.p.ptr()",
     "\tgp := getg()\n\tpc := sys.GetCallerPC()\n\tif t := verifOn(); t != nil {\n\t\tif fn == nil {\n\t\t\tfatal(\"go of nil func value\")\n\t\t}\n\t\tverifSpawn(t.sched, t.ID, fn, pc)\n\t\treturn\n\t}\n\tsystemstack(func() {\n\t\tnewg := newproc1(fn, gp, pc, false, waitReasonZero)\n\n\t\tpp := getg().m.p.ptr()", 1),
    ("\tcasgstatus(gp, _Grunning, _Gdead)\n\tgcController.addScannableStack", "\tverifExit(gp)\n\tcasgstatus(gp, _Grunning, _Gdead)\n\tgcController.addScannableStack", 1),
])
patch("runtime/panic.go", [
    ("\tpreprintpanics(&p)\n\n\tfatalpanic(&p)   // should not return", "\tverifCrash(p.arg, \"\")\n\tpreprintpanics(&p)\n\n\tfatalpanic(&p)   // should not return", 1),
    ("func sync_fatal(s string) {\n\tfatal(s)", "func sync_fatal(s string) {\n\tverifFatal(s)\n\tfatal(s)", 1),
    ("func maps_fatal(s string) {\n\tfatal(s)", "func maps_fatal(s string) {\n\tverifFatal(s)\n\tfatal(s)", 1),
    ("func internal_sync_fatal(s string) {\n\tfatal(s)", "func internal_sync_fatal(s string) {\n\tverifFatal(s)\n\tfatal(s)", 1),
])
patch("runtime/chan.go", [
    ("func chansend1(c *hchan, elem unsafe.Pointer) {\n\tchansend(", "func chansend1(c *hchan, elem unsafe.Pointer) {\n\tverifChanPoint(VerifKSend, unsafe.Pointer(c), sys.GetCallerPC())\n\tchansend(", 1),
    ("func chanrecv1(c *hchan, elem unsafe.Pointer) {\n", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n\tverifChanPoint(VerifKRecv, unsafe.Pointer(c), sys.GetCallerPC())\n", 1),
    ("func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n", "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n\tverifChanPoint(VerifKRecv, unsafe.Pointer(c), sys.GetCallerPC())\n", 1),
    ("func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n", "func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n\tverifChanPoint(VerifKSend, unsafe.Pointer(c), sys.GetCallerPC())\n", 1),
    ("func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n", "func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n\tverifChanPoint(VerifKRecv, unsafe.Pointer(c), sys.GetCallerPC())\n", 1),
    ("func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n\tverifChanPoint(VerifKClose, unsafe.Pointer(c), sys.GetCallerPC())\n", 1),
    # wake gates
    ("\tclosed := !mysg.success\n\tgp.param = nil\n\tif mysg.releasetime > 0 {\n\t\tblockevent(mysg.releasetime-t0, 2)\n\t}\n\tmysg.c = nil\n\treleaseSudog(mysg)\n",
     "\tclosed := !mysg.success\n\tgp.param = nil\n\tif mysg.releasetime > 0 {\n\t\tblockevent(mysg.releasetime-t0, 2)\n\t}\n\tmysg.c = nil\n\treleaseSudog(mysg)\n\tverifWake()\n", 1),
    ("\tsuccess := mysg.success\n\tgp.param = nil\n\tmysg.c = nil\n\treleaseSudog(mysg)\n\treturn true, success\n",
     "\tsuccess := mysg.success\n\tgp.param = nil\n\tmysg.c = nil\n\treleaseSudog(mysg)\n\tverifWake()\n\treturn true, success\n", 1),
])
patch("runtime/select.go", [
    ("func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n\tgp := getg()\n",
     "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n\tgp := getg()\n\tverifChosen := -1\n\tverifBlocked := false\n\tif gp.verif != nil {\n\t\tverifChanPoint(VerifKSelect, unsafe.Pointer(cas0), sys.GetCallerPC())\n\t\tverifChosen = verifSelectChoice((*[1 << 16]scase)(unsafe.Pointer(cas0))[:nsends+nrecvs:nsends+nrecvs], nsends)\n\t}\n", 1),
    ("\t\tj := cheaprandn(uint32(norder + 1))\n\t\tpollorder[norder] = pollorder[j]\n\t\tpollorder[j] = uint16(i)\n\t\tnorder++\n",
     "\t\tj := uint32(0)\n\t\tif gp.verif == nil {\n\t\t\tj = cheaprandn(uint32(norder + 1))\n\t\t} else if i != verifChosen {\n\t\t\tj = uint32(norder)\n\t\t}\n\t\tpollorder[norder] = pollorder[j]\n\t\tpollorder[j] = uint16(i)\n\t\tnorder++\n", 1),
    ("\tgopark(selparkcommit, nil, waitReason, traceBlockSelect, 1)\n", "\tgopark(selparkcommit, nil, waitReason, traceBlockSelect, 1)\n\tverifBlocked = true\n", 1),
    ("retc:\n\tif caseReleaseTime > 0 {\n\t\tblockevent(caseReleaseTime-t0, 1)\n\t}\n", "retc:\n\tif caseReleaseTime > 0 {\n\t\tblockevent(caseReleaseTime-t0, 1)\n\t}\n\tif verifBlocked {\n\t\tverifWake()\n\t}\n", 1),
    ("sclose:\n\t// send on closed channel\n\tselunlock(scases, lockorder)\n", "sclose:\n\t// send on closed channel\n\tselunlock(scases, lockorder)\n\tif verifBlocked {\n\t\tverifWake()\n\t}\n", 1),
])
patch("runtime/sema.go", [
    ("\tif s.releasetime > 0 {\n\t\tblockevent(s.releasetime-t0, 3+skipframes)\n\t}\n\treleaseSudog(s)\n}", "\tif s.releasetime > 0 {\n\t\tblockevent(s.releasetime-t0, 3+skipframes)\n\t}\n\treleaseSudog(s)\n\tverifWake()\n}", 1),
    ("\tgoparkunlock(&l.lock, waitReasonSyncCondWait, traceBlockCondWait, 3)\n\tif t0 != 0 {\n\t\tblockevent(s.releasetime-t0, 2)\n\t}\n\treleaseSudog(s)\n}", "\tgoparkunlock(&l.lock, waitReasonSyncCondWait, traceBlockCondWait, 3)\n\tif t0 != 0 {\n\t\tblockevent(s.releasetime-t0, 2)\n\t}\n\treleaseSudog(s)\n\tverifWake()\n}", 1),
])
patch("runtime/time.go", [
    ("\t\tgopark(nil, nil, waitReasonSleep, traceBlockSleep, 1)\n\t} else {\n\t\tgopark(resetForSleep, nil, waitReasonSleep, traceBlockSleep, 1)\n\t}\n",
     "\t\tgopark(nil, nil, waitReasonSleep, traceBlockSleep, 1)\n\t} else {\n\t\tgopark(resetForSleep, nil, waitReasonSleep, traceBlockSleep, 1)\n\t}\n\tverifWake()\n", 1),
])
patch("internal/sync/mutex.go", [
    ("func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\tif runtime_verifMutexPoint(unsafe.Pointer(m)) {\n\t\tfor !m.TryLock() {\n\t\t\truntime_verifMutexBlock(unsafe.Pointer(m))\n\t\t}\n\t\treturn\n\t}\n", 1),
    ("\t\tm.unlockSlow(new)\n\t}\n}", "\t\tm.unlockSlow(new)\n\t}\n\truntime_verifMutexUnlocked(unsafe.Pointer(m))\n}", 1),
])
p = "internal/sync/runtime.go"
s = open(os.path.join(src, p)).read()
s = s.replace('_ "unsafe"', '"unsafe"')
put(p, s + "\n//go:linkname runtime_verifMutexPoint\nfunc runtime_verifMutexPoint(p unsafe.Pointer) bool\n\n//go:linkname runtime_verifMutexBlock\nfunc runtime_verifMutexBlock(p unsafe.Pointer)\n\n//go:linkname runtime_verifMutexUnlocked\nfunc runtime_verifMutexUnlocked(p unsafe.Pointer)\n")
p = "sync/runtime.go"
s = open(os.path.join(src, p)).read()
put(p, s + "\nfunc runtime_verifPoint(p unsafe.Pointer)\n")
patch("sync/rwmutex.go", [
    ("func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\truntime_verifPoint(unsafe.Pointer(rw))\n", 1),
])
patch("sync/waitgroup.go", [
    ("func (wg *WaitGroup) Wait() {\n", "func (wg *WaitGroup) Wait() {\n\truntime_verifPoint(unsafe.Pointer(wg))\n", 1),
    ("func (wg *WaitGroup) Add(delta int) {\n", "func (wg *WaitGroup) Add(delta int) {\n\truntime_verifPoint(unsafe.Pointer(wg))\n", 1),
])
# sync/atomic typed operations
p = "sync/atomic/type.go"
s = open(os.path.join(src, p)).read()
s2, n = re.subn(r"(?m)^(func \(x \*(?:Bool|Int32|Int64|Uint32|Uint64|Uintptr|Pointer\[T\])\) (?:Load|Store|Swap|CompareAndSwap|Add|And|Or)\([^{]*\{)", r"\1 runtime_verifPoint(unsafe.Pointer(x)); ", s)
if n < 30: sys.exit(f"mkoverlay: atomic: {n}")
put(p, s2)
p = "sync/atomic/value.go"
s = open(os.path.join(src, p)).read()
s2, n = re.subn(r"(?m)^(func \(v \*Value\) (?:Load|Store|Swap|CompareAndSwap)\([^{]*\{\n)", r"\1\truntime_verifPoint(unsafe.Pointer(v))\n", s)
if n != 4: sys.exit(f"mkoverlay: atomic value: {n}")
put(p, s2 + "\nfunc runtime_verifPoint(p unsafe.Pointer)\n")
patch("internal/runtime/maps/table.go", [
    ("\tit.entryOffset = rand()\n\tit.dirOffset = rand()\n", "\tit.entryOffset = verifRand(m.used)\n\tit.dirOffset = verifDir(it.entryOffset)\n", 1),
])
p = "internal/runtime/maps/map.go"
s = open(os.path.join(src, p)).read()
put(p, s.replace("uintptr(rand())", "uintptr(verifSeed())"))
p = "internal/runtime/maps/runtime.go"
s = open(os.path.join(src, p)).read()
put(p, s + "\n//go:linkname verifRand\nfunc verifRand(used uint64) uint64\n\n//go:linkname verifSeed\nfunc verifSeed() uint64\n\nfunc verifDir(e uint64) uint64 { return e >> 3 }\n")
json.dump({"Replace": replace}, open(os.path.join(out, "overlay.json"), "w"), indent=1)
