"""Shared machinery of the checks: workspaces, builds, running shards, verdicts."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
GOROOT = "/opt/veriftools/go1.25.14"
NCPU = os.cpu_count() or 8


class CheckError(Exception):
    """The check itself could not run (exit 2)."""


class Violation(Exception):
    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.detail = detail or {}


def goenv(extra=None):
    e = dict(os.environ)
    e.pop("GOROOT", None)
    e.pop("GOEXPERIMENT", None)
    e["PATH"] = GOROOT + "/bin:" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", GOWORK="off", GOVCS="*:off")
    e.setdefault("HOME", "/root")
    e["GOPATH"] = "/root/go"
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["CGO_ENABLED"] = e.get("CGO_ENABLED", "1")
    if extra:
        e.update(extra)
    return e


def run(cmd, cwd=None, env=None, timeout=900, check=False):
    p = subprocess.run(cmd, cwd=cwd, env=env or goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    if check and p.returncode != 0:
        raise CheckError(f"{' '.join(cmd)}: exit {p.returncode}\n{p.stdout[-6000:]}")
    return p


class Work:
    """A fresh workspace with the harness module bound to /repo's working tree."""

    def __init__(self, prop):
        self.prop = prop
        self.dir = os.path.join(VERIF, ".build", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.src = os.path.join(self.dir, "src")
        shutil.copytree(os.path.join(VERIF, "mc"), self.src)
        self.replaces = {"github.com/lerenn/asyncapi-codegen": REPO}
        self.overlay = None
        self.notes = []
        self.write_mod()

    def write_mod(self):
        gm = open(os.path.join(REPO, "go.mod")).read()
        reqs = re.findall(r"(?m)^\s*([a-z0-9.]+\.[a-z]+/\S+|gopkg\.in/\S+) (v\S+)", gm)
        lines = ["module verifmc", "", "go 1.21", "", "require ("]
        lines.append("\tgithub.com/lerenn/asyncapi-codegen v0.0.0")
        lines += [f"\t{m} {v}" for m, v in reqs]
        lines.append(")")
        for m, d in self.replaces.items():
            lines.append(f"replace {m} => {d}")
        open(os.path.join(self.src, "go.mod"), "w").write("\n".join(lines) + "\n")
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(self.src, "go.sum"))

    def mkoverlay(self):
        if self.overlay is None:
            d = os.path.join(self.dir, "ov")
            run([sys.executable, os.path.join(VERIF, "rt", "mkoverlay.py"), GOROOT, d], check=True)
            self.overlay = os.path.join(d, "overlay.json")
        return self.overlay

    def codegen_bin(self):
        """Builds the generator from /repo's working tree."""
        out = os.path.join(self.dir, "asyncapi-codegen")
        if not os.path.exists(out):
            p = run(["go", "build", "-o", out, "./cmd/asyncapi-codegen"], cwd=REPO)
            if p.returncode != 0:
                raise CheckError("the generator does not build:\n" + p.stdout[-4000:])
        return out

    def generate(self, spec, pkg, opts=(), sub="gen"):
        """Generates package verifmc/<sub>/<pkg> from a specification; raises Violation on failure."""
        d = os.path.join(self.src, sub, pkg)
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, pkg + ".gen.go")
        p = run([self.codegen_bin(), "-i", spec, "-p", pkg, "-o", out, *opts], timeout=120)
        if p.returncode != 0 or not os.path.exists(out):
            raise Violation(f"generation from {os.path.basename(spec)} {' '.join(opts)} fails: {p.stdout[-1500:]}", {"spec": open(spec).read()})
        return out

    def build(self, pkg, out, race=False, overlay=True, tags=None):
        cmd = ["go", "build", "-o", os.path.join(self.dir, out)]
        if overlay:
            cmd += ["-overlay", self.mkoverlay()]
        if race:
            cmd.append("-race")
        if tags:
            cmd += ["-tags", tags]
        cmd.append(pkg)
        p = run(cmd, cwd=self.src, timeout=800)
        if p.returncode != 0:
            # errors located in generated code are the generator's, anything else is ours
            if re.search(r"(?m)^(\./)?gen/\S+\.gen\.go:\d+", p.stdout) or re.search(r"(?m)^# verifmc/gen/", p.stdout):
                raise Violation("generated code does not compile:\n" + p.stdout[-3000:])
            raise CheckError(f"build {pkg}:\n{p.stdout[-6000:]}")
        return os.path.join(self.dir, out)


def known_findings(prop):
    """Lines: 'known: property=<id> match=<regexp> :: description'."""
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Outcome:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.cov = {}
        self.level = "model_checking"
        self.assumptions = []
        self.violations = []  # dicts with Fails
        self.known = {}

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, n in sorted(self.known.items()):
            print(f"KNOWN-FINDING: property={self.prop} {k} (seen {n} times)")
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + ".json")
            with open(path, "w") as f:
                json.dump(self.violations[0], f, indent=1)
            for v in self.violations[:3]:
                print(f"  {v.get('Scenario', '')}: {' | '.join(v.get('Fails', []))[:1500]}")
                if v.get("History"):
                    print("  history: " + "; ".join(v["History"])[:1500])
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"{self.prop}: held on everything explored: " + json.dumps({k: v for k, v in self.cov.items() if not isinstance(v, (list, dict))}))
        return 0


def run_shards(work, binary, outcome, tier, budget, prop, args=(), shards=None, race=False, env=None):
    """Runs the exploration in parallel shards and merges the statistics."""
    shards = shards or NCPU
    procs = []
    tag = "race" if race else "run"
    kf = known_findings(prop)
    kpath = os.path.join(work.dir, "known.json")
    json.dump([m for m, _ in kf], open(kpath, "w"))
    for i in range(shards):
        out = os.path.join(work.dir, f"{tag}{i}.json")
        log = open(os.path.join(work.dir, f"{tag}{i}.log"), "w")
        e = goenv({"GOMAXPROCS": "1" if not race else "2", "GORACE": "halt_on_error=0 exitcode=0 history_size=2", "GOTRACEBACK": "system", "GODEBUG": "asynctimerchan=0"})
        e["GOMEMLIMIT"] = "3GiB"
        if env:
            e.update(env)
        cmd = [binary, "-prop", prop, "-tier", tier, "-shard", str(i), "-of", str(shards), "-budget", str(budget), "-out", out, "-known", kpath, *args]
        if race:
            cmd.append("-race")
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=e, cwd=work.dir), out, log))
    merged = {}
    deadline = time.time() + budget + 240
    for p, out, log in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -9
        log.close()
        text = open(log.name, errors="replace").read()
        if (rc != 0 or not os.path.exists(out)) and os.path.exists(out + ".cur") and ("stack overflow" in text or "goroutine stack exceeds" in text):
            # the code under test ended the process: the case it was evaluating is known
            cur = open(out + ".cur", "rb").read().decode(errors="replace").split("\0")
            outcome.violations.append({"Property": prop, "Scenario": cur[0], "Fails": ["endless recursion: " + text[:300].replace("\n", " ")], "History": [cur[1] if len(cur) > 1 else ""]})
            continue
        crash = re.search(r"(?m)^panic: .*|^fatal error: .*", text)
        if (rc != 0 or not os.path.exists(out)) and os.path.exists(out + ".cur") and crash and re.search(r"\.gen\.go:\d+|/repo/\S+\.go:\d+", text):
            cur = open(out + ".cur", "rb").read().decode(errors="replace").split("\0")
            at = re.findall(r"(?:/repo/|gen/)\S+\.go:\d+", text)[:4]
            outcome.violations.append({"Property": prop, "Scenario": cur[0], "Fails": ["the process ended: " + crash.group(0)[:300] + " at " + " ".join(at)], "History": [cur[1] if len(cur) > 1 else ""]})
            continue
        if rc != 0 or not os.path.exists(out):
            for q, _, _ in procs:
                q.kill()
            raise CheckError(f"shard failed rc={rc}: {text[-3000:]}")
        for st in json.load(open(out)) or []:
            m = merged.setdefault(st["Scenario"], {"Executions": 0, "States": 0, "Steps": 0, "Outcomes": set(), "Complete": True, "Done": st["Done"], "Bound": st["Bound"], "Sample": "", "Unstable": 0, "Diverged": 0, "n": 0, "MaxPoints": 0})
            for k in ("Executions", "States", "Steps", "Unstable", "Diverged"):
                m[k] += st[k]
            m["MaxPoints"] = max(m["MaxPoints"], st["MaxPoints"])
            m["Outcomes"].update((st["Outcomes"] or {}).keys())
            m["Complete"] &= st["Complete"]
            m["Bound"] = max(m["Bound"], st["Bound"])
            m["Done"] = min(m["Done"], st["Done"])
            m["Sample"] = m["Sample"] or st["Sample"]
            m["n"] += 1
            for k, n in (st.get("Known") or {}).items():
                for rx, desc in kf:
                    if rx == k:
                        outcome.known[desc] = outcome.known.get(desc, 0) + n
            for v in st["Violations"] or []:
                if race:
                    i = text.find("WARNING: DATA RACE")
                    v["RaceReport"] = text[i:i + 4000] if i >= 0 else ""
                outcome.violations.append(v)
    if not outcome.violations:
        for name, m in merged.items():
            if m["n"] != shards:
                m["Complete"] = False
    return merged


def summarise(outcome, merged, race_merged=None):
    c = outcome.cov
    c["states"] = sum(m["States"] for m in merged.values())
    c["transitions"] = sum(m["Steps"] for m in merged.values())
    c["schedules"] = sum(m["Executions"] for m in merged.values())
    c["traces_validated_against_impl"] = c["schedules"]
    c["distinct_outcomes"] = sum(len(m["Outcomes"]) for m in merged.values())
    c["exhaustive"] = all(m["Complete"] and not m["Unstable"] and not m["Diverged"] for m in merged.values())
    c["rule"] = ("states: nodes of the decision tree (a decision prefix on the real code, each visited once); transitions: scheduler steps executed; "
                 "every schedule is an execution of the real code, so every trace is validated against the implementation")
    c["scenarios"] = {n: {"weight_bound": m["Bound"], "weight_completed": m["Done"], "schedules": m["Executions"], "outcomes": len(m["Outcomes"]), "complete": m["Complete"], "longest": m["MaxPoints"]} for n, m in merged.items()}
    c["samples"] = [f"{n}: {m['Sample']}" for n, m in list(merged.items())[:5]]
    c["nondeterministic_replays"] = sum(m["Unstable"] + m["Diverged"] for m in merged.values())
    if race_merged is not None:
        c["race_schedules"] = sum(m["Executions"] for m in race_merged.values())
        c["race_exhaustive"] = all(m["Complete"] for m in race_merged.values())
        c["race_scenarios"] = len(race_merged)


def exports(w):
    """The packages generated code may import, as compiled here, for the type checks of mc/gen."""
    p = subprocess.run(["go", "list", "-export", "-deps", "-f", "{{.ImportPath}}={{.Export}}", "context", "encoding/json", "encoding/binary", "errors", "fmt", "math", "time", "strings", "strconv",
                        "github.com/lerenn/asyncapi-codegen/pkg/extensions", "github.com/google/uuid", "cloud.google.com/go/civil", "net/http", "net/url"],
                       cwd=w.src, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if p.returncode != 0:
        raise CheckError("go list -export: " + p.stderr[-3000:])
    path = os.path.join(w.dir, "exports.txt")
    open(path, "w").write(p.stdout)
    scratch = os.path.join(w.dir, "scratch")
    os.makedirs(scratch, exist_ok=True)
    return {"VERIF_EXPORTS": path, "VERIF_SCRATCH": scratch}


def command(w):
    """The command as built from /repo's working tree."""
    scratch = os.path.join(w.dir, "scratch")
    os.makedirs(scratch, exist_ok=True)
    return {"VERIF_CODEGEN": w.codegen_bin(), "VERIF_SCRATCH": scratch}


def packages(w, prop):
    """Generates the packages of mc/sch for a property, as verifmc/gen/<name>, and verifmc/gen/reg with their constructors."""
    d = os.path.join(w.src, "gen", "reg")
    os.makedirs(d, exist_ok=True)
    p = run(["go", "run", "./mkdocs", prop], cwd=w.src, timeout=600)
    if p.returncode != 0:
        raise CheckError("mkdocs: " + p.stdout[-3000:])
    imports, entries = "", ""
    for k in json.loads(p.stdout[p.stdout.index("["):]):
        n = k["Name"]
        f = os.path.join(w.dir, n + ".json")
        json.dump(k["Doc"], open(f, "w"))
        w.generate(f, n, k["Args"] or [])
        imports += f'\t{n} "verifmc/gen/{n}"\n'
        fn = "".join(f"""
\t\t{side}: func(b extensions.BrokerController, h extensions.ErrorHandler) (any, error) {{ return {n}.New{side}Controller(b, {n}.WithErrorHandler(h)) }},""" for side in ("App", "User"))
        entries += f'\t"{n}": {{{fn}\n\t}},\n'
    open(os.path.join(d, "reg.go"), "w").write(f"""package reg

import (
\t"github.com/lerenn/asyncapi-codegen/pkg/extensions"

\t"verifmc/wire"
{imports})

var Reg = map[string]wire.Reg{{
{entries}}}
""")


def summarise_cases(outcome, merged, rule):
    c = outcome.cov
    c["evaluations"] = c.get("evaluations", 0) + sum(m["Executions"] for m in merged.values())
    c["distinct_nontrivial"] = c.get("distinct_nontrivial", 0) + sum(m["States"] for m in merged.values())
    c["rule"] = rule
    c["exhaustive"] = c.get("exhaustive", True) and all(m["Complete"] for m in merged.values())
    c.setdefault("sections", {}).update({n: {"evaluations": m["Executions"], "nontrivial": m["States"], "complete": m["Complete"]} for n, m in merged.items()})
    c.setdefault("samples", [])
    c["samples"] += [f"{n}: {m['Sample']}" for n, m in list(merged.items())[:8] if m["Sample"]]


def patch_module(w, mod, version, hooks, edits):
    """Replaces a module by a copy of its cached source with hooks: edits are (file, function header, inserted text),
    hooks is {directory: source of verif_hooks.go}. The rest of the module stays as it is."""
    src = os.path.join("/root/go/pkg/mod", mod + "@" + version)
    dst = os.path.join(w.dir, "mods", mod.replace("/", "_"))
    shutil.rmtree(dst, ignore_errors=True)
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        for f in files:
            if f.endswith("_test.go") or not (f.endswith((".go", ".s")) or f in ("go.mod", "go.sum", "LICENSE")):
                continue
            os.makedirs(os.path.join(dst, rel), exist_ok=True)
            shutil.copyfile(os.path.join(root, f), os.path.join(dst, rel, f))
    for f, head, text in edits:
        p = os.path.join(dst, f)
        s = open(p).read()
        if s.count(head) != 1:
            raise CheckError(f"{mod}: {head!r} found {s.count(head)} times in {f}")
        open(p, "w").write(s.replace(head, head + "\n\t" + text))
    for d, text in hooks.items():
        open(os.path.join(dst, d, "verif_hooks.go"), "w").write(text)
    w.replaces[mod] = dst
    w.write_mod()


def modversion(mod):
    m = re.search(r"(?m)^\s*" + re.escape(mod) + r" (v\S+)", open(os.path.join(REPO, "go.mod")).read())
    if not m:
        raise CheckError(f"{mod} is not required by /repo any more")
    return m.group(1)


def fake_nats(w):
    m = "github.com/nats-io/nats.go"
    patch_module(w, m, modversion(m), {
        ".": """package nats

import "time"

// Set by the harness: in-memory stand-in for the server.
var (
	VerifConnect   func(o Options) (*Conn, error)
	VerifPublish   func(nc *Conn, subj, reply string, hdr Header, data []byte) error
	VerifFlush     func(nc *Conn) error
	VerifSubscribe func(nc *Conn, subj, queue string, cb MsgHandler) (*Subscription, error)
	VerifDrain     func(s *Subscription) error
	VerifUnsub     func(s *Subscription) error
	VerifClose     func(nc *Conn)
	VerifStatus    func(nc *Conn) Status
)

var _ time.Duration

func verifHdr(hdr []byte) Header {
	if len(hdr) == 0 {
		return nil
	}
	h, err := DecodeHeadersMsg(hdr)
	if err != nil {
		panic(err)
	}
	return h
}
""", "jetstream": """package jetstream

import "github.com/nats-io/nats.go"

// VerifNew is set by the harness.
var VerifNew func(nc *nats.Conn) (JetStream, error)
"""}, [
        ("nats.go", "func (o Options) Connect() (*Conn, error) {", "if VerifConnect != nil {\n\t\treturn VerifConnect(o)\n\t}"),
        ("nats.go", "func (nc *Conn) publish(subj, reply string, hdr, data []byte) error {", "if VerifPublish != nil {\n\t\treturn VerifPublish(nc, subj, reply, verifHdr(hdr), data)\n\t}"),
        ("nats.go", "func (nc *Conn) FlushTimeout(timeout time.Duration) (err error) {", "if VerifFlush != nil {\n\t\treturn VerifFlush(nc)\n\t}"),
        ("context.go", "func (nc *Conn) FlushWithContext(ctx context.Context) error {", "if VerifFlush != nil {\n\t\treturn VerifFlush(nc)\n\t}"),
        ("nats.go", "func (nc *Conn) subscribe(subj, queue string, cb MsgHandler, ch chan *Msg, isSync bool, js *jsSub) (*Subscription, error) {",
         "if VerifSubscribe != nil {\n\t\treturn VerifSubscribe(nc, subj, queue, cb)\n\t}"),
        ("nats.go", "func (s *Subscription) Drain() error {", "if VerifDrain != nil {\n\t\treturn VerifDrain(s)\n\t}"),
        ("nats.go", "func (s *Subscription) Unsubscribe() error {", "if VerifUnsub != nil {\n\t\treturn VerifUnsub(s)\n\t}"),
        ("nats.go", "func (nc *Conn) Close() {", "if VerifClose != nil {\n\t\tVerifClose(nc)\n\t\treturn\n\t}"),
        ("nats.go", "func (nc *Conn) Drain() error {", "if VerifClose != nil {\n\t\tVerifClose(nc)\n\t\treturn nil\n\t}"),
        ("jetstream/jetstream.go", "func New(nc *nats.Conn, opts ...JetStreamOpt) (JetStream, error) {", "if VerifNew != nil {\n\t\treturn VerifNew(nc)\n\t}"),
    ])


def fake_kafka(w):
    m = "github.com/segmentio/kafka-go"
    patch_module(w, m, modversion(m), {".": """package kafka

import "context"

// Set by the harness: in-memory stand-in for the brokers.
var (
	VerifWrite       func(w *Writer, ctx context.Context, msgs []Message) error
	VerifWriterClose func(w *Writer) error
	VerifNewReader   func(c ReaderConfig) *Reader
	VerifRead        func(r *Reader, ctx context.Context) (Message, error)
	VerifFetch       func(r *Reader, ctx context.Context) (Message, error)
	VerifCommit      func(r *Reader, ctx context.Context, msgs []Message) error
	VerifReaderClose func(r *Reader) error
	VerifDial        func(d *Dialer, ctx context.Context, network, address string) (*Conn, error)
	VerifBrokers     func(c *Conn) ([]Broker, error)
	VerifPartitions  func(c *Conn, topics []string) ([]Partition, error)
	VerifCreate      func(c *Conn, topics []TopicConfig) error
	VerifConnClose   func(c *Conn) error
)

// VerifReader builds a reader of the given configuration without connecting.
func VerifReader(c ReaderConfig) *Reader { return &Reader{config: c} }
"""}, [
        ("writer.go", "func (w *Writer) WriteMessages(ctx context.Context, msgs ...Message) error {", "if VerifWrite != nil {\n\t\treturn VerifWrite(w, ctx, msgs)\n\t}"),
        ("writer.go", "func (w *Writer) Close() error {", "if VerifWriterClose != nil {\n\t\treturn VerifWriterClose(w)\n\t}"),
        ("reader.go", "func NewReader(config ReaderConfig) *Reader {", "if VerifNewReader != nil {\n\t\treturn VerifNewReader(config)\n\t}"),
        ("reader.go", "func (r *Reader) ReadMessage(ctx context.Context) (Message, error) {", "if VerifRead != nil {\n\t\treturn VerifRead(r, ctx)\n\t}"),
        ("reader.go", "func (r *Reader) FetchMessage(ctx context.Context) (Message, error) {", "if VerifFetch != nil {\n\t\treturn VerifFetch(r, ctx)\n\t}"),
        ("reader.go", "func (r *Reader) CommitMessages(ctx context.Context, msgs ...Message) error {", "if VerifCommit != nil {\n\t\treturn VerifCommit(r, ctx, msgs)\n\t}"),
        ("reader.go", "func (r *Reader) Close() error {", "if VerifReaderClose != nil {\n\t\treturn VerifReaderClose(r)\n\t}"),
        ("dialer.go", "func (d *Dialer) Dial(network string, address string) (*Conn, error) {", "if VerifDial != nil {\n\t\treturn VerifDial(d, context.Background(), network, address)\n\t}"),
        ("dialer.go", "func (d *Dialer) DialContext(ctx context.Context, network string, address string) (*Conn, error) {", "if VerifDial != nil {\n\t\treturn VerifDial(d, ctx, network, address)\n\t}"),
        ("conn.go", "func (c *Conn) Brokers() ([]Broker, error) {", "if VerifBrokers != nil {\n\t\treturn VerifBrokers(c)\n\t}"),
        ("conn.go", "func (c *Conn) ReadPartitions(topics ...string) (partitions []Partition, err error) {", "if VerifPartitions != nil {\n\t\treturn VerifPartitions(c, topics)\n\t}"),
        ("createtopics.go", "func (c *Conn) CreateTopics(topics ...TopicConfig) error {", "if VerifCreate != nil {\n\t\treturn VerifCreate(c, topics)\n\t}"),
        ("conn.go", "func (c *Conn) Close() error {", "if VerifConnClose != nil {\n\t\treturn VerifConnClose(c)\n\t}"),
    ])
