from common import *

CHECKS = {}
META = {}
LEVEL = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def schedules(pid, pkg, prepare=None, quick=60, thorough=1500, race=True, race_quick=30, race_thorough=300, assumptions=()):
    def f(prop, tier, out):
        w = Work(prop)
        if prepare:
            prepare(w)
        b = w.build(pkg, "h")
        out.assumptions += ["interleavings are explored at synchronisation operations (channel, select, mutex, atomic, goroutine start) of the code under test; "
                            "unsynchronised accesses are left to the race-detecting build of the same scenarios", *assumptions]
        m = run_shards(w, b, out, tier, quick if tier == "quick" else thorough, prop)
        rm = None
        if race and not out.violations:
            rb = w.build(pkg, "hr", race=True)
            rm = run_shards(w, rb, out, tier, race_quick if tier == "quick" else race_thorough, prop, race=True)
        summarise(out, m, rm)
    CHECKS[pid] = f


schedules("P01", "./p01")
schedules("P02", "./p02", race=False)
schedules("P03", "./p03", race=False)
schedules("P04", "./p04", quick=90)


def ctl(w):
    w.generate(VERIF + "/specs/ctl2.yaml", "ctl2")
    w.generate(VERIF + "/specs/ctl3.yaml", "ctl3")


schedules("P05", "./p05", prepare=ctl, race=False)
schedules("P06", "./p06", prepare=ctl)
schedules("P07", "./p07", prepare=ctl, race=False)
schedules("P08", "./p08", prepare=ctl)
schedules("P09", "./p09", prepare=ctl)
schedules("P10", "./p10", prepare=ctl)
schedules("P13", "./p13", prepare=fake_nats)
schedules("P11", "./p11", prepare=fake_nats)


def cases(pid, pkg, prepare=None, quick=60, thorough=1200, rule="", overlay=False, assumptions=()):
    """A bounded exhaustive enumeration of cases on the real code."""
    LEVEL[pid] = "exploration"

    def f(prop, tier, out):
        out.level = "exploration"
        w = Work(prop)
        env = (prepare(w) if prepare else None) or {}
        b = w.build(pkg, "h", overlay=overlay)
        out.assumptions += list(assumptions)
        m = run_shards(w, b, out, tier, quick if tier == "quick" else thorough, prop, env=env)
        shutil.rmtree(os.path.join(w.dir, "scratch"), ignore_errors=True)
        summarise_cases(out, m, rule)
    CHECKS[pid] = f


cases("P12", "./p12", rule="every pattern and subject over the stated token and character alphabets up to the stated lengths, each pair once; non-trivial: the reference says it matches")
cases("P27", "./p27", rule="every log call over the stated alphabets of context values, field sequences, keys, values and messages, each once on each logger; non-trivial: it has a field or a context value")
cases("P31", "./p31", rule="every message, context, pair of keys and pair of errors over the stated alphabets, each once; all non-trivial")
cases("P28", "./p28", rule="every string over the stated alphabets up to the stated length, each once per naming scheme or key conversion; all non-trivial")
schedules("P14", "./p14", quick=60, prepare=fake_kafka)
schedules("P15", "./p15", prepare=fake_kafka)
cases("P20", "./p20", prepare=exports, quick=240, rule="every object of the base documents that may be a reference, moved to each target or replaced by each incorrect reference, each once; non-trivial: the document without the reference is accepted")


def pkgs(prop):
    def f(w):
        packages(w, prop)
    return f


cases("P29", "./p29", prepare=pkgs("P29"), quick=200, rule="every location of the stated forms, each with every value of the message of the stated alphabet and every identifier or address, each once; all non-trivial")
cases("P30", "./p30", prepare=exports, quick=240, rule="every document of the stated channel and operation forms, each once with each stated choice of sides; non-trivial: it has an operation")
cases("P32", "./p32", prepare=command, quick=240, rule="every command line with one, two or all of the stated flags in their stated forms and values, each once; non-trivial: it is accepted")
cases("P33", "./p33", prepare=exports, quick=420, rule="every element of the standard's vocabulary with each stated value at every place of the base documents where it is allowed, alone and everywhere (thorough: two), each once; all non-trivial")
cases("P16", "./p16", prepare=pkgs("P16"), quick=200, rule="every message of the stated payload and header shapes, with every value of the stated alphabets in one place (thorough: two) and every incorrect encoding of the stated lists, each once; all non-trivial")
cases("P26", "./p26", prepare=exports, quick=420, rule="every version string, file extension, scalar and document edit over the stated alphabets, one (thorough: two) per document, each once; non-trivial: the document is not accepted as it was")
cases("P17", "./p17", prepare=pkgs("P17"), quick=200, rule="every generated object type of the stated additional types, declared properties and places, with every document (allowed or not) and every value over the stated alphabets, one (thorough: two) deviations from a base, each once; all non-trivial")
cases("P18", "./p18", prepare=pkgs("P18"), quick=200, rule="every generated structure of the stated property types, presences and names, with every document its schema allows and every value over the stated alphabets, one (thorough: two) deviations from a base, each once; all non-trivial")
cases("P19", "./p19", prepare=pkgs("P19"), quick=200, rule="every structure with one property of each stated type and set of constraints, required or optional, inline or through references, with every value of the stated alphabets around the bounds, each once; all non-trivial")
cases("P25", "./p25", prepare=pkgs("P25"), quick=200, rule="every channel address of the stated list, in both directions, with every combination of the stated values of its parameters and every pair of combinations, each once; non-trivial: the address has a parameter")
cases("P24", "./p24", prepare=exports, quick=200, rule="every document of the stated schemas, places, operations, replies, correlations and names, one (thorough: two) deviations from a base, with every set of options or parts of the stated lists, each once; non-trivial: the generation succeeds")
cases("P23", "./p23", prepare=exports, quick=200, overlay=True, rule="every order of the map iterations of the generation of each document with one deviation (thorough: two) from the default order, and with each offset everywhere; every history of one (thorough: two) other generations before each generation; non-trivial: all")
cases("P21", "./p21", prepare=exports, quick=300, overlay=True, rule="every composition of one to three parts (of the stated shapes and forms) of each kind, at each place, and every graph of three components composed of and having each other as properties, within the stated numbers of edges, each once; non-trivial: the generated types could be compared")
cases("P22", "./p22", prepare=exports, quick=300, rule="every choice of who defines each of two fields among a message or operation and its two traits, and every triple of shapes of headers and payloads, with each form of the traits, each once; non-trivial: the document is accepted")
