"""The checks: which monitors decide which property."""

EXPL = "exploration"
FAULT = "fault_enumeration"

COMMON = [
    "the Go toolchain, the race detector and the operating system's files and mappings behave as documented",
    "the harness' reference models are right where they agree with the code on every generated case",
]


def step(group, race=False, **kw):
    return dict(kw, group=group, race=race)


PROPS = {}


def prop(pid, level, technique, note, *steps, assumptions=()):
    PROPS[pid] = {
        "level": level, "technique": technique, "note": note,
        "steps": list(steps), "assumptions": COMMON + list(assumptions),
    }


prop("C01", EXPL, "runtime monitor: every query of the real database compared online with a reference model over random histories",
     "Held on every generated history; does not cover histories that were not generated. Values an operating-system crash loses are out of scope (mmap without sync).",
     step("db"))
prop("C02", EXPL, "runtime monitor: bounded, stopped and latest queries compared with the full query, directory hashed around queries",
     "Held on every generated history and bound.",
     step("db"))
prop("C03", EXPL, "runtime monitor: acceptance predicate checked for every write, stored values compared around refusals",
     "Held on every generated history; values that overlap the latest end, and oversized ones that an earlier configuration has room for, are left unspecified.",
     step("db"))
prop("C04", EXPL, "runtime monitor: retained values and directory watched after every write of long histories",
     "Held on every generated history.",
     step("db"))

prop("C05", EXPL, "runtime monitor under the race detector: every callback counted over start/stop/cancel storms with injected delays",
     "Held on every execution observed; schedules are sampled by stress and injected delays, not enumerated.",
     step("db", race=True),
     assumptions=["closing the queue while senders recover is intended, so the race detector's report of that pair (closechan/chansend inside of database/files) is not counted"])
prop("C06", EXPL, "race detector plus offline linearizability check of recorded per-metric histories",
     "Held on every history recorded; schedules are sampled by stress and delays at the hook points.",
     step("db", race=True),
     assumptions=["closing the queue while senders recover is intended, so the race detector's report of that pair (closechan/chansend inside of database/files) is not counted"])
prop("C07", FAULT, "crash images at every hook point and torn prefixes of every slot store, reopened and compared with a model; children killed with SIGKILL",
     "Every hook point of each generated write is enumerated; the histories are sampled. The memory order of stores is taken as program order, as it is for a dying process whose mappings are shared. A crash inside of the copy of a metadata record is a known finding.",
     step("db"),
     assumptions=["a dying process leaves its shared mappings as they are at that instant; losing the machine is out of scope", "records are stored front to back"])
prop("C08", EXPL, "fault injection into stored files, results compared with what was really stored",
     "Held for every damage generated; whether a value is undamaged is decided by comparing the bytes of its slots and of the metadata before and after.",
     step("db"))
prop("C09", EXPL, "runtime monitor under the race detector: listings compared with acknowledged and attempted names in real-time order",
     "Held on every execution observed; schedules are sampled by stress and delays.",
     step("db", race=True))
prop("C10", EXPL, "runtime monitor: tagged values for exhaustive short and random adversarial names, directory trees compared",
     "All names up to length 3-4 over small alphabets and random longer ones.",
     step("db"))
prop("C11", EXPL, "runtime monitor of /proc/self/maps and /proc/self/fd at hook points, inside callbacks and after stopping",
     "Held at every observation; an operation may hold two files of its own while it rotates.",
     step("db"))

prop("C12", EXPL, "runtime monitor under the race detector: exact multisets of added and captured values compared per window, tagged values in storms",
     "Held on every execution observed; schedules are sampled by stress and by yielding inside of the distributions.",
     step("writer", race=True))
prop("C13", EXPL, "runtime monitor under the race detector: extremes and identifiers of every captured record compared with the adds of its window",
     "Held on every execution observed.",
     step("writer", race=True))
prop("C14", EXPL, "runtime monitor under the race detector: every record handed out mid-stream is decoded and checked against itself",
     "Held on every execution observed; exact for a list distribution, with tolerance for t-digests.",
     step("writer", race=True))
prop("C15", EXPL, "runtime monitor: windows of all captured records compared with each other and the clock, also for overlapping captures",
     "Held on every execution observed; assumes that the wall clock is not set back during a run.",
     step("writer", race=True),
     assumptions=["the wall clock does not go backwards during a run"])
prop("C16", EXPL, "runtime monitor with fault injection: a fake database that answers in every way counts and decodes what dumps hand over",
     "Held on every execution observed; the ways to answer are enumerated, their combinations sampled.",
     step("writer", race=True))
prop("C17", EXPL, "runtime monitor over real sockets: captured observations compared with the lines sent, descriptors and late records watched after stopping",
     "Held on every execution observed; lines longer than 60000 bytes only have to be skipped or handled as one line.",
     step("writer", race=True))

prop("C18", EXPL, "black-box monitor: the real program, built with the race detector, fed over TCP, interrupted, killed and restarted; its data directory and every answer of its API compared with what was sent",
     "Held on every run observed; schedules are sampled. With short periods at most one observation per dump and connection may be missing (a documented race of adding with dumping), otherwise none.",
     step("e2e", race=True, build=["rothko-race"]))
prop("C19", EXPL, "runtime monitor: merged records compared field by field with a model of their inputs, quantiles with the interpolated observations",
     "Held for every generated set of records; quantiles are compared exactly while the weight does not exceed the compression, and for range and order beyond it.",
     step("merge"))
prop("C20", EXPL, "runtime monitor: every pixel's column compared with an independent model of overlap, rates and quantiles",
     "Held for every generated window and set of records; records longer than a time.Duration are left out.",
     step("merge"),
     assumptions=["float16 rounding of column values keeps three decimal digits"])
prop("C21", EXPL, "runtime monitor: t-digest answers compared with the sorted observations, before and after encoding, and for damaged encodings",
     "Held for every generated set of observations, compression 10 to 1000; beyond the compression quantiles are compared with a rank tolerance of 5/compression.",
     step("merge"))

prop("C22", EXPL, "runtime monitor: responses of guarded and public paths compared with an independent acceptance predicate over adversarial credentials",
     "Held for every generated request and configuration of the server.",
     step("api"))
prop("C23", EXPL, "runtime monitor: hostile parameters, bodies and storage answers against the handlers, every response compared with quiet ones under the race detector",
     "Held for every generated request and storm.",
     step("api"), step("api", race=True, prop="C23r"))
prop("C24", EXPL, "runtime monitor: the search matcher compared with an independent wildcard matcher on exhaustive small and random larger names and queries",
     "Exhaustive for names up to length 5 over 3 letters and queries up to length 5 over 5; random beyond.",
     step("api"))
prop("C25", EXPL, "runtime monitor: every field, column and pixel of render responses compared with an independent computation from the stored records",
     "Held for every generated window and set of records.",
     step("api"))

prop("C26", EXPL, "runtime monitor: every pixel compared with the colour of its value, and canvases surrounded by noise watched for stray writes",
     "Held for every generated drawing; a height that falls between two values may show either.",
     step("draw"))

prop("C27", EXPL, "runtime monitor: configurations written from a model, loaded and constructed, every value compared at its component; logs of the running program searched for secrets, under the race detector",
     "Held for every generated configuration. Settings of plug-ins are only followed to the constructor.",
     step("misc", race=True))
prop("C28", EXPL, "race detector plus monitor: makers and results recorded and checked for one order that explains them",
     "Held on every execution observed; schedules are sampled by stress and makers that register or construct.",
     step("misc", race=True))
prop("C29", EXPL, "race detector plus monitor: start, stop and return events of recorded services checked against the rules of a launch",
     "Held on every execution observed; the order of returns, errors and cancellations is generated, schedules are sampled.",
     step("db", race=True), step("misc", race=True))
prop("C30", EXPL, "runtime monitor: responses of the site compared with the entries of generated archives and an independent rendering of its templates, under the race detector",
     "Held for every generated archive and request.",
     step("misc", race=True))

prop("C31", EXPL, "black-box monitor: the real commands run in prepared directories, what they leave compared with what was there and what they promise",
     "Held for every generated directory and configuration.",
     step("e2e", race=True, build=["rothko-race"]))

prop("C32", EXPL, "race detector plus monitor: a recording logger and monitor compared with the requests, answers and lines that caused what they were told",
     "Held for every generated request, dump and connection; schedules are sampled by stress.",
     step("api", race=True), step("writer", race=True))

prop("C33", EXPL, "black-box monitor: the real program loads plugins that log every call; the log checked against the configuration and for conservation of what their listeners add, under the race detector",
     "Held for every generated configuration and end; schedules are sampled.",
     step("e2e", race=True, build=["rothko-race", "pluga.so", "plugb.so"]))

prop("C34", EXPL, "runtime monitor: an independent implementation of the stored format makes data for the real code to read and go on with, and reads what the real code wrote",
     "Held for every directory, history, record and t-digest generated. The independent implementation was compared once with a build of the first version, which reads what it makes and writes what it reads.",
     step("db"))

prop("C35", EXPL, "runtime monitor: live heap, goroutines, descriptors and mapped data files measured before and after very many operations of one kind",
     "Held for every kind of operation tried, up to 16 bytes for each operation and 192 KiB; memory that a bounded number of operations fills is allowed.",
     step("steady"))
