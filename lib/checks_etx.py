"""C08-C20: the language and its trees (pkg/etx)."""
import json
import os
import zlib

from vlib import ToolError

TREE = ["doc", "expr", "string", "number", "comment", "reject", "partial", "panic", "crash"]


def tla(v):
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset, list, tuple)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    return str(v)


def config(init="Init", nxt="Next", props="", **consts):
    return (f"INIT {init}\nNEXT {nxt}\nCONSTANTS\n" + "".join(f"  {k} = {tla(v)}\n" for k, v in consts.items())
            + props + "CHECK_DEADLOCK FALSE\n")


def gen(start, fuel, damage=0, avoid=(), want=(), layouts=1, **more):
    return config(Start=start, Fuel=fuel, Damage=damage, Avoid=set(avoid), Want=set(want), Layouts=layouts, **more)


def words(c, which, size, do=(), more=(), want=(), workers=6, label=None, records=None, stop=None):
    """All texts of at most size pieces over the alphabets."""
    rec = []
    if records is not None:
        records.append(os.path.join(c.tmp, f"rec-words-{len(records)}"))
        rec = ["-rec", records[-1]]
    cfg = config(Which=set(which), More=set(more), Size=size, Want=set(want), props="INVARIANT Check\n")
    c.tlc("etx/EtxWords.tla", None, workers=workers, cfg_text=cfg, heap="6g", stop=stop,
          pipe=("etxh", "doc", "-workers", str(workers), *rec) + tuple(do),
          label=label or f"every text of {size} pieces over {', '.join(sorted(set(which) | set(more)))}"
          + (f" ({size + 1} over {', '.join(sorted(more))})" if more else ""))


def deeper(c, which, size, until=380, **kw):
    """Thorough: longer texts over one alphabet after the other, in an order
    that the seed decides, as long as there is time."""
    for a in sorted(which, key=lambda a: zlib.crc32(f"{c.seed}/{a}".encode())):
        if c.thorough() and c.left(until) > 10 and not c.failures:
            words(c, [a], size, workers=8, stop=c.left(until) + 30, **kw)


def sweep(c, which, do=(), want=(), without=(), workers=6, records=None):
    """Every symbol at every kind of place."""
    rec = []
    if records is not None:
        records.append(os.path.join(c.tmp, f"rec-sweep-{len(records)}"))
        rec = ["-rec", records[-1]]
    cfg = config(Which=set(which), Without=set(without), Want=set(want), props="INVARIANT Check\n")
    c.tlc("etx/EtxSweep.tla", None, workers=workers, cfg_text=cfg, heap="6g",
          pipe=("etxh", "doc", "-workers", str(workers), *rec) + tuple(do), label="every symbol at every place of " + ", ".join(sorted(which)))


def docs(c, start, num, fuel, do=(), label=None, procs=6, records=None, depth=400, **kw):
    """Random documents; num is the number of random runs, a run writes many."""
    c.simulate("etx/EtxGen.tla", None, num, depth, ("etxh", "doc") + tuple(do), procs=procs,
               cfg_text=gen(start, fuel, **kw), label=label or f"random documents: {start}, fuel {fuel}", records=records)


def wide(c, num, **kw):
    docs(c, "wides", num, 150, depth=3000, **kw)


def edits(c, start, num, fuel, ops, procs=6, depth=600):
    cfg = gen(start, fuel, avoid={"badnum"}, Ops=ops).replace("INIT Init\nNEXT Next", "INIT EInit\nNEXT ENext") \
        .replace("CHECK_DEADLOCK", "PROPERTY Frame\nCHECK_DEADLOCK")
    c.simulate("etx/EtxEdit.tla", None, num, depth, ("etxh", "edit"), procs=procs, cfg_text=cfg,
               label=f"clones and changes of random documents: {start}, fuel {fuel}, at most {ops} steps")


def grown(c, want=()):
    pump(c, "10", "60", "1000", *(("2000",) if c.thorough() else ()), want=want)


def pump(c, *args, label="deep nesting and long sequences", want=()):
    c.tlc("etx/EtxPump.tla", None, workers=6, cfg_text=config(Want=set(want), From=1, To=4, props="INVARIANT Check\n"),
          pipe=("etxh", "pump", "-workers", "6") + args, label=label)


ITEMS = ["doc", "decl", "func", "ret", "body", "type", "enum", "object", "block", "block2"]
EXPRS = ["expr", "post", "ops", "unary", "if", "if2", "switch", "case", "list", "map", "sym"]
TEXTS = ["string", "single", "interp", "unicode", "heredoc", "heredoc2", "heredoc3", "heredoc4"]
LAYOUT = ["layout", "cmt", "between"]
SWEEPS = ["names", "gaps", "numbers", "strings", "unicode", "heredocs", "comments"]
RAW = ["<X+80>", "<X+C3>", "<X+E2>", "<X+F0>", "<X+FF>"]      # bytes that are no characters
ALL = ITEMS + EXPRS + TEXTS + LAYOUT + ["number", "numberu", "name", "junk"]


def known(c):
    """Findings that are recorded and not repaired: reported while they are there."""
    for token, desc in c.known_findings():
        r = c.harness("etxh", "finding", token, timeout=120)
        if r is None:
            raise ToolError(f"finding {token}: no end")
        if r.returncode == 3:
            raise ToolError(f"finding {token}: unknown")
        if r.returncode != 0 or b"present" in r.stdout:
            c.known.append(desc)


# -- C08 --------------------------------------------------------------------
def items(c):
    c.build("etxh")
    words(c, ITEMS, 3)
    sweep(c, ["names", "gaps"])
    grown(c)
    deeper(c, ITEMS, 4)

    def some(k):
        docs(c, "doc", 400 * k, 40, avoid={"badnum"})
        wide(c, 60 * k)
    c.rounds(some)


# -- C09 --------------------------------------------------------------------
def expressions(c):
    c.build("etxh")
    words(c, [e for e in EXPRS if e != "ops"], 3)
    words(c, ["ops"], 3)
    sweep(c, ["gaps"])
    # the fast reading of the grammar agrees with the plain one
    words(c, ["ops", "post", "if", "func", "body", "string"], 2, want=["plain"], label="the grammar read plainly: texts of 2 pieces")
    grown(c)
    deeper(c, EXPRS, 4)

    def some(k):
        docs(c, "valx", 400 * k, 40, avoid={"badnum"})
        wide(c, 60 * k)
        docs(c, "doc", 40 * k, 40, want=["plain"], avoid={"badnum"}, label="the grammar read plainly: random documents")
    c.rounds(some)


# -- C10 --------------------------------------------------------------------
def texts(c):
    c.build("etxh")
    known(c)
    words(c, TEXTS, 4, workers=8)
    sweep(c, ["strings", "unicode", "heredocs"], workers=8)
    grown(c)
    deeper(c, TEXTS, 5)
    c.rounds(lambda k: docs(c, "texts", 400 * k, 40, avoid={"badnum"}))


# -- C11 --------------------------------------------------------------------
def numbers(c):
    c.build("etxh")
    known(c)
    words(c, ["number", "numberu"], 4, workers=8)
    sweep(c, ["numbers"], workers=8)
    grown(c)
    deeper(c, ["number", "numberu"], 5)

    def some(k):
        docs(c, "nums", 400 * k, 60)
        docs(c, "valx", 100 * k, 20)
    c.rounds(some)


# -- C12 --------------------------------------------------------------------
def malformed(c):
    c.build("etxh")
    known(c)
    words(c, ALL, 2, more=["junk", "string", "heredoc", "interp", "layout"])
    sweep(c, SWEEPS, workers=8)
    grown(c)
    deeper(c, ALL, 3)

    def some(k):
        docs(c, "doc", 400 * k, 30, damage=3)
        docs(c, "texts", 200 * k, 30, damage=3)
        wide(c, 40 * k, damage=3)
    c.rounds(some)


# -- C13 --------------------------------------------------------------------
def positions(c):
    c.build("etxh")
    which = ["layout", "cmt", "between", "heredoc", "string", "list", "block2", "ops"]
    words(c, which, 3)
    sweep(c, ["gaps", "strings", "heredocs", "comments"])
    grown(c)
    deeper(c, which, 4)

    def some(k):
        docs(c, "doc", 300 * k, 40, avoid={"badnum"})
        docs(c, "texts", 200 * k, 30, avoid={"badnum"})
        docs(c, "cdoc", 100 * k, 40, avoid={"badnum"})
        wide(c, 30 * k)
    c.rounds(some)


# -- C14 --------------------------------------------------------------------
def navigation(c):
    c.build("etxh")
    which = ITEMS + EXPRS + ["string", "heredoc"]
    words(c, which, 2, do=["nav"])
    pump(c, "10", "60", "150", "nav", *(("400",) if c.thorough() else ()))
    deeper(c, which, 3, do=["nav"])

    def some(k):
        docs(c, "doc", 300 * k, 40, do=["nav"], avoid={"badnum"})
        wide(c, 30 * k, do=["nav"])
        for start, n in (("doc", 100), ("onedecl", 100), ("lfunc", 40)):
            edits(c, start, n * k, 30, 8)
    c.rounds(some)


# -- C15 --------------------------------------------------------------------
def clones(c):
    c.build("etxh")
    which = ITEMS + EXPRS + ["string", "heredoc"]
    words(c, which, 2, do=["clone"])
    pump(c, "10", "60", "150", "clone", *(("400",) if c.thorough() else ()))
    deeper(c, which, 3, do=["clone"])

    def some(k):
        for start, n in (("doc", 100), ("onedecl", 100), ("texts", 60), ("lfunc", 40)):
            edits(c, start, n * k, 30, 8)
        docs(c, "doc", 200 * k, 40, do=["clone"], avoid={"badnum"})
        wide(c, 30 * k, do=["clone"])
    c.rounds(some)


# -- C16 --------------------------------------------------------------------
def formatting(c):
    c.build("etxh")
    words(c, ALL, 2, do=["format"], want=["tape"])
    sweep(c, ["strings", "heredocs", "comments"], do=["format"], want=["tape"])
    pump(c, "10", "60", "150", "format", *(("400",) if c.thorough() else ()), want=["tape"])
    deeper(c, ALL, 3, do=["format"], want=["tape"])

    def some(k):
        docs(c, "doc", 300 * k, 40, do=["format"], want=["tape"], avoid={"badnum"})
        docs(c, "valx", 200 * k, 40, do=["format"], want=["tape"], avoid={"badnum"})
        wide(c, 30 * k, do=["format"], want=["tape"], avoid={"badnum"})
        docs(c, "cdoc", 60 * k, 40, do=["format"], want=["tape"], avoid={"badnum"})
        edits(c, "doc", 60 * k, 20, 4)
        edits(c, "lfunc", 30 * k, 20, 4)
    c.rounds(some)


# -- C17 --------------------------------------------------------------------
AVOID_TRIP = {"badnum", "heredoc", "map", "nl", "cr", "nummem", "mlnl"}
TRIPS = ["tbody", "tlist", "ttext", "ttext2", "tgroup"]


def trips(c):
    c.build("etxh")
    known(c)

    def judge(recs, most, what):
        lines = []
        for f in recs:
            lines += open(f).read().splitlines() if os.path.exists(f) else []
        lines = sorted(set(lines), key=lambda l: zlib.crc32((str(c.seed) + l).encode()))[:most]
        for l in c.judge("etx/EtxTrip.tla", "etx/EtxTrip.cfg", lines, f"formatted {what}: the same meaning"):
            r = json.loads(l)
            c.fail("trip", "the formatted text has another meaning: " + "".join(r["a"]) + " and " + "".join(r["b"]), r)

    recs = []
    words(c, TRIPS, 2, more=["tgroup"], do=["trip"], records=recs)
    words(c, ["tgroup2"], 4, do=["trip"], records=recs)
    judge(recs, 2000, "words")
    recs = []
    sweep(c, ["strings", "unicode", "numbers"], do=["trip"], without=["="], records=recs)   # 1e=1 is two items
    judge(recs, 1000, "texts with every symbol")
    pump(c, "10", "60", "150", "trip", *(("400",) if c.thorough() else ()), label="grown declarations and functions, formatted and parsed")
    recs = []
    deeper(c, TRIPS + ["tgroup2"], 4, until=200, do=["trip"], records=recs)
    judge(recs, 6000, "longer words")

    def some(k):
        for start, n in (("onedecl", 100), ("decls", 60), ("valx", 100)):
            recs = []
            docs(c, start, n * k, 40, do=["trip"], avoid=AVOID_TRIP, records=recs)
            judge(recs, 500 * k, start)
    c.rounds(some, until=560)


# -- C18 --------------------------------------------------------------------
def entries(c):
    c.build("etxh")
    c.build_race("etxh", "etxrace")
    base = dict(Start="doc", Fuel=16, Damage=1, Avoid={"badnum"}, Want=set(), Layouts=1)
    fixed = config("XInit", "XNext", Docs=4, Ops=2, Calls=1, props="INVARIANT XTell\nPROPERTY Constant\n", **base)
    c.tlc("etx/EtxEntry.tla", None, workers=4, cfg_text=fixed, pipe=("etxh", "entry", "-workers", "6"),
          label="every sequence of two calls over fixed texts, readers and their ends")
    pump(c, "long=70000" if not c.thorough() else "long=200000", label="long sequences, by every entry")
    cfg = config("NInit", "NNext", Docs=3, Ops=10, Calls=4, props="PROPERTY Constant\n", **base)

    def some(k):
        c.simulate("etx/EtxEntry.tla", None, 150 * k, 600, ("etxh", "entry"), cfg_text=cfg, label="random sessions")
        c.simulate("etx/EtxEntry.tla", None, 60 * k, 600, ("etxrace", "entry"), cfg_text=cfg,
                   label="random sessions with the race detector", env={"GORACE": "halt_on_error=1"})
    c.rounds(some)


# -- C19 --------------------------------------------------------------------
def comments(c):
    c.build("etxh")
    inside = ["body", "enum", "object", "block2", "list", "map", "doc"]
    words(c, LAYOUT, 4)
    sweep(c, ["comments", "gaps"])
    words(c, inside, 2)
    grown(c)
    deeper(c, inside, 4, until=240)
    deeper(c, LAYOUT, 5)

    def some(k):
        docs(c, "doc", 200 * k, 40, avoid={"badnum"})
        docs(c, "cdoc", 300 * k, 60, avoid={"badnum"})
        docs(c, "cdoc", 60 * k, 40, damage=2, avoid={"badnum"})
    c.rounds(some)


# -- C20 --------------------------------------------------------------------
def jsons(c):
    c.build("etxh")
    known(c)
    words(c, ALL, 2, do=["json"], want=["json"])
    sweep(c, ["names", "strings", "heredocs", "comments"], do=["json"], want=["json"], without=RAW)
    pump(c, "10", "60", "150", "json", *(("400",) if c.thorough() else ()), want=["json"])
    deeper(c, ALL, 3, do=["json"], want=["json"])

    def some(k):
        docs(c, "doc", 300 * k, 40, do=["json"], want=["json"], layouts=2, avoid={"badnum", "raw"})
        docs(c, "texts", 150 * k, 30, do=["json"], want=["json"], layouts=2, avoid={"badnum", "raw"})
        docs(c, "cdoc", 60 * k, 40, do=["json"], want=["json"], layouts=2, avoid={"badnum", "raw"})
        wide(c, 30 * k, do=["json"], want=["json"], layouts=2, avoid={"badnum", "raw"})
    c.rounds(some)


# -- C21 --------------------------------------------------------------------
def places(c):
    c.build("etxh")
    words(c, ALL, 2, want=["where"])
    sweep(c, ["names", "gaps", "unicode", "heredocs"], want=["where"])
    grown(c, want=["where"])
    deeper(c, ALL, 3, want=["where"])

    def some(k):
        docs(c, "doc", 300 * k, 30, damage=3, want=["where"])
        docs(c, "texts", 150 * k, 30, damage=3, want=["where"])
        docs(c, "cdoc", 60 * k, 40, damage=2, want=["where"])
        wide(c, 40 * k, damage=3, want=["where"])
    c.rounds(some)


CHECKS = {
    "C08": (TREE, items),
    "C09": (TREE, expressions),
    "C10": (TREE + ["accept"], texts),
    "C11": (["number", "accept", "reject", "panic", "crash"], numbers),
    "C12": (["accept", "partial", "panic", "crash", "reject", "doc"], malformed),
    "C13": (["pos"], positions),
    "C14": (["children", "parents"], navigation),
    "C15": (["clone", "edit"], clones),
    "C16": (["format"], formatting),
    "C17": (["trip"], trips),
    "C18": (["entry", "panic", "crash"], entries),
    "C19": (["comment", "doc", "reject", "partial", "panic", "crash"], comments),
    "C20": (["json"], jsons),
    "C21": (["where", "accept", "partial", "panic", "crash"], places),
}
