"""C01-C04, C06: the graph of pkg/dag."""
import json
import os
import zlib

from vlib import SPEC, ToolError

TRACE_AREA = {"AddVertex": "mutation", "DeleteVertex": "mutation", "AddEdge": "mutation", "DeleteEdge": "mutation",
              "ReduceTransitively": "mutation", "IsEdge": "views", "Views": "views",
              "GetAncestors": "closure", "GetDescendants": "closure",
              "GetOrderedAncestors": "ordered", "GetOrderedDescendants": "ordered"}


def traces(c, files, histories, ops, ids):
    """Histories recorded from the real graph are behaviours of Dag."""
    for i in range(files):
        seed = zlib.crc32(f"{c.seed}/trace/{i}{'/' + str(c.round) if c.round else ''}".encode())
        r = c.harness("dagh", "record", seed, histories, ops, ids, timeout=120)
        obj = {"harness": ["dagh", "record", seed, histories, ops, ids]}
        if r is None:
            c.fail("mutation", "the recorded history never ends", obj)
            continue
        lines = r.stdout.decode().splitlines()
        if r.returncode != 0:
            err = r.stderr.decode()
            obj["stderr"] = err[:3000]
            if "/pkg/dag" not in err:
                raise ToolError("dagh record failed: " + err[:1500] + "\n...\n" + err[-1500:])
            obj["trace"] = lines[-200:]
            c.fail("panic", "the graph crashed while a history was recorded", obj)
            continue
        path = os.path.join(c.tmp, f"trace{i}.ndjson")
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        m = c.validate("dag/DagTrace.tla", "dag/DagTrace.cfg", path, "validation of a recorded trace (events)")
        c.traces += histories
        if m["matched"] < m["len"]:
            ev = json.loads(lines[m["matched"]])
            start = max(k for k in range(m["matched"] + 1) if json.loads(lines[k])["op"] == "New")
            obj["trace"] = lines[start:m["matched"] + 1]
            area = TRACE_AREA.get(ev["op"], "mutation")
            msg = f"the specification does not allow event {m['matched'] - start} of the recorded history: {lines[m['matched']]}"
            c.fail(area, msg, obj)
            if any('"ReduceTransitively"' in x for x in obj["trace"]):
                c.fail("reduce", msg, obj)


def replay(c, cfg, spec="dag/DagGen.tla", label=None, workers=8, timeout=840, stop=None):
    c.tlc(spec, cfg, pipe=("dagh", "replay", "-workers", str(workers)), label=label, timeout=timeout, stop=stop)


def design(c):
    c.tlc("dag/Dag.tla", "dag/MCDag.cfg", workers=2, label="the abstract graph")
    c.tlc("dag/DagImpl.tla", "dag/MCDagImpl.cfg", workers=2, label="the graph with its caches refines the abstract graph")


def histories(c):
    c.build("dagh")
    design(c)
    replay(c, "dag/GenN3.cfg", label="one behaviour per transition, 3 ids")
    deep(c)

    def some(k):
        c.simulate("dag/DagGen.tla", "dag/Sim.cfg", 3000 * k, 61, ("dagh", "replay"), label="random histories, 5 ids")
        c.simulate("dag/DagBig.tla", "dag/Big.cfg", 1200 * k, 120, ("dagh", "replay"),
                   label="random larger graphs of several shapes, 12 ids: built, queried, reduced, changed, reduced")
        c.simulate("dag/DagBig.tla", "dag/Huge.cfg", 48 * k, 400, ("dagh", "replay"), procs=8,
                   label="random graphs of 40 ids, the same way")
        traces(c, 3 * k, 15, 90, 8)
    c.rounds(some)


def deep(c):
    if c.thorough():
        replay(c, "dag/GenN4.cfg", label="one behaviour per transition, 4 ids", stop=c.left(420))
        c.simulate("dag/DagBig.tla", "dag/Huge100.cfg", 8, 900, ("dagh", "replay"), procs=8, label="random graphs of 100 ids, the same way")


def c01(c):
    histories(c)


def c04(c):
    c.build("dagh", "walkh")
    walks(c, 4, 3)
    replay(c, "dag/Graphs5.cfg" if not c.thorough() else "dag/Graphs6.cfg", spec="dag/DagShapes.tla",
           label="every acyclic graph up to relabelling, walked from every vertex")
    histories(c)


def c06(c):
    c.build("dagh")
    replay(c, "dag/Shapes5.cfg" if c.thorough() else "dag/Shapes.cfg", spec="dag/DagShapes.tla",
           label="every acyclic graph up to relabelling, reduced, then one more operation")
    histories(c)


def walks(c, maxops, reps):
    """Scripts of the caller of a walk, run on the real walkers, validated."""
    c.tlc("dag/MCWalker.tla", "dag/MCWalker.cfg", workers=4,
          label="walker and caller, every interleaving, safety and liveness")
    rec = os.path.join(c.tmp, "walks.ndjson")
    cfg = open(os.path.join(SPEC, "dag/WalkerGen.cfg")).read().replace("MaxOps = 4", f"MaxOps = {maxops}")
    c.tlc("dag/WalkerGen.tla", None, cfg_text=cfg, pipe=("walkh", "replay", "-rec", rec, "-workers", "6", str(reps)),
          label=f"every script of at most {maxops} calls, run on the real walkers")
    lines = open(rec).read().splitlines()
    if not lines:
        if not c.failures:
            raise ToolError("no walk was recorded")
        return
    m = c.validate("dag/WalkerTrace.tla", "dag/WalkerTrace.cfg", rec, "validation of recorded walks")
    if m["matched"] < m["len"]:
        bad = json.loads(lines[m["matched"]])
        stop = any(e["op"] in "SC" for e in bad["events"])
        c.fail("stop" if stop else "ordered", "the specification does not allow this recorded walk: " + lines[m["matched"]],
               {"walk": bad, "harness": ["walkh", "replay"]})


def c05(c):
    c.build("dagh", "walkh")
    t = c.thorough()
    walks(c, 7 if t else 5, 20 if t else 6)


CHECKS = {
    "C01": (["mutation", "panic", "crash"], c01),
    "C02": (["closure", "panic", "crash"], c01),
    "C03": (["views", "snapshot", "panic", "crash"], c01),
    "C04": (["ordered", "panic", "crash"], c04),
    "C05": (["stop", "ordered", "panic", "crash"], c05),
    "C06": (["reduce", "panic", "crash"], c06),
}
