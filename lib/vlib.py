"""Shared machinery of the checks: TLC, the Go harness, evidence, verdicts."""
import concurrent.futures
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The check could not decide: exit status 3."""


def go_env():
    env = dict(os.environ)
    path = "/opt/vp/env.sh"
    if os.path.exists(path):
        out = subprocess.run(["bash", "-c", f". {path}; env -0"], capture_output=True, check=True).stdout
        env = dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)
    env.setdefault("GOFLAGS", "-mod=mod")
    for k in ("GOPROXY",):
        env.setdefault(k, "off")
    return env


class Check:
    def __init__(self, prop, areas, level="model_checking"):
        self.prop = prop
        self.areas = set(areas)
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.env = go_env()
        self.runs = []            # what every run covered, for the evidence
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.failures = []        # (area, message, replay object)
        self.other = {}           # failures that other properties decide
        self.assumptions = []
        self.known = []
        self.bin = None
        self.round = 0            # of the random runs, in the thorough tier

    # -- building -----------------------------------------------------------
    def thorough(self):
        return self.tier == "thorough"

    def left(self, until):
        """Seconds until so many seconds after the start of the check."""
        return until - (time.time() - self.t0)

    def rounds(self, fn, until=640):
        """Random runs: once, or with other seeds again and again."""
        fn(1)
        while self.thorough() and self.left(until) > 0 and not self.failures:
            self.round += 1
            fn(3)

    def build(self, *progs):
        src = os.path.join(self.tmp, "harness")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
            if REPO != "/repo":
                subprocess.run(["go", "mod", "edit", "-replace", f"github.com/hexbee-net/etxe={REPO}"],
                               cwd=src, env=self.env, check=True)
        self.bin = os.path.join(self.tmp, "bin")
        os.makedirs(self.bin, exist_ok=True)
        r = subprocess.run(["go", "build", "-o", self.bin + "/"] + ["./" + p for p in progs],
                           cwd=src, env=self.env, capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("the harness does not build:\n" + r.stdout + r.stderr)

    def build_race(self, prog, name):
        """The same program with the race detector."""
        src = os.path.join(self.tmp, "harness")
        env = dict(self.env, CGO_ENABLED="1")
        r = subprocess.run(["go", "build", "-race", "-o", os.path.join(self.bin, name), "./" + prog],
                           cwd=src, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("the harness does not build with -race:\n" + r.stdout + r.stderr)

    # -- TLC ----------------------------------------------------------------
    def tlc(self, spec, cfg, workers=1, simulate=None, seed=None, env=None, timeout=840,
            pipe=None, label=None, heap="3g", dfid=None, expect_rc=(0,), count=True, cfg_text=None, stop=None):
        """Runs TLC; with pipe, its behaviours go to a harness program.  After
        stop seconds TLC is ended; what it found until then counts."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        specfile = os.path.join(SPEC, spec)
        if cfg_text is not None:
            cfgfile = os.path.join(d, "gen.cfg")
            with open(cfgfile, "w") as f:
                f.write(cfg_text)
        else:
            cfgfile = os.path.join(SPEC, cfg)
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", *(["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC", "-XX:ParallelGCThreads=2"]),
               # short runs end before the better compiler pays
               *(["-XX:TieredStopAtLevel=1"] if not self.thorough() else []),
               f"-Djava.io.tmpdir={d}", "-DTLA-Library=" + os.path.join(SPEC, "lib"),
               *([f"-Dtlc2.TLC.stopAfter={max(5, int(stop))}"] if stop else []),
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", cfgfile]
        if simulate:
            cmd += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]), "-seed", str(seed)]
        cmd.append(specfile)
        e = dict(os.environ)
        e.update(env or {})
        log = os.path.join(d, "log")
        t = time.time()
        rep = None
        if pipe:
            p1 = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=open(log + ".err", "w"), env=e, cwd=d,
                                  start_new_session=True)
            prog, handler, args = pipe[0], pipe[1], list(pipe[2:])
            he = dict(self.env)
            he.update(env or {})
            p2 = subprocess.Popen([os.path.join(self.bin, prog), handler, "-log", log] + args,
                                  stdin=p1.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=he, cwd=d,
                                  start_new_session=True)
            p1.stdout.close()
            try:
                out, err = p2.communicate(timeout=timeout)
                p1.wait(timeout=60)
            except subprocess.TimeoutExpired:
                for p in (p1, p2):
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                raise ToolError(f"{spec} {cfg}: no end within {timeout} s")
            rc = p1.returncode
            if p2.returncode != 0:
                raise ToolError(f"harness {prog} {handler} failed: {err.decode()[-3000:]}")
            rep = json.loads(out)
        else:
            with open(log, "w") as f:
                try:
                    r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=timeout)
                except subprocess.TimeoutExpired:
                    raise ToolError(f"{spec} {cfg}: TLC did not end within {timeout} s")
            rc = r.returncode
        text = open(log, errors="replace").read()
        res = {"spec": spec, "cfg": cfg or "generated", "rc": rc, "log": text, "report": rep, "seconds": round(time.time() - t, 1)}
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        if m:
            res["generated"] = int(m[-1][0].replace(",", ""))
            res["distinct"] = int(m[-1][1].replace(",", ""))
        m = re.findall(r"([\d,]+) states left on queue", text)
        if m:
            res["queue"] = int(m[-1].replace(",", ""))
        m = re.findall(r"The number of states generated: ([\d,]+)", text)
        if simulate and m:
            res["generated"] = int(m[-1].replace(",", ""))
            res["distinct"] = 0
        shutil.rmtree(d, ignore_errors=True)
        if rc not in expect_rc:
            err = ""
            if pipe:
                err = ""
            raise ToolError(f"TLC failed on {spec} with {cfg} (exit {rc}):\n{text[-4000:]}{err}")
        if rep and rep.get("errors"):
            raise ToolError(f"{spec} {cfg}: harness errors: " + "\n".join(e[:700] for e in rep["errors"])[:3000])
        if count:
            entry = {"spec": spec, "config": cfg or "generated", "seconds": res["seconds"]}
            if label:
                entry["what"] = label
            if simulate:
                entry["random_runs"] = simulate[0]
                entry["seed"] = seed
                entry["states_generated"] = res.get("generated", 0)
            elif "distinct" in res:
                entry["states"] = res["distinct"]
                entry["transitions"] = res["generated"]
                if stop and res.get("queue"):
                    entry["ended_early"] = f"after {int(stop)} s, with {res['queue']} states not explored further"
            self.states += res.get("distinct", 0)
            self.transitions += res.get("generated", 0)
            if rep:
                entry["behaviours_replayed"] = rep["behaviours"]
                entry["distinct_behaviours"] = rep["distinct"]
                entry["replayed"] = dict(sorted((rep.get("stats") or {}).items()))
            self.runs.append(entry)
            if rep:
                self.take(rep, spec, cfg, pipe)
        return res

    def take(self, rep, spec, cfg, pipe):
        self.traces += rep["distinct"]
        for s in rep.get("samples") or []:
            if len(self.samples) < 4:
                self.samples.append(s)
        for e in rep.get("examples") or []:
            mine = [m for m in e["mismatches"] if m["area"] in self.areas]
            for m in e["mismatches"]:
                if m["area"] not in self.areas:
                    self.other[m["area"]] = self.other.get(m["area"], 0) + 1
            if mine:
                self.failures.append((mine[0]["area"], mine[0]["msg"], {
                    "spec": spec, "config": cfg, "harness": list(pipe), "mismatches": e["mismatches"],
                    "behaviour": e["behaviour"]}))

    def simulate(self, spec, cfg, num, depth, pipe, procs=6, label=None, env=None, timeout=840, heap="2g", cfg_text=None,
                 records=None):
        """Several random simulations side by side, seeded from VERIF_SEED;
        records, if given, is filled with the files of recorded traces."""
        per = max(1, num // procs)
        seeds = [zlib.crc32(f"{self.seed}/{spec}/{cfg}/{label}/{i}{'/' + str(self.round) if self.round else ''}".encode()) for i in range(procs)]
        ps = []
        for i in range(procs):
            w = ["-workers", "2"]
            if records is not None:
                records.append(os.path.join(self.tmp, f"rec-{len(records)}-{zlib.crc32(str(label).encode())}"))
                w += ["-rec", records[-1]]
            ps.append([pipe[0], pipe[1]] + w + list(pipe[2:]))
        with concurrent.futures.ThreadPoolExecutor(procs) as ex:
            fs = [ex.submit(self.tlc, spec, cfg, 1, (per, depth), s, env, timeout, p, label, heap,
                            count=False, cfg_text=cfg_text) for s, p in zip(seeds, ps)]
            rs = [f.result() for f in fs]
        entry = {"spec": spec, "config": cfg or "generated", "random_runs": per * procs,
                 "seeds": seeds, "states_generated": 0, "behaviours_replayed": 0, "distinct_behaviours": 0, "replayed": {},
                 "seconds": max(r["seconds"] for r in rs)}
        if label:
            entry["what"] = label
        for r in rs:
            rep = r["report"]
            entry["states_generated"] += r.get("generated", 0)
            entry["behaviours_replayed"] += rep["behaviours"]
            entry["distinct_behaviours"] += rep["distinct"]
            for k, v in (rep.get("stats") or {}).items():
                entry["replayed"][k] = entry["replayed"].get(k, 0) + v
            self.transitions += r.get("generated", 0)
            self.take(rep, spec, cfg, pipe)
        entry["replayed"] = dict(sorted(entry["replayed"].items()))
        self.runs.append(entry)
        return entry

    def validate(self, spec, cfg, path, what, timeout=840):
        """Trace validation: how many events/records TLC could follow."""
        res = self.tlc(spec, cfg, env={"TRACE": path}, count=False, expect_rc=(0, 1, 10, 12, 13), timeout=timeout)
        m = None
        for l in res["log"].splitlines():
            if l.startswith('"@T '):
                m = json.loads(json.loads(l)[3:])
        if m is None or (m["matched"] >= m["len"] and res["rc"] != 0):
            raise ToolError(f"{spec}: no verdict:\n" + res["log"][-3000:])
        self.runs.append({"spec": spec, "config": cfg, "what": what, "recorded": m["len"], "accepted": m["matched"],
                          "seconds": res["seconds"]})
        self.states += res.get("distinct", 0)
        self.transitions += res.get("generated", 0)
        return m

    def judge(self, spec, cfg, lines, what, procs=8, timeout=840, heap="1500m"):
        """Records judged one by one by an invariant; the bad ones."""
        if not lines:
            return []
        parts = [lines[i::procs] for i in range(min(procs, len(lines)))]

        def one(i):
            path = os.path.join(self.tmp, f"judge{i}.ndjson")
            with open(path, "w") as f:
                f.write("".join(l + "\n" for l in parts[i]))
            res = self.tlc(spec, cfg, workers=1, env={"TRACE": path}, count=False, timeout=timeout, heap=heap)
            os.unlink(path)
            if res.get("distinct") != len(parts[i]):
                raise ToolError(f"{spec}: {res.get('distinct')} of {len(parts[i])} records judged:\n" + res["log"][-3000:])
            return res, [parts[i][int(m) - 1] for m in re.findall(r"@B (\d+)", res["log"])]

        with concurrent.futures.ThreadPoolExecutor(procs) as ex:
            rs = list(ex.map(one, range(len(parts))))
        bad = [l for _, b in rs for l in b]
        self.runs.append({"spec": spec, "config": cfg, "what": what, "recorded": len(lines), "accepted": len(lines) - len(bad),
                          "seconds": max(r["seconds"] for r, _ in rs)})
        self.states += sum(r["distinct"] for r, _ in rs)
        self.transitions += sum(r["generated"] for r, _ in rs)
        return bad

    def parallel(self, *thunks):
        with concurrent.futures.ThreadPoolExecutor(len(thunks)) as ex:
            return [f.result() for f in [ex.submit(t) for t in thunks]]

    # -- running the harness alone -----------------------------------------
    def harness(self, prog, *args, stdin=None, timeout=300, env=None):
        e = dict(self.env)
        e.update(env or {})
        try:
            return subprocess.run([os.path.join(self.bin, prog)] + [str(a) for a in args], input=stdin,
                                  capture_output=True, timeout=timeout, env=e, cwd=self.tmp)
        except subprocess.TimeoutExpired:
            return None

    def fail(self, area, msg, obj):
        if area in self.areas:
            self.failures.append((area, msg, obj))
        else:
            self.other[area] = self.other.get(area, 0) + 1

    # -- the end ------------------------------------------------------------
    def known_findings(self):
        """Entries of known-findings.txt for this property."""
        out = []
        path = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"finding: property=(\S+) input=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self):
        files = []
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(self.prop + "-"):
                os.unlink(os.path.join(rdir, f))
        seen = {}
        for area, msg, obj in sorted(self.failures, key=lambda x: len(json.dumps(x[2]))):
            seen[area] = seen.get(area, 0) + 1
            if seen[area] > 3:
                continue
            name = os.path.join(rdir, f"{self.prop}-{area}-{seen[area]}.json")
            with open(name, "w") as f:
                json.dump(dict(obj, property=self.prop, area=area, message=msg), f, indent=1)
            files.append((name, area, msg))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:4], "runs": self.runs}
        if self.other:
            cov["differences_decided_by_other_properties"] = self.other
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 1), "violations": len(files)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        print(f"{self.prop}: {self.states} states, {self.transitions} transitions, "
              f"{self.traces} behaviours checked against the code, {ev['wall_s']} s")
        for name, area, msg in files:
            print(f"  [{area}] {msg[:600]}")
            print(f"VIOLATION property={self.prop} replay={name}")
        return 1 if files else 0

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
