#!/usr/bin/env python3
"""check.py ID: decides property ID on /repo's working tree (see DESIGN.md).

Stages of a check, all driven by the TLA+ specification in spec/:
  emit    TLC enumerates a campaign module, checks its model properties and emits cases with the
          outcome the specification assigns to each; `vh pool` replays them in the real parser.
  model   TLC checks a state machine (no replay).
  trace   the real parser records (input, outcome) traces; TLC validates each against the spec.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: an error of the check itself.
"""
import hashlib, json, os, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
VH = os.path.join(ROOT, "harness/target/debug/vh")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = max(1, min(8, os.cpu_count() or 1))
sys.path.insert(0, HERE)
from plan import PLAN, ASSUME  # noqa: E402


class ToolError(Exception):
    pass


def build():
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(VH):
        raise ToolError("the harness does not build:\n" + r.stdout[-3000:])


def tlc(cfg, module, log, meta, heap, workers, timeout, extra=()):
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{heap}g", "-Xss16m", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-deadlock", "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *extra, module + ".tla"]
    tmp = os.path.dirname(meta)
    env = dict(os.environ, JAVA_TOOL_OPTIONS=f"-Djava.io.tmpdir={tmp}")
    with open(log, "w") as f:
        try:
            subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=env, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC exceeded {timeout} s on {module}")
    shutil.rmtree(meta, ignore_errors=True)
    t = open(log, errors="replace").read()
    if "Model checking completed. No error has been found." not in t:
        i = t.find("Error:")
        raise ToolError(f"TLC did not complete {module} ({log}):\n" + t[max(i, 0):][:1500])
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", t)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.out = os.path.join(ROOT, "out", f"{pid}-{os.getpid()}")
        self.keep = os.path.join(ROOT, "out", "replay")
        self.gen = self.distinct = self.cases = self.evals = self.traces = 0
        self.kinds = {}
        self.samples, self.violations, self.stages, self.known = [], [], [], []
        self.hashes = set()

    def run(self):
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        os.makedirs(self.keep, exist_ok=True)
        scratch = os.path.join(self.out, "scratch")
        os.makedirs(scratch)
        os.environ["VH_SCRATCH"] = scratch
        try:
            for st in PLAN[self.pid]["stages"]:
                t0 = time.time()
                if not st.get(self.tier, st.get("quick")):
                    continue
                before = (self.cases, self.evals, self.distinct)
                getattr(self, "stage_" + st["kind"])(st)
                self.stages.append({"stage": st["kind"], "module": st["module"], "seconds": round(time.time() - t0, 1),
                                    "states": self.distinct - before[2], "cases": self.cases - before[0],
                                    "executions": self.evals - before[1]})
        finally:
            shutil.rmtree(self.out, ignore_errors=True)

    def consts(self, st, **over):
        c = {"Limit": st.get(self.tier, st.get("quick")), "VSeed": self.seed % 100000, "Deep": 1 if self.tier == "thorough" else 0}
        c.update(st.get("const", {}))
        c.update(st.get("const_" + self.tier, {}))
        c.update(over)
        return "CONSTANTS\n" + "".join(f" {k} = {json.dumps(v) if not isinstance(v, bool) else str(v).upper()}\n" for k, v in c.items())

    def stage_model(self, st):
        cfg = os.path.join(self.out, "m.cfg")
        with open(cfg, "w") as f:
            if st.get("const") or st.get("const_" + self.tier):
                c = dict(st.get("const", {}), **st.get("const_" + self.tier, {}))
                f.write("CONSTANTS\n" + "".join(f" {k} = {v}\n" for k, v in c.items()))
            f.write(st.get("cfg", "INIT Init\nNEXT Next\n") + "\nINVARIANT " + " ".join(st["inv"]) + "\n")
            if st.get("props"):
                f.write("PROPERTY " + " ".join(st["props"]) + "\n")
        g, d = tlc(cfg, st["module"], os.path.join(self.out, "m.log"), os.path.join(self.out, "tm", "m"), 8, CPUS, st.get("timeout", 600))
        self.gen += g
        self.distinct += d

    def shards(self, st, extra_consts=None):
        n = st.get("shards", CPUS)
        outs = []
        jobs = []
        for i in range(n):
            of = os.path.join(self.out, f"{st['module']}-{i}.ndjson")
            cfg = os.path.join(self.out, f"{st['module']}-{i}.cfg")
            with open(cfg, "w") as f:
                f.write(self.consts(st, OutFile=of, Shard=i, Shards=n, **(extra_consts or {})))
                f.write(st.get("cfg", "INIT Init\nNEXT Next\n") + "\nINVARIANT " + " ".join(st.get("inv", ["Sound", "Emitted"])) + "\n")
            outs.append(of)
            jobs.append((cfg, i))
        limit = st.get("timeout", 780 if self.tier == "quick" else 7200)

        def one(j):
            tmp = os.path.join(self.out, f"t{j[1]}")
            os.makedirs(tmp, exist_ok=True)
            return tlc(j[0], st["module"], os.path.join(self.out, f"{st['module']}-{j[1]}.log"), os.path.join(tmp, "meta"),
                       st.get("heap", 2), 1, limit)
        with ThreadPoolExecutor(CPUS) as ex:
            for g, d in ex.map(one, jobs):
                self.gen += g
                self.distinct += d
        return [o for o in outs if os.path.exists(o)]

    def pool(self, cases, res, ms=20000):
        r = subprocess.run([VH, "pool", "-j", str(CPUS), "-t", str(ms), cases, res], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ToolError("vh pool: " + r.stdout[-500:])

    def stage_emit(self, st):
        for k, v in st.get("env", {}).items():
            os.environ[k] = v
        if st.get("lib"):  # contents that the cases of this stage refer to
            path = os.path.join(self.out, "lib.json")
            os.environ["VH_LIB"] = path
            st = dict(st, const=dict(st.get("const", {}), LibFile=path))
        try:
            self.emitted(st)
        finally:
            for k in st.get("env", {}):
                del os.environ[k]

    def emitted(self, st):
        files = self.shards(st)
        cases = os.path.join(self.out, "cases")
        with open(cases, "wb") as f:
            for p in files:
                with open(p, "rb") as g:
                    shutil.copyfileobj(g, f)
                os.remove(p)
        self.replay(st, cases)

    def stage_mutants(self, st):
        """Files recorded from the encoder, changed and judged by the byte-level reader of the specification."""
        base = st["base"]
        files = self.shards(base)
        cases, res = os.path.join(self.out, "bcases"), os.path.join(self.out, "bres")
        with open(cases, "w") as f:
            for p in files:
                f.write(open(p).read())
                os.remove(p)
        self.pool(cases, res)
        byline = [l for l in open(cases) if l.strip()]
        bs = []
        for l in open(res):
            r = json.loads(l)
            if r["verdict"] != "ok":
                raise ToolError(f"record: {r.get('diff')}")
            as_ = json.loads(byline[r["line"]]).get("as", "section")
            bs += [(json.dumps(r["id"]), as_, x["bytes"]) for x in r["recs"]]
        bs.sort()
        self.bases = [b for _, _, b in bs]
        path = os.path.join(self.out, "bases.ndjson")
        with open(path, "w") as f:
            f.write("".join(json.dumps({"b": b, "as": a}) + "\n" for _, a, b in bs))
        os.environ["VH_BASES"] = path
        self.stage_emit(dict(st, const=dict(st.get("const", {}), BaseFile=path)))

    def replay(self, st, cases):
        res = os.path.join(self.out, "res")
        self.pool(cases, res, st.get("ms", 20000))
        bad = {}
        n = 0
        with open(res) as f:
            for l in f:
                r = json.loads(l)
                n += 1
                self.evals += int(r.get("n") or 1)
                if r["verdict"] != "ok":
                    bad[r["line"]] = r
        if n == 0:
            raise ToolError(f"{st['module']} emitted no cases")
        again = {}
        total = 0
        with open(cases) as f:
            for i, l in enumerate(f):
                if not l.strip():
                    continue
                total += 1
                c = json.loads(l)
                kind = self.shape(c)
                self.kinds[kind] = self.kinds.get(kind, 0) + 1
                key = dict(c)
                key.pop("id", None)
                self.hashes.add(hashlib.sha1(json.dumps(key, sort_keys=True).encode()).digest()[:10])
                if len(self.samples) < 6 and (total in (1, 2, 50)):
                    self.samples.append(self.brief(c))
                if i in bad:
                    again[i] = (l, c)
        if total != n:
            raise ToolError(f"{n} results for {total} cases")
        self.cases += total
        self.traces += total
        for i, (l, c) in again.items():
            r = bad[i]
            if r["verdict"] in ("timeout", "crash") and self.cid(st, c) not in known(self.pid):
                # not due to load: it has to happen again when run alone
                one, oner = os.path.join(self.out, "one"), os.path.join(self.out, "oner")
                open(one, "w").write(l)
                self.pool(one, oner, 60000)
                r2 = json.loads(open(oner).readline())
                if r2["verdict"] == "ok":
                    continue
                r = r2
            if r["verdict"] == "harness-error":
                raise ToolError(f"harness: {r.get('diff')} on {json.dumps(c.get('id'))}")
            self.violate(st, c, l, r)
            if len(self.violations) >= 40:
                break

    @staticmethod
    def shape(c):
        e = c.get("expect", {})
        o = "any outcome but a crash" if e.get("any") else "value" if e.get("ok") else "error"
        return f"{c.get('op')}: {o}"

    @staticmethod
    def brief(c):
        s = json.dumps(c)
        return {"id": c.get("id"), "case": s if len(s) < 3000 else s[:3000] + "..."}

    @staticmethod
    def cid(st, c):
        return f"{st['module']}:{json.dumps(c.get('id'), separators=(',', ':'))}"

    def violate(self, st, c, line, r):
        cid = self.cid(st, c)
        if cid in known(self.pid):
            self.known.append(f"KNOWN-FINDING: property={self.pid} {known(self.pid)[cid]}")
            return
        def whole(x):  # a replay file stands on its own
            if "base" not in x:
                return x
            b = list(self.bases[x["base"] - 1])
            for e in x["edits"]:
                b[e["at"] - 1:e["at"] - 1 + e["del"]] = e["put"] * e.get("times", 1)
            return dict({k: v for k, v in x.items() if k not in ("base", "edits")}, bytes=b)
        if st.get("lib"):
            line = json.dumps(dict(c, lib=json.load(open(os.environ["VH_LIB"]))))
        elif st.get("env", {}).get("VH_AGAIN"):
            c = dict(c, again=int(st["env"]["VH_AGAIN"]))
            line = json.dumps(c)
        if "VH_BASES" in os.environ and not st.get("lib"):
            line = json.dumps(dict(whole(c), **({"tree": [whole(x) for x in c["tree"]]} if "tree" in c else {})))
        k = len(self.violations)
        path = os.path.join(self.keep, f"{self.pid}-{k}.ndjson")
        with open(path, "w") as f:
            f.write(line if line.endswith("\n") else line + "\n")
        with open(path + ".result", "w") as f:
            json.dump(r, f)
        self.violations.append((cid, path, str(r.get("diff"))[:300]))

    def stage_trace(self, st):
        """TLC emits record cases; the parser's recorded outcomes are validated by TLC."""
        files = self.shards(st)
        cases, res = os.path.join(self.out, "rcases"), os.path.join(self.out, "rres")
        with open(cases, "w") as f:
            for p in files:
                f.write(open(p).read())
                os.remove(p)
        self.pool(cases, res, 60000)
        byline = [l for l in open(cases) if l.strip()]
        recs = []
        for l in open(res):
            r = json.loads(l)
            if r["verdict"] in ("crash", "timeout"):
                self.violate(st, json.loads(byline[r["line"]]), byline[r["line"]], r)
                continue
            if r["verdict"] != "ok":
                raise ToolError(f"record: {r.get('diff')}")
            as_ = json.loads(byline[r["line"]]).get("as", "section")
            for x in r["recs"]:
                self.evals += 1
                o = x["out"]
                if "panic" in o:
                    self.violate(st, {"id": [r.get("id"), x["m"]]}, json.dumps({"op": "bytes", "as": as_, "bytes": x["bytes"], "expect": {"any": True}}),
                                 {"diff": "panic " + o["panic"]})
                    continue
                recs.append({"id": r.get("id"), "m": x["m"], "bytes": x["bytes"], "ok": bool(o["ok"]), "as": as_,
                             "v": o.get("v", []), "msg": o.get("msg", "")})
        self.cases += len(recs)
        if not recs:
            raise ToolError("nothing recorded")
        for x in recs:
            k = "recorded: " + ("value" if x["ok"] else "error")
            self.kinds[k] = self.kinds.get(k, 0) + 1
            self.hashes.add(hashlib.sha1(bytes(x["bytes"])).digest()[:10])
        if len(self.samples) < 8:
            x = recs[0]
            self.samples.append({"id": x["id"], "mutation": x["m"], "bytes": len(x["bytes"]), "accepted": x["ok"]})
        recs.sort(key=lambda x: -len(x["bytes"]))
        n = CPUS
        jobs = []
        for i in range(n):
            part = recs[i::n]
            if not part:
                continue
            tf = os.path.join(self.out, f"trace-{i}.ndjson")
            bf = os.path.join(self.out, f"bad-{i}.ndjson")
            with open(tf, "w") as f:
                for x in part:
                    f.write(json.dumps({"bytes": x["bytes"], "ok": x["ok"], "as": x["as"], "v": x["v"] if st.get("views") else []}) + "\n")
            cfg = os.path.join(self.out, f"v-{i}.cfg")
            with open(cfg, "w") as f:
                f.write(f"CONSTANTS\n TraceFile = \"{tf}\"\n OutFile = \"{bf}\"\nINIT Init\nNEXT Next\nINVARIANT Recorded\n")
            jobs.append((cfg, i, part, bf))

        def one(j):
            tmp = os.path.join(self.out, f"t{j[1]}")
            os.makedirs(tmp, exist_ok=True)
            return tlc(j[0], st["validator"], os.path.join(self.out, f"v-{j[1]}.log"), os.path.join(tmp, "meta"), 3, 1, 7200 if self.tier == "thorough" else 780)
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(one, jobs))
        for (g, d), (cfg, i, part, bf) in zip(rs, jobs):
            self.gen += g
            self.distinct += d
            if d < len(part):
                raise ToolError(f"{st['validator']}: {d} states for {len(part)} records")
            self.traces += len(part)
            if os.path.exists(bf):
                for l in open(bf):
                    b = json.loads(l)
                    x = part[b["n"] - 1]
                    want = "a value" if b["want"] else "an error"
                    case = {"op": "bytes", "as": x["as"], "bytes": x["bytes"], "expect": {"ok": bool(b["want"])}, "id": [x["id"], x["m"]]}
                    self.violate(st, case, json.dumps(case), {"diff": f"{x['m']}: the specification requires {want}, the parser returned {'a value' if x['ok'] else 'an error: ' + x['msg']}"})


_known = None


def known(pid):
    """open findings: lines `finding: property=<id> case=<case id> <what fails>`"""
    global _known
    if _known is None:
        _known = {}
        p = os.path.join(ROOT, "known_findings.txt")
        for l in open(p) if os.path.exists(p) else []:
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", l)
            if m:
                _known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return _known.get(pid, {})


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        build()
        c = Check(pid, tier, seed)
        c.run()
    except ToolError as e:
        print(f"check {pid}: {e}", file=sys.stderr)
        sys.exit(2)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": PLAN[pid]["level"], "wall_s": round(time.time() - t0, 1),
          "violations": len(c.violations), "assumptions": ASSUME + PLAN[pid].get("assume", []),
          "coverage": {"states": c.distinct, "transitions": max(c.gen - 1, 0), "traces_validated_against_impl": c.traces,
                       "evaluations": c.evals, "distinct_nontrivial": len(c.hashes), "rule": PLAN[pid]["rule"],
                       "cases_by_kind": c.kinds, "stages": c.stages, "samples": c.samples}}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(set(c.known)):
        print(k)
    for cid, path, d in c.violations:
        print(f"  {cid}: {d}", file=sys.stderr)
    for cid, path, d in c.violations[:5]:
        print(f"VIOLATION property={pid} replay={path}")
    print(f"{pid}: {c.cases} cases, {c.evals} executions, {c.distinct} states, {len(c.violations)} violations, {ev['wall_s']} s")
    sys.exit(1 if c.violations else 0)


main()
