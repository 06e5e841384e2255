#!/usr/bin/env python3
"""Decides one property: explores the specification with TLC, replays every
behaviour it prints into the real code built from /repo's working tree, and
reports each disagreement.

  check.py C01                      run the check (VERIF_TIER, VERIF_SEED)
  check.py C01 --replay FILE        run one recorded case again
  check.py --setup                  smoke build
exit 0: held   1: VIOLATION   2: the check itself could not decide
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from suites import SUITES

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JAVA = shutil.which("java") or "/usr/bin/java"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Broken(Exception):
    """The check cannot give an answer."""


def go_env():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", TZ="UTC", LC_ALL="C")
    root = "/opt/veriftools/go1.27.3"
    if os.path.isdir(root):
        env["GOROOT"] = root
        env["PATH"] = root + "/bin:" + env["PATH"]
    env.setdefault("HOME", "/root")
    env.setdefault("GOCACHE", os.path.join(env["HOME"], ".cache/go-build"))
    return env


def build(scratch, race=False):
    """The harness, with the library as it is in /repo now."""
    out = os.path.join(scratch, "harness-race" if race else "harness")
    src = os.path.join(scratch, "src")
    if not os.path.isdir(src):
        shutil.copytree(os.path.join(VERIF, "harness"), src)
        mod = open(os.path.join(src, "go.mod")).read()
        mod = re.sub(r"=> \S+", "=> " + REPO, mod)
        open(os.path.join(src, "go.mod"), "w").write(mod)
    cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
    p = subprocess.run(cmd, cwd=src, env=go_env(), capture_output=True, text=True)
    if p.returncode != 0:
        raise Broken("build failed:\n" + p.stdout + p.stderr)
    return out


class Suite:
    def __init__(self, spec, prop, idx, scratch, ctx):
        self.s, self.prop, self.idx, self.ctx = spec, prop, idx, ctx
        self.name = spec.get("name") or spec.get("cfg", spec.get("module", ""))
        self.dir = os.path.join(scratch, "s%d" % idx)
        os.mkdir(self.dir)
        self.tlc = {}
        self.report = {}

    def param(self, key, default=None):
        v = self.s.get(key, default)
        if isinstance(v, dict) and set(v) <= {"quick", "thorough"}:
            v = v.get(TIER, default)
        return v

    def run(self):
        cases = None
        if self.s.get("gen"):
            cases = os.path.join(self.dir, "cases.ndjson")
            self.generate(cases)
        out = self.explore(cases) if self.s.get("module") else cases
        traces = os.path.join(self.dir, "traces") if self.s.get("then") else None
        verdicts = None
        if self.s.get("handler"):
            self.replay(out, traces=traces)
        else:
            self.report = {"cases": 0, "distinct": 0, "classes": {}, "bad": 0, "samples": [], "mismatches": []}
        if self.s.get("then") and self.report["bad"] == 0:
            verdicts = self.accept(traces)
        if self.s.get("handler"):
            self.enough()
        for f in (out, cases, traces, verdicts):
            if f and os.path.exists(f) and not os.environ.get("VERIF_KEEP"):
                os.unlink(f)

    def enough(self):
        least = self.param("min", 1)
        if self.report["bad"] == 0 and self.report["cases"] < least:
            raise Broken("%s: only %d behaviours, expected %d" % (self.name, self.report["cases"], least))
        if self.report["bad"] == 0:
            for c in self.s.get("classes", []):
                if not any(k.startswith(c) for k in self.report["classes"]):
                    raise Broken("%s: no behaviour of kind %r" % (self.name, c))


    def accept(self, traces):
        """The recorded traces, judged by the trace specification."""
        first, tlc = self.report, self.tlc
        if not os.path.exists(traces) or os.path.getsize(traces) == 0:
            raise Broken("%s: no traces recorded" % self.name)
        out = self.explore(traces, self.s["then"])
        self.replay(out, handler="verdict")
        self.report["cases"] += first["cases"]
        self.report["distinct"] += first["distinct"]
        self.report["executions"] = first.get("executions", 0)
        for k, v in first["classes"].items():
            self.report["classes"][k] = self.report["classes"].get(k, 0) + v
        self.tlc["states"] += tlc.get("states", 0)
        self.tlc["transitions"] += tlc.get("transitions", 0)
        self.tlc["config"] = tlc.get("config", "") + " + " + self.tlc["config"]
        return out

    def generate(self, cases):
        n = self.param("n", 1000)
        cmd = [self.ctx["harness"], "gen", "-handler", self.s["gen"], "-n", str(n), "-seed",
               str(SEED * 1000 + self.idx), "-prop", self.prop, "-tier", TIER, "-out", cases]
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=self.ctx["limit"], env=go_env())
        if p.returncode != 0:
            raise Broken("%s: generator failed: %s" % (self.name, (p.stdout + p.stderr)[-1500:]))

    def explore(self, cases, module=None):
        """Run TLC; the file of cases may be split over processes, which share no table of strings."""
        cfg = module or self.s.get("cfg", self.s["module"])
        module = module or self.s["module"]
        path = os.path.join(VERIF, "spec", cfg + ".thorough.cfg")
        if TIER != "thorough" or not os.path.exists(path):
            path = os.path.join(VERIF, "spec", cfg + ".cfg")
        out = os.path.join(self.dir, "tlc-%s.out" % cfg)
        t = time.time()
        shards = self.param("shards", 1) if cases and module == self.s["module"] else 1
        if shards > 1:
            lines = open(cases, "rb").read().splitlines(True)
            k = -(-len(lines) // shards)
            parts = [lines[i:i + k] for i in range(0, len(lines), k)]
            with ThreadPoolExecutor(len(parts)) as ex:
                runs = [ex.submit(self.tlc_run, module, path, "%s.%d" % (out, i), part, 1, "2g")
                        for i, part in enumerate(parts)]
            stats = [r.result() for r in runs]
            with open(out, "wb") as f:
                for i in range(len(parts)):
                    with open("%s.%d" % (out, i), "rb") as g:
                        shutil.copyfileobj(g, f)
                    os.unlink("%s.%d" % (out, i))
        else:
            stats = [self.tlc_run(module, path, out, cases, self.ctx["workers"], self.param("heap", "6g"))]
        self.tlc = {"config": os.path.basename(path), "states": sum(s[0] for s in stats),
                    "transitions": sum(s[1] for s in stats), "depth": max(s[2] for s in stats),
                    "seconds": round(time.time() - t, 1)}
        return out

    def tlc_run(self, module, path, out, cases, workers, heap):
        meta = out + ".meta"
        env = dict(os.environ, VERIF_CHR=os.path.join(VERIF, "spec/chr.json"), LC_ALL="C.UTF-8")
        env.pop("JAVA_TOOL_OPTIONS", None)
        if isinstance(cases, list):
            with open(out + ".cases", "wb") as f:
                f.writelines(cases)
            cases = out + ".cases"
        if cases:
            env["VERIF_CASES"] = cases
        cmd = [JAVA, "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC",
               "-Dtlc2.tool.queue.IStateQueue=MemStateQueue", "-Dfile.encoding=UTF-8",
               "-Dstdout.encoding=UTF-8", "-Dstderr.encoding=UTF-8", "-Djava.io.tmpdir=" + self.dir,
               "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
               "-workers", str(workers), "-config", path, module + ".tla"]
        with open(out, "wb") as f:
            p = subprocess.Popen(cmd, cwd=os.path.join(VERIF, "spec"), env=env, stdout=f,
                                 stderr=subprocess.STDOUT, start_new_session=True)
            try:
                p.wait(timeout=max(10, self.ctx["deadline"] - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                raise Broken("%s: TLC ran out of time" % self.name)
        plain = [l for l in open(out, "rb").read().split(b"\n") if not l.startswith(b'"')]
        text = b"\n".join(plain).decode("utf-8", "replace")
        if p.returncode != 0 or "Model checking completed. No error has been found." not in text:
            raise Broken("%s: TLC failed (%d):\n%s" % (self.name, p.returncode, text[-3000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        d = re.search(r"depth of the complete state graph search is (\d+)", text)
        shutil.rmtree(meta, ignore_errors=True)
        return int(m.group(2)), int(m.group(1)), int(d.group(1)) if d else 0

    def replay(self, data, serial=False, handler=None, traces=None):
        rep = os.path.join(self.dir, "report.json")
        journal = os.path.join(self.dir, "journal")
        harness = self.ctx["race"] if self.s.get("race") else self.ctx["harness"]
        cmd = [harness, "replay", "-prop", self.prop, "-handler", handler or self.s["handler"],
               "-seed", str(SEED), "-tier", TIER, "-out", rep, "-scratch", self.dir]
        if traces:
            cmd += ["-traces", traces]
        if serial:
            cmd += ["-serial", "-journal", journal]
        env = go_env()
        env["GORACE"] = "halt_on_error=1 exitcode=66"
        p = subprocess.run(cmd + [data], capture_output=True, text=True, errors="replace", env=env,
                           timeout=max(10, self.ctx["deadline"] - time.time()))
        if p.returncode != 0:
            if "harness:" in p.stderr:
                raise Broken("%s: harness failed: %s" % (self.name, p.stderr[-2000:]))
            if not serial and not self.s.get("race"):
                return self.replay(data, True, handler, traces)
            case = {}
            if os.path.exists(journal):
                case = json.loads(open(journal, "rb").read().decode("utf-8", "replace"))
            why = "the process died: " + " | ".join(p.stderr.split("\n")[:12])[:1500]
            self.report = {"cases": 0, "distinct": 0, "classes": {}, "bad": 1, "samples": [],
                           "mismatches": [{"why": why, "case": case}]}
            return
        self.report = json.load(open(rep))


def known_findings():
    out = []
    path = os.path.join(VERIF, "known-findings")
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("finding: "):
                out.append(json.loads(l[len("finding: "):]))
    return out


def run_check(prop):
    t0 = time.time()
    suites = [s for s in SUITES[prop] if TIER in s.get("tiers", ("quick", "thorough"))]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        limit = 840 if TIER == "quick" else 6 * 3600
        ctx = {"deadline": t0 + limit, "limit": limit, "workers": 3 if len(suites) > 1 else 6}
        ctx["harness"] = build(scratch)
        if any(s.get("race") for s in suites):
            ctx["race"] = build(scratch, race=True)
        jobs = [Suite(s, prop, i, scratch, ctx) for i, s in enumerate(suites)]
        with ThreadPoolExecutor(3 if TIER == "quick" else 2) as ex:
            futs = [ex.submit(j.run) for j in jobs]
        errs = [f.exception() for f in futs if f.exception()]
        return conclude(prop, jobs, errs, t0)
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def conclude(prop, jobs, errs, t0):
    known = [k for k in known_findings() if k["property"] == prop]
    hit, new = set(), []
    for j in jobs:
        for m in j.report.get("mismatches", []):
            k = next((k for k in known if k["match"] in json.dumps(m["case"], sort_keys=True)), None)
            if k is not None:
                hit.add(known.index(k))
            else:
                new.append((j, m))
        if j.report.get("bad", 0) > len(j.report.get("mismatches", [])) and not new:
            errs.append(Broken("%s: more mismatches than recorded" % j.name))
    for i in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[i]["what"]))
    rdir = os.path.join(VERIF, "replays", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    for n, (j, m) in enumerate(new[:10]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%d.json" % (n + 1))
        rec = {"property": prop, "suite": j.name, "handler": j.s["handler"], "then": j.s.get("then"),
               "race": bool(j.s.get("race")), "seed": SEED, "why": m["why"], "case": m["case"]}
        if "trace" in m["case"]:
            how, _, raw = m["case"]["trace"]["x"].partition("\n")
            rec["rejected"], rec["how"], rec["case"] = m["case"], how, json.loads(raw) if raw else None
        json.dump(rec, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  [%s] %s" % (j.name, m["why"][:600]))
    states = sum(j.tlc.get("states", 0) for j in jobs)
    trans = sum(j.tlc.get("transitions", 0) for j in jobs)
    traces = sum(j.report.get("cases", 0) for j in jobs)
    samples = [{"suite": j.name, "case": s} for j in jobs for s in j.report.get("samples", [])[:2]]
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
          "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": traces,
                       "distinct_behaviours": sum(j.report.get("distinct", 0) for j in jobs),
                       "exhaustive": False, "samples": samples[:12],
                       "suites": [{"name": j.name, "module": j.s.get("module", ""), "tlc": j.tlc,
                                   "generated_inputs": j.s.get("gen", ""), "handler": j.s.get("handler", ""),
                                   "executions": j.report.get("executions", 0) or j.report.get("cases", 0),
                                   "trace_specification": j.s.get("then", ""),
                                   "exhaustive_within_bounds": not j.s.get("gen"),
                                   "behaviours": j.report.get("cases", 0),
                                   "distinct": j.report.get("distinct", 0),
                                   "mismatches": j.report.get("bad", 0),
                                   "classes": j.report.get("classes", {})} for j in jobs]},
          "assumptions": ["TLC 1.8.0 and the Go 1.27.3 toolchain",
                          "the harness in /verif/harness projects real values faithfully"],
          "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if new:
        return 1
    if errs:
        for e in errs:
            print("ERROR:", e if isinstance(e, Broken) else repr(e), file=sys.stderr)
        return 2
    print("ok property=%s tier=%s seed=%d states=%d behaviours=%d wall=%.1fs"
          % (prop, TIER, SEED, states, traces, time.time() - t0))
    return 0


def rerun(prop, path):
    r = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    global SEED
    SEED = r.get("seed", 1)
    try:
        h = build(scratch, race=r.get("race", False))
        if r.get("then"):
            if not r["case"]:
                raise Broken("the case is too long to be kept; run the check again with the same seed")
            ctx = {"harness": h, "deadline": time.time() + 600, "limit": 600, "workers": 2}
            j = Suite({"handler": r["handler"], "then": r["then"]}, prop, 0, scratch, ctx)
            case = os.path.join(scratch, "case")
            open(case, "w").write(json.dumps(r["case"]) + "\n")
            j.replay(case, traces=case + ".traces")
            j.accept(case + ".traces")
            for m in j.report["mismatches"]:
                print(m["why"])
            return 1 if j.report["bad"] else 0
        case = os.path.join(scratch, "case")
        open(case, "w").write(json.dumps(r["case"]) + "\n")
        rep = os.path.join(scratch, "rep.json")
        subprocess.run([h, "replay", "-prop", prop, "-handler", r["handler"], "-scratch", scratch,
                        "-seed", str(r.get("seed", 1)), "-out", rep, case], check=True)
        out = json.load(open(rep))
        for m in out["mismatches"]:
            print(m["why"])
        return 1 if out["bad"] else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a == ["--setup"]:
            scratch = tempfile.mkdtemp(prefix="verif-setup-")
            try:
                build(scratch)
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
            print("setup ok")
            return 0
        if len(a) == 3 and a[1] == "--replay":
            return rerun(a[0], a[2])
        if len(a) == 1 and a[0] in SUITES:
            return run_check(a[0])
        print(__doc__, file=sys.stderr)
        return 2
    except (Broken, subprocess.TimeoutExpired) as e:
        print("ERROR:", e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
