#!/usr/bin/env python3
"""Decides one property:  check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Every stage either explores a TLA+ model exhaustively with TLC (and has its
behaviours replayed on the real code), or has TLC check recorded executions of
the real code against the specification (spec/Conf.tla).
Exit 0: held on everything explored.  1: violated (a VIOLATION line is printed).
2: the check itself failed."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, os.path.join(ROOT, "tools"))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    pass


def build(target=None):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="1.81.0")
    t = target or os.path.join(ROOT, "harness", "target")
    env["CARGO_TARGET_DIR"] = t
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=os.path.join(ROOT, "harness"),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout[-3000:])
    return os.path.join(t, "release", "vmh")


def tlc(module, cfg, env=None, workers=1, mem="3g", timeout=800, extra=()):
    d = tempfile.mkdtemp(prefix="tlc")
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + mem, "-cp", CP,
                            "tlc2.TLC", "-noGenerateSpecTE", "-deadlock", "-metadir", d, "-workers", str(workers), "-config", cfg, *extra,
                            module], cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return p.returncode, p.stdout


def tla_lines(out, tag):
    r = []
    for l in out.splitlines():
        if l.startswith('"@' + tag):
            r.append(json.loads(json.loads(l)[len(tag) + 2:]))
    return r


def states(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Run:
    """one check run: collects coverage, violations and findings"""

    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.bin = None
        self.viol = []          # (description, replay case or None)
        self.cov = {"traces": 0, "cases": 0, "steps": 0, "insts": 0, "states": 0, "generated": 0, "samples": [], "outcomes": {}, "ops": 0, "stages": []}
        self.known = load_known(prop)
        self.known_hit = {}
        self.others = 0
        self.lock = threading.Lock()

    # -- conformance of a file of recorded cases ---------------------------
    def conform(self, path, scope=None):
        n, chaos = 0, False
        for l in open(path):
            n += 1
            chaos = chaos or '"chaos":true' in l
        if n == 0:
            return
        env = {"CASES": path}
        if chaos:
            env["CHAOS"] = self.chaos()
        rc, out = tlc("Conf.tla", "Conf.cfg", env, mem=self.mem())
        ends = tla_lines(out, "END")
        if rc != 0 or len(ends) != n:
            raise ToolError("TLC failed on %s (%d of %d cases): %s" % (path, len(ends), n, out[-3000:]))
        bads = tla_lines(out, "BAD")
        g, dist = states(out)
        index = None
        with self.lock:
            self.cov["traces"] += n
            self.cov["states"] += dist
            self.cov["generated"] += g
            self.cov["insts"] += sum(int(e["n"]) for e in ends)
        for b in bads:
            if index is None:
                index = {}
                for l in open(path):
                    c = json.loads(l)
                    index[(c["id"], c["eng"])] = c
            c = index.get((b["id"], b["eng"]))
            self.report(b, c, scope)
        with self.lock:
            for l in open(path):
                c = json.loads(l)
                self.cov["ops"] += len(c["script"])
                if len(self.cov["samples"]) < 3 and len(l) < 40000:
                    self.cov["samples"].append(sample(c))
                for e in c["script"]:
                    o = e["o"]
                    if "k" in o:
                        self.cov["outcomes"][o["k"] or "ok"] = self.cov["outcomes"].get(o["k"] or "ok", 0) + 1
                    if "s" in o:
                        self.cov["steps"] += len(o["s"])
    def chaos(self):
        """what uninitialised memory holds in chaos mode, asked from the code"""
        f = os.path.join(self.work, "chaos.json")
        with self.lock:
            if not os.path.exists(f):
                subprocess.run([self.bin, "chaos", "--out", f], check=True)
        return f

    def mem(self):
        return "3g"

    def report(self, b, case, scope):
        comps = {x[0] for x in b["bad"]}
        if scope and not (comps & scope):
            with self.lock:
                self.others += 1
            print("note: deviation outside this property: %s" % json.dumps(b)[:300])
            return
        k = match_known(self.known, b, case)
        with self.lock:
            if k is not None:
                self.known_hit[k] = self.known_hit.get(k, 0) + 1
            else:
                self.viol.append((describe(b), case, b))

    def crash(self, what, case):
        b = {"id": case.get("id", "?"), "eng": case.get("eng", ""), "at": 0, "op": "crash", "bad": [["crash", what]]}
        k = match_known(self.known, b, case)
        with self.lock:
            if k is not None:
                self.known_hit[k] = self.known_hit.get(k, 0) + 1
            else:
                self.viol.append(("%s: %s on %s" % (b["id"], what, b["eng"]), case, b))

    # -- running the harness ------------------------------------------------
    def harness(self, args, tag, timeout=300):
        """runs vmh; returns stdout; crashes and hangs of the code become violations"""
        prog = os.path.join(self.work, "progress-" + tag)
        try:
            p = subprocess.run([self.bin, *args, "--progress", prog], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=timeout, errors="replace")
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            rc, out, err = "timeout", "", ""
        ok = "@DONE" in out
        for l in out.splitlines():
            if l.startswith("@PANIC "):
                v = json.loads(l[7:])
                self.crash("panic: " + v["panic"][:300], v["case"])
        if not ok:
            if rc == "timeout" or (isinstance(rc, int) and rc < 0):
                try:
                    case = json.load(open(prog))
                except Exception:
                    case = {"id": "unknown"}
                self.crash("did not return (limit %ds)" % timeout if rc == "timeout" else "killed by signal %d" % -rc, case)
            else:
                raise ToolError("vmh %s failed (%s): %s" % (" ".join(args), rc, err[-2000:]))
        m = re.search(r"@DONE cases=(\d+)", out)
        if m:
            with self.lock:
                self.cov["cases"] += int(m.group(1))
        return ok

    def rand(self, profile, n, scope=None, chunks=None, env=None, first=0):
        """n generated cases of a profile, recorded and conformed, in parallel"""
        k = chunks or NPROC
        per = (n + k - 1) // k
        errs = []

        def one(i):
            try:
                f = os.path.join(self.work, "%s-%d.jsonl" % (profile, i))
                self.harness(["gen", "--prop", profile, "--seed", str(self.seed), "--from", str(first + i * per), "--n",
                              str(per), "--out", f], "%s-%d" % (profile, i))
                if os.path.exists(f):
                    trim(f)
                    self.conform(f, scope)
                    os.remove(f)
            except ToolError as e:
                errs.append(e)

        t = time.time()
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, range(k)))
        if errs:
            raise errs[0]
        self.cov["stages"].append({"stage": "recorded executions vs Conf.tla", "profile": profile, "cases": per * k,
                                   "seconds": round(time.time() - t, 1)})

    def model(self, module, cfg=None, replay=None, workers=4, mem="4g", env=None, timeout=600, name=None):
        """exhaustive TLC run; lines "@CASE" printed by the model are replayed on the code"""
        t = time.time()
        rc, out = tlc(module + ".tla", (cfg or module) + ".cfg", env, workers=workers, mem=mem, timeout=timeout)
        g, dist = states(out)
        if rc != 0:
            raise ToolError("model %s: %s" % (module, out[-3000:]))
        cases = tla_lines(out, "CASE")
        self.cov["states"] += dist
        self.cov["generated"] += g
        self.cov["stages"].append({"stage": "TLC model", "module": module, "config": cfg or module, "generated": g,
                                   "distinct": dist, "behaviours": len(cases), "seconds": round(time.time() - t, 1)})
        if replay:
            self.replay_cases(replay(cases), cfg or module)

    def replay_cases(self, cases, name, scope=None):
        cases = list(cases)
        k = NPROC
        errs = []

        def one(i):
            try:
                f = os.path.join(self.work, "%s-in-%d.jsonl" % (name, i))
                o = os.path.join(self.work, "%s-out-%d.jsonl" % (name, i))
                with open(f, "w") as h:
                    for c in cases[i::k]:
                        h.write(json.dumps(c) + "\n")
                self.harness(["exec", "--in", f, "--out", o], "%s-%d" % (name, i))
                if os.path.exists(o):
                    trim(o)
                    self.conform(o, scope)
            except ToolError as e:
                errs.append(e)

        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, range(k)))
        if errs:
            raise errs[0]
        self.cov["stages"].append({"stage": "model behaviours replayed on the code", "model": name, "behaviours": len(cases)})


def trim(path):
    """drop a last line cut short by a crash"""
    b = open(path, "rb").read()
    if b and not b.endswith(b"\n"):
        open(path, "wb").write(b[:b.rfind(b"\n") + 1])


def sample(c):
    """a recorded case, shortened for the evidence file"""
    def cut(x):
        s = json.dumps(x)
        return x if len(s) < 300 else s[:280] + " ..."
    s = {k: cut(c[k]) for k in ("id", "eng", "x", "v", "eb", "ea", "mop", "cost", "sys", "sz", "max") if k in c}
    s["script"] = [{k: cut(x) for k, x in e.items()} for e in c["script"][:8]]
    s["script_length"] = len(c["script"])
    return s


def describe(b):
    return "case %s on %s: script entry %s (%s): %s" % (b["id"], b["eng"], b["at"], b["op"], json.dumps(b["bad"]))


def load_known(prop):
    r = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("fixed:"):
                k = json.loads(l)
                if k["property"] == prop:
                    r.append(k)
    return r


def match_known(known, b, case):
    import known as K
    for i, k in enumerate(known):
        if K.matches(k, b, case):
            return i
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vm-%s-" % a.prop, dir=os.environ.get("VM_WORK"))
    r = Run(a.prop, a.tier, seed, work)
    try:
        r.bin = build()
        if a.replay:
            c = json.load(open(a.replay))["case"]
            r.replay_cases([c], "replay")
        else:
            import stages
            stages.run(r)
        status = 1 if r.viol else 0
    except ToolError as e:
        print("ERROR %s" % e)
        status = 1 if r.viol else 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    write_out(r, a, t0)
    sys.exit(status)


def write_out(r, a, t0):
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    for i, k in enumerate(r.known):
        if i in r.known_hit:
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (a.prop, k["what"], r.known_hit[i]))
        else:
            print("KNOWN-FINDING: property=%s %s (not met in this run)" % (a.prop, k["what"]))
    path = ""
    for i, (d, case, b) in enumerate(r.viol[:5]):
        path = os.path.join("evidence", "replay", "%s-%d.json" % (a.prop, i))
        json.dump({"what": d, "case": case, "verdict": b}, open(os.path.join(ROOT, path), "w"))
        print("  " + d[:600])
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
    if len(r.viol) > 5:
        print("  ... %d violations in all" % len(r.viol))
    if a.replay:
        return
    import evidence
    evidence.write(r, a, time.time() - t0, os.path.join(ev, a.prop + ".json"))
    print("%s: %d cases, %d traces checked, %d states, %d violations, %.0fs" %
          (a.prop, r.cov["cases"], r.cov["traces"], r.cov["states"], len(r.viol), time.time() - t0))


if __name__ == "__main__":
    main()
