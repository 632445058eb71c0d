#!/usr/bin/env python3
"""./check.py Pxx [quick|thorough]  -- decides one property of /repo's working tree (see DESIGN.md).
   ./check.py setup                 -- checks that the tools are there (nothing to prebuild)."""
import sys, os, re, json, time, subprocess, shutil, threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(V, "spec")
HARN = os.path.join(V, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, V)
from checks import PROPS, DRIVERS, LIB  # the registry

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class CheckError(Exception):
    pass


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.dir = os.path.join(V, "build", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.notes, self.actions = [], [], [], {}
        self.lock = threading.Lock()

    # ---------------------------------------------------------------- build
    def compile(self, name):
        d = DRIVERS[name]
        exe = os.path.join(self.dir, name)
        srcs = [os.path.join(HARN, d.get("src", name.split("@")[0] + ".cpp"))]
        units = []
        for s in d.get("repo", []):
            for f in LIB.get(s, [s]):
                p = os.path.join(REPO, f)
                if p not in units:
                    units.append(p)
        flags = ["-std=gnu++14", "-w", "-g1", d.get("opt", "-O1"), "-ftrivial-auto-var-init=pattern", "-fno-strict-aliasing", "-D_GLIBCXX_ASSERTIONS",
                 "-I" + os.path.join(HARN, "shim"), "-I" + os.path.join(REPO, "include"),
                 "-I/usr/include/eigen3"] + d.get("flags", [])
        if d.get("asan", True):
            flags += ["-fsanitize=address", "-fno-omit-frame-pointer"]
        if d.get("opencv"):
            flags.append("-I/usr/include/opencv4")
        # small sources that have to compile by themselves; the answer is handed to the driver
        for pname, src in d.get("probes", {}).items():
            ok = subprocess.run(["g++"] + flags + ["-fsyntax-only", os.path.join(HARN, src)], capture_output=True).returncode == 0
            flags.append("-DPROBE_%s=%d" % (pname, ok))
        objs, cmds = [], []
        for s in srcs + units:
            o = exe + "." + re.sub(r"\W", "_", os.path.relpath(s, "/")) + ".o"
            objs.append(o)
            cmds.append(["g++"] + flags + ["-c", s, "-o", o])
        with ThreadPoolExecutor(8) as ex:
            for cmd, r in zip(cmds, ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), cmds)):
                if r.returncode:
                    raise CheckError("cannot compile %s\n%s" % (cmd[-3], r.stderr[-3000:]))
        r = subprocess.run(["g++"] + flags + objs + ["-o", exe] + d.get("libs", []), capture_output=True, text=True)
        if r.returncode:
            raise CheckError("cannot link %s\n%s" % (name, r.stderr[-3000:]))
        return exe

    def drive(self, exe, out, groups, scripts=None, case=None, scale=None):
        cmd = [exe, "--out", out, "--seed", str(SEED), "--tier", self.tier, "--groups", ",".join(groups)]
        if scripts: cmd += ["--scripts", scripts]
        if case: cmd += ["--case", case, "--shards", "1"]
        if scale: cmd += ["--scale", str(scale)]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_odr_violation=0")
        r = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "ab"),
                           timeout=1800 if self.tier == "quick" else 36000)
        if r.returncode:
            raise CheckError("driver %s failed (%d): %s" % (exe, r.returncode, open(out + ".err").read()[-2000:]))

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=8, heap="6g", timeout=None, cont=False, extra=None):
        timeout = timeout or (800 if self.tier == "quick" else 7200)
        tag = module + "_" + os.path.basename(cfg).replace(".cfg", "") + "_" + str(threading.get_ident() % 10000) + "_" + str(time.time_ns() % 100000)
        meta = os.path.join(self.dir, "meta_" + tag)
        os.makedirs(meta, exist_ok=True)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-DTLA-Library=" + SPEC,
               "-cp", TLA_CP, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-nowarning",
               "-config", os.path.join(SPEC, cfg)] + (extra or []) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, cwd=SPEC)
            out = r.stdout + r.stderr
        except subprocess.TimeoutExpired:
            raise CheckError("TLC %s %s timed out" % (module, cfg))
        shutil.rmtree(meta, ignore_errors=True)
        open(os.path.join(self.dir, tag + ".tlc"), "w").write(out if len(out) < 4000000 else out[-4000000:])
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        ok = "Model checking completed. No error has been found." in out
        bad = None
        if not ok:
            if "Deadlock reached" in out: bad = "no step of the specification explains the next recorded event"
            else:
                mm = re.search(r"Error: (Invariant \S+ is violated|Action property .*? is violated|Temporal properties were violated|Property \S+ is violated)", out)
                if mm: bad = mm.group(1)
        if not ok and bad is None and workers > 1 and ("unexpected exception" in out or "Error:" not in out):
            # rare races between TLC's workers on shared values: once more with a single one
            return self.tlc(module, cfg, env, 1, heap, timeout, cont, extra)
        if not ok and bad is None:
            i = out.find("Error:")
            raise CheckError("TLC %s %s: %s" % (module, cfg, out[max(0, i):][:3000]))
        return dict(ok=ok, bad=bad, out=out, gen=gen, dist=dist)

    def model(self, m):
        cfg = m["cfg"] if self.tier == "quick" or "thorough_cfg" not in m else m["thorough_cfg"]
        r = self.tlc(m["module"], cfg, workers=m.get("workers", 4))
        with self.lock:
            self.states += r["dist"]; self.transitions += r["gen"]
            self.notes.append("design model %s/%s: %d distinct states, %d transitions" % (m["module"], cfg, r["dist"], r["gen"]))
        if not r["ok"]:
            # the model does not depend on /repo: this is an error of the specification itself
            raise CheckError("design model %s violates %s\n%s" % (m["module"], r["bad"], r["out"][-3000:]))

    def gen(self, g):
        cfg = g["cfg"] if self.tier == "quick" or "thorough_cfg" not in g else g["thorough_cfg"]
        r = self.tlc(g["module"], cfg, workers=g.get("workers", 4), extra=g.get("extra"))
        if not r["ok"]:
            raise CheckError("generator %s: %s" % (g["module"], r["bad"]))
        lines = re.findall(r'<<"SCRIPT", "((?:[^"\\]|\\.)*)">>', r["out"])
        lines = sorted(set(l.replace('\\"', '"') for l in lines))
        if not lines:
            raise CheckError("generator %s printed no behaviour" % g["module"])
        cap = g.get("max")
        if cap and self.tier == "quick" and len(lines) > cap:
            step = len(lines) / cap
            lines = [lines[int(k * step)] for k in range(cap)]
        p = os.path.join(self.dir, g["module"] + "_" + cfg + ".scripts")
        open(p, "w").write("\n".join(lines) + "\n")
        with self.lock:
            self.states += r["dist"]; self.transitions += r["gen"]
            self.notes.append("generator %s/%s: %d behaviours of the specification to replay" % (g["module"], cfg, len(lines)))
        return p

    def trace(self, t, exe, tracefile, workers=8):
        n = sum(1 for _ in open(tracefile))
        if n == 0:
            raise CheckError("driver recorded nothing for " + t["module"])
        # crashes and hangs first: they are events no specification allows
        crashes = []
        for line in open(tracefile):
            if '"crash":' in line:
                crashes.append(json.loads(line))
        real = []
        for c in crashes[:3]:
            if "no answer" in c["crash"]:
                again = tracefile + ".again"
                self.drive(exe, again, [c["k"]], t.get("_scripts"), case="%s:%d" % (c["k"], c["i"]))
                if '"crash":' not in open(again).read():
                    print("note: a hang of case %s:%d did not repeat; ignored" % (c["k"], c["i"]))
                    continue
            real.append(c)
        if real:
            err = open(tracefile + ".err", errors="replace").read()
            for c in real[:1]:
                self.violate(t, c, None, "the code did not complete the operation: " + c["crash"], err[-6000:])
            return
        if crashes:
            keep = [l for l in open(tracefile) if '"crash":' not in l]
            open(tracefile, "w").writelines(keep)
        # large recordings are judged piece by piece, which keeps the checker within its memory
        with open(tracefile) as f:
            self.samples.append(f.readline().strip()[:700])
        total = 0
        for piece, m in self.pieces(tracefile):
            r = self.tlc(t["module"], t.get("cfg", t["module"] + ".cfg"), env={"TRACE": piece}, workers=workers, heap=t.get("heap", "8g"))
            total += r["dist"]
            with self.lock:
                self.states += r["dist"]; self.transitions += r["gen"]; self.traces += m
            if r["dist"] < m:
                raise CheckError("trace specification %s visited %d states for %d behaviours" % (t["module"], r["dist"], m))
            if not r["ok"]:
                # confirmed by a single worker, so that no race within the checker is taken for a violation
                r = self.confirm(t, piece, r, m)
                if r["ok"]:
                    if piece != tracefile: os.unlink(piece)
                    continue
                cs = re.findall(r"(?:^|/\\ )c = (\d+)", r["out"], re.M)
                st = re.findall(r"(?:^|/\\ )i = (\d+)", r["out"], re.M)
                c = int(cs[-1]) if cs else 1
                piece = r.get("piece", piece)
                with open(piece) as f:
                    for k, line in enumerate(f, 1):
                        if k == c: break
                i = r["out"].find("Error:")
                self.violate(t, json.loads(line), int(st[-1]) if st else None, r["bad"], r["out"][i:i + 20000])
                break
            if piece != tracefile: os.unlink(piece)
        with self.lock:
            self.notes.append("trace validation %s: %d recorded behaviours, %d states" % (t["module"], n, total))

    def confirm(self, t, piece, r, m):
        cs = re.findall(r"(?:^|/\\ )c = (\d+)", r["out"], re.M)
        cfg = t.get("cfg", t["module"] + ".cfg")
        if cs:
            one = piece + ".one"
            with open(piece) as f: lines = f.readlines()
            open(one, "w").write(lines[int(cs[-1]) - 1])
            q = self.tlc(t["module"], cfg, env={"TRACE": one}, workers=1)
            if not q["ok"]:
                q["piece"] = one
                return q
        return self.tlc(t["module"], cfg, env={"TRACE": piece}, workers=1, heap=t.get("heap", "8g"))

    def pieces(self, tracefile, limit=40000000):
        if os.path.getsize(tracefile) <= limit:
            yield tracefile, sum(1 for _ in open(tracefile))
            return
        with open(tracefile) as f:
            k, buf, size = 0, [], 0
            for line in f:
                if buf and size + len(line) > limit:
                    p = "%s.%d" % (tracefile, k); open(p, "w").writelines(buf); yield p, len(buf)
                    k, buf, size = k + 1, [], 0
                buf.append(line); size += len(line)
            p = "%s.%d" % (tracefile, k); open(p, "w").writelines(buf); yield p, len(buf)

    def violate(self, t, case, step, what, detail):
        p = os.path.join(V, "out", self.pid)
        os.makedirs(p, exist_ok=True)
        f = os.path.join(p, "violation_%d.json" % (len(self.violations) + 1))
        rec = dict(property=self.pid, what=what, spec=t["module"], step=step, seed=SEED, tier=self.tier, driver=t["driver"],
                   replay="group %s, case %s: rerun './check.py %s %s' with VERIF_SEED=%d, or the driver with --case %s:%s"
                          % (case.get("k"), case.get("i"), self.pid, self.tier, SEED, case.get("k"), case.get("i")),
                   case=case, detail=detail)
        json.dump(rec, open(f, "w"), indent=1)
        with self.lock:
            self.violations.append((f, what, case, step))

    # ---------------------------------------------------------------- all
    def go(self):
        P = PROPS[self.pid]
        t0 = time.time()
        with ThreadPoolExecutor(16) as ex:
            drivers = sorted(set(t["driver"] for t in P["traces"]))
            fc = {d: ex.submit(self.compile, d) for d in drivers}
            fm = [ex.submit(self.model, m) for m in P.get("models", [])]
            fg = {}
            for t in P["traces"]:
                if "gen" in t:
                    key = json.dumps(t["gen"])
                    if key not in fg: fg[key] = ex.submit(self.gen, t["gen"])
            exes = {d: f.result() for d, f in fc.items()}
            scr = {k: f.result() for k, f in fg.items()}
            if os.environ.get("VERIF_VERBOSE"): print("built after %.1f s" % (time.time() - t0))
            for n, t in enumerate(P["traces"]):
                tf = os.path.join(self.dir, "trace_%d_%s.ndjson" % (n, t["module"]))
                t["_scripts"] = scr[json.dumps(t["gen"])] if "gen" in t else None
                self.drive(exes[t["driver"]], tf, t["groups"], t["_scripts"], scale=t.get("scale"))
                if os.environ.get("VERIF_VERBOSE"): print("%s driven after %.1f s (%d bytes)" % (t["module"], time.time() - t0, os.path.getsize(tf)))
                self.trace(t, exes[t["driver"]], tf)
                if os.environ.get("VERIF_VERBOSE"): print("%s validated after %.1f s" % (t["module"], time.time() - t0))
                if not os.environ.get("VERIF_KEEP"): os.unlink(tf)
                if self.violations: break
            for f in fm: f.result()
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                samples=self.samples[:6] or ["(rejected before any sample was taken)"], explanation="; ".join(self.notes)),
                  assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", self.pid + ".json"), "w"), indent=1)
        for n in self.notes: print(n)
        if self.violations:
            for f, what, case, step in self.violations:
                print("rejected: %s (case %s:%s%s)" % (what, case.get("k"), case.get("i"), "" if step is None else ", after step %d" % step))
                print("VIOLATION property=%s replay=%s" % (self.pid, f))
            return 1
        print("%s holds on everything explored (%d recorded behaviours, %d states, %.0f s)" % (self.pid, self.traces, self.states, time.time() - t0))
        return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    if sys.argv[1] == "setup":
        for t in ("java", "g++"):
            if not shutil.which(t): print("missing", t); return 2
        for j in TLA_CP.split(":"):
            if not os.path.exists(j): print("missing", j); return 2
        print("ok"); return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    run = Run(pid, tier)
    try:
        rc = run.go()
    except CheckError as e:
        print("CHECK ERROR:", e); rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(run.dir, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
