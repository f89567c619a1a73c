#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decide one property for /repo's working tree.

1. compile the TLC operator overrides and the Go harness (against /repo);
2. run TLC on the property's design models (small parameters, every state);
3. have TLC generate scenarios where the property has a generator module;
4. run the driver: it performs the calls on the real code and records a trace;
5. run TLC on the trace: every recorded step must be a step of the specification.
"""
import json, os, re, subprocess, sys, time, shutil, threading, hashlib

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OW_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "bin"))
from props import PROPS

TLA = "/opt/veriftools/tla"
GO = "/opt/veriftools/go1.27.3/bin"
SEED = os.environ.get("VERIF_SEED", "1")
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()


class Infra(Exception):
    pass


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def goenv(extra=None):
    e = dict(os.environ)
    e.update(PATH=GO + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", GOTOOLCHAIN="local", GOPROXY="off",
             GOWORK="off", GOFLAGS="-mod=mod", GOMODCACHE="/root/go/pkg/mod", GOSUMDB="off")
    e.setdefault("HOME", "/root")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.update(extra or {})
    return e


class Check:
    def __init__(self, pid):
        self.id, self.cfg = pid, PROPS[pid]
        self.d = os.path.join(V, "build", pid)
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        self.replays = os.path.join(V, "build", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.violations, self.known, self.samples = [], [], []
        self.states = self.trans = self.traces = 0
        self.cov = {}
        self.findings = [f for f in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if f["property"] == pid]

    # ------------------------------------------------------------- building
    def run(self, cmd, **kw):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

    def build(self):
        cl = os.path.join(self.d, "classes")
        os.makedirs(cl)
        src = os.path.join(V, "java", "ow")
        p = self.run(["javac", "-nowarn", "-proc:none", "-d", cl, "-cp", TLA + "/tla2tools.jar"] + [os.path.join(src, f) for f in sorted(os.listdir(src))])
        if p.returncode:
            raise Infra("javac: " + p.stdout)
        h = os.path.join(self.d, "h")
        shutil.copytree(os.path.join(V, "harness"), h)
        mod = open(os.path.join(REPO, "go.mod")).read()
        mod = re.sub(r"(?m)^module .*", "module aa", mod)
        mod += "\nrequire github.com/blocktree/go-owcrypt v0.0.0\nreplace github.com/blocktree/go-owcrypt => %s\n" % REPO
        open(os.path.join(h, "go.mod"), "w").write(mod)
        os.rename(os.path.join(h, "go.sum.repo"), os.path.join(h, "go.sum"))
        for name, race, variant in sorted({(r["cmd"], r.get("race", False), r.get("build", "")) for r in self.cfg["runs"]}):
            exe = self.exe({"cmd": name, "race": race, "build": variant})
            flags = (["-race"] if race else []) + (["-tags", "generic appengine"] if variant == "portable" else [])
            p = self.run(["go", "build"] + flags + ["-o", exe, "./cmd/" + name], cwd=h, env=goenv({"GOARCH": "386"} if variant == "386" else {}))
            if p.returncode:
                raise Infra("go build %s: %s" % (name, p.stdout))
        log("built")

    def exe(self, r):
        return os.path.join(self.d, r["cmd"] + ("-race" if r.get("race") else "") + ("-" + r["build"] if r.get("build") else ""))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=4, heap="3g", extra=(), timeout=800):
        w = os.path.join(self.d, "tlc-%s-%s" % (module, hashlib.md5(repr((cfg, env)).encode()).hexdigest()[:6]))
        os.makedirs(w, exist_ok=True)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + os.path.join(V, "specs"),
               "-Dtlc2.overrides.TLCOverrides=ow.Overrides:tlc2.overrides.TLCOverrides",
               "-cp", ":".join([os.path.join(self.d, "classes"), TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
               "tlc2.TLC", "-workers", str(workers), "-metadir", w, "-noGenerateSpecTE", "-config", os.path.join(V, "specs", (cfg or module) + ".cfg")] + list(extra) + \
              [os.path.join(V, "specs", module + ".tla")]
        try:
            p = self.run(cmd, env=e, cwd=w, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Infra("TLC %s: time limit" % module)
        open(os.path.join(self.d, "tlc-%s.log" % (cfg or module)), "a").write(p.stdout)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", p.stdout)
        if m:
            self.trans += int(m[-1][0].replace(",", ""))
            self.states += int(m[-1][1].replace(",", ""))
        shutil.rmtree(w, ignore_errors=True)
        return p

    def model(self, m):
        # (module, configuration, invariant that is to be violated)
        module, cfg, refuted = (m + (None,) * 3)[:3] if isinstance(m, tuple) else (m, None, None)
        t = time.time()
        p = self.tlc(module, cfg, workers=1 if refuted else 2)  # one worker: always the same counterexample
        if refuted:
            if "Invariant %s is violated" % refuted not in p.stdout:
                raise Infra("design model %s: %s is not violated:\n%s" % (cfg or module, refuted, p.stdout[-3000:]))
            self.cov.setdefault("faulty_designs_refuted", []).append(cfg)
            log("model %s: refuted as expected" % cfg)
            return
        if p.returncode or "No error has been found" not in p.stdout:
            raise Infra("design model %s does not hold:\n%s" % (cfg or module, p.stdout[-3000:]))
        n = re.findall(r"([\d,]+) distinct states found", p.stdout)
        self.cov.setdefault("design_models", {})[cfg or module] = int(n[-1].replace(",", "")) if n else 0
        log("model %s: %s states, %.1f s" % (cfg or module, n[-1] if n else "?", time.time() - t))

    # --------------------------------------------------------------- driver
    def drive(self, i, r):
        out = os.path.join(self.d, "trace-%d.ndjson" % i)
        exe = self.exe(r)
        if r.get("build") == "386":
            try:
                subprocess.run([exe, "-h"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            except OSError as x:
                log("32-bit programs do not run here:", x)
                self.cov["not_run"] = "32-bit build: " + str(x)
                return out
        cmd = [exe, "-prop", r.get("gen", self.id), "-out", out, "-seed", SEED, "-tier", TIER]
        env = {"SCENARIOS": os.path.join(self.d, "scenarios-%d.ndjson" % i), "GORACE": "halt_on_error=0 exitcode=66 atexit_sleep_ms=0 log_path=" + os.path.join(self.d, "race")}
        same = [j for j in range(i) if r.get("scen") and all(self.cfg["runs"][j].get(k) == r.get(k) for k in ("scen", "prop"))]
        if same:
            env["SCENARIOS"] = os.path.join(self.d, "scenarios-%d.ndjson" % same[0])
        elif r.get("scen"):
            p = self.tlc(r["scen"], env={"OUT": env["SCENARIOS"], "TIER": TIER, "SEED": SEED, "PROP": r.get("prop", self.id)}, workers=1)
            if p.returncode or not os.path.exists(env["SCENARIOS"]):
                raise Infra("scenario generation %s failed:\n%s" % (r["scen"], p.stdout[-3000:]))
            n = sum(1 for _ in open(env["SCENARIOS"]))
            self.cov["scenarios_from_spec"] = self.cov.get("scenarios_from_spec", 0) + n
            log("%d scenarios from %s" % (n, r["scen"]))
        parts = r.get("parts", 1)
        procs = []
        for k in range(parts):
            o = out if parts == 1 else out + ".%d" % k
            c = list(cmd)
            c[c.index("-out") + 1] = o
            lf = open(os.path.join(self.d, "drive-%d.%d.log" % (i, k)), "w+")
            # a run of one share in n executes parts of a division n times as fine
            share = r.get("share", 1) if TIER != "thorough" else 1
            part = k + parts * (k % share)
            procs.append((o, lf, subprocess.Popen(c + ["-part", str(part), "-parts", str(parts * share)], stdout=lf, stderr=subprocess.STDOUT, env=goenv(env))))
        end = time.time() + r.get("timeout", 600)
        calls = 0
        for o, lf, p in procs:
            try:
                rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = 9
            lf.seek(0)
            txt = lf.read()
            lf.close()
            if rc == 3:
                for _, _, q in procs:
                    q.kill()
                raise Infra("driver: " + txt)
            m = re.findall(r"calls (\d+)", txt)
            calls += int(m[-1]) if m else 0
            if rc and rc != 66:
                # the library ended or hung the process
                cur = o + ".current"
                rec = {}
                if os.path.exists(cur):
                    try:
                        rec = json.loads(open(cur).read() or "{}")
                    except ValueError:
                        pass
                rec["st"] = "HANG" if os.path.exists(o + ".hang") else "CRASH"
                rec["text"] = txt[-1500:]
                self.violate(rec, "the call did not return (driver exit %d)" % rc)
        if parts > 1:
            with open(out, "w") as f:
                for o, _, _ in procs:
                    if os.path.exists(o):
                        f.writelines(l for l in open(o, errors="replace") if l.endswith("\n"))
                        os.remove(o)
        races = sorted(f for f in os.listdir(self.d) if f.startswith("race."))
        if races:
            rep = os.path.join(self.replays, self.id + "-race.txt")
            shutil.copy(os.path.join(self.d, races[0]), rep)
            self.violate({"op": "race"}, "data race reported", rep)
        self.cov["calls_of_the_real_code"] = self.cov.get("calls_of_the_real_code", 0) + calls
        log("driver %s: %d calls" % (r["cmd"], calls))
        return out

    # ---------------------------------------------------------------- trace
    def validate(self, i, r, trace):
        lines = [l for l in open(trace, errors="replace") if l.endswith("\n")]
        if not lines:
            return
        open(trace, "w").writelines(lines)
        t = time.time()
        spec = r.get("trace", "Trace")
        p = self.tlc(spec, env={"TRACE": trace, "PROP": self.id, "TIER": TIER}, workers=r.get("workers", 8), heap=r.get("heap", "8g"))
        rej = {}
        for m in re.finditer(r'<<"REJECT", (\d+)(?:, (\d+))?>>', p.stdout):
            rej.setdefault(int(m.group(1)), m.group(2))
        if "No error has been found" not in p.stdout:
            m = re.findall(r"(?m)^(?:/\\ )?l = (\d+)", p.stdout)
            if m and "Error:" in p.stdout:
                # the specification has no value for this record
                rej.setdefault(int(m[-1]), "evaluation")
                log("specification cannot evaluate record", m[-1], p.stdout[-1500:])
            else:
                raise Infra("TLC on the trace:\n" + p.stdout[-3000:])
        self.traces += len(lines)
        log("%d records validated by %s in %.1f s, %d rejected" % (len(lines), spec, time.time() - t, len(rej)))
        cnt = self.cov.setdefault("records_by_operation", {})
        for l in lines:
            o = json.loads(l)
            k = str(o.get("op"))
            cnt[k] = cnt.get(k, 0) + 1
        step = max(1, len(lines) // 3)
        for l in lines[::step][:3]:
            self.samples.append(l.strip()[:600])
        for n, ev in sorted(rej.items()):
            if 1 <= n <= len(lines):
                self.violate(json.loads(lines[n - 1]), "not a step of the specification" + (" (event %s)" % ev if ev else ""))

    def violate(self, rec, why, path=None):
        for f in self.findings:
            if all(rec.get(k) == v for k, v in f["match"].items()):
                if f not in self.known:
                    self.known.append(f)
                return
        if path is None:
            path = os.path.join(self.replays, "%s-%d.json" % (self.id, len(self.violations)))
            json.dump({"property": self.id, "why": why, "seed": SEED, "tier": TIER, "record": rec}, open(path, "w"), indent=1)
        self.violations.append((why, path, rec))

    # ----------------------------------------------------------------- main
    def main(self):
        self.build()
        err = []

        def bg(f, *a):
            try:
                f(*a)
            except Infra as x:
                err.append(str(x))
        models = list(self.cfg.get("models", [])) + (list(self.cfg.get("models_thorough", [])) if TIER == "thorough" else [])
        ts = []

        def all_models():
            for m in models:
                self.model(m)
        th = threading.Thread(target=bg, args=(all_models,))
        th.start()
        for i, r in enumerate(self.cfg["runs"]):
            if r.get("tier") == "thorough" and TIER != "thorough":
                continue
            out = self.drive(i, r)
            if os.path.exists(out) and not r.get("notrace"):
                self.validate(i, r, out)
        th.join()
        if err:
            raise Infra("\n".join(err))

    def evidence(self):
        ev = {"property": self.id, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": int(SEED), "level": "model_checking",
              "coverage": dict(self.cov, states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces,
                               samples=self.samples or ["none"]),
              "assumptions": ["TLC evaluates the specification correctly, with the operator overrides of /verif/java (compared with their TLA+ definitions by NumCheck.tla)"],
              "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        if self.known:
            ev["coverage"]["known_findings"] = [f["what"] for f in self.known]
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(V, "evidence", self.id + ".json"), "w"), indent=1)


def main():
    pid = sys.argv[1]
    c = Check(pid)
    try:
        c.main()
    except Infra as x:
        print("ERROR:", x)
        if not c.violations:
            sys.exit(2)
    c.evidence()
    for f in c.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    for why, path, rec in c.violations[:20]:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   ", why, json.dumps(rec)[:400])
    if c.violations:
        print("%d violations" % len(c.violations))
        sys.exit(1)
    print("property %s held: %d records of the real code validated, %d states" % (pid, c.traces, c.states))
    if not os.environ.get("OW_KEEP"):
        shutil.rmtree(c.d, ignore_errors=True)


if __name__ == "__main__":
    main()
