#!/usr/bin/env python3
"""Decides one property of kserd: check.py PROP [--tier quick|thorough] [--seed N]

Two directions, both against the TLA+ specification in spec/:
  replay  TLC enumerates the bounded model (MC_*), checks the property's theorems on it and emits
          one vector {in, exp} per state; the harness runs the crate on each and compares.
  judge   TLC (TR_*) decides whether each recorded execution of the crate conforms.

check.py --replay FILE runs the crate on the input of a violation file again and judges it.
Exit codes: 0 held, 1 violated (with a VIOLATION line), 2 could not decide.
"""
import argparse, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
KV = os.path.join(HARNESS, "target", "debug", "kv")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
# bytes of recorded events judged in one go
PART = 32 << 20
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what):
        super().__init__(what.get("why", ""))
        self.what = what


def tlc_cmd(module, cfg, meta, workers):
    return ["java", "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Xss256m", "-Xmx6g", "-cp", JARS, "tlc2.TLC",
            "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg, module + ".tla"]


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def build():
    env = dict(os.environ, KV_TARGET=os.path.join(HARNESS, "target"))
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; export CARGO_TARGET_DIR=\"$KV_TARGET\" CARGO_INCREMENTAL=0; "
                        "exec cargo build --offline --quiet"],
                       cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        raise ToolError("harness build failed\n" + r.stdout[-4000:])


def counts(log):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", log)
    if not m:
        return 0, 0
    return tuple(int(x.replace(",", "")) for x in m[-1])


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = CHECKS[prop]
        self.t0 = time.time()
        self.work = os.path.join(HERE, "work", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.lock = threading.Lock()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "model": [],
                    "vectors_replayed": 0, "recorded_events_judged": 0, "falsified_events_rejected": 0, "samples": []}
        self.n = 0

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.work, "%d-%s" % (self.n, name))

    def note_model(self, module, cfg, log, vectors=None):
        gen, distinct = counts(log)
        with self.lock:
            self.cov["states"] += distinct
            self.cov["transitions"] += gen
            e = {"module": module, "config": cfg, "states_generated": gen, "distinct_states": distinct}
            if vectors is not None:
                e["vectors"] = vectors
            self.cov["model"].append(e)

    # ---- running the crate -------------------------------------------------

    def kv_died(self, rc, cur, err):
        """The harness ended abnormally while running the crate."""
        if rc == 7 or rc in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE):
            try:
                inp = json.load(open(cur))
            except Exception:
                raise ToolError("harness ended with %d and no current input: %s" % (rc, err[-1500:]))
            why = "did not return" if rc == 7 else "process ended by signal %d" % -rc
            return Violation({"why": why, "in": inp})
        raise ToolError("harness ended with %d: %s" % (rc, err[-1500:]))

    def kv(self, args, stdin=None):
        """Runs the harness; returns its output and stderr text."""
        cur = self.path("current.json")
        errp = self.path("kv.err")
        env = dict(os.environ, KV_CURRENT=cur)
        with open(errp, "wb") as ef:
            p = subprocess.Popen([KV] + args, stdin=stdin, stdout=subprocess.PIPE, stderr=ef, env=env, preexec_fn=limits)
            out = p.communicate()[0].decode()
        err = open(errp, errors="replace").read()
        return p.returncode, out, err, cur

    # ---- model -> implementation -------------------------------------------

    def model(self, module, cfg, mode):
        """TLC's vectors piped into the harness."""
        meta = self.path("meta")
        out = self.path("out")
        env = dict(os.environ, KV_EMIT=self.prop)
        tl = subprocess.Popen(tlc_cmd(module, cfg, meta, self.plan.get("workers", 8)), cwd=SPEC, env=env,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        rc, o, err, cur = self.kv([mode, self.prop, "-", out], stdin=tl.stdout)
        tl.stdout.close()
        if rc != 0:
            tl.kill()
            tl.wait()
            raise self.kv_died(rc, cur, err)
        trc = tl.wait()
        shutil.rmtree(meta, ignore_errors=True)
        if trc != 0 or "No error has been found" not in err:
            raise ToolError("TLC on %s/%s ended with %d\n%s" % (module, cfg, trc, err[-3000:]))
        s = json.loads(o.strip().splitlines()[-1])
        self.note_model(module, cfg, err, s["run"])
        if s["run"] == 0:
            raise ToolError("no vectors from %s/%s" % (module, cfg))
        if mode == "replay":
            with self.lock:
                self.cov["vectors_replayed"] += s["run"]
                self.cov["traces_validated_against_impl"] += s["run"]
                self.cov["samples"] += s.get("samples", [])[:2]
            if s["bad"]:
                first = json.loads(open(out).readline())
                raise Violation(dict(first, why="%d of %d vectors of %s differ" % (s["bad"], s["run"], module)))
            os.remove(out)
        else:
            self.judge(out)
            os.remove(out)

    # ---- implementation -> model -------------------------------------------

    def record(self, seed, n):
        out = self.path("events.nd")
        rc, o, err, cur = self.kv(["record", self.prop, str(seed), str(n), out])
        if rc != 0:
            raise self.kv_died(rc, cur, err)
        self.judge(out)
        os.remove(out)

    def tlc_trace(self, events):
        module = "TR_" + self.prop
        cfg = module + ".cfg" if os.path.exists(os.path.join(SPEC, module + ".cfg")) else "TR.cfg"
        meta = self.path("meta")
        env = dict(os.environ, KV_TRACE=events)
        r = subprocess.run(tlc_cmd(module, cfg, meta, self.plan.get("workers", 8)), cwd=SPEC, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        shutil.rmtree(meta, ignore_errors=True)
        return module, cfg, r.returncode, r.stdout

    def judge(self, events):
        """Judges the events part by part: TLC holds a whole file in memory."""
        if os.path.getsize(events) <= PART:
            return self.judge_part(events)
        part, size = events + ".part", 0
        f = open(part, "w")
        for l in open(events):
            f.write(l)
            size += len(l)
            if size > PART:
                f.close()
                self.judge_part(part)
                f, size = open(part, "w"), 0
        f.close()
        if size:
            self.judge_part(part)
        os.remove(part)

    def judge_part(self, events):
        n = bad = 0
        samples = []
        for l in open(events):
            n += 1
            if '"bad":true' in l:
                bad += 1
            elif len(samples) < 2 and len(l) < 3000:
                samples.append(json.loads(l))
        if n == 0:
            raise ToolError("nothing recorded")
        module, cfg, rc, log = self.tlc_trace(events)
        if "Invariant Rejects is violated" in log:
            # the specification accepted a falsified line; look for real violations first
            kept = events + ".real"
            with open(kept, "w") as f:
                for l in open(events):
                    if '"bad":true' not in l:
                        f.write(l)
            module, cfg, rc2, log2 = self.tlc_trace(kept)
            if rc2 == 0:
                raise ToolError("a falsified line was accepted\n" + log[-2500:])
            events, rc, log = kept, rc2, log2
        if rc != 0:
            m = re.findall(r"^(?:/\\ )?l = (\d+)$", log, re.M)
            if m and re.search(r"Invariant \w+ is violated", log):
                inv = re.search(r"Invariant (\w+) is violated", log).group(1)
                with open(events) as f:
                    for i, l in enumerate(f, 1):
                        if i == int(m[-1]):
                            raise Violation(dict(json.loads(l), why="%s does not hold of this execution (%s)" % (inv, module)))
            raise ToolError("TLC on %s ended with %d\n%s" % (module, rc, log[-3000:]))
        if "No error has been found" not in log:
            raise ToolError("TLC on %s gave no verdict\n%s" % (module, log[-3000:]))
        self.note_model(module, cfg, log)
        with self.lock:
            self.cov["recorded_events_judged"] += n - bad
            self.cov["traces_validated_against_impl"] += n - bad
            self.cov["falsified_events_rejected"] += bad
            if len(self.cov["samples"]) < 8:
                self.cov["samples"] += samples

    # ---- listed findings -----------------------------------------------------

    def findings(self):
        """The listed findings of this property that still fail."""
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) input=(\S+) (.*)", l)
            if not m or m.group(1) != self.prop:
                continue
            src, out = self.path("in.nd"), self.path("events.nd")
            with open(src, "w") as f:
                json.dump({"in": json.load(open(os.path.join(HERE, m.group(2))))["in"]}, f)
            rc, o, err, cur = self.kv(["exec", self.prop, src, out])
            try:
                if rc != 0:
                    raise self.kv_died(rc, cur, err)
                self.judge(out)
                print("listed finding no longer fails: %s" % m.group(3))
            except Violation:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, m.group(3)))

    # ---- the whole check ----------------------------------------------------

    def jobs(self):
        t = self.tier
        for module, cfg, mode in self.plan["mc"]:
            yield lambda m=module, c=cfg, d=mode: self.model(m, c.format(tier=t), d)
        if self.plan.get("n"):
            yield lambda: self.rounds()

    def rounds(self):
        n = self.plan["n"]
        if self.tier == "quick":
            self.record(self.seed, n)
            return
        k = 0
        while k == 0 or time.time() - self.t0 < 480:
            self.record(self.seed + 7919 * k, 2 * n)
            k += 1

    def run(self):
        build()
        found, errors = [], []
        jobs = list(self.jobs())

        def worker():
            while jobs and not found:
                with self.lock:
                    if not jobs:
                        return
                    j = jobs.pop(0)
                try:
                    j()
                except Violation as v:
                    found.append(v)
                except Exception as e:  # noqa: BLE001
                    errors.append(e)
        # the recorded direction runs beside the enumerated one
        ts = [threading.Thread(target=worker) for _ in range(2)]
        jobs.sort(key=lambda j: 0)
        if len(jobs) > 1:
            jobs.insert(0, jobs.pop())
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return found, errors

    def evidence(self, found):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.plan.get("assumptions", []), "violations": [f.what for f in found][:3]}
        self.cov["samples"] = self.cov["samples"][:8]
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)
        try:
            os.rmdir(os.path.join(HERE, "work"))
        except OSError:
            pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true", help="only build the harness")
    a = ap.parse_args()
    if a.setup:
        build()
        return 0
    if a.replay:
        what = json.load(open(a.replay))
        c = Check(what["property"], "quick", 1)
        try:
            build()
            src, out = c.path("in.nd"), c.path("events.nd")
            json.dump({"in": what["in"]}, open(src, "w"))
            rc, o, err, cur = c.kv(["exec", c.prop, src, out])
            if rc != 0:
                raise c.kv_died(rc, cur, err)
            obs = json.loads(open(out).readline())
            print(json.dumps(obs["obs"], indent=1))
            if "exp" in what:
                json.dump({"in": what["in"], "exp": what["exp"]}, open(src, "w"))
                rc, o, err, cur = c.kv(["replay", c.prop, src, out])
                bad = json.loads(o.strip().splitlines()[-1])["bad"]
                print("differs from the specification" if bad else "agrees with the specification")
                return 1 if bad else 0
            c.judge(out)
            print("conforms")
            return 0
        except Violation as v:
            print("violates:", v)
            return 1
        finally:
            c.close()
    if a.prop not in CHECKS:
        print("unknown property", a.prop)
        return 2
    c = Check(a.prop, a.tier, a.seed)
    try:
        try:
            found, errors = c.run()
        except (ToolError, subprocess.TimeoutExpired) as e:
            print("TOOL-ERROR: %s" % e)
            return 2
        if found:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            p = os.path.join(HERE, "replays", "%s-%d.json" % (a.prop, os.getpid()))
            with open(p, "w") as f:
                json.dump(dict(found[0].what, property=a.prop), f, indent=1)
            c.evidence(found)
            print(json.dumps(found[0].what)[:1500])
            print("VIOLATION property=%s replay=%s" % (a.prop, p))
            return 1
        if errors:
            for e in errors:
                print("TOOL-ERROR: %s" % e)
            return 2
        try:
            c.findings()
        except ToolError as e:
            print("TOOL-ERROR: %s" % e)
            return 2
        c.evidence([])
        print("held: %s" % json.dumps({k: v for k, v in c.cov.items() if k != "samples" and k != "model"}))
        return 0
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main())
