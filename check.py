#!/usr/bin/env python3
"""Run the check of one property against /repo's current working tree.

usage: check.py PROP [quick|thorough]        (VERIF_SEED, VERIF_TIER)
       check.py --setup                      build every configuration
       check.py --replay FILE                re-run one recorded case

Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: the check
could not give an answer (build failure, watchdog, too few observations).
"""
import fcntl, json, os, re, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(ROOT, "target")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
LIMIT = {"quick": 700, "thorough": 840}

sys.path.insert(0, os.path.join(ROOT, "tools"))
import parts  # noqa: E402


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("RUSTFLAGS", "CARGO_ENCODED", "CARGO_BUILD", "RUST_LOG", "RUSTC")):
            del e[k]
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN=STABLE,
             CARGO_TARGET_DIR=TARGET, RUST_BACKTRACE="0", TMPDIR=os.path.join(ROOT, "scratch"))
    e.update(kw)
    return e


def locked(fn):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        return fn()


def run(cmd, limit, **kw):
    """Run with a limit; returns (status, output). Status None = limit hit."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=limit)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")


def fail(msg, code=2):
    print(msg)
    sys.exit(code)


def known():
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return json.load(f)["findings"]


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.evals = self.distinct = 0
        self.counters, self.samples, self.violations = {}, [], []
        self.errors, self.missing = [], []
        self.scratch = os.path.join(ROOT, "scratch", "%d-%s" % (os.getpid(), prop))
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)

    def left(self):
        return max(5, LIMIT[self.tier] - (time.time() - self.start))

    def absorb(self, label, res):
        """Add the result file of one harness run."""
        self.evals += res["evaluations"]
        self.distinct += res["distinct"]
        for k, v in res["counters"].items():
            k = k if not label else "%s: %s" % (label, k)
            self.counters[k] = self.counters.get(k, 0) + v
        self.samples += res["samples"]
        for v in res["violations"]:
            v["part"] = label
            self.violations.append(v)
        self.errors += res["errors"]
        if not res["violations"]:
            self.missing += res["missing"]
        if res.get("truncated"):
            self.counters["runs cut short by the work budget"] = \
                self.counters.get("runs cut short by the work budget", 0) + 1

    def harness(self, binary, label="", name=None, replay=None, extra_env=None):
        """Run the harness binary and absorb what it observed."""
        out = os.path.join(self.scratch, "result-%s.json" % (label or "main"))
        sc = os.path.join(self.scratch, "work-%s" % (label or "main"))
        cmd = [binary, name or self.prop, "--tier", self.tier, "--seed", str(self.seed),
               "--scratch", sc, "--out", out]
        if replay:
            cmd += ["--replay", replay]
        st, text = run(cmd, self.left(), env=env(**(extra_env or {})), cwd=self.scratch)
        if st is None:
            self.errors.append("watchdog: no result within the limit; inconclusive")
            return None, text
        if st == 0 and os.path.exists(out):
            with open(out) as f:
                self.absorb(label, json.load(f))
            return st, text
        cur = ""
        try:
            with open(out.replace(".json", ".current")) as f:
                cur = f.read().strip()
        except OSError:
            pass
        scen, _, case = cur.rpartition(":")
        sig = -st if st is not None and st < 0 else 0
        if st == 86:
            what = "allocation out of proportion: heap grew beyond 4 GiB"
        elif sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL):
            what = "process died with %s" % signal.Signals(sig).name
        else:
            self.errors.append("harness ended with status %s: %s" % (st, text[-1500:]))
            return st, text
        if "HARNESS-PANIC" in text:
            self.errors.append("harness panic: %s" % text[-1500:])
            return st, text
        self.evals += 1
        self.violations.append({"scenario": scen, "case": case, "what": what, "trace": text[-1500:], "part": label})
        return st, text

    def finish(self, level, rule, assumptions=None):
        shutil.rmtree(self.scratch, ignore_errors=True)
        fresh, seen = [], []
        for v in self.violations:
            for k in known():
                if k["property"] == self.prop and k["scenario"] == v["scenario"] \
                        and re.search(k["what"], v["what"]):
                    seen.append((k, v))
                    break
            else:
                fresh.append(v)
        for k in {id(k): k for k, _ in seen}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["describe"]))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "evaluations": self.evals, "distinct_nontrivial": self.distinct, "rule": rule,
                "samples": self.samples[:40] or ["none"],
                "observed": self.counters,
            },
            "assumptions": assumptions or [],
            "wall_s": round(time.time() - self.start, 2),
            "violations": len(fresh),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        path = os.path.join(ROOT, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)
        if fresh:
            os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
            for i, v in enumerate(fresh[:5]):
                rp = os.path.join(ROOT, "replay", "%s-%d.json" % (self.prop, i))
                with open(rp, "w") as f:
                    json.dump(dict(v, property=self.prop, tier=self.tier, seed=self.seed,
                                   command="python3 check.py --replay " + rp), f, indent=1)
                print("%s: %s" % (v["scenario"], v["what"]))
            print("VIOLATION property=%s replay=%s" % (
                self.prop, os.path.join(ROOT, "replay", self.prop + "-0.json")))
            sys.exit(1)
        if self.errors:
            fail("check error:\n" + "\n".join(self.errors[:5]), 2)
        if self.missing:
            fail("inconclusive, too little was observed: " + "; ".join(self.missing), 3)
        print("held property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (
            self.prop, self.tier, self.seed, self.evals, self.distinct, time.time() - self.start))
        sys.exit(0)


# ---- builds -------------------------------------------------------------

def build(kind):
    """Build one configuration from the current tree; returns the binary."""
    cmd, e, out = parts.BUILDS[kind](env, ROOT, TARGET, STABLE, NIGHTLY, TRIPLE)

    def go():
        st, text = run(cmd, 1500, env=e, cwd=os.path.join(ROOT, "harness"))
        if st != 0:
            fail("build of %s failed (status %s):\n%s" % (kind, st, text[-3000:]), 2)
    locked(go)
    return out


def main():
    a = sys.argv[1:]
    os.makedirs(os.path.join(ROOT, "scratch"), exist_ok=True)
    if a and a[0] == "--setup":
        for k in parts.SETUP:
            t = time.time()
            build(k)
            print("built %s in %.1fs" % (k, time.time() - t))
        return
    if a and a[0] == "--replay":
        with open(a[1]) as f:
            r = json.load(f)
        c = Check(r["property"], r["tier"], r["seed"])
        parts.PROPS[r["property"]].replay(c, build, r)
        return
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(prop, tier, seed)
    try:
        parts.PROPS[prop].go(c, build)
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
