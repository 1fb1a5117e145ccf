#!/usr/bin/env python3
"""Runs the check of one property.

  check.py C01 [--tier quick|thorough] [--replay FILE]

Builds the harness (verif/harness) against the current tree of /repo in a
temporary directory, runs it in several processes (shards), and merges what they
covered into /verif/evidence/<id>.json.

Exit 0: held on everything explored. Exit 1: "VIOLATION property=<id> replay=<path>".
Exit 2: the check itself could not be run (never a verdict).
"""
import argparse, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"
SHARDS = 8
HARD = {"quick": 780, "thorough": 3600}
SOFT = {"quick": 200, "thorough": 2400}
# How many times the registered number of quick cases is generated, where that is cheap.
MORE = {"C01": 4, "C02": 4, "C03": 5, "C04": 3, "C06": 1.5, "C07": 2, "C08": 2, "C09": 3, "C10": 3, "C11": 3, "C12": 2,
        "C13": 3, "C14": 3, "C15": 2, "C16": 2, "C19": 4, "C20": 2, "C21": 3, "C22": 3, "C23": 3, "C26": 2, "C27": 2,
        "C28": 3, "C29": 2, "C30": 2, "C31": 5, "C32": 4, "C33": 8, "C35": 1.5}

ENV = dict(os.environ)
ENV.update(GOFLAGS="-mod=readonly", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GO111MODULE="on", GOWORK="off")
ENV.setdefault("HOME", "/root")
for k in ("GOROOT", "GOOS", "GOARCH", "GODEBUG", "GOGC", "GOMEMLIMIT", "GOTRACEBACK"):
    ENV.pop(k, None)


def info(*a):
    print(*a, flush=True)


class Trouble(Exception):
    pass


class Passing(Trouble):
    """A process died, or was ended, and the case passes when it runs alone."""


def build(args, out, cwd):
    last = ""
    for attempt in range(2):
        r = subprocess.run(["go", "build", *args, "-o", out], cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return
        last = r.stdout
    raise Trouble("build failed in %s:\n%s" % (cwd, last))


def shard_env(tmp):
    e = dict(ENV)
    e["PBT_SCRATCH"] = os.path.join(tmp, "scratch")
    e["TMPDIR"] = os.path.join(tmp, "scratch")
    e["PBT_BIN"] = os.path.join(tmp, "bin")
    e["GOTRACEBACK"] = "single"
    return e


def state_case(d, i):
    """The case a dead shard was running, or None."""
    try:
        with open(os.path.join(d, "state-%d" % i), "rb") as f:
            n, m = struct.unpack("<II", f.read(8))
            if n == 0 or n > 200:
                return None
            name = f.read(n).decode()
            return name, json.loads(f.read(m).decode())
    except (OSError, ValueError, struct.error):
        return None


def tail(path, n=4000):
    try:
        with open(path, "rb") as f:
            b = f.read()
        s = b[:n].decode("utf8", "replace")
        return s
    except OSError:
        return ""


def run_replay(binary, prop, path, tmp, timeout=400):
    """(fails, text) for a replay file in a fresh process."""
    d = tempfile.mkdtemp(dir=tmp)
    os.makedirs(os.path.join(tmp, "scratch"), exist_ok=True)
    try:
        r = subprocess.run([binary, "-prop", prop, "-replay", path, "-dir", d], env=shard_env(tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = r.stdout.decode("utf8", "replace")
        rc = r.returncode
    except subprocess.TimeoutExpired as e:
        return True, "no answer within %d s" % timeout
    why = tail(os.path.join(d, "why-0"))
    shutil.rmtree(d, ignore_errors=True)
    if rc == 0:
        return False, out
    if rc == 2 and "FAILS" not in out and "goroutine" not in out:
        raise Trouble("replay: " + out)
    return True, (why + "\n" + out).strip()


def known(prop):
    """Findings that are recorded and not repaired: property -> list of (sub, case as text, what)."""
    r = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) sub=(\S+) case=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), json.loads(m.group(3)), m.group(4)))
    except OSError:
        pass
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--scale", default="1")
    a = ap.parse_args()
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if a.tier == "quick":
        a.scale = str(float(a.scale) * MORE.get(a.prop, 1))
    useed = seed & 0xffffffffffff or 7777777
    tmp = tempfile.mkdtemp(prefix="ogdl-%s-" % a.prop)
    procs = []

    def cleanup(*_):
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(tmp, ignore_errors=True)

    def on_term(*_):
        cleanup()
        os._exit(2)

    signal.signal(signal.SIGTERM, on_term)
    signal.signal(signal.SIGINT, on_term)
    try:
        return run(a, seed, useed, tmp, procs, t0)
    except Trouble as e:
        info("CHECK-TROUBLE:", e)
        return 2
    finally:
        cleanup()


def run(a, seed, useed, tmp, procs, t0):
    os.makedirs(os.path.join(tmp, "scratch"))
    os.makedirs(os.path.join(tmp, "bin"))
    harness = os.path.join(tmp, "harness")
    build([], harness, HARNESS)
    subs = []
    for line in subprocess.run([harness, "-list"], env=ENV, stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
        f = line.split()
        if f[0] == a.prop:
            subs.append({"name": f[1], "race": f[4] == "true", "bin": f[5] == "true"})
    if not subs:
        raise Trouble("no checks registered for " + a.prop)
    race = None
    if any(s["race"] for s in subs):
        race = os.path.join(tmp, "harness-race")
        build(["-race"], race, HARNESS)
    if any(s["bin"] for s in subs):
        for c in ("gpath", "gtemplate", "json2ogdl", "xml2ogdl"):
            build([], os.path.join(tmp, "bin", c), os.path.join(REPO, "cmd", c))

    if a.replay:
        d = json.load(open(a.replay))
        fails, text = run_replay(race if d.get("race") else harness, a.prop, a.replay, tmp)
        info(text)
        if fails:
            info("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1
        return 0

    runs = [("plain", harness, [])]
    if race:
        runs.append(("race", race, ["-racemode"]))
    # recorded findings: reported, never taken for a new violation
    kn = known(a.prop)
    for i, (sub, case, what) in enumerate(kn):
        f = os.path.join(tmp, "known-%d.json" % i)
        json.dump({"sub": sub, "case": case}, open(f, "w"))
        fails, _ = run_replay(harness, a.prop, f, tmp)
        if fails:
            info("KNOWN-FINDING: property=%s %s" % (a.prop, what))

    merged = {}
    rules = {}
    hashes = {}
    for kind, binary, extra in runs:
        try:
            res = run_shards(a, kind, binary, extra, useed, tmp, procs)
        except Passing as e:
            # (the machine, or too big a case: once more with other cases)
            if time.time() - t0 > SOFT[a.tier] + 50:
                raise
            info("again, with another seed: %s" % str(e)[:300])
            res = run_shards(a, kind, binary, extra, useed ^ 0x5bd1e995, tmp, procs, "-again")
        if res["violation"]:
            v = res["violation"]
            if any(v["sub"] == s and v["case"] == c for s, c, _ in kn):
                raise Trouble("a known finding stopped the search: exclude it from the generator")
            v["race"] = kind == "race"
            return report(a, v, seed, t0, binary, tmp)
        for i in range(res["n"]):
            d = res["dir"]
            r = json.load(open(os.path.join(d, "result-%d.json" % i)))
            rules.update(r["rules"])
            for name, st in r["subs"].items():
                key = name if kind == "plain" else name + " (race detector)"
                rules.setdefault(key, r["rules"][name] + " Run with the race detector." )
                m = merged.setdefault(key, {"evaluations": 0, "labels": {}, "samples": [], "skipped_by_deadline": 0})
                m["evaluations"] += st["evaluations"]
                m["skipped_by_deadline"] += st["skipped_by_deadline"]
                for l, c in st["labels"].items():
                    m["labels"][l] = m["labels"].get(l, 0) + c
                m["samples"] += st["samples"] or []
                hs = hashes.setdefault(name, set())
                p = os.path.join(d, "hashes-%s-%d" % (name, i))
                if os.path.exists(p):
                    b = open(p, "rb").read()
                    hs.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        if kind == "plain":
            empty = [s["name"] for s in subs if merged.get(s["name"], {}).get("evaluations", 0) == 0]
            if empty:
                raise Trouble("nothing was evaluated by " + ", ".join(empty))

    samples = []
    for name, m in merged.items():
        m["distinct_nontrivial"] = len(hashes.get(name.replace(" (race detector)", ""), ()))
        m["rule"] = rules.get(name, "")
        for s in sorted(m["samples"], key=lambda s: -min(len(json.dumps(s)), 400))[:2]:
            samples.append({"check": name, "case": s})
        del m["samples"]
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(m["evaluations"] for m in merged.values()),
            "distinct_nontrivial": sum(len(h) for h in hashes.values()),
            "rule": "generated cases per check, distinct by the case itself: " + " | ".join("%s: %s" % (n, r) for n, r in sorted(rules.items()) if n in merged),
            "samples": samples,
            "checks": merged,
            "shards": SHARDS,
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": 0,
    }
    write_evidence(a.prop, ev)
    info("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (a.prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], time.time() - t0))
    return 0


def write_evidence(prop, ev):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(p + ".tmp", p)


def run_shards(a, kind, binary, extra, useed, tmp, procs, again=""):
    d = os.path.join(tmp, kind + again)
    os.makedirs(d)
    n = SHARDS
    ps = []
    for i in range(n):
        out = open(os.path.join(d, "out-%d" % i), "wb")
        e = shard_env(tmp)
        e["GORACE"] = "halt_on_error=1 exitcode=66"
        if kind == "race":
            e["GOMAXPROCS"] = "4"
        p = subprocess.Popen([binary, "-prop", a.prop, "-shard", str(i), "-shards", str(n), "-seed", str(useed), "-tier", a.tier, "-dir", d, "-budget", str(SOFT[a.tier]), "-scale", a.scale, *extra],
                             stdout=out, stderr=out, env=e, start_new_session=True)
        ps.append(p)
        procs.append(p)
    deadline = time.time() + HARD[a.tier]
    bad = None
    while True:
        alive = [i for i, p in enumerate(ps) if p.poll() is None]
        for i, p in enumerate(ps):
            if p.poll() not in (None, 0):
                bad = i
                break
        if bad is not None or not alive or time.time() > deadline:
            break
        time.sleep(0.03)
    if bad is None and any(p.poll() is None for p in ps):
        raise Trouble("the time for the whole run is over")
    if bad is None:
        return {"violation": None, "dir": d, "n": n}
    for p in ps:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    rc = ps[bad].returncode
    out = tail(os.path.join(d, "out-%d" % bad))
    if rc == 10:
        f = json.load(open(os.path.join(d, "result-%d.json" % bad)))["failure"]
        f["shard"] = bad
        return {"violation": f, "dir": d, "n": n}
    if rc == 20 or rc == 2 and "goroutine" not in out:
        raise Trouble("shard %d: %s" % (bad, out))
    sc = state_case(d, bad)
    if sc is None:
        raise Trouble("shard %d ended with %s outside a case:\n%s" % (bad, rc, out))
    why = tail(os.path.join(d, "why-%d" % bad))
    f = {"sub": sc[0], "case": sc[1], "error": (why or "the process died (%s)" % rc) + "\n" + out, "shard": bad, "died": rc}
    # Only what can be reproduced counts: this may have been the machine.
    p = os.path.join(tmp, "died.json")
    json.dump(f, open(p, "w"))
    tries = 8 if kind == "race" else 2
    for _ in range(tries):
        fails, text = run_replay(binary, a.prop, p, tmp)
        if fails:
            f["replayed"] = text[:3000]
            return {"violation": f, "dir": d, "n": n}
    if rc == 66 or "DATA RACE" in out or "concurrent map" in out:
        # A race that was observed is a fact, whether or not it shows up again.
        return {"violation": f, "dir": d, "n": n}
    raise Passing("shard %d ended with %s, and the case passes when run alone:\n%s" % (bad, rc, json.dumps(f)[:3000]))


def report(a, v, seed, t0, binary, tmp):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-violation.json" % a.prop)
    v["property"] = a.prop
    v["seed"] = seed
    v["tier"] = a.tier
    with open(p, "w") as f:
        json.dump(v, f, indent=1, ensure_ascii=False)
        f.write("\n")
    info("check %s of %s fails:\n%s" % (v["sub"], a.prop, v["error"][:3000]))
    info("case: " + json.dumps(v["case"], ensure_ascii=False)[:3000])
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the run stopped at the first violation", "samples": [{"check": v["sub"], "case": v["case"], "error": v["error"][:2000]}]},
        "wall_s": round(time.time() - t0, 2), "violations": 1,
    }
    write_evidence(a.prop, ev)
    info("VIOLATION property=%s replay=%s" % (a.prop, p))
    return 1


if __name__ == "__main__":
    sys.exit(main())
