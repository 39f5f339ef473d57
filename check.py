#!/usr/bin/env python3
"""Runs the monitors of one property and reports.

usage: check.py PROPERTY [quick|thorough]     (VERIF_SEED, VERIF_TIER)
       check.py --replay FILE                 re-executes one recorded violation
       check.py --setup                       builds everything once

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Exit 2: no answer (the code under test does not build, or the harness failed).
"""
import collections, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.path.join(BUILD, "replays")
HARNESS = os.path.join(VERIF, "harness")
GO25 = "/opt/veriftools/go1.25.14"

from checks import CHECKS  # noqa: E402


def goenv(extra=None):
    e = dict(os.environ)
    e.update(GOROOT=GO25, PATH=GO25 + "/bin:" + e.get("PATH", "/usr/bin:/bin"), GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             GOSUMDB="off", GOWORK="off", GONOSUMDB="*", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), TZ="UTC", HOME=e.get("HOME", "/root"))
    for k in ("PORT", "BIND", "ENGINE", "CHORE_INTERVAL"):
        e.pop(k, None)
    if extra:
        e.update(extra)
    return e


class NoAnswer(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise NoAnswer("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def build(part):
    """Builds a harness binary against the current tree of REPO; returns its path."""
    os.makedirs(BUILD, exist_ok=True)
    name = part["pkg"] + ("-race" if part.get("race") else "") + ("-" + part["overlay"] if part.get("overlay") else "")
    mod = os.path.join(BUILD, "mod")
    sh([os.path.join(HARNESS, "mkmod.sh"), REPO, mod])
    out = os.path.join(BUILD, name + ".test")
    cmd = [GO25 + "/bin/go", "test", "-c", "-vet=off", "-modfile=" + os.path.join(mod, "go.mod"), "-o", out]
    if part.get("race"):
        cmd.append("-race")
    if part.get("overlay"):
        ov = os.path.join(BUILD, name + ".overlay.json")
        sh([sys.executable, os.path.join(VERIF, "tools", "overlay.py"), part["overlay"], os.path.join(BUILD, name + ".overlay"), ov], env=goenv())
        cmd += ["-overlay", ov]
    sh(cmd + ["./" + part["pkg"]], cwd=HARNESS, env=goenv())
    return out


def build_server(race=False):
    """Builds the real server binary from the current tree."""
    out = os.path.join(BUILD, "ratus-server" + ("-race" if race else ""))
    os.makedirs(BUILD, exist_ok=True)
    sh([GO25 + "/bin/go", "build", "-mod=readonly"] + (["-race"] if race else []) + ["-o", out, "./cmd/ratus"], cwd=REPO,
       env=goenv({"GOFLAGS": ""}))
    return out


CRASH = re.compile(r"^(panic: |fatal error: |SIGQUIT: |WARNING: DATA RACE|runtime: )", re.M)


def repo_frames(text):
    """Function names of the code under test in a crash or race report."""
    fr = re.findall(r"^(?:  )?(github\.com/hyperonym/ratus(?!/verif)[^\s(]*(?:\([^\n]*?\)\.[^\s(]+)?)", text, re.M)
    return list(dict.fromkeys(fr))


def crash_frames(text, m):
    """Functions of the code under test responsible for a crash: those of the
    goroutine that panicked, unless the harness itself did."""
    if m is None or not m.group(1).startswith(("panic", "fatal")) or "deadlock" in text[m.start():m.start() + 300]:
        return repo_frames(text)
    b = re.split(r"\ngoroutine \d+ ", text[m.start():])
    block = b[1] if len(b) > 1 else text[m.start():]
    first = re.search(r"^(?:  )?github\.com/hyperonym/ratus(/verif)?", block, re.M)
    return [] if first is None or first.group(1) else repo_frames(block)


def run_part(prop, idx, part, tier, seed, only=None, tag=""):
    binary = build(part)
    extra = {}
    if part.get("server"):
        extra["VERIF_SERVER"] = build_server()
    if part.get("server_race"):
        extra["VERIF_SERVER_RACE"] = build_server(True)
    shards = part.get("shards", 8)
    scale = part.get("thorough", 1000) if tier == "thorough" else part.get("quick", 100)
    scale = int(scale * float(os.environ.get("VERIF_SCALE_FACTOR", "1")))
    tmo = part.get("timeout", 420) if tier == "quick" else part.get("thorough_timeout", 4 * 3600)
    work = os.path.join(BUILD, "run-%s-%d%s" % (prop, idx, tag))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    procs = []
    for s in range(1 if only else shards):
        tmp = os.path.join(work, "tmp%d" % s)
        os.makedirs(tmp)
        out = os.path.join(work, "out%d.json" % s)
        env = goenv({"VERIF_CHECK": part.get("check", prop), "VERIF_PROP": prop, "VERIF_SEED": str(seed), "VERIF_SHARD": str(s), "VERIF_SHARDS": str(shards),
                     "VERIF_SCALE": str(scale), "VERIF_OUT": out, "TMPDIR": tmp, "VERIF_TIER": tier, "GOMAXPROCS": str(part.get("procs", 2)), "VERIF_REPO": REPO,
                     "GORACE": "halt_on_error=0 exitcode=0 history_size=3 log_path=" + os.path.join(work, "race%d" % s)})
        env.update(extra)
        if only:
            env["VERIF_ONLY"] = only
        log = open(os.path.join(work, "log%d" % s), "w")
        p = subprocess.Popen([binary, "-test.run", "TestCheck$", "-test.timeout", "0"], cwd=work, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        procs.append((s, p, out, log))
    reports, violations, errors = [], [], []
    end = time.time() + tmo
    for s, p, out, log in procs:
        hung = False
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            hung = True
            os.kill(p.pid, signal.SIGQUIT)
            try:
                p.wait(20)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        log.close()
        text = open(log.name, errors="replace").read()
        if os.path.exists(out):
            reports.append(json.load(open(out)))
        if p.returncode != 0 or not os.path.exists(out):
            m = CRASH.search(text)
            fr = crash_frames(text, None if hung else m)
            last = re.findall(r"^@case (.*)$", text, re.M)
            if fr and (m or hung):
                msg = ("no progress for %d s" % tmo if hung else text[m.start():m.start() + 300].splitlines()[0])
                violations.append({"props": [prop], "sig": "crash:" + fr[0], "msg": "process %s in %s: %s" % ("hung" if hung else "crashed", fr[0], msg), "case": last[-1] if last else "", "trace": text[m.start():m.start() + 20000] if m and not hung else text[-20000:]})
            else:
                errors.append("shard %d of %s ended with %s%s\n%s" % (s, part["pkg"], p.returncode, " after hanging" if hung else "", text[-3000:]))
        for f in sorted(os.listdir(work)):
            if f.startswith("race%d." % s):
                rt = open(os.path.join(work, f), errors="replace").read()
                for rep in rt.split("==================\n"):
                    if "DATA RACE" not in rep:
                        continue
                    fr = repo_frames(rep)
                    top = re.findall(r"by (?:main )?goroutine[^\n]*:\n  ([^\s(]+(?:\([^\n]*?\)\.[^\s(]+)?)", rep)
                    if prop == "C22" and fr:
                        violations.append({"props": ["C22"], "sig": "race:" + "|".join(sorted(set(fr[:2]))), "msg": "data race: " + rep.strip().splitlines()[0] + " involving " + ", ".join(fr[:4]), "case": "shard %d" % s, "trace": rep})
    if not os.environ.get("VERIF_KEEP"):
        for s, _, _, _ in procs:
            shutil.rmtree(os.path.join(work, "tmp%d" % s), ignore_errors=True)
    return reports, violations, errors, {"binary": os.path.basename(binary), "shards": len(procs), "scale": scale}


def known(prop):
    """Signatures of the recorded, unrepaired findings of a property."""
    k = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                k[m.group(2)] = m.group(3)
    return k


def predictable(tokens):
    """What gives away parts of claim tokens, by margins chance never bridges."""
    if len(tokens) < 5000 or any(len(t) != 16 for t in tokens):
        return None
    for what, part in (("first", lambda t: t[:10]), ("middle", lambda t: t[3:13]), ("last", lambda t: t[6:])):
        dup = [x for x, n in collections.Counter(map(part, tokens)).items() if n > 1]
        if dup:
            return "%d of %d claim tokens share their %s ten characters with others, e.g. %r" % (len(dup), len(tokens), what, dup[0])
    for i in range(16):
        c, n = collections.Counter(t[i] for t in tokens).most_common(1)[0]
        if n > len(tokens) / 4:
            return "character %d of claim tokens is %r in %d of %d" % (i + 1, c, n, len(tokens))
    return None


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        seen = set()
        for c in CHECKS.values():
            for part in c["parts"]:
                key = (part["pkg"], part.get("race"), part.get("overlay"))
                if key not in seen:
                    seen.add(key)
                    print("built", build(part))
        print("built", build_server())
        print("built", build_server(True))
        return 0
    only, only_part = None, None
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        rp = json.load(open(sys.argv[2]))
        prop, tier, seed = rp["property"], rp["tier"], rp["seed"]
        only_part = rp.get("part", 0)
        m = re.search(r"case=(\d+)", rp["violation"].get("case", ""))
        only = m.group(1) if m else None
        print(json.dumps(rp["violation"], indent=1, ensure_ascii=False)[:6000])
    else:
        prop = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = CHECKS[prop]
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    evals, distinct, events, samples, incon, viols, errors, info, sets = 0, set(), collections.Counter(), [], [], [], [], [], collections.defaultdict(list)
    for i, part in enumerate(c["parts"]):
        if only_part is not None and i != only_part:
            continue
        if tier == "quick" and part.get("tier") == "thorough":
            continue
        try:
            reps, vs, errs, inf = run_part(prop, i, part, tier, seed, only)
        except NoAnswer as e:
            errors.append(str(e))
            continue
        info.append(inf)
        errors += errs
        for r in reps:
            evals += r["evaluations"]
            distinct.update(r["distinct"] or [])
            events.update(r["events"])
            samples += [s for s in (r["samples"] or [])][:1]
            incon += r["inconclusive"] or []
            for k, v in (r.get("sets") or {}).items():
                sets[k] += v
            for v in r["violations"] or []:
                if prop in v["props"]:
                    vs.append(v)
        for v in vs:
            v["part"] = i
        viols += vs
    # Values that must be unique across every execution of the run.
    for k, v in sets.items():
        if k.startswith("unique:"):
            dup = [x for x, n in collections.Counter(v).items() if n > 1]
            events["unique_checked:" + k[7:]] += len(v)
            if dup:
                viols.append({"props": [prop], "sig": "duplicate:" + k[7:], "msg": "%d %s values were issued more than once, e.g. %r" % (len(dup), k[7:], dup[0]), "case": "", "part": 0})
            if k == "unique:token" and prop == "C03":
                bad = predictable(v)
                if bad:
                    viols.append({"props": [prop], "sig": "predictable:token", "msg": bad, "case": "", "part": 0})
    kn, new, lines, seen = known(prop), [], [], set()
    for v in viols:
        if v["sig"] in kn:
            if v["sig"] not in seen:
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, kn[v["sig"]]))
        elif v["sig"] not in seen or len(new) < 3:
            new.append(v)
        seen.add(v["sig"])
    printed = set()
    for v in new:
        if v["sig"] in printed or len(printed) >= 8:
            continue
        printed.add(v["sig"])
        path = os.path.join(REPLAYS, "%s-%s.json" % (prop, hashlib.sha256(v["sig"].encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "part": v.get("part", 0), "violation": v}, f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        lines.append("  " + v["sig"] + ": " + v["msg"].replace("\n", " ")[:600])
    wall = time.time() - t0
    if only_part is None:
        ev = {"property": prop, "tier": tier, "seed": seed, "level": c["level"],
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": c["rule"], "samples": samples[:4], "observed": dict(sorted(events.items())), "runs": info, "inconclusive": incon[:20]},
              "assumptions": c.get("assumptions", []), "wall_s": round(wall, 2), "violations": len([v for v in viols if v["sig"] not in kn])}
        with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
    for l in lines:
        print(l)
    print("%s %s seed=%d: %d executions judged, %d distinct observations, %d violations, %.1f s" % (prop, tier, seed, evals, len(distinct), len(new), wall))
    if incon:
        print("inconclusive: %d, e.g. %s" % (len(incon), incon[0][:300]))
    if new:
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR", e[-3000:])
        return 2
    floor = c.get("floor", 1)
    if only_part is None and (evals < floor or any(events.get(k, 0) < n for k, n in c.get("min_events", {}).items())):
        print("ERROR the monitors observed too little: %d executions, %s" % (evals, {k: events.get(k, 0) for k in c.get("min_events", {})}))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
