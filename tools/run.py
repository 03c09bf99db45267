#!/usr/bin/env python3
"""Builds and runs one check against /repo's working tree; see check.sh."""
import json, os, re, shutil, signal, subprocess, sys, time, struct
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVELS = {"C11": "fault_enumeration", "C12": "fault_enumeration"}
T0 = time.time()

def say(*a):
    print(*a, flush=True)

def main():
    prop, mode = sys.argv[1].upper(), (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    pkg = prop.lower()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scratch = os.path.join(ROOT, "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    procs = []
    def cleanup(*_):
        for p in procs:
            try: os.killpg(p.pid, signal.SIGKILL)
            except Exception: pass
        shutil.rmtree(scratch, ignore_errors=True)
    def onsig(*_):
        cleanup(); os._exit(2)
    signal.signal(signal.SIGTERM, onsig); signal.signal(signal.SIGINT, onsig)
    try:
        return run(prop, pkg, mode, seed, scratch, procs)
    finally:
        cleanup()

def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("PATH", "") + ":/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(GOLOG_LOG_LEVEL="fatal", IPFS_LOGGING="fatal", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off")
    return e

def run(prop, pkg, mode, seed, scratch, procs):
    env = goenv()
    binary = os.path.join(scratch, "check.test")
    cmd = ["go", "test", "-vet=off", "-c", "-o", binary]
    if os.path.exists(os.path.join(ROOT, "harness", pkg, "RACE")):
        cmd.append("-race")
    b = subprocess.run(cmd + ["./" + pkg], cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode != 0 or not os.path.exists(binary):
        say(b.stdout[-4000:]); say("BUILD-ERROR property=%s" % prop)
        return 2
    if mode == "--replay":
        return do_replay(prop, sys.argv[3], binary, scratch, env)
    tier = "thorough" if mode == "thorough" else "quick"
    shards = int(os.environ.get("VT_SHARDS", "6" if tier == "quick" else "8"))
    hard = 820 if tier == "quick" else 3300
    budget = int(os.environ.get("VT_BUDGET", "150" if tier == "quick" else "1500"))
    logs = []
    for i in range(shards):
        d = os.path.join(scratch, "s%d" % i); os.makedirs(d)
        e = dict(env, VT_TIER=tier, VT_SEED=str(seed), VT_SHARD=str(i), VT_SHARDS=str(shards), VT_BUDGET=str(budget),
                 VT_OUT=os.path.join(d, "out.json"), TMPDIR=d, GOMAXPROCS=str(4 if shards < 8 else 3), GOTRACEBACK="all" if False else "single")
        log = os.path.join(d, "log")
        args = [binary, "-test.failfast", "-test.timeout=%ds" % (hard - 20), "-rapid.shrinktime=%s" % os.environ.get("VT_SHRINK", "12s")]
        if os.environ.get("VT_RUN"): args.append("-test.run=" + os.environ["VT_RUN"])
        procs.append(subprocess.Popen(args, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=open(log, "wb"), stderr=subprocess.STDOUT, start_new_session=True))
        logs.append(log)
    deadline, failed_at, timed_out = T0 + hard, None, False
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        if failed_at is None and any(p.poll() not in (None, 0) for p in procs):
            failed_at = time.time()
        if failed_at and time.time() - failed_at > 3: break
        if time.time() > deadline:
            timed_out = True; break
    killed = [p.poll() is None for p in procs]
    for p in procs:
        if p.poll() is None:
            try: os.killpg(p.pid, signal.SIGKILL)
            except Exception: pass
            p.wait()
    cov, viol, err = merge(prop, scratch, procs, logs, killed)
    if timed_out and not viol: err.append("hard time limit reached")
    for l in known(prop): say("KNOWN-FINDING: " + l)
    code = 0
    if viol:
        path = save_replay(prop, scratch, viol, seed, shards, tier)
        say(excerpt(viol[0][2]))
        say("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif err:
        for e_ in err: say("CHECK-ERROR property=%s %s" % (prop, e_))
        code = 2
    if not cov.get("evaluations"): cov.setdefault("samples", [])
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVELS.get(prop, "exploration"), "coverage": cov,
          "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False); f.write("\n")
    if code == 0:
        say("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - T0))
        if os.environ.get("VT_TIMING"):
            for l in logs:
                for line in open(l, errors="replace"):
                    if line.startswith("VT-TIME") and "/s0/" in l: say(os.path.basename(os.path.dirname(l)), line.rstrip())
    return code

def merge(prop, scratch, procs, logs, killed):
    hashes, labels, per, samples, rule, evals, skipped = set(), {}, {}, [], "", 0, 0
    viol, err, slow = [], [], (0, "")
    for i, p in enumerate(procs):
        d = os.path.dirname(logs[i])
        try:
            o = json.load(open(os.path.join(d, "out.json")))
            evals += o["evaluations"]; skipped += o["skipped"]; rule = o["rule"]
            for k, v in (o["labels"] or {}).items(): labels[k] = labels.get(k, 0) + v
            for k, v in (o["per_test"] or {}).items(): per[k] = per.get(k, 0) + v
            if len(samples) < 24: samples += (o["samples"] or [])[: 24 - len(samples)]
            if o["slowest_s"] > slow[0]: slow = (round(o["slowest_s"], 2), o["slowest"])
            raw = open(os.path.join(d, "out.json.hashes"), "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
        except Exception:
            pass
        rc = p.returncode
        if rc == 0 or killed[i]: continue
        text = open(logs[i], errors="replace").read()
        if "panic: test timed out" in text:
            err.append("shard %d timed out" % i); say(text[-3000:])
        elif rc < 0:
            err.append("shard %d ended by signal %d" % (i, -rc)); say(text[-3000:])
        elif re.search(r"only generated \d+ valid tests", text):
            err.append("shard %d: generator rejected too much" % i); say(text[-3000:])
        elif "--- FAIL" in text or "panic:" in text or "fatal error:" in text or "VT-HANG" in text or "VT-BLOAT" in text or "DATA RACE" in text:
            ff = None
            for root, _, files in os.walk(os.path.join(d, "testdata")):
                for f in files:
                    if f.endswith(".fail"): ff = os.path.join(root, f)
            viol.append((os.path.getsize(ff) if ff else 1 << 40, ff, text, i))
        elif rc == 1 and not os.path.exists(os.path.join(d, "out.json")):
            # the code under test ended the process (log.Fatal, os.Exit)
            viol.append((1 << 41, None, text + "\nprocess ended with status %d inside a case" % rc, i))
        else:
            err.append("shard %d exited %d" % (i, rc)); say(text[-3000:])
    viol.sort(key=lambda v: v[0])
    cov = {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": rule, "samples": samples,
           "labels": dict(sorted(labels.items())), "cases_per_test": dict(sorted(per.items())), "shards": len(procs), "skipped_over_budget": skipped,
           "slowest_case": {"test": slow[1], "cpu_s": slow[0]}}
    return cov, viol, err

def excerpt(text):
    m = re.search(r"fatal error:|VT-HANG|VT-BLOAT|DATA RACE", text)
    if m and ("--- FAIL" not in text or m.group(0) == "DATA RACE"): return text[max(0, m.start() - 300):m.start() + 3000]
    return text[-3000:]

def save_replay(prop, scratch, viol, seed, shards, tier):
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    size, ff, text, shard = viol[0]
    rerun = (seed, shard, shards, tier)
    path = os.path.join(ROOT, "replays", "%s-%d.fail" % (prop, os.getpid()))
    m = re.search(r"--- FAIL: (Test\w+/\S+)", text)
    with open(path, "w") as f:
        f.write("# vt-property: %s\n" % prop)
        if ff:
            f.write("# vt-test: %s\n" % (m.group(1) if m else ""))
            f.write(open(ff, errors="replace").read())
        else:
            f.write("# vt-log: the process ended before a case could be recorded\n")
            f.write("# vt-rerun: seed=%s shard=%s shards=%s tier=%s\n" % rerun)
            m2 = re.search(r"fatal error:|panic:|VT-HANG|VT-BLOAT|DATA RACE", text)
            at = max(0, m2.start() - 500) if m2 else max(0, len(text) - 20000)
            f.writelines("# " + l + "\n" for l in text[at:at + 20000].splitlines())
    return path

def do_replay(prop, path, binary, scratch, env):
    text = open(path).read()
    m = re.search(r"^# vt-test: (\S+)", text, re.M)
    if not m:
        say(text)
        k = re.search(r"^# vt-rerun: seed=(\S+) shard=(\S+) shards=(\S+) tier=(\S+)", text, re.M)
        if not k: return 2
        d = os.path.join(scratch, "replay"); os.makedirs(d)
        p = subprocess.run([binary, "-test.failfast"], cwd=d, env=dict(env, VT_SEED=k.group(1), VT_SHARD=k.group(2), VT_SHARDS=k.group(3), VT_TIER=k.group(4), VT_BUDGET="600", TMPDIR=d),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            say(excerpt(p.stdout)); say("VIOLATION property=%s replay=%s" % (prop, path)); return 1
        say("replay passes"); return 0
    run = "/".join("^%s$" % re.escape(x) for x in m.group(1).split("/"))
    d = os.path.join(scratch, "replay"); os.makedirs(d)
    p = subprocess.run([binary, "-test.v", "-test.run", run, "-rapid.failfile=" + os.path.abspath(path), "-rapid.nofailfile"], cwd=d,
                       env=dict(env, VT_REPLAY="1", TMPDIR=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    say(p.stdout[-8000:])
    if p.returncode != 0:
        say("VIOLATION property=%s replay=%s" % (prop, path)); return 1
    say("replay passes"); return 0

def known(prop):
    out = []
    try:
        for l in open(os.path.join(ROOT, "known_findings.txt")):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop): out.append(l[len("finding: "):])
    except FileNotFoundError: pass
    return out

sys.exit(main())
