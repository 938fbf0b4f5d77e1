#!/usr/bin/env python3
"""Decides one property: check.py <property id>

Builds the harness against /repo's current working tree, runs the property's
generated-input search in a child process confined to a scratch directory as
an unprivileged user, writes evidence/<id>.json, and reports.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: violated.
Anything else: the check itself failed.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from checks_table import T


def die(msg):
    print("CHECK ERROR: " + msg, flush=True)
    sys.exit(2)


def repo_stamp():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for root, dirs, names in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.join(root, n) for n in sorted(names)]
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build(config):
    target = os.path.join(VERIF, "target-" + config)
    os.makedirs(target, exist_ok=True)
    # Cargo decides by modification times whether a path dependency changed;
    # decide by content instead.
    stamp_file = os.path.join(target, "repo.stamp")
    stamp = repo_stamp()
    old = None
    if os.path.exists(stamp_file):
        with open(stamp_file) as f:
            old = f.read()
    if old != stamp:
        for d in glob.glob(os.path.join(target, "debug", ".fingerprint", "zarr-*")) + \
                 glob.glob(os.path.join(target, "debug", ".fingerprint", "zck-*")):
            shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ)
    env["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    env["CARGO_NET_OFFLINE"] = "true"
    for v in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(v, None)
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"),
           "--target-dir", target]
    if config == "pure":
        cmd += ["--no-default-features", "--features", "pure"]
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=os.path.join(VERIF, "harness"))
    if p.returncode != 0:
        print(p.stdout[-6000:])
        die("building the harness (%s) failed" % config)
    with open(stamp_file, "w") as f:
        f.write(stamp)
    return os.path.join(target, "debug", "zck")


def make_scratch():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    free = shutil.disk_usage(base).free
    if free < (1 << 30):
        base = "/tmp"
    d = tempfile.mkdtemp(prefix="zck-", dir=base)
    os.chmod(d, 0o755)
    return d


def drop_scratch(d):
    if re.fullmatch(r"/(dev/shm|tmp)/zck-[A-Za-z0-9_]+", d):
        shutil.rmtree(d, ignore_errors=True)


def child(args, timeout, scratch):
    """Runs the harness in its own process group; returns (rc, stdout+stderr) or (None, why)."""
    log = os.path.join(scratch, ".log")
    with open(log, "wb") as lf:
        p = subprocess.Popen(args, stdin=subprocess.DEVNULL, stdout=lf, stderr=lf, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            rc = None
    with open(log, "rb") as lf:
        out = lf.read().decode("utf8", "replace")
    return rc, out


def replay_case(binary, rep, timeout=120):
    """Returns 'held', 'violated: ...', 'crash ...' or None (no verdict)."""
    s = make_scratch()
    try:
        f = os.path.join(s, "replay.json")
        with open(f, "w") as fh:
            json.dump(rep, fh)
        os.chmod(f, 0o644)
        rc, out = child([binary, "replay", "--file", f, "--scratch", s], timeout, s)
        if rc == 0:
            return "held"
        if rc == 1:
            return out.strip().splitlines()[-1] if out.strip() else "violated"
        # Alone, no case needs more than some megabytes: one that asks for 16 GB at
        # once is not a victim of its neighbours.
        asked = max([int(n) for n in re.findall(r"memory allocation of (\d+) bytes failed", out)] + [0])
        if rc in (-6, -11, -7, -4, -8) and ("memory allocation" not in out or asked >= 1 << 34):
            return "crash (signal %d): %s" % (-rc, out.strip()[-300:])
        return None
    finally:
        drop_scratch(s)


def save_replay(pid, rep):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(rep, indent=1, sort_keys=True)
    name = "%s-%s-%s-%s.json" % (pid, rep["config"], rep["sub"], hashlib.sha256(text.encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(text + "\n")
    return path


def load_findings(pid):
    f = os.path.join(VERIF, "known_findings.json")
    with open(f) as fh:
        v = json.load(fh)
    return [x for x in v.get("findings", []) if x["property"] == pid]


def run_search(pid, config, binary, tier, seed, timeout, extra):
    """One child run over all sub-checks. Returns (result, violation or None)."""
    s = make_scratch()
    try:
        res = os.path.join(s, "result.json")
        args = [binary, "run", "--prop", pid, "--tier", tier, "--seed", str(seed), "--result", res, "--scratch", s] + extra
        rc, out = child(args, timeout, s)
        if rc == 0:
            with open(res) as f:
                r = json.load(f)
            for sub in r["subs"]:
                if sub["aborted"]:
                    die("%s/%s: %s" % (config, sub["name"], sub["aborted"]))
                if sub["failure"]:
                    rep = {"property": pid, "config": config, "sub": sub["name"], "case": sub["failure"]["case"],
                           "message": sub["failure"]["message"]}
                    return r, rep
            if not r["subs"]:
                die("no sub-checks for " + pid)
            return r, None
        # The child died: find out whether one of the cases it was running kills it.
        cur = {}
        for f in glob.glob(os.path.join(s, "cur-*")):
            m = re.fullmatch(r"cur-(.+)-(\d+)", os.path.basename(f))
            text = open(f, errors="replace").read()
            if m and text:
                try:
                    cur[(m.group(1), int(m.group(2)))] = json.loads(text)
                except ValueError:
                    pass
        if rc == 3 and os.path.exists(os.path.join(s, "hang")):
            # One case does not end. Confirm it alone.
            with open(os.path.join(s, "hang")) as f:
                h = json.load(f)
            case = cur.get((h["sub"], h["shard"]))
            if case is not None:
                rep = {"property": pid, "config": config, "sub": h["sub"], "case": case}
                v = replay_case(binary, rep, 60)
                if v == "held":
                    die("%s/%s: a case took over 75 s in the search, but not when replayed: %s" % (config, h["sub"], json.dumps(case)[:1000]))
                rep["message"] = "does not end (75 s); replaying this case alone: %s" % (v or "does not end (60 s)")
                return {"prop": pid, "config": config, "subs": []}, rep
        why = "timed out after %d s" % timeout if rc is None else "ended with status %s" % rc
        if rc is not None and rc != 2:
            for (sub, shard), case in sorted(cur.items()):
                rep = {"property": pid, "config": config, "sub": sub, "case": case}
                v = replay_case(binary, rep)
                if v and v != "held":
                    rep["message"] = "the search process died (%s); replaying this case alone: %s" % (why, v)
                    return {"prop": pid, "config": config, "subs": []}, rep
        print(out[-3000:])
        die("%s: the search process %s" % (config, why))
    finally:
        drop_scratch(s)


def main():
    if len(sys.argv) < 2:
        die("usage: check.py <property> [--sub NAME] [--scale X] | check.py --replay FILE | check.py --build")
    if sys.argv[1] == "--build":
        for c in ("native", "pure"):
            build(c)
        print("built")
        return 0
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            rep = json.load(f)
        v = replay_case(build(rep["config"]), rep)
        print(v)
        return 0 if v == "held" else 1 if v else 2
    pid = sys.argv[1]
    extra = sys.argv[2:]
    if pid not in T:
        die("unknown property " + pid)
    t = T[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("VERIF_TIER must be quick or thorough")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        die("VERIF_SEED must be an integer")
    t0 = time.time()
    known = load_findings(pid)
    runs, violation, suppressed = [], None, []
    for config in t["configs"]:
        binary = build(config)
        budget = 600 if tier == "quick" else 4 * 3600
        r, rep = run_search(pid, config, binary, tier, seed, budget, extra)
        runs.append(r)
        if rep:
            violation = rep
            break
        for k in known:
            if k["replay"]["config"] == config:
                v = replay_case(binary, k["replay"])
                if v and v != "held":
                    suppressed.append(k)
    subs = [dict(s, config=r["config"]) for r in runs for s in r["subs"]]
    samples = [{"config": s["config"], "sub": s["name"], "case": c} for s in subs for c in s["samples"][:2]]
    coverage = {
        "evaluations": sum(s["evaluations"] for s in subs),
        "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in subs),
        "rule": t["rule"],
        "samples": samples[:8],
        "sub_checks": [{k: s[k] for k in ("config", "name", "evaluations", "distinct_nontrivial", "classes", "wall_s")} for s in subs],
        "known_findings_seen": [k["what"] for k in suppressed],
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": t["level"], "coverage": coverage,
        "assumptions": ["cases run as an unprivileged user inside a scratch directory on a tmpfs or /tmp",
                        "debug assertions and overflow checks are on in the crate under test"],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    for k in suppressed:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violation:
        path = save_replay(pid, violation)
        print("%s [%s/%s]: %s" % (pid, violation["config"], violation["sub"], violation["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (pid, coverage["evaluations"], coverage["distinct_nontrivial"], ev["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
