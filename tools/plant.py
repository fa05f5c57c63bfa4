#!/usr/bin/env python3
"""Tries out planted bugs (development aid, not a check).

plant.py mk ID FILE OLD NEW [FILE OLD NEW]...   writes seeded/ID/patch.diff
plant.py try OUT.jsonl SLOTS ID...              tests, demo and checks with the bug, in copies under /tmp/plant
"""
import json, os, queue, re, shutil, signal, subprocess, sys, threading, time

SEEDED = os.environ.get("SEEDED", "/verif/seeded")
PROPS = [f"C{i:02}" for i in range(1, 21)]
BUILDS = {"small": (["--profile", "checked"], "--cfg cola_mc", "checked"), "default": (["--release"], "", "release")}

def sh(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, **kw)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None, ""

def mk(bug, edits):
    d = f"/tmp/plant-mk-{bug}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["git", "clone", "-q", "/repo", f"{d}/repo"], check=True)
    for f, old, new in edits:
        p = f"{d}/repo/src/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    out = subprocess.run(["git", "-C", f"{d}/repo", "diff"], capture_output=True, text=True).stdout
    os.makedirs(f"{SEEDED}/{bug}", exist_ok=True)
    open(f"{SEEDED}/{bug}/patch.diff", "w").write(out)
    shutil.rmtree(d)

def slot(n):
    d = f"/tmp/plant/{n}"
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(f"{d}/vp"):
        shutil.copytree("/opt/vp", f"{d}/vp", symlinks=True, dirs_exist_ok=True, ignore=shutil.ignore_patterns("target"))
        for f in ("env.sh", "test.sh"):
            p = f"{d}/vp/{f}"
            s = open(p).read().replace("REPO=/repo", f"REPO={d}/repo").replace("/opt/vp", f"{d}/vp")
            open(p, "w").write(s)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "target", "/repo/", f"{d}/repo/"])
    if not os.path.exists(f"{d}/repo/Cargo.toml"):
        shutil.copytree("/repo", f"{d}/repo", ignore=shutil.ignore_patterns("target"), dirs_exist_ok=True)
    shutil.rmtree(f"{d}/repo/src")
    shutil.copytree("/repo/src", f"{d}/repo/src")
    for f in os.listdir(f"{d}/repo/src"):
        # cargo goes by modification times, and a bug may have been built here before
        os.utime(f"{d}/repo/src/{f}")
    shutil.rmtree(f"{d}/harness", ignore_errors=True)
    shutil.copytree("/verif/harness", f"{d}/harness", ignore=shutil.ignore_patterns("target"))
    p = f"{d}/harness/Cargo.toml"
    s = open(p).read().replace('"/repo"', f'"{d}/repo"')
    open(p, "w").write(s)
    return d

def stable(d):
    out = f"{d}/tests.json"
    sh(["bash", f"{d}/vp/test.sh", out], 900)
    try:
        res = json.load(open(out))
    except Exception as e:
        return ["no result"]
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(res.get("passed", []))
    return [t for t in base if t not in passed]

def demo(d, bug):
    src = f"{d}/demo"
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree(f"{SEEDED}/{bug}", src)
    for f in os.listdir(src):
        p = f"{src}/{f}"
        s = open(p).read().replace("/repo", f"{d}/repo") if f in ("demo.sh", "Cargo.toml") else None
        if s:
            open(p, "w").write(s)
    env = dict(os.environ, DEMO_TARGET=f"{d}/t-demo")
    return sh(["bash", f"{src}/demo.sh"], 300, cwd=f"{d}/repo", env=env)

def try_one(d, bug, threads, props):
    d = slot(os.path.basename(d))
    r = dict(bug=bug, prop=json.load(open(f"{SEEDED}/{bug}/meta.json"))["property"])
    rc, o = demo(d, bug)
    r["demo_clean"] = rc
    if rc != 0:
        r["demo_clean_out"] = o[-1500:]
    rc, o = sh(["patch", "-p1", "-s", "-i", f"{SEEDED}/{bug}/patch.diff"], 60, cwd=f"{d}/repo")
    if rc != 0:
        r["patch"] = o
        return r
    rc, o = demo(d, bug)
    r["demo_bug"] = rc
    r["demo_bug_out"] = "\n".join(l for l in o.splitlines() if "panicked" in l or "assert" in l or "left" in l or "right" in l)[-400:]
    if os.environ.get("NOTEST") != "1":
        r["failed_tests"] = stable(d)
    caught = {}
    for b, (args, flags, sub) in BUILDS.items():
        env = dict(os.environ, CARGO_TARGET_DIR=f"{d}/t-{b}", CARGO_NET_OFFLINE="true", RUSTFLAGS=flags)
        rc, o = sh(["cargo", "build", "--offline", "--features", "formats", "-j", str(threads)] + args, 400, cwd=f"{d}/harness", env=env)
        if rc != 0:
            r["build"] = o[-1000:]
            return r
        for p in ([r["prop"]] if props == ["own"] else props or PROPS):
            env = dict(os.environ, MC_THREADS=str(threads))
            t = time.time()
            rc, o = sh([f"{d}/t-{b}/{sub}/mc", "check", p, "quick", f"{d}/out.json", f"{d}/rp"], 400, env=env)
            if rc != 0:
                caught.setdefault(p, []).append(b if rc == 1 else f"{b}:rc={rc}")
    r["caught"] = caught
    return r

def main():
    if sys.argv[1] == "mk":
        a = sys.argv[3:]
        mk(sys.argv[2], [a[i:i + 3] for i in range(0, len(a), 3)])
        return
    # PROPS=own: only the check of the property that the bug is about
    out, n = sys.argv[2], int(sys.argv[3])
    props = os.environ.get("PROPS", "").split()
    q = queue.Queue()
    for b in sys.argv[4:]:
        q.put(b)
    lock = threading.Lock()
    def work(i):
        while True:
            try:
                b = q.get_nowait()
            except queue.Empty:
                return
            d = slot(i)
            r = try_one(d, b, 8 // n, props)
            with lock:
                open(out, "a").write(json.dumps(r) + "\n")
    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]

if __name__ == "__main__":
    main()
