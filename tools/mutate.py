#!/usr/bin/env python3
"""Automatic mutants of cola, run against the checks (development aid, not a check).

mutate.py list OUT.json [files]         enumerates mutants
mutate.py run LIST.json OUT.jsonl [n]   runs them on n workers, from copies under /tmp/mut
"""
import json, os, re, shutil, subprocess, sys, threading, queue, time, signal

FILES = "gtree run_tree run_indices replica backlog deletion insertion version_map anchor text encoded_replica encode leb128 utils".split()
SWAPS = [
    (r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]),
    (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r" \+ 1\b", [""]), (r" - 1\b", [""]),
    (r"\bLeft\b", ["Right"]), (r"\bRight\b", ["Left"]), (r"!self", ["self"]), (r"\.start\b", [".end"]), (r"\.end\b", [".start"]),
    (r"\.start\(\)", [".end()"]), (r"\.end\(\)", [".start()"]), (r"\bfirst", ["last"]), (r"\blast", ["first"]), (r"\.rev\(\)", [""]),
    (r"\.max\(", [".min("]), (r"\.min\(", [".max("]), (r"saturating_sub", ["wrapping_sub"]), (r" / 2\b", [" / 2 + 1"]),
    (r"\b0\b", ["1"]), (r"\b1\b", ["2", "0"]), (r"\.next\(", [".prev("]), (r"Some\((\w+)\) =>", [r"Some(\1) if false =>"]),
    (r"Ordering::Greater", ["Ordering::Less"]), (r"Ordering::Less", ["Ordering::Greater"]), (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]),
]

def mutants(files):
    out = []
    for f in files:
        lines = open(f"/repo/src/{f}.rs").read().split("\n")
        skip_until = None
        depth_skip = False
        in_assert = 0
        for i, l in enumerate(lines):
            st = l.strip()
            if st.startswith("#[cfg(test)]") or st.startswith("mod debug"):
                break
            if not st or st.startswith(("//", "#[", "use ", "pub use", "fn ", "pub fn", "pub(crate) fn", "impl", "pub struct", "struct", "mod ", "pub mod", "pub(crate) mod", "where", "type ")):
                continue
            # multi-line asserts and panics
            if in_assert:
                in_assert += l.count("(") - l.count(")")
                continue
            m = re.match(r"\s*(debug_assert|assert|panic|unreachable|write|f\.write)\w*!?\(", l)
            if m:
                in_assert = l.count("(") - l.count(")")
                continue
            code = l.split("//")[0]
            for pat, reps in SWAPS:
                for mm in re.finditer(pat, code):
                    for r in reps:
                        new = code[:mm.start()] + mm.expand(r) + code[mm.end():]
                        if new != code:
                            out.append(dict(file=f, line=i + 1, old=l, new=new))
            # statement deletion
            if re.match(r"\s+[\w.*()\[\]&]+(\.\w+\(.*\)|\s*[+-]?=\s*.*);$", code) and not st.startswith(("let", "return")):
                out.append(dict(file=f, line=i + 1, old=l, new=re.match(r"\s*", l).group(0)))
            m = re.match(r"(\s*(?:\} else )?if )([^{]*[^{\s])( \{)$", code)
            if m and " let " not in code:
                out.append(dict(file=f, line=i + 1, old=l, new=f"{m.group(1)}false && ({m.group(2)}){m.group(3)}"))
                out.append(dict(file=f, line=i + 1, old=l, new=f"{m.group(1)}true || ({m.group(2)}){m.group(3)}"))
    seen, uniq = set(), []
    for m in out:
        k = (m["file"], m["line"], m["new"])
        if k not in seen:
            seen.add(k)
            uniq.append(m)
    return uniq

PROPS = [f"C{i:02}" for i in range(1, 18)]
BUILDS = {"small": (["--profile", "checked"], "--cfg cola_mc", "checked"), "default": (["--release"], "", "release")}
# cheap and broad ones first
FIRST_ORDER = ["C16", "C13", "C10", "C07", "C06", "C05", "C12", "C15", "C08", "C09", "C18"]
ORDER = ["C16", "C01", "C10", "C13", "C07", "C05", "C06", "C03", "C02", "C04", "C12", "C17", "C14", "C15", "C11", "C08", "C09", "C18"]

def sh(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, **kw)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None, ""

def setup(w):
    d = f"/tmp/mut/{w}"
    os.makedirs(d, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "target", "/repo/", f"{d}/repo/"], check=False)
    if not os.path.exists(f"{d}/repo/Cargo.toml"):
        shutil.copytree("/repo", f"{d}/repo", ignore=shutil.ignore_patterns(".git", "target"), dirs_exist_ok=True)
    shutil.copytree("/verif/harness", f"{d}/harness", ignore=shutil.ignore_patterns("target"), dirs_exist_ok=True)
    p = f"{d}/harness/Cargo.toml"
    s = open(p).read().replace('"/repo"', f'"{d}/repo"')
    open(p, "w").write(s)
    return d

def build(d, b, threads):
    args, flags, sub = BUILDS[b]
    env = dict(os.environ, CARGO_TARGET_DIR=f"{d}/t-{b}", CARGO_NET_OFFLINE="true", RUSTFLAGS=flags)
    rc, o = sh(["cargo", "build", "--offline", "--features", "formats", "-j", str(threads)] + args, 300, cwd=f"{d}/harness", env=env)
    return rc, f"{d}/t-{b}/{sub}/mc"

def evaluate(d, first_only, threads, props=None):
    caught, builds = {}, {}
    for b in BUILDS:
        rc, exe = build(d, b, threads)
        if rc != 0:
            return None
        for p in (props or (FIRST_ORDER if first_only else ORDER)):
            if p in caught:
                continue
            env = dict(os.environ, MC_THREADS=str(threads))
            if first_only:
                env["MC_WANT_ALL"] = "1"
            rc, o = sh([exe, "check", p, "quick", f"{d}/out.json", f"{d}/rp"], 200, env=env)
            if rc is None or rc < 0 or rc == 1:
                caught[p] = b + ("" if rc == 1 else f" rc={rc}")
                if first_only:
                    return caught
            elif rc != 0:
                caught["?" + p] = f"{b} rc={rc} {o[-300:]}"
    return caught

def main():
    if sys.argv[1] == "list":
        ms = mutants(sys.argv[3:] or FILES)
        json.dump(ms, open(sys.argv[2], "w"), indent=0)
        print(len(ms))
        return
    ms = json.load(open(sys.argv[2]))
    n = int(sys.argv[4]) if len(sys.argv) > 4 else 4
    first = os.environ.get("FIRST") == "1"
    done = set()
    if os.path.exists(sys.argv[3]):
        for l in open(sys.argv[3]):
            m = json.loads(l)
            done.add((m["file"], m["line"], m["new"]))
    q = queue.Queue()
    for m in ms:
        if (m["file"], m["line"], m["new"]) not in done:
            q.put(m)
    lock = threading.Lock()
    threads = max(1, 8 // n)
    def work(w):
        d = setup(w)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            p = f"{d}/repo/src/{m['file']}.rs"
            orig = open(p).read()
            lines = orig.split("\n")
            assert lines[m["line"] - 1] == m["old"], (m, lines[m["line"] - 1])
            lines[m["line"] - 1] = m["new"]
            t = time.time()
            try:
                open(p, "w").write("\n".join(lines))
                r = evaluate(d, first, threads)
            finally:
                open(p, "w").write(orig)
            m = dict(m, caught=r, s=round(time.time() - t, 1))
            with lock:
                open(sys.argv[3], "a").write(json.dumps(m) + "\n")
    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]

main()
