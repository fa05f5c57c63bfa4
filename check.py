#!/usr/bin/env python3
"""Decides one property of cola by exhaustive bounded exploration.

usage: check.py Cnn quick|thorough     runs the check
       check.py build                  only builds the explorer
       check.py replay FILE            re-executes a recorded history

The explorer (harness/, Rust) links the cola crate from /repo's working tree
and is built twice: as the library ships ("default": release, no debug
assertions, 32-ary tree) and with the model checking hook ("small": tree nodes
of 4, debug assertions and overflow checks on), so that trees of several
levels fit into small histories.

For C19 (no undefined behaviour) both of these are built with
AddressSanitizer, and a second explorer (ub/) is executed by Miri, an
interpreter of Rust's abstract machine that stops at any undefined behaviour.
"""
import functools
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
UB = os.path.join(VERIF, "ub")
REPO = "/repo"
BUILDS = {
    "small": (["--profile", "checked"], "--cfg cola_mc", "checked"),
    "default": (["--release"], "", "release"),
}
HOST = "x86_64-unknown-linux-gnu"
WATCHED = {
    "watched-small": (["--profile", "checked", "--target", HOST], "--cfg cola_mc -Zsanitizer=address", HOST + "/checked"),
    "watched-default": (["--release", "--target", HOST], "-Zsanitizer=address", HOST + "/release"),
}


def die(code, msg):
    print(msg)
    sys.stdout.flush()
    sys.exit(code)


def fingerprint():
    """Identifies the sources by content: times of files prove nothing."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(HARNESS, "src"), os.path.join(UB, "src")]
    files = [os.path.join(UB, "Cargo.toml"), os.path.join(UB, "Cargo.lock"), os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "Cargo.toml"), os.path.join(HARNESS, "Cargo.lock")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:16]


@functools.lru_cache(None)
def here():
    base = os.path.join(VERIF, "target")
    here = os.path.join(base, fingerprint())
    # Old builds are of no use: the sources have changed.
    if os.path.isdir(base):
        for d in os.listdir(base):
            p = os.path.join(base, d)
            if d != "out" and p != here and os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
    return here


def cargo_env(tdir, flags):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_BUILD_RUSTFLAGS", "MIRIFLAGS", "RUSTUP_TOOLCHAIN"):
        env.pop(k, None)
    env.update(CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE="true", RUSTFLAGS=flags)
    return env


def build(which=BUILDS, toolchain=()):
    base = here()
    bins, procs = {}, []
    for name, (args, flags, sub) in which.items():
        tdir = os.path.join(base, name)
        exe = os.path.join(tdir, sub, "mc")
        bins[name] = exe
        if os.path.exists(os.path.join(tdir, "done")) and os.path.exists(exe):
            continue
        cmd = ["cargo", *toolchain, "build", "--offline", "--locked", "--features", "formats"] + args
        os.makedirs(tdir, exist_ok=True)
        log = open(os.path.join(tdir, "log"), "w+")
        procs.append((name, tdir, log, subprocess.Popen(cmd, cwd=HARNESS, env=cargo_env(tdir, flags), stdout=log, stderr=subprocess.STDOUT)))
    for name, tdir, log, p in procs:
        if p.wait() != 0:
            log.seek(0)
            die(2, log.read()[-4000:] + f"\nthe {name} build failed")
        open(os.path.join(tdir, "done"), "w").close()
    return bins


# ------------------------------------------------------- undefined behaviour

PARTS = 8
# What Miri and AddressSanitizer call by its name.
UNDEFINED = re.compile(r"Undefined Behavior|unsafe precondition\(s\) violated|ERROR: AddressSanitizer(?!: (?:stack-overflow|out[ -]of[ -]memory|allocation-size|requested allocation))")


ALIASING = {"miri": "", "miri-tree": "-Zmiri-tree-borrows"}


def miri(tier, part, parts, out, only=None, model="miri"):
    """Starts the execution of a part of all jobs."""
    env = cargo_env(os.path.join(here(), "miri"), "--cfg cola_mc -Awarnings")
    env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks " + ALIASING[model]
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--quiet", "--", tier, str(part), str(parts), out] + ([only] if only else [])
    return subprocess.Popen(cmd, cwd=UB, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def undefined_replay(build, job, text, replays):
    path = os.path.join(replays, f"C19-{job or build}.txt")
    with open(path, "w") as f:
        f.write(f"property C19\nbuild {build}\njob {job}\n")
        f.writelines(f"# {l}\n" for l in text.splitlines()[:60])
    return path


def run_undefined(tier):
    prop, start = "C19", time.time()
    out_dir = os.path.join(VERIF, "target", "out")
    replays = os.path.join(VERIF, "replays")
    for d in (out_dir, replays, os.path.join(VERIF, "evidence")):
        os.makedirs(d, exist_ok=True)
    # builds only
    p = miri(tier, 0, 1, os.path.join(out_dir, "none.json"), "none")
    bins = build(WATCHED, ("+nightly",))
    said = p.communicate()[0]
    if p.returncode != 0 and not UNDEFINED.search(said):
        die(2, said[-4000:] + "\nMiri's build failed")
    built = time.time() - start
    violation, broken, notes, results, parts = None, None, [], [], []

    # 1. everything accessed is valid memory, on many histories
    for name, exe in bins.items():
        out = os.path.join(out_dir, f"{prop}-{tier}-{name}.json")
        for f in (out, out + ".current"):
            if os.path.exists(f):
                os.remove(f)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1")
        p = subprocess.run([exe, "check", prop, tier, out, replays], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if os.path.exists(out):
            with open(out) as f:
                results.append(dict(json.load(f), build=name))
        if UNDEFINED.search(p.stdout):
            job = open(out + ".current").read().strip() if os.path.exists(out + ".current") else ""
            print(p.stdout[-3000:])
            violation = undefined_replay(name, job, p.stdout, replays)
            break
        if p.returncode == 3:
            broken = p.stdout[-2000:] + f"\nthe {name} explorer failed"
        elif p.returncode != 0:
            # The library failed in a way that has a meaning.
            notes.append(f"{name} ended early with {p.returncode}")

    # 2. nothing undefined at all, on fewer of them
    for model in ["miri"] if tier == "quick" else list(ALIASING):
        if violation or broken:
            break
        procs = []
        for k in range(PARTS):
            out = os.path.join(out_dir, f"{prop}-{tier}-{model}-{k}.json")
            for f in (out, out + ".current"):
                if os.path.exists(f):
                    os.remove(f)
            procs.append((out, miri(tier, k, PARTS, out, model=model)))
        for (out, p), said in zip(procs, map_threads(lambda x: x[1].communicate()[0], procs)):
            if p.returncode == 0 and os.path.exists(out):
                with open(out) as f:
                    parts.append(json.load(f))
                continue
            job = open(out + ".current").read().strip() if os.path.exists(out + ".current") else "none"
            if UNDEFINED.search(said):
                if not violation:
                    i = UNDEFINED.search(said).start()
                    print(f"in job {job}:\n" + said[max(0, i - 20):i + 3000])
                    violation = undefined_replay(model, job, said[max(0, i - 20):], replays)
            elif "unsupported operation" in said:
                notes.append(f"Miri cannot execute {job}: " + said[said.index("unsupported operation"):][:300])
            elif p.returncode < 0 or job == "none":
                broken = said[-2000:] + f"\nMiri ended with {p.returncode}"
            else:
                notes.append(f"Miri stopped in {job}: " + said[-300:])

    total = lambda k: sum(r[k] for r in results)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": total("states") + sum(r["states"] for r in parts),
            "transitions": total("transitions") + sum(r["calls"] for r in parts),
            "traces_validated_against_impl": total("histories") + sum(r["histories"] for r in parts),
            "library_calls": total("library_calls") + sum(r["calls"] for r in parts),
            "interpreted": {k: sum(r[k] for r in parts) for k in ("jobs", "calls", "histories", "states", "refused")},
            "in_state_probes": total("visits"),
            "damaged_inputs_decoded": total("damaged_inputs"),
            "exhaustive": not violation and not broken and not notes,
            "explanation": "Every history of every listed configuration was executed on the real replicas with AddressSanitizer "
            "(invalid, freed or uninitialized memory; also the standard library's checks of unsafe preconditions), and every "
            "history of the jobs of ub/src/main.rs by Miri, which checks every step against the rules of Rust's abstract "
            "machine (validity, provenance, aliasing by Stacked Borrows, when thorough also by Tree Borrows, initialization, bounds, alignment).",
            "configurations": [dict(c, build=r["build"]) for r in results for c in r["configurations"]],
            "notes": notes,
            "samples": [s for r in results for s in r["samples"]][:16] or [c["name"] for r in results for c in r["configurations"]][:16],
        },
        "assumptions": [
            "bounds as in the configurations' definitions (harness/src/families.rs, ub/src/main.rs) and DESIGN.md",
            "the sizes of tree nodes in the interpreted histories are those of the hook",
        ],
        "build_s": round(built, 2),
        "wall_s": round(time.time() - start, 2),
        "violations": int(bool(violation)),
    }
    finish(prop, evidence)
    for n in notes:
        print("note:", n)
    if violation:
        print(f"VIOLATION property={prop} replay={violation}")
        sys.exit(1)
    if broken:
        die(2, broken)
    c = evidence["coverage"]
    print(f"{prop} holds on everything explored: {c['states']} states, {c['transitions']} transitions, {c['traces_validated_against_impl']} histories, {evidence['wall_s']} s")
    sys.exit(0)


def map_threads(f, xs):
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(max(1, len(xs))) as ex:
        return list(ex.map(f, xs))


def finish(prop, evidence):
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)


# ------------------------------------------------------------ all the others


def run_check(prop, tier):
    start = time.time()
    bins = build()
    built = time.time() - start
    out_dir = os.path.join(VERIF, "target", "out")
    replays = os.path.join(VERIF, "replays")
    os.makedirs(out_dir, exist_ok=True)
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    results, violations, broken = [], 0, None
    for name, exe in bins.items():
        out = os.path.join(out_dir, f"{prop}-{tier}-{name}.json")
        for f in (out, out + ".current"):
            if os.path.exists(f):
                os.remove(f)
        p = subprocess.run([exe, "check", prop, tier, out, replays], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        sys.stdout.write(p.stdout)
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
        if p.returncode == 0:
            continue
        if p.returncode == 1 and f"VIOLATION property={prop} " in p.stdout:
            violations += 1
            break
        if p.returncode < 0 and p.returncode not in (-9, -15):
            # The library brought the whole process down (stack overflow,
            # abort, segmentation fault): none of that may happen.
            cfg = ""
            if os.path.exists(out + ".current"):
                with open(out + ".current") as f:
                    cfg = f.read().strip()
            path = os.path.join(replays, f"{prop}-crash.txt")
            with open(path, "w") as f:
                f.write(f"property {prop}\nbuild {name}\ncfg {cfg}\nexplore\n# the process died of signal {-p.returncode}\n")
            print(f"{prop}: the process died of signal {-p.returncode} while exploring {cfg}")
            print(f"VIOLATION property={prop} replay={path}")
            violations += 1
            break
        broken = f"the {name} explorer ended with {p.returncode}"
        break
    total = lambda k: sum(r[k] for r in results)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": total("states"),
            "transitions": total("transitions"),
            "traces_validated_against_impl": total("histories"),
            "library_calls": total("library_calls"),
            "world_states_expanded": total("nodes"),
            "revisits_merged": total("merged"),
            "in_state_probes": total("visits"),
            "damaged_inputs_decoded": total("damaged_inputs"),
            "exhaustive": violations == 0 and broken is None,
            "explanation": "Every history of every listed configuration was executed on the real replicas (there is no separate "
            "model whose traces would have to be mapped): states are distinct peer and session states, transitions the edits, "
            "deliveries, drains and joins executed, traces the complete delivery histories run to their end.",
            "configurations": [dict(c, build=r["build"]) for r in results for c in r["configurations"]],
            "samples": [s for r in results for s in r["samples"]][:16] or [c["name"] for r in results for c in r["configurations"]][:16],
        },
        "assumptions": [
            "bounds as in the configurations' definitions (harness/src/families.rs) and DESIGN.md",
            "replica ids are unique, edits reach peers unaltered",
        ],
        "build_s": round(built, 2),
        "wall_s": round(time.time() - start, 2),
        "violations": violations,
    }
    finish(prop, evidence)
    if broken:
        die(2, broken)
    if violations:
        sys.exit(1)
    c = evidence["coverage"]
    print(f"{prop} holds on everything explored: {c['states']} states, {c['transitions']} transitions, {c['traces_validated_against_impl']} histories, {evidence['wall_s']} s")
    sys.exit(0)


def replay(file):
    with open(file) as f:
        text = f.read()
    field = lambda k: next((l[len(k) + 1:] for l in text.splitlines() if l.startswith(k + " ")), "")
    name = field("build")
    if field("property") != "C19":
        return subprocess.run([build()[name], "replay", file]).returncode
    tier = "thorough" if "-t-" in field("job") else "quick"
    out = os.path.join(VERIF, "target", "replay.json")
    if name in ALIASING:
        for tier in ("quick", "thorough"):
            said = miri(tier, 0, 1, out, field("job"), name).communicate()[0]
            if UNDEFINED.search(said):
                break
    else:
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1")
        exe = build(WATCHED, ("+nightly",))[name]
        said = subprocess.run([exe, "check", "C19", tier, out, VERIF + "/target", field("job")], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace").stdout
    print(said[-3000:])
    bad = bool(UNDEFINED.search(said))
    print("REPRODUCED property=C19" if bad else "not reproduced")
    return int(bad)


def main():
    if sys.argv[1:] == ["build"]:
        build()
    elif len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    elif len(sys.argv) == 3 and sys.argv[1] == "C19" and sys.argv[2] in ("quick", "thorough"):
        run_undefined(sys.argv[2])
    elif len(sys.argv) == 3 and sys.argv[2] in ("quick", "thorough"):
        run_check(sys.argv[1], sys.argv[2])
    else:
        die(2, __doc__)


if __name__ == "__main__":
    main()
