#!/usr/bin/env python3
"""Writes MANIFEST.json. Run it after editing."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Model checking hook"], capture_output=True, text=True).stdout.split()
SEQ = "stateless model checking: exhaustive exploration of all bounded edit histories and delivery schedules on the real replicas"
TECH = {
    "C01": SEQ + ", compared across delivery orders",
    "C02": SEQ + ", compared with one total order of all characters",
    "C03": SEQ + ", compared with a per-character reference of every deletion",
    "C04": SEQ + ", every returned offset and range checked before being applied",
    "C05": SEQ + ", in any arrival order, with every placement of complete and partial drains",
    "C06": SEQ + ", with every placement of duplicated deliveries",
    "C07": SEQ + ", and in every state a lockstep exploration of a decoded replica and a fork over all continuations to a depth",
    "C08": "exhaustive fault enumeration over explored states: every truncation, every byte set to every value, every extension of their encodings",
    "C09": SEQ + ", every edit going through three serialization formats, with every truncation and byte change of the bytes",
    "C10": SEQ + ", every anchor of every moment resolved in every later state",
    "C11": SEQ + ", every anchor of every peer resolved at every other peer in every delivery state",
    "C12": SEQ + ", with forks and decoded copies joining at every point and lockstep exploration of copies",
    "C13": SEQ + ", with every invalid call and every range form tried in every state",
    "C14": SEQ + ", every edit's identity compared with its author's history",
    "C15": SEQ + ", checking every pair of concurrently typed blocks in every reachable text",
    "C16": SEQ + ", with the library's self-check run in every state",
    "C17": SEQ + ", every delivery to a peer that has what the edit depends on",
    "C18": SEQ + ", with every ordered pair of questions put to every state and lockstep exploration against a copy that was asked nothing",
    "C20": SEQ + " and of all bursts of keystrokes at every place of a document, the size of every replica compared with what its edits account for",
    "C19": SEQ + ", each executed by Miri (undefined behaviour at any step ends the process) and, to larger bounds, with AddressSanitizer and checks of unsafe preconditions",
}
NOTE = ("Exhaustive within the configurations' bounds (peers, edits per history, text lengths, tree node size; listed in the evidence file and DESIGN.md), on the real code in two builds: "
        "as shipped (release) and with tree nodes of 4 and debug assertions. Histories beyond the bounds are not covered. "
        "Trusts the harness's reference (character lists) and that a replica's state is a function of the calls made to it.")
EXTRA = {
    "C08": " Damage of more than one place is covered only as truncation, extension, and loss or doubling of one byte.",
    "C16": " assert_invariants is trusted to mean what its code checks; lengths and contents are also checked from outside.",
    "C19": " Undefined behaviour is judged by Miri (Stacked Borrows, and Tree Borrows when thorough) and AddressSanitizer, which are trusted; the histories interpreted by Miri are short (about a hundred calls a second).",
    "C20": " The bounds leave room for a constant factor: two pieces for each edit, some hundred bytes for a burst of keystrokes.",
    "C15": " The two blocks are of forward typing only, as the property states.",
}
m = {
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "hooks": {
        "guard": "--cfg cola_mc",
        "enable": "RUSTFLAGS='--cfg cola_mc' (check.py, builds 'small', 'watched-small' and 'miri'); the build 'default' leaves it off",
        "source_commits": hook,
    },
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']} quick",
            "thorough_cmd": f"python3 check.py {p['id']} thorough",
            "technique": TECH[p["id"]],
            "level": "model_checking",
            "level_note": NOTE + EXTRA.get(p["id"], ""),
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "python3 check.py replay FILE re-executes the history of a VIOLATION line and prints every step. Genuine defects found and repaired are listed in KNOWN_FINDINGS.txt.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
