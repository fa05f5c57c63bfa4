//! The bounded systems explored for each property.

use crate::explore::*;
use crate::visits;
use crate::world::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Which of the two builds of the library is running.
pub const SMALL: bool = cfg!(cola_mc);

// --------------------------------------------------------------------- seeds

fn ins(p: u8, at: u32, len: u32) -> Act {
    Act::Ins { p, at, len }
}
fn del(p: u8, a: u32, b: u32) -> Act {
    Act::Del { p, a, b }
}

/// Peer `q` puts one character between every two of the `n` initial ones:
/// 2n-1 leaves, one run in n fragments.
fn comb(q: u8, n: u32) -> Vec<Act> {
    let mut v = Vec::new();
    for (i, at) in (1..n).rev().enumerate() {
        v.push(ins(q, at, 1));
        if i % 10 == 9 {
            v.push(Act::Sync);
        }
    }
    v.push(Act::Sync);
    v
}

/// Like comb, but from the left, so that the inserting replica continues
/// after its own text each time.
fn comb_left(q: u8, n: u32) -> Vec<Act> {
    let mut v = Vec::new();
    for i in 1..n {
        v.push(ins(q, 2 * i - 1, 1));
        if i % 10 == 9 {
            v.push(Act::Sync);
        }
    }
    v.push(Act::Sync);
    v
}

/// A comb in which every second initial character is then deleted.
fn holes(q: u8, n: u32) -> Vec<Act> {
    let mut v = comb(q, n);
    let mut i = 0;
    for (j, _) in (0..n).step_by(2).enumerate() {
        v.push(del(q ^ 1, i, i + 1));
        i += 3;
        if j % 10 == 9 {
            v.push(Act::Sync);
        }
    }
    v.push(Act::Sync);
    v
}

/// Pieces of `w` initial characters, of every other one the end is deleted
/// and of the ones in between the start.
fn thick(q: u8, n: u32, w: u32) -> Vec<Act> {
    let mut v = Vec::new();
    for (i, at) in (1..n).rev().enumerate() {
        v.push(ins(q, at * w, 1));
        if i % 10 == 9 {
            v.push(Act::Sync);
        }
    }
    v.push(Act::Sync);
    for i in (0..n).rev() {
        let at = i * (w + 1);
        v.push(if i % 2 == 0 { del(q ^ 1, at + w - 2, at + w) } else { del(q ^ 1, at, at + 2) });
        if i % 10 == 9 {
            v.push(Act::Sync);
        }
    }
    v.push(Act::Sync);
    v
}

/// A comb whose middle is deleted: a block of tombstones.
fn block(q: u8, n: u32) -> Vec<Act> {
    let mut v = comb(q, n);
    let len = 2 * n - 1;
    v.push(del(q, len / 4, len - len / 4));
    v.push(Act::Sync);
    v
}

/// Two peers alternately prepend.
fn prepends(n: u32) -> Vec<Act> {
    let mut v = Vec::new();
    for i in 0..n {
        v.push(ins((i % 2) as u8, 0, 1));
        if i % 2 == 1 {
            v.push(Act::Sync);
        }
    }
    v.push(Act::Sync);
    v
}

/// Rounds in which both peers insert at the same place without seeing the
/// other.
fn rivals(n: u32) -> Vec<Act> {
    let mut v = Vec::new();
    for i in 0..n {
        v.push(ins(0, 1, 1));
        v.push(ins(1, 1, 1 + i % 2));
        v.push(Act::Sync);
    }
    v
}

/// A conversation at the end of the document.
fn talk(n: u32) -> Vec<Act> {
    let mut v = Vec::new();
    for i in 0..n {
        v.push(ins((i % 2) as u8, 1 + i, 1));
        v.push(Act::Sync);
    }
    v
}

/// One author types a line in pieces, the other cuts it from the left by
/// single deletions.
fn bites(n: u32) -> Vec<Act> {
    let mut v = Vec::new();
    for i in 0..n {
        v.push(ins(0, 1 + i, 1));
    }
    v.push(Act::Sync);
    let mut at = 1;
    for i in 0..n / 3 {
        v.push(del(1, at, at + 1));
        at += 2;
        if i % 10 == 9 {
            v.push(Act::Sync);
        }
    }
    v.push(Act::Sync);
    v
}

/// `n` deletions of single characters by both peers in turns, leaving every
/// second character of the initial text.
fn pecks(n: u32) -> Vec<Act> {
    let mut v = Vec::new();
    for i in 0..n {
        v.push(del((i % 7 == 0) as u8, i, i + 1));
        if i % 7 == 0 || i % 7 == 6 {
            v.push(Act::Sync);
        }
    }
    v.push(Act::Sync);
    v
}

fn pull(p: u8) -> Act {
    Act::Pull { p }
}

/// Scripted histories whose edits are all still in flight to the last peer
/// (and partly to the others): what is explored is every way of receiving
/// them. (name, peers, initial length, script)
fn scripts(long: bool) -> Vec<(&'static str, usize, u32, Vec<Act>)> {
    let x = long as u32;
    let mut v: Vec<(&'static str, usize, u32, Vec<Act>)> = Vec::new();
    // one author types a line in pieces
    v.push(("line", 2, 1, (0..6 + x).map(|i| ins(0, 1 + i, 1)).collect()));
    // from right to left
    v.push(("back", 2, 1, (0..6 + x).map(|_| ins(0, 1, 1)).collect()));
    // types, corrects, types
    v.push(("edit", 2, 2, vec![ins(0, 1, 2), ins(0, 3, 1), del(0, 2, 4), ins(0, 2, 1), del(0, 0, 2), ins(0, 0, 1)]));
    // deletes a line bit by bit, from either end and from the middle
    v.push(("erase", 2, 6 + x, (0..6 + x).map(|_| del(0, 0, 1)).collect()));
    v.push(("backspace", 2, 6 + x, (0..6 + x).rev().map(|i| del(0, i, i + 1)).collect()));
    v.push(("gnaw", 2, 8, vec![del(0, 3, 5), del(0, 2, 4), del(0, 0, 1), del(0, 2, 3), del(0, 0, 1), del(0, 0, 1)]));
    // a conversation: everybody answers after having read everything
    let mut r = Vec::new();
    for i in 0..6 + x {
        r.push(pull((i % 3) as u8));
        r.push(ins((i % 3) as u8, 1 + i, 1));
    }
    v.push(("relay", 4, 1, r));
    let mut r = Vec::new();
    for i in 0..6 + x {
        r.push(pull((i % 2) as u8));
        r.push(ins((i % 2) as u8, 1 + i / 2, 1));
    }
    v.push(("nest", 3, 2, r));
    let mut r = Vec::new();
    for i in 0..6 {
        let p = (i % 3) as u8;
        r.push(pull(p));
        r.push(if i % 2 == 0 { ins(p, 1, 2) } else { del(p, 2, 4) });
    }
    v.push(("swap", 4, 3, r));
    let mut r = Vec::new();
    for i in 0..3 {
        r.extend([pull(0), ins(0, 1 + i, 2), pull(1), ins(1, 2 + i, 1), del(1, i, 1 + i)]);
    }
    r.truncate(12);
    v.push(("weave", 3, 2, r));
    // everybody at one spot, unaware of the others
    v.push(("crowd", 7, 2, (0..6).map(|i| ins(i, 1, 1 + (i % 2) as u32)).collect()));
    v.push(("crowd-twice", 4, 2, vec![ins(0, 1, 1), ins(0, 2, 1), ins(1, 1, 1), ins(1, 1, 1), ins(2, 1, 2), ins(2, 2, 1)]));
    v.push(("crowd-behind", 4, 1, vec![ins(0, 1, 1), pull(1), ins(1, 1, 1), pull(2), ins(2, 1, 1), ins(0, 1, 1), ins(1, 1, 1), ins(2, 1, 1)]));
    // overlapping deletions, with text typed into them
    v.push(("clash", 6, 6, vec![del(0, 0, 3), del(1, 2, 5), del(2, 1, 6), ins(3, 3, 1), ins(4, 3, 2), del(4, 2, 6)]));
    v.push(("inside", 5, 4, vec![ins(0, 2, 2), pull(1), ins(1, 3, 1), pull(2), ins(2, 3, 1), del(0, 1, 5), del(1, 2, 5), del(3, 0, 4)]));
    // deletions that depend on other authors' text
    v.push(("depend", 4, 2, vec![ins(0, 1, 2), ins(1, 1, 2), pull(2), del(2, 1, 4), ins(2, 2, 1), pull(0), del(0, 0, 2), del(1, 2, 3)]));
    v.push(("chain-dels", 5, 5, vec![del(0, 0, 1), pull(1), del(1, 0, 2), pull(2), ins(2, 1, 1), pull(3), del(3, 0, 2), del(0, 1, 3)]));
    // several deletions of one author waiting, of which another author's
    // make some void
    v.push(("void", 3, 3, vec![ins(0, 3, 1), del(0, 0, 1), del(0, 0, 1), del(1, 0, 1), ins(1, 2, 1), del(1, 1, 2)]));
    v.push(("void-2", 4, 4, vec![ins(0, 4, 1), del(0, 1, 3), del(0, 0, 1), ins(1, 0, 1), del(1, 1, 3), del(1, 1, 2), del(2, 0, 2)]));
    // text typed at the end of what another one deletes, and between runs
    v.push(("edges", 4, 3, vec![ins(0, 3, 1), ins(0, 4, 1), ins(1, 0, 1), pull(2), del(2, 2, 6), ins(2, 2, 1), ins(0, 5, 1)]));
    // anchors deep inside other people's runs
    v.push(("deep", 4, 1, vec![ins(0, 1, 4), pull(1), ins(1, 3, 3), pull(2), ins(2, 4, 2), ins(0, 2, 1), ins(1, 4, 1), ins(2, 5, 1)]));
    if long {
        v.push(("crowd-7", 8, 1, (0..7).map(|i| ins(i, 1, 1)).collect()));
        v.push(("crowd-pairs", 5, 1, vec![ins(0, 1, 1), ins(1, 1, 1), pull(2), pull(3), ins(2, 2, 1), ins(3, 2, 1), ins(0, 2, 1), ins(1, 1, 1)]));
        let mut r = Vec::new();
        for i in 0..8 {
            r.push(pull((i % 2) as u8));
            r.push(ins((i % 2) as u8, 1 + i, 1));
        }
        v.push(("relay-8", 3, 1, r));
        let mut r = Vec::new();
        for i in 0..4u32 {
            r.extend([pull(0), ins(0, 1 + i, 1), pull(1), del(1, i, 1 + i), pull(2), ins(2, i, 1)]);
        }
        r.truncate(16);
        v.push(("weave-3", 4, 3, r));
    }
    v
}

fn scripted(t: Tier, recv: Recv, dups: bool) -> Vec<Cfg> {
    let q = t == Tier::Quick;
    let mut v = Vec::new();
    let sets: Vec<Vec<u64>> = vec![(1..9).collect(), (1..9).rev().collect(), vec![u64::MAX, 1, 1 << 32, 0x8000_0000_0000_0000, 5, 5 + (1 << 57), 77, 1 << 20]];
    for (name, n, init, script) in scripts(!q && !dups) {
        for (i, set) in sets.iter().enumerate() {
            if q && i == 2 && n < 4 {
                continue;
            }
            let last = 1u32 << (n - 1);
            let b = Cfg { init, seed: script.clone(), edits: 0, ids: set[..n].to_vec(), recv, finishers: if q && recv == Recv::Any { last } else { u32::MAX }, ..base(&format!("script-{name}-{i}")) };
            if dups {
                v.push(Cfg { dup: 1, finishers: last, name: format!("dup-{}", b.name), ..b.clone() });
            } else {
                v.push(b);
            }
        }
    }
    v
}

/// The scripted histories with one more edit made by anybody who has received
/// any causally closed part of them.
fn then(t: Tier) -> Vec<Cfg> {
    let q = t == Tier::Quick;
    let mut v = Vec::new();
    for (name, n, init, script) in scripts(false) {
        if q && n > 5 {
            continue;
        }
        let wide = n > 5;
        for set in 0..if q { 1 } else { 2u64 } {
            let ids = (0..n as u64).map(|i| if set == 0 { i + 1 } else { 9 - i }).collect();
            v.push(Cfg {
                init,
                seed: script.clone(),
                edits: 1,
                lens: &[1],
                pos: if wide { Pos::Few } else { Pos::All },
                dels: if wide { Dels::Few } else if q { Dels::MaxLen(3) } else { Dels::All },
                finish_last: true,
                finishers: 1 << (n - 1),
                ids,
                ..base(&format!("then-{name}-{set}"))
            });
        }
    }
    v
}

/// Somebody joins in the middle of a scripted history, from any state of any
/// of the peers.
fn joined(t: Tier, recv: Recv) -> Vec<Cfg> {
    let q = t == Tier::Quick;
    let mut v = Vec::new();
    for (name, n, init, script) in scripts(false) {
        let any = recv == Recv::Any;
        if n > if q { 4 } else { 6 } || any && name == "void-2" {
            continue;
        }
        let ids = (0..n as u64).map(|i| if any { 9 - i } else { i + 1 }).collect();
        v.push(Cfg {
            init,
            seed: script,
            edits: 0,
            joins: 1,
            recv,
            edit_recv: if any { EditRecv::All } else { EditRecv::Canonical },
            finish_last: true,
            ids,
            ..base(&format!("joined-{name}-{}", if any { "any" } else { "causal" }))
        });
    }
    v
}

/// Edits of nothing in between.
fn hollow(t: Tier) -> Vec<Cfg> {
    let q = t == Tier::Quick;
    let mut v = vec![
        Cfg { init: 2, edits: 3, lens: &[1], noops: true, pos: Pos::Few, dels: Dels::Few, ids: ids(A, 2), ..base("hollow-2p-e3") },
        Cfg { init: 1, edits: 3, per_peer: 2, lens: &[1], noops: true, pos: Pos::End, dels: Dels::MaxLen(1), ids: ids(DESC, 3), finish_last: true, ..base("hollow-3p-e3") },
        Cfg { init: 0, edits: 3, lens: &[1], noops: true, dels: Dels::Few, ids: ids(BIG, 2), ..base("hollow-empty-e3") },
        Cfg { init: 1, edits: 4, editors: 0b01, lens: &[1], noops: true, pos: Pos::End, dels: Dels::MaxLen(1), recv: Recv::Any, finish_last: true, finishers: 0b10, ids: ids(A, 2), ..base("hollow-any") },
        Cfg { init: 3, seed: comb(1, 3), edits: 2, lens: &[1], noops: true, dels: Dels::Few, finish_last: true, ids: ids(A, 2), ..base("hollow-comb") },
    ];
    if !q {
        v.extend([
            Cfg { init: 2, edits: 4, lens: &[1], noops: true, pos: Pos::Few, dels: Dels::Few, finish_last: true, ids: ids(A, 2), ..base("hollow-2p-e4") },
            Cfg { init: 1, edits: 4, lens: &[1], noops: true, pos: Pos::End, dels: Dels::MaxLen(1), ids: ids(DESC, 3), finish_last: true, ..base("hollow-3p-e4") },
            Cfg { init: 4, seed: holes(1, 4), edits: 2, lens: &[1], noops: true, finish_last: true, ids: ids(A, 2), ..base("hollow-holes") },
        ]);
    }
    v
}

/// A few of the scripted histories, for the costlier checks.
fn some_scripts(t: Tier, recv: Recv) -> Vec<Cfg> {
    let names = ["edit", "swap", "weave", "depend", "edges", "inside", "deep"];
    scripted(t, recv, false).into_iter().filter(|c| names.iter().any(|n| c.name.starts_with(&format!("script-{n}-1")) || t == Tier::Thorough && c.name.starts_with(&format!("script-{n}-")))).collect()
}

const A: &[u64] = &[1, 2, 3, 4];
const DESC: &[u64] = &[4, 3, 2, 1];
const BIG: &[u64] = &[u64::MAX, 1, 1 << 32, 0x8000_0000_0000_0000];
const SAME_LOW: &[u64] = &[5 + (1 << 57), 5, 5 + (1 << 32), 5 + (3 << 40)];
const ODD: &[u64] = &[300, 70_000, 127, 128];

fn ids(v: &[u64], n: usize) -> Vec<u64> {
    v[..n].to_vec()
}

fn base(name: &str) -> Cfg {
    Cfg { name: name.to_string(), join_ids: vec![0x0BAD_CAFE, 9, 77], ..Default::default() }
}

// ------------------------------------------------------------------ families

/// Small sessions, explored completely.
fn small(t: Tier) -> Vec<Cfg> {
    let q = t == Tier::Quick;
    let mut v = vec![
        Cfg { init: 2, edits: 2, lens: &[1, 2], ids: ids(A, 2), ..base("small-2p-e2") },
        Cfg { init: 2, edits: 3, lens: &[1, 2], ids: ids(A, 2), ..base("small-2p-e3") },
        Cfg { init: 0, edits: 3, lens: &[1, 2], ids: ids(DESC, 2), ..base("small-2p-empty-e3") },
        Cfg { init: 0, edits: 4, lens: &[1], ids: ids(SAME_LOW, 2), ..base("small-2p-empty-e4") },
        Cfg { init: 1, edits: 3, lens: &[1], ids: ids(BIG, 3), ..base("small-3p-e3") },
        // three authors, one edit each, nothing seen of the others
        Cfg { init: 3, edits: 3, per_peer: 1, lens: &[1], ids: ids(DESC, 3), edit_recv: EditRecv::None, ..base("rivals-3p") },
        Cfg { init: 1, edits: 4, per_peer: 2, lens: &[1], ids: ids(A, 2), edit_recv: EditRecv::None, ..base("rivals-2p-2each") },
        Cfg { init: 1, edits: 4, per_peer: 1, lens: &[1], dels: Dels::No, ids: ids(ODD, 4), ..base("rivals-4p") },
        // insertions only, deeper
        Cfg { init: 0, edits: 5, lens: &[1], dels: Dels::No, ids: ids(DESC, 2), ..base("ins-2p-e5") },
        Cfg { init: 1, edits: 4, lens: &[1], dels: Dels::No, ids: ids(A, 3), ..base("ins-3p-e4") },
        // one long piece of text cut in all ways
        Cfg { init: 5, edits: 2, lens: &[1], ids: ids(A, 2), ..base("cut-2p-e2") },
        Cfg { init: 4, edits: 3, lens: &[1], max_dels: 2, ids: ids(DESC, 2), ..base("cut-2p-e3") },
        // deletions only
        Cfg { init: 4, edits: 4, lens: &[], ids: ids(A, 2), ..base("del-2p-e4") },
        Cfg { init: 3, edits: 3, lens: &[], ids: ids(A, 3), ..base("del-3p-e3") },
    ];
    if !q {
        v.extend([
            Cfg { init: 2, edits: 4, lens: &[1], ids: ids(DESC, 2), ..base("small-2p-e4") },
            Cfg { init: 2, edits: 3, lens: &[1, 2], ids: ids(BIG, 3), ..base("small-3p-i2-e3") },
            Cfg { init: 1, edits: 4, lens: &[1], ids: ids(SAME_LOW, 3), ..base("small-3p-e4") },
            Cfg { init: 1, edits: 6, per_peer: 3, lens: &[1], dels: Dels::MaxLen(1), ids: ids(DESC, 2), edit_recv: EditRecv::None, ..base("rivals-2p-3each") },
            Cfg { init: 1, edits: 4, per_peer: 1, lens: &[1], ids: ids(ODD, 4), ..base("rivals-4p-dels") },
            Cfg { init: 0, edits: 6, lens: &[1], dels: Dels::No, ids: ids(A, 2), ..base("ins-2p-e6") },
            Cfg { init: 0, edits: 5, lens: &[1], dels: Dels::No, ids: ids(DESC, 3), ..base("ins-3p-e5") },
            Cfg { init: 6, edits: 3, lens: &[1], ids: ids(A, 2), ..base("cut-2p-e3-full") },
            Cfg { init: 5, edits: 4, lens: &[], ids: ids(A, 3), ..base("del-3p-e4") },
        ]);
    }
    v
}

/// Documents in many pieces, then concurrent edits anywhere.
fn seeded(t: Tier) -> Vec<Cfg> {
    let q = t == Tier::Quick;
    let mut v = Vec::new();
    let mut add = |name: String, init: u32, seed: Vec<Act>, edits: u16, dels: Dels, pos: Pos| {
        v.push(Cfg { init, seed, edits, dels, pos, lens: &[1], ids: ids(A, 2), finish_last: true, ..base(&name) });
    };
    // sizes around node and fragment boundaries
    let sizes: &[u32] = if SMALL {
        if q { &[3, 4, 5, 6] } else { &[3, 4, 5, 6, 7, 8, 9, 10, 12] }
    } else if q {
        &[5, 9]
    } else {
        &[5, 8, 9, 10, 16, 17]
    };
    for &n in sizes {
        add(format!("comb-{n}"), n, comb(1, n), 2, Dels::All, Pos::All);
        add(format!("holes-{n}"), n, holes(1, n), 2, Dels::All, Pos::All);
        add(format!("block-{n}"), n, block(1, n), 2, Dels::All, Pos::All);
    }
    for &n in if SMALL { &[2u32, 3, 4][..] } else { &[4u32, 6][..] } {
        add(format!("thick-{n}"), 5 * n, thick(1, n, 5), if SMALL && n < 4 || !q { 2 } else { 1 }, Dels::MaxLen(3), Pos::All);
    }
    for &n in if q { &[4u32, 7][..] } else { &[3u32, 4, 5, 6, 7, 8, 9, 11, 13][..] } {
        add(format!("prepends-{n}"), 1, prepends(n), 2, Dels::All, Pos::All);
        add(format!("rivals-{n}"), 2, rivals(n / 2), 2, Dels::All, Pos::All);
        add(format!("talk-{n}"), 1, talk(n), 2, Dels::All, Pos::All);
        add(format!("bites-{n}"), 2, bites(n), 2, Dels::All, Pos::All);
    }
    // nodes with the default arity filled up to and past their capacity
    let wide: &[u32] = if SMALL {
        if q { &[12] } else { &[12, 16, 20, 24] }
    } else if q {
        &[16, 17]
    } else {
        &[15, 16, 17, 18, 24, 32, 33, 40]
    };
    for &n in wide {
        let s = if q { 5 } else { 3 };
        add(format!("wide-comb-{n}"), n, comb(1, n), 2, Dels::Step(s), Pos::Step(s));
        add(format!("wide-holes-{n}"), n, holes(1, n), 2, Dels::Step(s), Pos::Step(s));
        add(format!("wide-left-{n}"), n, comb_left(1, n), 2, Dels::Step(s), Pos::Step(s));
    }
    // every size, every single edit
    let max = if SMALL { if q { 14 } else { 30 } } else if q { 20 } else { 48 };
    for n in 2..=max {
        if !SMALL && q && (6..15).contains(&n) && n != 9 {
            continue;
        }
        add(format!("sweep-comb-{n}"), n, comb(1, n), 1, Dels::All, Pos::All);
        add(format!("sweep-holes-{n}"), n, holes(1, n), 1, Dels::All, Pos::All);
    }
    v
}

/// Histories of several hundred edits: clocks and counters beyond a byte,
/// trees of several levels also with the default node sizes.
fn long(t: Tier) -> Vec<Cfg> {
    let n = if t == Tier::Quick { 300 } else { 700 };
    let mut v = Vec::new();
    for (name, init, seed) in [
        ("prepends", 1, prepends(2 * n)),
        ("talk", 1, talk(2 * n)),
        ("pecks", 2 * n, pecks(n)),
        ("comb", n, comb(1, n)),
        ("left", n, comb_left(1, n)),
        ("rivals", 2, rivals(n)),
    ] {
        v.push(Cfg { init, seed, edits: 1, pos: Pos::Few, dels: Dels::Few, lens: &[1], ids: ids(A, 2), finish_last: true, ..base(&format!("long-{name}")) });
    }
    v
}

/// Sessions whose clocks are about to need more than 16 bits, by making that
/// many edits.
fn endless(_: Tier) -> Vec<Cfg> {
    let mut v = Vec::new();
    for (name, init, seed) in [
        ("prepends", 1, vec![Act::Prepends { n: 2 * 65_535 }]),
        ("lamport", 1, vec![Act::Prepends { n: 65_533 }]),
        ("eat", 65_540, vec![Act::Eat { p: 0, n: 65_535 }]),
    ] {
        v.push(Cfg { init, seed, edits: 2, per_peer: 1, pos: Pos::End, dels: Dels::MaxLen(if init > 1 { 2 } else { 0 }), lens: &[1], ids: ids(A, 2), finish_last: true, finishers: 1, ..base(&format!("endless-{name}")) });
    }
    v
}

/// Sessions in which somebody's clock has got to just below a power of two.
fn boosted(t: Tier) -> Vec<Cfg> {
    let mut v = Vec::new();
    for bits in [8, 16, 31, 32, 48, 63] {
        let seed = vec![Act::Boost { bits }];
        v.push(Cfg { init: 1, seed: seed.clone(), edits: 3, lens: &[1], dels: Dels::MaxLen(1), max_dels: 1, ids: ids(DESC, 2), finish_last: true, ..base(&format!("boosted-{bits}")) });
        v.push(Cfg { init: 1, seed: seed.clone(), edits: 3, lens: &[1], dels: Dels::No, recv: Recv::Any, finish_last: true, joins: (t == Tier::Thorough) as u8, ids: ids(A, 2), ..base(&format!("boosted-any-{bits}")) });
    }
    v
}

/// Long histories with immediate delivery.
fn live(t: Tier) -> Vec<Cfg> {
    let q = t == Tier::Quick;
    let mut v = Vec::new();
    let mut add = |name: String, init: u32, seed: Vec<Act>, edits: u16, lens: &'static [u32]| {
        v.push(Cfg { init, seed, edits, lens, pos: Pos::Few, dels: Dels::Few, live: true, ids: ids(DESC, 2), ..base(&name) });
    };
    let d = if q { 4 } else { 6 };
    add("live-empty".into(), 0, vec![], d + 1, &[1]);
    add("live-one".into(), 3, vec![], d, &[1, 2]);
    if SMALL {
        add("live-comb-3".into(), 3, comb(1, 3), d, &[1]);
        add("live-comb-5".into(), 5, comb(1, 5), d - 1, &[1]);
        add("live-holes-6".into(), 6, holes(1, 6), d - 1, &[1]);
        add("live-comb-9".into(), 9, comb(1, 9), d - 1, &[1]);
    } else {
        add("live-comb-8".into(), 8, comb(1, 8), d - 1, &[1]);
        add("live-comb-16".into(), 16, comb(1, 16), d - 1, &[1]);
        add("live-holes-17".into(), 17, holes(1, 17), d - 1, &[1]);
    }
    // one author alone: positions and deletions freely chosen
    v.push(Cfg { init: 1, edits: if q { 5 } else { 6 }, editors: 1, lens: &[1], pos: Pos::All, dels: Dels::MaxLen(2), live: true, ids: ids(A, 2), ..base("live-solo") });
    v.push(Cfg { init: 0, edits: if q { 7 } else { 9 }, editors: 1, lens: &[1], pos: Pos::All, dels: Dels::No, live: true, ids: ids(A, 2), ..base("live-solo-ins") });
    v.push(Cfg { init: if q { 6 } else { 8 }, edits: if q { 5 } else { 6 }, editors: 1, lens: &[], dels: Dels::MaxLen(2), live: true, ids: ids(A, 2), ..base("live-solo-del") });
    v
}

/// Edits arriving in every order.
fn shuffled(t: Tier) -> Vec<Cfg> {
    let q = t == Tier::Quick;
    let mut v = Vec::new();
    for (i, set) in [A, DESC, BIG, SAME_LOW].iter().enumerate() {
        let three = i < if q { 2 } else { 4 };
        v.push(Cfg { init: 1, edits: 3, lens: &[1], recv: Recv::Any, finish_last: true, ids: ids(set, 2), ..base(&format!("any-2p-e3-{i}")) });
        if three {
            v.push(Cfg { init: 1, edits: 3, lens: &[1], dels: Dels::MaxLen(1), recv: Recv::Any, finish_last: true, ids: ids(set, 3), ..base(&format!("any-3p-e3-{i}")) });
        }
        // a reader that only receives, from three authors who build on each other
        let rot: Vec<u64> = vec![set[i % 4], set[(i + 1) % 4], set[(i + 2) % 4], set[(i + 3) % 4]];
        v.push(Cfg {
            init: 1,
            edits: 4,
            per_peer: 2,
            editors: 0b0111,
            finishers: 0b1000,
            lens: &[1],
            pos: if q { Pos::End } else { Pos::All },
            dels: if q { Dels::No } else { Dels::MaxLen(1) },
            max_dels: 1,
            recv: Recv::Any,
            finish_last: true,
            ids: rot.clone(),
            ..base(&format!("reader-{i}"))
        });
        if i < 2 || !q {
            v.push(Cfg {
                init: 2,
                edits: 4,
                per_peer: 2,
                editors: 0b011,
                finishers: 0b100,
                lens: &[1],
                pos: Pos::Few,
                dels: Dels::Few,
                max_dels: if q { 1 } else { 2 },
                recv: Recv::Any,
                finish_last: true,
                ids: rot[..3].to_vec(),
                ..base(&format!("reader-dels-{i}"))
            });
        }
        if i == 0 || !q {
            v.push(Cfg {
                init: 1,
                edits: 5,
                per_peer: 2,
                editors: 0b0111,
                finishers: 0b1000,
                lens: &[1],
                pos: Pos::End,
                dels: Dels::No,
                recv: Recv::Any,
                finish_last: true,
                ids: rot.clone(),
                ..base(&format!("reader-chain-{i}"))
            });
        }
    }
    // deletions of two authors which know nothing of each other
    v.push(Cfg { init: 2, edits: 4, per_peer: 3, editors: 0b011, finishers: 0b100, lens: &[1], pos: Pos::End, dels: Dels::MaxLen(1), max_dels: 3, recv: Recv::Any, edit_recv: EditRecv::None, finish_last: true, ids: ids(A, 3), ..base("reader-voids") });
    if !q {
        v.push(Cfg { init: 3, edits: 5, per_peer: 3, editors: 0b011, finishers: 0b100, lens: &[1], pos: Pos::End, dels: Dels::MaxLen(1), recv: Recv::Any, edit_recv: EditRecv::None, finish_last: true, ids: ids(DESC, 3), ..base("reader-voids-e5") });
    }
    // several pieces from one author, in any order
    v.push(Cfg { init: 1, edits: if q { 4 } else { 5 }, editors: 0b01, finishers: 0b10, lens: &[1], dels: Dels::MaxLen(1), recv: Recv::Any, finish_last: true, ids: ids(A, 2), ..base("any-solo") });
    v.push(Cfg { init: 2, edits: 3, editors: 0b11, lens: &[1], dels: Dels::MaxLen(1), recv: Recv::Any, edit_recv: EditRecv::All, max_dels: 1, ids: ids(DESC, 2), ..base("any-edit-2p") });
    // explicit, partial and late drains
    v.push(Cfg { init: 1, edits: 3, editors: 0b11, finishers: 0b100, lens: &[1], dels: Dels::MaxLen(1), recv: Recv::Any, drain: Drain::Explicit(if q { 2 } else { 3 }), finish_last: true, ids: ids(A, 3), ..base("drains-2a") });
    v.push(Cfg { init: 1, edits: 4, editors: 0b01, finishers: 0b10, lens: &[1], dels: Dels::MaxLen(1), max_dels: 2, pos: Pos::Few, recv: Recv::Any, drain: Drain::Explicit(2), finish_last: true, ids: ids(A, 2), ..base("drains-solo") });
    v.push(Cfg { init: 1, edits: 3, editors: 0b0111, finishers: 0b1000, per_peer: 1, lens: &[1], dels: Dels::MaxLen(1), recv: Recv::Any, drain: Drain::Explicit(2), finish_last: true, ids: ids(DESC, 4), ..base("drains-3a") });
    v.push(Cfg { init: 1, edits: 3, lens: &[1], dels: Dels::MaxLen(1), recv: Recv::Any, edit_recv: EditRecv::All, drain: Drain::Explicit(1), max_dels: 1, pos: Pos::Few, finish_last: true, ids: ids(A, 2), ..base("drains-edit") });
    v
}

/// Edits delivered more than once.
fn repeated(t: Tier) -> Vec<Cfg> {
    let q = t == Tier::Quick;
    let d = if q { 1 } else { 2 };
    let mut v = vec![
        Cfg { init: 1, edits: 2, lens: &[1], recv: Recv::Any, dup: 2, edit_recv: EditRecv::All, finish_last: true, ids: ids(A, 2), ..base("dup-2p-e2") },
        Cfg { init: 2, edits: 3, lens: &[1], dels: Dels::MaxLen(1), recv: Recv::Causal, dup: 1, edit_recv: EditRecv::All, finish_last: true, ids: ids(DESC, 2), ..base("dup-causal-e3") },
        Cfg { init: 1, edits: 3, lens: &[1], dels: Dels::MaxLen(1), recv: Recv::Any, dup: d, finish_last: true, ids: ids(A, 3), ..base("dup-3p-e3") },
        Cfg { init: 1, edits: 3, editors: 0b01, finishers: 0b11, lens: &[1], dels: Dels::MaxLen(1), recv: Recv::Any, dup: d + 1, finish_last: true, ids: ids(A, 2), ..base("dup-solo-e3") },
        Cfg { init: 1, edits: 3, editors: 0b11, finishers: 0b100, lens: &[1], dels: Dels::MaxLen(1), recv: Recv::Any, dup: 1, drain: Drain::Explicit(1), finish_last: true, ids: ids(BIG, 3), ..base("dup-drains-2a") },
        Cfg { init: 1, edits: 3, editors: 0b01, finishers: 0b10, lens: &[1], dels: Dels::MaxLen(1), recv: Recv::Any, dup: 2, drain: Drain::Explicit(1), finish_last: true, ids: ids(A, 2), ..base("dup-drains-solo") },
        // the same, with edits made while duplicates are around
        Cfg { init: 1, edits: 3, lens: &[1], dels: Dels::No, recv: Recv::Any, dup: 1, edit_recv: EditRecv::All, drain: Drain::Explicit(1), finish_last: true, ids: ids(DESC, 2), ..base("dup-edit") },
    ];
    if SMALL || !q {
        v.push(Cfg { init: 4, seed: comb(1, 4), edits: 2, lens: &[1], dels: Dels::MaxLen(3), recv: Recv::Any, dup: 2, finish_last: true, ids: ids(A, 2), ..base("dup-comb") });
    }
    if !q {
        v.push(Cfg { init: 1, edits: 4, editors: 0b11, finishers: 0b100, lens: &[1], dels: Dels::MaxLen(1), max_dels: 2, recv: Recv::Any, dup: 1, finish_last: true, ids: ids(SAME_LOW, 3), ..base("dup-2a-e4") });
    }
    v
}

/// Sessions that grow.
fn joining(t: Tier) -> Vec<Cfg> {
    let q = t == Tier::Quick;
    let mut v = vec![
        Cfg { init: 1, edits: 2, joins: 1, lens: &[1], ids: ids(A, 2), ..base("join-2p-e2") },
        Cfg { init: 2, edits: 3, joins: 1, lens: &[1], dels: Dels::MaxLen(1), ids: ids(DESC, 1), ..base("join-1p-e3") },
        Cfg { init: 1, edits: 2, joins: 2, lens: &[1], ids: ids(A, 1), ..base("join-chain") },
        Cfg { init: 1, edits: 3, joins: 1, lens: &[1], dels: Dels::MaxLen(1), max_dels: 1, recv: Recv::Any, edit_recv: EditRecv::All, finish_last: true, ids: ids(A, 2), ..base("join-pending") },
        Cfg { init: 0, edits: 3, joins: 1, lens: &[2], dels: Dels::MaxLen(1), max_dels: 1, ids: ids(SAME_LOW, 2), ..base("join-empty") },
        Cfg { init: 1, edits: 3, joins: 1, lens: &[1], dels: Dels::No, recv: Recv::Any, edit_recv: EditRecv::All, drain: Drain::Explicit(1), finish_last: true, ids: ids(A, 2), ..base("join-pending-drains") },
        Cfg { init: 5, seed: comb(1, 5), edits: 2, joins: 1, lens: &[1], dels: Dels::MaxLen(2), finish_last: true, ids: ids(A, 2), ..base("join-comb") },
        Cfg { init: 6, seed: holes(1, 6), edits: 2, joins: 1, lens: &[1], dels: Dels::MaxLen(2), pos: Pos::All, finish_last: true, ids: ids(DESC, 2), ..base("join-holes") },
    ];
    if !SMALL {
        v.push(Cfg { init: 17, seed: comb(1, 17), edits: 1, joins: 1, lens: &[1], dels: Dels::MaxLen(4), finish_last: true, ids: ids(A, 2), ..base("join-wide") });
    }
    if !q {
        v.extend([
            Cfg { init: 1, edits: 3, joins: 2, lens: &[1], dels: Dels::MaxLen(1), max_dels: 1, ids: ids(A, 2), finish_last: true, ..base("join-2-e3") },
            Cfg { init: 1, edits: 4, joins: 1, lens: &[1], dels: Dels::MaxLen(1), max_dels: 1, ids: ids(DESC, 2), finish_last: true, ..base("join-2p-e4") },
            Cfg { init: 1, edits: 4, joins: 1, lens: &[1], dels: Dels::No, recv: Recv::Any, edit_recv: EditRecv::All, finish_last: true, ids: ids(BIG, 2), ..base("join-pending-e4") },
        ]);
    }
    v
}

/// Very long texts: offsets, clocks and lengths need more than 32 bits.
fn scaled(v: Vec<Cfg>, k: usize) -> Vec<Cfg> {
    v.into_iter().map(|c| Cfg { k, name: format!("{}-x{k}", c.name), ..c }).collect()
}

fn huge(t: Tier) -> Vec<Cfg> {
    let mut v = vec![
        Cfg { init: 2, edits: 2, lens: &[1, 2], recv: Recv::Any, edit_recv: EditRecv::All, ids: ids(A, 2), ..base("huge-2p-e2") },
        Cfg { init: 1, edits: 3, lens: &[1], dels: Dels::MaxLen(1), ids: ids(BIG, 2), ..base("huge-2p-e3") },
        Cfg { init: 3, seed: comb(1, 3), edits: 2, lens: &[1], ids: ids(A, 2), ..base("huge-comb") },
    ];
    if t == Tier::Thorough {
        v.push(Cfg { init: 1, edits: 3, lens: &[1, 2], joins: 1, dels: Dels::MaxLen(1), max_dels: 1, ids: ids(BIG, 2), finish_last: true, ..base("huge-join") });
    }
    let mut v = scaled(v, 1 << 58);
    // documents as long as can be
    v.extend(brim(Recv::Any));
    v
}

fn brim(recv: Recv) -> Vec<Cfg> {
    let mut v = scaled(vec![Cfg { init: 1, edits: 2, lens: &[1], recv, edit_recv: EditRecv::All, ids: ids(BIG, 2), ..base("brim") }], usize::MAX / 3);
    v.extend(scaled(vec![Cfg { init: 0, edits: 3, lens: &[1, 2], pos: Pos::Few, dels: Dels::MaxLen(1), max_dels: 1, ids: ids(A, 2), ..base("brim-empty") }], usize::MAX / 6));
    v
}

fn typed(t: Tier) -> Vec<Cfg> {
    let q = t == Tier::Quick;
    let mut v = Vec::new();
    for (i, set) in [A, DESC].iter().enumerate() {
        v.push(Cfg { init: 1, edits: 4, per_peer: 2, lens: &[1, 2], dels: Dels::No, pos: Pos::Typed, edit_recv: EditRecv::None, ids: ids(set, 2), ..base(&format!("typed-2p-{i}")) });
        v.push(Cfg { init: 2, edits: 6, per_peer: 3, lens: &[1], dels: Dels::No, pos: Pos::Typed, edit_recv: EditRecv::None, finish_last: true, ids: ids(set, 2), ..base(&format!("typed-2p-3each-{i}")) });
        v.push(Cfg { init: 1, edits: 6, per_peer: 2, lens: &[1], dels: Dels::No, pos: Pos::Typed, edit_recv: EditRecv::None, finish_last: true, ids: ids(set, 3), ..base(&format!("typed-3p-{i}")) });
        // blocks typed while edits of a third peer come in
        v.push(Cfg { init: 1, edits: 5, per_peer: 2, lens: &[1], dels: Dels::No, pos: Pos::Typed, finish_last: true, ids: ids(set, 3), ..base(&format!("typed-mixed-{i}")) });
        v.push(Cfg { init: 1, edits: 5, lens: &[1], dels: Dels::MaxLen(1), max_dels: 1, pos: Pos::Typed, finish_last: true, ids: ids(set, 2), ..base(&format!("typed-dels-{i}")) });
        v.push(Cfg { init: 1, edits: 4, lens: &[1], dels: Dels::MaxLen(1), max_dels: 1, recv: Recv::Any, finish_last: true, ids: ids(set, 2), ..base(&format!("typed-free-{i}")) });
        v.push(Cfg { init: 3, seed: comb(1, 3), edits: 4, per_peer: 2, lens: &[1], dels: Dels::No, pos: Pos::Typed, edit_recv: EditRecv::None, ids: ids(set, 2), ..base(&format!("typed-comb-{i}")) });
        v.push(Cfg { init: 4, seed: holes(1, 4), edits: 4, per_peer: 2, lens: &[1], dels: Dels::No, pos: Pos::Typed, edit_recv: EditRecv::None, ids: ids(set, 2), ..base(&format!("typed-holes-{i}")) });
        v.push(Cfg { init: 2, seed: rivals(3), edits: 4, per_peer: 2, lens: &[1], dels: Dels::No, pos: Pos::Typed, edit_recv: EditRecv::None, finish_last: true, ids: ids(set, 2), ..base(&format!("typed-rivals-{i}")) });
        if !q {
            v.push(Cfg { init: 1, edits: 8, per_peer: 4, lens: &[1], dels: Dels::No, pos: Pos::Typed, edit_recv: EditRecv::None, finish_last: true, ids: ids(set, 2), ..base(&format!("typed-2p-4each-{i}")) });
            v.push(Cfg { init: 1, edits: 6, per_peer: 2, lens: &[1], dels: Dels::No, pos: Pos::Typed, recv: Recv::Any, edit_recv: EditRecv::Canonical, finish_last: true, ids: ids(set, 3), ..base(&format!("typed-3p-any-{i}")) });
            v.push(Cfg { init: 1, edits: 5, lens: &[1], dels: Dels::MaxLen(1), max_dels: 2, finish_last: true, ids: ids(set, 2), ..base(&format!("typed-free-e5-{i}")) });
        }
    }
    v
}

fn with(v: Vec<Cfg>, f: impl Fn(&mut Cfg)) -> Vec<Cfg> {
    v.into_iter()
        .map(|mut c| {
            f(&mut c);
            c
        })
        .collect()
}

/// Every family that makes no use of special visits.
fn broad(t: Tier) -> Vec<Cfg> {
    let mut v = small(t);
    v.extend(seeded(t));
    v.extend(long(t));
    v.extend(endless(t));
    v.extend(boosted(t));
    v.extend(live(t));
    v.extend(shuffled(t));
    v.extend(scripted(t, Recv::Any, false));
    v.extend(scripted(t, Recv::Causal, false));
    v.extend(then(t));
    v.extend(hollow(t));
    v.extend(joined(t, Recv::Causal));
    v.extend(repeated(t));
    v.extend(joining(t));
    v.extend(huge(t));
    v
}

pub fn families(prop: u32, t: Tier) -> Vec<Cfg> {
    let q = t == Tier::Quick;
    let mut v: Vec<Cfg> = Vec::new();
    match prop {
        1 | 2 | 3 | 4 => v.extend(broad(t)),
        5 => {
            v.extend(shuffled(t));
            v.extend(scripted(t, Recv::Any, false));
            v.extend(scripted(t, Recv::Any, true));
            v.extend(with(scripted(t, Recv::Any, false).into_iter().filter(|c| !q || c.name.ends_with("-0")).collect(), |c| {
                c.drain = Drain::Explicit(1);
                c.name = format!("drains-{}", c.name);
            }));
            v.extend(huge(t));
            v.extend(joining(t));
            v.extend(joined(t, Recv::Any));
            v.extend(hollow(t));
        }
        6 => {
            v.extend(repeated(t));
            v.extend(hollow(t));
            v.extend(with(hollow(t).into_iter().take(4).collect(), |c| {
                c.recv = Recv::Any;
                c.dup = 1;
                c.finish_last = true;
                c.finishers = 0b10;
                c.name = format!("dup-{}", c.name);
            }));
            v.extend(scripted(t, Recv::Any, true));
            v.extend(scripted(t, Recv::Causal, true));
            v.extend(scaled(repeated(t).into_iter().take(1).collect(), 1 << 40));
            // copies of replicas that have received something already
            for (c, d) in joining(t).into_iter().zip([1, 0, 1, 1, 1, 0, 0, 0]) {
                if d > 0 {
                    v.push(Cfg { dup: d, edit_recv: EditRecv::All, finish_last: true, edits: c.edits.min(if c.recv == Recv::Any { 2 } else { 3 }), name: format!("dup-{}", c.name), ..c });
                }
            }
        }
        7 => {
            let deep: Visit = visits::c07_depth2;
            let flat: Visit = visits::c07_depth1;
            v.extend(with(
                vec![
                    Cfg { init: 2, edits: 2, lens: &[1, 2], ids: ids(A, 2), ..base("enc-2p-e2") },
                    Cfg { init: 1, edits: 3, lens: &[1], dels: Dels::MaxLen(1), max_dels: 1, recv: Recv::Any, finish_last: true, finishers: 0b10, editors: 0b01, ids: ids(BIG, 2), ..base("enc-backlog") },
                    Cfg { init: 1, edits: 3, per_peer: 1, lens: &[1], dels: Dels::MaxLen(1), max_dels: 2, recv: Recv::Any, drain: Drain::Explicit(0), finish_last: true, finishers: 0b1000, editors: 0b0111, pos: Pos::Few, ids: ids(SAME_LOW, 4), ..base("enc-backlog-3a") },
                ],
                |c| c.visit = Some(flat),
            ));
            v.extend(with(
                vec![
                    Cfg { init: 1, edits: 1, lens: &[1, 2], recv: Recv::Any, ids: ids(A, 2), ..base("enc-deep-e1") },
                    Cfg { init: 3, seed: comb(1, 3), edits: 1, lens: &[1], ids: ids(DESC, 2), ..base("enc-deep-comb") },
                ],
                |c| c.visit = Some(deep),
            ));
            for n in if SMALL { vec![2u32, 3, 4, 5, 6, 8, 11] } else { vec![2, 7, 8, 9, 10, 16, 17, 18, 33] } {
                v.extend(with(
                    vec![
                        Cfg { init: n, seed: comb(1, n), edits: 1, lens: &[1], live: true, dels: Dels::Few, pos: Pos::Few, ids: ids(A, 2), ..base(&format!("enc-comb-{n}")) },
                        Cfg { init: n, seed: holes(1, n), edits: 1, lens: &[1], live: true, dels: Dels::Few, pos: Pos::Few, ids: ids(BIG, 2), ..base(&format!("enc-holes-{n}")) },
                    ],
                    |c| c.visit = Some(flat),
                ));
            }
            v.extend(with(scaled(vec![Cfg { init: 1, edits: 2, lens: &[1], recv: Recv::Any, ids: ids(BIG, 2), ..base("enc-huge") }], 1 << 59), |c| c.visit = Some(flat)));
            v.extend(with(scaled(vec![Cfg { init: 1, edits: 2, lens: &[1], recv: Recv::Any, ids: ids(BIG, 2), ..base("enc-brim") }], usize::MAX / 4), |c| c.visit = Some(flat)));
            v.extend(with(scaled(vec![Cfg { init: 2, edits: 2, lens: &[1], dels: Dels::MaxLen(1), recv: Recv::Any, ids: ids(ODD, 2), ..base("enc-mid") }], 8191), |c| c.visit = Some(flat)));
            v.extend(joining(t));
            v.extend(joined(t, Recv::Causal));
            v.extend(with(some_scripts(t, Recv::Any), |c| c.visit = Some(flat)));
            v.extend(with([long(t), endless(t)].concat(), |c| {
                c.edits = 0;
                c.visit = Some(flat);
            }));
            v.extend(with(boosted(t), |c| {
                c.edits = 2;
                c.visit = Some(flat);
            }));
            if !q {
                v.extend(with(small(Tier::Quick), |c| {
                    c.visit = Some(flat);
                    c.name = format!("enc-{}", c.name);
                }));
                v.extend(with(repeated(Tier::Quick), |c| {
                    c.dup = 0;
                    c.visit = Some(flat);
                    c.name = format!("enc-{}", c.name);
                }));
            }
        }
        8 => {
            let f: Visit = visits::c08;
            v.extend(with(
                vec![
                    Cfg { init: 1, edits: 2, lens: &[1], ids: ids(A, 2), editors: 0b01, recv: Recv::Any, ..base("damage-e2") },
                    Cfg { init: 2, edits: 1, lens: &[1], ids: ids(BIG, 2), ..base("damage-e1") },
                    Cfg { init: 2, edits: 2, lens: &[1], dels: Dels::MaxLen(1), ids: ids(DESC, 2), per_peer: 1, ..base("damage-2p") },
                    Cfg { init: 5, seed: comb(1, 5), edits: 1, editors: 1, lens: &[1], pos: Pos::Few, dels: Dels::Few, live: true, ids: ids(A, 2), ..base("damage-comb") },
                ],
                |c| c.visit = Some(f),
            ));
            v.extend(with(scaled(vec![Cfg { init: 1, edits: 1, lens: &[1], ids: ids(BIG, 2), ..base("damage-huge") }], 1 << 59), |c| c.visit = Some(f)));
            v.extend(with(some_scripts(t, Recv::Causal), |c| c.visit = Some(f)));
            // encodings of several thousand bytes
            v.extend(with(long(t), |c| {
                c.edits = 0;
                c.finishers = 1;
                c.visit = Some(f);
            }));
            if !q {
                v.extend(with(
                    vec![
                        Cfg { init: 1, edits: 3, lens: &[1], ids: ids(A, 2), recv: Recv::Any, dels: Dels::MaxLen(1), ..base("damage-e3") },
                        Cfg { init: 12, seed: holes(1, 12), edits: 1, lens: &[1], live: true, ids: ids(ODD, 2), ..base("damage-holes") },
                    ],
                    |c| c.visit = Some(f),
                ));
            }
        }
        9 => {
            let f: Visit = crate::formats::c09;
            for (i, set) in [A, BIG, SAME_LOW, ODD].iter().enumerate() {
                for k in [1usize, 63, 127, 128, 1 << 14, (1 << 31) - 1, 1 << 59] {
                    let e = if k == 1 && (i == 1 || !q) { 3 } else { 2 };
                    v.push(Cfg {
                        init: 2,
                        k,
                        edits: e,
                        lens: &[1],
                        dels: if e == 3 { Dels::MaxLen(1) } else { Dels::All },
                        max_dels: 2,
                        ids: ids(set, 2),
                        anchors: true,
                        visit: Some(f),
                        ..base(&format!("serde-{i}-{k}"))
                    });
                }
                v.push(Cfg { init: 4, seed: comb(1, 4), edits: 1, lens: &[1], ids: ids(set, 2), anchors: true, visit: Some(f), ..base(&format!("serde-comb-{i}")) });
                v.push(Cfg { init: 1, edits: 2, per_peer: 1, joins: 1, lens: &[1], dels: Dels::All, ids: ids(set, 3), anchors: true, visit: Some(f), ..base(&format!("serde-join-{i}")) });
            }
            if SMALL {
                v.truncate(12);
            }
            v.extend(with(some_scripts(t, Recv::Causal), |c| {
                c.visit = Some(f);
                c.anchors = true;
            }));
            v.extend(with([long(t), endless(t)].concat(), |c| {
                c.visit = Some(f);
                c.anchors = false;
                c.editors = 1;
                c.edits = 1;
            }));
            v.extend(with(boosted(t), |c| {
                c.visit = Some(f);
                c.edits = 2;
            }));
            v.extend(with(brim(Recv::Causal), |c| {
                c.visit = Some(f);
                c.anchors = true;
            }));
        }
        10 | 11 => {
            let a = |v: Vec<Cfg>| with(v, |c| c.anchors = true);
            v.extend(a(vec![
                Cfg { init: 2, edits: 2, lens: &[1, 2], ids: ids(A, 2), ..base("anchors-2p-e2") },
                Cfg { init: 2, edits: 3, lens: &[1], ids: ids(DESC, 2), ..base("anchors-2p-e3") },
                Cfg { init: 0, edits: 3, lens: &[1, 2], ids: ids(A, 2), ..base("anchors-empty-e3") },
                Cfg { init: 1, edits: 2, lens: &[2], ids: ids(BIG, 3), ..base("anchors-3p-e2") },
                Cfg { init: 1, edits: 3, lens: &[1], dels: Dels::MaxLen(1), max_dels: 1, recv: Recv::Any, edit_recv: EditRecv::All, finish_last: true, ids: ids(A, 2), ..base("anchors-any") },
                Cfg { init: 1, edits: 2, joins: 1, lens: &[1], ids: ids(A, 2), ..base("anchors-join") },
                Cfg { init: 5, edits: 2, lens: &[1], ids: ids(SAME_LOW, 2), ..base("anchors-cut") },
                Cfg { init: 3, edits: 4, editors: 1, lens: &[1], pos: Pos::Few, dels: Dels::MaxLen(2), live: true, ids: ids(A, 2), ..base("anchors-live-solo") },
                Cfg { init: 2, edits: 4, lens: &[1], pos: Pos::Few, dels: Dels::Few, live: true, ids: ids(DESC, 2), ..base("anchors-live") },
                Cfg { init: 1, edits: 5, editors: 1, lens: &[1], pos: Pos::Typed, dels: Dels::MaxLen(1), live: true, ids: ids(A, 2), ..base("anchors-typing") },
            ]));
            for n in if SMALL { vec![3u32, 4, 5, 6] } else { vec![5, 9, 16] } {
                v.extend(a(vec![
                    Cfg { init: n, seed: comb(1, n), edits: 1, lens: &[1], ids: ids(A, 2), ..base(&format!("anchors-comb-{n}")) },
                    Cfg { init: n, seed: holes(1, n), edits: 1, lens: &[1], ids: ids(DESC, 2), ..base(&format!("anchors-holes-{n}")) },
                ]));
            }
            if SMALL {
                v.extend(a(vec![
                    Cfg { init: 4, seed: comb(1, 4), edits: 2, lens: &[1], ids: ids(A, 2), finish_last: true, ..base("anchors-comb-e2") },
                    Cfg { init: 4, seed: holes(1, 4), edits: 2, lens: &[1], ids: ids(DESC, 2), finish_last: true, ..base("anchors-holes-e2") },
                    Cfg { init: 2, seed: bites(6), edits: 2, lens: &[1], ids: ids(DESC, 2), finish_last: true, ..base("anchors-bites-e2") },
                ]));
            }
            v.extend(a(scaled(vec![Cfg { init: 2, edits: 2, lens: &[1], recv: Recv::Any, ids: ids(BIG, 2), ..base("anchors-huge") }], 1 << 58)));
            v.extend(with(a(brim(Recv::Any)), |c| {
                if prop == 11 {
                    c.visit = Some(crate::formats::c11);
                }
            }));
            // not in texts of more than a hundred thousand characters
            let most = broad(t).into_iter().filter(|c| !c.name.starts_with("endless"));
            v.extend(with(a(most.collect()), |c| c.anchor_seed = c.seed.len() < 16));
            if prop == 11 {
                let f: Visit = crate::formats::c11;
                v.extend(with(a(some_scripts(t, Recv::Any)), |c| {
                    c.visit = Some(f);
                    c.anchor_seed = true;
                    c.name = format!("wire-{}", c.name);
                }));
                for (i, set) in [A, BIG, SAME_LOW, ODD].iter().enumerate() {
                    for k in [1usize, 127, 1 << 14, 1 << 59] {
                        v.extend(a(vec![Cfg { init: 2, k, edits: 2, lens: &[1], recv: Recv::Any, edit_recv: EditRecv::All, ids: ids(set, 2), visit: Some(f), ..base(&format!("wire-{i}-{k}")) }]));
                    }
                }
            }
            if !q {
                v.extend(a(vec![
                    Cfg { init: 3, edits: 3, lens: &[1], ids: ids(A, 2), ..base("anchors-3-e3") },
                    Cfg { init: 1, edits: 4, lens: &[1], ids: ids(A, 2), dels: Dels::MaxLen(2), finish_last: true, ..base("anchors-2p-e4") },
                    Cfg { init: 1, edits: 3, lens: &[1], ids: ids(BIG, 3), finish_last: true, ..base("anchors-3p-e3") },
                    Cfg { init: 3, edits: 5, lens: &[1], pos: Pos::Few, dels: Dels::Few, live: true, ids: ids(DESC, 2), ..base("anchors-live-e5") },
                    Cfg { init: 8, seed: holes(1, 8), edits: 2, lens: &[1], dels: Dels::MaxLen(4), ids: ids(DESC, 2), finish_last: true, ..base("anchors-holes8-e2") },
                    Cfg { init: 2, edits: 3, joins: 1, lens: &[1], dels: Dels::MaxLen(1), ids: ids(A, 1), ..base("anchors-join-e3") },
                ]));
            }
        }
        12 => {
            v.extend(joining(t));
            v.extend(joined(t, Recv::Causal));
            v.extend(joined(t, Recv::Any));
            let f: Visit = visits::c12;
            v.extend(with(some_scripts(t, Recv::Any), |c| c.visit = Some(f)));
            v.extend(with(
                vec![
                    Cfg { init: 2, edits: 2, lens: &[1], recv: Recv::Any, edit_recv: EditRecv::All, ids: ids(A, 2), ..base("copies-2p-e2") },
                    Cfg { init: 1, edits: 3, lens: &[1], dels: Dels::MaxLen(1), max_dels: 1, recv: Recv::Any, drain: Drain::Explicit(0), finish_last: true, ids: ids(DESC, 2), ..base("copies-backlog") },
                    Cfg { init: 5, seed: comb(1, 5), edits: 1, lens: &[1], ids: ids(A, 2), ..base("copies-comb") },
                ],
                |c| c.visit = Some(f),
            ));
            v.extend(with(boosted(t), |c| {
                c.edits = 2;
                c.joins = 1;
            }));
            v.extend(with(scaled(vec![Cfg { init: 1, edits: 2, lens: &[1], recv: Recv::Any, ids: ids(BIG, 2), ..base("copies-brim") }], usize::MAX / 8), |c| c.visit = Some(f)));
        }
        13 => {
            let f: Visit = visits::c13;
            v.extend(with(
                vec![
                    Cfg { init: 0, edits: 2, lens: &[1, 2], ids: ids(A, 2), ..base("limits-empty") },
                    Cfg { init: 3, edits: 2, lens: &[1], ids: ids(A, 2), recv: Recv::Any, ..base("limits-2p-e2") },
                    Cfg { init: 3, seed: comb(1, 3), edits: 1, lens: &[1], ids: ids(BIG, 2), ..base("limits-comb") },
                    Cfg { init: 4, seed: holes(1, 4), edits: 1, lens: &[1], ids: ids(DESC, 2), ..base("limits-holes") },
                ],
                |c| c.visit = Some(f),
            ));
            v.extend(with(scaled(vec![Cfg { init: 2, edits: 1, lens: &[1], ids: ids(A, 2), ..base("limits-huge") }], 1 << 58), |c| c.visit = Some(f)));
            v.extend(with(brim(Recv::Causal), |c| c.visit = Some(f)));
            v.extend(with(scaled(vec![Cfg { init: 1, edits: 0, lens: &[1], ids: ids(A, 2), ..base("limits-max") }], usize::MAX), |c| c.visit = Some(f)));
            v.extend(with(some_scripts(t, Recv::Causal), |c| c.visit = Some(f)));
            v.extend(hollow(t));
            if !q {
                v.extend(with(
                    vec![
                        Cfg { init: 2, edits: 3, lens: &[1], ids: ids(A, 2), ..base("limits-2p-e3") },
                        Cfg { init: 9, seed: holes(1, 9), edits: 1, lens: &[1], ids: ids(A, 2), ..base("limits-holes-9") },
                    ],
                    |c| c.visit = Some(f),
                ));
            }
        }
        14 => {
            v.extend(broad(t));
            v.extend(joined(t, Recv::Any));
            let f: Visit = crate::formats::c14;
            v.extend(with(some_scripts(t, Recv::Any), |c| {
                c.visit = Some(f);
                c.finishers = u32::MAX;
                c.name = format!("wire-{}", c.name);
            }));
            for (i, set) in [A, BIG, SAME_LOW, ODD].iter().enumerate() {
                for k in [1usize, 127, 1 << 14, 1 << 59] {
                    v.push(Cfg { init: 2, k, edits: 2, lens: &[1], recv: Recv::Any, ids: ids(set, 2), visit: Some(f), ..base(&format!("wire-{i}-{k}")) });
                }
            }
            v.extend(with(brim(Recv::Any), |c| {
                c.visit = Some(f);
                c.name = format!("wire-{}", c.name);
            }));
        }
        15 => {
            v.extend(typed(t));
            v.extend(broad(t));
        }
        16 => {
            v.extend(broad(t));
            v.extend(joined(t, Recv::Any));
            for c in v.iter_mut() {
                c.invariants = true;
            }
        }
        17 => {
            // out of order as well: what has all it needs is applied at once,
            // whatever else is waiting
            v.extend(broad(t));
            v.extend(joined(t, Recv::Any));
        }
        18 => {
            let f: Visit = visits::c18;
            v.extend(with(
                vec![
                    Cfg { init: 0, edits: 2, lens: &[1, 2], ids: ids(A, 2), ..base("asked-empty") },
                    Cfg { init: 2, edits: 2, lens: &[1], recv: Recv::Any, edit_recv: EditRecv::All, ids: ids(DESC, 2), anchors: true, ..base("asked-2p-e2") },
                    Cfg { init: 1, edits: 3, lens: &[1], dels: Dels::MaxLen(1), max_dels: 1, recv: Recv::Any, drain: Drain::Explicit(0), finish_last: true, ids: ids(A, 2), ..base("asked-backlog") },
                    Cfg { init: 1, edits: 2, joins: 1, lens: &[1], ids: ids(BIG, 2), anchors: true, ..base("asked-join") },
                    Cfg { init: 4, seed: comb(1, 4), edits: 1, lens: &[1], ids: ids(A, 2), ..base("asked-comb") },
                    Cfg { init: 6, seed: holes(1, 6), edits: 1, lens: &[1], ids: ids(DESC, 2), ..base("asked-holes") },
                ],
                |c| c.visit = Some(f),
            ));
            v.extend(with(some_scripts(t, Recv::Any).into_iter().filter(|c| !q || !c.name.contains("weave")).collect(), |c| {
                c.visit = Some(f);
                c.name = format!("asked-{}", c.name);
            }));
            v.extend(with(scaled(vec![Cfg { init: 2, edits: 2, lens: &[1], recv: Recv::Any, ids: ids(BIG, 2), ..base("asked-huge") }], 1 << 58), |c| c.visit = Some(f)));
            v.extend(with(scaled(vec![Cfg { init: 1, edits: 2, lens: &[1], recv: Recv::Any, edit_recv: EditRecv::All, ids: ids(A, 2), ..base("asked-brim") }], usize::MAX / 4), |c| c.visit = Some(f)));
            if !q {
                v.extend(with(
                    vec![
                        Cfg { init: 2, edits: 3, lens: &[1], ids: ids(A, 2), ..base("asked-2p-e3") },
                        Cfg { init: 1, edits: 2, lens: &[1, 2], ids: ids(BIG, 3), recv: Recv::Any, anchors: true, ..base("asked-3p-e2") },
                        Cfg { init: 9, seed: holes(1, 9), edits: 2, lens: &[1], dels: Dels::MaxLen(2), ids: ids(A, 2), finish_last: true, ..base("asked-holes-9") },
                    ],
                    |c| c.visit = Some(f),
                ));
            }
        }
        19 => {
            // every access to memory is watched: ten times slower
            v.extend(vec![
                Cfg { init: 2, edits: 3, lens: &[1], finish_last: true, ids: ids(A, 2), ..base("memory-2p-e3") },
                Cfg { init: 2, edits: 2, lens: &[1, 2], recv: Recv::Any, edit_recv: EditRecv::All, anchors: true, ids: ids(DESC, 2), ..base("memory-any") },
                Cfg { init: 1, edits: 3, lens: &[1], dels: Dels::MaxLen(1), max_dels: 1, recv: Recv::Any, drain: Drain::Explicit(1), finish_last: true, ids: ids(A, 2), ..base("memory-backlog") },
                Cfg { init: 1, edits: 2, joins: 1, lens: &[1], recv: Recv::Any, ids: ids(BIG, 2), ..base("memory-join") },
                Cfg { init: 3, edits: 4, editors: 1, lens: &[1], pos: Pos::Few, dels: Dels::MaxLen(2), live: true, ids: ids(A, 2), ..base("memory-live") },
            ]);
            for n in if SMALL { vec![3u32, 5, 8, 11] } else { vec![15, 16, 17, 31, 32, 33] } {
                v.extend(vec![
                    Cfg { init: n, seed: comb(1, n), edits: 1, lens: &[1], ids: ids(A, 2), anchors: SMALL, ..base(&format!("memory-comb-{n}")) },
                    Cfg { init: n, seed: holes(1, n), edits: 1, lens: &[1], ids: ids(DESC, 2), anchors: SMALL, ..base(&format!("memory-holes-{n}")) },
                    Cfg { init: 1, seed: prepends(n), edits: 1, lens: &[1], ids: ids(A, 2), ..base(&format!("memory-prepends-{n}")) },
                    Cfg { init: 2, seed: bites(n.min(13)), edits: 1, lens: &[1], ids: ids(A, 2), ..base(&format!("memory-bites-{n}")) },
                ]);
            }
            if SMALL {
                v.extend(vec![
                    Cfg { init: 4, seed: comb(1, 4), edits: 2, lens: &[1], dels: Dels::MaxLen(5), ids: ids(A, 2), finish_last: true, ..base("memory-comb-e2") },
                    Cfg { init: 5, seed: holes(1, 5), edits: 2, lens: &[1], dels: Dels::MaxLen(4), ids: ids(DESC, 2), finish_last: true, ..base("memory-holes-e2") },
                ]);
            }
            v.extend(with(some_scripts(t, Recv::Any), |c| c.name = format!("memory-{}", c.name)));
            for (f, n) in [(visits::c07_depth1 as Visit, "decoded"), (visits::c08, "damaged"), (visits::c13, "refused"), (crate::formats::c09, "wire")] {
                v.push(Cfg { init: 2, edits: 1, lens: &[1], recv: Recv::Any, anchors: true, ids: ids(ODD, 2), visit: Some(f), ..base(&format!("memory-{n}")) });
            }
            v.extend(with([small(Tier::Quick), long(t), live(Tier::Quick), huge(t), brim(Recv::Any)].concat(), |c| c.name = format!("memory-{}", c.name)));
            if !q {
                v.extend(broad(Tier::Quick).into_iter().filter(|c| !c.name.starts_with("endless")));
            }
        }
        20 => v.extend(with(broad(t).into_iter().filter(|c| !c.name.starts_with("endless") && !c.name.starts_with("boosted")).collect(), |c| c.visit = Some(visits::c20))),
        _ => {}
    }
    for c in v.iter_mut() {
        c.name = format!("C{prop:02}-{}-{}{}", if q { "q" } else { "t" }, if SMALL { "s-" } else { "d-" }, c.name);
    }
    v
}
