//! How much room replicas take: every burst of keystrokes at every place of
//! documents of several shapes, received by the others in every order of a
//! family of orders.

use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Arc;

use cola::{AnchorBias, Deletion, Insertion, Replica};

use crate::bulk::{bad, gcd, lib};
use crate::explore::{Found, Run};
use crate::families::{Tier, SMALL};
use crate::world::*;

/// Bytes that a burst may add beyond its first edit: digits of counters and
/// lengths, one more piece at either end.
const BURST: usize = 110;

/// What a document of one more author, and what a further edit may take. No
/// edit makes more than two pieces out of one, a piece takes some twenty
/// bytes and its share of the tree, and deletions that are waiting name all
/// authors.
pub fn limit(edits: usize, authors: usize) -> usize {
    200 + 60 * authors + edits * (120 + 30 * authors)
}

#[derive(Clone)]
enum Key {
    Ins(Insertion),
    Del(Deletion),
}

#[derive(Clone, Copy, Debug)]
enum Burst {
    /// Front to back, so many characters at a time.
    Type(usize),
    /// The character before, and so on.
    Backspace,
    /// The character after, and so on.
    Delete,
    /// Typed, then erased from the end.
    TypeErase,
}

#[derive(Clone, Copy, Debug)]
struct Job {
    doc: usize,
    n: usize,
    author: usize,
    burst: Burst,
    keys: usize,
    k: usize,
}

pub fn size(r: &Replica) -> Result<usize, Viol> {
    lib("encode", || r.encode().as_bytes().len())
}

/// Two peers that have seen the same.
fn doc(kind: usize, n: usize, k: usize) -> Result<[Replica; 2], Viol> {
    lib("an edit", || {
        let mut a = Replica::new(7, n * k);
        let mut b = a.fork(3);
        match kind {
            0 => {}
            1 => {
                for i in (1..n).rev() {
                    let _ = a.integrate_insertion(&b.inserted(i * k, k));
                }
            }
            2 => {
                for i in 0..n / 2 {
                    let _ = b.integrate_deletion(&a.deleted((i + 1) * k..(i + 2) * k));
                }
            }
            3 => {
                for i in 0..n {
                    let at = a.len() - (i % 3).min(a.len() / k) * k;
                    if i % 2 == 0 {
                        let _ = b.integrate_insertion(&a.inserted(at, k));
                    } else {
                        let _ = a.integrate_insertion(&b.inserted(at, k));
                    }
                }
            }
            // both at one place
            _ => {
                for _ in 0..n {
                    let (x, y) = (a.inserted(0, k), b.inserted(0, 2 * k));
                    let _ = a.integrate_insertion(&y);
                    let _ = b.integrate_insertion(&x);
                }
            }
        }
        [a, b]
    })
}

fn get(r: &mut Replica, key: &Key) -> Result<(), Viol> {
    match key {
        Key::Ins(i) => lib("integrate_insertion", || r.integrate_insertion(i)).map(|_| ()),
        Key::Del(d) => lib("integrate_deletion", || r.integrate_deletion(d)).map(|_| ()),
    }
}

fn drain(r: &mut Replica) -> Result<(), Viol> {
    lib("a drain", || {
        r.backlogged_insertions().for_each(drop);
        r.backlogged_deletions().for_each(drop);
    })
}

fn refused(f: impl FnOnce()) {
    called();
    let _ = guard(f);
}

fn play(j: Job, at: usize, run: &Run) -> Result<(), Viol> {
    let k = j.k;
    let [a, b] = doc(j.doc, j.n, k)?;
    let (mut me, other) = if j.author == 0 { (a, b) } else { (b, a) };
    let (s0, o0) = (size(&me)?, size(&other)?);
    let mut keys: Vec<Key> = Vec::new();
    let total = me.len() / k;
    let (erase_at, n) = match j.burst {
        Burst::Type(_) => (0, j.keys),
        Burst::Backspace => (at, j.keys.min(at)),
        Burst::Delete => (at, j.keys.min(total - at)),
        Burst::TypeErase => (at + j.keys / 2, j.keys / 2 * 2),
    };
    let mut first = 0;
    for i in 0..n {
        let (ins, x, w) = match j.burst {
            Burst::Type(w) => (true, at + i * w, w),
            Burst::Backspace => (false, erase_at - 1 - i, 1),
            Burst::Delete => (false, at, 1),
            Burst::TypeErase if i < n / 2 => (true, at + i, 1),
            Burst::TypeErase => (false, erase_at - 1 - (i - n / 2), 1),
        };
        keys.push(if ins { Key::Ins(lib("inserted", || me.inserted(x * k, w * k))?) } else { Key::Del(lib("deleted", || me.deleted(x * k..(x + w) * k))?) });
        let s = size(&me)?;
        run.stats.states.fetch_add(1, Relaxed);
        run.stats.transitions.fetch_add(1, Relaxed);
        if i == 0 {
            first = s;
        }
        if s > first.max(s0) + BURST {
            return bad(C20, format!("{:?} at {at} of {j:?}: the author's replica takes {s0} bytes before, {first} after the first key and {s} after {} keys", j.burst, i + 1));
        }
    }
    if n == 0 {
        return Ok(());
    }
    // the copies of the author
    let copies = lib("a copy", || (me.fork(11), me.clone(), Replica::decode(12, &me.encode()).ok()))?;
    let s = size(&me)?;
    for c in [Some(copies.0), Some(copies.1), copies.2].into_iter().flatten() {
        let x = size(&c)?;
        if x > s + BURST {
            return bad(C20, format!("{:?} at {at} of {j:?}: a copy takes {x} bytes, the author's replica {s}", j.burst));
        }
    }
    // the others
    let steps: Vec<usize> = if n <= 6 { (1..n.max(2)).filter(|s| gcd(*s, n) == 1).collect() } else { [1, n - 1, 2, 3, 5, n / 2].into_iter().filter(|s| *s > 0 && gcd(*s, n) == 1).collect() };
    for step in steps {
        for from in [0, 1, n / 2, n - 1] {
            for rhythm in [0, 1, 5] {
                for dup in [false, true] {
                    let mut r = other.clone();
                    for i in 0..n {
                        let key = &keys[(from + i * step) % n];
                        get(&mut r, key)?;
                        if dup {
                            get(&mut r, key)?;
                            get(&mut r, &keys[(i * step) / 2 % n])?;
                        }
                        if rhythm > 0 && i % rhythm == rhythm - 1 {
                            drain(&mut r)?;
                        }
                    }
                    let waiting = size(&r)?;
                    if waiting > o0 + limit(n, 2) {
                        return bad(C20, format!("{:?} at {at} of {j:?}: {waiting} bytes after {n} edits", j.burst));
                    }
                    drain(&mut r)?;
                    drain(&mut r)?;
                    run.stats.histories.fetch_add(1, Relaxed);
                    run.stats.transitions.fetch_add(n as u64, Relaxed);
                    let s = size(&r)?;
                    let base = o0.max(first);
                    if s > base + BURST {
                        return bad(C20, format!("{:?} at {at} of {j:?}: a peer's replica takes {o0} bytes before and {s} after {n} keys, received from {from} in steps of {step}, drained every {rhythm}, twice: {dup}", j.burst));
                    }
                    if step != 1 && rhythm != 0 {
                        continue;
                    }
                    // nothing that has no effect takes room
                    for round in 0..8 {
                        for key in &keys {
                            get(&mut r, key)?;
                        }
                        drain(&mut r)?;
                        let l = lib("len", || r.len())?;
                        lib("no edits and questions", || {
                            let i = r.inserted(l, 0);
                            let _ = r.integrate_insertion(&i);
                            let d = r.deleted(l / 2..l / 2);
                            let _ = r.integrate_deletion(&d);
                            for bias in [AnchorBias::Left, AnchorBias::Right] {
                                let x = r.create_anchor(l - l % (round + 2), bias);
                                let _ = r.resolve_anchor(x);
                            }
                            let _ = format!("{r:?}");
                        })?;
                        if round == 0 {
                            refused(|| drop(r.inserted(l + 1, 1)));
                            refused(|| drop(r.deleted(l..l + 1)));
                        }
                    }
                    let x = size(&r)?;
                    if x > s + 16 {
                        return bad(C20, format!("{:?} at {at} of {j:?}: a peer's replica takes {s} bytes, and {x} after receiving the same edits again, edits of nothing, questions and refused calls", j.burst));
                    }
                }
            }
        }
    }
    Ok(())
}

fn jobs(t: Tier) -> Vec<Job> {
    let q = t == Tier::Quick;
    let mut v = Vec::new();
    let sizes: &[(usize, &[usize])] = &[(0, &[1, 2, 40]), (1, &[3, 6, 12]), (2, &[5, 12, 30]), (3, &[0, 4, 9, 20]), (4, &[0, 3, 8])];
    for (doc, ns) in sizes {
        for &n in *ns {
            for author in [0, 1] {
                for k in [1usize, 1 << 40] {
                    for burst in [Burst::Type(1), Burst::Type(3), Burst::Backspace, Burst::Delete, Burst::TypeErase] {
                        for keys in if q { vec![24] } else { vec![5, 24, 150] } {
                            v.push(Job { doc: *doc, n, author, burst, keys, k });
                        }
                    }
                }
            }
        }
    }
    v
}

pub fn name(prop: u32, t: Tier) -> Option<String> {
    (prop == 20).then(|| format!("C20-{}-{}keys", if t == Tier::Quick { "q" } else { "t" }, if SMALL { "s-" } else { "d-" }))
}

pub fn run(t: Tier, run: &Arc<Run>) {
    let name = name(20, t).unwrap();
    let todo = jobs(t);
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for k in 0..run.threads {
            let (todo, next, name) = (&todo, &next, &name);
            sc.spawn(move || {
                let slot = &run.slots[k];
                *slot.cur.lock().unwrap() = (None, name.clone());
                slot.busy.store(true, SeqCst);
                'jobs: loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= todo.len() || run.stop.load(SeqCst) {
                        break;
                    }
                    let j = todo[i];
                    let len = match doc(j.doc, j.n, j.k) {
                        Ok([a, _]) => a.len() / j.k,
                        Err(_) => 0,
                    };
                    for at in 0..=len {
                        slot.beat.fetch_add(1, SeqCst);
                        if let Err(v) = play(j, at, run) {
                            if v.mask & run.want == 0 {
                                continue;
                            }
                            run.stop.store(true, SeqCst);
                            let mut f = run.found.lock().unwrap();
                            if f.is_none() {
                                *f = Some(Found { cfg: name.clone(), acts: vec![], msg: v.msg, state: String::new() });
                            }
                            break 'jobs;
                        }
                    }
                }
                slot.busy.store(false, SeqCst);
                flush_calls();
            });
        }
    });
}
