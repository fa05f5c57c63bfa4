//! Executes every history of small editing sessions in an interpreter of
//! Rust's abstract machine (Miri), which ends the process on the first
//! undefined behaviour: invalid pointers, uninitialized memory, reborrows
//! that break the aliasing rules, invalid values, unsound transmutes.
//!
//! ub quick|thorough PART PARTS OUT [ONLY]: executes the histories of a
//! slice of all jobs and writes what was executed to OUT.

#![allow(unused_must_use)]
use cola::{Anchor, AnchorBias, Deletion, EncodedReplica, Insertion, Replica};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
enum Op {
    Ins(Insertion),
    Del(Deletion),
}

#[derive(Clone, Copy, Debug)]
enum Edit {
    Ins(usize, usize),
    Del(usize, usize),
}

#[derive(Default)]
struct Count {
    calls: u64,
    histories: u64,
    states: u64,
    panics: u64,
}

struct Run {
    n: Count,
}

impl Run {
    fn edit(&mut self, r: &mut Replica, e: Edit) -> Op {
        self.n.calls += 1;
        self.n.states += 1;
        match e {
            Edit::Ins(at, len) => Op::Ins(r.inserted(at, len)),
            Edit::Del(a, b) => Op::Del(r.deleted(a..b)),
        }
    }

    fn get(&mut self, r: &mut Replica, op: &Op) {
        self.n.calls += 1;
        self.n.states += 1;
        match op {
            Op::Ins(i) => {
                let _ = r.integrate_insertion(i);
            }
            Op::Del(d) => {
                let _ = r.integrate_deletion(d);
            }
        }
    }

    fn drain(&mut self, r: &mut Replica) {
        self.n.calls += 2;
        let a = r.backlogged_insertions().count();
        let b = r.backlogged_deletions().map(|x| x.len()).sum::<usize>();
        std::hint::black_box((a, b));
    }

    /// Anchors at every offset, resolved at both.
    fn anchors(&mut self, r: &Replica, other: &Replica) {
        for at in 0..=r.len() {
            for bias in [AnchorBias::Left, AnchorBias::Right] {
                let a: Anchor = r.create_anchor(at, bias);
                std::hint::black_box((r.resolve_anchor(a), other.resolve_anchor(a)));
                self.n.calls += 3;
            }
        }
    }

    /// The questions that go through the whole replica.
    fn ask(&mut self, r: &Replica) {
        let mut s = String::new();
        let _ = write!(s, "{r:?}");
        let c = r.clone();
        std::hint::black_box((s, c.len(), c.id()));
        self.n.calls += 5;
    }

    fn allowed_to_panic(&mut self, f: impl FnOnce(&mut Self)) {
        std::panic::set_hook(Box::new(|_| {}));
        if catch_unwind(AssertUnwindSafe(|| f(self))).is_err() {
            self.n.panics += 1;
        }
        let _ = std::panic::take_hook();
    }

    fn done(&mut self) {
        self.n.histories += 1;
    }
}

fn edits(len: usize, ins: &[usize], at: impl Fn(usize) -> bool) -> Vec<Edit> {
    let mut v = Vec::new();
    for a in 0..=len {
        if at(a) {
            v.extend(ins.iter().map(|n| Edit::Ins(a, *n)));
        }
    }
    for a in 0..len {
        for b in a + 1..=len {
            if at(a) && at(b) {
                v.push(Edit::Del(a, b));
            }
        }
    }
    v
}

/// A replica whose text is in many pieces, and a fork of it.
fn comb(kind: usize, n: usize) -> (Replica, Replica) {
    let mut a = Replica::new(1, 2 * n);
    let mut b = a.fork(2);
    match kind {
        // insertions everywhere
        0 => {
            for i in 0..n {
                let op = a.inserted(3 * i + 1, 1);
                b.integrate_insertion(&op);
            }
        }
        // holes everywhere
        1 => {
            for i in 0..n {
                let op = a.deleted(i..i + 1);
                b.integrate_deletion(&op);
            }
        }
        // prepended
        2 => {
            for i in 0..n {
                let (x, y) = if i % 2 == 0 { (&mut a, &mut b) } else { (&mut b, &mut a) };
                let op = x.inserted(0, 1);
                y.integrate_insertion(&op);
            }
        }
        // appended by turns, with some of it deleted
        _ => {
            for i in 0..n {
                let (x, y) = if i % 2 == 0 { (&mut a, &mut b) } else { (&mut b, &mut a) };
                let op = x.inserted(x.len() - 1, 2);
                y.integrate_insertion(&op);
                let op = y.deleted(y.len() - 2..y.len() - 1);
                x.integrate_deletion(&op);
            }
        }
    }
    (a, b)
}

type Job = (String, Box<dyn Fn(&mut Run)>);

fn jobs(thorough: bool) -> Vec<Job> {
    let mut v: Vec<Job> = Vec::new();

    // Every pair of edits, concurrent or one after the other, and a third.
    for len in if thorough { 0..5 } else { 0..4 } {
        let firsts = edits(len, &[1, 2], |_| true);
        for (k, e) in firsts.into_iter().enumerate() {
            let name = format!("pair-{len}-{k}");
            v.push((
                name,
                Box::new(move |run| {
                    let mut a0 = Replica::new(1, len);
                    let b0 = a0.fork(2);
                    let one = run.edit(&mut a0, e);
                    for f in edits(len, &[1], |_| true) {
                        let (mut a, mut b) = (a0.clone(), b0.clone());
                        let two = run.edit(&mut b, f);
                        run.get(&mut a, &two);
                        run.get(&mut b, &one);
                        // once more
                        run.get(&mut a, &two);
                        run.get(&mut a, &one);
                        run.anchors(&a, &b);
                        if thorough {
                            for g in edits(a.len(), &[1], |_| true) {
                                let (mut a, mut b) = (a.clone(), b.clone());
                                let three = run.edit(&mut a, g);
                                run.get(&mut b, &three);
                                run.done();
                            }
                        }
                        run.done();
                    }
                    for f in edits(a0.len(), &[1], |_| true) {
                        let (mut a, mut b) = (a0.clone(), b0.clone());
                        let two = run.edit(&mut a, f);
                        // the wrong way around
                        run.get(&mut b, &two);
                        run.ask(&b);
                        run.get(&mut b, &one);
                        run.drain(&mut b);
                        run.anchors(&a, &b);
                        run.done();
                    }
                    run.ask(&a0);
                }),
            ));
        }
    }

    // Every edit of documents in many pieces.
    let sizes: &[usize] = if thorough { &[2, 3, 5, 8, 13] } else { &[2, 4, 7] };
    for kind in 0..4 {
        for &n in sizes {
            let (a, _) = comb(kind, n);
            let len = a.len();
            let step = |x: usize| thorough || len <= 6 || x % 3 == 1 || x + 1 >= len;
            let all = edits(len, &[1], step);
            for (k, chunk) in all.chunks(6).enumerate() {
                let chunk = chunk.to_vec();
                v.push((
                    format!("comb-{kind}-{n}-{k}"),
                    Box::new(move |run| {
                        let (a0, b0) = comb(kind, n);
                        run.n.calls += 2 * n as u64;
                        for (i, e) in chunk.iter().enumerate() {
                            let (mut a, mut b) = (a0.clone(), b0.clone());
                            // something concurrent
                            let l = b.len();
                            let two = run.edit(&mut b, if matches!(e, Edit::Ins(..)) { Edit::Del(l / 3, 2 * l / 3 + 1) } else { Edit::Ins(l / 2, 1) });
                            let one = run.edit(&mut a, *e);
                            run.get(&mut a, &two);
                            run.get(&mut b, &one);
                            if i % 6 == 0 || thorough {
                                run.anchors(&a, &b);
                                run.ask(&b);
                            }
                            run.done();
                        }
                    }),
                ));
            }
        }
    }

    // Wide edits of documents in so many pieces that inner nodes of the trees
    // have inner nodes below them.
    let sizes: &[usize] = if thorough { &[12, 20, 32] } else { &[18] };
    for kind in 0..4 {
        for &n in sizes {
            let len = comb(kind, n).0.len();
            let cuts: Vec<usize> = (0..=8).map(|x| x * len / 8).collect();
            let mut all = Vec::new();
            for (i, &x) in cuts.iter().enumerate() {
                all.push(Edit::Ins(x, 1));
                for &y in &cuts[i + 1..] {
                    all.push(Edit::Del(x, y));
                    if y - x > 2 && (thorough || y - x > len / 2) {
                        all.push(Edit::Del(x + 1, y - 1));
                    }
                }
            }
            for (k, chunk) in all.chunks(if thorough { 6 } else { 15 }).enumerate() {
                let chunk = chunk.to_vec();
                v.push((
                    format!("deep-{kind}-{n}-{k}"),
                    Box::new(move |run| {
                        let (a0, b0) = comb(kind, n);
                        run.n.calls += 2 * n as u64;
                        for (i, e) in chunk.iter().enumerate() {
                            let (mut a, mut b) = (a0.clone(), b0.clone());
                            let l = b.len();
                            let two = run.edit(&mut b, if i % 2 == 0 { Edit::Del(l / 4, l / 2 + 1) } else { Edit::Ins(l / 3, 2) });
                            let one = run.edit(&mut a, *e);
                            run.get(&mut a, &two);
                            run.get(&mut b, &one);
                            if a.len() > 1 {
                                let mid = a.len() / 2;
                                let three = run.edit(&mut a, Edit::Ins(mid, 1));
                                run.get(&mut b, &three);
                                let mid = b.len() / 2;
                                let four = run.edit(&mut b, Edit::Del(0, mid));
                                run.get(&mut a, &four);
                            }
                            if i == 0 {
                                run.ask(&b);
                                run.anchors(&a, &b);
                            }
                            run.done();
                        }
                    }),
                ));
            }
        }
    }

    // Every order of arrival of scripted edits, drained after each or at
    // the end.
    for script in 0..SCRIPTS {
        let n = scripted(script).1.len();
        let perms = permutations(n.min(if thorough { 6 } else { 4 }));
        for (k, chunk) in perms.chunks(if thorough { 30 } else { 12 }).enumerate() {
            let chunk: Vec<Vec<usize>> = chunk.to_vec();
            v.push((
                format!("orders-{script}-{k}"),
                Box::new(move |run| {
                    let (c0, ops) = scripted(script);
                    run.n.calls += 2 * ops.len() as u64;
                    for p in &chunk {
                        for each in [false, true] {
                            let mut c = c0.clone();
                            for i in p {
                                run.get(&mut c, &ops[*i]);
                                if each {
                                    run.drain(&mut c);
                                }
                            }
                            for op in &ops[p.len()..] {
                                run.get(&mut c, op);
                            }
                            run.drain(&mut c);
                            run.done();
                        }
                    }
                }),
            ));
        }
    }

    // Encoded in every state of the scripts, and taken further.
    for script in 0..SCRIPTS {
        let n = scripted(script).1.len();
        for k in 0..=n {
            v.push((
                format!("encoded-{script}-{k}"),
                Box::new(move |run| {
                    let (mut c, ops) = scripted(script);
                    // the last ones first
                    for op in ops.iter().rev().take(k) {
                        run.get(&mut c, op);
                    }
                    let e = c.encode();
                    let mut d = Replica::decode(9, &e).unwrap();
                    run.n.calls += 2;
                    let mut f = c.fork(8);
                    for x in [&mut c, &mut d, &mut f] {
                        for op in ops.iter().rev().skip(k) {
                            run.get(x, op);
                        }
                        run.drain(x);
                        run.done();
                    }
                    run.ask(&d);
                    run.anchors(&d, &f);
                }),
            ));
        }
    }

    // Damaged encodings.
    let parts = 24;
    for part in 0..parts {
        v.push((
            format!("damaged-{part}"),
            Box::new(move |run| {
                let (mut c, ops) = scripted(2);
                for op in ops.iter().rev().take(3) {
                    run.get(&mut c, op);
                }
                let bytes = c.encode().as_bytes().to_vec();
                for at in (0..bytes.len()).filter(|x| x % parts == part) {
                    let mut bad = vec![bytes[..at].to_vec()];
                    for x in if thorough { vec![1, 0x80, 0xff] } else { vec![0x80] } {
                        let mut b = bytes.clone();
                        b[at] ^= x;
                        bad.push(b);
                    }
                    for b in bad {
                        let r = Replica::decode(9, &EncodedReplica::from_bytes(&b)).is_ok();
                        std::hint::black_box(r);
                        run.n.calls += 1;
                        run.done();
                    }
                }
            }),
        ));
    }

    // Edits and anchors over the wire, also damaged, and whatever they turn
    // into being used: with an error, a result or a panic, but defined.
    for script in 0..SCRIPTS {
        v.push((
            format!("wire-{script}"),
            Box::new(move |run| {
                let (c, ops) = scripted(script);
                let mut end = c.clone();
                for op in &ops {
                    run.get(&mut end, op);
                }
                let cfg = bincode::config::standard();
                for (i, op) in ops.iter().enumerate() {
                    let bytes = match op {
                        Op::Ins(x) => bincode::serde::encode_to_vec(x, cfg).unwrap(),
                        Op::Del(x) => bincode::serde::encode_to_vec(x, cfg).unwrap(),
                    };
                    for bad in damaged(&bytes, thorough || i == script % ops.len()) {
                        let op = match op {
                            Op::Ins(_) => bincode::serde::decode_from_slice::<Insertion, _>(&bad, cfg).map(|x| Op::Ins(x.0)),
                            Op::Del(_) => bincode::serde::decode_from_slice::<Deletion, _>(&bad, cfg).map(|x| Op::Del(x.0)),
                        };
                        run.n.calls += 1;
                        if let Ok(op) = op {
                            let mut x = end.clone();
                            run.allowed_to_panic(|run| run.get(&mut x, &op));
                        }
                        run.done();
                    }
                }
            }),
        ));
        v.push((
            format!("wire-anchors-{script}"),
            Box::new(move |run| {
                let (c, ops) = scripted(script);
                let mut end = c.clone();
                for op in &ops {
                    run.get(&mut end, op);
                }
                let cfg = bincode::config::standard();
                let a = end.create_anchor(end.len() / 2, if script % 2 == 0 { AnchorBias::Left } else { AnchorBias::Right });
                for bad in damaged(&bincode::serde::encode_to_vec(&a, cfg).unwrap(), true) {
                    if let Ok((x, _)) = bincode::serde::decode_from_slice::<Anchor, _>(&bad, cfg) {
                        let x: Anchor = x;
                        let _ = format!("{:?} {}", x, x == a);
                        run.allowed_to_panic(|_| drop(std::hint::black_box(end.resolve_anchor(x))));
                    }
                    run.n.calls += 2;
                    run.done();
                }
            }),
        ));
    }

    // Encodings that outlive what they were made of.
    v.push((
        "outlived".into(),
        Box::new(|run| {
            let (c, _) = scripted(1);
            let e = c.encode();
            drop(c);
            let bytes = e.as_bytes().to_vec();
            drop(e);
            let borrowed = EncodedReplica::from_bytes(&bytes);
            let copied = borrowed.to_static();
            let again = copied.to_static();
            let cloned = borrowed.clone();
            let wired: EncodedReplica<'static> = {
                let b = bincode::serde::encode_to_vec(&borrowed, bincode::config::standard()).unwrap();
                bincode::serde::decode_from_slice(&b, bincode::config::standard()).unwrap().0
            };
            std::hint::black_box(Replica::decode(5, &cloned).is_ok());
            drop(bytes);
            let boxed = EncodedReplica::from(again.as_bytes().to_vec().into_boxed_slice());
            let two = boxed.clone();
            drop(boxed);
            for e in [copied, again, wired, two] {
                let d = Replica::decode(5, &e).unwrap();
                drop(e);
                run.ask(&d);
                run.done();
            }
            // iterators that are not run to their end, edits that outlive their makers
            for script in 0..SCRIPTS {
                let (mut c, ops) = scripted(script);
                for op in ops.iter().rev() {
                    run.get(&mut c, op);
                }
                let held = c.backlogged_insertions().next();
                drop(c.backlogged_deletions().next());
                std::mem::forget(c.backlogged_insertions());
                run.drain(&mut c);
                drop(ops);
                drop(c);
                drop(held);
                run.done();
            }
        }),
    ));

    // Refused calls.
    v.push((
        "refused".into(),
        Box::new(|run| {
            let (c, _) = scripted(0);
            let n = c.len();
            let mut r = c.clone();
            std::panic::set_hook(Box::new(|_| {}));
            let mut refused = |f: &mut dyn FnMut(&mut Replica)| {
                run.n.calls += 1;
                run.n.histories += 1;
                let bad = catch_unwind(AssertUnwindSafe(|| f(&mut r))).is_err();
                run.n.panics += bad as u64;
            };
            refused(&mut |r| drop(r.inserted(n + 1, 1)));
            refused(&mut |r| drop(r.inserted(usize::MAX, 1)));
            refused(&mut |r| drop(r.deleted(0..n + 1)));
            refused(&mut |r| drop(r.deleted(n + 1..n + 2)));
            #[allow(clippy::reversed_empty_ranges)]
            refused(&mut |r| drop(r.deleted(2..1)));
            refused(&mut |r| drop(r.create_anchor(n + 1, AnchorBias::Left)));
            refused(&mut |r| drop(r.fork(0)));
            refused(&mut |r| drop(r.fork(r.id())));
            refused(&mut |_| drop(Replica::new(0, 1)));
            refused(&mut |r| drop(r.inserted(n, 1)));
            refused(&mut |r| drop(r.deleted(..)));
            refused(&mut |r| drop(r.inserted(0, 0)));
            refused(&mut |r| drop(r.deleted(0..0)));
            let _ = std::panic::take_hook();
        }),
    ));
    v
}

/// The bytes themselves, all of their prefixes, and all of their bytes
/// changed in some ways.
fn damaged(bytes: &[u8], all: bool) -> Vec<Vec<u8>> {
    let mut v = vec![bytes.to_vec()];
    for at in 0..bytes.len() {
        v.push(bytes[..at].to_vec());
        for x in if all { vec![1, 2, 0x7f, 0x80] } else { vec![0x80] } {
            let mut b = bytes.to_vec();
            b[at] ^= x;
            v.push(b);
        }
    }
    v
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = Vec::new();
    for p in permutations(n - 1) {
        for at in 0..n {
            let mut q = p.clone();
            q.insert(at, n - 1);
            v.push(q);
        }
    }
    v
}

const SCRIPTS: usize = 6;

/// A peer that has not received anything, and edits in the order they were
/// made.
fn scripted(k: usize) -> (Replica, Vec<Op>) {
    let mut a = Replica::new(1, 4);
    let mut b = a.fork(7);
    let c = a.fork(u64::MAX);
    let mut ops = Vec::new();
    macro_rules! ins { ($x:ident, $at:expr, $n:expr) => {{ let i = $x.inserted($at, $n); ops.push(Op::Ins(i.clone())); i }}; }
    macro_rules! del { ($x:ident, $r:expr) => {{ let d = $x.deleted($r); ops.push(Op::Del(d.clone())); d }}; }
    match k {
        // typed, erased, typed
        0 => {
            ins!(a, 2, 2);
            ins!(a, 4, 1);
            del!(a, 3..5);
            ins!(a, 3, 1);
            del!(a, 1..4);
        }
        // in turns, inside of each other
        1 => {
            let i = ins!(a, 1, 3);
            b.integrate_insertion(&i);
            let j = ins!(b, 3, 2);
            a.integrate_insertion(&j);
            let d = del!(a, 2..6);
            b.integrate_deletion(&d);
            let i = ins!(b, 2, 1);
            a.integrate_insertion(&i);
            ins!(a, 3, 1);
        }
        // concurrent, the same place
        2 => {
            ins!(a, 2, 1);
            ins!(b, 2, 1);
            ins!(a, 2, 2);
            del!(b, 1..4);
            del!(a, 0..5);
        }
        // deletions of deletions
        3 => {
            let d = del!(a, 1..2);
            del!(b, 0..3);
            b.integrate_deletion(&d);
            let i = ins!(b, 0, 2);
            del!(b, 1..3);
            a.integrate_insertion(&i);
            del!(a, 0..2);
        }
        // emptied and refilled
        4 => {
            let d = del!(a, 0..4);
            b.integrate_deletion(&d);
            let i = ins!(b, 0, 2);
            ins!(a, 0, 3);
            a.integrate_insertion(&i);
            del!(a, ..);
            ins!(b, 1, 1);
        }
        // a run is cut again and again by somebody else
        _ => {
            let i = ins!(a, 0, 6);
            b.integrate_insertion(&i);
            ins!(b, 1, 1);
            ins!(b, 4, 1);
            del!(b, 2..6);
            del!(a, 3..5);
        }
    }
    (c, ops)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let thorough = args[1] == "thorough";
    let (part, parts): (usize, usize) = (args[2].parse().unwrap(), args[3].parse().unwrap());
    let out = &args[4];
    let mut run = Run { n: Count::default() };
    let mut names = 0;
    for (k, (name, job)) in jobs(thorough).into_iter().enumerate() {
        if k % parts != part || args.get(5).is_some_and(|o| !name.starts_with(o.as_str())) {
            continue;
        }
        std::fs::write(format!("{out}.current"), &name).unwrap();
        let t = std::time::Instant::now();
        // A panic is somebody else's business.
        if catch_unwind(AssertUnwindSafe(|| job(&mut run))).is_err() {
            run.n.panics += 1;
        }
        names += 1;
        if std::env::var("UB_VERBOSE").is_ok() {
            eprintln!("{name} {} calls {:?}", run.n.calls, t.elapsed());
        }
    }
    let n = &run.n;
    std::fs::write(out, format!("{{\"jobs\":{names},\"calls\":{},\"histories\":{},\"states\":{},\"refused\":{}}}", n.calls, n.histories, n.states, n.panics)).unwrap();
}
