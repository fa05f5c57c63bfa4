//! Checks made in every explored state of a peer, beyond the monitors.

use std::collections::HashSet;
use std::ops::Bound;
use std::sync::Mutex;

use cola::{AnchorBias, DecodeError, EncodedReplica, Replica};

use crate::explore::Cfg;
use crate::world::*;

fn spare_id(cfg: &Cfg) -> u64 {
    *cfg.join_ids.first().unwrap_or(&0xF00D)
}

/// One step of the continuation that both replicas go through.
#[derive(Clone, Copy, Debug)]
enum Step {
    Deliver(u8),
    Ins(usize, usize),
    Del(usize, usize),
    DrainIns,
    DrainDel,
}

/// What a step makes observable, as a comparable value.
#[derive(PartialEq, Debug)]
enum Seen {
    Offset(Option<usize>),
    Ranges(Vec<std::ops::Range<usize>>),
    Ins(cola::Insertion),
    Del(cola::Deletion),
    Texts(Vec<(cola::Text, usize)>),
    RangeLists(Vec<Vec<std::ops::Range<usize>>>),
    Panic,
}

fn run(w: &World, rep: &mut Replica, step: Step) -> Seen {
    called();
    let r = guard(|| match step {
        Step::Deliver(b) => match &w.op(b).unwrap().kind {
            Kind::Ins { obj, .. } => Seen::Offset(rep.integrate_insertion(obj)),
            Kind::Del { obj, .. } => Seen::Ranges(rep.integrate_deletion(obj)),
        },
        Step::Ins(at, len) => Seen::Ins(rep.inserted(at, len)),
        Step::Del(a, b) => Seen::Del(rep.deleted(a..b)),
        Step::DrainIns => Seen::Texts(rep.backlogged_insertions().collect()),
        // Waiting deletions of different authors may come in any order, so
        // what is compared is the set of lists when they are independent;
        // the lists are compared as they are when there is at most one.
        Step::DrainDel => Seen::RangeLists(rep.backlogged_deletions().collect()),
    });
    r.unwrap_or(Seen::Panic)
}

/// Everything that may be done to a replica with a text of `n` characters.
fn next_steps(w: &World, n: usize, k: usize) -> Vec<Step> {
    let mut steps = vec![Step::DrainIns, Step::DrainDel];
    for o in &w.ops {
        steps.push(Step::Deliver(o.bit));
    }
    let pts: Vec<usize> = if n <= 6 { (0..=n).collect() } else { vec![0, 1, n / 3, n / 2, n - 1, n] };
    for at in &pts {
        steps.push(Step::Ins(at * k, k));
    }
    for (i, x) in pts.iter().enumerate() {
        for y in &pts[i + 1..] {
            steps.push(Step::Del(x * k, y * k));
        }
    }
    steps
}

/// Compares two replicas that must be indistinguishable, going through every
/// continuation of `depth` steps. The buffers' lengths are compared in units.
fn lockstep(cfg: &Cfg, w: &World, peer: &Peer, a: &Replica, b: &Replica, depth: u8, what: &str, mask: Mask, ctx: &mut Ctx, trail: &mut Vec<Step>) -> bool {
    let (la, lb) = match (guard(|| a.len()), guard(|| b.len())) {
        (Ok(x), Ok(y)) => (x, y),
        _ => {
            ctx.flag(mask, format!("{what}: len() panicked after {trail:?}"));
            return false;
        }
    };
    if la != lb {
        ctx.flag(mask, format!("{what}: after {trail:?} the lengths are {la} and {lb}"));
        return false;
    }
    let k = cfg.k;
    let n = la / k;
    // anchors; in very long texts only at the ends and at regular distances
    for off in 0..=n {
        if n > 5000 && off > 200 && off + 200 < n && off % 61 != 0 {
            continue;
        }
        for bias in [AnchorBias::Left, AnchorBias::Right] {
            called();
            let x = guard(|| a.create_anchor(off * k, bias));
            let y = guard(|| b.create_anchor(off * k, bias));
            match (x, y) {
                (Ok(x), Ok(y)) => {
                    let all = [
                        guard(|| a.resolve_anchor(x)),
                        guard(|| b.resolve_anchor(x)),
                        guard(|| a.resolve_anchor(y)),
                        guard(|| b.resolve_anchor(y)),
                    ];
                    if all.iter().any(|r| *r != Ok(Some(off * k))) {
                        ctx.flag(mask, format!("{what}: after {trail:?} anchors made at {} with bias {bias:?} resolve to {all:?}", off * k));
                        return false;
                    }
                }
                (Err(_), Err(_)) => {
                    ctx.flag(FATAL, format!("{what}: create_anchor({}, {bias:?}) panics after {trail:?}", off * k));
                    return false;
                }
                _ => {
                    ctx.flag(mask, format!("{what}: after {trail:?} create_anchor({}, {bias:?}) panics on one only", off * k));
                    return false;
                }
            }
        }
    }
    for set in &w.anchors {
        for it in &set.items {
            called();
            let x = guard(|| a.resolve_anchor(it.anchor));
            let y = guard(|| b.resolve_anchor(it.anchor));
            if x.clone().ok() != y.clone().ok() {
                ctx.flag(mask, format!("{what}: after {trail:?} an anchor of peer {} resolves to {x:?} and {y:?}", set.peer));
                return false;
            }
        }
    }
    if depth == 0 {
        return true;
    }
    let steps = next_steps(w, n, k);
    for s in steps {
        let mut a2 = a.clone();
        let mut b2 = b.clone();
        let mut x = run(w, &mut a2, s);
        let mut y = run(w, &mut b2, s);
        // The iteration order over authors is not promised.
        if let (Seen::RangeLists(p), Seen::RangeLists(q)) = (&mut x, &mut y) {
            if p.len() > 1 || q.len() > 1 {
                let sum = |l: &Vec<Vec<std::ops::Range<usize>>>| l.iter().flatten().map(|r| r.end - r.start).sum::<usize>();
                if sum(p) == sum(q) {
                    *p = vec![];
                    *q = vec![];
                }
            }
        }
        if let (Seen::Texts(p), Seen::Texts(q)) = (&mut x, &mut y) {
            let authors: HashSet<u64> = p.iter().map(|t| t.0.inserted_by()).collect();
            if authors.len() > 1 && p.len() == q.len() {
                let key = |l: &mut Vec<(cola::Text, usize)>| {
                    let mut v: Vec<_> = l.iter().map(|t| (t.0.inserted_by(), t.0.temporal_range().start, t.0.temporal_range().end)).collect();
                    v.sort_unstable();
                    v
                };
                if key(p) == key(q) {
                    *p = vec![];
                    *q = vec![];
                }
            }
        }
        trail.push(s);
        if x != y {
            ctx.flag(mask, format!("{what}: after {trail:?} one gives {x:?} and the other {y:?}"));
            return false;
        }
        if x == Seen::Panic {
            ctx.flag(FATAL, format!("{what}: {trail:?} panics"));
            return false;
        }
        if !lockstep(cfg, w, peer, &a2, &b2, depth - 1, what, mask, ctx, trail) {
            return false;
        }
        trail.pop();
    }
    true
}

fn encode_decode(peer: &Peer, p: usize, id: u64, ctx: &mut Ctx) -> Option<(Replica, Replica)> {
    let enc = match guard(|| peer.rep.encode()) {
        Ok(e) => e,
        Err(e) => {
            ctx.flag(C07, format!("peer {p}: encode panicked: {e}"));
            return None;
        }
    };
    let bytes = enc.as_bytes().to_vec();
    let dec = match guard(|| Replica::decode(id, &EncodedReplica::from_bytes(&bytes))) {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => {
            ctx.flag(C07, format!("peer {p}: decoding its encoding fails: {e}"));
            return None;
        }
        Err(e) => {
            ctx.flag(C07, format!("peer {p}: decoding its encoding panics: {e}"));
            return None;
        }
    };
    // the same bytes, however they got here
    let copies = guard(|| {
        let boxed: Box<[u8]> = bytes.clone().into();
        let by_ref: &[u8] = enc.as_ref();
        let by_deref: &[u8] = &enc;
        let same = by_ref == &bytes[..] && by_deref == &bytes[..];
        (same, vec![enc.to_static(), enc.clone(), EncodedReplica::from_bytes(&bytes).to_static(), EncodedReplica::from(boxed), EncodedReplica::from_bytes(&bytes).clone().to_static()])
    });
    match copies {
        Ok((true, copies)) if copies.iter().all(|c| *c == enc && c.as_bytes() == &bytes[..]) => {
            let which = if peer.nops % 2 == 0 { 0..2 } else { 2..5 };
            for c in &copies[which] {
                match guard(|| Replica::decode(id, c)) {
                    Ok(Ok(d)) if d.len() == dec.len() && d.id() == id => {}
                    _ => ctx.flag(C07, format!("peer {p}: decoding a copy of the encoded replica fails")),
                }
            }
        }
        _ => ctx.flag(C07, format!("peer {p}: the encoded replica changes when it is copied")),
    }
    if dec.id() != id {
        ctx.flag(C07, format!("peer {p}: decoded replica has id {:x} instead of {id:x}", dec.id()));
    }
    let fork = match guard(|| peer.rep.fork(id)) {
        Ok(f) => f,
        Err(e) => {
            ctx.flag(FATAL, format!("peer {p}: fork panicked: {e}"));
            return None;
        }
    };
    Some((fork, dec))
}

fn decode_like_fork(cfg: &Cfg, w: &World, p: usize, peer: &Peer, ctx: &mut Ctx, depth: u8) {
    let id = spare_id(cfg);
    let Some((fork, dec)) = encode_decode(peer, p, id, ctx) else { return };
    if !ctx.viols.is_empty() {
        return;
    }
    if let Err(e) = guard(|| dec.assert_invariants()) {
        ctx.flag(C07 | C16, format!("the replica decoded from peer {p} fails its self-check: {e}"));
        return;
    }
    lockstep(cfg, w, peer, &fork, &dec, depth, &format!("fork and decoded copy of peer {p}"), C07, ctx, &mut Vec::new());
}

pub fn c07_depth1(cfg: &Cfg, w: &World, p: usize, peer: &Peer, ctx: &mut Ctx) {
    decode_like_fork(cfg, w, p, peer, ctx, 1)
}
pub fn c07_depth2(cfg: &Cfg, w: &World, p: usize, peer: &Peer, ctx: &mut Ctx) {
    decode_like_fork(cfg, w, p, peer, ctx, 2)
}

/// Forks and clones share nothing with the original, and clones behave alike.
pub fn c12(cfg: &Cfg, w: &World, p: usize, peer: &Peer, ctx: &mut Ctx) {
    let id = spare_id(cfg);
    let k = cfg.k;
    let Ok(before) = guard(|| peer.rep.encode().as_bytes().to_vec()) else {
        return ctx.flag(C12, format!("peer {p}: encode panicked"));
    };
    let n = peer.buf.len();
    for forked in [true, false] {
        let other = match guard(|| if forked { peer.rep.fork(id) } else { peer.rep.clone() }) {
            Ok(o) => o,
            Err(e) => return ctx.flag(C12, format!("peer {p}: fork/clone panicked: {e}")),
        };
        let what = if forked { "fork" } else { "clone" };
        if other.id() != if forked { id } else { peer.id } {
            ctx.flag(C12, format!("the {what} of peer {p} has id {:x}", other.id()));
        }
        let snap = other.encode().as_bytes().to_vec();
        let mut steps = vec![Step::DrainIns, Step::DrainDel, Step::Ins(0, k), Step::Ins(n * k, k)];
        if n > 0 {
            steps.push(Step::Del(0, n * k));
            steps.push(Step::Ins((n / 2) * k, k));
            steps.push(Step::Del((n / 2) * k, (n / 2 + 1) * k));
        }
        for o in &w.ops {
            steps.push(Step::Deliver(o.bit));
        }
        // everything done to the copy leaves the original alone, and the
        // other way round
        let mut copy = other.clone();
        let mut orig = peer.rep.clone();
        for s in &steps {
            let mut c = copy.clone();
            run(w, &mut c, *s);
            let mut o = orig.clone();
            run(w, &mut o, *s);
            let lim = copy.len();
            let ok = match s {
                Step::Ins(at, _) => *at <= lim,
                Step::Del(_, b) => *b <= lim,
                _ => true,
            };
            if ok {
                run(w, &mut copy, *s);
            }
            let lim = orig.len();
            let ok = match s {
                Step::Ins(at, _) => *at <= lim,
                Step::Del(_, b) => *b <= lim,
                _ => true,
            };
            if ok {
                run(w, &mut orig, *s);
            }
        }
        if peer.rep.encode().as_bytes() != before {
            ctx.flag(C12, format!("editing a {what} of peer {p} changed the original"));
        }
        if other.encode().as_bytes() != snap {
            ctx.flag(C12, format!("editing the original changed the {what} of peer {p}"));
        }
        if other.len() != n * k {
            ctx.flag(C12, format!("the {what} of peer {p} is {} long instead of {}", other.len(), n * k));
        }
    }
    let clone = peer.rep.clone();
    lockstep(cfg, w, peer, &peer.rep, &clone, 1, &format!("peer {p} and its clone"), C12, ctx, &mut Vec::new());
}

/// A question that can be put to a replica without changing it.
#[derive(Clone, Copy, Debug)]
enum Query {
    Anchor(usize, AnchorBias),
    Resolve(cola::Anchor),
    Encode,
    Fork,
    Debug,
    Len,
}

#[derive(PartialEq, Debug)]
enum Answer {
    Anchor(cola::Anchor),
    Offset(Option<usize>),
    /// How long; what they say is compared by what the copies do.
    Bytes(usize),
    Printed,
    Len(usize),
}

fn ask(rep: &Replica, q: Query, id: u64) -> Result<Answer, String> {
    called();
    guard(|| match q {
        Query::Anchor(at, bias) => Answer::Anchor(rep.create_anchor(at, bias)),
        Query::Resolve(a) => Answer::Offset(rep.resolve_anchor(a)),
        Query::Encode => Answer::Bytes(rep.encode().as_bytes().len()),
        Query::Fork => Answer::Bytes(rep.fork(id).encode().as_bytes().len()),
        Query::Debug => {
            let _ = format!("{rep:?}");
            Answer::Printed
        }
        Query::Len => Answer::Len(rep.len()),
    })
}

/// What `rep`, which has gone through `steps` without being asked anything,
/// answers is what replicas answer that were asked the same before.
fn again(w: &World, p: usize, peer: &Peer, asked: &Replica, rep: &Replica, steps: &[Step], qs: &[Query], few: bool, ctx: &mut Ctx) -> bool {
    let id = 0x5EED_F00D;
    let len = rep.len();
    for q in qs {
        match q {
            Query::Anchor(at, _) if *at > len => continue,
            Query::Encode | Query::Fork | Query::Debug if !few => continue,
            _ => {}
        }
        // from copies that were asked nothing else, if that is not too much
        let want = if few { ask(&rep.clone(), *q, id) } else { ask(rep, *q, id) };
        let mut before = if few { peer.rep.clone() } else { asked.clone() };
        let _ = ask(&before, *q, id);
        for s in steps {
            run(w, &mut before, *s);
        }
        let got = ask(&before, *q, id);
        if want != got {
            ctx.flag(C18, format!("peer {p}: after {steps:?} {q:?} gives {want:?}, but {got:?} when it was asked before as well"));
            return false;
        }
    }
    true
}

/// Questions leave no trace: neither in the answers to other questions,
/// whatever the order, nor in what the replica does afterwards.
pub fn c18(cfg: &Cfg, w: &World, p: usize, peer: &Peer, ctx: &mut Ctx) {
    let id = 0x5EED_F00D;
    let k = cfg.k;
    let n = peer.buf.len();
    let mut qs = vec![Query::Encode, Query::Fork, Query::Debug, Query::Len];
    for off in 0..=n {
        if n > 5000 && off > 200 && off + 200 < n && off % 61 != 0 {
            continue;
        }
        for bias in [AnchorBias::Left, AnchorBias::Right] {
            qs.push(Query::Anchor(off * k, bias));
        }
    }
    // every anchor of the session, and those just made
    for set in &w.anchors {
        for it in &set.items {
            qs.push(Query::Resolve(it.anchor));
        }
    }
    let fresh = peer.rep.clone();
    for i in 0..qs.len() {
        if let Query::Anchor(..) = qs[i] {
            if let Ok(Answer::Anchor(a)) = ask(&fresh, qs[i], id) {
                qs.push(Query::Resolve(a));
            }
        }
    }
    // the reference: every question put to a replica that was asked nothing
    // else since it was copied
    let few = qs.len() <= 48;
    let copy = peer.rep.clone();
    let mut answers = Vec::with_capacity(qs.len());
    for q in &qs {
        let r = if few { ask(&peer.rep.clone(), *q, id) } else { ask(&copy, *q, id) };
        match r {
            Ok(a) => answers.push(a),
            Err(e) => return ctx.flag(C18, format!("peer {p}: {q:?} panics: {e}")),
        }
    }
    let asked = peer.rep.clone();
    let same = |rep: &Replica, i: usize, before: &str, ctx: &mut Ctx| match ask(rep, qs[i], id) {
        Ok(a) if a == answers[i] => true,
        x => {
            ctx.flag(C18, format!("peer {p}: {:?} gives {x:?} after {before}, {:?} before", qs[i], answers[i]));
            false
        }
    };
    // the replica itself, which has gone through the whole session
    for i in 0..qs.len() {
        if !same(&peer.rep, i, "the session", ctx) {
            return;
        }
    }
    if few {
        // every ordered pair
        for i in 0..qs.len() {
            let rep = peer.rep.clone();
            for j in 0..qs.len() {
                if !same(&rep, i, "other questions", ctx) || !same(&rep, j, &format!("{:?}", qs[i]), ctx) {
                    return;
                }
            }
        }
    }
    for i in (0..qs.len()).chain((0..qs.len()).rev()) {
        if !same(&asked, i, "all the others", ctx) {
            return;
        }
    }
    if let Err(e) = guard(|| asked.assert_invariants()) {
        return ctx.flag(C18 | C16, format!("peer {p}: assert_invariants fails after questions only: {e}"));
    }
    if !lockstep(cfg, w, peer, &fresh, &asked, 1, &format!("peer {p} and a copy that was asked everything"), C18, ctx, &mut Vec::new()) {
        return;
    }
    // a question, one or two steps, and the question again
    let two = few && qs.len() <= 30 && n <= 3 && w.ops.len() <= 3;
    for s in next_steps(w, n, k) {
        let mut rep = peer.rep.clone();
        if run(w, &mut rep, s) == Seen::Panic || !again(w, p, peer, &asked, &rep, &[s], &qs, few, ctx) {
            return;
        }
        if !two {
            continue;
        }
        for s2 in next_steps(w, rep.len() / k, k) {
            let mut rep = rep.clone();
            if run(w, &mut rep, s2) == Seen::Panic || !again(w, p, peer, &asked, &rep, &[s, s2], &qs, few, ctx) {
                return;
            }
        }
    }
    let copies = guard(|| (fresh.fork(id), asked.fork(id), Replica::decode(id, &asked.encode())));
    let Ok((a, b, Ok(c))) = copies else {
        return ctx.flag(C18, format!("peer {p}: copying it after questions only fails"));
    };
    for (b, how) in [(b, "fork"), (c, "decoded copy")] {
        if !lockstep(cfg, w, peer, &a, &b, 0, &format!("a fork of peer {p} and a {how} of its copy that was asked everything"), C18, ctx, &mut Vec::new()) {
            return;
        }
    }
}

/// Nothing can tell `now` from `peer`'s replica, whose encoding is `before`.
/// Equal encodings are as good as it gets; otherwise behaviour decides.
fn unchanged(cfg: &Cfg, w: &World, peer: &Peer, before: &[u8], now: &Replica, what: &str, mask: Mask, ctx: &mut Ctx) -> bool {
    match guard(|| now.encode().as_bytes().to_vec()) {
        Ok(b) if b == before => true,
        Ok(_) => lockstep(cfg, w, peer, &peer.rep, now, 1, what, mask, ctx, &mut Vec::new()),
        Err(e) => {
            ctx.flag(mask, format!("{what}: encode panics: {e}"));
            false
        }
    }
}

/// Invalid calls are refused and leave no trace; range forms agree; no-ops.
pub fn c13(cfg: &Cfg, w: &World, p: usize, peer: &Peer, ctx: &mut Ctx) {
    let k = cfg.k;
    let n = peer.buf.len() * k;
    let Ok(before) = guard(|| peer.rep.encode().as_bytes().to_vec()) else {
        return ctx.flag(C13, format!("peer {p}: encode panicked"));
    };
    let beyond: Vec<usize> = {
        let mut v: Vec<usize> = [1, 2, k, k.saturating_mul(7)].iter().map(|d| n.saturating_add(*d)).chain([n / 2 + usize::MAX / 2, usize::MAX - 1, usize::MAX]).collect();
        v.retain(|x| *x > n);
        v
    };
    let msgs = std::cell::RefCell::new(Ctx::new(ctx.env));
    let must_refuse = |what: String, f: &dyn Fn(&mut Replica)| {
        let mut r = peer.rep.clone();
        called();
        if !msgs.borrow().viols.is_empty() {
            return;
        }
        let bad = |m: String| msgs.borrow_mut().flag(C13, format!("peer {p}, text of length {n}: {m}"));
        if guard(|| f(&mut r)).is_ok() {
            bad(format!("{what} is accepted"));
            return;
        }
        // A refused call leaves the replica as it was.
        unchanged(cfg, w, peer, &before, &r, &format!("peer {p} before and after the refused {what}"), C13, &mut msgs.borrow_mut());
        if guard(|| (r.len(), r.id())) != Ok((n, peer.id)) {
            bad(format!("the refused {what} changed the replica's length"));
        }
    };
    for &x in &beyond {
        for len in [0, 1, k] {
            must_refuse(format!("inserted({x}, {len})"), &|r| {
                let _ = r.inserted(x, len);
            });
        }
        for bias in [AnchorBias::Left, AnchorBias::Right] {
            must_refuse(format!("create_anchor({x}, {bias:?})"), &|r| {
                let _ = r.create_anchor(x, bias);
            });
        }
        for s in [0, n, x - 1, x] {
            must_refuse(format!("deleted({s}..{x})"), &|r| {
                let _ = r.deleted(s..x);
            });
            must_refuse(format!("deleted({s}..={})", x - 1), &|r| {
                let _ = r.deleted((Bound::Included(s), Bound::Included(x - 1)));
            });
        }
        must_refuse(format!("deleted(..{x})"), &|r| {
            let _ = r.deleted(..x);
        });
        must_refuse(format!("deleted(0..={x})"), &|r| {
            let _ = r.deleted(0..=x);
        });
        must_refuse(format!("deleted({x}..)"), &|r| {
            let _ = r.deleted(x..);
        });
        must_refuse(format!("deleted(after {x}..)"), &|r| {
            let _ = r.deleted((Bound::Excluded(x), Bound::Unbounded));
        });
    }
    must_refuse("fork(0)".into(), &|r| {
        let _ = r.fork(0);
    });
    must_refuse("fork to its own id".into(), &|r| {
        let _ = r.fork(r.id());
    });
    must_refuse("decode to id 0".into(), &|r| {
        let e = r.encode();
        let _ = Replica::decode(0, &e);
    });
    must_refuse("new with id 0".into(), &|_| {
        let _ = Replica::new(0, n);
    });
    let pts: Vec<usize> = {
        let mut v: Vec<usize> = (0..=peer.buf.len()).map(|x| x * k).collect();
        if k > 1 && n > 0 {
            v.push(1);
            v.push(n - 1);
            v.sort_unstable();
            v.dedup();
        }
        v
    };
    for &s in &pts {
        for &e in &pts {
            if !msgs.borrow().viols.is_empty() {
                ctx.viols.extend(msgs.borrow_mut().viols.drain(..));
                return;
            }
            if s > e {
                must_refuse(format!("deleted({s}..{e})"), &|r| {
                    let _ = r.deleted((Bound::Included(s), Bound::Excluded(e)));
                });
                if s > e + 1 {
                    must_refuse(format!("deleted({s}..={e})"), &|r| {
                        let _ = r.deleted((Bound::Included(s), Bound::Included(e)));
                    });
                }
                continue;
            }
            // every spelling of s..e gives the same deletion
            let mut base = peer.rep.clone();
            called();
            let want = match guard(|| base.deleted(s..e)) {
                Ok(d) => d,
                Err(m) => {
                    ctx.flag(C13, format!("peer {p}, text of length {n}: deleted({s}..{e}) is refused: {m}"));
                    return;
                }
            };
            if guard(|| base.len()) != Ok(n - (e - s)) {
                ctx.flag(C13, format!("peer {p}, text of length {n}: deleted({s}..{e}) leaves a length of {:?}", guard(|| base.len())));
                return;
            }
            let mut forms: Vec<(Bound<usize>, Bound<usize>)> = Vec::new();
            let mut starts = vec![Bound::Included(s)];
            let mut ends = vec![Bound::Excluded(e)];
            if s > 0 {
                starts.push(Bound::Excluded(s - 1));
            } else {
                starts.push(Bound::Unbounded);
            }
            if e > 0 {
                ends.push(Bound::Included(e - 1));
            }
            if e == n {
                ends.push(Bound::Unbounded);
            }
            for a in &starts {
                for b in &ends {
                    forms.push((*a, *b));
                }
            }
            for f in forms {
                let mut r = peer.rep.clone();
                called();
                match guard(|| r.deleted(f)) {
                    Ok(d) if d == want && r.len() == base.len() => {}
                    Ok(d) => {
                        ctx.flag(C13, format!("peer {p}, text of length {n}: deleted({f:?}) gives {d:?}, deleted({s}..{e}) gives {want:?}"));
                        return;
                    }
                    Err(m) => {
                        ctx.flag(C13, format!("peer {p}, text of length {n}: deleted({f:?}) is refused: {m}"));
                        return;
                    }
                }
            }
            if s == e {
                // a no-op everywhere
                if !unchanged(cfg, w, peer, &before, &base, &format!("peer {p} before and after deleted({s}..{e})"), C13, ctx) {
                    return;
                }
                for (q, other) in w.peers.iter().enumerate() {
                    let mut o = other.rep.clone();
                    let b = o.encode().as_bytes().to_vec();
                    called();
                    match guard(|| o.integrate_deletion(&want)) {
                        Ok(r) if r.is_empty() => {}
                        r => {
                            ctx.flag(C13 | C06, format!("peer {q}: integrating the empty deletion {s}..{e} of peer {p} gives {r:?}"));
                            return;
                        }
                    }
                    if !unchanged(cfg, w, other, &b, &o, &format!("peer {q} before and after an empty deletion of peer {p}"), C13 | C06, ctx) {
                        return;
                    }
                }
            }
        }
        // zero-length insertion
        let mut r = peer.rep.clone();
        called();
        match guard(|| r.inserted(s, 0)) {
            Ok(i) => {
                if !unchanged(cfg, w, peer, &before, &r, &format!("peer {p} before and after inserted({s}, 0)"), C13, ctx) {
                    return;
                }
                for (q, other) in w.peers.iter().enumerate() {
                    let mut o = other.rep.clone();
                    let b = o.encode().as_bytes().to_vec();
                    match guard(|| o.integrate_insertion(&i)) {
                        Ok(None) => {}
                        x => return ctx.flag(C13 | C06, format!("peer {q}: integrating the empty insertion at {s} of peer {p} gives {x:?}")),
                    }
                    if !unchanged(cfg, w, other, &b, &o, &format!("peer {q} before and after an empty insertion of peer {p}"), C13 | C06, ctx) {
                        return;
                    }
                }
            }
            Err(m) => ctx.flag(C13, format!("peer {p}, text of length {n}: inserted({s}, 0) is refused: {m}")),
        }
        // in-bounds calls are accepted
        let mut r = peer.rep.clone();
        if let Err(m) = guard(|| {
            let _ = r.inserted(s, usize::from(n < usize::MAX));
            let _ = r.create_anchor(s, AnchorBias::Left);
            let _ = r.create_anchor(s, AnchorBias::Right);
        }) {
            ctx.flag(C13, format!("peer {p}, text of length {n}: a call at offset {s} is refused: {m}"));
        }
    }
}

static ENCODINGS: Mutex<Option<HashSet<u128>>> = Mutex::new(None);

fn first_time(bytes: &[u8]) -> bool {
    let mut h = 5u128;
    for c in bytes.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(x));
    }
    h = mix(h, bytes.len() as u64);
    ENCODINGS.lock().unwrap().get_or_insert_with(HashSet::new).insert(h)
}

fn varint(mut v: u64) -> Vec<u8> {
    let mut out = Vec::new();
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
    out
}

/// Encodings longer than this only have single bits of their bytes changed.
const LONG: usize = 600;
/// Some of the encodings so far.
static SEEN: std::sync::Mutex<Vec<Vec<u8>>> = std::sync::Mutex::new(Vec::new());

pub static DAMAGED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Every truncation, extension and one-byte change of the encoding.
pub fn c08(cfg: &Cfg, _w: &World, p: usize, peer: &Peer, ctx: &mut Ctx) {
    let id = spare_id(cfg);
    let bytes = match guard(|| peer.rep.encode().as_bytes().to_vec()) {
        Ok(b) => b,
        Err(e) => return ctx.flag(C08, format!("peer {p}: encode panicked: {e}")),
    };
    if !first_time(&bytes) {
        return;
    }
    let version = bytes[0] as u64;
    let mut tried = 0u64;
    let mut check = |data: &[u8], what: &dyn Fn() -> String, want: Option<DecodeError>| -> bool {
        tried += 1;
        called();
        match guard(|| Replica::decode(id, &EncodedReplica::from_bytes(data))) {
            Ok(Err(e)) => {
                if let Some(w) = want {
                    if e != w {
                        ctx.flag(C08, format!("peer {p}: decoding with {} fails with {e:?} instead of {w:?}", what()));
                        return false;
                    }
                }
                true
            }
            Ok(Ok(_)) => {
                ctx.flag(C08, format!("peer {p}: decoding with {} succeeds", what()));
                false
            }
            Err(e) => {
                ctx.flag(C08, format!("peer {p}: decoding with {} panics: {e}", what()));
                false
            }
        }
    };
    for n in 0..bytes.len() {
        let want = if n > 33 { Some(DecodeError::ChecksumFailed) } else { None };
        if !check(&bytes[..n], &|| format!("only the first {n} of {} bytes", bytes.len()), want) {
            return;
        }
    }
    // Every value of every byte; of long encodings every bit of every byte.
    let long = bytes.len() > LONG;
    let mut data = bytes.clone();
    for i in 0..bytes.len() {
        for v in 0..=255u8 {
            if v == bytes[i] || long && i > 0 && (v ^ bytes[i]).count_ones() != 1 {
                continue;
            }
            data[i] = v;
            let want = if i == 0 && v < 0x80 {
                Some(DecodeError::DifferentProtocol { encoded_on: v as u64, decoding_on: version })
            } else if i > 0 {
                Some(DecodeError::ChecksumFailed)
            } else {
                None
            };
            if !check(&data, &|| format!("byte {i} of {} changed from {} to {v}", bytes.len(), bytes[i]), want) {
                return;
            }
        }
        data[i] = bytes[i];
    }
    for v in 0..=255u8 {
        let mut d = bytes.clone();
        d.push(v);
        if !check(&d, &|| format!("{v} appended to {} bytes", bytes.len()), Some(DecodeError::ChecksumFailed)) {
            return;
        }
        let mut d = vec![v];
        d.extend_from_slice(&bytes);
        if !check(&d, &|| format!("{v} put before {} bytes", bytes.len()), None) {
            return;
        }
    }
    // one byte lost or doubled anywhere, of long encodings neighbours swapped
    for i in 1..bytes.len() {
        if long && i + 1 < bytes.len() && i > 33 && bytes[i] != bytes[i + 1] {
            let mut d = bytes.clone();
            d.swap(i, i + 1);
            if !check(&d, &|| format!("bytes {i} and {} of {} swapped", i + 1, bytes.len()), Some(DecodeError::ChecksumFailed)) {
                return;
            }
        }
        let mut d = bytes.clone();
        d.remove(i);
        if !check(&d, &|| format!("byte {i} of {} missing", bytes.len()), None) {
            return;
        }
        let mut d = bytes.clone();
        d.insert(i, bytes[i]);
        if !check(&d, &|| format!("byte {i} of {} doubled", bytes.len()), None) {
            return;
        }
    }
    // Short encodings: any two bytes swapped, the same bit of any two bytes
    // flipped, any range lost, zeroed, doubled or turned around.
    if !long {
        let head = 33;
        for i in 1..bytes.len() {
            for j in i + 1..bytes.len() {
                let body = |at: usize| (at > head).then_some(DecodeError::ChecksumFailed);
                if bytes[i] != bytes[j] {
                    data.swap(i, j);
                    let fine = check(&data, &|| format!("bytes {i} and {j} of {} swapped", bytes.len()), Some(DecodeError::ChecksumFailed));
                    data.swap(i, j);
                    if !fine {
                        return;
                    }
                }
                let bit = 1 << ((i + j) % 8);
                data[i] ^= bit;
                data[j] ^= bit;
                let fine = check(&data, &|| format!("the same bit of the bytes {i} and {j} of {} flipped", bytes.len()), Some(DecodeError::ChecksumFailed));
                data[i] ^= bit;
                data[j] ^= bit;
                if !fine {
                    return;
                }
                if data[i..j].iter().any(|b| *b != 0) {
                    data[i..j].fill(0);
                    let fine = check(&data, &|| format!("bytes {i}..{j} of {} zeroed", bytes.len()), Some(DecodeError::ChecksumFailed));
                    data[i..j].copy_from_slice(&bytes[i..j]);
                    if !fine {
                        return;
                    }
                }
                data[i..=j].reverse();
                let same = data == bytes;
                let fine = same || check(&data, &|| format!("bytes {i}..={j} of {} turned around", bytes.len()), Some(DecodeError::ChecksumFailed));
                data[i..=j].reverse();
                if !fine {
                    return;
                }
                let mut d = bytes.clone();
                d.drain(i..j);
                if !check(&d, &|| format!("bytes {i}..{j} of {} missing", bytes.len()), body(i)) {
                    return;
                }
                let mut d = bytes.clone();
                d.splice(j..j, bytes[i..j].iter().copied());
                if !check(&d, &|| format!("bytes {i}..{j} of {} doubled", bytes.len()), body(i)) {
                    return;
                }
            }
        }
    }
    // The beginning of one encoding and the rest of another one.
    let others: Vec<Vec<u8>> = {
        let mut seen = SEEN.lock().unwrap();
        let others = seen.clone();
        if seen.len() < 24 {
            seen.push(bytes.clone());
        } else {
            seen[bytes.len() % 24] = bytes.clone();
        }
        others
    };
    for o in &others {
        for (x, y) in [(&bytes, o), (o, &bytes)] {
            for k in 1..x.len().min(y.len()) {
                if x.len() > LONG && k > 40 && k % 37 != 0 {
                    continue;
                }
                let d = [&x[..k], &y[k..]].concat();
                if d == *x || d == *y {
                    continue;
                }
                if !check(&d, &|| format!("the first {k} bytes of one encoding and the rest of another one"), None) {
                    return;
                }
            }
        }
    }
    for v in [0u64, 1, 2, 3, 4, 127, 128, 255, 256, 300, 16383, 16384, 1 << 32, u64::MAX - 1, u64::MAX] {
        if v == version {
            continue;
        }
        let mut d = varint(v);
        d.extend_from_slice(&bytes[1..]);
        let want = DecodeError::DifferentProtocol { encoded_on: v, decoding_on: version };
        if !check(&d, &|| format!("protocol version {v}"), Some(want)) {
            return;
        }
    }
    DAMAGED.fetch_add(tried, std::sync::atomic::Ordering::Relaxed);
}

/// The replica takes no more room than its edits account for, whatever the
/// lengths of the texts.
pub fn c20(cfg: &Cfg, w: &World, p: usize, peer: &Peer, ctx: &mut Ctx) {
    let seed = cfg.seed.iter().filter(|a| matches!(a, Act::Ins { .. } | Act::Del { .. })).count();
    let edits = seed + w.edits as usize;
    match guard(|| peer.rep.encode().as_bytes().len()) {
        Ok(n) if n <= crate::size::limit(edits, w.peers.len()) => {}
        Ok(n) => ctx.flag(C20, format!("peer {p}: the replica takes {n} bytes after {edits} edits")),
        Err(e) => ctx.flag(FATAL, format!("peer {p}: encoding panics: {e}")),
    }
}
