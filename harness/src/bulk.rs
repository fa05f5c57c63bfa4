//! Sessions of many authors and many edits in flight at once: every session of
//! a family of patterns and sizes, delivered in every order of a family of
//! orders, with drains, duplicates, hand-overs and serialization on the way.

use std::collections::HashMap;
use std::ops::Range;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Arc;

use cola::{Anchor, AnchorBias, Deletion, EncodedReplica, Insertion, Replica, Text};

use crate::explore::{Found, Run};
use crate::families::{Tier, SMALL};
use crate::world::*;

const OBSERVER: u64 = 0x0B5E_0000_0000_0321;
const HEIR: u64 = 0x4E12_0000_0000_0777;

enum BKind {
    Ins { obj: Insertion, first: u32, len: u32 },
    Del { obj: Deletion, chars: Vec<u32> },
}

struct BOp {
    author: usize,
    start: u32,
    kind: BKind,
}

struct Author {
    rep: Replica,
    id: u64,
    buf: Vec<u32>,
    /// Position in the history -> character.
    chars: Vec<u32>,
    seen: usize,
}

struct BAnchor {
    anchor: Anchor,
    bias: AnchorBias,
    to: Option<u32>,
}

/// A session while it is being recorded: edits in an order in which every one
/// comes after all that its author had received.
struct Sim {
    authors: Vec<Author>,
    ops: Vec<BOp>,
    order: Vec<u32>,
    shadow: Replica,
    dead: Vec<bool>,
    anchors: Vec<BAnchor>,
    start: Replica,
    init: u32,
}

fn ordered(ranges: &[Range<usize>], len: usize) -> bool {
    let mut last = None;
    ranges.iter().all(|r| {
        let ok = r.start < r.end && r.end <= len && last.map_or(true, |l| r.start > l);
        last = Some(r.end);
        ok
    })
}

/// Applies deleted ranges, gives the characters removed.
fn cut(buf: &mut Vec<u32>, ranges: &[Range<usize>]) -> Vec<u32> {
    let mut out = Vec::new();
    for r in ranges.iter().rev() {
        out.extend(buf.drain(r.clone()));
    }
    out
}

type Res = Result<(), Viol>;
pub fn bad<T>(mask: Mask, msg: String) -> Result<T, Viol> {
    Err(Viol { mask, msg })
}
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Viol> {
    called();
    guard(f).map_err(|e| Viol { mask: FATAL, msg: format!("{what} panicked: {e}") })
}

const COMMON: Mask = C01 | C02 | C03 | C04 | C17;

impl Sim {
    fn new(ids: &[u64], init: u32) -> Result<Sim, Viol> {
        let first = lib("Replica::new", || Replica::new(ids[0], init as usize))?;
        let mut authors = Vec::new();
        for (i, &id) in ids.iter().enumerate() {
            let rep = if i == 0 { first.clone() } else { lib("fork", || first.fork(id))? };
            authors.push(Author { rep, id, buf: (0..init).collect(), chars: if i == 0 { (0..init).collect() } else { vec![] }, seen: 0 });
        }
        Ok(Sim { authors, ops: vec![], order: (0..init).collect(), shadow: lib("fork", || first.fork(SHADOW_ID))?, dead: vec![false; init as usize], anchors: vec![], start: first, init })
    }

    fn anchors_at(&mut self, p: usize, at: usize) -> Res {
        let a = &self.authors[p];
        let at = at.min(a.buf.len());
        for bias in [AnchorBias::Left, AnchorBias::Right] {
            let to = if bias == AnchorBias::Left { at.checked_sub(1) } else { Some(at).filter(|x| *x < a.buf.len()) };
            let anchor = lib("create_anchor", || a.rep.create_anchor(at, bias))?;
            self.anchors.push(BAnchor { anchor, bias, to: to.map(|i| a.buf[i]) });
        }
        Ok(())
    }

    fn ins(&mut self, p: usize, at: usize, len: u32) -> Res {
        let first = self.dead.len() as u32;
        let a = &mut self.authors[p];
        let start = a.chars.len() as u32;
        let obj = lib("inserted", || a.rep.inserted(at, len as usize))?;
        let t = obj.text();
        if t.inserted_by() != a.id || t.temporal_range() != (start as usize..(start + len) as usize) || obj.inserted_by() != a.id {
            return bad(C14, format!("an insertion at offset {at} carries {t:?}, its author {:x} was at {start}", a.id));
        }
        a.buf.splice(at..at, first..first + len);
        a.chars.extend(first..first + len);
        self.dead.extend((0..len).map(|_| false));
        // the shadow does not receive deletions, so that its text is the total
        // order of all characters
        match lib("integrate_insertion", || self.shadow.integrate_insertion(&obj))? {
            None => return bad(C17 | C05, format!("insertion {obj:?} received in causal order is not applied")),
            Some(at) if at > self.order.len() => return bad(C04, format!("insertion {obj:?} is to be applied at {at}, past the end")),
            Some(at) => {
                self.order.splice(at..at, first..first + len);
            }
        }
        self.ops.push(BOp { author: p, start, kind: BKind::Ins { obj, first, len } });
        self.anchors_at(p, at)
    }

    fn del(&mut self, p: usize, from: usize, to: usize) -> Res {
        let a = &mut self.authors[p];
        let obj = lib("deleted", || a.rep.deleted(from..to))?;
        if obj.deleted_by() != a.id {
            return bad(C14, format!("a deletion by {:x} names {:x}", a.id, obj.deleted_by()));
        }
        let chars: Vec<u32> = a.buf.drain(from..to).collect();
        for c in &chars {
            self.dead[*c as usize] = true;
        }
        self.ops.push(BOp { author: p, start: 0, kind: BKind::Del { obj, chars } });
        self.anchors_at(p, from)
    }

    /// Everything so far, in the order in which it was made.
    fn pull(&mut self, p: usize) -> Res {
        let a = &mut self.authors[p];
        for i in a.seen..self.ops.len() {
            let op = &self.ops[i];
            if op.author == p {
                continue;
            }
            match &op.kind {
                BKind::Ins { obj, first, len } => match lib("integrate_insertion", || a.rep.integrate_insertion(obj))? {
                    None => return bad(C17 | C05, format!("insertion {obj:?} received in causal order is not applied")),
                    Some(at) if at > a.buf.len() => return bad(C04, format!("insertion {obj:?} is to be applied at {at}, past the end")),
                    Some(at) => {
                        a.buf.splice(at..at, *first..*first + *len);
                    }
                },
                BKind::Del { obj, chars } => {
                    let ranges = lib("integrate_deletion", || a.rep.integrate_deletion(obj))?;
                    if !ordered(&ranges, a.buf.len()) {
                        return bad(C04, format!("deletion {obj:?} gives {ranges:?} in a text of {}", a.buf.len()));
                    }
                    let mut want: Vec<u32> = a.buf.iter().copied().filter(|c| chars.contains(c)).collect();
                    let mut got = cut(&mut a.buf, &ranges);
                    got.sort();
                    want.sort();
                    if got != want {
                        return bad(C03 | C17, format!("deletion {obj:?} removes characters {got:?} instead of {want:?}"));
                    }
                }
            }
        }
        a.seen = self.ops.len();
        Ok(())
    }

    fn len(&self, p: usize) -> usize {
        self.authors[p].buf.len()
    }
}

// ------------------------------------------------------------------ patterns

const PATTERNS: &[&str] = &["line", "back", "typing", "erase", "mix", "crowd", "relay", "sweep", "scatter", "everyone", "replies", "rounds"];

/// Patterns for sessions of thousands of edits in flight.
const VAST: &[&str] = &["doubles", "each", "echo", "typing", "back", "line"];

fn many(p: &str) -> bool {
    matches!(p, "crowd" | "relay" | "sweep" | "everyone" | "replies" | "rounds")
}

fn ids(n: usize, rule: usize) -> Vec<u64> {
    (0..n as u64)
        .map(|i| match rule {
            0 => i + 1,
            1 => n as u64 - i,
            2 => (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1,
            _ => 5 + (i << 48),
        })
        .collect()
}

fn build(pattern: &str, n: usize, rule: usize) -> Result<Sim, Viol> {
    let authors = match pattern {
        "crowd" | "everyone" | "sweep" => n,
        "relay" | "replies" => n.min(40),
        "rounds" => (n / 3).max(2),
        "each" => n / 4,
        _ => 2,
    };
    let init = match pattern {
        "erase" | "scatter" | "everyone" | "doubles" | "each" => n + 2,
        _ => 2,
    } as u32;
    let mut s = Sim::new(&ids(authors, rule), init)?;
    match pattern {
        // separate runs, each right of the one before
        "line" => {
            for i in 0..n {
                s.ins(0, 1 + i, 1)?;
                if i % 2 == 1 {
                    s.ins(0, 0, 1)?;
                    s.del(0, 0, 1)?;
                }
            }
        }
        "back" => {
            for i in 0..n {
                s.ins(0, i % 2, 1 + (i % 3 == 2) as u32)?;
            }
        }
        "typing" => {
            for i in 0..n {
                s.ins(0, 1 + i, 1)?;
            }
        }
        "erase" => {
            for i in 0..n {
                s.del(0, if i % 3 == 0 { s.len(0) - 1 } else { 0 }.min(s.len(0) - 1), if i % 3 == 0 { s.len(0) } else { 1 })?;
            }
        }
        "mix" => {
            for i in 0..n {
                match i % 4 {
                    0 => s.ins(0, 1, 2)?,
                    1 => s.ins(0, 3, 1)?,
                    2 => s.del(0, 2, 4)?,
                    _ => s.ins(0, s.len(0) / 2, 1)?,
                }
            }
        }
        // everybody at one place, unaware of the others
        "crowd" => {
            for i in 0..n {
                s.ins(i, 1, 1 + (i % 2) as u32)?;
                if i % 3 == 0 {
                    s.ins(i, 2, 1)?;
                }
            }
        }
        // everybody answers after having read everything
        "relay" => {
            for i in 0..n {
                let p = i % authors;
                s.pull(p)?;
                if i % 5 == 4 {
                    let l = s.len(p);
                    s.del(p, l - 2, l - 1)?;
                } else {
                    s.ins(p, s.len(p) - 1, 1)?;
                }
            }
        }
        // a deletion of text of everybody
        "sweep" => {
            for i in 1..n {
                s.ins(i, 1 + (i % 2), 1)?;
            }
            s.pull(0)?;
            s.del(0, 0, s.len(0))?;
            s.ins(0, 0, 2)?;
        }
        // one run in many fragments, some cut again by deletions
        "scatter" => {
            for at in (1..n).rev() {
                s.ins(1, at, 1)?;
            }
            s.pull(0)?;
            let mut at = 0;
            while at + 2 < s.len(0) {
                s.del(0, at, at + 1)?;
                at += 3;
            }
            s.del(1, 1, s.len(1) - 1)?;
        }
        // overlapping deletions
        "everyone" => {
            for i in 0..n {
                s.del(i, i / 2, (i + 2).min(s.len(i)))?;
                if i % 4 == 0 {
                    s.ins(i, i / 2, 1)?;
                }
            }
        }
        // everybody inserts behind the text of the one before
        "replies" => {
            for i in 0..n {
                let p = i % authors;
                s.pull(p)?;
                s.ins(p, (1 + i / 2).min(s.len(p)), 1)?;
            }
        }
        // two delete the same characters one by one
        "doubles" => {
            for p in 0..2 {
                for _ in 0..n / 2 {
                    s.del(p, 1, 2)?;
                }
            }
        }
        // as many authors as that, everybody has two deletions of their own
        // in which others have come before and types in between
        "each" => {
            for i in 0..authors {
                s.del(i, 3 * i, 3 * i + 1)?;
                s.ins(i, 3 * i, 1)?;
                s.del(i, 3 * i, 3 * i + 2)?;
            }
        }
        // one types, the other deletes that, so does the first
        "echo" => {
            for i in 0..n / 3 {
                s.ins(0, 1 + i, 1)?;
                s.ins(0, 1, 1)?;
            }
            s.pull(1)?;
            for _ in 0..n / 3 {
                s.del(1, 2, 3)?;
                s.del(0, 2, 3)?;
            }
        }
        // all insert, all read, all delete
        _ => {
            for i in 0..authors {
                s.ins(i, 1, 1)?;
            }
            for i in 0..authors {
                if i % 2 == 0 {
                    s.pull(i)?;
                }
                let l = s.len(i);
                s.del(i, l / 2, l / 2 + 1)?;
            }
            for i in 0..authors {
                s.ins(i, s.len(i) / 2, 1)?;
            }
        }
    }
    // the creator and the last author have received everything in the end
    s.pull(0)?;
    s.pull(authors - 1)?;
    for p in [0, authors - 1] {
        let want: Vec<u32> = s.order.iter().copied().filter(|c| !s.dead[*c as usize]).collect();
        if s.authors[p].buf != want {
            return bad(C01 | C02, format!("author {p} has {} at the end, other peers have {}", show32(&s.authors[p].buf), show32(&want)));
        }
    }
    Ok(s)
}

fn show32(v: &[u32]) -> String {
    if v.len() > 80 {
        format!("{:?}... ({} characters)", &v[..80], v.len())
    } else {
        format!("{v:?}")
    }
}

// ---------------------------------------------------------------- deliveries

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hand {
    Fork,
    Decode,
    Clone,
}

#[derive(Clone, Copy, Debug)]
struct Plan {
    /// Order: i -> (from + i * step) mod n, reversed or not.
    from: usize,
    step: usize,
    /// Drain after every so many deliveries (0: only at the end).
    drain: usize,
    /// 0: once; 1: each edit twice in a row; 2: everything twice before the
    /// drain; 3: everything again after the drain.
    dup: u8,
    hand: Option<(usize, Hand)>,
    wire: bool,
}

pub fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// (start, stride) of the orders explored for `n` edits.
fn orders(n: usize, causal: bool, deep: bool) -> Vec<(usize, usize)> {
    if causal || n < 2 {
        return vec![(0, 1)];
    }
    let all = n <= if deep { 42 } else { 20 };
    let strides: Vec<usize> = if all {
        (1..n).filter(|s| gcd(*s, n) == 1).collect()
    } else {
        let mut v = vec![1, n - 1];
        for t in [n / 2, n / 3, 7] {
            v.extend((t.max(2)..n).find(|s| gcd(*s, n) == 1));
        }
        v.dedup();
        v
    };
    let starts: Vec<usize> = if all { (0..n).collect() } else { vec![0, 1, n / 2, n - 1] };
    strides.iter().flat_map(|s| starts.iter().map(move |f| (*f, *s))).collect()
}

struct Receiver<'a> {
    s: &'a Sim,
    rank: &'a [u32],
    rep: Replica,
    buf: Vec<u32>,
    known: Vec<bool>,
    gone: Vec<bool>,
    texts: &'a HashMap<(u64, usize), (u32, u32)>,
    mask: Mask,
}

impl Receiver<'_> {
    fn place(&mut self, first: u32, len: u32, at: usize) -> Res {
        if at > self.buf.len() {
            return bad(C04 | self.mask, format!("text to be inserted at {at} of {}", self.buf.len()));
        }
        if self.known[first as usize] {
            return bad(C05 | C06 | self.mask, format!("character {first} is inserted a second time"));
        }
        let r = self.rank[first as usize];
        if at > 0 && self.rank[self.buf[at - 1] as usize] > r || at < self.buf.len() && self.rank[self.buf[at] as usize] < r {
            return bad(C01 | C02 | self.mask, format!("character {first} is put at {at}, on the wrong side of its neighbours"));
        }
        for c in first..first + len {
            self.known[c as usize] = true;
        }
        self.buf.splice(at..at, first..first + len);
        Ok(())
    }

    fn remove(&mut self, ranges: &[Range<usize>], of: Option<&[u32]>) -> Res {
        if !ordered(ranges, self.buf.len()) {
            return bad(C04 | self.mask, format!("a deletion gives {ranges:?} in a text of {}", self.buf.len()));
        }
        for c in cut(&mut self.buf, ranges) {
            if !self.s.dead[c as usize] || of.is_some_and(|o| !o.contains(&c)) && self.mask & C17 != 0 {
                return bad(C03 | self.mask, format!("character {c} is removed but nobody deleted it"));
            }
            self.gone[c as usize] = true;
        }
        Ok(())
    }

    fn deliver(&mut self, i: usize, wire: bool, causal: bool) -> Res {
        let op = &self.s.ops[i];
        match &op.kind {
            BKind::Ins { obj, first, len } => {
                let copy;
                let obj = if wire {
                    copy = trip(obj)?;
                    if copy != *obj {
                        return bad(C09, format!("insertion {obj:?} becomes {copy:?} on the wire"));
                    }
                    &copy
                } else {
                    obj
                };
                match lib("integrate_insertion", || self.rep.integrate_insertion(obj))? {
                    Some(at) => self.place(*first, *len, at),
                    None if causal => bad(C17 | self.mask, format!("edit {i}, {obj:?}, received in causal order is not applied")),
                    None => Ok(()),
                }
            }
            BKind::Del { obj, chars } => {
                let copy;
                let obj = if wire {
                    copy = trip(obj)?;
                    if copy != *obj {
                        return bad(C09, format!("deletion {obj:?} becomes {copy:?} on the wire"));
                    }
                    &copy
                } else {
                    obj
                };
                let ranges = lib("integrate_deletion", || self.rep.integrate_deletion(obj))?;
                self.remove(&ranges, Some(chars))?;
                if causal {
                    if let Some(c) = self.buf.iter().find(|c| chars.contains(c)) {
                        return bad(C17 | C03 | self.mask, format!("edit {i}, {obj:?}, received in causal order leaves character {c}"));
                    }
                }
                Ok(())
            }
        }
    }

    fn drain(&mut self) -> Res {
        let got: Vec<(Text, usize)> = lib("draining insertions", || self.rep.backlogged_insertions().collect())?;
        for (t, at) in got {
            let r = t.temporal_range();
            match self.texts.get(&(t.inserted_by(), r.start)) {
                Some((first, len)) if r.end == r.start + *len as usize => self.place(*first, *len, at)?,
                _ => return bad(C14 | C05, format!("text {t:?} that nobody typed comes out of the backlog")),
            }
        }
        let got: Vec<Vec<Range<usize>>> = lib("draining deletions", || self.rep.backlogged_deletions().collect())?;
        for ranges in got {
            self.remove(&ranges, None)?;
        }
        if self.buf.len() != lib("len", || self.rep.len())? {
            return bad(C04 | self.mask, format!("the text has {} characters, the replica says {}", self.buf.len(), self.rep.len()));
        }
        Ok(())
    }

    fn check(&self) -> Res {
        match guard(|| self.rep.assert_invariants()) {
            Ok(()) => Ok(()),
            Err(e) => bad(C16, format!("the self-check fails: {e}")),
        }
    }

    fn anchors(&self) -> Res {
        // number of visible characters up to every rank
        let mut upto = vec![0usize; self.rank.len() + 1];
        for c in &self.buf {
            upto[self.rank[*c as usize] as usize + 1] = 1;
        }
        for i in 1..upto.len() {
            upto[i] += upto[i - 1];
        }
        for a in &self.s.anchors {
            let want = match a.to {
                None if a.bias == AnchorBias::Left => Some(0),
                None => Some(self.buf.len()),
                Some(c) if !self.known[c as usize] => None,
                Some(c) => {
                    let r = self.rank[c as usize] as usize;
                    Some(upto[r] + if a.bias == AnchorBias::Left { upto[r + 1] - upto[r] } else { 0 })
                }
            };
            let got = lib("resolve_anchor", || self.rep.resolve_anchor(a.anchor))?;
            if got != want {
                return bad(C10 | C11, format!("anchor {:?} resolves to {got:?} instead of {want:?}", a.anchor));
            }
        }
        Ok(())
    }
}

/// Sends a value through every format.
#[cfg(feature = "formats")]
fn trip<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq>(v: &T) -> Result<T, Viol> {
    called();
    match guard(|| crate::formats::trips(v)) {
        Ok(Ok(mut t)) => {
            if let Some((f, _)) = t.iter().find(|(_, x)| x != v) {
                return bad(C09, format!("a value changes through {f}"));
            }
            Ok(t.pop().expect("a format").1)
        }
        Ok(Err(e)) => bad(C09, format!("a value cannot be serialized and read back: {e}")),
        Err(e) => bad(C09, format!("serializing and reading back a value panics: {e}")),
    }
}
#[cfg(not(feature = "formats"))]
fn trip<T: Clone>(v: &T) -> Result<T, Viol> {
    Ok(v.clone())
}

fn perform(s: &Sim, rank: &[u32], texts: &HashMap<(u64, usize), (u32, u32)>, want: &[u32], plan: &Plan, anchors: bool, check: bool, sizes: bool) -> Res {
    let n = s.ops.len();
    let causal = plan.step == 1 && plan.from == 0;
    let mut mask = if causal { COMMON } else { C01 | C05 };
    if plan.dup > 0 {
        mask |= C06;
    }
    if plan.wire {
        mask |= C09;
    }
    match plan.hand {
        Some((_, Hand::Fork | Hand::Clone)) => mask |= C12,
        Some((_, Hand::Decode)) => mask |= C12 | C07,
        None => {}
    }
    let total = s.dead.len();
    let known: Vec<bool> = (0..total).map(|i| i < s.init as usize).collect();
    let rep = lib("fork", || s.start.fork(OBSERVER))?;
    let mut r = Receiver { s, rank, rep, buf: (0..s.init).collect(), known, gone: vec![false; total], texts, mask };
    let mut id = OBSERVER;
    let rounds = if plan.dup == 2 { 2 } else { 1 };
    for i in 0..n * rounds {
        if let Some((at, how)) = plan.hand {
            if at == i {
                let old = r.rep.clone();
                let (new_id, rep) = match how {
                    Hand::Fork => (HEIR, lib("fork", || old.fork(HEIR))?),
                    Hand::Clone => (id, lib("clone", || old.clone())?),
                    Hand::Decode => {
                        let e = lib("encode", || old.encode())?;
                        match lib("decode", || Replica::decode(HEIR, &EncodedReplica::from_bytes(e.as_bytes())))? {
                            Ok(d) => (HEIR, d),
                            Err(e) => return bad(C07 | C12, format!("the encoding of a replica with pending edits is not accepted: {e:?}")),
                        }
                    }
                };
                (id, r.rep) = (new_id, rep);
            }
        }
        let j = (plan.from + i * plan.step) % n;
        r.deliver(j, plan.wire, causal && i < n)?;
        if plan.dup == 1 {
            r.deliver(j, plan.wire, false)?;
        }
        if plan.drain > 0 && i % plan.drain == plan.drain - 1 {
            r.drain()?;
        }
        if sizes && (i % 8 == 0 || i + 1 == n) {
            let x = crate::size::size(&r.rep)?;
            let most = crate::size::limit(i + 1, s.authors.len());
            if x > most {
                return bad(C20, format!("{x} bytes after {} of {n} edits", i + 1));
            }
        }
        if check && (n <= 64 || i % 32 == 0) {
            r.check()?;
        }
        if anchors && (i == n / 2 || i == n / 3) {
            r.anchors()?;
        }
    }
    if causal && r.buf != want {
        return bad(mask, format!("after all edits in causal order the text is {} instead of {}", show32(&r.buf), show32(want)));
    }
    r.drain()?;
    r.drain()?;
    if plan.dup == 3 {
        for i in 0..n {
            r.deliver(i, plan.wire, false)?;
        }
        r.drain()?;
    }
    if r.buf != want {
        return bad(mask, format!("after all edits have arrived the text is {} instead of {}", show32(&r.buf), show32(want)));
    }
    if anchors {
        r.anchors()?;
    }
    r.check()?;
    if sizes {
        // compared with a peer that has seen everything as it was made
        let (x, y) = (crate::size::size(&r.rep)?, crate::size::size(&s.authors[0].rep)?);
        if x > 2 * y + 100 {
            return bad(C20, format!("{x} bytes after all edits, {y} at a peer that has received them as they were made"));
        }
    }
    if plan.wire {
        let e = lib("encode", || r.rep.encode())?.to_static();
        let e = trip(&e)?;
        match lib("decode", || Replica::decode(HEIR, &e))? {
            Ok(d) => {
                r.rep = d;
                id = HEIR;
            }
            Err(e) => return bad(C09, format!("an encoding that went over a wire is not accepted: {e:?}")),
        }
    }
    // it goes on as a full peer
    let mut rep = r.rep.clone();
    let mut other = s.authors[0].rep.clone();
    let (mut a, mut b) = (r.buf.clone(), s.authors[0].buf.clone());
    let mut next = 0;
    for step in 0..6 {
        let len = a.len();
        let at = [0, len / 2, len, len / 3, len, 0][step].min(len);
        if step == 3 || step == 5 {
            let to = (at + 2).min(len);
            let d = lib("deleted", || rep.deleted(at..to))?;
            a.drain(at..to);
            let ranges = lib("integrate_deletion", || other.integrate_deletion(&d))?;
            if !ordered(&ranges, b.len()) {
                return bad(C04 | mask, format!("a deletion made afterwards gives {ranges:?} in a text of {}", b.len()));
            }
            cut(&mut b, &ranges);
        } else {
            let i = lib("inserted", || rep.inserted(at, 1))?;
            if i.text().inserted_by() != id || i.text().temporal_range() != (next..next + 1) {
                return bad(C14, format!("insertion number {next} of peer {id:x} carries {:?}", i.text()));
            }
            next += 1;
            a.insert(at, u32::MAX - next as u32);
            match lib("integrate_insertion", || other.integrate_insertion(&i))? {
                Some(x) if x <= b.len() => b.insert(x, u32::MAX - next as u32),
                x => return bad(C17 | mask, format!("an insertion made afterwards is placed at {x:?} by a peer with all edits")),
            }
        }
        if a != b {
            return bad(mask, format!("edits made afterwards give {} there and {} elsewhere", show32(&a), show32(&b)));
        }
    }
    Ok(())
}

/// (pattern, size, rule for identifiers)
fn sessions(prop: u32, t: Tier) -> Vec<(&'static str, usize, usize)> {
    let q = t == Tier::Quick;
    let mut v = Vec::new();
    for (k, p) in PATTERNS.iter().enumerate() {
        let mut sizes: Vec<usize> = if q { (3..=34).collect() } else { (3..=72).collect() };
        sizes.extend(if many(p) { vec![65, 130, 270] } else { vec![64, 65, 130, 257, 300] });
        if !many(p) && matches!(prop, 1 | 5 | 6 | 7 | 9 | 12 | 16) {
            sizes.extend(if q { vec![1030] } else { vec![513, 1030, 2100] });
        }
        for (i, n) in sizes.iter().enumerate() {
            if q && (k + i + SMALL as usize) % 2 == 0 && *n < 34 {
                v.push((*p, *n, 1));
                continue;
            }
            v.push((*p, *n, 0));
            if many(p) && *n <= 130 {
                if !q {
                    v.push((*p, *n, 1));
                    v.push((*p, *n, 3));
                }
                v.push((*p, *n, 2));
            }
        }
    }
    if matches!(prop, 1 | 5 | 6 | 7 | 12 | 14) {
        for p in VAST {
            v.push((*p, if q { 16_000 } else { 70_000 }, 0));
        }
    }
    v.sort_by_key(|x| std::cmp::Reverse(x.1));
    v
}

fn plans(prop: u32, n: usize, t: Tier) -> Vec<Plan> {
    let q = t == Tier::Quick;
    let base = |(from, step)| Plan { from, step, drain: 0, dup: 0, hand: None, wire: false };
    if n > 5000 {
        let last = |k| Plan { from: n - 1, drain: k, ..base((0, n - 1)) };
        return match prop {
            5 => vec![last(0), last(n / 2), base((n / 2, 1)), base((1, 1))],
            6 => vec![Plan { dup: 2, ..last(0) }],
            7 => vec![Plan { hand: Some((n - 1, Hand::Decode)), ..last(0) }],
            12 => vec![Plan { hand: Some((n - 1, Hand::Fork)), ..last(0) }],
            _ => vec![last(0)],
        };
    }
    let deep = matches!(prop, 1 | 5);
    let mut v: Vec<Plan> = orders(n, prop == 17, deep && (n <= 20 || !q)).into_iter().map(base).collect();
    match prop {
        5 => {
            let more: Vec<Plan> = v.iter().flat_map(|p| [1, 2, 7].map(|d| Plan { drain: d, ..*p })).filter(|p| n <= 300 || p.drain == 7).collect();
            v.extend(more);
        }
        6 => {
            let b = v.clone();
            v.truncate(1);
            for p in b {
                v.extend([1, 2, 3].map(|d| Plan { dup: d, ..p }));
                v.extend([1, 2].map(|d| Plan { dup: d, drain: 3, ..p }));
            }
        }
        7 | 12 => {
            let b = v.clone();
            v.truncate(1);
            for p in b {
                for at in if n <= 10 { (0..n).collect() } else { vec![1, n / 2, n - 1] } {
                    v.push(Plan { hand: Some((at, Hand::Decode)), ..p });
                    v.push(Plan { hand: Some((at, Hand::Decode)), drain: 4, ..p });
                    if prop == 12 {
                        v.push(Plan { hand: Some((at, Hand::Fork)), ..p });
                        v.push(Plan { hand: Some((at, Hand::Fork)), drain: 4, ..p });
                        v.push(Plan { hand: Some((at, Hand::Clone)), ..p });
                    }
                }
            }
        }
        9 => {
            v.truncate(3);
            for p in v.iter_mut() {
                p.wire = true;
            }
        }
        _ => {}
    }
    v
}

/// The name of the family for a property that it says something about.
pub fn name(prop: u32, t: Tier) -> Option<String> {
    if matches!(prop, 8 | 13 | 15 | 19) {
        return None;
    }
    Some(format!("C{prop:02}-{}-{}bulk", if t == Tier::Quick { "q" } else { "t" }, if SMALL { "s-" } else { "d-" }))
}

/// Explores the whole family.
pub fn run(prop: u32, t: Tier, run: &Arc<Run>) {
    let name = name(prop, t).expect("a family");
    let todo = sessions(prop, t);
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for k in 0..run.threads {
            let (todo, next, name) = (&todo, &next, &name);
            sc.spawn(move || {
                let slot = &run.slots[k];
                *slot.cur.lock().unwrap() = (None, name.clone());
                slot.busy.store(true, SeqCst);
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= todo.len() || run.stop.load(SeqCst) {
                        break;
                    }
                    slot.beat.fetch_add(1, SeqCst);
                    let (pat, n, rule) = todo[i];
                    let report = |v: Viol, plan: Option<&Plan>| {
                        if v.mask & run.want == 0 {
                            return;
                        }
                        run.stop.store(true, SeqCst);
                        let mut f = run.found.lock().unwrap();
                        if f.is_none() {
                            let how = plan.map(|p| format!(", delivered as {p:?}")).unwrap_or_default();
                            *f = Some(Found { cfg: name.clone(), acts: vec![], msg: v.msg, state: format!("  session {pat} of size {n}, identifiers by rule {rule}{how}\n") });
                        }
                    };
                    let s = match build(pat, n, rule) {
                        Ok(s) => s,
                        Err(v) => {
                            report(v, None);
                            continue;
                        }
                    };
                    let mut rank = vec![0u32; s.dead.len()];
                    for (i, c) in s.order.iter().enumerate() {
                        rank[*c as usize] = i as u32;
                    }
                    let mut texts = HashMap::new();
                    for o in &s.ops {
                        if let BKind::Ins { first, len, .. } = &o.kind {
                            texts.insert((s.authors[o.author].id, o.start as usize), (*first, *len));
                        }
                    }
                    let want: Vec<u32> = s.order.iter().copied().filter(|c| !s.dead[*c as usize]).collect();
                    let m = s.ops.len();
                    for plan in plans(prop, m, t) {
                        slot.beat.fetch_add(1, SeqCst);
                        run.stats.histories.fetch_add(1, Relaxed);
                        run.stats.states.fetch_add(m as u64, Relaxed);
                        run.stats.transitions.fetch_add(m as u64, Relaxed);
                        if let Err(v) = perform(&s, &rank, &texts, &want, &plan, matches!(prop, 10 | 11) && m <= 300, prop == 16, prop == 20) {
                            report(v, Some(&plan));
                            break;
                        }
                        if run.stop.load(SeqCst) {
                            break;
                        }
                    }
                    run.stats.nodes.fetch_add(1, Relaxed);
                }
                slot.busy.store(false, SeqCst);
                flush_calls();
            });
        }
    });
}
