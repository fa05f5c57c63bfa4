//! Jobs that are no configurations of the explorer: large encodings and their
//! damage, and long blocks of text typed at one place.

use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Arc;

use cola::{DecodeError, Deletion, EncodedReplica, Insertion, Replica};

use crate::bulk::{bad, gcd, lib};
use crate::explore::{Found, Run};
use crate::families::{Tier, SMALL};
use crate::world::*;

type Res = Result<(), Viol>;

/// Runs all jobs, on all threads, until one finds something that is asked for.
pub fn parallel(name: &str, run: &Arc<Run>, n: usize, job: impl Fn(usize, &dyn Fn()) -> Res + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for k in 0..run.threads {
            let (next, job) = (&next, &job);
            sc.spawn(move || {
                let slot = &run.slots[k];
                *slot.cur.lock().unwrap() = (None, name.to_string());
                slot.busy.store(true, SeqCst);
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= n || run.stop.load(SeqCst) {
                        break;
                    }
                    let beat = || {
                        slot.beat.fetch_add(1, SeqCst);
                    };
                    beat();
                    if let Err(v) = job(i, &beat) {
                        if v.mask & run.want != 0 {
                            run.stop.store(true, SeqCst);
                            let mut f = run.found.lock().unwrap();
                            if f.is_none() {
                                *f = Some(Found { cfg: name.to_string(), acts: vec![], msg: v.msg, state: String::new() });
                            }
                        }
                    }
                }
                slot.busy.store(false, SeqCst);
                flush_calls();
            });
        }
    });
}

pub fn name(prop: u32, t: Tier) -> Option<String> {
    let q = if t == Tier::Quick { "q" } else { "t" };
    let b = if SMALL { "s" } else { "d" };
    match prop {
        8 => Some(format!("C08-{q}-{b}-large")),
        9 => Some(format!("C09-{q}-{b}-large")),
        15 => Some(format!("C15-{q}-{b}-blocks")),
        _ => None,
    }
}

pub fn run(prop: u32, t: Tier, run: &Arc<Run>) {
    let name = name(prop, t).unwrap();
    match prop {
        8 => damage(&name, t, run),
        9 => wires(&name, t, run),
        _ => blocks(&name, t, run),
    }
}

// ------------------------------------------------------------ large encodings

/// A document of `n` pieces by two authors, with some edits waiting.
fn large(n: usize) -> Result<Replica, Viol> {
    lib("an edit", || {
        let mut a = Replica::new(0x1_0000_0001, 3);
        let mut b = a.fork(u64::MAX - 1);
        let mut at = 0;
        for i in 0..n {
            at = if i % 512 == 0 { (i * 7919) % (a.len() + 1) } else { at + 1 };
            let at2 = at.min(a.len());
            match i % 3 {
                0 => drop(b.integrate_insertion(&a.inserted(at2, 2))),
                1 => drop(a.integrate_insertion(&b.inserted(at2, 1))),
                _ => drop(b.integrate_deletion(&a.deleted(at2.min(a.len() - 1)..at2.min(a.len() - 1) + 1))),
            }
        }
        // waiting: everything but the first
        let (i, d) = (a.inserted(0, 1), a.deleted(0..2));
        let (i2, d2) = (a.inserted(1, 1), a.deleted(1..2));
        let _ = (i, d);
        let _ = b.integrate_insertion(&i2);
        let _ = b.integrate_deletion(&d2);
        b
    })
}

fn sizes(t: Tier) -> Vec<usize> {
    if t == Tier::Quick {
        vec![500, 7_000, 60_000]
    } else {
        vec![500, 2_000, 7_000, 20_000, 60_000, 400_000]
    }
}

fn damage(name: &str, t: Tier, run: &Arc<Run>) {
    for n in sizes(t) {
        let bytes = match large(n).and_then(|r| lib("encode", || r.encode().as_bytes().to_vec())) {
            Ok(b) => b,
            Err(_) => continue,
        };
        let len = bytes.len();
        // every place where something may begin to be treated differently,
        // and one place in every few hundred bytes
        let mut places: Vec<usize> = (1..80).chain(len.saturating_sub(80)..len).collect();
        let budget = if t == Tier::Quick { 1_500 } else { 10_000 };
        let stride = (len / budget).max(1) | 1;
        places.extend((1..len).step_by(stride));
        for k in 6..40 {
            for d in 0..70 {
                places.extend(((1usize << k) + d).checked_sub(2).filter(|p| *p > 0 && *p < len));
            }
        }
        places.sort();
        places.dedup();
        let bytes = &bytes;
        parallel(name, run, places.len(), |i, _| {
            let p = places[i];
            let check = |d: &[u8], what: &str| -> Res {
                run.stats.transitions.fetch_add(1, Relaxed);
                match lib("decode", || Replica::decode(5, &EncodedReplica::from_bytes(d)).map(drop)) {
                    Ok(Err(DecodeError::ChecksumFailed)) => Ok(()),
                    Ok(Err(_)) if p < 40 || what == "missing" || what == "cut off" => Ok(()),
                    Ok(Err(e)) => bad(C08, format!("decoding {len} bytes, byte {p} {what}, fails with {e:?} instead of ChecksumFailed")),
                    Ok(Ok(())) => bad(C08, format!("decoding {len} bytes, byte {p} {what}, succeeds")),
                    Err(v) => bad(C08, format!("decoding {len} bytes, byte {p} {what}: {}", v.msg)),
                }
            };
            let mut d = bytes.clone();
            d[p] ^= 1 << (p % 8);
            check(&d, "changed")?;
            d[p] ^= 1 << (p % 8);
            if d[p] != 0 {
                let x = std::mem::take(&mut d[p]);
                check(&d, "cleared")?;
                d[p] = x;
            }
            d.remove(p);
            check(&d, "missing")?;
            d.truncate(p);
            check(&d, "cut off")?;
            run.stats.states.fetch_add(1, Relaxed);
            Ok(())
        });
        // blocks of it swapped, lost and doubled
        let mut jobs = Vec::new();
        let mut size = (len / 40).next_power_of_two().max(8);
        while size < len {
            let count = len / size;
            for i in 0..count {
                for j in i + 1..count {
                    jobs.push((size, i, j));
                }
            }
            size *= 2;
        }
        if t == Tier::Quick && len > 100_000 {
            jobs.retain(|(_, i, j)| j - i < 3 || *i == 0);
        }
        parallel(name, run, jobs.len(), |x, _| {
            let (size, i, j) = jobs[x];
            let mut d = bytes.clone();
            let (l, r) = d.split_at_mut(j * size);
            l[i * size..(i + 1) * size].swap_with_slice(&mut r[..size]);
            run.stats.transitions.fetch_add(1, Relaxed);
            if d != *bytes {
                let r = lib("decode", || Replica::decode(5, &EncodedReplica::from_bytes(&d)).map(drop));
                if !matches!(r, Ok(Err(_))) {
                    return bad(C08, format!("decoding {len} bytes with the {size} from {} and from {} swapped: {:?}", i * size, j * size, r.map_err(|v| v.msg)));
                }
            }
            Ok(())
        });
        if run.stop.load(SeqCst) {
            return;
        }
    }
}

/// Large encodings and replicas through every format.
fn wires(name: &str, t: Tier, run: &Arc<Run>) {
    let mut todo = sizes(t);
    if t == Tier::Quick {
        todo.truncate(3);
    }
    parallel(name, run, todo.len(), |i, _| {
        let n = todo[i];
        let r = large(n)?;
        let e = lib("encode", || r.encode())?;
        run.stats.states.fetch_add(1, Relaxed);
        for (what, back) in crate::formats::encoded_everywhere(&e) {
            run.stats.transitions.fetch_add(1, Relaxed);
            match back {
                Ok(b) if b == e.as_bytes() => {}
                Ok(b) => return bad(C09, format!("an encoding of {} bytes becomes one of {} bytes by way of {what}", e.as_bytes().len(), b.len())),
                Err(x) => return bad(C09, format!("an encoding of {} bytes does not survive {what}: {x}", e.as_bytes().len())),
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------- blocks

#[derive(Clone, Copy, Debug)]
struct Blocks {
    authors: usize,
    pieces: usize,
    /// 0: the same for all, 1: more for later ones, 2: fewer for later ones
    uneven: u8,
    /// Between the pieces of a block its author ...
    /// 0: does nothing, 1: receives something, 2: types elsewhere, 3: deletes
    /// what it typed before, 4: 1 to 3 in turns
    meanwhile: u8,
    place: u8,
    ids: u8,
}

#[derive(Clone)]
enum Step {
    Ins(Insertion, Vec<(u64, u32)>),
    Del(Deletion),
}

#[derive(Clone)]
struct Pen {
    id: u64,
    rep: Replica,
    buf: Vec<(u64, u32)>,
    typed: u32,
    steps: Vec<Step>,
}

/// What is typed elsewhere is told from blocks by its number.
const ELSEWHERE: u32 = 1 << 30;

impl Pen {
    fn ins(&mut self, at: usize, len: usize, block: bool) -> Result<(), Viol> {
        let i = lib("inserted", || self.rep.inserted(at, len))?;
        let base = if block { 0 } else { ELSEWHERE };
        let chars: Vec<_> = (0..len as u32).map(|k| (self.id, base + self.typed + k)).collect();
        self.typed += len as u32;
        self.buf.splice(at..at, chars.iter().copied());
        self.steps.push(Step::Ins(i, chars));
        Ok(())
    }

    fn del(&mut self, at: usize) -> Result<(), Viol> {
        let d = lib("deleted", || self.rep.deleted(at..at + 1))?;
        self.buf.remove(at);
        self.steps.push(Step::Del(d));
        Ok(())
    }

    fn get(&mut self, s: &Step, waiting: &mut Vec<(Insertion, Vec<(u64, u32)>)>) -> Res {
        match s {
            Step::Ins(i, chars) => match lib("integrate_insertion", || self.rep.integrate_insertion(i))? {
                Some(at) if at <= self.buf.len() => drop(self.buf.splice(at..at, chars.iter().copied())),
                Some(at) => return bad(C15, format!("text to be inserted at {at} of {}", self.buf.len())),
                None => waiting.push((i.clone(), chars.clone())),
            },
            Step::Del(d) => {
                let ranges = lib("integrate_deletion", || self.rep.integrate_deletion(d))?;
                if ranges.iter().any(|r| r.start > r.end || r.end > self.buf.len()) {
                    return bad(C15, format!("{ranges:?} to be deleted of {}", self.buf.len()));
                }
                for r in ranges.iter().rev() {
                    self.buf.drain(r.clone());
                }
            }
        }
        Ok(())
    }

    fn drain(&mut self, waiting: &mut Vec<(Insertion, Vec<(u64, u32)>)>) -> Res {
        let got: Vec<_> = lib("a drain", || self.rep.backlogged_insertions().collect())?;
        for (text, at) in got {
            let Some(k) = waiting.iter().position(|(i, _)| *i.text() == text) else {
                return bad(C15, format!("a drain yields {text:?}, which is not waiting"));
            };
            let (_, chars) = waiting.swap_remove(k);
            if at > self.buf.len() {
                return bad(C15, format!("text to be inserted at {at} of {}", self.buf.len()));
            }
            self.buf.splice(at..at, chars);
        }
        let got: Vec<_> = lib("a drain", || self.rep.backlogged_deletions().collect())?;
        for ranges in got {
            if ranges.iter().any(|r| r.start > r.end || r.end > self.buf.len()) {
                return bad(C15, format!("{ranges:?} to be deleted of {}", self.buf.len()));
            }
            for r in ranges.iter().rev() {
                self.buf.drain(r.clone());
            }
        }
        Ok(())
    }
}

fn whole(b: &Blocks, how: &str, buf: &[(u64, u32)], ids: &[u64]) -> Res {
    // ids in the order in which their blocks begin; no return to an earlier one
    let mut seen: Vec<u64> = Vec::new();
    for (id, n) in buf {
        if *n >= ELSEWHERE || !ids.contains(id) {
            continue;
        }
        if seen.last() != Some(id) {
            if seen.contains(id) {
                return bad(C15, format!("{b:?}, {how}: the block of {id} is interrupted by the one of {}", seen.last().unwrap()));
            }
            seen.push(*id);
        }
    }
    Ok(())
}

fn block_session(b: Blocks, run: &Arc<Run>, beat: &dyn Fn()) -> Res {
    let ids: Vec<u64> = (0..b.authors as u64)
        .map(|i| match b.ids {
            0 => 2 + i,
            1 => 1000 - i,
            _ => (i + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15),
        })
        .collect();
    // a document in some pieces
    let mut ground = Pen { id: 1, rep: lib("new", || Replica::new(1, 2))?, buf: vec![(1, 0), (1, 1)], typed: 2, steps: vec![] };
    if b.place > 0 {
        for at in [0, 1, 3, 2, 5] {
            ground.ins(at, 1, false)?;
        }
        ground.del(2)?;
    }
    let len = ground.buf.len();
    let at = match b.place {
        0 => 0,
        1 => 0,
        2 => 2,
        3 => 3,
        _ => len,
    };
    let mut ticker = Pen { id: u64::MAX, rep: lib("fork", || ground.rep.fork(u64::MAX))?, ..ground.clone() };
    ticker.steps.clear();
    let mut pens = Vec::new();
    for (i, &id) in ids.iter().enumerate() {
        let mut p = Pen { id, rep: lib("fork", || ground.rep.fork(id))?, buf: ground.buf.clone(), typed: 0, steps: vec![] };
        let m = match b.uneven {
            0 => b.pieces,
            1 => b.pieces + i * 3,
            _ => b.pieces.saturating_sub(i * 3).max(1),
        };
        let mut ticks = 0;
        for k in 0..m {
            if k > 0 {
                // where the last piece ends
                let mode = if b.meanwhile == 4 { 1 + (k + i) as u8 % 3 } else { b.meanwhile };
                match mode {
                    1 => {
                        if ticks >= ticker.steps.len() {
                            let (l, n) = (ticker.buf.len(), ticker.steps.len());
                            ticker.ins(if n % 2 == 0 { l } else { 0 }, 1, false)?;
                        }
                        // some are ahead of others
                        for _ in 0..1 + i % 2 {
                            if let Some(s) = ticker.steps.get(ticks).cloned() {
                                p.get(&s, &mut vec![])?;
                                ticks += 1;
                            }
                        }
                    }
                    2 => {
                        let e = if at == 0 { p.buf.len() } else { 0 };
                        p.ins(e, 1, false)?;
                    }
                    3 => {
                        // the middle one of what it has typed
                        let mine: Vec<usize> = (0..p.buf.len()).filter(|x| p.buf[*x].0 == id && p.buf[*x].1 < ELSEWHERE).collect();
                        if mine.len() > 2 {
                            p.del(mine[mine.len() / 2])?;
                        }
                    }
                    _ => {}
                }
            }
            let last = p.buf.iter().rposition(|c| c.0 == id && c.1 < ELSEWHERE);
            let here = last.map_or(at, |x| x + 1);
            p.ins(here, 1 + (k + i) % 2, true)?;
        }
        beat();
        pens.push(p);
    }
    // the edits of all, as they come in
    let mut queues: Vec<Vec<Step>> = pens.iter().map(|p| p.steps.clone()).collect();
    queues.push(ticker.steps.clone());
    let n: usize = queues.iter().map(|q| q.len()).sum();
    let mut in_turns = Vec::new();
    for k in 0..queues.iter().map(|q| q.len()).max().unwrap_or(0) {
        for q in &queues {
            in_turns.extend(q.get(k).cloned());
        }
    }
    let one_by_one: Vec<Step> = queues.iter().flatten().cloned().collect();
    let backwards: Vec<Step> = queues.iter().rev().flatten().cloned().collect();
    let mut orders: Vec<(String, Vec<Step>)> = vec![("in turns".into(), in_turns.clone()), ("one author after the other".into(), one_by_one.clone()), ("one author after the other, the last first".into(), backwards)];
    let mut r = in_turns.clone();
    r.reverse();
    orders.push(("in turns, the last first".into(), r));
    let mut r = one_by_one;
    r.reverse();
    orders.push(("the last first".into(), r));
    for step in [3, 7, n / 2 + 1, n.saturating_sub(2)] {
        if step > 1 && gcd(step, n) == 1 {
            orders.push((format!("in turns, in steps of {step}"), (0..n).map(|i| in_turns[(i * step) % n].clone()).collect()));
        }
    }
    let mut texts: Vec<Vec<(u64, u32)>> = Vec::new();
    for (how, order) in &orders {
        for rhythm in [0usize, 1] {
            if rhythm == 1 && n > 400 {
                continue;
            }
            beat();
            let mut p = Pen { id: 9, rep: lib("fork", || ground.rep.fork(0x99))?, buf: ground.buf.clone(), typed: 0, steps: vec![] };
            let mut waiting = Vec::new();
            for s in order {
                p.get(s, &mut waiting)?;
                if rhythm == 1 {
                    p.drain(&mut waiting)?;
                    // also on the way
                    whole(&b, how, &p.buf, &ids)?;
                }
            }
            p.drain(&mut waiting)?;
            whole(&b, how, &p.buf, &ids)?;
            run.stats.histories.fetch_add(1, Relaxed);
            run.stats.transitions.fetch_add(n as u64, Relaxed);
            texts.push(p.buf);
        }
    }
    // at the authors
    for (i, p) in pens.iter().enumerate() {
        let mut p = p.clone();
        let mut waiting = Vec::new();
        for (j, q) in queues.iter().enumerate() {
            if i != j {
                for s in q {
                    p.get(s, &mut waiting)?;
                }
            }
        }
        p.drain(&mut waiting)?;
        whole(&b, "at an author", &p.buf, &ids)?;
        texts.push(p.buf);
        if i > 4 {
            break;
        }
    }
    run.stats.states.fetch_add(1, Relaxed);
    if texts.iter().any(|x| *x != texts[0]) {
        return bad(C01, format!("{b:?}: different texts"));
    }
    Ok(())
}

fn blocks(name: &str, t: Tier, run: &Arc<Run>) {
    let q = t == Tier::Quick;
    let mut todo = Vec::new();
    let pieces: &[usize] = if q { &[1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31, 33, 65] } else { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 24, 31, 32, 33, 34, 48, 63, 65, 97, 129, 257, 600] };
    for authors in if q { vec![2, 3, 5, 9, 33] } else { vec![2, 3, 4, 5, 6, 9, 17, 33, 70] } {
        for &p in pieces {
            if p * authors > if q { 330 } else { 1300 } {
                continue;
            }
            for uneven in 0..3 {
                for meanwhile in 0..5 {
                    for place in 0..5 {
                        for ids in 0..3 {
                            todo.push(Blocks { authors, pieces: p, uneven, meanwhile, place, ids });
                        }
                    }
                }
            }
        }
    }
    let todo = &todo;
    parallel(name, run, todo.len(), |i, beat| block_session(todo[i], run, beat));
}
