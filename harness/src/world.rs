//! The explored system: several real `cola::Replica`s with the text buffers
//! their users would keep, the edits in flight between them, and the monitors
//! that compare every observable result with the specification.

use std::cell::RefCell;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

use cola::{Anchor, AnchorBias, Deletion, EncodedReplica, Insertion, Replica};

// ---------------------------------------------------------------- properties

pub const NPROPS: usize = 20;
pub type Mask = u32;
pub const fn bit(n: u32) -> Mask {
    1 << n
}
pub const C01: Mask = bit(1);
pub const C02: Mask = bit(2);
pub const C03: Mask = bit(3);
pub const C04: Mask = bit(4);
pub const C05: Mask = bit(5);
pub const C06: Mask = bit(6);
pub const C07: Mask = bit(7);
pub const C08: Mask = bit(8);
pub const C09: Mask = bit(9);
pub const C10: Mask = bit(10);
pub const C11: Mask = bit(11);
pub const C12: Mask = bit(12);
pub const C13: Mask = bit(13);
pub const C14: Mask = bit(14);
pub const C15: Mask = bit(15);
pub const C16: Mask = bit(16);
pub const C17: Mask = bit(17);
pub const C18: Mask = bit(18);
pub const C20: Mask = bit(20);
/// The session cannot go on after this: no property is delivered.
pub const FATAL: Mask = u32::MAX;

#[derive(Clone, Debug)]
pub struct Viol {
    pub mask: Mask,
    pub msg: String,
}

// ------------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Runs a call into the library; a panic becomes an `Err`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub static CALLS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static LOCAL_CALLS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// Counts a call into the library (flushed in batches).
#[inline]
pub fn called() {
    LOCAL_CALLS.with(|c| {
        let n = c.get() + 1;
        if n >= 256 {
            CALLS.fetch_add(n, Relaxed);
            c.set(0);
        } else {
            c.set(n);
        }
    })
}
pub fn flush_calls() {
    LOCAL_CALLS.with(|c| {
        CALLS.fetch_add(c.get(), Relaxed);
        c.set(0);
    })
}

// -------------------------------------------------------------------- types

/// A character: author index and position in the author's history.
pub type Ch = u32;
pub fn ch(author: usize, idx: u32) -> Ch {
    ((author as u32) << 20) | idx
}
pub fn ch_author(c: Ch) -> usize {
    (c >> 20) as usize
}
pub fn ch_idx(c: Ch) -> u32 {
    c & 0xfffff
}

pub const OPS_PER_AUTHOR: usize = 16;
pub const MAX_PEERS: usize = 8;

#[derive(Clone, Debug)]
pub enum Kind {
    Ins { obj: Insertion, start: u32, len: u32, after: Option<Ch> },
    Del { obj: Deletion, chars: Arc<[Ch]> },
}

#[derive(Clone, Debug)]
pub struct Op {
    pub author: usize,
    pub bit: u8,
    pub kind: Kind,
    /// Edits the author had applied when it made this one.
    pub past: u128,
    pub hist: u128,
}

impl Op {
    pub fn mask(&self) -> u128 {
        1u128 << self.bit
    }
    pub fn is_ins(&self) -> bool {
        matches!(self.kind, Kind::Ins { .. })
    }
}

#[derive(Clone)]
pub struct Peer {
    pub rep: Replica,
    pub id: u64,
    pub buf: Vec<Ch>,
    /// Edits received (own edits included).
    pub recv: u128,
    /// Edits known to have been applied.
    pub applied: u128,
    pub next: u32,
    pub nops: u8,
    pub hist: u128,
    /// Whether undrained edits may be waiting.
    pub pending: bool,
    pub edits: u16,
}

#[derive(Clone)]
pub struct Shadow {
    pub rep: Replica,
    /// All characters ever inserted, in document order.
    pub order: Vec<Ch>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ref {
    Start,
    End,
    /// Attached to this character, on the side given by the bias.
    Char(Ch),
}

#[derive(Clone, Debug)]
pub struct AnchorItem {
    pub anchor: Anchor,
    pub bias: AnchorBias,
    pub to: Ref,
    pub offset: usize,
}

#[derive(Clone, Debug)]
pub struct AnchorSet {
    pub peer: usize,
    pub items: Vec<AnchorItem>,
}

#[derive(Clone)]
pub struct World {
    pub peers: Vec<Arc<Peer>>,
    pub ops: Vec<Arc<Op>>,
    pub shadow: Arc<Shadow>,
    pub anchors: Vec<Arc<AnchorSet>>,
    /// Characters deleted by edits that are no longer tracked (sorted).
    pub dead: Arc<Vec<Ch>>,
    pub edits: u16,
    pub joins: u8,
}

/// What can happen to the system.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Ins { p: u8, at: u32, len: u32 },
    Del { p: u8, a: u32, b: u32 },
    /// Deliver (or redeliver) an edit; immediately followed by a drain in
    /// eager mode.
    Deliver { p: u8, op: u8 },
    /// Take at most `n` items from the backlogged insertions.
    DrainIns { p: u8, n: u8 },
    DrainDel { p: u8, n: u8 },
    Join { from: u8, how: Join },
    /// Deliver everything to everybody in causal order and forget the edits.
    Sync,
    /// Deliver every edit to this peer, in causal order.
    Pull { p: u8 },
    /// An insertion or deletion of nothing, delivered to everybody at once.
    Noop { p: u8, at: u32, del: bool },
    /// One character from somebody who has taken part in a session so long
    /// that its clock is just below 2^`bits`, already received by everybody.
    Boost { bits: u8 },
    /// `n` characters, each put in front of everything by peers 0 and 1 in
    /// turns and received by everybody at once.
    Prepends { n: u32 },
    /// `n` deletions of the first character, by peer `p`, received by
    /// everybody at once.
    Eat { p: u8, n: u32 },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Join {
    Fork,
    Decode,
}

impl Act {
    pub fn text(&self) -> String {
        match self {
            Act::Ins { p, at, len } => format!("ins {p} {at} {len}"),
            Act::Del { p, a, b } => format!("del {p} {a} {b}"),
            Act::Deliver { p, op } => {
                format!("deliver {p} {} {}", *op as usize / OPS_PER_AUTHOR, *op as usize % OPS_PER_AUTHOR)
            }
            Act::DrainIns { p, n } => format!("drain-ins {p} {n}"),
            Act::DrainDel { p, n } => format!("drain-del {p} {n}"),
            Act::Join { from, how: Join::Fork } => format!("fork {from}"),
            Act::Join { from, how: Join::Decode } => format!("decode {from}"),
            Act::Sync => "sync".into(),
            Act::Pull { p } => format!("pull {p}"),
            Act::Noop { p, at, del: false } => format!("noop-ins {p} {at}"),
            Act::Noop { p, at, del: true } => format!("noop-del {p} {at}"),
            Act::Boost { bits } => format!("boost {bits}"),
            Act::Prepends { n } => format!("prepends {n}"),
            Act::Eat { p, n } => format!("eat {p} {n}"),
        }
    }

    pub fn parse(s: &str) -> Option<Act> {
        let t: Vec<&str> = s.split_whitespace().collect();
        let n = |i: usize| t.get(i).and_then(|x| x.parse::<u32>().ok());
        Some(match *t.first()? {
            "ins" => Act::Ins { p: n(1)? as u8, at: n(2)?, len: n(3)? },
            "del" => Act::Del { p: n(1)? as u8, a: n(2)?, b: n(3)? },
            "deliver" => Act::Deliver { p: n(1)? as u8, op: (n(2)? as usize * OPS_PER_AUTHOR + n(3)? as usize) as u8 },
            "drain-ins" => Act::DrainIns { p: n(1)? as u8, n: n(2)? as u8 },
            "drain-del" => Act::DrainDel { p: n(1)? as u8, n: n(2)? as u8 },
            "fork" => Act::Join { from: n(1)? as u8, how: Join::Fork },
            "decode" => Act::Join { from: n(1)? as u8, how: Join::Decode },
            "sync" => Act::Sync,
            "pull" => Act::Pull { p: n(1)? as u8 },
            "noop-ins" => Act::Noop { p: n(1)? as u8, at: n(2)?, del: false },
            "noop-del" => Act::Noop { p: n(1)? as u8, at: n(2)?, del: true },
            "boost" => Act::Boost { bits: n(1)? as u8 },
            "prepends" => Act::Prepends { n: n(1)? },
            "eat" => Act::Eat { p: n(1)? as u8, n: n(2)? },
            _ => return None,
        })
    }
}

pub fn mix(h: u128, v: u64) -> u128 {
    let mut x = h ^ (v as u128).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    x = x.wrapping_mul(0xDA942042E4DD58B5A3B195354A39B70D);
    x ^= x >> 61;
    x = x.wrapping_mul(0x2545F4914F6CDD1D9E3779B97F4A7C15);
    x ^ (x >> 67)
}
pub fn mix2(h: u128, v: u128) -> u128 {
    mix(mix(h, v as u64), (v >> 64) as u64)
}

/// Per-configuration switches used by the transition functions.
#[derive(Clone, Copy)]
pub struct Env {
    /// Units per abstract character.
    pub k: usize,
    pub eager: bool,
    pub invariants: bool,
    pub anchors: bool,
    /// Which properties this run reports.
    pub want: Mask,
}

pub struct Ctx {
    pub env: Env,
    pub viols: Vec<Viol>,
}

impl Ctx {
    pub fn new(env: Env) -> Self {
        Ctx { env, viols: Vec::new() }
    }
    #[cold]
    pub fn flag(&mut self, mask: Mask, msg: String) {
        self.viols.push(Viol { mask, msg });
    }
    pub fn fatal(&self) -> bool {
        self.viols.iter().any(|v| v.mask == FATAL)
    }
    pub fn reported(&self) -> Option<&Viol> {
        self.viols.iter().find(|v| v.mask & self.env.want != 0)
    }
}

pub const SHADOW_ID: u64 = 0x5AAD_0000_0000_0777;
pub const BOOST_ID: u64 = 0xB005_0000_0000_0999;

impl World {
    pub fn new(ids: &[u64], init: u32, k: usize) -> Result<World, String> {
        let chars: Vec<Ch> = (0..init).map(|i| ch(0, i)).collect();
        let first = guard(|| Replica::new(ids[0], init as usize * k))?;
        let shadow = Shadow { rep: guard(|| first.fork(SHADOW_ID))?, order: chars.clone() };
        let mut peers = Vec::new();
        for (i, &id) in ids.iter().enumerate() {
            let rep = if i == 0 { first.clone() } else { guard(|| first.fork(id))? };
            peers.push(Arc::new(Peer {
                rep,
                id,
                buf: chars.clone(),
                recv: 0,
                applied: 0,
                next: if i == 0 { init } else { 0 },
                nops: 0,
                hist: mix(17, i as u64),
                pending: false,
                edits: 0,
            }));
        }
        Ok(World { peers, ops: Vec::new(), shadow: Arc::new(shadow), anchors: Vec::new(), dead: Arc::new(Vec::new()), edits: 0, joins: 0 })
    }

    pub fn key(&self) -> u128 {
        let mut h = 99u128;
        for p in &self.peers {
            h = mix2(h, p.hist);
        }
        h
    }

    /// Keeps the edits in an order that only depends on the histories and in
    /// which every edit comes after those its author had applied.
    /// Shares nothing of the library's with other worlds anymore.
    pub fn unshare(&mut self) {
        fn own<T: Clone>(a: &mut Arc<T>) {
            *a = Arc::new(T::clone(a));
        }
        self.peers.iter_mut().for_each(own);
        self.ops.iter_mut().for_each(own);
        self.anchors.iter_mut().for_each(own);
        own(&mut self.shadow);
    }

    fn add_op(&mut self, op: Arc<Op>) {
        let key = |o: &Op| (o.past.count_ones(), o.bit);
        let at = self.ops.iter().position(|o| key(o) > key(&op)).unwrap_or(self.ops.len());
        self.ops.insert(at, op);
    }

    pub fn op(&self, bit: u8) -> Option<&Arc<Op>> {
        self.ops.iter().find(|o| o.bit == bit)
    }

    /// The edit that inserted a character, if it is still tracked.
    pub fn op_of(&self, c: Ch) -> Option<&Arc<Op>> {
        let (a, i) = (ch_author(c), ch_idx(c));
        self.ops.iter().find(|o| match &o.kind {
            Kind::Ins { start, len, .. } => o.author == a && i >= *start && i < *start + *len,
            _ => false,
        })
    }

    pub fn all_ops(&self) -> u128 {
        self.ops.iter().fold(0, |m, o| m | o.mask())
    }

    pub fn closed(&self, recv: u128) -> bool {
        self.ops.iter().all(|o| recv & o.mask() == 0 || o.past & !recv == 0)
    }

    pub fn describe(&self) -> String {
        let mut s = String::new();
        for o in &self.ops {
            let _ = writeln!(
                s,
                "  edit {}.{} past={:x} {}",
                o.author,
                o.bit as usize % OPS_PER_AUTHOR,
                o.past,
                match &o.kind {
                    Kind::Ins { obj, start, len, .. } => format!("insert chars {start}..{} {obj:?}", start + len),
                    Kind::Del { obj, chars } => format!("delete {} {obj:?}", show(chars)),
                }
            );
        }
        for (i, p) in self.peers.iter().enumerate() {
            let _ = writeln!(
                s,
                "  peer {i} id={:x} text={} recv={:x} applied={:x} replica-len={}",
                p.id,
                show(&p.buf),
                p.recv,
                p.applied,
                guard(|| p.rep.len()).unwrap_or(usize::MAX)
            );
        }
        let _ = writeln!(s, "  order of all characters: {}", show(&self.shadow.order));
        s
    }
}

pub fn show(b: &[Ch]) -> String {
    let mut s = String::from("[");
    for (i, c) in b.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        if i > 60 {
            s.push_str("...");
            break;
        }
        let _ = write!(s, "{}{}", (b'a' + ch_author(*c) as u8) as char, ch_idx(*c));
    }
    s.push(']');
    s
}

/// Is `a` a subsequence of `b`?
pub fn subsequence(a: &[Ch], b: &[Ch]) -> bool {
    let mut it = b.iter();
    a.iter().all(|c| it.any(|d| d == c))
}

fn splice_in(buf: &mut Vec<Ch>, at: usize, author: usize, start: u32, len: u32) {
    buf.splice(at..at, (start..start + len).map(|i| ch(author, i)));
}

fn hash_of<T: std::hash::Hash>(v: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::hash::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

// -------------------------------------------------------------- transitions

impl World {
    /// A local insertion at peer `p` of `len` characters at `at`.
    pub fn insert(&mut self, ctx: &mut Ctx, p: usize, at: u32, len: u32) {
        let k = ctx.env.k;
        called();
        let mut peer = (*self.peers[p]).clone();
        let obj = match guard(|| peer.rep.inserted(at as usize * k, len as usize * k)) {
            Ok(o) => o,
            Err(e) => {
                return ctx.flag(FATAL, format!("peer {p}: inserted({}, {}) in a text of {} panicked: {e}", at as usize * k, len as usize * k, peer.buf.len() * k));
            }
        };
        let want = peer.next as usize * k..(peer.next + len) as usize * k;
        let text = obj.text();
        if text.inserted_by() != peer.id || obj.inserted_by() != peer.id || text.temporal_range() != want {
            ctx.flag(
                C14,
                format!(
                    "peer {p} (id {:x}): insertion is attributed to {:x}/{:x} range {:?}, expected range {want:?}",
                    peer.id,
                    obj.inserted_by(),
                    text.inserted_by(),
                    text.temporal_range()
                ),
            );
        }
        let after = if at == 0 { None } else { Some(peer.buf[at as usize - 1]) };
        let start = peer.next;
        splice_in(&mut peer.buf, at as usize, p, start, len);
        let bit = (p * OPS_PER_AUTHOR + peer.nops as usize) as u8;
        assert!((peer.nops as usize) < OPS_PER_AUTHOR, "harness: too many edits");
        let past = peer.applied;
        peer.hist = mix(mix(peer.hist, 1), (at as u64) << 32 | len as u64);
        peer.next += len;
        peer.nops += 1;
        peer.edits += 1;
        peer.recv |= 1 << bit;
        peer.applied |= 1 << bit;
        let hist = peer.hist;
        self.add_op(Arc::new(Op { author: p, bit, kind: Kind::Ins { obj: obj.clone(), start, len, after }, past, hist }));
        self.peers[p] = Arc::new(peer);
        self.edits += 1;
        self.shadow_insert(ctx, p, &obj, start, len);
        if ctx.fatal() {
            return;
        }
        self.check_peer(ctx, p);
        // The new text may also disturb the order of the others.
        for q in 0..self.peers.len() {
            if q != p && !subsequence(&self.peers[q].buf, &self.shadow.order) {
                ctx.flag(C02, format!("peer {q} shows {} but the order of all text is {}", show(&self.peers[q].buf), show(&self.shadow.order)));
            }
        }
        self.make_anchors(ctx, p);
    }

    fn shadow_insert(&mut self, ctx: &mut Ctx, p: usize, obj: &Insertion, start: u32, len: u32) {
        let k = ctx.env.k;
        let sh = Arc::make_mut(&mut self.shadow);
        called();
        match guard(|| sh.rep.integrate_insertion(obj)) {
            Ok(Some(off)) => {
                if off % k != 0 || off / k > sh.order.len() {
                    return ctx.flag(FATAL, format!("observer: integrate_insertion returned offset {off} in a text of {}", sh.order.len() * k));
                }
                splice_in(&mut sh.order, off / k, p, start, len);
            }
            Ok(None) => {
                // The observer has every earlier insertion: not applying this
                // one at once breaks C17, and the text is missing.
                ctx.flag(FATAL, format!("observer that integrated every earlier insertion got None for the insertion of {}", show(&(start..start + len).map(|i| ch(p, i)).collect::<Vec<_>>())));
            }
            Err(e) => ctx.flag(FATAL, format!("observer: integrate_insertion panicked: {e}")),
        }
    }

    /// A local deletion at peer `p`.
    pub fn delete(&mut self, ctx: &mut Ctx, p: usize, a: u32, b: u32) {
        let k = ctx.env.k;
        called();
        let mut peer = (*self.peers[p]).clone();
        let obj = match guard(|| peer.rep.deleted(a as usize * k..b as usize * k)) {
            Ok(o) => o,
            Err(e) => {
                return ctx.flag(FATAL, format!("peer {p}: deleted({}..{}) in a text of {} panicked: {e}", a as usize * k, b as usize * k, peer.buf.len() * k));
            }
        };
        if obj.deleted_by() != peer.id {
            ctx.flag(C14, format!("peer {p} (id {:x}): deletion is attributed to {:x}", peer.id, obj.deleted_by()));
        }
        let chars: Vec<Ch> = peer.buf.drain(a as usize..b as usize).collect();
        let bit = (p * OPS_PER_AUTHOR + peer.nops as usize) as u8;
        assert!((peer.nops as usize) < OPS_PER_AUTHOR, "harness: too many edits");
        let past = peer.applied;
        peer.hist = mix(mix(peer.hist, 2), (a as u64) << 32 | b as u64);
        peer.nops += 1;
        peer.edits += 1;
        peer.recv |= 1 << bit;
        peer.applied |= 1 << bit;
        let hist = peer.hist;
        self.add_op(Arc::new(Op { author: p, bit, kind: Kind::Del { obj, chars: chars.into() }, past, hist }));
        self.peers[p] = Arc::new(peer);
        self.edits += 1;
        self.check_peer(ctx, p);
        self.make_anchors(ctx, p);
    }

    /// An edit of nothing at peer `p`, which everybody receives at once.
    pub fn noop(&mut self, ctx: &mut Ctx, p: usize, at: u32, del: bool) {
        let at = at as usize * ctx.env.k;
        called();
        let mut peer = (*self.peers[p]).clone();
        peer.edits += 1;
        peer.hist = mix(peer.hist, 0x9000_0000_0000 + at as u64 * 2 + del as u64);
        let hist = peer.hist;
        enum Obj {
            Ins(Insertion),
            Del(Deletion),
        }
        let obj = match guard(|| if del { Obj::Del(peer.rep.deleted(at..at)) } else { Obj::Ins(peer.rep.inserted(at, 0)) }) {
            Ok(o) => o,
            Err(e) => return ctx.flag(FATAL, format!("peer {p}: an empty edit at {at} panicked: {e}")),
        };
        self.peers[p] = Arc::new(peer);
        self.edits += 1;
        for q in 0..self.peers.len() {
            if q != p {
                let mut other = (*self.peers[q]).clone();
                other.hist = mix2(other.hist, hist);
                called();
                let res = guard(|| match &obj {
                    Obj::Ins(i) => other.rep.integrate_insertion(i).is_none(),
                    Obj::Del(d) => other.rep.integrate_deletion(d).is_empty(),
                });
                match res {
                    Ok(true) => {}
                    Ok(false) => return ctx.flag(FATAL, format!("peer {q}: integrating an empty edit of peer {p} changes the text")),
                    Err(e) => return ctx.flag(FATAL, format!("peer {q}: integrating an empty edit of peer {p} panicked: {e}")),
                }
                self.peers[q] = Arc::new(other);
            }
            self.check_peer(ctx, q);
        }
    }

    /// See [`Act::Boost`]. Only before anything else happens.
    #[cfg(feature = "formats")]
    pub fn boost(&mut self, ctx: &mut Ctx, bits: u8) {
        let k = ctx.env.k;
        called();
        let made = guard(|| {
            let mut rep = self.shadow.rep.fork(BOOST_ID);
            let obj = rep.inserted(0, k);
            crate::formats::with_lamport(&obj, (1u64 << bits) - 2)
        });
        // An insertion whose serialized form we do not understand (any more)
        // is not an error of the library.
        let Ok(Some(obj)) = made else { return };
        let c = ch(MAX_PEERS - 1, 0);
        for p in 0..=self.peers.len() {
            called();
            let at = if p == self.peers.len() {
                let sh = Arc::make_mut(&mut self.shadow);
                sh.order.insert(0, c);
                guard(|| sh.rep.integrate_insertion(&obj))
            } else {
                let peer = Arc::make_mut(&mut self.peers[p]);
                peer.buf.insert(0, c);
                peer.hist = mix(peer.hist, 0xB005_0000 + bits as u64);
                guard(|| peer.rep.integrate_insertion(&obj))
            };
            if at != Ok(Some(0)) {
                return ctx.flag(FATAL, format!("peer {p}: {obj:?}, which follows everything seen so far, is inserted at {at:?} instead of 0"));
            }
        }
        for p in 0..self.peers.len() {
            self.check_peer(ctx, p);
        }
    }

    #[cfg(not(feature = "formats"))]
    pub fn boost(&mut self, _: &mut Ctx, _: u8) {}

    /// See [`Act::Prepends`]. Nothing may be in flight.
    pub fn prepends(&mut self, ctx: &mut Ctx, n: u32) {
        let k = ctx.env.k;
        let mut new = Vec::with_capacity(n as usize);
        let mut peers: Vec<Peer> = self.peers.iter().map(|p| (**p).clone()).collect();
        let sh = Arc::make_mut(&mut self.shadow);
        for i in 0..n {
            let p = i as usize % 2;
            called();
            let res = guard(|| {
                let obj = peers[p].rep.inserted(0, k);
                let mut got = vec![sh.rep.integrate_insertion(&obj)];
                for (q, peer) in peers.iter_mut().enumerate() {
                    if q != p {
                        got.push(peer.rep.integrate_insertion(&obj));
                    }
                }
                got.iter().all(|g| *g == Some(0))
            });
            if res != Ok(true) {
                return ctx.flag(FATAL, format!("the {i}th character that is put in front of everything, in turns, by peers that have received everything is not inserted there by everybody else: {res:?}"));
            }
            new.push(ch(p, peers[p].next));
            peers[p].next += 1;
        }
        new.reverse();
        sh.order.splice(0..0, new.iter().copied());
        for (p, mut peer) in peers.into_iter().enumerate() {
            peer.buf.splice(0..0, new.iter().copied());
            peer.hist = mix(mix(peer.hist, 11), n as u64);
            self.peers[p] = Arc::new(peer);
        }
        for p in 0..self.peers.len() {
            self.check_peer(ctx, p);
        }
    }

    /// See [`Act::Eat`]. Nothing may be in flight.
    pub fn eat(&mut self, ctx: &mut Ctx, p: usize, n: u32) {
        let k = ctx.env.k;
        let mut peers: Vec<Peer> = self.peers.iter().map(|p| (**p).clone()).collect();
        for i in 0..n {
            called();
            let res = guard(|| {
                let obj = peers[p].rep.deleted(0..k);
                peers.iter_mut().enumerate().all(|(q, peer)| q == p || peer.rep.integrate_deletion(&obj) == [0..k])
            });
            if res != Ok(true) {
                return ctx.flag(FATAL, format!("the {i}th deletion of the first character does not delete it at every peer: {res:?}"));
            }
        }
        let dead = Arc::make_mut(&mut self.dead);
        dead.extend(&peers[0].buf[..n as usize]);
        dead.sort_unstable();
        for (p, mut peer) in peers.into_iter().enumerate() {
            peer.buf.drain(..n as usize);
            peer.hist = mix(mix(peer.hist, 12), n as u64);
            self.peers[p] = Arc::new(peer);
        }
        for p in 0..self.peers.len() {
            self.check_peer(ctx, p);
        }
    }

    /// Delivers an edit to a peer, once or again. In eager mode the backlogs
    /// are drained right afterwards.
    pub fn deliver(&self, ctx: &mut Ctx, p: usize, peer: &Peer, bit: u8) -> Peer {
        let op = self.op(bit).expect("harness: unknown edit").clone();
        let mut peer = peer.clone();
        let m = op.mask();
        peer.hist = mix(mix2(peer.hist, op.hist), 3);
        let first = peer.recv & m == 0;
        let was_applied = peer.applied & m != 0;
        let ready = op.past & !peer.applied == 0;
        let dup = if first { 0 } else { C06 };
        let k = ctx.env.k;
        called();
        match &op.kind {
            Kind::Ins { obj, start, len, .. } => match guard(|| peer.rep.integrate_insertion(obj)) {
                Err(e) => {
                    ctx.flag(FATAL, format!("peer {p}: integrate_insertion ({}) panicked: {e}", kind_of(first, was_applied)));
                    return peer;
                }
                Ok(Some(off)) => {
                    if was_applied {
                        ctx.flag(FATAL, format!("peer {p}: an insertion that was already applied was applied again at {off}"));
                        return peer;
                    }
                    if off % k != 0 || off / k > peer.buf.len() {
                        ctx.flag(FATAL, format!("peer {p}: integrate_insertion returned offset {off} in a text of length {}", peer.buf.len() * k));
                        return peer;
                    }
                    splice_in(&mut peer.buf, off / k, op.author, *start, *len);
                    peer.recv |= m;
                    peer.applied |= m;
                }
                Ok(None) => {
                    if !was_applied {
                        if first && ready {
                            ctx.flag(C17, format!("peer {p} has applied everything edit {}.{} depends on, but integrate_insertion returned None", op.author, bit as usize % OPS_PER_AUTHOR));
                        }
                        peer.pending = true;
                    }
                    peer.recv |= m;
                }
            },
            Kind::Del { obj, .. } => match guard(|| peer.rep.integrate_deletion(obj)) {
                Err(e) => {
                    ctx.flag(FATAL, format!("peer {p}: integrate_deletion ({}) panicked: {e}", kind_of(first, was_applied)));
                    return peer;
                }
                Ok(ranges) => {
                    if was_applied && !ranges.is_empty() {
                        ctx.flag(FATAL, format!("peer {p}: a deletion that was already applied returned {ranges:?} again"));
                        return peer;
                    }
                    let Some(removed) = apply_ranges(ctx, p, &mut peer.buf, &ranges) else { return peer };
                    peer.recv |= m;
                    if !was_applied {
                        self.deletion_result(ctx, p, &mut peer, &op, &removed, first, ready);
                    }
                }
            },
        }
        if dup != 0 && ctx.reported().is_none() {
            // nothing more: the effects of duplicates are judged by the
            // monitors on the resulting state
        }
        if ctx.env.eager {
            self.drain_ins(ctx, p, &mut peer, 255);
            if !ctx.fatal() {
                self.drain_del(ctx, p, &mut peer, 255);
            }
            if !ctx.fatal() {
                self.after_drain(ctx, p, &mut peer);
            }
        }
        if !ctx.fatal() {
            self.check_state(ctx, p, &peer);
        }
        peer
    }

    /// Bookkeeping and checks for the result of a deletion that was not known
    /// to be applied before.
    fn deletion_result(&self, ctx: &mut Ctx, p: usize, peer: &mut Peer, op: &Op, removed: &[Ch], first: bool, ready: bool) {
        let Kind::Del { chars, .. } = &op.kind else { unreachable!() };
        let name = format_args!("{}.{}", op.author, op.bit as usize % OPS_PER_AUTHOR).to_string();
        // what should have gone, given the text before
        let left: Vec<Ch> = peer.buf.iter().copied().filter(|c| chars.contains(c)).collect();
        let visible_before = !left.is_empty() || removed.iter().any(|c| chars.contains(c));
        if removed.is_empty() {
            if ready {
                if visible_before {
                    if first {
                        ctx.flag(C17, format!("peer {p} has applied everything deletion {name} depends on, but integrate_deletion removed nothing of {}", show(&left)));
                    }
                    peer.pending = true;
                } else {
                    peer.applied |= op.mask();
                    // It may nevertheless have been queued.
                    peer.pending = true;
                }
            } else {
                peer.pending = true;
            }
            return;
        }
        if !left.is_empty() {
            ctx.flag(C03, format!("peer {p}: deletion {name} left {} of {}", show(&left), show(chars)));
        }
        let extra: Vec<Ch> = removed.iter().copied().filter(|c| !chars.contains(c) && !self.deleted_in(op.past, *c)).collect();
        if !extra.is_empty() {
            ctx.flag(C03, format!("peer {p}: deletion {name} of {} also removed {}", show(chars), show(&extra)));
        }
        if ready {
            let early: Vec<Ch> = removed.iter().copied().filter(|c| !chars.contains(c)).collect();
            if !early.is_empty() {
                ctx.flag(C03, format!("peer {p}: deletion {name} of {} also removed {}", show(chars), show(&early)));
            }
        }
        peer.applied |= op.mask();
    }

    /// Was this character deleted by one of these edits?
    fn deleted_in(&self, ops: u128, c: Ch) -> bool {
        self.ops.iter().any(|o| ops & o.mask() != 0 && matches!(&o.kind, Kind::Del { chars, .. } if chars.contains(&c)))
    }

    pub fn drain_ins(&self, ctx: &mut Ctx, p: usize, peer: &mut Peer, max: u8) {
        if !ctx.env.eager {
            peer.hist = mix(mix(peer.hist, 4), max as u64);
        }
        let k = ctx.env.k;
        called();
        let items = {
            let rep = &mut peer.rep;
            match guard(|| {
                let mut it = rep.backlogged_insertions();
                if max == 255 {
                    let all = it.by_ref().collect::<Vec<_>>();
                    assert!(it.next().is_none(), "it goes on after its end");
                    all
                } else {
                    it.take(max as usize).collect::<Vec<_>>()
                }
            }) {
                Ok(v) => v,
                Err(e) => return ctx.flag(FATAL, format!("peer {p}: backlogged_insertions panicked: {e}")),
            }
        };
        for (text, off) in items {
            let found = self.ops.iter().find(|o| match &o.kind {
                Kind::Ins { obj, .. } => *obj.text() == text,
                _ => false,
            });
            let Some(op) = found else {
                return ctx.flag(FATAL, format!("peer {p}: backlogged_insertions yielded text {text:?} that nobody inserted"));
            };
            if peer.applied & op.mask() != 0 {
                return ctx.flag(FATAL, format!("peer {p}: backlogged_insertions yielded {text:?}, which was applied before"));
            }
            if peer.recv & op.mask() == 0 {
                return ctx.flag(FATAL, format!("peer {p}: backlogged_insertions yielded {text:?}, which was not received"));
            }
            if off % k != 0 || off / k > peer.buf.len() {
                return ctx.flag(FATAL, format!("peer {p}: backlogged_insertions yielded offset {off} in a text of length {}", peer.buf.len() * k));
            }
            let Kind::Ins { start, len, obj, .. } = &op.kind else { unreachable!() };
            if hash_of(&text) != hash_of(obj.text()) || text.temporal_range() != obj.text().temporal_range() || text.inserted_by() != obj.inserted_by() {
                return ctx.flag(C14 | C05, format!("peer {p}: backlogged_insertions yielded {text:?}, which is not the same key as {:?}", obj.text()));
            }
            splice_in(&mut peer.buf, off / k, op.author, *start, *len);
            peer.applied |= op.mask();
            if !subsequence(&peer.buf, &self.shadow.order) {
                ctx.flag(C02 | C05, format!("peer {p} shows {} after taking {text:?} from the backlog, but the order of all text is {}", show(&peer.buf), show(&self.shadow.order)));
            }
        }
    }

    pub fn drain_del(&self, ctx: &mut Ctx, p: usize, peer: &mut Peer, max: u8) {
        if !ctx.env.eager {
            peer.hist = mix(mix(peer.hist, 5), max as u64);
        }
        called();
        let items = {
            let rep = &mut peer.rep;
            match guard(|| {
                let mut it = rep.backlogged_deletions();
                if max == 255 {
                    let all = it.by_ref().collect::<Vec<_>>();
                    assert!(it.next().is_none(), "it goes on after its end");
                    all
                } else {
                    it.take(max as usize).collect::<Vec<_>>()
                }
            }) {
                Ok(v) => v,
                Err(e) => return ctx.flag(FATAL, format!("peer {p}: backlogged_deletions panicked: {e}")),
            }
        };
        for ranges in items {
            if ranges.is_empty() {
                ctx.flag(C04, format!("peer {p}: backlogged_deletions yielded an empty list of ranges"));
                continue;
            }
            let before = peer.buf.clone();
            let Some(removed) = apply_ranges(ctx, p, &mut peer.buf, &ranges) else { return };
            // Which received deletion was this?
            let mut cands: Vec<&Arc<Op>> = Vec::new();
            for o in &self.ops {
                if peer.recv & o.mask() == 0 || peer.applied & o.mask() != 0 {
                    continue;
                }
                if let Kind::Del { chars, .. } = &o.kind {
                    let all_gone = before.iter().filter(|c| chars.contains(c)).all(|c| removed.contains(c));
                    let nothing_else = removed.iter().all(|c| chars.contains(c) || self.deleted_in(o.past, *c));
                    if all_gone && nothing_else {
                        cands.push(o);
                    }
                }
            }
            if cands.is_empty() {
                ctx.flag(
                    C03 | C05,
                    format!("peer {p}: backlogged_deletions removed {} from {}, which is not what any waiting deletion removes", show(&removed), show(&before)),
                );
            } else if cands.len() == 1 {
                peer.applied |= cands[0].mask();
            } else {
                // Ambiguous: only mark what must have been applied anyway.
                for o in cands {
                    if o.past & !peer.applied == 0 {
                        peer.applied |= o.mask();
                    }
                }
            }
        }
    }

    /// After a complete drain of insertions and then deletions nothing that
    /// was applicable may be left.
    pub fn after_drain(&self, ctx: &mut Ctx, p: usize, peer: &mut Peer) {
        if peer.pending || peer.recv != peer.applied {
            let mut again = true;
            while again {
                again = false;
                for o in &self.ops {
                    let m = o.mask();
                    if peer.recv & m == 0 || peer.applied & m != 0 || o.past & !peer.applied != 0 {
                        continue;
                    }
                    match &o.kind {
                        Kind::Ins { .. } => {
                            ctx.flag(C05 | C01 | C06 | C12, format!("peer {p}: everything insertion {}.{} depends on was received and applied, but a full drain did not yield it", o.author, o.bit as usize % OPS_PER_AUTHOR));
                            return;
                        }
                        Kind::Del { chars, .. } => {
                            let left: Vec<Ch> = peer.buf.iter().copied().filter(|c| chars.contains(c)).collect();
                            if !left.is_empty() {
                                ctx.flag(C05 | C03 | C01 | C06 | C12, format!("peer {p}: everything deletion {}.{} depends on was received and applied, but after a full drain {} is still there", o.author, o.bit as usize % OPS_PER_AUTHOR, show(&left)));
                                return;
                            }
                            peer.applied |= m;
                            again = true;
                        }
                    }
                }
            }
            // and a second drain must find nothing
            let rep = &mut peer.rep;
            called();
            match guard(|| (rep.backlogged_insertions().count(), rep.backlogged_deletions().count())) {
                Ok((0, 0)) => {}
                Ok((i, d)) => ctx.flag(FATAL, format!("peer {p}: right after a complete drain another drain yields {i} insertions and {d} deletions")),
                Err(e) => ctx.flag(FATAL, format!("peer {p}: draining again panicked: {e}")),
            }
            peer.pending = peer.recv != peer.applied;
        }
    }

    /// A full drain at a point where eager mode is off.
    pub fn full_drain(&self, ctx: &mut Ctx, p: usize, peer: &Peer) -> Peer {
        let mut peer = peer.clone();
        self.drain_ins(ctx, p, &mut peer, 255);
        if !ctx.fatal() {
            self.drain_del(ctx, p, &mut peer, 255);
        }
        if !ctx.fatal() {
            self.after_drain(ctx, p, &mut peer);
        }
        if !ctx.fatal() {
            self.check_state(ctx, p, &peer);
        }
        peer
    }

    pub fn join(&mut self, ctx: &mut Ctx, from: usize, how: Join, id: u64) {
        let parent = self.peers[from].clone();
        called();
        let rep = match how {
            Join::Fork => guard(|| parent.rep.fork(id)).map_err(|e| format!("fork panicked: {e}")),
            Join::Decode => guard(|| {
                let bytes = parent.rep.encode().as_bytes().to_vec();
                Replica::decode(id, &EncodedReplica::from_bytes(&bytes))
            })
            .map_err(|e| format!("encode/decode panicked: {e}"))
            .and_then(|r| r.map_err(|e| format!("decoding an encoded replica failed: {e}"))),
        };
        let rep = match rep {
            Ok(r) => r,
            Err(e) => return ctx.flag(FATAL, format!("peer {from}: {e}")),
        };
        if rep.id() != id {
            ctx.flag(C12 | C07 | C14, format!("the replica joined from peer {from} has id {:x} instead of {id:x}", rep.id()));
        }
        let idx = self.peers.len();
        assert!(idx < MAX_PEERS);
        let peer = Peer {
            rep,
            id,
            buf: parent.buf.clone(),
            recv: parent.recv,
            applied: parent.applied,
            next: 0,
            nops: 0,
            hist: mix(mix(parent.hist, 6), how as u64 * 16 + idx as u64),
            pending: parent.pending,
            edits: 0,
        };
        self.peers.push(Arc::new(peer));
        self.joins += 1;
        self.check_peer(ctx, idx);
    }

    /// Anchors at every offset with both biases, made by peer `p` now.
    pub fn make_anchors(&mut self, ctx: &mut Ctx, p: usize) {
        if !ctx.env.anchors {
            return;
        }
        let k = ctx.env.k;
        let peer = &self.peers[p];
        let mut items = Vec::new();
        for off in 0..=peer.buf.len() {
            for bias in [AnchorBias::Left, AnchorBias::Right] {
                let to = match bias {
                    AnchorBias::Left if off == 0 => Ref::Start,
                    AnchorBias::Right if off == peer.buf.len() => Ref::End,
                    AnchorBias::Left => Ref::Char(peer.buf[off - 1]),
                    AnchorBias::Right => Ref::Char(peer.buf[off]),
                };
                called();
                match guard(|| peer.rep.create_anchor(off * k, bias)) {
                    Ok(anchor) => items.push(AnchorItem { anchor, bias, to, offset: off }),
                    Err(e) => {
                        return ctx.flag(FATAL, format!("peer {p}: create_anchor({}, {bias:?}) in a text of length {} panicked: {e}", off * k, peer.buf.len() * k));
                    }
                }
            }
        }
        let set = AnchorSet { peer: p, items };
        self.anchors.push(Arc::new(set));
        let peer = self.peers[p].clone();
        self.check_anchors(ctx, p, &peer);
    }

    // ------------------------------------------------------------ monitors

    pub fn check_peer(&self, ctx: &mut Ctx, p: usize) {
        let peer = self.peers[p].clone();
        self.check_state(ctx, p, &peer);
    }

    /// Everything that must hold of one peer at any time.
    pub fn check_state(&self, ctx: &mut Ctx, p: usize, peer: &Peer) {
        let k = ctx.env.k;
        let len = match guard(|| peer.rep.len()) {
            Ok(l) => l,
            Err(e) => return ctx.flag(FATAL, format!("peer {p}: len() panicked: {e}")),
        };
        if len != peer.buf.len() * k {
            ctx.flag(C04 | C16, format!("peer {p}: the text is {} long but the replica says {len}", peer.buf.len() * k));
        }
        if !subsequence(&peer.buf, &self.shadow.order) {
            ctx.flag(C02, format!("peer {p} shows {} but the order of all text is {}", show(&peer.buf), show(&self.shadow.order)));
        }
        if ctx.env.invariants {
            called();
            if let Err(e) = guard(|| peer.rep.assert_invariants()) {
                ctx.flag(C16, format!("peer {p}: assert_invariants failed: {e}"));
            }
        }
        if ctx.env.anchors {
            self.check_anchors(ctx, p, peer);
        }
    }

    pub fn check_anchors(&self, ctx: &mut Ctx, p: usize, peer: &Peer) {
        if self.anchors.is_empty() || ctx.env.want & (C10 | C11) == 0 {
            return;
        }
        let k = ctx.env.k;
        if !subsequence(&peer.buf, &self.shadow.order) {
            return;
        }
        // visible characters before each position of the total order
        let order = &self.shadow.order;
        let mut before = Vec::with_capacity(order.len());
        let mut n = 0;
        for c in order {
            before.push(n);
            if n < peer.buf.len() && peer.buf[n] == *c {
                n += 1;
            }
        }
        for set in &self.anchors {
            for it in &set.items {
                called();
                let got = match guard(|| peer.rep.resolve_anchor(it.anchor)) {
                    Ok(g) => g,
                    Err(e) => {
                        return ctx.flag(
                            if set.peer == p { C10 | C11 } else { C11 },
                            format!("peer {p}: resolve_anchor of {:?} (made by peer {} at {} bias {:?}, attached to {}) panicked: {e}", it.anchor, set.peer, it.offset * k, it.bias, ref_name(it.to)),
                        );
                    }
                };
                let want = match it.to {
                    Ref::Start => Some(0),
                    Ref::End => Some(peer.buf.len() * k),
                    Ref::Char(c) => {
                        let known = self.op_of(c).is_none_or(|o| peer.applied & o.mask() != 0);
                        if !known {
                            None
                        } else {
                            let i = order.iter().position(|d| *d == c).expect("harness: unknown character");
                            let visible = before[i] < peer.buf.len() && peer.buf[before[i]] == c;
                            Some(match it.bias {
                                AnchorBias::Left => (before[i] + visible as usize) * k,
                                AnchorBias::Right => before[i] * k,
                            })
                        }
                    }
                };
                if got != want {
                    let mask = match (set.peer == p, got, want) {
                        (true, Some(_), Some(_)) => C10,
                        (true, _, _) => C10 | C11,
                        (false, Some(_), Some(_)) => C10 | C11,
                        (false, _, _) => C11,
                    };
                    ctx.flag(
                        mask,
                        format!(
                            "peer {p} with text {} (order of all text {}): anchor made by peer {} at offset {} with bias {:?}, attached to {}, resolves to {got:?} instead of {want:?}",
                            show(&peer.buf),
                            show(order),
                            set.peer,
                            it.offset * k,
                            it.bias,
                            ref_name(it.to)
                        ),
                    );
                    return;
                }
            }
        }
    }

    /// The text a peer must show once it has applied exactly these edits
    /// (which contain everything they depend on).
    pub fn expected(&self, recv: u128) -> Vec<Ch> {
        let mut gone: Vec<Ch> = Vec::new();
        for o in &self.ops {
            if recv & o.mask() != 0 {
                if let Kind::Del { chars, .. } = &o.kind {
                    gone.extend(chars.iter());
                }
            }
        }
        self.shadow
            .order
            .iter()
            .copied()
            .filter(|c| {
                !gone.contains(c)
                    && self.op_of(*c).is_none_or(|o| recv & o.mask() != 0)
                    && self.dead.binary_search(c).is_err()
            })
            .collect()
    }

    /// Checks a peer that has drained and whose received edits are causally
    /// complete: it must show exactly the live characters, each once.
    pub fn check_complete(&self, ctx: &mut Ctx, p: usize, peer: &Peer) {
        let mut want = self.expected(peer.recv);
        if want == peer.buf {
            return;
        }
        want.sort_unstable();
        let mut have = peer.buf.clone();
        have.sort_unstable();
        let n = have.len();
        have.dedup();
        if have.len() != n {
            ctx.flag(C05 | C06 | C01, format!("peer {p} shows some text twice: {}", show(&peer.buf)));
        }
        let missing: Vec<Ch> = want.iter().copied().filter(|c| have.binary_search(c).is_err()).collect();
        let undead: Vec<Ch> = have.iter().copied().filter(|c| want.binary_search(c).is_err()).collect();
        if !missing.is_empty() {
            ctx.flag(C03 | C05 | C12, format!("peer {p} has received everything, but shows {} without {}", show(&peer.buf), show(&missing)));
        }
        if !undead.is_empty() {
            ctx.flag(C03 | C05 | C12, format!("peer {p} has received everything, but still shows deleted {}", show(&undead)));
        }
    }

    /// Pairs of blocks typed forward concurrently by different authors.
    pub fn block_pairs(&self) -> Vec<(u128, u128)> {
        let chains = self.typed_chains();
        let mut out = Vec::new();
        for (xi, x) in chains.iter().enumerate() {
            for y in chains.iter().skip(xi + 1) {
                if x[0].author == y[0].author {
                    continue;
                }
                let xm = x.iter().fold(0u128, |m, o| m | o.mask());
                let ym = y.iter().fold(0u128, |m, o| m | o.mask());
                if x.iter().any(|o| o.past & ym != 0) || y.iter().any(|o| o.past & xm != 0) {
                    continue;
                }
                out.push((xm, ym));
            }
        }
        out
    }

    /// None of these pairs of blocks may interleave in `text`.
    pub fn check_blocks(&self, ctx: &mut Ctx, what: &str, text: &[Ch], pairs: &[(u128, u128)]) {
        for &(xm, ym) in pairs {
            {
                // switches between the two blocks while reading the text
                let mut last = 0;
                let mut switches = 0;
                for c in text {
                    let Some(o) = self.op_of(*c) else { continue };
                    let side = if xm & o.mask() != 0 {
                        1
                    } else if ym & o.mask() != 0 {
                        2
                    } else {
                        continue;
                    };
                    if last != 0 && side != last {
                        switches += 1;
                    }
                    last = side;
                }
                if switches > 1 {
                    ctx.flag(C15, format!("{what} shows {}, which interleaves text typed concurrently by peers {} and {}", show(text), xm.trailing_zeros() as usize / OPS_PER_AUTHOR, ym.trailing_zeros() as usize / OPS_PER_AUTHOR));
                    return;
                }
            }
        }
    }

    /// All contiguous sub-sequences of insertions typed one after the other.
    fn typed_chains(&self) -> Vec<Vec<Arc<Op>>> {
        let mut out = Vec::new();
        for a in 0..self.peers.len() {
            let mine: Vec<&Arc<Op>> = self.ops.iter().filter(|o| o.author == a && o.is_ins()).collect();
            for i in 0..mine.len() {
                let mut chain = vec![mine[i].clone()];
                out.push(chain.clone());
                for next in mine.iter().skip(i + 1) {
                    let (Kind::Ins { start, len, .. }, Kind::Ins { after, .. }) = (&chain.last().unwrap().kind, &next.kind) else { unreachable!() };
                    if *after != Some(ch(a, start + len - 1)) {
                        break;
                    }
                    chain.push((*next).clone());
                    out.push(chain.clone());
                }
            }
        }
        out
    }

    /// Causally ordered delivery of everything to one peer.
    pub fn pull(&mut self, ctx: &mut Ctx, p: usize) {
        loop {
            let peer = self.peers[p].clone();
            let next = self.ops.iter().find(|o| peer.recv & o.mask() == 0 && o.past & !peer.recv == 0);
            let Some(o) = next else { return };
            let bit = o.bit;
            let new = self.deliver(ctx, p, &peer, bit);
            if ctx.fatal() {
                return;
            }
            self.peers[p] = Arc::new(new);
        }
    }

    /// Everything delivered to everybody; edits are forgotten.
    pub fn sync(&mut self, ctx: &mut Ctx) {
        for p in 0..self.peers.len() {
            self.pull(ctx, p);
            if ctx.fatal() {
                return;
            }
            let peer = self.peers[p].clone();
            if peer.recv != peer.applied {
                return ctx.flag(FATAL, format!("peer {p} did not apply every edit delivered in causal order"));
            }
        }
        let q = self.peers[0].buf.clone();
        for p in 1..self.peers.len() {
            if self.peers[p].buf != q {
                ctx.flag(C01, format!("peers 0 and {p} received the same edits but show {} and {}", show(&q), show(&self.peers[p].buf)));
                return;
            }
        }
        let want = self.expected(self.all_ops());
        if q != want && ctx.viols.is_empty() {
            ctx.flag(C02 | C03, format!("everything was delivered but the peers show {} instead of {}", show(&q), show(&want)));
        }
        let dead = Arc::make_mut(&mut self.dead);
        for o in &self.ops {
            if let Kind::Del { chars, .. } = &o.kind {
                dead.extend(chars.iter());
            }
        }
        dead.sort_unstable();
        self.ops.clear();
        for p in self.peers.iter_mut() {
            let p = Arc::make_mut(p);
            p.recv = 0;
            p.applied = 0;
            p.nops = 0;
            p.pending = false;
        }
    }
}

pub fn ref_name(r: Ref) -> String {
    match r {
        Ref::Start => "the start".into(),
        Ref::End => "the end".into(),
        Ref::Char(c) => show(&[c]),
    }
}

fn kind_of(first: bool, applied: bool) -> &'static str {
    match (first, applied) {
        (true, _) => "first delivery",
        (false, true) => "redelivery of an applied edit",
        (false, false) => "redelivery of a backlogged edit",
    }
}

/// Applies returned ranges to the buffer, last first, after checking them.
fn apply_ranges(ctx: &mut Ctx, p: usize, buf: &mut Vec<Ch>, ranges: &[std::ops::Range<usize>]) -> Option<Vec<Ch>> {
    let k = ctx.env.k;
    let len = buf.len() * k;
    let mut ok = true;
    for (i, r) in ranges.iter().enumerate() {
        if r.start > r.end || r.end > len || r.start % k != 0 || r.end % k != 0 {
            ctx.flag(FATAL, format!("peer {p}: ranges {ranges:?} are not ranges of a text of length {len}"));
            return None;
        }
        if r.start == r.end {
            ctx.flag(C04, format!("peer {p}: ranges {ranges:?} contain an empty range"));
        }
        if i > 0 {
            let q = &ranges[i - 1];
            if q.end > r.start {
                ctx.flag(FATAL, format!("peer {p}: ranges {ranges:?} are not in ascending order"));
                return None;
            }
            if q.end == r.start {
                ctx.flag(C04, format!("peer {p}: ranges {ranges:?} touch each other"));
                ok = false;
            }
        }
    }
    let _ = ok;
    let mut removed = Vec::new();
    for r in ranges.iter().rev() {
        removed.extend(buf.drain(r.start / k..r.end / k));
    }
    Some(removed)
}
