//! Exhaustive exploration of the bounded state space of a configuration.
//!
//! A history is cut into blocks: some deliveries (and drains) at one peer
//! followed by one local edit or join there. Every history of the bounded
//! system is equivalent to one of this form, because deliveries at different
//! peers commute. After every block, every order of the deliveries that are
//! still possible is explored at every peer ("finish"), which also covers all
//! schedules in which no further edit follows. Nodes are deduplicated on the
//! tuple of the peers' own histories, which determines their states exactly.

use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pos {
    All,
    /// Multiples of a step, and the ends.
    Step(u32),
    /// Start, second, middle, last but one, end, and after the last own text.
    Few,
    /// The end of the document only.
    End,
    /// The first insertion anywhere, later ones right after the previous one.
    Typed,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dels {
    No,
    All,
    MaxLen(u32),
    /// Both ends multiples of a step (or the ends of the text).
    Step(u32),
    /// First, last, middle character, first half, last half, everything.
    Few,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum EditRecv {
    /// Edits are made without receiving anything first.
    None,
    /// Before an edit any causally closed set of edits is received, in the
    /// order in which they were made.
    Canonical,
    /// Like Canonical, but in every order the delivery mode allows, with
    /// duplicates and drains.
    All,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Recv {
    /// Edits arrive after those they depend on.
    Causal,
    /// Edits arrive in any order.
    Any,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Drain {
    /// Both backlogs are drained after every delivery.
    Eager,
    /// Up to n explicit complete or partial drains at any moment, and a
    /// complete one at the end.
    Explicit(u8),
}

pub type Visit = fn(&Cfg, &World, usize, &Peer, &mut Ctx);

#[derive(Clone)]
pub struct Cfg {
    pub name: String,
    pub ids: Vec<u64>,
    pub join_ids: Vec<u64>,
    pub init: u32,
    pub k: usize,
    pub seed: Vec<Act>,
    pub edits: u16,
    pub per_peer: u16,
    pub editors: u32,
    pub lens: &'static [u32],
    pub pos: Pos,
    pub dels: Dels,
    pub max_dels: u8,
    /// Whether edits of nothing count among the edits.
    pub noops: bool,
    pub edit_recv: EditRecv,
    pub recv: Recv,
    pub dup: u8,
    pub drain: Drain,
    pub joins: u8,
    pub live: bool,
    /// Peers at which all delivery orders are explored.
    pub finishers: u32,
    /// Only finish nodes with all edits made.
    pub finish_last: bool,
    pub invariants: bool,
    pub anchors: bool,
    /// Whether the seed's edits leave anchors behind, too.
    pub anchor_seed: bool,
    pub visit: Option<Visit>,
    /// Only visit (not check) below this many edits.
    pub visit_from: u16,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            name: String::new(),
            ids: vec![1, 2],
            join_ids: vec![],
            init: 2,
            k: 1,
            seed: vec![],
            edits: 2,
            per_peer: 15,
            editors: u32::MAX,
            lens: &[1],
            pos: Pos::All,
            dels: Dels::All,
            max_dels: 255,
            noops: false,
            edit_recv: EditRecv::Canonical,
            recv: Recv::Causal,
            dup: 0,
            drain: Drain::Eager,
            joins: 0,
            live: false,
            finishers: u32::MAX,
            finish_last: false,
            invariants: false,
            anchors: false,
            anchor_seed: false,
            visit: None,
            visit_from: 0,
        }
    }
}

impl Cfg {
    pub fn env(&self, want: Mask) -> Env {
        Env { k: self.k, eager: self.drain == Drain::Eager, invariants: self.invariants, anchors: self.anchors, want }
    }
}

// --------------------------------------------------------------- bookkeeping

pub struct Link {
    pub prev: Option<Arc<Link>>,
    pub acts: Vec<Act>,
}

fn unroll(l: &Option<Arc<Link>>) -> Vec<Act> {
    let mut parts = Vec::new();
    let mut cur = l.clone();
    while let Some(x) = cur {
        parts.push(x.acts.clone());
        cur = x.prev.clone();
    }
    parts.into_iter().rev().flatten().collect()
}

#[derive(Clone)]
pub struct Node {
    pub world: World,
    pub path: Option<Arc<Link>>,
}

/// A node on its way to another thread. Nothing in it is shared with the
/// nodes that stay behind, other than what has no replica in it: replicas
/// that remember things when asked (and so are not `Sync`) may be explored
/// too.
struct Parcel(Node);
unsafe impl Send for Parcel {}
impl Parcel {
    fn pack(mut n: Node) -> Self {
        n.world.unshare();
        Parcel(n)
    }
}

#[derive(Default)]
struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.0 ^= u64::from_le_bytes(x);
        }
    }
    fn write_u128(&mut self, i: u128) {
        self.0 = (i as u64) ^ ((i >> 64) as u64);
    }
}
type FastSet = HashSet<u128, BuildHasherDefault<IdHasher>>;

pub struct Seen {
    shards: Vec<Mutex<FastSet>>,
}
impl Seen {
    fn new() -> Self {
        Seen { shards: (0..256).map(|_| Mutex::new(FastSet::default())).collect() }
    }
    fn insert(&self, k: u128) -> bool {
        self.shards[(k >> 120) as usize].lock().unwrap().insert(k)
    }
}

#[derive(Clone, Debug)]
pub struct Found {
    pub cfg: String,
    pub acts: Vec<Act>,
    pub msg: String,
    pub state: String,
}

#[derive(Default)]
pub struct Stats {
    pub nodes: AtomicU64,
    pub states: AtomicU64,
    pub histories: AtomicU64,
    pub dedup: AtomicU64,
    pub visits: AtomicU64,
    /// Edits, deliveries, drains and joins executed.
    pub transitions: AtomicU64,
}

pub struct Slot {
    pub cur: Mutex<(Option<Arc<Link>>, String)>,
    pub beat: AtomicU64,
    pub busy: AtomicBool,
}

pub struct Run {
    pub want: Mask,
    pub stats: Stats,
    pub found: Mutex<Option<Found>>,
    pub stop: AtomicBool,
    pub slots: Vec<Slot>,
    pub threads: usize,
    pub samples: Mutex<Vec<String>>,
}

impl Run {
    pub fn new(want: Mask, threads: usize) -> Arc<Run> {
        Arc::new(Run {
            want,
            stats: Stats::default(),
            found: Mutex::new(None),
            stop: AtomicBool::new(false),
            slots: (0..threads)
                .map(|_| Slot { cur: Mutex::new((None, String::new())), beat: AtomicU64::new(0), busy: AtomicBool::new(false) })
                .collect(),
            threads,
            samples: Mutex::new(Vec::new()),
        })
    }

    /// Something that never returns is a violation too.
    pub fn watchdog(self: &Arc<Run>, on_hang: fn(&str, Vec<Act>, String)) {
        let run = self.clone();
        std::thread::spawn(move || {
            let mut last: Vec<(u64, Instant)> = run.slots.iter().map(|_| (0, Instant::now())).collect();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                for (i, s) in run.slots.iter().enumerate() {
                    let b = s.beat.load(Relaxed);
                    if b != last[i].0 || !s.busy.load(Relaxed) {
                        last[i] = (b, Instant::now());
                    } else if last[i].1.elapsed() > Duration::from_secs(90) {
                        let (l, n) = s.cur.lock().unwrap().clone();
                        on_hang(&n, unroll(&l), "a call into the library does not return".into());
                    }
                }
                let rss = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096;
                if rss > 24 << 30 {
                    let (l, n) = run.slots[0].cur.lock().unwrap().clone();
                    on_hang(&n, unroll(&l), "memory use grows without bound".into());
                }
            }
        });
    }
}

thread_local! {
    static THREAD: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

pub struct Explorer<'a> {
    pub cfg: &'a Cfg,
    pub run: &'a Run,
    seen: Seen,
    queue: Mutex<Vec<Parcel>>,
    idle: AtomicUsize,
    pending: AtomicUsize,
}

/// A state of one peer after some deliveries.
struct Block {
    peer: Arc<Peer>,
    acts: Vec<Act>,
    canonical: bool,
}

impl<'a> Explorer<'a> {
    pub fn new(cfg: &'a Cfg, run: &'a Run) -> Self {
        Explorer { cfg, run, seen: Seen::new(), queue: Mutex::new(Vec::new()), idle: AtomicUsize::new(0), pending: AtomicUsize::new(0) }
    }

    fn ctx(&self) -> Ctx {
        Ctx::new(self.cfg.env(self.run.want))
    }

    /// Reports a wanted violation; returns whether to give up on this branch.
    fn bad(&self, ctx: &Ctx, path: &Option<Arc<Link>>, extra: &[Act], w: &World) -> bool {
        if ctx.viols.is_empty() {
            return false;
        }
        if let Some(v) = ctx.reported() {
            let mut f = self.run.found.lock().unwrap();
            if f.is_none() {
                let mut acts = unroll(path);
                acts.extend_from_slice(extra);
                *f = Some(Found { cfg: self.cfg.name.clone(), acts, msg: v.msg.clone(), state: w.describe() });
            }
            self.run.stop.store(true, SeqCst);
            return true;
        }
        ctx.fatal()
    }

    /// Builds the initial node, executing the seed with all monitors on.
    pub fn initial(&self) -> Option<Node> {
        let mut ctx = self.ctx();
        let mut world = match World::new(&self.cfg.ids, self.cfg.init, self.cfg.k) {
            Ok(w) => w,
            Err(e) => {
                *self.run.found.lock().unwrap() = Some(Found { cfg: self.cfg.name.clone(), acts: vec![], msg: format!("creating replicas panicked: {e}"), state: String::new() });
                self.run.stop.store(true, SeqCst);
                return None;
            }
        };
        let mut done = Vec::new();
        ctx.env.anchors &= self.cfg.anchor_seed;
        ctx.env.eager = true;
        for p in 0..world.peers.len() {
            world.check_peer(&mut ctx, p);
        }
        for a in &self.cfg.seed {
            done.push(*a);
            apply(self.cfg, &mut world, &mut ctx, *a);
            if self.bad(&ctx, &None, &done, &world) {
                return None;
            }
            ctx.viols.clear();
        }
        world.edits = 0;
        world.joins = 0;
        for p in world.peers.iter_mut() {
            Arc::make_mut(p).edits = 0;
        }
        ctx.env = self.cfg.env(self.run.want);
        if !self.cfg.anchor_seed {
            world.anchors.clear();
        }
        for p in 0..world.peers.len() {
            world.make_anchors(&mut ctx, p);
        }
        if self.bad(&ctx, &None, &done, &world) {
            return None;
        }
        Some(Node { world, path: Some(Arc::new(Link { prev: None, acts: done })) })
    }

    pub fn explore(&self) {
        self.run.slots[0].busy.store(true, SeqCst);
        let first = self.initial();
        self.run.slots[0].busy.store(false, SeqCst);
        let Some(first) = first else { return };
        self.seen.insert(first.world.key());
        self.pending.store(1, SeqCst);
        self.queue.lock().unwrap().push(Parcel::pack(first));
        std::thread::scope(|s| {
            for t in 0..self.run.threads {
                s.spawn(move || {
                    THREAD.with(|x| x.set(t));
                    self.worker(t);
                    flush_calls();
                });
            }
        });
    }

    fn worker(&self, t: usize) {
        let slot = &self.run.slots[t];
        let mut local: Vec<Node> = Vec::new();
        loop {
            if self.run.stop.load(Relaxed) {
                break;
            }
            let node = match local.pop() {
                Some(n) => n,
                None => {
                    let mut q = self.queue.lock().unwrap();
                    match q.pop() {
                        Some(Parcel(n)) => n,
                        None => {
                            drop(q);
                            if self.pending.load(SeqCst) == 0 {
                                break;
                            }
                            self.idle.fetch_add(1, SeqCst);
                            std::thread::sleep(Duration::from_micros(100));
                            self.idle.fetch_sub(1, SeqCst);
                            continue;
                        }
                    }
                }
            };
            {
                let mut c = slot.cur.lock().unwrap();
                c.0 = node.path.clone();
                if c.1 != self.cfg.name {
                    c.1 = self.cfg.name.clone();
                }
            }
            slot.beat.fetch_add(1, Relaxed);
            slot.busy.store(true, Relaxed);
            let kids = match guard(|| self.expand(&node)) {
                Ok(k) => k,
                Err(e) => {
                    if e.contains(" at src/") {
                        // not the library's doing
                        println!("internal error of the harness in {}: {e}", self.cfg.name);
                        std::process::exit(3);
                    }
                    let mut f = self.run.found.lock().unwrap();
                    if f.is_none() {
                        *f = Some(Found { cfg: self.cfg.name.clone(), acts: unroll(&node.path), msg: format!("a call into the library panicked: {e}"), state: node.world.describe() });
                    }
                    drop(f);
                    self.run.stop.store(true, SeqCst);
                    break;
                }
            };
            slot.busy.store(false, Relaxed);
            self.run.stats.nodes.fetch_add(1, Relaxed);
            self.pending.fetch_add(kids.len(), SeqCst);
            self.pending.fetch_sub(1, SeqCst);
            local.extend(kids);
            if local.len() > 1 && self.idle.load(Relaxed) > 0 {
                let half = local.len() / 2;
                let give: Vec<Parcel> = local.drain(..half).map(Parcel::pack).collect();
                self.queue.lock().unwrap().extend(give);
            }
        }
    }

    fn beat(&self) {
        THREAD.with(|t| self.run.slots[t.get()].beat.fetch_add(1, Relaxed));
    }

    /// Explores all deliveries at every peer and returns the new nodes
    /// reached by one further edit or join.
    pub fn expand(&self, node: &Node) -> Vec<Node> {
        let cfg = self.cfg;
        let w = &node.world;
        let last = w.edits >= cfg.edits;
        let mut kids = Vec::new();

        let pairs = if self.run.want & C15 != 0 && !w.ops.is_empty() { w.block_pairs() } else { Vec::new() };
        if !pairs.is_empty() {
            let mut ctx = self.ctx();
            w.check_blocks(&mut ctx, "the order of all text", &w.shadow.order, &pairs);
            if self.bad(&ctx, &node.path, &[], w) {
                return kids;
            }
        }

        // text shown for each causally complete set of received edits
        let mut shown: HashMap<u128, (Vec<Ch>, usize, Vec<Act>)> = HashMap::new();

        for p in 0..w.peers.len() {
            let editor = !last && cfg.editors >> p & 1 == 1 && w.peers[p].edits < cfg.per_peer && (w.peers[p].nops as usize) < OPS_PER_AUTHOR;
            let joiner = w.joins < cfg.joins && w.peers.len() < MAX_PEERS && (w.joins as usize) < cfg.join_ids.len();
            let finish = cfg.finishers >> p & 1 == 1 && (last || !cfg.finish_last);
            let blocks = if cfg.live {
                vec![Block { peer: w.peers[p].clone(), acts: vec![], canonical: true }]
            } else {
                match self.blocks(node, p, finish || cfg.edit_recv == EditRecv::All, cfg.edit_recv != EditRecv::None || finish, &mut shown, &pairs) {
                    Some(b) => b,
                    None => return kids,
                }
            };
            if !editor && !joiner {
                continue;
            }
            for b in &blocks {
                if self.run.stop.load(Relaxed) {
                    return kids;
                }
                let ok = match cfg.edit_recv {
                    EditRecv::None => b.acts.is_empty(),
                    EditRecv::Canonical => b.canonical,
                    EditRecv::All => true,
                };
                if !ok {
                    continue;
                }
                let mut acts = Vec::new();
                if editor {
                    acts.extend(self.edits(w, p, &b.peer));
                }
                if joiner {
                    acts.push(Act::Join { from: p as u8, how: Join::Fork });
                    acts.push(Act::Join { from: p as u8, how: Join::Decode });
                }
                for act in acts {
                    // Key first: it only depends on the histories.
                    let mut world = w.clone();
                    world.peers[p] = b.peer.clone();
                    let mut ctx = self.ctx();
                    apply(cfg, &mut world, &mut ctx, act);
                    self.run.stats.transitions.fetch_add(1, Relaxed);
                    self.beat();
                    let mut acts = b.acts.clone();
                    acts.push(act);
                    if cfg.live && !ctx.fatal() {
                        if self.bad(&ctx, &node.path, &acts, &world) {
                            return kids;
                        }
                        acts.push(Act::Sync);
                        // keep a copy for the report, sync forgets the edits
                        world.sync(&mut ctx);
                        for q in 0..world.peers.len() {
                            let peer = Arc::make_mut(&mut world.peers[q]);
                            peer.hist = mix(peer.hist, 77 + q as u64);
                        }
                    }
                    if self.bad(&ctx, &node.path, &acts, &world) {
                        if self.run.stop.load(Relaxed) {
                            return kids;
                        }
                        continue;
                    }
                    if let (Some(visit), true) = (cfg.visit, cfg.live) {
                        if world.edits >= cfg.visit_from {
                            for q in 0..world.peers.len() {
                                let mut ctx = self.ctx();
                                visit(cfg, &world, q, &world.peers[q], &mut ctx);
                                self.run.stats.visits.fetch_add(1, Relaxed);
                                if self.bad(&ctx, &node.path, &acts, &world) {
                                    return kids;
                                }
                            }
                        }
                    }
                    if !self.seen.insert(world.key()) {
                        self.run.stats.dedup.fetch_add(1, Relaxed);
                        continue;
                    }
                    self.run.stats.states.fetch_add(1, Relaxed);
                    if cfg.live {
                        self.run.stats.histories.fetch_add(1, Relaxed);
                        if world.edits >= cfg.edits && world.joins >= cfg.joins {
                            self.run.stats.nodes.fetch_add(1, Relaxed);
                            self.sample(node, &acts);
                            continue;
                        }
                    }
                    kids.push(Node { world, path: Some(Arc::new(Link { prev: node.path.clone(), acts })) });
                }
            }
        }
        kids
    }

    fn sample(&self, node: &Node, acts: &[Act]) {
        let n = self.run.stats.histories.load(Relaxed);
        if n % 99991 != 1 {
            return;
        }
        let mut s = self.run.samples.lock().unwrap();
        if s.len() < 24 {
            let mut all = unroll(&node.path);
            all.extend_from_slice(acts);
            let skip = self.cfg.seed.len();
            let text: Vec<String> = all.iter().skip(skip).map(|a| a.text()).collect();
            s.push(format!("{}: {}", self.cfg.name, text.join("; ")));
        }
    }

    /// All local edits a peer may make.
    fn edits(&self, w: &World, p: usize, peer: &Peer) -> Vec<Act> {
        let cfg = self.cfg;
        let n = peer.buf.len() as u32;
        let pu = p as u8;
        let mut out = Vec::new();
        let after_own = || peer.buf.iter().rposition(|c| ch_author(*c) == p && ch_idx(*c) + 1 == peer.next).map(|i| i as u32 + 1);
        let positions: Vec<u32> = match cfg.pos {
            Pos::All => (0..=n).collect(),
            Pos::Step(s) => (0..=n).filter(|x| x % s == 0 || *x + 1 >= n || *x == 1).collect(),
            Pos::Few => {
                let mut v = vec![0, 1.min(n), n / 2, n.saturating_sub(1), n];
                v.extend(after_own());
                v.sort_unstable();
                v.dedup();
                v
            }
            Pos::End => vec![n],
            Pos::Typed => {
                if w.ops.iter().any(|o| o.author == p && o.is_ins()) {
                    after_own().into_iter().collect()
                } else {
                    (0..=n).collect()
                }
            }
        };
        for len in cfg.lens {
            for at in &positions {
                out.push(Act::Ins { p: pu, at: *at, len: *len });
            }
        }
        if cfg.noops {
            for del in [false, true] {
                for at in &positions {
                    out.push(Act::Noop { p: pu, at: *at, del });
                }
            }
        }
        let ndels = w.ops.iter().filter(|o| !o.is_ins()).count();
        if ndels < cfg.max_dels as usize {
            match cfg.dels {
                Dels::No => {}
                Dels::All | Dels::MaxLen(_) => {
                    let max = if let Dels::MaxLen(m) = cfg.dels { m } else { n };
                    for a in 0..n {
                        for b in a + 1..=n.min(a + max) {
                            out.push(Act::Del { p: pu, a, b });
                        }
                    }
                }
                Dels::Step(s) => {
                    let pts: Vec<u32> = (0..=n).filter(|x| x % s == 0 || *x == n || *x == 1 || *x + 1 == n).collect();
                    for (i, a) in pts.iter().enumerate() {
                        for b in &pts[i + 1..] {
                            out.push(Act::Del { p: pu, a: *a, b: *b });
                        }
                    }
                }
                Dels::Few => {
                    if n > 0 {
                        let mut v = vec![(0, 1), (n - 1, n), (n / 2, n / 2 + 1), (0, n.div_ceil(2)), (n / 2, n), (0, n), (n / 4, (n - n / 4).max(n / 4 + 1))];
                        v.sort_unstable();
                        v.dedup();
                        out.extend(v.into_iter().map(|(a, b)| Act::Del { p: pu, a, b }));
                    }
                }
            }
        }
        out
    }

    /// All delivery sequences at peer `p`. `None` when exploration stops.
    fn blocks(
        &self,
        node: &Node,
        p: usize,
        all: bool,
        any: bool,
        shown: &mut HashMap<u128, (Vec<Ch>, usize, Vec<Act>)>,
        pairs: &[(u128, u128)],
    ) -> Option<Vec<Block>> {
        let cfg = self.cfg;
        let w = &node.world;
        let mut out = Vec::new();
        let first = Block { peer: w.peers[p].clone(), acts: vec![], canonical: true };
        let mut stack: Vec<(Block, u8, u8)> = vec![(first, cfg.dup, if let Drain::Explicit(n) = cfg.drain { n } else { 0 })];
        while let Some((b, dups, drains)) = stack.pop() {
            if self.run.stop.load(Relaxed) {
                return None;
            }
            self.beat();
            // what can happen next
            if any {
                let last_pos = match b.acts.last() {
                    Some(Act::Deliver { op, .. }) => w.ops.iter().position(|o| o.bit == *op).map(|x| x + 1).unwrap_or(0),
                    _ => 0,
                };
                let mut leaf = true;
                for (i, o) in w.ops.iter().enumerate() {
                    let got = b.peer.recv & o.mask() != 0;
                    let mut canonical = b.canonical;
                    let (mut d2, dr2) = (dups, drains);
                    if got {
                        if dups == 0 || !all {
                            continue;
                        }
                        d2 -= 1;
                        canonical = false;
                    } else {
                        let causal = o.past & !b.peer.recv == 0;
                        if cfg.recv == Recv::Causal && !causal {
                            continue;
                        }
                        if !causal || i < last_pos {
                            canonical = false;
                        }
                        leaf = false;
                    }
                    if !all && !canonical {
                        continue;
                    }
                    let act = Act::Deliver { p: p as u8, op: o.bit };
                    let mut ctx = self.ctx();
                    let peer = w.deliver(&mut ctx, p, &b.peer, o.bit);
                    self.run.stats.transitions.fetch_add(1, Relaxed);
                    let mut acts = b.acts.clone();
                    acts.push(act);
                    if self.bad(&ctx, &node.path, &acts, w) {
                        if self.run.stop.load(Relaxed) {
                            return None;
                        }
                        continue;
                    }
                    stack.push((Block { peer: Arc::new(peer), acts, canonical }, d2, dr2));
                }
                if drains > 0 && b.peer.pending && all {
                    for act in [
                        Act::DrainIns { p: p as u8, n: 255 },
                        Act::DrainDel { p: p as u8, n: 255 },
                        Act::DrainIns { p: p as u8, n: 1 },
                        Act::DrainDel { p: p as u8, n: 1 },
                    ] {
                        let mut peer = (*b.peer).clone();
                        let before = (peer.buf.clone(), peer.applied);
                        let mut ctx = self.ctx();
                        match act {
                            Act::DrainIns { n, .. } => w.drain_ins(&mut ctx, p, &mut peer, n),
                            Act::DrainDel { n, .. } => w.drain_del(&mut ctx, p, &mut peer, n),
                            _ => {}
                        }
                        self.run.stats.transitions.fetch_add(1, Relaxed);
                        if !ctx.fatal() {
                            w.check_state(&mut ctx, p, &peer);
                        }
                        let mut acts = b.acts.clone();
                        acts.push(act);
                        if self.bad(&ctx, &node.path, &acts, w) {
                            if self.run.stop.load(Relaxed) {
                                return None;
                            }
                            continue;
                        }
                        if before == (peer.buf.clone(), peer.applied) {
                            // nothing was yielded: same state as without it
                            continue;
                        }
                        stack.push((Block { peer: Arc::new(peer), acts, canonical: false }, dups, drains - 1));
                    }
                }
                if leaf {
                    self.run.stats.histories.fetch_add(1, Relaxed);
                    self.sample(node, &b.acts);
                }
            }
            self.run.stats.states.fetch_add(1, Relaxed);

            // checks on this state of the peer
            let mut ctx = self.ctx();
            let drained;
            let view: &Peer = if cfg.drain == Drain::Eager {
                &b.peer
            } else {
                drained = w.full_drain(&mut ctx, p, &b.peer);
                &drained
            };
            if !ctx.fatal() && w.closed(view.recv) {
                w.check_complete(&mut ctx, p, view);
                if !pairs.is_empty() {
                    w.check_blocks(&mut ctx, &format!("peer {p}"), &view.buf, pairs);
                }
                if let Some((buf, q, acts)) = shown.get(&view.recv) {
                    if *buf != view.buf {
                        let dup = |a: &[Act]| a.iter().enumerate().any(|(i, x)| matches!(x, Act::Deliver { .. }) && a[..i].contains(x));
                        let mut mask = C01 | C12;
                        if dup(acts) || dup(&b.acts) {
                            mask |= C06;
                        }
                        if cfg.recv == Recv::Any {
                            mask |= C05;
                        }
                        ctx.flag(
                            mask,
                            format!("peers {q} and {p} received the same edits ({:x}) but show {} and {}", view.recv, show(buf), show(&view.buf)),
                        );
                        let mut all = if *q == p { vec![] } else { acts.clone() };
                        all.extend_from_slice(&b.acts);
                        if self.bad(&ctx, &node.path, &all, w) {
                            return None;
                        }
                    }
                } else {
                    shown.insert(view.recv, (view.buf.clone(), p, b.acts.clone()));
                }
            }
            if self.bad(&ctx, &node.path, &b.acts, w) {
                if self.run.stop.load(Relaxed) {
                    return None;
                }
                continue;
            }
            if let Some(visit) = cfg.visit {
                if w.edits >= cfg.visit_from {
                    let mut ctx = self.ctx();
                    visit(cfg, w, p, &b.peer, &mut ctx);
                    self.run.stats.visits.fetch_add(1, Relaxed);
                    if self.bad(&ctx, &node.path, &b.acts, w) {
                        return None;
                    }
                }
            }
            out.push(b);
        }
        Some(out)
    }
}

/// Executes one action on a world.
pub fn apply(cfg: &Cfg, w: &mut World, ctx: &mut Ctx, act: Act) {
    match act {
        Act::Ins { p, at, len } => w.insert(ctx, p as usize, at, len),
        Act::Del { p, a, b } => w.delete(ctx, p as usize, a, b),
        Act::Deliver { p, op } => {
            let peer = w.peers[p as usize].clone();
            let new = w.deliver(ctx, p as usize, &peer, op);
            w.peers[p as usize] = Arc::new(new);
        }
        Act::DrainIns { p, n } => {
            let mut peer = (*w.peers[p as usize]).clone();
            w.drain_ins(ctx, p as usize, &mut peer, n);
            w.peers[p as usize] = Arc::new(peer);
        }
        Act::DrainDel { p, n } => {
            let mut peer = (*w.peers[p as usize]).clone();
            w.drain_del(ctx, p as usize, &mut peer, n);
            w.peers[p as usize] = Arc::new(peer);
        }
        Act::Join { from, how } => {
            let id = cfg.join_ids[w.joins as usize];
            w.join(ctx, from as usize, how, id);
        }
        Act::Sync => w.sync(ctx),
        Act::Pull { p } => w.pull(ctx, p as usize),
        Act::Noop { p, at, del } => w.noop(ctx, p as usize, at, del),
        Act::Boost { bits } => w.boost(ctx, bits),
        Act::Prepends { n } => w.prepends(ctx, n),
        Act::Eat { p, n } => w.eat(ctx, p as usize, n),
    }
}

/// Re-executes a history with all monitors on, printing what happens.
pub fn replay(cfg: &Cfg, acts: &[Act], want: Mask) -> Vec<Viol> {
    let env = cfg.env(want);
    let mut all = Vec::new();
    let mut w = match World::new(&cfg.ids, cfg.init, cfg.k) {
        Ok(w) => w,
        Err(e) => {
            println!("creating replicas panicked: {e}");
            return vec![Viol { mask: FATAL, msg: e }];
        }
    };
    for (i, a) in acts.iter().enumerate() {
        let mut ctx = Ctx::new(env);
        if i < cfg.seed.len() {
            ctx.env.anchors &= cfg.anchor_seed;
            ctx.env.eager = true;
        } else if i == cfg.seed.len() {
            if !cfg.anchor_seed {
                w.anchors.clear();
            }
            for p in 0..w.peers.len() {
                w.make_anchors(&mut ctx, p);
            }
        }
        println!("> {}", a.text());
        apply(cfg, &mut w, &mut ctx, *a);
        for v in &ctx.viols {
            println!("  !! [{}] {}", mask_names(v.mask), v.msg);
        }
        all.extend(ctx.viols.iter().cloned());
        if ctx.fatal() {
            break;
        }
    }
    print!("{}", w.describe());
    if !all.iter().any(|v| v.mask == FATAL) {
        let ex_run = Run::new(want, 1);
        let ex = Explorer::new(cfg, &ex_run);
        let node = Node { world: w.clone(), path: None };
        let pairs = w.block_pairs();
        let mut ctx = Ctx::new(env);
        w.check_blocks(&mut ctx, "the order of all text", &w.shadow.order, &pairs);
        let mut shown: HashMap<u128, (Vec<Ch>, usize)> = HashMap::new();
        for p in 0..w.peers.len() {
            let peer = if cfg.drain == Drain::Eager { (*w.peers[p]).clone() } else { w.full_drain(&mut ctx, p, &w.peers[p]) };
            if w.closed(peer.recv) {
                w.check_complete(&mut ctx, p, &peer);
                w.check_blocks(&mut ctx, &format!("peer {p}"), &peer.buf, &pairs);
                if let Some((b, q)) = shown.get(&peer.recv) {
                    if *b != peer.buf {
                        ctx.flag(C01 | C12, format!("peers {q} and {p} received the same edits but show {} and {}", show(b), show(&peer.buf)));
                    }
                } else {
                    shown.insert(peer.recv, (peer.buf.clone(), p));
                }
            }
            if let Some(v) = cfg.visit {
                v(cfg, &w, p, &w.peers[p], &mut ctx);
            }
        }
        for v in &ctx.viols {
            println!("  !! [{}] {}", mask_names(v.mask), v.msg);
        }
        all.extend(ctx.viols);
        if all.iter().all(|v| v.mask & want == 0) {
            // the violation may lie one step further
            let _ = ex.expand(&node);
            if let Some(f) = ex_run.found.lock().unwrap().take() {
                for a in &f.acts {
                    println!("> {}", a.text());
                }
                println!("  !! {}\n{}", f.msg, f.state);
                all.push(Viol { mask: want, msg: f.msg });
            }
        }
    }
    all
}

pub fn mask_names(m: Mask) -> String {
    if m == FATAL {
        return "every property".into();
    }
    (1..=NPROPS as u32).filter(|i| m & bit(*i) != 0).map(|i| format!("C{i:02}")).collect::<Vec<_>>().join(",")
}
