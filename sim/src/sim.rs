//! The simulated world: storage, system calls, clock, thread scheduler, faults, crashes.
use crate::store::{Store, HUGE, PAGE};
use crate::tape::{Hash, Rng};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const EACCES: i32 = 13;
pub const EEXIST: i32 = 17;
pub const EXDEV: i32 = 18;
pub const EINVAL: i32 = 22;
pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EMFILE: i32 = 24;
pub const EFBIG: i32 = 27;
pub const ENOSPC: i32 = 28;
pub const EROFS: i32 = 30;
pub const EDQUOT: i32 = 122;
pub const ESTALE: i32 = 116;
pub const ENODEV: i32 = 19;

pub fn errno_name(e: i32) -> &'static str {
    match e {
        ENOENT => "ENOENT",
        EINTR => "EINTR",
        EIO => "EIO",
        EBADF => "EBADF",
        EAGAIN => "EAGAIN",
        EACCES => "EACCES",
        EEXIST => "EEXIST",
        EXDEV => "EXDEV",
        EINVAL => "EINVAL",
        EMFILE => "EMFILE",
        EFBIG => "EFBIG",
        ENOSPC => "ENOSPC",
        EROFS => "EROFS",
        EDQUOT => "EDQUOT",
        ESTALE => "ESTALE",
        ENODEV => "ENODEV",
        _ => "E?",
    }
}

/// Stands for the inode of a directory.
pub const DIR: usize = usize::MAX;
pub const FD_BASE: i32 = 1_000_000;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Op {
    Open,
    Read,
    Write,
    Seek,
    Trunc,
    Stat,
    Sync,
    Close,
    Other,
}

/// What to do to the nth call of a class.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// Fail without effect.
    Errno(i32),
    /// Transfer part (n/256 of the request), fail on the following call of the class.
    PartialThenErr(u8, i32),
    /// A read reports end of file.
    Eof,
    /// A write accepts nothing.
    Zero,
    /// A transfer is cut to n bytes (at least one).
    Short(u32),
    Eintr,
    /// The process dies at this call; the call has no effect.
    CrashBefore,
    /// The process dies in this write: n/256 of it reached the file.
    CrashTorn(u8),
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    /// None: any class.
    pub op: Option<Op>,
    /// 0-based index among the calls of that class.
    pub nth: u32,
    pub kind: Kind,
    /// Every later call of the class is affected too.
    pub sticky: bool,
}

/// Modification by another process, applied right before the given step.
#[derive(Clone, Debug)]
pub enum External {
    Truncate(u64),
    Extend(Vec<u8>),
    Overwrite(u64, Vec<u8>),
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Noise {
    /// Probabilities in 1/256.
    pub rshort: u32,
    pub wshort: u32,
    pub eintr: u32,
    pub stall: u32,
    pub one_byte_reads: bool,
    pub one_byte_writes: bool,
    pub seed: u64,
}

#[derive(Clone)]
pub struct Inode {
    pub store: Store,
    pub read_only: bool,
    pub muts: u64,
}

#[derive(Clone, Debug)]
pub enum Mut {
    Write(usize, u64, Vec<u8>),
    SetLen(usize, u64),
}

struct Ofd {
    ino: usize,
    pos: u64,
    rd: bool,
    wr: bool,
    app: bool,
    refs: u32,
}

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub fired: BTreeMap<String, u64>,
    pub calls: BTreeMap<Op, u64>,
    pub bytes_read: u64,
    pub bytes_written: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub steps: u64,
    pub crashes: u64,
    pub restarts: u64,
}

pub struct Sched {
    pub alive: Vec<bool>,
    pub running: usize,
    pub started: bool,
    /// (steps to run before the switch, thread to switch to)
    pub plan: Vec<(u32, usize)>,
    at: usize,
    left: u32,
}

pub struct World {
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<String, usize>,
    fds: BTreeMap<i32, usize>,
    ofds: Vec<Ofd>,
    next_fd: i32,
    pub log: Hash,
    pub trace: Option<Vec<String>>,
    pub steps: u64,
    pub op_steps: u64,
    pub limit: u64,
    pub hang: bool,
    pub clock_ns: u64,
    pub noise: Noise,
    nrng: Rng,
    eintr_run: u32,
    pub plan: Vec<Fault>,
    counts: BTreeMap<Op, u32>,
    any_count: u32,
    pub fired: Vec<(Op, Kind)>,
    /// The threads the entries of `fired` hit.
    pub fired_by: Vec<usize>,
    pending_err: BTreeMap<Op, i32>,
    pub externals: Vec<(u64, usize, External)>,
    pub capacity_pages: Option<usize>,
    pub nospace_fired: bool,
    pub crashed: bool,
    pub journal: Vec<Mut>,
    pub durable: usize,
    pub stats: Stats,
    pub opens: Vec<(String, bool, bool)>,
    pub misuse: Vec<String>,
    pub write_calls: u64,
    /// How the run spells paths (see `cx::disguise`).
    pub disguise: u8,
    spelled: usize,
    /// The working directory, without a slash at its end.
    pub cwd: String,
    /// Calls of readers and writers so far, if these use the library themselves.
    pub nest: Option<u32>,
    /// Directories made by the code under test.
    dirs: BTreeSet<String>,
    pub sched: Option<Sched>,
}

pub struct Shared {
    pub w: Mutex<World>,
    cv: Condvar,
}

thread_local! {
    pub static CTX: Cell<*const Shared> = const { Cell::new(std::ptr::null()) };
    pub static TID: Cell<usize> = const { Cell::new(0) };
}

pub type Sim = Arc<Shared>;

pub fn new_world(trace: bool) -> Sim {
    Arc::new(Shared {
        w: Mutex::new(World {
            inodes: Vec::new(),
            names: BTreeMap::new(),
            fds: BTreeMap::new(),
            ofds: Vec::new(),
            next_fd: FD_BASE,
            log: Hash::new(),
            trace: if trace { Some(Vec::new()) } else { None },
            steps: 0,
            op_steps: 0,
            limit: 1_000_000,
            hang: false,
            clock_ns: 1_700_000_000_000_000_000,
            noise: Noise::default(),
            nrng: Rng::new(0),
            eintr_run: 0,
            plan: Vec::new(),
            counts: BTreeMap::new(),
            any_count: 0,
            fired: Vec::new(),
            fired_by: Vec::new(),
            pending_err: BTreeMap::new(),
            externals: Vec::new(),
            capacity_pages: None,
            nospace_fired: false,
            crashed: false,
            journal: Vec::new(),
            durable: 0,
            stats: Stats::default(),
            opens: Vec::new(),
            misuse: Vec::new(),
            write_calls: 0,
            disguise: 0,
            spelled: 0,
            cwd: String::new(),
            nest: None,
            dirs: BTreeSet::new(),
            sched: None,
        }),
        cv: Condvar::new(),
    })
}

impl World {
    pub fn put(&mut self, path: &str, store: Store) -> usize {
        if let Some(&i) = self.names.get(path) {
            self.inodes[i].store = store;
            self.inodes[i].muts += 1;
            return i;
        }
        self.inodes.push(Inode { store, read_only: false, muts: 0 });
        let i = self.inodes.len() - 1;
        self.names.insert(path.to_string(), i);
        i
    }
    pub fn file(&self, path: &str) -> Option<&Store> {
        self.names.get(path).map(|&i| &self.inodes[i].store)
    }
    pub fn get(&self, path: &str) -> Store {
        self.file(path).cloned().unwrap_or_default()
    }
    pub fn open_fds(&self) -> BTreeSet<i32> {
        self.fds.keys().copied().collect()
    }
    pub fn fd_is_open(&self, fd: i32) -> bool {
        self.fds.contains_key(&fd)
    }
    pub fn fd_pos(&self, fd: i32) -> Option<u64> {
        self.fds.get(&fd).map(|&o| self.ofds[o].pos)
    }
    pub fn flags_of(&self, fd: i32) -> Option<i32> {
        let o = &self.ofds[*self.fds.get(&fd)?];
        Some(match (o.rd, o.wr) {
            (true, true) => 2,
            (_, true) => 1,
            _ => 0,
        } | if o.app { 0o2000 } else { 0 })
    }
    pub fn set_noise(&mut self, n: Noise) {
        self.nrng = Rng::new(n.seed);
        self.noise = n;
    }
    /// Opens a file for the harness itself: no fault, no schedule point, not counted.
    pub fn raw_open(&mut self, path: &str, rd: bool, wr: bool) -> Option<i32> {
        let ino = *self.names.get(path)?;
        let fd = self.next_fd;
        self.next_fd += 1;
        self.ofds.push(Ofd { ino, pos: 0, rd, wr, app: false, refs: 1 });
        let o = self.ofds.len() - 1;
        self.fds.insert(fd, o);
        Some(fd)
    }
    pub fn raw_seek(&mut self, fd: i32, pos: u64) {
        if let Some(&o) = self.fds.get(&fd) {
            self.ofds[o].pos = pos;
        }
    }
    pub fn raw_close(&mut self, fd: i32) {
        if let Some(o) = self.fds.remove(&fd) {
            self.ofds[o].refs -= 1;
        }
    }
    /// Starts a new call: fault counters and the journal start afresh.
    pub fn begin_op(&mut self) {
        self.counts.clear();
        self.any_count = 0;
        self.fired.clear();
        self.fired_by.clear();
        self.pending_err.clear();
        self.op_steps = 0;
        self.journal.clear();
        self.durable = 0;
        self.nospace_fired = false;
        self.opens.clear();
        self.write_calls = 0;
    }
    pub fn calm(&mut self) {
        self.plan.clear();
        self.externals.clear();
        self.noise = Noise::default();
        self.capacity_pages = None;
        self.pending_err.clear();
    }
    pub fn count(&self, op: Op) -> u32 {
        self.counts.get(&op).copied().unwrap_or(0)
    }
    pub fn total(&self) -> u32 {
        self.any_count
    }
    /// The process is gone: descriptors vanish, storage stays.
    pub fn restart(&mut self) {
        self.fds.clear();
        self.ofds.clear();
        self.cwd.clear();
        self.crashed = false;
        self.stats.restarts += 1;
        self.note(|| "-- restart --".into());
    }
    pub fn is_dir(&self, path: &str) -> bool {
        matches!(path, "" | "/" | "/sim") || self.dirs.contains(path)
    }
    /// How the next path is spelled.
    pub fn spelling(&mut self) -> u8 {
        if self.disguise != crate::cx::MIXED {
            return self.disguise;
        }
        self.spelled += 1;
        [1, 0, 6, 2][self.spelled % 4]
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            if t.len() < 20_000 {
                t.push(f());
            }
        }
    }
    fn bump(&mut self, k: String) {
        *self.stats.fired.entry(k).or_insert(0) += 1;
    }
    fn name_of(&self, ino: usize) -> String {
        self.names.iter().find(|(_, &i)| i == ino).map_or("?".into(), |(n, _)| n.clone())
    }
    fn pages_used(&self) -> usize {
        self.inodes.iter().map(|i| i.store.pages()).sum()
    }
    fn apply_externals(&mut self) {
        let mut i = 0;
        while i < self.externals.len() {
            if self.externals[i].0 <= self.op_steps {
                let (_, ino, e) = self.externals.remove(i);
                match &e {
                    External::Truncate(n) => {
                        let n = (*n).min(self.inodes[ino].store.len());
                        self.inodes[ino].store.set_len(n);
                        self.bump("external truncate".into());
                    }
                    External::Extend(b) => {
                        let l = self.inodes[ino].store.len();
                        self.inodes[ino].store.write_at(l, b);
                        self.bump("external extend".into());
                    }
                    External::Overwrite(o, b) => {
                        let l = self.inodes[ino].store.len();
                        if *o < l {
                            let k = (b.len() as u64).min(l - *o) as usize;
                            let b = b[..k].to_vec();
                            self.inodes[ino].store.write_at(*o, &b);
                        }
                        self.bump("external overwrite".into());
                    }
                }
                self.note(|| format!("   !! another process: {:?}", Abbrev(&e)));
            } else {
                i += 1;
            }
        }
    }
    /// The injected behaviour of this call, if any.
    fn decide(&mut self, op: Op) -> Option<Kind> {
        let n = *self.counts.get(&op).unwrap_or(&0);
        *self.counts.entry(op).or_insert(0) += 1;
        let any = self.any_count;
        self.any_count += 1;
        if let Some(e) = self.pending_err.remove(&op) {
            self.fired.push((op, Kind::Errno(e)));
            self.fired_by.push(TID.with(|t| t.get()));
            self.bump(format!("{:?}:{} after partial", op, errno_name(e)).to_lowercase());
            return Some(Kind::Errno(e));
        }
        for f in &self.plan {
            let idx = match f.op {
                Some(o) if o == op => n,
                None => any,
                _ => continue,
            };
            if idx == f.nth || (f.sticky && idx > f.nth) {
                let k = f.kind;
                let ok = match k {
                    Kind::Eof => op == Op::Read,
                    Kind::Zero => op == Op::Write,
                    Kind::Short(_) | Kind::PartialThenErr(..) => matches!(op, Op::Read | Op::Write),
                    Kind::Eintr => matches!(op, Op::Read | Op::Write | Op::Open | Op::Trunc),
                    Kind::CrashTorn(_) | Kind::CrashBefore => true,
                    Kind::Errno(_) => op != Op::Close,
                };
                if ok {
                    self.fired.push((op, k));
                    self.fired_by.push(TID.with(|t| t.get()));
                    let what = match k {
                        Kind::Errno(e) => errno_name(e).to_string(),
                        Kind::PartialThenErr(_, e) => format!("partial+{}", errno_name(e)),
                        Kind::Eof => "early eof".into(),
                        Kind::Zero => "zero write".into(),
                        Kind::Short(_) => "short".into(),
                        Kind::Eintr => "EINTR".into(),
                        Kind::CrashBefore => "crash before".into(),
                        Kind::CrashTorn(_) => "crash torn".into(),
                    };
                    self.bump(format!("{:?}:{}", op, what).to_lowercase());
                    return Some(k);
                }
            }
        }
        None
    }
    fn noisy(&mut self, p: u32) -> bool {
        p > 0 && self.nrng.chance256(p)
    }
}

struct Abbrev<'a>(&'a External);
impl std::fmt::Debug for Abbrev<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self.0 {
            External::Truncate(n) => write!(f, "truncate to {}", n),
            External::Extend(b) => write!(f, "append {} bytes", b.len()),
            External::Overwrite(o, b) => write!(f, "overwrite {} bytes at {}", b.len(), o),
        }
    }
}

pub enum Gate<'a> {
    Go(MutexGuard<'a, World>, Option<Kind>),
    Fail(i32),
}

impl Shared {
    pub fn lock(&self) -> MutexGuard<'_, World> {
        self.w.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Blocks the calling thread until the scheduler lets it run.
    pub fn wait_turn(&self, tid: usize) {
        let mut w = self.lock();
        loop {
            match &w.sched {
                None => return,
                Some(s) if s.started && s.running == tid => return,
                _ => w = self.cv.wait(w).unwrap_or_else(|e| e.into_inner()),
            }
        }
    }
    pub fn start_sched(&self, n: usize, plan: Vec<(u32, usize)>) {
        let mut w = self.lock();
        let left = plan.first().map_or(u32::MAX, |p| p.0);
        w.sched = Some(Sched { alive: vec![true; n], running: 0, started: true, plan, at: 0, left });
        self.cv.notify_all();
    }
    pub fn prepare_sched(&self) {
        let mut w = self.lock();
        w.sched = Some(Sched { alive: Vec::new(), running: usize::MAX, started: false, plan: Vec::new(), at: 0, left: 0 });
    }
    pub fn end_sched(&self) {
        self.lock().sched = None;
    }
    pub fn thread_done(&self, tid: usize) {
        let mut w = self.lock();
        if let Some(s) = &mut w.sched {
            s.alive[tid] = false;
            if let Some(n) = (0..s.alive.len()).map(|i| (tid + 1 + i) % s.alive.len()).find(|&i| s.alive[i]) {
                s.running = n;
            }
            self.cv.notify_all();
        }
    }
    fn yield_point(&self) {
        let tid = TID.with(|t| t.get());
        let mut w = self.lock();
        let mut switched = None;
        if let Some(s) = &mut w.sched {
            if !s.started || tid >= s.alive.len() || !s.alive[tid] {
                // a thread outside the schedule
                return;
            }
            if s.running != tid {
                // it was descheduled while blocked outside the simulator
                while w.sched.as_ref().map_or(false, |s| s.running != tid) {
                    w = self.cv.wait(w).unwrap_or_else(|e| e.into_inner());
                }
                return;
            }
            if s.left == 0 && s.at < s.plan.len() {
                let to = s.plan[s.at].1;
                s.at += 1;
                s.left = s.plan.get(s.at).map_or(u32::MAX, |p| p.0);
                let n = s.alive.len();
                if let Some(t) = (0..n).map(|i| (to + i) % n).find(|&i| s.alive[i]) {
                    if t != tid {
                        s.running = t;
                        switched = Some(t);
                    }
                }
            } else {
                s.left = s.left.saturating_sub(1);
            }
        }
        if let Some(t) = switched {
            w.stats.switches += 1;
            w.log.add(0x5C5C ^ t as u64);
            w.note(|| format!("   -- switch to thread {}", t));
            self.cv.notify_all();
            let mut seen = (w.steps, t);
            while w.sched.as_ref().map_or(false, |s| s.running != tid) {
                let (g, timeout) = self.cv.wait_timeout(w, std::time::Duration::from_secs(3)).unwrap_or_else(|e| e.into_inner());
                w = g;
                let now = (w.steps, w.sched.as_ref().map_or(tid, |s| s.running));
                if timeout.timed_out() && now == seen && now.1 != tid {
                    // the running thread is blocked on something this thread holds: let this one go on
                    w.note(|| format!("   -- thread {} is blocked; thread {} continues", now.1, tid));
                    if let Some(s) = &mut w.sched {
                        s.running = tid;
                    }
                    self.cv.notify_all();
                }
                seen = now;
            }
        }
    }

    /// Common entry of every simulated system call.
    fn enter(&self, op: Op) -> Gate<'_> {
        self.yield_point();
        let mut w = self.lock();
        w.steps += 1;
        CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        w.op_steps += 1;
        w.stats.steps += 1;
        *w.stats.calls.entry(op).or_insert(0) += 1;
        let mut lat = 1_000 + 50 * (w.steps % 7);
        let p = w.noise.stall;
        if w.noisy(p) {
            // from milliseconds to an hour
            let max = [2, 2, 2, 2, 60, 60, 600, 3600][w.nrng.below(8) as usize];
            lat += 5_000_000 + w.nrng.below(max * 1_000_000_000);
            w.bump("stall".into());
        }
        w.clock_ns += lat;
        w.stats.sim_ns += lat;
        if w.crashed {
            return Gate::Fail(EIO);
        }
        if w.op_steps > w.limit {
            w.hang = true;
            if w.op_steps > w.limit.saturating_mul(8).saturating_add(1_000_000) {
                eprintln!("SIM-HANG: call exceeds every step bound");
                std::process::abort();
            }
            return Gate::Fail(EIO);
        }
        w.apply_externals();
        let k = w.decide(op);
        w.log.add(op as u64 + 1);
        match k {
            Some(Kind::Errno(e)) => {
                w.log.add(e as u64);
                w.note(|| format!("   !! {:?} fails with {}", op, errno_name(e)));
                Gate::Fail(e)
            }
            Some(Kind::Eintr) => {
                w.note(|| format!("   !! {:?} interrupted", op));
                Gate::Fail(EINTR)
            }
            Some(Kind::CrashBefore) => {
                w.crashed = true;
                w.stats.crashes += 1;
                w.note(|| format!("   !! process dies before {:?}", op));
                Gate::Fail(EIO)
            }
            Some(Kind::CrashTorn(_)) if op != Op::Write => {
                w.crashed = true;
                w.stats.crashes += 1;
                w.note(|| format!("   !! process dies before {:?}", op));
                Gate::Fail(EIO)
            }
            k => {
                if matches!(op, Op::Read | Op::Write | Op::Open | Op::Trunc) && w.noise.eintr > 0 && k.is_none() {
                    let p = w.noise.eintr;
                    if w.eintr_run < 3 && w.noisy(p) {
                        w.eintr_run += 1;
                        w.bump(format!("{:?}:eintr", op).to_lowercase());
                        w.note(|| format!("   !! {:?} interrupted", op));
                        w.log.add(EINTR as u64);
                        return Gate::Fail(EINTR);
                    }
                    w.eintr_run = 0;
                }
                Gate::Go(w, k)
            }
        }
    }

    pub fn open(&self, path: &str, flags: i32) -> Result<i32, i32> {
        const O_CREAT: i32 = 0o100;
        const O_EXCL: i32 = 0o200;
        const O_TRUNC: i32 = 0o1000;
        const O_APPEND: i32 = 0o2000;
        let (mut w, _) = match self.enter(Op::Open) {
            Gate::Go(w, k) => (w, k),
            Gate::Fail(e) => return Err(e),
        };
        let acc = flags & 3;
        let (rd, wr) = (acc == 0 || acc == 2, acc == 1 || acc == 2);
        w.opens.push((path.to_string(), rd, wr));
        let res = (|| {
            let ino = match w.names.get(path).copied() {
                Some(i) => {
                    if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                        return Err(EEXIST);
                    }
                    if wr && w.inodes[i].read_only {
                        return Err(EACCES);
                    }
                    i
                }
                None if path.starts_with("/sim/") && !w.is_dir(&path[..path.rfind('/').unwrap_or(0)]) => return Err(ENOENT),
                None if flags & O_CREAT != 0 => {
                    let i = w.put(path, Store::default());
                    w.inodes[i].muts += 1;
                    i
                }
                None => return Err(ENOENT),
            };
            if flags & O_TRUNC != 0 && wr {
                w.inodes[ino].store.set_len(0);
                w.inodes[ino].muts += 1;
                w.journal.push(Mut::SetLen(ino, 0));
            }
            let fd = w.next_fd;
            w.next_fd += 1;
            w.ofds.push(Ofd { ino, pos: 0, rd, wr, app: flags & O_APPEND != 0, refs: 1 });
            let o = w.ofds.len() - 1;
            w.fds.insert(fd, o);
            Ok(fd)
        })();
        w.log.bytes(path.as_bytes()).add(flags as u64).add(res.map_or_else(|e| e as u64, |f| f as u64));
        w.note(|| format!("open({}, {}{}) = {}", path, if rd { "r" } else { "" }, if wr { "w" } else { "" }, fmt_res(&res.map(|f| (f - FD_BASE) as usize))));
        res
    }

    pub fn close(&self, fd: i32) -> Result<(), i32> {
        self.yield_point();
        let mut w = self.lock();
        w.steps += 1;
        w.op_steps += 1;
        w.log.add(77).add(fd as u64);
        *w.stats.calls.entry(Op::Close).or_insert(0) += 1;
        match w.fds.remove(&fd) {
            Some(o) => {
                w.ofds[o].refs -= 1;
                w.note(|| format!("close(fd{})", fd - FD_BASE));
                Ok(())
            }
            None => {
                if !w.crashed {
                    w.misuse.push(format!("close of fd{} which is not open", fd - FD_BASE));
                }
                Err(EBADF)
            }
        }
    }

    pub fn dup(&self, fd: i32) -> Result<i32, i32> {
        let (mut w, _) = match self.enter(Op::Other) {
            Gate::Go(w, k) => (w, k),
            Gate::Fail(e) => return Err(e),
        };
        let o = *w.fds.get(&fd).ok_or(EBADF)?;
        let n = w.next_fd;
        w.next_fd += 1;
        w.ofds[o].refs += 1;
        w.fds.insert(n, o);
        w.note(|| format!("dup(fd{}) = fd{}", fd - FD_BASE, n - FD_BASE));
        Ok(n)
    }

    pub fn read(&self, fd: i32, buf: &mut [u8], at: Option<u64>) -> Result<usize, i32> {
        let (mut w, k) = match self.enter(Op::Read) {
            Gate::Go(w, k) => (w, k),
            Gate::Fail(e) => return Err(e),
        };
        let o = *w.fds.get(&fd).ok_or(EBADF)?;
        if !w.ofds[o].rd {
            return Err(EBADF);
        }
        let pos = at.unwrap_or(w.ofds[o].pos);
        let ino = w.ofds[o].ino;
        let avail = w.inodes[ino].store.len().saturating_sub(pos);
        let mut n = (buf.len() as u64).min(avail) as usize;
        let full = n;
        let mut tag = "";
        match k {
            Some(Kind::Eof) => {
                n = 0;
                tag = " [injected eof]"
            }
            Some(Kind::Short(s)) if n > 1 => {
                n = (s.max(1) as usize).min(n - 1);
                tag = " [short]"
            }
            Some(Kind::PartialThenErr(f, e)) => {
                if n > 1 {
                    n = ((n * f as usize) / 256).clamp(1, n - 1);
                }
                w.pending_err.insert(Op::Read, e);
                tag = " [partial]"
            }
            _ => {
                if n > 1 {
                    let p = w.noise.rshort;
                    if heavy(w.inodes[ino].store.len()) {
                        if (w.noise.one_byte_reads || w.noise.rshort > 0) && w.noisy(64) {
                            n = short_len(&mut w.nrng, n).max(n / 8);
                            tag = " [short]";
                        }
                    } else if w.noise.one_byte_reads {
                        n = 1;
                        tag = " [1 byte]";
                    } else if w.noisy(p) {
                        n = short_len(&mut w.nrng, n);
                        tag = " [short]";
                    }
                }
            }
        }
        if n < full && k.is_none() {
            w.bump("read:short".into());
        }
        w.inodes[ino].store.read_at(pos, &mut buf[..n]);
        if at.is_none() {
            w.ofds[o].pos = pos + n as u64;
        }
        w.stats.bytes_read += n as u64;
        w.log.add(fd as u64).add(pos).add(n as u64);
        w.note(|| format!("read(fd{} {} @{}, {}) = {}{}", fd - FD_BASE, w_name(fd), pos, buf.len(), n, tag));
        Ok(n)
    }

    pub fn write(&self, fd: i32, buf: &[u8], at: Option<u64>) -> Result<usize, i32> {
        let (mut w, k) = match self.enter(Op::Write) {
            Gate::Go(w, k) => (w, k),
            Gate::Fail(e) => return Err(e),
        };
        w.write_calls += 1;
        let o = *w.fds.get(&fd).ok_or(EBADF)?;
        if !w.ofds[o].wr {
            return Err(EBADF);
        }
        let ino = w.ofds[o].ino;
        let pos = if w.ofds[o].app { w.inodes[ino].store.len() } else { at.unwrap_or(w.ofds[o].pos) };
        // Linux transfers no more at once
        let buf = &buf[..buf.len().min(0x7fff_f000)];
        let mut n = buf.len();
        let mut tag = "";
        let mut crash = false;
        match k {
            Some(Kind::Zero) => {
                n = 0;
                tag = " [accepts nothing]"
            }
            Some(Kind::Short(s)) if n > 1 => {
                n = (s.max(1) as usize).min(n - 1);
                tag = " [short]"
            }
            Some(Kind::PartialThenErr(f, e)) => {
                if n > 1 {
                    n = ((n * f as usize) / 256).clamp(1, n - 1);
                }
                w.pending_err.insert(Op::Write, e);
                tag = " [partial]"
            }
            Some(Kind::CrashTorn(f)) => {
                n = (n * f as usize) / 256;
                crash = true;
                tag = " [torn, process dies]"
            }
            _ => {
                if n > 1 {
                    let p = w.noise.wshort;
                    if heavy(w.inodes[ino].store.len()) {
                        if (w.noise.one_byte_writes || w.noise.wshort > 0) && w.noisy(64) {
                            n = short_len(&mut w.nrng, n).max(n / 8);
                            tag = " [short]";
                        }
                    } else if w.noise.one_byte_writes {
                        n = 1;
                        tag = " [1 byte]";
                    } else if w.noisy(p) {
                        n = short_len(&mut w.nrng, n);
                        tag = " [short]";
                    }
                }
            }
        }
        if n < buf.len() && k.is_none() {
            w.bump("write:short".into());
        }
        if let Some(cap) = w.capacity_pages {
            // allocate page by page until the disk is full
            let mut used = w.pages_used();
            let mut m = 0usize;
            while m < n {
                let p = (pos + m as u64) / PAGE as u64;
                if !w.inodes[ino].store.has_page(p) {
                    if used >= cap {
                        break;
                    }
                    used += 1;
                }
                m += (((p + 1) * PAGE as u64) - (pos + m as u64)) as usize;
            }
            if m.min(n) < n {
                n = m.min(n);
                w.nospace_fired = true;
                w.bump("write:enospc (disk full)".into());
                if n == 0 {
                    w.note(|| format!("write(fd{} @{}, {}) = ENOSPC", fd - FD_BASE, pos, buf.len()));
                    return Err(ENOSPC);
                }
                tag = " [disk full]";
            }
        }
        w.inodes[ino].store.write_at(pos, &buf[..n]);
        if n > 0 {
            w.inodes[ino].muts += 1;
            if n <= HUGE {
                w.journal.push(Mut::Write(ino, pos, buf[..n].to_vec()));
            }
        }
        if at.is_none() {
            w.ofds[o].pos = pos + n as u64;
        }
        w.stats.bytes_written += n as u64;
        if n > HUGE {
            w.log.add(fd as u64).add(pos).add(n as u64).bytes(&buf[..PAGE]).bytes(&buf[n - PAGE..n]);
        } else {
            w.log.add(fd as u64).add(pos).bytes(&buf[..n]);
        }
        w.note(|| format!("write(fd{} {} @{}, {}) = {}{}", fd - FD_BASE, w_name(fd), pos, buf.len(), n, tag));
        if crash {
            w.crashed = true;
            w.stats.crashes += 1;
            return Err(EIO);
        }
        Ok(n)
    }

    pub fn seek(&self, fd: i32, off: i64, whence: i32) -> Result<u64, i32> {
        let (mut w, _) = match self.enter(Op::Seek) {
            Gate::Go(w, k) => (w, k),
            Gate::Fail(e) => return Err(e),
        };
        let o = *w.fds.get(&fd).ok_or(EBADF)?;
        let ino = w.ofds[o].ino;
        let base = match whence {
            0 => 0,
            1 => w.ofds[o].pos as i128,
            2 => w.inodes[ino].store.len() as i128,
            _ => return Err(EINVAL),
        };
        let p = base + off as i128;
        if p < 0 || p > i64::MAX as i128 {
            w.note(|| format!("lseek(fd{}, {}, {}) = EINVAL", fd - FD_BASE, off, whence));
            return Err(EINVAL);
        }
        w.ofds[o].pos = p as u64;
        w.log.add(p as u64);
        w.note(|| format!("lseek(fd{}, {}, {}) = {}", fd - FD_BASE, off, ["set", "cur", "end"][whence as usize], p));
        Ok(p as u64)
    }

    pub fn truncate(&self, fd: i32, len: i64) -> Result<(), i32> {
        let (mut w, _) = match self.enter(Op::Trunc) {
            Gate::Go(w, k) => (w, k),
            Gate::Fail(e) => return Err(e),
        };
        let o = *w.fds.get(&fd).ok_or(EBADF)?;
        if !w.ofds[o].wr || len < 0 {
            return Err(EINVAL);
        }
        if len as u64 > 1 << 44 {
            return Err(EFBIG);
        }
        let ino = w.ofds[o].ino;
        if w.inodes[ino].store.len() != len as u64 {
            w.inodes[ino].muts += 1;
        }
        w.inodes[ino].store.set_len(len as u64);
        w.journal.push(Mut::SetLen(ino, len as u64));
        w.log.add(len as u64);
        w.note(|| format!("ftruncate(fd{}, {})", fd - FD_BASE, len));
        Ok(())
    }

    pub fn stat_fd(&self, fd: i32) -> Result<(u64, bool, usize), i32> {
        let (w, _) = match self.enter(Op::Stat) {
            Gate::Go(w, k) => (w, k),
            Gate::Fail(e) => return Err(e),
        };
        let o = *w.fds.get(&fd).ok_or(EBADF)?;
        let ino = w.ofds[o].ino;
        Ok((w.inodes[ino].store.len(), w.inodes[ino].read_only, ino))
    }
    pub fn stat_path(&self, path: &str) -> Result<(u64, bool, usize), i32> {
        let (w, _) = match self.enter(Op::Stat) {
            Gate::Go(w, k) => (w, k),
            Gate::Fail(e) => return Err(e),
        };
        if w.is_dir(path) {
            return Ok((4096, false, DIR));
        }
        let ino = *w.names.get(path).ok_or(ENOENT)?;
        Ok((w.inodes[ino].store.len(), w.inodes[ino].read_only, ino))
    }
    pub fn sync(&self, fd: i32) -> Result<(), i32> {
        let (mut w, _) = match self.enter(Op::Sync) {
            Gate::Go(w, k) => (w, k),
            Gate::Fail(e) => return Err(e),
        };
        if !w.fds.contains_key(&fd) {
            return Err(EBADF);
        }
        w.durable = w.journal.len();
        w.note(|| format!("fsync(fd{})", fd - FD_BASE));
        Ok(())
    }
    pub fn unlink(&self, path: &str) -> Result<(), i32> {
        let (mut w, _) = match self.enter(Op::Other) {
            Gate::Go(w, k) => (w, k),
            Gate::Fail(e) => return Err(e),
        };
        w.note(|| format!("unlink({})", path));
        w.opens.push((path.to_string(), false, true));
        w.names.remove(path).map(|_| ()).ok_or(ENOENT)
    }
    pub fn rename(&self, a: &str, b: &str) -> Result<(), i32> {
        let (mut w, _) = match self.enter(Op::Other) {
            Gate::Go(w, k) => (w, k),
            Gate::Fail(e) => return Err(e),
        };
        w.note(|| format!("rename({}, {})", a, b));
        w.opens.push((a.to_string(), false, true));
        w.opens.push((b.to_string(), false, true));
        let i = w.names.remove(a).ok_or(ENOENT)?;
        w.names.insert(b.to_string(), i);
        Ok(())
    }
    /// A change of a file's attributes.
    pub fn touch_fd(&self, fd: i32, what: &str) -> Result<(), i32> {
        let (mut w, _) = match self.enter(Op::Other) {
            Gate::Go(w, k) => (w, k),
            Gate::Fail(e) => return Err(e),
        };
        w.note(|| format!("{}(fd{})", what, fd - FD_BASE));
        let o = *w.fds.get(&fd).ok_or(EBADF)?;
        let ino = w.ofds[o].ino;
        w.inodes[ino].muts += 1;
        Ok(())
    }
    pub fn touch_path(&self, path: &str, what: &str) -> Result<(), i32> {
        let (mut w, _) = match self.enter(Op::Other) {
            Gate::Go(w, k) => (w, k),
            Gate::Fail(e) => return Err(e),
        };
        w.note(|| format!("{}({})", what, path));
        w.opens.push((path.to_string(), false, true));
        let ino = *w.names.get(path).ok_or(ENOENT)?;
        w.inodes[ino].muts += 1;
        Ok(())
    }
    /// Another name for a file, or for none.
    pub fn link(&self, a: &str, b: &str) -> Result<(), i32> {
        let (mut w, _) = match self.enter(Op::Other) {
            Gate::Go(w, k) => (w, k),
            Gate::Fail(e) => return Err(e),
        };
        w.note(|| format!("link({}, {})", a, b));
        w.opens.push((b.to_string(), false, true));
        if w.names.contains_key(b) {
            return Err(EEXIST);
        }
        match w.names.get(a).copied() {
            Some(i) => {
                w.names.insert(b.to_string(), i);
            }
            None if a.is_empty() => {
                w.put(b, Store::default());
            }
            None => return Err(ENOENT),
        }
        Ok(())
    }
    /// A change of the surroundings no call has any business making.
    pub fn stray(&self, what: &str) -> Result<(), i32> {
        let (mut w, _) = match self.enter(Op::Other) {
            Gate::Go(w, k) => (w, k),
            Gate::Fail(e) => return Err(e),
        };
        w.note(|| what.to_string());
        w.opens.push((what.to_string(), false, true));
        Ok(())
    }
    pub fn chdir(&self, path: &str) -> Result<(), i32> {
        self.stray(&format!("chdir {}", path))?;
        let mut w = self.lock();
        if !w.is_dir(path) {
            return Err(ENOENT);
        }
        w.cwd = path.trim_end_matches('/').to_string();
        Ok(())
    }
    pub fn mkdir(&self, path: &str) -> Result<(), i32> {
        if self.lock().is_dir(path) {
            return Err(EEXIST);
        }
        self.stray(&format!("mkdir {}", path))?;
        let mut w = self.lock();
        match path.rfind('/') {
            Some(i) if w.is_dir(&path[..i]) => {
                w.dirs.insert(path.to_string());
                Ok(())
            }
            _ => Err(ENOENT),
        }
    }
    pub fn ino_name(&self, ino: usize) -> String {
        self.lock().name_of(ino)
    }
}

fn w_name(_fd: i32) -> &'static str {
    ""
}

/// Files of which a save moves tens of mebibytes are not delivered byte by byte.
fn heavy(len: u64) -> bool {
    len > 8 << 20 && len < 1 << 30
}
fn short_len(r: &mut Rng, n: usize) -> usize {
    match r.below(4) {
        0 => 1,
        1 => n - 1,
        2 => 1 + r.below((n - 1).min(16) as u64) as usize,
        _ => 1 + r.below((n - 1) as u64) as usize,
    }
}

fn fmt_res(r: &Result<usize, i32>) -> String {
    match r {
        Ok(n) => format!("fd{}", n),
        Err(e) => errno_name(*e).to_string(),
    }
}

// ---- direct stream arguments ------------------------------------------------------------------------------------

use std::io;

/// A `Read + Seek` / `Write` argument backed by the simulated storage without going through `std::fs`.
pub struct Stream {
    pub sim: Sim,
    pub fd: i32,
    /// Writers: report success on flush or the given error.
    pub flush_err: Option<i32>,
}

/// Simulated calls of this process so far.
pub static CALLS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn in_sim<T>(f: impl FnOnce() -> T) -> T {
    let on = crate::alloc::set(false);
    let r = f();
    crate::alloc::set(on);
    r
}

/// A tag and its dump, for calls made from within a reader or writer; none if these calls don't
/// work by themselves already, which other checks are for.
pub fn inner() -> Option<&'static (mp4ameta::Tag, Vec<u8>)> {
    static INNER: std::sync::OnceLock<Option<(mp4ameta::Tag, Vec<u8>)>> = std::sync::OnceLock::new();
    INNER
        .get_or_init(|| {
            std::panic::catch_unwind(|| {
                use mp4ameta::{Data, DataIdent, Fourcc, Tag};
                let mut t = Tag::default();
                t.add_all_data(Fourcc(*b"\xa9nam"), vec![Data::Utf8("inner title".into()), Data::Utf16("\u{10348} inner".into())]);
                t.add_data(DataIdent::freeform("inner.mean", "inner name"), Data::Utf8("value".into()));
                t.add_data(Fourcc(*b"covr"), Data::Png(vec![0x89; 700]));
                let mut b = Vec::new();
                t.dump_to(&mut b).ok()?;
                let r = Tag::read_from(&mut io::Cursor::new(&b)).ok()?;
                if r.data().eq(t.data()) {
                    Some((t, b))
                } else {
                    None
                }
            })
            .unwrap_or(None)
        })
        .as_ref()
}

impl Stream {
    /// Readers and writers may themselves use the library.
    fn nest(&self) {
        let due = match &mut self.sim.lock().nest {
            Some(n) => {
                *n += 1;
                *n % 3 == 0
            }
            None => false,
        };
        if due {
            in_sim(|| {
                let (t, b) = match inner() {
                    Some(i) => i,
                    None => return,
                };
                let r = mp4ameta::Tag::read_from(&mut io::Cursor::new(b)).expect("a call from within a reader or writer fails");
                assert!(r.data().eq(t.data()), "a call from within a reader or writer returns another tag");
                let mut d = Vec::new();
                t.dump_to(&mut d).expect("a call from within a reader or writer fails");
                assert!(d == *b, "a call from within a reader or writer writes other bytes");
            })
        }
    }
}

impl io::Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.nest();
        in_sim(|| self.sim.read(self.fd, buf, None)).map_err(io::Error::from_raw_os_error)
    }
}
impl io::Seek for Stream {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        let (o, wh) = match p {
            io::SeekFrom::Start(n) => {
                if n > i64::MAX as u64 {
                    return Err(io::Error::from_raw_os_error(EINVAL));
                }
                (n as i64, 0)
            }
            io::SeekFrom::Current(n) => (n, 1),
            io::SeekFrom::End(n) => (n, 2),
        };
        in_sim(|| self.sim.seek(self.fd, o, wh)).map_err(io::Error::from_raw_os_error)
    }
}
impl io::Write for Stream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.nest();
        in_sim(|| self.sim.write(self.fd, buf, None)).map_err(io::Error::from_raw_os_error)
    }
    fn flush(&mut self) -> io::Result<()> {
        match self.flush_err {
            Some(e) => Err(io::Error::from_raw_os_error(e)),
            None => Ok(()),
        }
    }
}

// ---- running calls of the code under test -----------------------------------------------------------------------

pub enum Out<T> {
    Ok(T),
    Err(mp4ameta::Error),
    Panic(String),
}

impl<T> Out<T> {
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn ok(self) -> Option<T> {
        match self {
            Out::Ok(t) => Some(t),
            _ => None,
        }
    }
    pub fn describe(&self) -> String {
        match self {
            Out::Ok(_) => "success".into(),
            Out::Err(e) => format!("error {:?}", e),
            Out::Panic(m) => format!("panic: {}", m),
        }
    }
}

thread_local! {
    static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.try_with(|q| q.get()).unwrap_or(false);
        if quiet {
            let on = crate::alloc::set(false);
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let loc = info.location().map_or(String::new(), |l| {
                let f = l.file();
                let f = f.rsplit_once("/src/").map_or(f, |x| x.1);
                format!(" at {}", f)
            });
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{}{}", msg, loc)));
            crate::alloc::set(on);
        } else {
            old(info);
        }
    }));
}

/// Runs code under test with a panic caught, without entering the simulated storage.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "?".into()))
}

/// Runs code under test inside the simulation.
pub fn enter<T>(sim: &Sim, f: impl FnOnce() -> T) -> Result<T, String> {
    CTX.with(|c| c.set(Arc::as_ptr(sim)));
    crate::alloc::reset();
    let was = crate::alloc::set(true);
    let r = guard(f);
    crate::alloc::set(was);
    CTX.with(|c| c.set(std::ptr::null()));
    r
}

pub fn call<T>(sim: &Sim, f: impl FnOnce() -> mp4ameta::Result<T>) -> Out<T> {
    match enter(sim, f) {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p),
    }
}
