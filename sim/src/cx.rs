//! Run context: the tape, the worlds of the run, statistics, and calls of the code under test with their oracles'
//! raw material recorded around them.
use crate::model::{build_tag, gen_items, items_of, Items};
use crate::mp4::{self, Container, Opts};
use crate::sim::*;
use crate::store::Store;
use crate::tape::{Hash, Tape};
use mp4ameta::Tag;
use std::collections::BTreeMap;
use std::fs::File;
use std::io::BufReader;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};
use std::os::fd::{FromRawFd, IntoRawFd};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Viol>;

pub fn viol<T>(class: &str, msg: impl Into<String>) -> R<T> {
    Err(Viol { class: class.into(), msg: msg.into() })
}

/// What can be put in front of a simulated file's name without changing which file it names (see `disguise`).
pub const NOT_UTF8: &[u8] = b"\xff\xfe\xc3 ";
pub const SPECIAL: &[u8] = " \u{e9}\u{1F3B5}\n\"'%s{}*?~#\\".as_bytes();

/// How calls by path spell the names of simulated files: plainly, relative to the working directory (the
/// root), with detours, with
/// names that are not UTF-8, full of special characters, or very long.
fn disguise(sim: &Sim, path: &str) -> PathBuf {
    let Some(name) = path.strip_prefix("/sim/") else { return path.into() };
    let bytes: Vec<u8> = match sim.lock().spelling() {
        1 => [b"sim/", name.as_bytes()].concat(),
        2 => format!("/sim/../sim/./{}", name).into_bytes(),
        3 => [b"/sim/", NOT_UTF8, name.as_bytes()].concat(),
        4 => [b"/sim/", SPECIAL, name.as_bytes()].concat(),
        5 => format!("/sim/{}{}", "./".repeat(900), name).into_bytes(),
        6 => [b"sim/", NOT_UTF8, name.as_bytes()].concat(),
        _ => path.into(),
    };
    PathBuf::from(OsString::from_vec(bytes))
}

/// A path as shown in traces.
fn short(p: &Path) -> String {
    let s = p.display().to_string();
    if s.len() > 200 {
        format!("{}…{}", &s[..20], &s[s.len() - 20..])
    } else {
        s
    }
}

/// Another spelling for every call.
pub const MIXED: u8 = 7;

pub struct Cx {
    pub t: Tape,
    /// The spelling of paths in this run, once drawn.
    disguise: Option<u8>,
    nest: Option<bool>,
    pub tracing: bool,
    pub trace: Vec<String>,
    sims: Vec<(String, Sim)>,
    pub fired: BTreeMap<String, u64>,
    pub steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub crashes: u64,
    pub restarts: u64,
    pub evals: u64,
    pub nontrivial: bool,
    pub log: Hash,
    pub shape: Hash,
    pub sample: String,
}

impl Cx {
    pub fn new(t: Tape, tracing: bool) -> Cx {
        Cx {
            t,
            disguise: None,
            nest: None,
            tracing,
            trace: Vec::new(),
            sims: Vec::new(),
            fired: BTreeMap::new(),
            steps: 0,
            sim_ns: 0,
            switches: 0,
            crashes: 0,
            restarts: 0,
            evals: 0,
            nontrivial: false,
            log: Hash::new(),
            shape: Hash::new(),
            sample: String::new(),
        }
    }
    pub fn world(&mut self, name: &str) -> Sim {
        let s = new_world(self.tracing);
        s.lock().note(|| format!("== {} ==", name));
        let k = match self.disguise {
            Some(k) => k,
            None => *self.t.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6, MIXED, MIXED]),
        };
        self.disguise = Some(k);
        s.lock().disguise = k;
        let nest = match self.nest {
            Some(n) => n,
            None => self.t.chance(1, 12),
        };
        self.nest = Some(nest);
        if nest {
            inner();
            s.lock().nest = Some(0);
        }
        self.sims.push((name.to_string(), s.clone()));
        s
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            self.trace.push(s);
        }
    }
    pub fn say(&mut self, sim: &Sim, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            sim.lock().note(|| s);
        }
    }
    /// Collects the statistics of all worlds of the run.
    pub fn finish(&mut self) {
        for (_, s) in std::mem::take(&mut self.sims) {
            let mut w = s.lock();
            for (k, v) in std::mem::take(&mut w.stats.fired) {
                *self.fired.entry(k).or_insert(0) += v;
            }
            self.steps += w.stats.steps;
            self.sim_ns += w.stats.sim_ns;
            self.switches += w.stats.switches;
            self.crashes += w.stats.crashes;
            self.restarts += w.stats.restarts;
            let h = w.log.0;
            self.log.add(h);
            for i in &w.inodes {
                self.log.add(i.store.hash());
            }
            if let Some(t) = w.trace.take() {
                self.trace.extend(t);
            }
        }
    }
    pub fn release(&mut self, sim: &Sim) {
        // keep long enumerating runs small: statistics now, world freed
        if let Some(i) = self.sims.iter().position(|s| std::sync::Arc::ptr_eq(&s.1, sim)) {
            let rest = self.sims.split_off(i + 1);
            let (n, s) = self.sims.pop().unwrap();
            let keep = std::mem::take(&mut self.sims);
            self.sims = vec![(n, s)];
            let tr = self.trace.len();
            self.finish();
            if !self.tracing {
                self.trace.truncate(tr);
            }
            self.sims = keep;
            self.sims.extend(rest);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via {
    Path,
    Handle(u64),
}

/// What a call did, as seen from outside.
pub struct Done<T> {
    pub out: Out<T>,
    pub steps: u64,
    pub peak: u64,
    pub hang: bool,
    pub fired: Vec<(Op, Kind)>,
    pub nospace: bool,
    pub crashed: bool,
    pub leak: Option<String>,
    pub opens: Vec<(String, bool, bool)>,
    pub writes: u64,
    pub bytes_read: u64,
    pub bytes_written: u64,
}

impl<T> Done<T> {
    pub fn ok(&self) -> bool {
        self.out.is_ok()
    }
    pub fn describe(&self) -> String {
        self.out.describe()
    }
    pub fn panicked(&self) -> Option<&str> {
        match &self.out {
            Out::Panic(m) => Some(m),
            _ => None,
        }
    }
}

pub fn around<T>(sim: &Sim, what: &str, f: impl FnOnce() -> (Out<T>, Option<String>)) -> Done<T> {
    let (before, r0, w0, mis0) = {
        let mut w = sim.lock();
        // under a schedule the calls of other threads are under way
        if w.sched.is_none() {
            w.begin_op();
        }
        w.note(|| format!("> {}", what));
        (w.open_fds(), w.stats.bytes_read, w.stats.bytes_written, w.misuse.len())
    };
    let (out, extra) = f();
    let peak = crate::alloc::peak();
    let mut w = sim.lock();
    let mut leak = extra;
    let after = w.open_fds();
    if w.sched.is_none() && after != before && leak.is_none() {
        leak = Some(format!("descriptors open before the call: {}, after: {}", before.len(), after.len()));
    }
    if w.misuse.len() > mis0 && leak.is_none() {
        leak = Some(w.misuse[mis0].clone());
    }
    w.note(|| format!("< {}: {}", what, out.describe()));
    let tag = match &out {
        Out::Ok(_) => 1,
        Out::Err(_) => 2,
        Out::Panic(_) => 3,
    };
    w.log.add(tag);
    let d = Done {
        out,
        steps: w.op_steps,
        peak,
        hang: w.hang,
        fired: w.fired.clone(),
        nospace: w.nospace_fired,
        crashed: w.crashed,
        leak,
        opens: w.opens.clone(),
        writes: w.write_calls,
        bytes_read: w.stats.bytes_read - r0,
        bytes_written: w.stats.bytes_written - w0,
    };
    w.hang = false;
    d
}

pub fn save(sim: &Sim, path: &str, tag: &Tag, via: Via) -> Done<()> {
    match via {
        Via::Path => {
            let p = disguise(sim, path);
            around(sim, &format!("write_to_path({:?})", short(&p)), || (call(sim, || tag.write_to_path(&p)), None))
        }
        Via::Handle(cur) => {
            let fd = sim.lock().raw_open(path, true, true);
            let Some(fd) = fd else { return save(sim, path, tag, Via::Path) };
            sim.lock().raw_seek(fd, cur);
            let f = unsafe { File::from_raw_fd(fd) };
            let mut d = around(sim, &format!("write_to(handle of {} at {})", path, cur), || (call(sim, || tag.write_to(&f)), None));
            let fd = f.into_raw_fd();
            let mut w = sim.lock();
            if !w.fd_is_open(fd) && !w.crashed {
                d.leak = Some("the caller's handle was closed".into());
            }
            w.raw_close(fd);
            d
        }
    }
}

/// Where a read takes its bytes from.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Src {
    Path,
    RawFile,
    Buf(usize),
    Stream,
    BufStream(usize),
    Mem,
}

/// Reads; `start` is where the stream handed over stands (0 for `Path`).
pub fn read(sim: &Sim, path: &str, src: Src, start: u64) -> Done<Tag> {
    let what = format!("read {:?} of {} from {}", src, path, start);
    match src {
        Src::Path => {
            let p = disguise(sim, path);
            around(sim, &format!("read_from_path({:?})", short(&p)), || (call(sim, || Tag::read_from_path(&p)), None))
        }
        Src::Mem => {
            let bytes = sim.lock().get(path).to_vec();
            around(sim, &what, || {
                let mut c = std::io::Cursor::new(&bytes);
                c.set_position(start);
                (call(sim, || Tag::read_from(&mut c)), None)
            })
        }
        Src::RawFile | Src::Buf(_) => {
            let fd = sim.lock().raw_open(path, true, false);
            let Some(fd) = fd else { return read(sim, path, Src::Path, 0) };
            sim.lock().raw_seek(fd, start);
            let mut f = unsafe { File::from_raw_fd(fd) };
            let d = around(sim, &what, || {
                let o = match src {
                    Src::Buf(n) => call(sim, || Tag::read_from(&mut BufReader::with_capacity(n, &f))),
                    _ => call(sim, || Tag::read_from(&mut f)),
                };
                (o, None)
            });
            let fd = f.into_raw_fd();
            sim.lock().raw_close(fd);
            d
        }
        Src::Stream | Src::BufStream(_) => {
            let fd = sim.lock().raw_open(path, true, false);
            let Some(fd) = fd else { return read(sim, path, Src::Path, 0) };
            sim.lock().raw_seek(fd, start);
            let mut s = Stream { sim: sim.clone(), fd, flush_err: None };
            let d = around(sim, &what, || {
                let o = match src {
                    Src::BufStream(n) => call(sim, || Tag::read_from(&mut BufReader::with_capacity(n, &mut s))),
                    _ => call(sim, || Tag::read_from(&mut s)),
                };
                (o, None)
            });
            sim.lock().raw_close(fd);
            d
        }
    }
}

pub fn gen_src(t: &mut Tape) -> Src {
    match t.weighted(&[4, 2, 2, 3, 2, 2]) {
        0 => Src::Path,
        1 => Src::RawFile,
        2 => Src::Buf(*t.pick(&[1usize, 2, 3, 7, 8, 13, 16, 64, 4096])),
        3 => Src::Stream,
        4 => Src::BufStream(*t.pick(&[1usize, 2, 3, 7, 8, 13, 16, 64, 4096])),
        _ => Src::Mem,
    }
}

/// Short and interrupted transfers, stalls: everything a healthy system may legally do.
pub fn gen_noise(t: &mut Tape) -> Noise {
    let seed = |t: &mut Tape| t.below(1 << 30);
    match t.weighted(&[4, 3, 3, 2, 2, 1]) {
        0 => Noise::default(),
        1 => Noise { rshort: 40, wshort: 40, eintr: 20, stall: 4, seed: seed(t), ..Noise::default() },
        2 => Noise { rshort: 200, wshort: 200, eintr: 60, stall: 1, seed: seed(t), ..Noise::default() },
        3 => Noise { one_byte_reads: true, eintr: 10, stall: 1, seed: seed(t), ..Noise::default() },
        4 => Noise { one_byte_writes: true, rshort: 30, eintr: 10, seed: seed(t), ..Noise::default() },
        _ => Noise { eintr: 200, stall: 20, seed: seed(t), ..Noise::default() },
    }
}

pub fn gen_via(t: &mut Tape, len: u64) -> Via {
    match t.weighted(&[5, 2, 2, 1]) {
        0 => Via::Path,
        1 => Via::Handle(0),
        2 => Via::Handle(t.below(len + 1)),
        _ => Via::Handle(len + t.below(64)),
    }
}

/// A tag to save: fresh, empty, an edited copy of what the file holds, or exactly what it holds.
pub fn gen_tag_items(t: &mut Tape, current: &Items, max_items: u64, max_val: u64) -> Items {
    let max_items = if max_val == MANY { 700 } else { max_items };
    match t.weighted(&[6, 4, 1, 1]) {
        0 => gen_items(t, max_items, max_val),
        1 => {
            let mut v = current.clone();
            for _ in 0..1 + t.below(3) {
                if !v.is_empty() && t.chance(1, 3) {
                    let i = t.usize(v.len());
                    v.remove(i);
                } else {
                    for (id, vals) in gen_items(t, 2, max_val) {
                        match v.iter_mut().find(|e| e.0 == id) {
                            Some(e) => {
                                if t.chance(1, 2) {
                                    e.1 = vals
                                } else {
                                    e.1.extend(vals)
                                }
                            }
                            None => v.push((id, vals)),
                        }
                    }
                }
            }
            v
        }
        2 => Items::new(),
        _ => current.clone(),
    }
}

/// The largest value in files and tags of hundreds of items.
const MANY: u64 = 5;

/// Beyond what fits into 16 bits, or a mebibyte.
pub fn rare_opts(t: &mut Tape) -> Opts {
    match t.below(5) {
        3 | 4 => Opts { crowd: 1 + t.below(5) as u8, ..Opts::default() },
        2 => Opts { items: 2, huge_tables: true, ..Opts::default() },
        0 => Opts { items: 2, val: 1_300_000, ..Opts::default() },
        _ => Opts { items: 700, val: MANY, ..Opts::default() },
    }
}

pub fn gen_opts(t: &mut Tape) -> Opts {
    if t.chance(1, 160) {
        if t.chance(1, 12) {
            // a value or media of tens of mebibytes
            return match t.below(2) {
                0 => Opts { items: 2, val: 36 << 20, ..Opts::default() },
                _ => Opts { hulk: true, ..Opts::default() },
            };
        }
        return rare_opts(t);
    }
    match t.weighted(&[6, 2, 1, 1, 1]) {
        0 => Opts::default(),
        1 => Opts { ext: 8, ..Opts::default() },
        2 => Opts { items: 12, val: 3000, ..Opts::default() },
        // values and media beyond the usual I/O buffers
        4 => Opts { items: 3, val: 70_000, bulk: true, ..Opts::default() },
        _ => Opts { ext: 0, items: 40, val: 60, ..Opts::default() },
    }
}

pub fn gen_container(cx: &mut Cx, o: Opts) -> Container {
    let c = mp4::gen(&mut cx.t, o);
    cx.shape.add(c.shape);
    if cx.tracing {
        let s = outline(&c.store);
        cx.trace.push(format!("file of {} bytes: {}", c.store.len(), s));
        let i = format!("items: {:?}", c.items);
        cx.trace.push(i);
    }
    c
}

/// One line naming the structure of a file.
pub fn outline(s: &Store) -> String {
    fn level(v: &[mp4::P], out: &mut String, deep: u32) {
        for (i, p) in v.iter().enumerate() {
            if i > 0 {
                out.push(' ');
            }
            out.push_str(&crate::model::cc_str(&p.cc));
            if p.hlen == 16 {
                out.push('*');
            }
            out.push_str(&format!("@{}+{}", p.pos, p.len));
            if !p.kids.is_empty() && deep > 0 {
                out.push('(');
                level(&p.kids, out, deep - 1);
                out.push(')');
            }
        }
    }
    match mp4::parse(s) {
        Ok(t) => {
            let mut o = String::new();
            level(&t, &mut o, 8);
            o
        }
        Err(e) => format!("not well-formed ({})", e),
    }
}

pub fn info_of(t: &Tag) -> (String, mp4ameta::AudioInfo) {
    (t.filetype().to_string(), t.audio_info().clone())
}

pub fn make(items: &Items) -> Tag {
    build_tag(items)
}

pub fn tag_items(t: &Tag) -> Items {
    items_of(t)
}

pub fn first_diff(a: &Store, b: &Store) -> Option<u64> {
    Store::first_diff(a, 0, b, 0, a.len().max(b.len()))
}

/// Where a dump goes.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum To {
    Path,
    File,
    Stream,
    BufStream(usize),
}

pub fn dump(sim: &Sim, path: &str, tag: &Tag, to: To) -> Done<()> {
    match to {
        To::Path => {
            let p = disguise(sim, path);
            around(sim, &format!("dump_to_path({:?})", short(&p)), || (call(sim, || tag.dump_to_path(&p)), None))
        }
        _ => {
            let fd = {
                let mut w = sim.lock();
                w.put(path, Store::default());
                w.raw_open(path, false, true).unwrap()
            };
            let d = match to {
                To::File => {
                    let mut f = unsafe { File::from_raw_fd(fd) };
                    let d = around(sim, &format!("dump_to(file {})", path), || (call(sim, || tag.dump_to(&mut f)), None));
                    let _ = f.into_raw_fd();
                    d
                }
                To::BufStream(n) => {
                    let mut s = Stream { sim: sim.clone(), fd, flush_err: None };
                    around(sim, &format!("dump_to(buffered stream {})", path), || {
                        let o = call(sim, || {
                            let mut b = std::io::BufWriter::with_capacity(n, &mut s);
                            tag.dump_to(&mut b)?;
                            use std::io::Write;
                            b.flush()?;
                            Ok(())
                        });
                        (o, None)
                    })
                }
                _ => {
                    let mut s = Stream { sim: sim.clone(), fd, flush_err: None };
                    around(sim, &format!("dump_to(stream {})", path), || (call(sim, || tag.dump_to(&mut s)), None))
                }
            };
            let mut w = sim.lock();
            let mut d = d;
            if !w.fd_is_open(fd) && !w.crashed {
                d.leak = Some("the caller's handle was closed".into());
            }
            w.raw_close(fd);
            d
        }
    }
}

pub fn gen_to(t: &mut Tape) -> To {
    match t.weighted(&[4, 2, 3, 1]) {
        0 => To::Path,
        1 => To::File,
        2 => To::Stream,
        _ => To::BufStream(*t.pick(&[1usize, 3, 8, 64, 8192])),
    }
}

/// How often each class of call occurred in the operation just made.
pub fn counts(sim: &Sim) -> Vec<(Op, u32)> {
    let w = sim.lock();
    [Op::Open, Op::Read, Op::Write, Op::Seek, Op::Trunc, Op::Stat, Op::Sync, Op::Other].iter().map(|&o| (o, w.count(o))).filter(|x| x.1 > 0).collect()
}
