//! Failing storage: C08 (reported), C09 (untouched), C10 (containment), C12 (damaged files), C14 (dumps), C18 (namespace).
use crate::cx::*;
use crate::model::{cc_str, diff_items, encoded_len, gen_items, Items};
use crate::mp4::{self, Body, Container, Node, Opts, P};
use crate::p_read::gen_externals;
use crate::p_save::{limit_for, short_outline};
use crate::sim::*;
use crate::store::Store;
use crate::tape::{pattern, Tape};
use mp4ameta::{Error, ErrorKind};
use std::collections::BTreeMap;

const F: &str = "/sim/song.m4a";

fn errno_for(t: &mut Tape, op: Op) -> i32 {
    *match op {
        Op::Open => t.pick(&[EACCES, EMFILE, EIO, ENOENT, EROFS]),
        Op::Read => t.pick(&[EIO, ESTALE, EAGAIN, EBADF]),
        Op::Write => t.pick(&[EIO, ENOSPC, EDQUOT, EFBIG, EROFS, EAGAIN]),
        Op::Trunc => t.pick(&[EIO, ENOSPC, EFBIG, EINVAL, EROFS]),
        _ => t.pick(&[EIO, EMFILE]),
    }
}

/// A call of the operation: early, late, the last one or anywhere.
fn nth_of(t: &mut Tape, n: u32) -> u32 {
    match t.weighted(&[6, 3, 1, 1]) {
        0 => t.below(n.max(1) as u64) as u32,
        1 => n.saturating_sub(1),
        2 => 0,
        _ => n.saturating_sub(1 + t.below(4) as u32),
    }
}

/// One fault on a call the undisturbed operation makes.
fn gen_fault(t: &mut Tape, counts: &[(Op, u32)], ops: &[Op]) -> Option<Fault> {
    let c: Vec<&(Op, u32)> = counts.iter().filter(|c| ops.contains(&c.0)).collect();
    if c.is_empty() {
        return None;
    }
    let &&(op, n) = t.pick(&c);
    let nth = nth_of(t, n);
    let e = errno_for(t, op);
    let kind = match op {
        Op::Read => match t.weighted(&[5, 2, 3]) {
            0 => Kind::Errno(e),
            1 => Kind::PartialThenErr(t.below(256) as u8, e),
            _ => Kind::Eof,
        },
        Op::Write => match t.weighted(&[5, 3, 2]) {
            0 => Kind::Errno(e),
            1 => Kind::PartialThenErr(t.below(256) as u8, e),
            _ => Kind::Zero,
        },
        _ => Kind::Errno(e),
    };
    let sticky = t.chance(1, 3);
    Some(Fault { op: Some(op), nth, kind, sticky })
}

fn disruptive(d: &[(Op, Kind)]) -> bool {
    d.iter().any(|(_, k)| !matches!(k, Kind::Short(_) | Kind::Eintr))
}

/// Is this the error of one of the faults?
fn reported<T>(e: &Error, d: &Done<T>) -> Result<(), String> {
    if d.fired.iter().any(|f| f.1 == Kind::Eof) {
        // a file that ends early may be noticed as a malformed one
        return Ok(());
    }
    let ErrorKind::Io(io) = &e.kind else {
        return Err(format!("fails with {:?}, not with the storage's error ({:?})", e, d.fired));
    };
    let same = |n: i32| io.raw_os_error() == Some(n) || (io.raw_os_error().is_none() && io.kind() == std::io::Error::from_raw_os_error(n).kind());
    if d.nospace && same(ENOSPC) {
        return Ok(());
    }
    for (_, k) in &d.fired {
        match k {
            Kind::Errno(n) | Kind::PartialThenErr(_, n) if same(*n) => return Ok(()),
            Kind::Zero if io.kind() == std::io::ErrorKind::WriteZero => return Ok(()),
            _ => {}
        }
    }
    Err(format!("fails with {:?}, the storage's error was {:?}", e, d.fired))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Read(Src),
    Save(Via),
    Dump(To),
}

pub fn c08(cx: &mut Cx) -> R {
    let o = gen_opts(&mut cx.t);
    let c = gen_container(cx, o);
    let items = gen_tag_items(&mut cx.t, &c.items, 6, o.val);
    cx.note(|| format!("tag: {:?}", items));
    let what = match cx.t.weighted(&[6, 2, 2]) {
        0 => What::Save(gen_via(&mut cx.t, c.store.len())),
        1 => {
            let s = gen_src(&mut cx.t);
            What::Read(if s == Src::Mem { Src::Path } else { s })
        }
        _ => What::Dump(gen_to(&mut cx.t)),
    };
    let noise = gen_noise(&mut cx.t);
    let tag = make(&items);
    // the undisturbed call
    let w = cx.world("healthy");
    w.lock().put(F, c.store.clone());
    w.lock().set_noise(noise);
    w.lock().limit = u64::MAX / 16;
    // whatever the spelling of the path
    w.lock().disguise = 0;
    let (ok, expect) = match what {
        What::Read(s) => match read(&w, F, s, 0).out {
            Out::Ok(t) => (true, Some(t)),
            _ => (false, None),
        },
        What::Save(v) => (save(&w, F, &tag, v).ok(), None),
        What::Dump(to) => (dump(&w, F, &tag, to).ok(), None),
    };
    let cnt = counts(&w);
    let image = w.lock().get(F);
    let pages = (image.pages().max(1), c.store.pages());
    cx.release(&w);
    if !ok {
        // whether healthy calls succeed is another property
        return Ok(());
    }
    let k = 3 + cx.t.below(4);
    for _ in 0..k {
        let sim = cx.world("failing");
        sim.lock().put(F, c.store.clone());
        sim.lock().set_noise(noise);
        sim.lock().limit = 20_000 + 80 * (c.store.len() + encoded_len(&items));
        let n = 1 + cx.t.weighted(&[6, 1, 1]);
        for _ in 0..n {
            if matches!(what, What::Save(_) | What::Dump(_)) && cx.t.chance(1, 6) {
                // a disk with room for only part of what is to come
                let base = if matches!(what, What::Dump(_)) { 0 } else { pages.1 };
                let cap = base + cx.t.usize(pages.0.saturating_sub(base) + 1);
                sim.lock().capacity_pages = Some(cap);
                continue;
            }
            let Some(f) = gen_fault(&mut cx.t, &cnt, &[Op::Open, Op::Read, Op::Write, Op::Seek, Op::Trunc, Op::Stat, Op::Sync, Op::Other]) else { continue };
            sim.lock().plan.push(f);
        }
        let (d, got) = match what {
            What::Read(s) => {
                let d = read(&sim, F, s, 0);
                let Done { out, .. } = &d;
                let bad = match (out, &expect) {
                    (Out::Ok(t), Some(e)) if t != e => Some(diff_items(&tag_items(e), &tag_items(t)).unwrap_or_else(|| "file type or audio information differ".into())),
                    _ => None,
                };
                (strip(d), bad)
            }
            What::Save(v) => {
                let d = save(&sim, F, &tag, v);
                let img = sim.lock().get(F);
                let bad = if d.ok() { first_diff(&image, &img).map(|p| format!("the file differs from the undisturbed save at {} (lengths {} and {})", p, image.len(), img.len())) } else { None };
                (d, bad)
            }
            What::Dump(to) => {
                let d = dump(&sim, F, &tag, to);
                let img = sim.lock().get(F);
                let bad = if d.ok() { first_diff(&image, &img).map(|p| format!("the dump differs from the undisturbed one at {} (lengths {} and {})", p, image.len(), img.len())) } else { None };
                (d, bad)
            }
        };
        cx.evals += 1;
        if let Some(p) = d.panicked() {
            return viol("panic", format!("{:?} with {:?}: {}", what, d.fired, p));
        }
        if d.hang {
            return viol("hang", format!("{:?} with {:?} does not end", what, d.fired));
        }
        if disruptive(&d.fired) || d.nospace {
            cx.nontrivial = true;
        }
        if let Some(m) = got {
            return viol("masked", format!("{:?} reports success with {:?}{}, but {}", what, d.fired, if d.nospace { " and a full disk" } else { "" }, m));
        }
        if d.ok() {
            // a call needs what it opens, reads, writes and resizes
            let lost = d.fired.iter().find(|(op, k)| matches!(op, Op::Open | Op::Read | Op::Write | Op::Trunc) && matches!(k, Kind::Errno(_)));
            if lost.is_some() || d.nospace {
                return viol("swallowed", format!("{:?} reports success with {:?}{}", what, d.fired, if d.nospace { " and a full disk" } else { "" }));
            }
        }
        if let Out::Err(e) = &d.out {
            if !disruptive(&d.fired) && !d.nospace {
                return viol("fails-without-fault", format!("{:?}: {:?}", what, e));
            }
            if let Err(m) = reported(e, &d) {
                return viol("wrong-error", format!("{:?} {}", what, m));
            }
        }
        if cx.sample.is_empty() {
            cx.sample = format!("{:?} with {:?}: {}", what, d.fired, d.describe());
        }
        cx.release(&sim);
    }
    Ok(())
}

fn strip(d: Done<mp4ameta::Tag>) -> Done<()> {
    Done {
        out: match d.out {
            Out::Ok(_) => Out::Ok(()),
            Out::Err(e) => Out::Err(e),
            Out::Panic(p) => Out::Panic(p),
        },
        steps: d.steps,
        peak: d.peak,
        hang: d.hang,
        fired: d.fired,
        nospace: d.nospace,
        crashed: d.crashed,
        leak: d.leak,
        opens: d.opens,
        writes: d.writes,
        bytes_read: d.bytes_read,
        bytes_written: d.bytes_written,
    }
}

fn unchanged(before: &Store, after: &Store) -> Option<String> {
    if before.len() != after.len() {
        return Some(format!("length {} became {}", before.len(), after.len()));
    }
    first_diff(before, after).map(|p| format!("byte {} differs", p))
}

/// Something about the file makes a save of it impossible; whether that is certain.
fn reject(cx: &mut Cx, c: &Container) -> (Store, String, bool) {
    match cx.t.weighted(&[1, 1, 2, 3, 2, 2, 1, 1]) {
        0 => {
            let mut top = c.top.clone();
            top[0].cc = **cx.t.pick(&[b"free", b"moov", b"mdat", b"FTYP", b"\0\0\0\0"]);
            (mp4::emit_file(&top), "no file type atom".into(), true)
        }
        1 => {
            let mut top = c.top.clone();
            top.retain(|n| &n.cc != b"moov");
            (mp4::emit_file(&top), "no movie atom".into(), true)
        }
        2 => {
            let n = cx.t.below(c.store.len());
            let end = mp4::parse(&c.store).ok().and_then(|t| mp4::top(&t, b"moov").map(|m| m.end())).unwrap_or(0);
            let mut s = c.store.clone();
            s.set_len(n);
            (s, format!("truncated to {}", n), n < end)
        }
        3 => {
            // one of the chunk offset tables: version, flags, count or size
            let Ok(t) = mp4::parse(&c.store) else { return (c.store.clone(), String::new(), false) };
            let tabs = mp4::tables(&c.store, &t);
            if tabs.is_empty() {
                return damaged(cx, &c.store);
            }
            let tab = &tabs[cx.t.usize(tabs.len())];
            // the tables are only looked at if media may have to move
            let moov = t.iter().position(|p| &p.cc == b"moov");
            let looked_at = moov.map_or(false, |i| t[i..].iter().any(|p| &p.cc == b"mdat"));
            let mut s = c.store.clone();
            match cx.t.below(3) {
                0 => {
                    let v = 1 + cx.t.below(255) as u8;
                    s.write_at(tab.pos - 8, &[v]);
                    (s, format!("version of the offset table at {} is {}", tab.pos, v), looked_at)
                }
                1 => {
                    let n = tab.offs.len() as u32;
                    let v = *cx.t.pick(&[n + 1, n.wrapping_sub(1), 0x4000_0000, 0x2000_0000, 0x4000_0000 + n, u32::MAX, n * 2 + 1]);
                    s.write_at(tab.pos - 4, &v.to_be_bytes());
                    (s, format!("count of the offset table at {} is {} instead of {}", tab.pos, v, n), looked_at)
                }
                _ => {
                    let cut = tab.pos + cx.t.below(8);
                    s.set_len(cut.min(s.len()));
                    (s, format!("truncated within the offset table at {}", tab.pos), moov.map_or(false, |i| cut < t[i].end()))
                }
            }
        }
        4 => damaged(cx, &c.store),
        5 => {
            // sizes of the enclosing atoms
            let Ok(t) = mp4::parse(&c.store) else { return (c.store.clone(), String::new(), false) };
            let mut path: Vec<(&P, u64)> = Vec::new();
            if let Some(m) = mp4::top(&t, b"moov") {
                path.push((m, c.store.len()));
                if let Some(u) = m.find(b"udta") {
                    path.push((u, m.end()));
                    if let Some(me) = u.find(b"meta") {
                        path.push((me, u.end()));
                        if let Some(i) = me.find(b"ilst") {
                            path.push((i, me.end()));
                        }
                    }
                }
                if cx.t.chance(1, 3) {
                    // any atom next to those a save looks for
                    walked(m, &mut path);
                }
            }
            if path.is_empty() {
                return damaged(cx, &c.store);
            }
            let i = cx.t.usize(path.len());
            let (p, limit) = path[i];
            let new = if cx.t.chance(1, 4) {
                // exactly up to something that looks like an atom
                let near = c.store.slice(p.end(), (c.store.len() - p.end()).min(1 << 16));
                let hs: Vec<u64> = mp4::heads(&near).into_iter().map(|h| p.len + h as u64).collect();
                if hs.is_empty() {
                    p.len + 1
                } else {
                    hs[cx.t.usize(hs.len())]
                }
            } else {
                let delta = *cx.t.pick(&[1i64, -1, 8, -8, 12, 100, -100, 1 << 20, 1 << 31]);
                (p.len as i64 + delta).max(0) as u64
            };
            let mut s = c.store.clone();
            if p.hlen == 16 {
                s.write_at(p.pos + 8, &new.to_be_bytes());
            } else {
                s.write_at(p.pos, &(new as u32).to_be_bytes());
            }
            (s, format!("size of {} is {} instead of {}", cc_str(&p.cc), new, p.len), new != 1 && (new < p.hlen || p.pos + new > limit))
        }
        6 => {
            let Ok(t) = mp4::parse(&c.store) else { return (c.store.clone(), String::new(), false) };
            let mut s = c.store.clone();
            if let Some(me) = mp4::top(&t, b"moov").and_then(|m| m.find(b"udta")).and_then(|u| u.find(b"meta")) {
                let v = 1 + cx.t.below(255) as u8;
                s.write_at(me.body(), &[v]);
                return (s, format!("metadata atom of version {}", v), true);
            }
            damaged(cx, &c.store)
        }
        _ => {
            let mut s = c.store.clone();
            let k = 1 + cx.t.below(12);
            let b = if cx.t.chance(1, 2) { vec![0; k as usize] } else { pattern(cx.t.below(1 << 16), k as usize) };
            let at = s.len();
            s.write_at(at, &b);
            (s, format!("{} stray bytes at the end", k), false)
        }
    }
}

/// The atoms in the containers a save walks through, and where their parents end.
fn walked<'a>(p: &'a P, out: &mut Vec<(&'a P, u64)>) {
    for k in &p.kids {
        out.push((k, p.end()));
        let on = [(b"moov", b"trak"), (b"trak", b"mdia"), (b"mdia", b"minf"), (b"minf", b"stbl"), (b"moov", b"udta"), (b"udta", b"meta")];
        if on.iter().any(|c| *c.0 == p.cc && *c.1 == k.cc) {
            walked(k, out);
        }
    }
}

fn damaged(cx: &mut Cx, s: &Store) -> (Store, String, bool) {
    let (s, w) = damage(cx, s);
    (s, w, false)
}

fn damage(cx: &mut Cx, s: &Store) -> (Store, String) {
    let (s, w) = mp4::damage(&mut cx.t, s);
    (s, w.join("; "))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Access {
    Full(Via),
    ReadOnlyFile,
    ReadOnlyHandle(u64),
    WriteOnlyHandle(u64),
}

fn save_as(sim: &Sim, tag: &mp4ameta::Tag, a: Access) -> Done<()> {
    match a {
        Access::Full(v) => save(sim, F, tag, v),
        Access::ReadOnlyFile => {
            let i = sim.lock().names[F];
            sim.lock().inodes[i].read_only = true;
            let d = save(sim, F, tag, Via::Path);
            sim.lock().inodes[i].read_only = false;
            d
        }
        Access::ReadOnlyHandle(p) | Access::WriteOnlyHandle(p) => {
            use std::os::fd::{FromRawFd, IntoRawFd};
            let wr = matches!(a, Access::WriteOnlyHandle(_));
            let fd = sim.lock().raw_open(F, !wr, wr).unwrap();
            sim.lock().raw_seek(fd, p);
            let f = unsafe { std::fs::File::from_raw_fd(fd) };
            let d = around(sim, &format!("write_to({} handle)", if wr { "write-only" } else { "read-only" }), || (call(sim, || tag.write_to(&f)), None));
            let fd = f.into_raw_fd();
            sim.lock().raw_close(fd);
            d
        }
    }
}

pub fn c09(cx: &mut Cx) -> R {
    let o = gen_opts(&mut cx.t);
    let c = gen_container(cx, o);
    let mode = cx.t.weighted(&[5, 5, 2, 2]);
    let rounds = 1 + cx.t.below(3);
    for _ in 0..rounds {
        let items = gen_tag_items(&mut cx.t, &c.items, 5, o.val);
        let tag = make(&items);
        let (store, why, refuse) = match mode {
            0 | 2 => reject(cx, &c),
            _ => (c.store.clone(), String::new(), false),
        };
        let noise = gen_noise(&mut cx.t);
        let access = match (mode, cx.t.below(3)) {
            (3, 0) => Access::ReadOnlyFile,
            (3, 1) => Access::ReadOnlyHandle(cx.t.below(store.len() + 1)),
            (3, _) => Access::WriteOnlyHandle(cx.t.below(store.len() + 1)),
            _ => Access::Full(gen_via(&mut cx.t, store.len())),
        };
        // reference: the same save undisturbed
        let w = cx.world("undisturbed");
        w.lock().put(F, store.clone());
        w.lock().limit = u64::MAX / 16;
        w.lock().set_noise(noise);
        let via = match access {
            Access::Full(v) => v,
            _ => Via::Path,
        };
        let hd = save(&w, F, &tag, via);
        let healthy = hd.ok();
        let cnt = counts(&w);
        let image = w.lock().get(F);
        cx.release(&w);
        if healthy && refuse {
            return viol("not-refused", format!("[{}] a save to this file succeeds", why));
        }
        let sim = cx.world("failing");
        cx.say(&sim, || format!("[{}] {}; tag {:?}", why, outline(&store), items));
        sim.lock().put(F, store.clone());
        sim.lock().limit = u64::MAX / 16;
        sim.lock().set_noise(noise);
        if mode == 1 || mode == 2 {
            let n = 1 + cx.t.weighted(&[5, 2]);
            for _ in 0..n {
                if let Some(f) = gen_fault(&mut cx.t, &cnt, &[Op::Open, Op::Read, Op::Trunc, Op::Seek, Op::Stat, Op::Other]) {
                    sim.lock().plan.push(f);
                }
            }
        }
        let d = save_as(&sim, &tag, access);
        cx.evals += 1;
        let img = sim.lock().get(F);
        let mutated = sim.lock().journal.len();
        if d.ok() {
            if healthy {
                if let Some(m) = first_diff(&image, &img) {
                    return viol("masked", format!("{:?} with {:?} reports success, but the file differs from the undisturbed save at {}", access, d.fired, m));
                }
            }
            continue;
        }
        if d.panicked().is_some() || d.hang {
            // the business of other properties
            return Ok(());
        }
        // repositioning of an open file does not fail on real storage once the save has begun to write
        if d.fired.iter().any(|f| f.0 == Op::Seek) && mutated > 0 {
            continue;
        }
        cx.nontrivial = true;
        if let Some(m) = unchanged(&store, &img) {
            return viol("not-untouched", format!("[{}] {:?} with {:?} fails ({}), but {}", why, access, d.fired, d.describe(), m));
        }
        if cx.sample.is_empty() {
            cx.sample = format!("[{}] {:?} with {:?}: {}", why, access, d.fired, d.describe());
        }
        // once the fault is gone
        sim.lock().calm();
        if cx.t.chance(1, 2) {
            sim.lock().restart();
        }
        let d = save(&sim, F, &tag, via);
        cx.evals += 1;
        let img = sim.lock().get(F);
        match (healthy, d.ok()) {
            (true, true) => {
                if let Some(p) = first_diff(&image, &img) {
                    return viol("retry-differs", format!("after [{}] {:?} the repeated save differs from the undisturbed one at {}", why, access, p));
                }
            }
            (true, false) => return viol("retry-fails", format!("after {:?} the repeated save: {}", access, d.describe())),
            (false, false) => {
                if let Some(m) = unchanged(&store, &img) {
                    return viol("not-untouched", format!("[{}] refused again ({}), but {}", why, d.describe(), m));
                }
            }
            (false, true) => return viol("retry-differs", format!("[{}] is refused undisturbed, but accepted after a failed attempt", why)),
        }
        cx.release(&sim);
    }
    Ok(())
}

/// Where the save may rearrange: from the item list (or what is created for it) on.
fn boundary(bt: &[P], at: &[P]) -> u64 {
    let bm = mp4::top(bt, b"moov");
    let am = mp4::top(at, b"moov");
    let mut v = Vec::new();
    if let Some(i) = mp4::ilst(bt) {
        v.push(i.pos);
    }
    if let Some(i) = mp4::ilst(at) {
        v.push(i.pos);
    }
    let bu = bm.and_then(|m| m.find(b"udta"));
    let au = am.and_then(|m| m.find(b"udta"));
    let bme = bu.and_then(|u| u.find(b"meta"));
    let ame = au.and_then(|u| u.find(b"meta"));
    if bu.is_none() {
        v.extend(au.map(|u| u.pos));
    }
    if bme.is_none() {
        v.extend(ame.map(|m| m.pos));
    }
    if bme.and_then(|m| m.find(b"hdlr")).is_none() {
        v.extend(ame.and_then(|m| m.find(b"hdlr")).map(|h| h.pos));
    }
    v.into_iter().min().unwrap_or(0)
}

/// Stretches ahead of the boundary which may change.
fn open_ranges(s: &Store, bt: &[P]) -> Vec<(u64, u64)> {
    let mut v = Vec::new();
    let mut head = |p: &P| {
        if p.hlen == 16 {
            v.push((p.pos + 8, p.pos + 16));
        } else {
            v.push((p.pos, p.pos + 4));
        }
    };
    if let Some(m) = mp4::top(bt, b"moov") {
        head(m);
        if let Some(u) = m.find(b"udta") {
            head(u);
            if let Some(me) = u.find(b"meta") {
                head(me);
            }
        }
    }
    for t in mp4::tables(s, bt) {
        v.push((t.pos, t.pos + t.offs.len() as u64 * if t.wide { 8 } else { 4 }));
    }
    v.sort();
    v
}

struct Region {
    moov: u64,
    bound: u64,
    open: Vec<(u64, u64)>,
    min_len: u64,
}

fn contained(before: &Store, img: &Store, r: &Region) -> Result<(), String> {
    if img.len() < r.min_len {
        return Err(format!("the file has {} bytes, fewer than before and after the save ({})", img.len(), r.min_len));
    }
    let b = r.bound.min(before.len());
    let mut at = 0;
    let check = |from: u64, to: u64| -> Result<(), String> {
        if to > from {
            if let Some(d) = Store::first_diff(before, from, img, from, to - from) {
                let p = from + d;
                return Err(if p < r.moov {
                    format!("byte {} in front of the movie atom (at {}) changed", p, r.moov)
                } else {
                    format!("byte {} changed, which is neither a size of an enclosing atom nor a chunk offset (movie atom at {}, item list at {})", p, r.moov, r.bound)
                });
            }
        }
        Ok(())
    };
    for &(s, e) in &r.open {
        if s >= b {
            break;
        }
        check(at, s)?;
        at = at.max(e);
    }
    check(at, b)
}

/// What the disk may hold after a power failure: writes after the last sync kept, lost or torn by sector.
fn power_loss(t: &mut Tape, before: &Store, journal: &[Mut], durable: usize) -> (Store, String) {
    let mut s = before.clone();
    let mode = t.weighted(&[4, 2, 1]);
    let cut = if mode == 1 { durable + t.usize(journal.len() - durable + 1) } else { journal.len() };
    let mut what = String::new();
    for (i, m) in journal.iter().enumerate() {
        let keep = i < durable || (i < cut && (mode == 1 || t.chance(1, 2)));
        let torn = i >= durable && mode != 2 && t.chance(1, 5);
        match m {
            Mut::SetLen(_, n) => {
                if keep {
                    s.set_len(*n);
                } else {
                    what.push_str(&format!(" length {} lost;", n));
                }
            }
            Mut::Write(_, off, b) => {
                if torn {
                    // some of the sectors of this write
                    let mut o = 0usize;
                    let mut n = 0;
                    while o < b.len() {
                        let e = ((off + o as u64) / 512 + 1) * 512 - off;
                        let e = (e as usize).min(b.len());
                        if t.chance(1, 2) {
                            s.write_at(off + o as u64, &b[o..e]);
                            n += 1;
                        }
                        o = e;
                    }
                    what.push_str(&format!(" {} sectors of write @{}+{} kept;", n, off, b.len()));
                } else if keep {
                    s.write_at(*off, b);
                } else {
                    what.push_str(&format!(" write @{}+{} lost;", off, b.len()));
                }
            }
        }
    }
    (s, what)
}

pub fn c10(cx: &mut Cx) -> R {
    let o = gen_opts(&mut cx.t);
    let c = gen_container(cx, o);
    let mut before = c.store.clone();
    let mut current = c.items.clone();
    let rounds = 1 + cx.t.below(2);
    for _ in 0..rounds {
        let items = gen_tag_items(&mut cx.t, &current, 6, o.val);
        let tag = make(&items);
        let noise = gen_noise(&mut cx.t);
        let via = gen_via(&mut cx.t, before.len());
        let w = cx.world("undisturbed");
        w.lock().put(F, before.clone());
        w.lock().set_noise(noise);
        w.lock().limit = u64::MAX / 16;
        if !save(&w, F, &tag, via).ok() {
            return Ok(());
        }
        let cnt = counts(&w);
        let total = w.lock().total();
        let after = w.lock().get(F);
        cx.release(&w);
        let Ok(bt) = mp4::parse(&before) else { return Ok(()) };
        // a save that breaks the structure is the business of other properties
        let Ok(at) = mp4::parse(&after) else { return Ok(()) };
        let Some(m) = mp4::top(&bt, b"moov") else { return Ok(()) };
        let r = Region { moov: m.pos, bound: boundary(&bt, &at), open: open_ranges(&before, &bt), min_len: before.len().min(after.len()) };
        let k = 2 + cx.t.below(4);
        for _ in 0..k {
            let sim = cx.world("interrupted");
            cx.say(&sim, || format!("{}; tag {:?}; may change from {} on", outline(&before), items, r.bound));
            sim.lock().put(F, before.clone());
            sim.lock().set_noise(noise);
            sim.lock().limit = u64::MAX / 16;
            let writes = cnt.iter().find(|c| c.0 == Op::Write).map_or(0, |c| c.1);
            let reads = total.saturating_sub(writes + 8);
            match cx.t.weighted(&[4, 4, 4, 1, 2, 2]) {
                0 => {
                    // mostly in the second half, where the file changes
                    let nth = if cx.t.mostly(3, 4) { reads + cx.t.below((total - reads).max(1) as u64) as u32 } else { cx.t.below(total.max(1) as u64) as u32 };
                    sim.lock().plan.push(Fault { op: None, nth, kind: Kind::CrashBefore, sticky: true });
                }
                1 => {
                    let nth = cx.t.below(writes.max(1) as u64) as u32;
                    let kind = Kind::CrashTorn(cx.t.below(256) as u8);
                    sim.lock().plan.push(Fault { op: Some(Op::Write), nth, kind, sticky: false });
                }
                2 => {
                    let n = 1 + cx.t.below(2);
                    for _ in 0..n {
                        if let Some(f) = gen_fault(&mut cx.t, &cnt, &[Op::Write, Op::Trunc]) {
                            sim.lock().plan.push(f);
                        }
                    }
                }
                3 => {
                    if let Some(f) = gen_fault(&mut cx.t, &cnt, &[Op::Read, Op::Seek, Op::Stat, Op::Other]) {
                        sim.lock().plan.push(f);
                    }
                }
                4 => {
                    let cap = before.pages() + cx.t.usize(after.pages().saturating_sub(before.pages()) + 2);
                    sim.lock().capacity_pages = Some(cap);
                }
                _ => {}
            }
            let d = save(&sim, F, &tag, via);
            cx.evals += 1;
            let (img, journal, durable) = {
                let w = sim.lock();
                let i = w.names[F];
                let _ = i;
                (w.get(F), w.journal.clone(), w.durable)
            };
            let how = format!("{:?}{}: {}", d.fired, if d.nospace { " and a full disk" } else { "" }, if d.crashed { "process crash".into() } else { d.describe() });
            if !journal.is_empty() {
                cx.nontrivial = true;
            }
            if let Err(m) = contained(&before, &img, &r) {
                return viol("harmed", format!("after {}: {}", how, m));
            }
            // power fails as well
            let p = 1 + cx.t.below(3);
            for _ in 0..p {
                let (s, what) = power_loss(&mut cx.t, &before, &journal, durable);
                cx.evals += 1;
                if let Err(m) = contained(&before, &s, &r) {
                    return viol("harmed-by-power-loss", format!("after {} and a power failure ({}): {}", how, what, m));
                }
                *cx.fired.entry("power loss".into()).or_insert(0) += 1;
            }
            if cx.sample.is_empty() {
                cx.sample = format!("{} onto [{}]", how, short_outline(&before));
            }
            cx.release(&sim);
        }
        before = after;
        current = items;
    }
    Ok(())
}

/// Position of the first movie atom as a top-level scan finds it.
fn first_moov(s: &Store) -> Option<u64> {
    let mut pos = 0u64;
    loop {
        let h = s.slice(pos, 16);
        if h.len() < 8 {
            return None;
        }
        let mut len = u32::from_be_bytes(h[0..4].try_into().unwrap()) as u64;
        if &h[4..8] == b"moov" {
            return Some(pos);
        }
        if len == 1 && h.len() == 16 {
            len = u64::from_be_bytes(h[8..16].try_into().unwrap());
        }
        if len < 8 {
            return None;
        }
        pos = pos.checked_add(len)?;
    }
}

pub fn c12(cx: &mut Cx) -> R {
    let o = match cx.t.weighted(&[5, 2, 2]) {
        0 => Opts::default(),
        1 => Opts { items: 10, val: 400, ..Opts::default() },
        _ => Opts { ext: 10, ..Opts::default() },
    };
    let c = gen_container(cx, o);
    let k = 1 + cx.t.below(4);
    for _ in 0..k {
        let items = gen_tag_items(&mut cx.t, &c.items, 5, o.val);
        let tag = make(&items);
        let at_rest = cx.t.mostly(4, 5);
        let (s, what) = if !at_rest {
            (c.store.clone(), String::new())
        } else if cx.t.mostly(2, 3) {
            damage(cx, &c.store)
        } else {
            let (s, w, _) = reject(cx, &c);
            (s, w)
        };
        let sim = cx.world("damaged");
        cx.say(&sim, || format!("damage: {}; now {}; tag {:?}", what, outline(&s), items));
        let ino = sim.lock().put(F, s.clone());
        let mut extra = 0;
        let mut ext = Vec::new();
        if !at_rest || cx.t.chance(1, 4) {
            let max = 30 + if cx.t.chance(1, 3) { 60 } else { 0 };
            extra = gen_externals(cx, &sim, ino, max);
            ext = sim.lock().externals.clone();
        }
        let noise = gen_noise(&mut cx.t);
        sim.lock().set_noise(noise);
        let wfault = cx.t.chance(1, 8);
        if wfault {
            let nth = cx.t.below(8) as u32;
            let e = errno_for(&mut cx.t, Op::Write);
            let sticky = cx.t.chance(1, 2);
            sim.lock().plan.push(Fault { op: Some(Op::Write), nth, kind: Kind::Errno(e), sticky });
        }
        let tl = encoded_len(&items);
        let len = s.len() + extra;
        let limit = limit_for(len, tl);
        sim.lock().limit = limit;
        let via = gen_via(&mut cx.t, s.len());
        let d = save(&sim, F, &tag, via);
        cx.evals += 1;
        if let Some(p) = d.panicked() {
            return viol("panic", format!("saving onto a file damaged by [{}]: {}", what, p));
        }
        if d.hang {
            return viol("too-many-calls", format!("more than {} calls for a file of {} bytes ([{}])", limit, len, what));
        }
        let cap = (4 << 20) + 64 * len + 8 * tl;
        if d.peak > cap {
            return viol("memory", format!("{} bytes allocated to save onto {} bytes ([{}])", d.peak, len, what));
        }
        if let Some(l) = &d.leak {
            return viol("descriptor", l.clone());
        }
        let touched = ext.len() != sim.lock().externals.len();
        let img = sim.lock().get(F);
        let wfired = d.fired.iter().any(|f| f.0 == Op::Write);
        if !d.ok() && !touched && !wfired {
            cx.nontrivial = true;
            if let Some(m) = unchanged(&s, &img) {
                return viol("not-untouched", format!("[{}] fails ({}), but {}", what, d.describe(), m));
            }
        }
        if let Some(m) = first_moov(&s) {
            if !touched {
                let n = m.min(img.len()).min(s.len());
                if img.len() < m.min(s.len()) {
                    return viol("front-altered", format!("[{}] the file ends at {}, before the movie atom (at {})", what, img.len(), m));
                }
                if let Some(p) = Store::first_diff(&s, 0, &img, 0, n) {
                    return viol("front-altered", format!("[{}] byte {} in front of the movie atom (at {}) changed; {}", what, p, m, d.describe()));
                }
            } else if ext.iter().all(|e| !matches!(e.2, External::Overwrite(..))) {
                // what the save itself wrote in front of the movie atom
                for j in sim.lock().journal.iter() {
                    if let Mut::Write(_, off, b) = j {
                        let n = m.saturating_sub(*off).min(b.len() as u64);
                        if n > 0 && s.slice(*off, n) != b[..n as usize] {
                            return viol("front-altered", format!("[{}] with {:?} the save wrote other bytes at {}, in front of the movie atom (at {})", what, ext, off, m));
                        }
                    }
                }
            }
        }
        if d.ok() {
            cx.nontrivial = true;
        }
        if cx.sample.is_empty() {
            cx.sample = format!("[{}]: {}", what, d.describe());
        }
        cx.release(&sim);
    }
    Ok(())
}

pub fn c14(cx: &mut Cx) -> R {
    if cx.t.chance(1, 4_000) {
        return crate::p_mega::dumps(cx);
    }
    let (n, max) = *cx.t.pick(&[(5u64, 300u64), (12, 3000), (40, 60), (2, 40_000)]);
    let (n, max) = match cx.t.weighted(&[150, 1, 1]) {
        0 => (n, max),
        1 => (700, 5),
        _ => (2, 1_300_000),
    };
    let items = gen_items(&mut cx.t, n, max);
    cx.note(|| format!("tag: {:?}", items));
    let tag = make(&items);
    // what the bytes should be: a dump into memory
    let mut want = Vec::new();
    match guard(|| tag.dump_to(&mut want)) {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return viol("dump-fails", format!("into memory: {:?}", e)),
        Err(p) => return viol("panic", p),
    }
    let want = Store::from_bytes(&want);
    match mp4::check_saved(&want, None) {
        Err(m) => return viol("malformed", m),
        Ok((_, got)) => {
            if let Some(m) = diff_items(&items, &got) {
                return viol("items-differ", format!("reference reader: {}", m));
            }
        }
    }
    cx.evals += 1;
    let k = 2 + cx.t.below(4);
    for i in 0..k {
        let sim = cx.world("dump");
        let to = gen_to(&mut cx.t);
        if cx.t.chance(1, 2) {
            let l = cx.t.log(want.len() * 2 + 100);
            let b = pattern(cx.t.below(1 << 16), l as usize);
            sim.lock().put(F, Store::from_bytes(&b));
        }
        let noise = gen_noise(&mut cx.t);
        sim.lock().set_noise(noise);
        sim.lock().limit = 10_000 + 40 * want.len();
        if i > 0 && cx.t.chance(1, 2) {
            // how many writes there are is learnt from an undisturbed dump
            let w = cx.world("count");
            w.lock().set_noise(noise);
            let _ = dump(&w, F, &tag, to);
            let cnt = counts(&w);
            cx.release(&w);
            if cx.t.chance(1, 5) {
                sim.lock().capacity_pages = Some(cx.t.usize(want.pages() + 1));
            } else {
                let m = 1 + cx.t.below(2);
                for _ in 0..m {
                    if let Some(f) = gen_fault(&mut cx.t, &cnt, &[Op::Open, Op::Write, Op::Trunc, Op::Seek, Op::Stat, Op::Sync, Op::Other]) {
                        sim.lock().plan.push(f);
                    }
                }
            }
        }
        let d = dump(&sim, F, &tag, to);
        cx.evals += 1;
        let img = sim.lock().get(F);
        sim.lock().calm();
        if let Some(p) = d.panicked() {
            return viol("panic", format!("{:?} with {:?}: {}", to, d.fired, p));
        }
        if d.hang {
            return viol("hang", format!("{:?} with {:?} does not end", to, d.fired));
        }
        match &d.out {
            Out::Ok(()) => {
                if let Some(p) = first_diff(&want, &img) {
                    return viol("dump-differs", format!("{:?} with {:?} reports success, but the bytes differ at {} (lengths {} and {})", to, d.fired, p, want.len(), img.len()));
                }
                let src = gen_src(&mut cx.t);
                let rn = gen_noise(&mut cx.t);
                if cx.t.chance(1, 2) {
                    sim.lock().restart();
                }
                sim.lock().set_noise(rn);
                sim.lock().limit = u64::MAX / 16;
                let rd = read(&sim, F, src, 0);
                let m = rd.describe();
                match rd.out {
                    Out::Ok(t) => {
                        if let Some(m) = diff_items(&items, &tag_items(&t)) {
                            return viol("read-differs", m);
                        }
                    }
                    _ => return viol("read-fails", format!("{:?} of the dump: {}", src, m)),
                }
                if !items.is_empty() {
                    cx.nontrivial = true;
                }
            }
            Out::Err(e) => {
                if !disruptive(&d.fired) && !d.nospace {
                    return viol("dump-fails", format!("{:?}: {:?}", to, e));
                }
                if let Err(m) = reported(e, &d) {
                    return viol("wrong-error", format!("{:?} {}", to, m));
                }
                cx.nontrivial = true;
            }
            Out::Panic(_) => {}
        }
        if let Some(l) = &d.leak {
            return viol("descriptor", l.clone());
        }
        if cx.sample.is_empty() {
            cx.sample = format!("{} items, {} bytes, {:?}: {}", items.len(), want.len(), to, d.describe());
        }
        cx.release(&sim);
    }
    Ok(())
}

pub fn c18(cx: &mut Cx) -> R {
    let o = Opts { items: 4, ..Opts::default() };
    let c = gen_container(cx, o);
    let sim = cx.world("directory");
    let bystanders: &[&str] = &["/sim/other.m4a", "/sim/song.m4a.tmp", "/sim/song.m4a~", "/sim/song.m4a.bak", "/sim/.song.m4a.swp", "/sim/song", "/sim/song.tmp", "/sim/song.m4a.new"];
    let n = cx.t.usize(bystanders.len() + 1);
    for b in &bystanders[..n] {
        let l = cx.t.log(3000);
        let b_ = if cx.t.chance(1, 3) { c.store.clone() } else { Store::from_bytes(&pattern(cx.t.below(1 << 16), l as usize)) };
        sim.lock().put(b, b_);
    }
    let state = cx.t.weighted(&[6, 2, 2, 2, 1]);
    // a directory that is missing, too
    let f = if state == 4 { "/sim/missing/song.m4a" } else { F };
    let store = match state {
        1 => reject(cx, &c).0,
        _ => c.store.clone(),
    };
    if state != 2 && state != 4 {
        let i = sim.lock().put(F, store.clone());
        if state == 3 {
            sim.lock().inodes[i].read_only = true;
        }
    }
    // an unrelated descriptor of the process
    let mut unrelated = None;
    if n > 0 && cx.t.chance(1, 2) {
        unrelated = sim.lock().raw_open(bystanders[0], true, true);
        if let Some(f) = unrelated {
            sim.lock().raw_seek(f, 17);
        }
    }
    let calls = 1 + cx.t.below(4);
    let mut summary = String::new();
    for _ in 0..calls {
        let items = gen_tag_items(&mut cx.t, &c.items, 4, o.val);
        let tag = make(&items);
        let exists = sim.lock().file(f).is_some();
        let what = match cx.t.weighted(&[3, 4, 2]) {
            0 => {
                let s = gen_src(&mut cx.t);
                What::Read(if s == Src::Mem || !exists { Src::Path } else { s })
            }
            1 => What::Save(if exists { gen_via(&mut cx.t, store.len()) } else { Via::Path }),
            _ => What::Dump(To::Path),
        };
        let noise = gen_noise(&mut cx.t);
        sim.lock().set_noise(noise);
        sim.lock().limit = 100_000 + 100 * (store.len() + encoded_len(&items) + 4000);
        let nf = cx.t.weighted(&[2, 4, 1]);
        for _ in 0..nf {
            let op = *cx.t.pick(&[Op::Open, Op::Read, Op::Write, Op::Trunc, Op::Seek, Op::Stat, Op::Other]);
            let nth = match op {
                Op::Open | Op::Trunc | Op::Stat | Op::Other => cx.t.below(2) as u32,
                Op::Read => cx.t.below(40) as u32,
                Op::Seek => cx.t.below(60) as u32,
                _ => cx.t.below(12) as u32,
            };
            let e = errno_for(&mut cx.t, op);
            let kind = match (op, cx.t.below(4)) {
                (Op::Read, 0) => Kind::Eof,
                (Op::Write, 0) => Kind::Zero,
                (Op::Read | Op::Write, 1) => Kind::PartialThenErr(cx.t.below(256) as u8, e),
                _ => Kind::Errno(e),
            };
            let sticky = cx.t.chance(1, 3);
            sim.lock().plan.push(Fault { op: Some(op), nth, kind, sticky });
        }
        let snap = |w: &World| -> (BTreeMap<String, usize>, Vec<(Store, u64)>) { (w.names.clone(), w.inodes.iter().map(|i| (i.store.clone(), i.muts)).collect()) };
        let (names, inodes) = snap(&sim.lock());
        let dump_creates = matches!(what, What::Dump(_));
        let d = match what {
            What::Read(s) => strip(read(&sim, f, s, 0)),
            What::Save(v) => save(&sim, f, &tag, v),
            What::Dump(to) => dump(&sim, f, &tag, to),
        };
        sim.lock().calm();
        cx.evals += 1;
        if d.panicked().is_some() || d.hang {
            return Ok(());
        }
        if disruptive(&d.fired) || state != 0 {
            cx.nontrivial = true;
        }
        let ctx = format!("{:?} ({}) with {:?}", what, d.describe(), d.fired);
        if let Some(l) = &d.leak {
            return viol("descriptor", format!("{}: {}", ctx, l));
        }
        let (names2, inodes2) = snap(&sim.lock());
        for (nm, i) in &names {
            match names2.get(nm) {
                None => return viol("file-gone", format!("{}: {} disappeared", ctx, nm)),
                Some(j) if j != i => return viol("file-replaced", format!("{}: {} is another file now", ctx, nm)),
                _ => {}
            }
        }
        if let Some(nm) = names2.keys().find(|k| !names.contains_key(*k) && !(dump_creates && k.as_str() == f && state != 4)) {
            return viol("file-created", format!("{}: {} appeared", ctx, nm));
        }
        let target = names.get(f).copied();
        for (i, (st, muts)) in inodes.iter().enumerate() {
            if Some(i) == target && !matches!(what, What::Read(_)) {
                continue;
            }
            if inodes2[i].1 != *muts || !Store::same(st, &inodes2[i].0) {
                let nm = sim.ino_name(i);
                return viol("other-file-changed", format!("{}: {} changed", ctx, nm));
            }
        }
        for (p, _, wr) in &d.opens {
            if p != f {
                return viol("opens-other-file", format!("{}: opened {}", ctx, p));
            }
            if *wr && matches!(what, What::Read(_)) {
                return viol("opens-for-writing", format!("{}: opened {} for writing", ctx, p));
            }
        }
        if !exists && d.ok() && (state == 4 || state == 2 && !dump_creates) {
            return viol("missing-file", format!("{} succeeds although the file or its directory does not exist", ctx));
        }
        if let Some(f) = unrelated {
            let w = sim.lock();
            if !w.fd_is_open(f) || w.fd_pos(f) != Some(17) {
                return viol("descriptor", format!("{}: an unrelated descriptor was closed or moved", ctx));
            }
        }
        if summary.is_empty() {
            summary = ctx;
        }
    }
    cx.sample = summary;
    Ok(())
}

#[allow(unused)]
fn unused(_: &Items, _: &Node, _: &Body) {}
