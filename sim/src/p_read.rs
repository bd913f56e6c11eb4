//! Reading: C05 (what the bytes say), C11 (damaged content), C13 (audio information).
use crate::api;
use crate::cx::*;
use crate::model::{diff_items, encoded_len};
use crate::mp4::{self, Container, Info, Node, Opts};
use crate::p_save::short_outline;
use crate::sim::*;
use crate::store::Store;
use crate::tape::pattern;
use mp4ameta::{ErrorKind, Tag};

const F: &str = "/sim/song.m4a";

/// Compares the audio information of a tag with what the container states.
pub fn check_info(t: &Tag, i: &Info) -> Result<(), String> {
    match (i.duration, t.duration()) {
        (None, None) => {}
        (Some((d, ts)), Some(got)) => {
            let want = d as u128 * 1_000_000_000 / ts as u128;
            let got = got.as_nanos();
            let tol = 1000 + want / 1_000_000_000;
            if want.abs_diff(got) > tol {
                return Err(format!("duration is {} ns; the file states {} units of 1/{} s", got, d, ts));
            }
        }
        (w, g) => return Err(format!("duration is {:?}; the file states {:?}", g, w)),
    }
    let ch = i.channels.and_then(api::channels);
    if ch != t.channel_config() {
        return Err(format!("channel configuration is {:?}, the file states {:?}", t.channel_config(), ch));
    }
    if let (Some(n), Some(c)) = (i.channels, t.channel_config()) {
        if c.channel_count() != api::channel_count(n) {
            return Err(format!("{:?} has {} channels", c, c.channel_count()));
        }
    }
    let rate = i.rate.map(|r| api::RATES[r as usize].1);
    if rate != t.sample_rate().map(|r| r.hz()) {
        return Err(format!("sample rate is {:?}, the file states {:?}", t.sample_rate(), rate));
    }
    if i.max != t.max_bitrate() || i.avg != t.avg_bitrate() {
        return Err(format!("bit rates are {:?}/{:?}, the file states {:?}/{:?}", t.max_bitrate(), t.avg_bitrate(), i.max, i.avg));
    }
    let a = t.audio_info();
    if a.duration != t.duration() || a.channel_config != t.channel_config() || a.sample_rate != t.sample_rate() || a.max_bitrate != t.max_bitrate() || a.avg_bitrate != t.avg_bitrate() {
        return Err("the audio info struct and the single accessors disagree".into());
    }
    Ok(())
}

/// The file with bytes in front of it.
fn prefixed(s: &Store, prefix: &[u8]) -> Store {
    if prefix.is_empty() {
        return s.clone();
    }
    let mut v = prefix.to_vec();
    v.extend(s.to_vec());
    Store::from_bytes(&v)
}

/// Where the versions of atoms are that a read interprets, and the first one unknown.
/// The atoms between two positions: start, kind, start and end of the contents.
fn atoms_in(s: &Store, mut at: u64, end: u64) -> Vec<(u64, [u8; 4], u64, u64)> {
    let mut v = Vec::new();
    while at + 8 <= end {
        let h = s.slice(at, 16);
        if h.len() < 8 {
            break;
        }
        let mut head = 8;
        let mut len = u32::from_be_bytes([h[0], h[1], h[2], h[3]]) as u64;
        if len == 1 && h.len() == 16 {
            head = 16;
            len = u64::from_be_bytes([h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15]]);
        }
        if len < head || len > end - at {
            break;
        }
        v.push((at, [h[4], h[5], h[6], h[7]], at + head, at + len));
        at += len;
    }
    v
}

fn versions(s: &Store) -> Vec<(u64, u8)> {
    let mut v = Vec::new();
    let Ok(t) = mp4::parse(s) else { return v };
    let Some(m) = mp4::top(&t, b"moov") else { return v };
    for k in &m.kids {
        if &k.cc == b"mvhd" {
            v.push((k.body(), 2));
        }
        if &k.cc == b"trak" {
            let d = k.find(b"mdia").and_then(|x| x.find(b"minf")).and_then(|x| x.find(b"stbl")).and_then(|x| x.find(b"stsd"));
            if let Some(d) = d {
                v.push((d.body(), 1));
                // the descriptors of the audio entries
                for (_, cc, from, to) in atoms_in(s, d.body() + 8, d.end()) {
                    if &cc == b"mp4a" {
                        if let Some(e) = atoms_in(s, from + 28, to).into_iter().find(|e| &e.1 == b"esds") {
                            v.push((e.2, 1));
                        }
                    }
                }
            }
        }
    }
    if let Some(me) = m.find(b"udta").and_then(|u| u.find(b"meta")) {
        v.push((me.body(), 1));
        for i in me.find(b"ilst").map_or(&[][..], |i| &i.kids) {
            for d in &i.kids {
                if &d.cc == b"data" || (&i.cc == b"----" && (&d.cc == b"mean" || &d.cc == b"name")) {
                    v.push((d.body(), 1));
                }
            }
        }
    }
    v
}

fn odd_reads(cx: &mut Cx, sim: &Sim) {
    let n = cx.t.below(4);
    for _ in 0..n {
        let nth = cx.t.below(120) as u32;
        let kind = match cx.t.below(3) {
            0 => Kind::Short(1),
            1 => Kind::Short(1 + cx.t.log(9000) as u32),
            _ => Kind::Eintr,
        };
        sim.lock().plan.push(Fault { op: Some(Op::Read), nth, kind, sticky: false });
    }
}

pub fn c05(cx: &mut Cx) -> R {
    let rare = cx.t.chance(1, 60);
    let o = match cx.t.weighted(&[5, 2, 2, 1]) {
        _ if rare => rare_opts(&mut cx.t),
        0 => Opts::default(),
        1 => Opts { items: 14, val: 2000, ..Opts::default() },
        2 => Opts { ext: 8, ..Opts::default() },
        _ => Opts { items: 40, val: 40, ..Opts::default() },
    };
    let c = gen_container(cx, o);
    let mode = cx.t.weighted(&[12, 1, 1, 2]);
    let k = 2 + cx.t.below(4);
    let mut store = c.store.clone();
    let mut version = 0;
    if mode == 1 {
        // begins with another atom
        let mut top: Vec<Node> = c.top.clone();
        if cx.t.chance(1, 2) || top.len() < 2 {
            top[0].cc = **cx.t.pick(&[b"free", b"moov", b"mdat", b"ftyq", b"\0\0\0\0", b"FTYP"]);
        } else {
            top.remove(0);
        }
        store = mp4::emit_file(&top);
    } else if mode == 2 {
        let mut top = c.top.clone();
        top.retain(|n| &n.cc != b"moov");
        store = mp4::emit_file(&top);
    } else if mode == 3 {
        let at = versions(&store);
        if at.is_empty() {
            return Ok(());
        }
        let (pos, least) = at[cx.t.usize(at.len())];
        version = least + cx.t.below(256 - least as u64) as u8;
        store.write_at(pos, &[version]);
    }
    let mut nontrivial = false;
    for _ in 0..k {
        let src = gen_src(&mut cx.t);
        let pre = if src == Src::Path || cx.t.mostly(1, 2) { 0 } else { 1 + cx.t.log(9000) };
        let prefix = pattern(cx.t.below(1 << 16), pre as usize);
        let noise = gen_noise(&mut cx.t);
        let sim = cx.world("reading");
        let full = prefixed(&store, &prefix);
        sim.lock().put(F, full.clone());
        sim.lock().set_noise(noise);
        odd_reads(cx, &sim);
        sim.lock().limit = 10_000 + 40 * full.len();
        let d = read(&sim, F, src, pre);
        cx.evals += 1;
        nontrivial |= d.steps > 40;
        if d.hang {
            return viol("too-many-calls", format!("more than {} calls to read {} bytes", 10_000 + 40 * full.len(), full.len()));
        }
        if d.writes > 0 || sim.lock().inodes[0].muts > 0 || first_diff(&full, &sim.lock().get(F)).is_some() {
            return viol("source-modified", format!("reading {:?} modified the source", src));
        }
        if let Some(x) = d.opens.iter().find(|o| o.2) {
            return viol("source-modified", format!("reading opened {:?} for writing", x.0));
        }
        let what = d.describe();
        match (mode, d.out) {
            (0, Out::Ok(t)) => {
                if let Some(m) = diff_items(&c.items, &tag_items(&t)) {
                    return viol("items-differ", format!("{:?} at {}: {}", src, pre, m));
                }
                if t.filetype() != c.ftyp {
                    return viol("ftyp-differs", format!("file type {:?}, stored {:?}", t.filetype(), c.ftyp));
                }
                if let Err(m) = check_info(&t, &c.info) {
                    return viol("info-differs", m);
                }
            }
            (1, Out::Err(e)) if matches!(e.kind, ErrorKind::NoTag) => {}
            (2, Out::Err(e)) if matches!(&e.kind, ErrorKind::AtomNotFound(f) if f.0 == *b"moov") => {}
            (3, Out::Err(e)) if matches!(&e.kind, ErrorKind::UnknownVersion(v) if *v == version) => {}
            (3, _) => return viol("not-refused", format!("a stream with an atom of the unknown version {} is read with {}", version, what)),
            (0, _) => return viol("read-fails", format!("{:?} at {} with {:?}: {}", src, pre, noise, what)),
            (1, _) => return viol("not-refused", format!("a stream without file type is read with {}", what)),
            _ => return viol("not-refused", format!("a stream without movie atom is read with {}", what)),
        }
        cx.release(&sim);
    }
    cx.nontrivial = nontrivial || mode != 0 || !c.items.is_empty();
    cx.sample = format!("{} reads of [{}]", k, short_outline(&store));
    Ok(())
}

/// Modifications by another process at chosen calls of the next operation.
pub fn gen_externals(cx: &mut Cx, sim: &Sim, ino: usize, max_step: u64) -> u64 {
    let n = cx.t.below(3);
    let len = sim.lock().inodes[ino].store.len();
    let mut extra = 0;
    for _ in 0..n {
        let at = cx.t.below(max_step.max(2));
        let e = match cx.t.weighted(&[4, 2, 3]) {
            0 => External::Truncate(cx.t.below(len + 1)),
            1 => {
                let k = 1 + cx.t.log(2000);
                extra += k;
                External::Extend(pattern(cx.t.below(1 << 16), k as usize))
            }
            _ => {
                let at = cx.t.below(len + 1);
                let k = 1 + cx.t.log(600) as usize;
                let b = if cx.t.chance(1, 2) { vec![0; k] } else { pattern(cx.t.below(1 << 16), k) };
                External::Overwrite(at, b)
            }
        };
        sim.lock().externals.push((at, ino, e));
    }
    extra
}

pub fn c11(cx: &mut Cx) -> R {
    let rare = cx.t.chance(1, 200);
    let o = match cx.t.weighted(&[5, 2, 2]) {
        _ if rare => rare_opts(&mut cx.t),
        0 => Opts::default(),
        1 => Opts { items: 10, val: 400, ..Opts::default() },
        _ => Opts { ext: 10, ..Opts::default() },
    };
    let c = gen_container(cx, o);
    let k = 1 + cx.t.below(4);
    for _ in 0..k {
        let sim = cx.world("damaged");
        let at_rest = cx.t.mostly(4, 5);
        let (s, what) = if at_rest { mp4::damage(&mut cx.t, &c.store) } else { (c.store.clone(), vec![]) };
        cx.say(&sim, || format!("damage: {}; now {}", what.join("; "), outline(&s)));
        let src = gen_src(&mut cx.t);
        let pre = if src == Src::Path || cx.t.mostly(4, 5) { 0 } else { 1 + cx.t.log(300) };
        let prefix = pattern(cx.t.below(1 << 16), pre as usize);
        let full = prefixed(&s, &prefix);
        let ino = sim.lock().put(F, full.clone());
        let mut extra = 0;
        if (!at_rest || cx.t.chance(1, 4)) && src != Src::Mem {
            extra = gen_externals(cx, &sim, ino, 60);
        }
        let noise = gen_noise(&mut cx.t);
        sim.lock().set_noise(noise);
        if cx.t.chance(1, 6) {
            let nth = cx.t.below(60) as u32;
            sim.lock().plan.push(Fault { op: Some(Op::Read), nth, kind: Kind::Eof, sticky: cx.t.chance(1, 2) });
        }
        let len = full.len() + extra;
        let limit = 10_000 + 40 * len;
        sim.lock().limit = limit;
        let d = read(&sim, F, src, pre);
        cx.evals += 1;
        if let Some(p) = d.panicked() {
            return viol("panic", format!("reading {:?} a file damaged by [{}]: {}", src, what.join("; "), p));
        }
        if d.hang {
            return viol("too-many-calls", format!("more than {} calls to read {} bytes ([{}])", limit, len, what.join("; ")));
        }
        let cap = (4 << 20) + 64 * len;
        if d.peak > cap {
            return viol("memory", format!("{} bytes allocated to read {} bytes ([{}])", d.peak, len, what.join("; ")));
        }
        if let Some(l) = &d.leak {
            return viol("descriptor", l.clone());
        }
        match d.out {
            Out::Ok(t) => {
                if let Err(p) = guard(|| api::query_all(&t)) {
                    return viol("query-panic", format!("querying the tag of a file damaged by [{}]: {}", what.join("; "), p));
                }
                if diff_items(&c.items, &tag_items(&t)).is_some() || check_info(&t, &c.info).is_err() {
                    cx.nontrivial = true;
                }
            }
            _ => cx.nontrivial = true,
        }
        if cx.sample.is_empty() {
            cx.sample = format!("{:?}: {}", src, what.join("; "));
        }
        cx.release(&sim);
    }
    Ok(())
}

pub fn c13(cx: &mut Cx) -> R {
    let o = if cx.t.mostly(3, 4) { Opts { items: 2, ..Opts::default() } } else { Opts { items: 2, ext: 8, ..Opts::default() } };
    let c: Container = gen_container(cx, o);
    let sim = cx.world("audio");
    sim.lock().put(F, c.store.clone());
    let n = 1 + cx.t.below(3);
    cx.nontrivial = c.info != Info::default();
    let mut current = c.items.clone();
    for k in 0..n {
        let src = gen_src(&mut cx.t);
        let noise = gen_noise(&mut cx.t);
        sim.lock().set_noise(noise);
        odd_reads(cx, &sim);
        sim.lock().limit = u64::MAX / 16;
        let d = read(&sim, F, src, 0);
        sim.lock().calm();
        cx.evals += 1;
        let what = d.describe();
        match d.out {
            Out::Ok(t) => {
                if let Err(m) = check_info(&t, &c.info) {
                    return viol(if k == 0 { "info-differs" } else { "info-differs-after-save" }, m);
                }
            }
            _ => return viol(if k == 0 { "read-fails" } else { "read-fails-after-save" }, what),
        }
        if k + 1 < n {
            let items = gen_tag_items(&mut cx.t, &current, 4, o.val);
            let via = gen_via(&mut cx.t, c.store.len());
            let noise = gen_noise(&mut cx.t);
            sim.lock().set_noise(noise);
            if !save(&sim, F, &make(&items), via).ok() {
                // whether a save succeeds is another property
                return Ok(());
            }
            sim.lock().calm();
            let _ = encoded_len(&items);
            current = items;
        }
    }
    cx.sample = format!("{:?} in [{}]", c.info, short_outline(&c.store));
    Ok(())
}
