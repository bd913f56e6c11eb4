//! Save properties on healthy storage with noisy delivery: C01-C04, C06, C07, C19.
use crate::cx::*;
use crate::model::{diff_items, encoded_len, Items};
use crate::mp4::{self, Container, Opts, P};
use crate::sim::*;
use crate::store::Store;
use crate::tape::Tape;

const F: &str = "/sim/song.m4a";

pub struct Step<'a> {
    pub c: &'a Container,
    pub n: u64,
    pub before: &'a Store,
    pub bt: &'a [P],
    pub after: &'a Store,
    pub items: &'a Items,
}

pub fn limit_for(len: u64, tag: u64) -> u64 {
    10_000 + 40 * (len + tag)
}

/// A history of successful saves with an oracle after each. `strict`: a failing save is a violation.
fn saves(cx: &mut Cx, o: Opts, strict: bool, mut check: impl FnMut(&mut Cx, &Sim, &Step) -> R) -> R {
    let c = gen_container(cx, o);
    let sim = cx.world("saves");
    sim.lock().put(F, c.store.clone());
    let orig = c.store.clone();
    let n = 1 + cx.t.weighted(&[5, 3, 2]) as u64;
    let mut current = c.items.clone();
    let mut before = orig.clone();
    for k in 0..n {
        let items = gen_tag_items(&mut cx.t, &current, 6, o.val);
        let via = gen_via(&mut cx.t, before.len().min(1 << 20));
        let noise = gen_noise(&mut cx.t);
        cx.say(&sim, || format!("save {}: {:?}", k, items));
        sim.lock().set_noise(noise);
        sim.lock().limit = limit_for(before.len().min(1 << 22), encoded_len(&items));
        let d = save(&sim, F, &make(&items), via);
        sim.lock().calm();
        if !d.ok() {
            if strict {
                if let Ok(bt) = mp4::parse(&before) {
                    let old = mp4::ilst(&bt).map_or(0, |i| i.len);
                    let grow = (encoded_len(&items) + 400).saturating_sub(old);
                    let refused = matches!(d.out, Out::Err(..)) && !d.hang;
                    if refused && (mp4::out_of_range(&before, &bt, grow) || mp4::size_out_of_range(&bt, encoded_len(&items))) {
                        // the file cannot express the result: a refusal that leaves everything as it is
                        if first_diff(&before, &sim.lock().get(F)).is_some() {
                            return viol("refused-but-modified", format!("{} but the file was modified", d.describe()));
                        }
                        cx.evals += 1;
                        return Ok(());
                    }
                }
                return viol("save-fails", format!("save {} ({:?}) of {:?} to a well-formed file: {}", k, via, items, d.describe()));
            }
            return Ok(());
        }
        let after = sim.lock().get(F);
        cx.evals += 1;
        let bt = match mp4::parse(&before) {
            Ok(t) => t,
            // a previous save already broke the structure: reported where that is the property
            Err(_) => return Ok(()),
        };
        if encoded_len(&items) != encoded_len(&current) {
            cx.nontrivial = true;
        }
        check(cx, &sim, &Step { c: &c, n: k, before: &before, bt: &bt, after: &after, items: &items })?;
        current = items;
        before = after;
        if cx.t.chance(1, 3) {
            sim.lock().restart();
        }
    }
    if cx.sample.is_empty() {
        cx.sample = format!("{} saves onto {}-byte file [{}]", n, orig.len(), short_outline(&orig));
    }
    Ok(())
}

pub fn short_outline(s: &Store) -> String {
    let o = outline(s);
    if o.len() > 160 {
        let mut e = 160;
        while !o.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…", &o[..e])
    } else {
        o
    }
}

pub fn check_roundtrip(cx: &mut Cx, sim: &Sim, path: &str, items: &Items, info: &Option<(String, mp4ameta::AudioInfo)>) -> R {
    let src = gen_src(&mut cx.t);
    let src = if sim.lock().get(path).len() > 1 << 22 && src == Src::Mem { Src::Path } else { src };
    let noise = gen_noise(&mut cx.t);
    sim.lock().set_noise(noise);
    sim.lock().limit = u64::MAX / 16;
    let d = read(sim, path, src, 0);
    sim.lock().calm();
    match d.out {
        Out::Ok(t) => {
            if let Some(m) = diff_items(items, &tag_items(&t)) {
                return viol("read-differs", format!("the file does not read back as the saved tag: {}", m));
            }
            if let Some(i) = info {
                if *i != info_of(&t) {
                    return viol("info-differs", format!("file type and audio information were {:?}, now {:?}", i, info_of(&t)));
                }
            }
            Ok(())
        }
        o => viol("read-fails", format!("reading the saved file: {}", o.describe())),
    }
}

pub fn c01(cx: &mut Cx) -> R {
    let o = gen_opts(&mut cx.t);
    let mut info = None;
    saves(cx, o, true, |cx, sim, s| {
        if s.n == 0 {
            let w2 = cx.world("before");
            w2.lock().put(F, s.before.clone());
            info = read(&w2, F, Src::Path, 0).out.ok().map(|t| info_of(&t));
        }
        check_roundtrip(cx, sim, F, s.items, &info)
    })
}

pub fn c02(cx: &mut Cx) -> R {
    let o = gen_opts(&mut cx.t);
    saves(cx, o, false, |_, _, s| {
        let at = match mp4::parse(s.after) {
            Ok(t) => t,
            Err(e) => return viol("unparsable", format!("the other atoms cannot be found any more: {}", e)),
        };
        mp4::preserved(s.before, s.bt, s.after, &at).or_else(|m| viol("not-preserved", m))
    })
}

pub fn c03(cx: &mut Cx) -> R {
    let mut o = gen_opts(&mut cx.t);
    o.items = o.items.min(6);
    saves(cx, o, false, |cx, _, s| {
        // tables are located by the reference parser; a file it cannot parse is the business of other properties
        let Ok(at) = mp4::parse(s.after) else { return Ok(()) };
        match mp4::same_chunks(s.before, s.bt, s.after, &at) {
            Ok(n) => {
                if n == 0 {
                    cx.nontrivial = false;
                }
                Ok(())
            }
            Err(m) => viol("chunk-moved", m),
        }
    })
}

pub fn c04(cx: &mut Cx) -> R {
    let o = gen_opts(&mut cx.t);
    saves(cx, o, false, |_, _, s| match mp4::check_saved(s.after, Some(s.bt)) {
        Ok((_, items)) => match diff_items(s.items, &items) {
            None => Ok(()),
            Some(m) => viol("items-differ", format!("reference reader: {}", m)),
        },
        Err(m) => viol("malformed", m),
    })
}

fn healthy_save(cx: &mut Cx, name: &str, c: &Store, items: &Items, via: Via) -> Option<(Store, Done<()>)> {
    let w = cx.world(name);
    w.lock().put(F, c.clone());
    w.lock().limit = u64::MAX / 16;
    let d = save(&w, F, &make(items), via);
    let img = w.lock().get(F);
    cx.release(&w);
    if d.ok() {
        Some((img, d))
    } else {
        None
    }
}

pub fn c06(cx: &mut Cx) -> R {
    let o = gen_opts(&mut cx.t);
    let c = gen_container(cx, o);
    let items = gen_tag_items(&mut cx.t, &c.items, 6, o.val);
    cx.note(|| format!("tag: {:?}", items));
    let Some((want, d)) = healthy_save(cx, "undisturbed", &c.store, &items, Via::Path) else { return Ok(()) };
    let tag = make(&items);
    let bound = limit_for(c.store.len(), encoded_len(&items));
    if d.steps > bound {
        return viol("too-many-calls", format!("{} system calls for a file of {} bytes", d.steps, c.store.len()));
    }
    let k = 2 + cx.t.below(4);
    for i in 0..k {
        let via = gen_via(&mut cx.t, c.store.len());
        let mut noise = gen_noise(&mut cx.t);
        if noise.seed == 0 && noise.rshort == 0 {
            noise = Noise { rshort: 120, wshort: 120, eintr: 40, stall: 10, seed: i + 1, ..noise };
        }
        let sim = cx.world("noisy");
        sim.lock().put(F, c.store.clone());
        sim.lock().set_noise(noise);
        // single odd transfers at chosen places on top
        let faults = cx.t.below(4);
        for _ in 0..faults {
            let op = *cx.t.pick(&[Op::Read, Op::Write]);
            let n = if op == Op::Read { cx.t.below(80) } else { cx.t.below(12) } as u32;
            let kind = match cx.t.below(3) {
                0 => Kind::Short(1),
                1 => Kind::Short(1 + cx.t.log(9000) as u32),
                _ => Kind::Eintr,
            };
            sim.lock().plan.push(Fault { op: Some(op), nth: n, kind, sticky: false });
        }
        sim.lock().limit = bound;
        let d = save(&sim, F, &tag, via);
        // the process dies right here: only what the operating system has counts
        let got = sim.lock().get(F);
        sim.lock().restart();
        cx.evals += 1;
        if d.hang {
            return viol("too-many-calls", format!("more than {} system calls for a file of {} bytes", bound, c.store.len()));
        }
        if !d.ok() {
            return viol("delivery-fails", format!("succeeds undisturbed, but with {:?}: {}", noise, d.describe()));
        }
        if let Some(p) = first_diff(&want, &got) {
            return viol(
                "delivery-differs",
                format!("bytes differ from the undisturbed save at {} (lengths {} and {}) with {:?}", p, want.len(), got.len(), noise),
            );
        }
        if d.steps > 30 {
            cx.nontrivial = true;
        }
        cx.release(&sim);
    }
    cx.sample = format!("{} noisy deliveries of one save onto [{}]", k, short_outline(&c.store));
    Ok(())
}

pub fn c07(cx: &mut Cx) -> R {
    let o = gen_opts(&mut cx.t);
    let c = gen_container(cx, o);
    let light = o.val < 100_000 && !o.hulk && !o.huge_tables;
    let n = if light && cx.t.chance(1, 80) { 8 + cx.t.usize(30) } else { 2 + cx.t.weighted(&[4, 2, 2, 1, 1]) };
    let sim = cx.world("history");
    sim.lock().put(F, c.store.clone());
    let mut current = c.items.clone();
    let noisy = cx.t.chance(1, 3);
    for _ in 0..n {
        let items = gen_tag_items(&mut cx.t, &current, 6, o.val);
        cx.say(&sim, || format!("{:?}", items));
        let noise = if noisy { gen_noise(&mut cx.t) } else { Noise::default() };
        sim.lock().set_noise(noise);
        let via = gen_via(&mut cx.t, c.store.len());
        if !save(&sim, F, &make(&items), via).ok() {
            return Ok(());
        }
        sim.lock().calm();
        if cx.t.chance(1, 4) {
            sim.lock().restart();
        }
        if encoded_len(&items) != encoded_len(&current) {
            cx.nontrivial = true;
        }
        current = items;
    }
    let got = sim.lock().get(F);
    let Some((want, _)) = healthy_save(cx, "last tag only", &c.store, &current, Via::Path) else { return Ok(()) };
    cx.evals += 1;
    if let Some(p) = first_diff(&want, &got) {
        return viol(
            "history-shows",
            format!("after {} saves the file ({} bytes) differs at {} from saving only the last tag ({} bytes)", n, got.len(), p, want.len()),
        );
    }
    // the same tag again
    if save(&sim, F, &make(&current), Via::Path).ok() {
        let again = sim.lock().get(F);
        cx.evals += 1;
        if let Some(p) = first_diff(&got, &again) {
            return viol("not-idempotent", format!("saving the same tag again changes the file at {} ({} -> {} bytes)", p, got.len(), again.len()));
        }
    }
    // what a read returns
    if let Out::Ok(t) = read(&sim, F, Src::Path, 0).out {
        if save(&sim, F, &t, Via::Path).ok() {
            let again = sim.lock().get(F);
            cx.evals += 1;
            if let Some(p) = first_diff(&got, &again) {
                return viol("read-save-changes", format!("saving back the tag just read changes the file at {} ({} -> {} bytes)", p, got.len(), again.len()));
            }
        }
    }
    cx.sample = format!("{} saves onto [{}]", n, short_outline(&c.store));
    Ok(())
}

pub fn c19(cx: &mut Cx) -> R {
    if cx.t.chance(1, 4_000) {
        return crate::p_mega::saves(cx);
    }
    let giant = cx.t.mostly(2, 3);
    let edge = giant && cx.t.chance(1, 4);
    let giant_moov = !giant && cx.t.chance(1, 3);
    let o = Opts { giant, edge, giant_moov, ext: if giant || giant_moov { 2 } else { 14 }, big_tables: true, ..Opts::default() };
    let mut info = None;
    saves(cx, o, true, |cx, sim, s| {
        let mark = |r: R, what: &str| r.map_err(|v| Viol { class: format!("{}:{}", what, v.class), msg: v.msg });
        if s.n == 0 {
            // the stored metadata reads back as generated
            let w2 = cx.world("before");
            w2.lock().put(F, s.before.clone());
            w2.lock().limit = u64::MAX / 16;
            let d = read(&w2, F, Src::Path, 0);
            let (r, n) = (d.bytes_read, d.describe());
            match d.out {
                Out::Ok(t) => {
                    if let Some(m) = diff_items(&s.c.items, &tag_items(&t)) {
                        return viol("large-read-differs", m);
                    }
                    if t.filetype() != s.c.ftyp {
                        return viol("large-read-differs", format!("file type {:?}, stored {:?}", t.filetype(), s.c.ftyp));
                    }
                    info = Some(info_of(&t));
                }
                _ => return viol("large-read-fails", n),
            }
            let skipped = giant_before_moov(s.bt, s.before);
            if skipped > 64 << 20 && r > (16 << 20) + 8 * (s.before.len() - skipped) {
                return viol("large-transfer", format!("a read transferred {} bytes of a {}-byte file", r, s.before.len()));
            }
        }
        mark(check_roundtrip(cx, sim, F, s.items, &info), "roundtrip")?;
        let (at, items) = match mp4::check_saved(s.after, Some(s.bt)) {
            Ok(x) => x,
            Err(m) => return viol("malformed", m),
        };
        if let Some(m) = diff_items(s.items, &items) {
            return viol("items-differ", m);
        }
        if let Err(m) = mp4::preserved(s.before, s.bt, s.after, &at) {
            return viol("not-preserved", m);
        }
        if let Err(m) = mp4::same_chunks(s.before, s.bt, s.after, &at) {
            return viol("chunk-moved", m);
        }
        // a quiet repetition measures the transfer
        let w3 = cx.world("transfer");
        w3.lock().put(F, s.before.clone());
        w3.lock().limit = u64::MAX / 16;
        let d = save(&w3, F, &make(s.items), Via::Path);
        let skipped = giant_before_moov(s.bt, s.before);
        let moved = d.bytes_read + d.bytes_written;
        cx.release(&w3);
        if skipped > 64 << 20 && moved > (16 << 20) + 8 * (s.before.len() - skipped + encoded_len(s.items)) {
            return viol("large-transfer", format!("a save transferred {} bytes; only {} lie outside the big media atom", moved, s.before.len() - skipped));
        }
        if s.before.len() > u32::MAX as u64 || o_ext(s.bt) {
            cx.nontrivial = true;
        }
        Ok(())
    })
}

fn o_ext(t: &[P]) -> bool {
    t.iter().any(|p| p.hlen == 16 || o_ext(&p.kids))
}

/// The size of the largest atom which neither a read nor a save has to transfer.
fn giant_before_moov(t: &[P], _s: &Store) -> u64 {
    fn inside(p: &P) -> u64 {
        match p.kids.is_empty() {
            true if matches!(&p.cc, b"free" | b"skip" | b"wide") => p.len,
            _ => p.kids.iter().map(inside).max().unwrap_or(0),
        }
    }
    let Some(m) = mp4::top(t, b"moov") else { return 0 };
    let media = t.iter().filter(|p| &p.cc != b"ftyp" && p.pos < m.pos).map(|p| p.len).max().unwrap_or(0);
    media.max(inside(m))
}

#[allow(unused)]
pub fn any(_: &mut Tape) {}
