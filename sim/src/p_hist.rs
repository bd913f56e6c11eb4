//! Edit histories through saves, crashes and reloads: C15 (data level), C16 (typed fields).
use crate::api::{self, CUSTOM_GENRE, FLAGS, INTS, MEDIA, MULTIS, PAIRS, RATINGS, SINGLES};
use crate::cx::*;
use crate::model::{diff_items, gen_bytes, gen_id, gen_string, gen_value, near_pair, Id, Items, V};
use crate::mp4::{self, Opts};
use crate::p_save::short_outline;
use crate::sim::*;
use crate::tape::{mix, Tape};
use mp4ameta::{Data, DataIdent, Fourcc, FreeformIdent, Img, Tag, STANDARD_GENRES};

const F: &str = "/sim/song.m4a";

/// What happens between edits. Returns false if the history ends here.
fn life<M: Clone>(cx: &mut Cx, sim: &Sim, tag: &mut Tag, model: &mut M, durable: &mut M, agree: &dyn Fn(&Tag, &M) -> Result<(), String>) -> R<bool> {
    let noise = gen_noise(&mut cx.t);
    sim.lock().limit = u64::MAX / 16;
    let len = sim.lock().get(F).len();
    let mut reload = false;
    match cx.t.weighted(&[6, 2, 2, 2]) {
        0 => {
            let via = gen_via(&mut cx.t, len);
            sim.lock().set_noise(noise);
            let d = save(sim, F, tag, via);
            sim.lock().calm();
            cx.evals += 1;
            if !d.ok() {
                return viol("save-fails", format!("saving an edited tag to a well-formed file: {}", d.describe()));
            }
            *durable = model.clone();
            reload = cx.t.chance(1, 2);
        }
        1 => {
            // a save that fails before it writes
            let op = *cx.t.pick(&[Op::Open, Op::Read, Op::Trunc]);
            let nth = if op == Op::Read { cx.t.below(12) as u32 } else { 0 };
            sim.lock().plan.push(Fault { op: Some(op), nth, kind: Kind::Errno(EIO), sticky: cx.t.chance(1, 2) });
            sim.lock().set_noise(noise);
            let d = save(sim, F, tag, Via::Path);
            sim.lock().calm();
            cx.evals += 1;
            if d.panicked().is_some() {
                return viol("save-panics", d.describe());
            }
            if d.ok() {
                *durable = model.clone();
            } else if !sim.lock().journal.is_empty() {
                // failed after it wrote: what then holds is the business of other properties
                return Ok(false);
            }
            reload = cx.t.chance(1, 2);
        }
        2 => {
            // the process dies somewhere in a save
            let nth = cx.t.below(50) as u32;
            sim.lock().plan.push(Fault { op: None, nth, kind: Kind::CrashBefore, sticky: true });
            sim.lock().set_noise(noise);
            let d = save(sim, F, tag, Via::Path);
            sim.lock().calm();
            cx.evals += 1;
            if d.ok() && !d.crashed {
                *durable = model.clone();
            } else if !sim.lock().journal.is_empty() {
                // cut short while writing: what then holds is the business of other properties
                return Ok(false);
            }
            reload = true;
        }
        _ => reload |= true,
    }
    if reload {
        // the process restarts, edits since the last save are lost
        sim.lock().restart();
        let src = gen_src(&mut cx.t);
        let noise = gen_noise(&mut cx.t);
        sim.lock().set_noise(noise);
        let d = read(sim, F, src, 0);
        sim.lock().calm();
        cx.evals += 1;
        let what = d.describe();
        match d.out {
            Out::Ok(t) => {
                *tag = t;
                *model = durable.clone();
                if let Err(m) = agree(tag, model) {
                    return viol("reload-differs", format!("after a restart: {}", m));
                }
            }
            _ => return viol("reload-fails", format!("after a restart: {}", what)),
        }
    }
    Ok(true)
}

// ---- C15 --------------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ty {
    Bytes,
    Strings,
    Images,
    Data,
}

fn is(v: &V, ty: Ty) -> bool {
    match ty {
        Ty::Bytes => v.is_bytes(),
        Ty::Strings => v.is_string(),
        Ty::Images => v.is_image(),
        Ty::Data => true,
    }
}

/// A predicate on values every side can evaluate.
fn keep(seed: u64, b: &[u8]) -> bool {
    let mut h = crate::tape::Hash::new();
    h.add(seed).bytes(b);
    match seed % 5 {
        0 => false,
        1 => true,
        _ => mix(h.0) & 1 == 0,
    }
}
fn raw(v: &V) -> Vec<u8> {
    match v {
        V::Utf8(s) | V::Utf16(s) => s.as_bytes().to_vec(),
        V::Reserved(b) | V::BeSigned(b) | V::Jpeg(b) | V::Png(b) | V::Bmp(b) => b.clone(),
    }
}
fn keep_id(seed: u64, i: &DataIdent, b: &[u8]) -> bool {
    let s = format!("{:?}", Id::of(i));
    keep(seed, &[s.as_bytes(), b].concat())
}
fn keep_v(seed: u64, i: &Id, v: &V) -> bool {
    let s = format!("{:?}", i);
    keep(seed, &[s.as_bytes(), &raw(v)].concat())
}

/// Runs the body with the identifier in one of the forms the interface accepts.
macro_rules! with_id {
    ($id:expr, $form:expr, |$i:ident| $b:expr) => {
        match ($id, $form) {
            (Id::F(c), 0) => {
                let $i = Fourcc(*c);
                $b
            }
            (Id::Free(m, n), 0) => {
                let $i = FreeformIdent::new(m, n);
                $b
            }
            (x, _) => {
                let $i: DataIdent = x.to_ident();
                $b
            }
        }
    };
}

fn values<'a>(m: &'a Items, id: &Id) -> &'a [V] {
    m.iter().find(|e| &e.0 == id).map_or(&[], |e| &e.1)
}

fn prune(m: &mut Items) {
    m.retain(|e| !e.1.is_empty());
}

fn agree_items(t: &Tag, m: &Items) -> Result<(), String> {
    match diff_items(m, &tag_items(t)) {
        Some(d) => Err(d),
        None => Ok(()),
    }
}

/// What a stored value says about itself.
fn accessors(d: &Data, v: &V) -> bool {
    let (b, s, i) = (v.bytes().map(|x| &x[..]), v.string().map(|x| &x[..]), v.image().map(|x| &x[..]));
    let only = |c: u32, x: Option<&[u8]>| x == if v.code() == c { b.or(s.map(str::as_bytes)).or(i) } else { None };
    let fmt = |f: &mp4ameta::ImgFmt| api::fmt_code(f) as u32 == v.code() && (f.is_jpeg(), f.is_png(), f.is_bmp()) == (v.code() == 13, v.code() == 14, v.code() == 27);
    d.len() == v.encode().len() as u64
        && d.is_empty() == v.encode().is_empty()
        && (d.is_bytes(), d.is_string(), d.is_image()) == (b.is_some(), s.is_some(), i.is_some())
        && [d.is_reserved(), d.is_utf8(), d.is_utf16(), d.is_jpeg(), d.is_png(), d.is_be_signed(), d.is_bmp()] == [0, 1, 2, 13, 14, 21, 27].map(|c| v.code() == c)
        && d.bytes() == b
        && d.string() == s
        && d.image_data() == i
        && d.image().map_or(i.is_none(), |g| Some(g.data) == i && fmt(&g.fmt))
        && only(0, d.reserved())
        && only(1, d.utf8().map(str::as_bytes))
        && only(2, d.utf16().map(str::as_bytes))
        && only(13, d.jpeg())
        && only(14, d.png())
        && only(21, d.be_signed())
        && only(27, d.bmp())
        && d.clone().into_bytes().as_deref() == b
        && d.clone().into_string().as_deref() == s
        && d.clone().into_image_data().as_deref() == i
        && d.clone().into_image().map_or(i.is_none(), |g| Some(&g.data[..]) == i && fmt(&g.fmt))
        && d.clone().bytes_mut().map(|x| &x[..]) == b
        && d.clone().string_mut().map(|x| &x[..]) == s
        && d.clone().image_data_mut().map(|x| &x[..]) == i
        && d.clone().image_mut().map_or(i.is_none(), |g| Some(&g.data[..]) == i && fmt(&g.fmt))
}

/// Every generic query against the model.
fn queries(t: &Tag, m: &Items, ids: &[Id], form: u64) -> Result<(), String> {
    agree_items(t, m)?;
    if t.is_empty() != m.is_empty() {
        return Err(format!("is_empty is {}", t.is_empty()));
    }
    for id in ids {
        let vs = values(m, id);
        let want_b: Vec<&[u8]> = vs.iter().filter_map(|v| v.bytes().map(|b| &b[..])).collect();
        let want_s: Vec<&str> = vs.iter().filter_map(|v| v.string().map(|s| &s[..])).collect();
        let want_i: Vec<(u32, &[u8])> = vs.iter().filter_map(|v| v.image().map(|b| (v.code(), &b[..]))).collect();
        with_id!(id, form, |i| {
            let d: Vec<V> = t.data_of(&i).map(V::of).collect();
            if d != vs {
                return Err(format!("data of {:?} is {:?}, expected {:?}", id, d, vs));
            }
            let b: Vec<&[u8]> = t.bytes_of(&i).collect();
            if b != want_b {
                return Err(format!("bytes of {:?} are {:?}, expected {:?}", id, b, want_b));
            }
            let s: Vec<&str> = t.strings_of(&i).collect();
            if s != want_s {
                return Err(format!("strings of {:?} are {:?}, expected {:?}", id, s, want_s));
            }
            let g: Vec<(u32, &[u8])> = t.images_of(&i).map(|g| (api::fmt_code(&g.fmt) as u32, g.data)).collect();
            if g != want_i {
                return Err(format!("images of {:?} are {:?}, expected {:?}", id, g, want_i));
            }
        });
    }
    let flat = |ty: Ty| -> Vec<(Id, V)> { m.iter().flat_map(|(i, vs)| vs.iter().filter(move |v| is(v, ty)).map(move |v| (i.clone(), v.clone()))).collect() };
    let fb: Vec<(Id, Vec<u8>)> = flat(Ty::Bytes).iter().map(|(i, v)| (i.clone(), raw(v))).collect();
    let fs: Vec<(Id, Vec<u8>)> = flat(Ty::Strings).iter().map(|(i, v)| (i.clone(), raw(v))).collect();
    let fi: Vec<(Id, u32, Vec<u8>)> = flat(Ty::Images).iter().map(|(i, v)| (i.clone(), v.code(), raw(v))).collect();
    let fd = flat(Ty::Data);
    let bad = |w: &str| Err(format!("{} of the whole tag disagree with the map", w));
    if t.data().map(|(i, d)| (Id::of(i), V::of(d))).collect::<Vec<_>>() != fd {
        return bad("data");
    }
    if form == 0 {
        if let Some((_, (i, v))) = t.data().zip(&fd).find(|((_, d), (_, v))| !accessors(d, v)) {
            return Err(format!("accessors of the value {:?} of {:?} disagree with it", v, i));
        }
    }
    if t.bytes().map(|(i, d)| (Id::of(i), d.to_vec())).collect::<Vec<_>>() != fb {
        return bad("bytes");
    }
    if t.strings().map(|(i, d)| (Id::of(i), d.as_bytes().to_vec())).collect::<Vec<_>>() != fs {
        return bad("strings");
    }
    if t.images().map(|(i, d)| (Id::of(i), api::fmt_code(&d.fmt) as u32, d.data.to_vec())).collect::<Vec<_>>() != fi {
        return bad("images");
    }
    if form == 0 {
        if t.clone().take_data().map(|(i, d)| (Id::of(&i), V::of(&d))).collect::<Vec<_>>() != fd {
            return bad("taken data");
        }
        if t.clone().take_bytes().map(|(i, d)| (Id::of(&i), d)).collect::<Vec<_>>() != fb {
            return bad("taken bytes");
        }
        if t.clone().take_strings().map(|(i, d)| (Id::of(&i), d.into_bytes())).collect::<Vec<_>>() != fs {
            return bad("taken strings");
        }
        if t.clone().take_images().map(|(i, d)| (Id::of(&i), api::fmt_code(&d.fmt) as u32, d.data)).collect::<Vec<_>>() != fi {
            return bad("taken images");
        }
    }
    Ok(())
}

fn gen_vals(t: &mut Tape) -> Vec<V> {
    let n = t.weighted(&[1, 3, 3, 1]);
    (0..n).map(|_| gen_value(t, 60)).collect()
}

/// One data-level edit on both; returns what was done.
fn edit(t: &mut Tape, tag: &mut Tag, m: &mut Items, ids: &[Id]) -> Result<String, String> {
    let id = &ids[t.usize(ids.len())];
    let form = t.below(2);
    let ty = *t.pick(&[Ty::Data, Ty::Bytes, Ty::Strings, Ty::Images]);
    let at = m.iter().position(|e| &e.0 == id);
    let seed = t.below(64);
    Ok(match t.weighted(&[5, 4, 6, 4, 2, 2, 3, 3, 2, 3, 2, 1]) {
        0 => {
            let v = gen_value(t, 60);
            with_id!(id, form, |i| tag.set_data(i, v.to_data()));
            let s = format!("set_data({:?}, {:?})", id, v);
            match at {
                Some(k) => m[k].1 = vec![v],
                None => m.push((id.clone(), vec![v])),
            }
            s
        }
        1 => {
            let vs = gen_vals(t);
            with_id!(id, form, |i| tag.set_all_data(i, vs.iter().map(V::to_data)));
            let s = format!("set_all_data({:?}, {:?})", id, vs);
            match at {
                Some(k) => m[k].1 = vs,
                None => m.push((id.clone(), vs)),
            }
            prune(m);
            s
        }
        2 => {
            let v = gen_value(t, 60);
            with_id!(id, form, |i| tag.add_data(i, v.to_data()));
            let s = format!("add_data({:?}, {:?})", id, v);
            match at {
                Some(k) => m[k].1.push(v),
                None => m.push((id.clone(), vec![v])),
            }
            s
        }
        3 => {
            let vs = gen_vals(t);
            with_id!(id, form, |i| tag.add_all_data(i, vs.iter().map(V::to_data)));
            let s = format!("add_all_data({:?}, {:?})", id, vs);
            match at {
                Some(k) => m[k].1.extend(vs),
                None => m.push((id.clone(), vs)),
            }
            prune(m);
            s
        }
        4 => {
            with_id!(id, form, |i| match ty {
                Ty::Bytes => tag.remove_bytes_of(&i),
                Ty::Strings => tag.remove_strings_of(&i),
                Ty::Images => tag.remove_images_of(&i),
                Ty::Data => tag.remove_data_of(&i),
            });
            if let Some(k) = at {
                m[k].1.retain(|v| !is(v, ty));
            }
            prune(m);
            format!("remove {:?} of {:?}", ty, id)
        }
        5 => {
            // the identifier goes away as a whole, its values of the type are returned
            let got: Vec<V> = with_id!(id, form, |i| match ty {
                Ty::Bytes => tag.take_bytes_of(&i).map(V::Reserved).collect(),
                Ty::Strings => tag.take_strings_of(&i).map(V::Utf8).collect(),
                Ty::Images => tag.take_images_of(&i).map(|g| V::of(&g.into())).collect(),
                Ty::Data => tag.take_data_of(&i).map(|d| V::of(&d)).collect(),
            });
            let want: Vec<V> = values(m, id)
                .iter()
                .filter(|v| is(v, ty))
                .map(|v| match (ty, v) {
                    (Ty::Bytes, v) => V::Reserved(raw(v)),
                    (Ty::Strings, V::Utf16(s)) => V::Utf8(s.clone()),
                    (_, v) => v.clone(),
                })
                .collect();
            if got != want {
                return Err(format!("take {:?} of {:?} returned {:?}, expected {:?}", ty, id, got, want));
            }
            if let Some(k) = at {
                m.remove(k);
            }
            format!("take {:?} of {:?}", ty, id)
        }
        6 => {
            with_id!(id, form, |i| match ty {
                Ty::Bytes => tag.retain_bytes_of(&i, |b| keep(seed, b)),
                Ty::Strings => tag.retain_strings_of(&i, |s| keep(seed, s.as_bytes())),
                Ty::Images => tag.retain_images_of(&i, |g| keep(seed, g.data)),
                Ty::Data => tag.retain_data_of(&i, |d| keep(seed, &raw(&V::of(d)))),
            });
            if let Some(k) = at {
                m[k].1.retain(|v| !is(v, ty) || keep(seed, &raw(v)));
            }
            prune(m);
            format!("retain {:?} of {:?} by predicate {}", ty, id, seed)
        }
        7 => {
            match ty {
                Ty::Bytes => tag.retain_bytes(|i, b| keep_id(seed, i, b)),
                Ty::Strings => tag.retain_strings(|i, s| keep_id(seed, i, s.as_bytes())),
                Ty::Images => tag.retain_images(|i, g| keep_id(seed, i, g.data)),
                Ty::Data => tag.retain_data(|i, d| keep_id(seed, i, &raw(&V::of(d)))),
            }
            for (i, vs) in m.iter_mut() {
                let i = i.clone();
                vs.retain(|v| !is(v, ty) || keep_v(seed, &i, v));
            }
            prune(m);
            format!("retain all {:?} by predicate {}", ty, seed)
        }
        8 => {
            // mutate in place, everywhere
            let x = t.below(256) as u8;
            match ty {
                Ty::Bytes => tag.bytes_mut().for_each(|(_, b)| b.push(x)),
                Ty::Strings => tag.strings_mut().for_each(|(_, s)| s.push(x as char)),
                Ty::Images => tag.images_mut().for_each(|(_, g)| g.data.push(x)),
                Ty::Data => tag.data_mut().for_each(|(_, d)| mutate(d, x)),
            }
            for (_, vs) in m.iter_mut() {
                for v in vs.iter_mut().filter(|v| is(v, ty)) {
                    mutate_v(v, x, ty);
                }
            }
            format!("mutate all {:?} with {}", ty, x)
        }
        9 => {
            let x = t.below(256) as u8;
            let n = t.usize(3);
            with_id!(id, form, |i| match ty {
                Ty::Bytes => tag.bytes_mut_of(&i).skip(n).for_each(|b| b.push(x)),
                Ty::Strings => tag.strings_mut_of(&i).skip(n).for_each(|s| s.push(x as char)),
                Ty::Images => tag.images_mut_of(&i).skip(n).for_each(|g| g.data.push(x)),
                Ty::Data => tag.data_mut_of(&i).skip(n).for_each(|d| mutate(d, x)),
            });
            if let Some(k) = at {
                for v in m[k].1.iter_mut().filter(|v| is(v, ty)).skip(n) {
                    mutate_v(v, x, ty);
                }
            }
            format!("mutate {:?} of {:?} from {} on with {}", ty, id, n, x)
        }
        10 => {
            // an equal tag built another way
            let c = make(m);
            if tag_items(&c) != *m || tag_items(&tag.clone()) != *m {
                return Err("a copy differs".into());
            }
            format!("copy")
        }
        _ => {
            tag.clear();
            m.clear();
            "clear".into()
        }
    })
}

fn mutate(d: &mut Data, x: u8) {
    let mut v = V::of(d);
    mutate_v(&mut v, x, Ty::Data);
    *d = v.to_data();
}
fn mutate_v(v: &mut V, x: u8, ty: Ty) {
    if ty == Ty::Data && x % 3 == 0 {
        // also the type of a value may be changed
        *v = match v {
            V::Utf8(s) => V::Utf16(s.clone()),
            V::Utf16(s) => V::Utf8(s.clone()),
            V::Reserved(b) => V::BeSigned(b.clone()),
            V::BeSigned(b) => V::Png(b.clone()),
            V::Png(b) => V::Jpeg(b.clone()),
            V::Jpeg(b) => V::Bmp(b.clone()),
            V::Bmp(b) => V::Reserved(b.clone()),
        };
        return;
    }
    if let Some(b) = v.bytes_mut() {
        b.push(x);
    } else if let Some(s) = v.string_mut() {
        s.push(x as char);
    } else if let Some(b) = v.image_mut() {
        b.push(x);
    }
}

pub fn c15(cx: &mut Cx) -> R {
    // now and then a tag of hundreds of items
    let many = cx.t.chance(1, 100);
    let o = Opts { items: if many { 700 } else { 3 }, val: if many { 5 } else { 60 }, audio: false, big_tables: false, ..Opts::default() };
    let c = gen_container(cx, o);
    let sim = cx.world("history");
    sim.lock().put(F, c.store.clone());
    let mut ids: Vec<Id> = c.items.iter().take(2).map(|e| e.0.clone()).collect();
    if many && c.items.len() > 3 {
        let i = 2 + cx.t.usize(c.items.len() - 2);
        ids.push(c.items[i].0.clone());
        ids.push(c.items[c.items.len() - 1].0.clone());
    }
    let n = 1 + cx.t.below(4);
    for _ in 0..n {
        let id = gen_id(&mut cx.t);
        if cx.t.chance(1, 6) {
            ids.extend(near_pair(&mut cx.t, &id));
        }
        ids.push(id);
    }
    ids.dedup();
    let mut durable = c.items.clone();
    let (mut tag, mut model) = if cx.t.chance(1, 2) {
        match read(&sim, F, Src::Path, 0).out {
            Out::Ok(t) => (t, c.items.clone()),
            // that reading works is another property
            _ => return Ok(()),
        }
    } else {
        (Tag::default(), Items::new())
    };
    if agree_items(&tag, &model).is_err() {
        return Ok(());
    }
    let steps = if !many && cx.t.chance(1, 120) { 100 + cx.t.below(300) } else { 3 + cx.t.below(22) };
    let mut saves = 0;
    let mut done = 0;
    let mut last = String::new();
    for _ in 0..steps {
        if cx.t.weighted(&[5, 1]) == 0 {
            let t = &mut cx.t;
            let r = guard(|| edit(t, &mut tag, &mut model, &ids));
            let what = match r {
                Ok(Ok(w)) => w,
                Ok(Err(m)) => return viol("edit-differs", m),
                Err(p) => return viol("edit-panics", p),
            };
            cx.say(&sim, || what.clone());
            let form = cx.t.below(2);
            cx.evals += 1;
            match guard(|| queries(&tag, &model, &ids, form)) {
                Ok(Ok(())) => {}
                Ok(Err(m)) => return viol("query-differs", format!("after {}: {}", what, m)),
                Err(p) => return viol("query-panics", p),
            }
            done += 1;
            last = what;
        } else {
            if !life(cx, &sim, &mut tag, &mut model, &mut durable, &agree_items)? {
                break;
            }
            saves += 1;
        }
    }
    if done >= 3 && saves >= 1 {
        cx.nontrivial = true;
    }
    cx.sample = format!("{} edits (last: {:.80}) and {} saves or restarts on [{}]", done, last, saves, short_outline(&c.store));
    Ok(())
}

// ---- C16 --------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
struct Fields {
    singles: Vec<Vec<String>>,
    multis: Vec<Vec<String>>,
    flags: Vec<bool>,
    ints: Vec<Option<u32>>,
    pairs: Vec<(u16, u16)>,
    std: Vec<u16>,
    art: Vec<(u8, Vec<u8>)>,
    media: Option<u8>,
    rating: Option<u8>,
    others: Items,
}

fn genre_name(c: u16) -> Option<String> {
    STANDARD_GENRES.get((c as usize).wrapping_sub(1)).map(|s| s.to_string())
}

impl Fields {
    fn of(items: &Items) -> Fields {
        let strs = |id: &Id| -> Vec<String> { values(items, id).iter().filter_map(|v| v.string().cloned()).collect() };
        let bytes = |id: &Id| -> Option<Vec<u8>> { values(items, id).iter().find_map(|v| v.bytes().cloned()) };
        let be = |b: &[u8], at: usize, n: usize| -> Option<u32> { b.get(at..at + n).map(|x| x.iter().fold(0, |a, &y| a << 8 | y as u32)) };
        let known = api::field_ids();
        Fields {
            singles: SINGLES.iter().map(|s| strs(&(s.id)())).collect(),
            multis: MULTIS.iter().map(|s| strs(&(s.id)())).collect(),
            flags: FLAGS.iter().map(|f| bytes(&(f.id)()).map_or(false, |b| b.first() == Some(&1))).collect(),
            ints: INTS.iter().map(|f| bytes(&(f.id)()).and_then(|b| be(&b, 0, if f.wide { 4 } else { 2 }))).collect(),
            pairs: PAIRS
                .iter()
                .map(|p| bytes(&(p.id)()).map_or((0, 0), |b| (be(&b, 2, 2).unwrap_or(0) as u16, be(&b, 4, 2).unwrap_or(0) as u16)))
                .collect(),
            std: values(items, &api::standard_genre_id()).iter().filter_map(|v| v.bytes().and_then(|b| be(b, 0, 2)).map(|c| c as u16)).collect(),
            art: values(items, &api::artwork_id()).iter().filter_map(|v| v.image().map(|b| (v.code() as u8, b.clone()))).collect(),
            media: bytes(&api::media_id()).and_then(|b| b.first().copied()).filter(|c| MEDIA.iter().any(|m| m.1 == *c)),
            rating: bytes(&api::rating_id()).and_then(|b| b.first().copied()).map(|c| if c == 2 { 2 } else if c == 0 { 0 } else { 4 }),
            others: items.iter().filter(|e| !known.contains(&e.0)).cloned().collect(),
        }
    }
}

fn absent(n: u16) -> Option<u16> {
    if n == 0 {
        None
    } else {
        Some(n)
    }
}

fn agree_fields(t: &Tag, m: &Fields) -> Result<(), String> {
    fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
        if got == want {
            Ok(())
        } else {
            Err(format!("{} reads {:?}, expected {:?}", what, got, want))
        }
    }
    for (f, w) in SINGLES.iter().zip(&m.singles) {
        eq(f.name, (f.get)(t), w.first().cloned())?;
    }
    for (f, w) in MULTIS.iter().zip(&m.multis) {
        eq(f.name, (f.all)(t), w.clone())?;
        eq(f.name, (f.first)(t), w.first().cloned())?;
    }
    for (f, w) in FLAGS.iter().zip(&m.flags) {
        eq(f.name, (f.get)(t), *w)?;
    }
    for (f, w) in INTS.iter().zip(&m.ints) {
        eq(f.name, (f.get)(t), *w)?;
    }
    for (f, w) in PAIRS.iter().zip(&m.pairs) {
        eq(f.name, (f.get)(t), (absent(w.0), absent(w.1)))?;
        eq(f.name, (f.number)(t), absent(w.0))?;
        eq(f.name, (f.total)(t), absent(w.1))?;
    }
    eq("standard genres", t.standard_genres().collect::<Vec<_>>(), m.std.clone())?;
    eq("standard genre", t.standard_genre(), m.std.first().copied())?;
    let g: Vec<String> = m.std.iter().filter_map(|c| genre_name(*c)).chain(m.multis[CUSTOM_GENRE].iter().cloned()).collect();
    eq("genre", t.genre().map(|s| s.to_string()), g.first().cloned())?;
    eq("genres", t.genres().map(|s| s.to_string()).collect::<Vec<_>>(), g)?;
    for c in m.std.iter() {
        if let Some(n) = genre_name(*c).filter(|n| !api::genre_named(*c, n)) {
            return Err(format!("the standard genre of code {} reads {:?}, expected {:?}", c, n, api::GENRES[*c as usize - 1]));
        }
    }
    eq("artworks", t.artworks().map(|a| (api::fmt_code(&a.fmt), a.data.to_vec())).collect::<Vec<_>>(), m.art.clone())?;
    eq("artwork", t.artwork().map(|a| (api::fmt_code(&a.fmt), a.data.to_vec())), m.art.first().cloned())?;
    eq("media type", t.media_type(), m.media.and_then(|c| MEDIA.iter().find(|x| x.1 == c).map(|x| x.0)))?;
    eq("advisory rating", t.advisory_rating(), m.rating.map(|c| RATINGS.iter().find(|x| x.1 == c).map_or(RATINGS[2].0, |x| x.0)))?;
    let items = tag_items(t);
    let known = api::field_ids();
    let got: Items = items.iter().filter(|e| !known.contains(&e.0)).cloned().collect();
    if let Some(d) = diff_items(&m.others, &got) {
        return Err(format!("data of no typed field: {}", d));
    }
    // what another program would read
    let f = Fields::of(&items);
    eq("the stored data", format!("{:?}", f), format!("{:?}", m))
}

/// Fields stored anew, and those of a single value whenever it changes, have the form other programs expect: UTF-8 text,
/// big-endian numbers of the field's width, pairs with the number at byte 2 and the total at byte 4.
fn layout(before: &Items, after: &Items, m: &Fields) -> Result<(), String> {
    let old = |id: &Id| before.iter().find(|e| &e.0 == id);
    let form = |id: Id, what: &str, single: bool, ok: &dyn Fn(&[V]) -> bool| -> Result<(), String> {
        match after.iter().find(|e| e.0 == id) {
            Some(e) if old(&id).map_or(true, |o| single && o.1 != e.1) && !ok(&e.1) => Err(format!("{} is stored as {:?}", what, e.1)),
            _ => Ok(()),
        }
    };
    let put = |id, what, ok: &dyn Fn(&[V]) -> bool| form(id, what, false, ok);
    let set = |id, what, ok: &dyn Fn(&[V]) -> bool| form(id, what, true, ok);
    let texts = |v: &[V], w: &[String]| v.len() == w.len() && v.iter().zip(w).all(|(a, b)| matches!(a, V::Utf8(s) if s == b));
    let number = |v: &[V], w: &[u8]| v.len() == 1 && matches!(&v[0], V::Reserved(b) | V::BeSigned(b) if b == w);
    for (f, w) in SINGLES.iter().zip(&m.singles) {
        set((f.id)(), f.name, &|v| texts(v, w))?;
    }
    for (f, w) in MULTIS.iter().zip(&m.multis) {
        put((f.id)(), f.name, &|v| texts(v, w))?;
    }
    for f in FLAGS.iter() {
        set((f.id)(), f.name, &|v| number(v, &[1]))?;
    }
    for (f, w) in INTS.iter().zip(&m.ints) {
        let b = w.unwrap_or(0).to_be_bytes();
        set((f.id)(), f.name, &|v| number(v, if f.wide { &b } else { &b[2..] }))?;
    }
    for (f, w) in PAIRS.iter().zip(&m.pairs) {
        let (a, b) = (w.0.to_be_bytes(), w.1.to_be_bytes());
        let want = [0, 0, a[0], a[1], b[0], b[1], 0, 0];
        put((f.id)(), f.name, &|v| v.len() == 1 && matches!(&v[0], V::Reserved(b) | V::BeSigned(b) if b[..] == want[..6] || b[..] == want[..]))?;
    }
    put(api::standard_genre_id(), "standard genre", &|v| {
        v.len() == m.std.len() && v.iter().zip(&m.std).all(|(a, c)| matches!(a, V::Reserved(b) | V::BeSigned(b) if b[..] == c.to_be_bytes()))
    })?;
    put(api::artwork_id(), "artwork", &|v| v.len() == m.art.len() && v.iter().zip(&m.art).all(|(a, w)| a.code() as u8 == w.0 && a.image() == Some(&w.1)))?;
    set(api::media_id(), "media type", &|v| number(v, &[m.media.unwrap_or(0)]))?;
    set(api::rating_id(), "advisory rating", &|v| number(v, &[m.rating.unwrap_or(0)]))
}

fn text(t: &mut Tape) -> String {
    gen_string(t, 60)
}
fn texts(t: &mut Tape) -> Vec<String> {
    let n = t.weighted(&[1, 3, 3, 1]);
    (0..n).map(|_| text(t)).collect()
}
fn num16(t: &mut Tape) -> u16 {
    match t.weighted(&[4, 2, 2, 1]) {
        0 => t.below(20) as u16,
        1 => 0,
        2 => t.below(65536) as u16,
        _ => *t.pick(&[u16::MAX, 255, 256, 0x0100, 0x8000, 1]),
    }
}
fn genre_code(t: &mut Tape) -> u16 {
    match t.weighted(&[6, 2, 1]) {
        0 => 1 + t.below(80) as u16,
        1 => *t.pick(&[1u16, 80, 81, 0, 255, 256, u16::MAX]),
        _ => t.below(65536) as u16,
    }
}
fn picture(t: &mut Tape) -> (u8, Vec<u8>) {
    (*t.pick(&[13u8, 14, 27]), gen_bytes(t, 80))
}

/// One typed edit on both sides.
fn typed(t: &mut Tape, tag: &mut Tag, m: &mut Fields) -> Result<String, String> {
    fn same<T: PartialEq + std::fmt::Debug>(what: String, got: T, want: T) -> Result<String, String> {
        if got == want {
            Ok(what)
        } else {
            Err(format!("{} returned {:?}, expected {:?}", what, got, want))
        }
    }
    match t.weighted(&[5, 6, 2, 4, 6, 3, 5, 4, 2, 2, 2]) {
        0 => {
            let k = t.usize(SINGLES.len());
            let f = &SINGLES[k];
            match t.below(4) {
                0 | 1 => {
                    let v = text(t);
                    (f.set)(tag, v.clone());
                    m.singles[k] = vec![v.clone()];
                    Ok(format!("set_{}({:?})", f.name, v))
                }
                2 => {
                    let got = (f.take)(tag);
                    let want = m.singles[k].first().cloned();
                    m.singles[k].clear();
                    same(format!("take_{}", f.name), got, want)
                }
                _ => {
                    (f.remove)(tag);
                    m.singles[k].clear();
                    Ok(format!("remove_{}", f.name))
                }
            }
        }
        1 => {
            let k = t.usize(MULTIS.len());
            let f = &MULTIS[k];
            let l = &mut m.multis[k];
            match t.below(7) {
                0 => {
                    let v = text(t);
                    (f.set)(tag, v.clone());
                    *l = vec![v.clone()];
                    Ok(format!("set_{}({:?})", f.name, v))
                }
                1 => {
                    let v = texts(t);
                    (f.set_all)(tag, v.clone());
                    *l = v.clone();
                    Ok(format!("set all {} {:?}", f.name, v))
                }
                2 => {
                    let v = text(t);
                    (f.add)(tag, v.clone());
                    l.push(v.clone());
                    Ok(format!("add_{}({:?})", f.name, v))
                }
                3 => {
                    let v = texts(t);
                    (f.add_all)(tag, v.clone());
                    l.extend(v.clone());
                    Ok(format!("add all {} {:?}", f.name, v))
                }
                4 => {
                    let got = (f.take)(tag);
                    let want = l.first().cloned();
                    l.clear();
                    same(format!("take_{}", f.name), got, want)
                }
                5 => {
                    let got = (f.take_all)(tag);
                    let want = std::mem::take(l);
                    same(format!("take all {}", f.name), got, want)
                }
                _ => {
                    (f.remove)(tag);
                    l.clear();
                    Ok(format!("remove all {}", f.name))
                }
            }
        }
        2 => {
            let k = t.usize(FLAGS.len());
            let f = &FLAGS[k];
            if t.chance(1, 3) {
                (f.remove)(tag);
                m.flags[k] = false;
                Ok(format!("remove_{}", f.name))
            } else {
                (f.set)(tag);
                m.flags[k] = true;
                Ok(format!("set_{}", f.name))
            }
        }
        3 => {
            let k = t.usize(INTS.len());
            let f = &INTS[k];
            if t.chance(1, 4) {
                (f.remove)(tag);
                m.ints[k] = None;
                Ok(format!("remove_{}", f.name))
            } else {
                let v = if f.wide { t.any64() as u32 } else { num16(t) as u32 };
                (f.set)(tag, v);
                m.ints[k] = Some(v);
                Ok(format!("set_{}({})", f.name, v))
            }
        }
        4 => {
            let k = t.usize(PAIRS.len());
            let f = &PAIRS[k];
            let (a, b) = (num16(t), num16(t));
            let p = &mut m.pairs[k];
            match t.below(6) {
                0 => {
                    (f.set)(tag, a, b);
                    *p = (a, b);
                    Ok(format!("set_{}({}, {})", f.name, a, b))
                }
                1 => {
                    (f.set_number)(tag, a);
                    p.0 = a;
                    Ok(format!("set_{}_number({})", f.name, a))
                }
                2 => {
                    (f.set_total)(tag, b);
                    p.1 = b;
                    Ok(format!("set_total_{}s({})", f.name, b))
                }
                3 => {
                    (f.remove)(tag);
                    *p = (0, 0);
                    Ok(format!("remove_{}", f.name))
                }
                4 => {
                    (f.remove_number)(tag);
                    p.0 = 0;
                    Ok(format!("remove_{}_number", f.name))
                }
                _ => {
                    (f.remove_total)(tag);
                    p.1 = 0;
                    Ok(format!("remove_total_{}s", f.name))
                }
            }
        }
        5 => {
            let n = t.weighted(&[1, 3, 3]);
            let cs: Vec<u16> = (0..n).map(|_| genre_code(t)).collect();
            let c = cs.first().copied().unwrap_or(1);
            match t.below(5) {
                0 => {
                    tag.set_standard_genre(c);
                    m.std = vec![c];
                    Ok(format!("set_standard_genre({})", c))
                }
                1 => {
                    tag.set_standard_genres(cs.clone());
                    m.std = cs.clone();
                    Ok(format!("set_standard_genres({:?})", cs))
                }
                2 => {
                    tag.add_standard_genre(c);
                    m.std.push(c);
                    Ok(format!("add_standard_genre({})", c))
                }
                3 => {
                    tag.add_standard_genres(cs.clone());
                    m.std.extend(cs.clone());
                    Ok(format!("add_standard_genres({:?})", cs))
                }
                _ => {
                    tag.remove_standard_genres();
                    m.std.clear();
                    Ok("remove_standard_genres".into())
                }
            }
        }
        6 => {
            let all = |m: &Fields| -> Vec<String> { m.std.iter().filter_map(|c| genre_name(*c)).chain(m.multis[CUSTOM_GENRE].iter().cloned()).collect() };
            match t.below(6) {
                0 => {
                    let v = text(t);
                    tag.set_genre(v.clone());
                    m.std.clear();
                    m.multis[CUSTOM_GENRE] = vec![v.clone()];
                    Ok(format!("set_genre({:?})", v))
                }
                1 => {
                    let v = texts(t);
                    tag.set_genres(v.clone());
                    m.std.clear();
                    m.multis[CUSTOM_GENRE] = v.clone();
                    Ok(format!("set_genres({:?})", v))
                }
                2 => {
                    let v = text(t);
                    tag.add_genre(v.clone());
                    m.multis[CUSTOM_GENRE].push(v.clone());
                    Ok(format!("add_genre({:?})", v))
                }
                3 => {
                    // removes all custom genres
                    let want = all(m);
                    let got: Vec<String> = tag.take_genres().collect();
                    m.multis[CUSTOM_GENRE].clear();
                    same("take_genres".into(), got, want)
                }
                4 => {
                    let want = all(m).first().cloned();
                    let got = tag.take_genre();
                    m.multis[CUSTOM_GENRE].clear();
                    same("take_genre".into(), got, want)
                }
                _ => {
                    tag.remove_genres();
                    m.std.clear();
                    m.multis[CUSTOM_GENRE].clear();
                    Ok("remove_genres".into())
                }
            }
        }
        7 => {
            let n = t.weighted(&[1, 3, 2]);
            let ps: Vec<(u8, Vec<u8>)> = (0..n).map(|_| picture(t)).collect();
            let p = ps.first().cloned().unwrap_or((13, vec![1]));
            let img = |p: &(u8, Vec<u8>)| api::img(p.0, p.1.clone());
            match t.below(7) {
                0 => {
                    tag.set_artwork(img(&p));
                    m.art = vec![p.clone()];
                    Ok(format!("set_artwork({:?})", p))
                }
                1 => {
                    tag.set_artworks(ps.iter().map(img));
                    m.art = ps.clone();
                    Ok(format!("set_artworks({:?})", ps))
                }
                2 => {
                    tag.add_artwork(img(&p));
                    m.art.push(p.clone());
                    Ok(format!("add_artwork({:?})", p))
                }
                3 => {
                    tag.add_artworks(ps.iter().map(img));
                    m.art.extend(ps.clone());
                    Ok(format!("add_artworks({:?})", ps))
                }
                4 => {
                    let got = tag.take_artwork().map(|a: Img<Vec<u8>>| (api::fmt_code(&a.fmt), a.data));
                    let want = m.art.first().cloned();
                    m.art.clear();
                    same("take_artwork".into(), got, want)
                }
                5 => {
                    let got: Vec<(u8, Vec<u8>)> = tag.take_artworks().map(|a| (api::fmt_code(&a.fmt), a.data)).collect();
                    let want = std::mem::take(&mut m.art);
                    same("take_artworks".into(), got, want)
                }
                _ => {
                    tag.remove_artworks();
                    m.art.clear();
                    Ok("remove_artworks".into())
                }
            }
        }
        8 => {
            if t.chance(1, 3) {
                tag.remove_media_type();
                m.media = None;
                Ok("remove_media_type".into())
            } else {
                let x = t.pick(MEDIA);
                tag.set_media_type(x.0);
                m.media = Some(x.1);
                Ok(format!("set_media_type({:?})", x.0))
            }
        }
        9 => {
            if t.chance(1, 3) {
                tag.remove_advisory_rating();
                m.rating = None;
                Ok("remove_advisory_rating".into())
            } else {
                let x = t.pick(RATINGS);
                tag.set_advisory_rating(x.0);
                m.rating = Some(x.1);
                Ok(format!("set_advisory_rating({:?})", x.0))
            }
        }
        _ => {
            // data of no typed field
            let id = Id::F([b'z', b'z', b'0' + t.below(3) as u8, b'z']);
            let v = gen_value(t, 40);
            tag.set_data(id.to_ident(), v.to_data());
            let s = format!("set_data({:?}, {:?})", id, v);
            match m.others.iter_mut().find(|e| e.0 == id) {
                Some(e) => e.1 = vec![v],
                None => m.others.push((id, vec![v])),
            }
            Ok(s)
        }
    }
}

/// Typed fields as other programs store them.
fn foreign(t: &mut Tape) -> Items {
    let mut v = Items::new();
    let n = t.below(9);
    let two = |t: &mut Tape, b: Vec<u8>| if t.chance(1, 2) { V::Reserved(b) } else { V::BeSigned(b) };
    let txt = |t: &mut Tape| if t.chance(1, 3) { V::Utf16(text(t)) } else { V::Utf8(text(t)) };
    let few = |t: &mut Tape| 1 + t.weighted(&[4, 2, 1]);
    for _ in 0..n {
        let (id, vals): (Id, Vec<V>) = match t.below(10) {
            0 => ((SINGLES[t.usize(SINGLES.len())].id)(), vec![txt(t)]),
            1 => {
                let k = 1 + t.below(3);
                ((MULTIS[t.usize(MULTIS.len())].id)(), (0..k).map(|_| txt(t)).collect())
            }
            2 => {
                let k = few(t);
                ((FLAGS[t.usize(FLAGS.len())].id)(), (0..k).map(|_| {
                    let x = t.below(3) as u8;
                    two(t, vec![x])
                }).collect())
            }
            3 => {
                let f = &INTS[t.usize(INTS.len())];
                let k = few(t);
                ((f.id)(), (0..k).map(|_| {
                    let x = t.any64().to_be_bytes();
                    // longer or shorter than the field, too
                    let l = match t.weighted(&[6, 1, 1]) {
                        0 => if f.wide { 4 } else { 2 },
                        1 => t.usize(3),
                        _ => 2 + t.usize(5),
                    };
                    two(t, x[..l].to_vec())
                }).collect())
            }
            4 | 5 => {
                // eight bytes as iTunes writes them, six, only up to the number, or cut short
                let k = few(t);
                ((PAIRS[t.usize(2)].id)(), (0..k).map(|_| {
                    let (a, b) = (num16(t).to_be_bytes(), num16(t).to_be_bytes());
                    let full = vec![0, 0, a[0], a[1], b[0], b[1], 0, 0, 0];
                    let l = *t.pick(&[8usize, 6, 4, 8, 6, 5, 7, 9, 2, 0]);
                    two(t, full[..l].to_vec())
                }).collect())
            }
            6 => {
                let k = 1 + t.below(2);
                (api::standard_genre_id(), (0..k).map(|_| V::Reserved(genre_code(t).to_be_bytes().to_vec())).collect())
            }
            7 => {
                let k = 1 + t.below(2);
                (
                    api::artwork_id(),
                    (0..k)
                        .map(|_| {
                            let p = picture(t);
                            api::img_v(p.0, p.1)
                        })
                        .collect(),
                )
            }
            8 => {
                let k = few(t);
                (api::media_id(), (0..k).map(|_| {
                    let c = t.pick(MEDIA).1;
                    two(t, vec![c])
                }).collect())
            }
            _ => {
                let k = few(t);
                (api::rating_id(), (0..k).map(|_| {
                    let c = *t.pick(&[0u8, 1, 2, 4]);
                    two(t, vec![c])
                }).collect())
            }
        };
        if !v.iter().any(|e| e.0 == id) {
            v.push((id, vals));
        }
    }
    v
}

pub fn c16(cx: &mut Cx) -> R {
    let o = Opts { items: 2, val: 40, audio: false, big_tables: false, ..Opts::default() };
    let mut c = gen_container(cx, o);
    // typed items of another program in the file
    let f = foreign(&mut cx.t);
    let known = api::field_ids();
    let mut start: Items = c.items.iter().filter(|e| !known.contains(&e.0)).cloned().collect();
    start.extend(f);
    let sim = cx.world("history");
    {
        // stored by the reference writer where the file has an item list
        if !mp4::set_items(&mut c.top, &start) {
            start = c.items.clone();
            if start.iter().any(|e| known.contains(&e.0)) {
                start.clear();
            }
        }
        if !start.is_empty() || c.items.is_empty() {
            c.store = mp4::emit_file(&c.top);
        }
    }
    sim.lock().put(F, c.store.clone());
    cx.say(&sim, || format!("stored: {:?}", start));
    let stored = match mp4::parse(&c.store).map(|t| mp4::ilst(&t).map(|i| mp4::read_items(&c.store, i))) {
        Ok(Some(Ok(i))) => i,
        _ => Items::new(),
    };
    if stored.iter().any(|e| known.contains(&e.0)) && stored != start {
        // items of a typed field with contents of another kind: not what the typed accessors are about
        return Ok(());
    }
    let mut durable = Fields::of(&stored);
    let (mut tag, mut model) = match read(&sim, F, Src::Path, 0).out {
        Out::Ok(t) => (t, durable.clone()),
        // that reading works is another property
        _ => return Ok(()),
    };
    cx.evals += 1;
    if tag_items(&tag) != stored {
        return Ok(());
    }
    if let Err(m) = agree_fields(&tag, &model) {
        return viol("stored-differs", format!("stored {:?}: {}", stored, m));
    }
    if cx.t.chance(1, 4) {
        tag = Tag::default();
        model = Fields::of(&Items::new());
    }
    let steps = if cx.t.chance(1, 120) { 100 + cx.t.below(300) } else { 3 + cx.t.below(25) };
    let (mut edits, mut saves) = (0, 0);
    let mut last = String::new();
    for _ in 0..steps {
        if cx.t.weighted(&[6, 1]) == 0 {
            let before = tag_items(&tag);
            let t = &mut cx.t;
            let what = match guard(|| typed(t, &mut tag, &mut model)) {
                Ok(Ok(w)) => w,
                Ok(Err(m)) => return viol("edit-differs", m),
                Err(p) => return viol("edit-panics", p),
            };
            cx.say(&sim, || what.clone());
            cx.evals += 1;
            let all = || {
                agree_fields(&tag, &model)?;
                layout(&before, &tag_items(&tag), &model)
            };
            match guard(all) {
                Ok(Ok(())) => {}
                Ok(Err(m)) => return viol("field-differs", format!("after {}: {}", what, m)),
                Err(p) => return viol("query-panics", p),
            }
            edits += 1;
            last = what;
        } else {
            if !life(cx, &sim, &mut tag, &mut model, &mut durable, &agree_fields)? {
                break;
            }
            saves += 1;
        }
    }
    if edits >= 3 && saves >= 1 {
        cx.nontrivial = true;
    }
    cx.sample = format!("{} typed edits (last: {:.80}) and {} saves or restarts, {} items stored before", edits, last, saves, stored.len());
    Ok(())
}
