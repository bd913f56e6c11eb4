//! Tags of about 4 GiB and more: lengths that need 64 bits in what is written, or cannot be expressed (C14, C19).
//! The values are zeros but for their ends, which cost neither memory nor disk.
use crate::cx::*;
use crate::model::{diff_items, gen_items, Id, Items};
use crate::mp4::{self, Opts, P};
use crate::sim::Out;
use crate::store::Store;
use crate::tape::Tape;
use mp4ameta::{Data, Tag};

const F: &str = "/sim/song.m4a";
const MAX: u64 = u32::MAX as u64;

/// Values: type, length, first and last byte.
struct Mega {
    items: Vec<(Id, Vec<(u32, u64, u8)>)>,
}

fn item_len(i: &(Id, Vec<(u32, u64, u8)>)) -> u64 {
    let h = match &i.0 {
        Id::F(_) => 8,
        Id::Free(m, n) => 8 + 24 + m.len() as u64 + n.len() as u64,
    };
    h + i.1.iter().map(|v| 16 + v.1).sum::<u64>()
}

impl Mega {
    fn gen(t: &mut Tape) -> Mega {
        let big = 1 + t.weighted(&[3, 3, 2]);
        let together = t.chance(1, 3);
        const IDS: [&[u8; 4]; 3] = [b"covr", b"\xa9lyr", b"mega"];
        let mut items: Vec<(Id, Vec<(u32, u64, u8)>)> = Vec::new();
        for k in 0..big {
            let v = (*t.pick(&[0u32, 1, 13, 14, 21, 27]), 0, 1 + t.below(127) as u8);
            match items.last_mut() {
                Some(l) if together => l.1.push(v),
                _ if t.chance(1, 4) => items.push((Id::Free("mega".into(), format!("{}", k)), vec![v])),
                _ => items.push((Id::F(*IDS[k]), vec![v])),
            }
        }
        let small = t.below(3);
        for k in 0..small {
            let at = t.usize(items.len() + 1);
            items.insert(at, (Id::F([b's', b'm', b'l', b'0' + k as u8]), vec![(1, 1 + t.below(40), 1 + t.below(127) as u8)]));
        }
        // around the length at which one of the atoms needs 64 bits, or somewhere beyond
        let d = t.below(200);
        let total = match t.weighted(&[3, 3, 1, 1]) {
            0 => MAX - d,
            1 => MAX + 1 + d,
            2 => MAX - 8 * d,
            _ => MAX + t.below(200 << 20),
        };
        let mut rest = total - items.iter().map(item_len).sum::<u64>();
        for i in items.iter_mut() {
            for v in i.1.iter_mut().filter(|v| v.1 == 0) {
                v.1 = rest / big as u64;
            }
        }
        rest %= big as u64;
        let v = items.iter_mut().flat_map(|i| i.1.iter_mut()).max_by_key(|v| v.1).unwrap();
        v.1 += rest;
        Mega { items }
    }
    fn tag(&self) -> Tag {
        let mut tag = Tag::default();
        for (id, vs) in &self.items {
            for &(code, len, m) in vs {
                let mut b = vec![0u8; len as usize];
                b[0] = m;
                b[len as usize - 1] = m;
                let d = match code {
                    0 => Data::Reserved(b),
                    // zeros and ASCII
                    1 => Data::Utf8(unsafe { String::from_utf8_unchecked(b) }),
                    13 => Data::Jpeg(b),
                    14 => Data::Png(b),
                    21 => Data::BeSigned(b),
                    _ => Data::Bmp(b),
                };
                tag.add_data(id.to_ident(), d);
            }
        }
        tag
    }
    /// The length of an item has 32 bits.
    fn expressible(&self) -> bool {
        self.items.iter().all(|i| item_len(i) <= MAX)
    }
    fn list_len(&self) -> u64 {
        8 + self.items.iter().map(item_len).sum::<u64>()
    }
    fn describe(&self) -> String {
        self.items.iter().map(|i| format!("{:?} of {} bytes, values {:?}", i.0, item_len(i), i.1)).collect::<Vec<_>>().join("; ")
    }
    /// Compares with what is stored.
    fn diff(&self, s: &Store, t: &[P]) -> Option<String> {
        let il = mp4::ilst(t)?;
        if il.kids.len() != self.items.len() {
            return Some(format!("{} items, expected {}", il.kids.len(), self.items.len()));
        }
        for ((id, vs), k) in self.items.iter().zip(&il.kids) {
            let (cc, head) = match id {
                Id::F(c) => (*c, vec![]),
                Id::Free(m, n) => (*b"----", vec![(b"mean", m), (b"name", n)]),
            };
            if k.cc != cc || k.kids.len() != head.len() + vs.len() {
                return Some(format!("item {} with {} atoms, expected {:?} with {} values", mp4_str(&k.cc), k.kids.len(), id, vs.len()));
            }
            for ((c, want), p) in head.iter().zip(&k.kids) {
                if p.cc != **c || p.len - p.hlen > 1000 || s.slice(p.body(), p.len - p.hlen) != [&[0; 4], want.as_bytes()].concat() {
                    return Some(format!("the identifier of {:?} differs", id));
                }
            }
            for (&(code, len, m), p) in vs.iter().zip(&k.kids[head.len()..]) {
                let at = p.body() + 8;
                let zeros = |n: u64| {
                    let mut z = Store::default();
                    z.set_len(n);
                    z
                };
                let ok = &p.cc == b"data"
                    && p.len == p.hlen + 8 + len
                    && s.slice(p.body(), 8) == [code.to_be_bytes(), [0; 4]].concat()
                    && s.slice(at, 1) == [m]
                    && s.slice(at + len - 1, 1) == [m]
                    && (len < 3 || Store::first_diff(s, at + 1, &zeros(len - 2), 0, len - 2).is_none());
                if !ok {
                    return Some(format!("a value of {:?} is not the one of {} bytes that was given", id, len));
                }
            }
        }
        None
    }
}

fn mp4_str(c: &[u8; 4]) -> String {
    crate::model::cc_str(c)
}

/// A dump of such a tag is complete, or refused if an item is too long.
pub fn dumps(cx: &mut Cx) -> R {
    let m = Mega::gen(&mut cx.t);
    cx.note(|| format!("tag: {}", m.describe()));
    let sim = cx.world("dump");
    sim.lock().limit = u64::MAX / 16;
    let to = gen_to(&mut cx.t);
    let d = dump(&sim, F, &m.tag(), to);
    cx.evals += 1;
    cx.nontrivial = true;
    let img = sim.lock().get(F);
    if let Some(p) = d.panicked() {
        return viol("panic", format!("dumping {}: {}", m.describe(), p));
    }
    if !d.ok() {
        return match m.expressible() {
            true => viol("dump-fails", format!("of {}: {}", m.describe(), d.describe())),
            false => Ok(()),
        };
    }
    match mp4::check_shape(&img, None) {
        Err(e) => viol("malformed", format!("the dump of {}: {}", m.describe(), e)),
        Ok(t) => match m.diff(&img, &t) {
            Some(e) => viol("items-differ", format!("the dump of {}: {}", m.describe(), e)),
            None => Ok(()),
        },
    }
}

/// Such a tag is saved, and replaced by a small one again.
pub fn saves(cx: &mut Cx) -> R {
    let ext = *cx.t.pick(&[16, 16, 10, 4]);
    let giant = cx.t.chance(1, 4);
    let c = gen_container(cx, Opts { ext, giant, items: 3, val: 100, ..Opts::default() });
    let before = c.store.clone();
    let Ok(bt) = mp4::parse(&before) else { return Ok(()) };
    let m = Mega::gen(&mut cx.t);
    cx.note(|| format!("tag: {}", m.describe()));
    let sim = cx.world("saves");
    sim.lock().put(F, before.clone());
    sim.lock().limit = u64::MAX / 16;
    let via = gen_via(&mut cx.t, before.len().min(1 << 20));
    let d = save(&sim, F, &m.tag(), via);
    cx.evals += 1;
    cx.nontrivial = true;
    let after = sim.lock().get(F);
    if let Some(p) = d.panicked() {
        return viol("panic", format!("saving {}: {}", m.describe(), p));
    }
    if !d.ok() {
        let grow = m.list_len() + 400;
        if m.expressible() && !mp4::out_of_range(&before, &bt, grow) && !mp4::size_out_of_range(&bt, m.list_len() + 8) {
            return viol("save-fails", format!("of {}: {}", m.describe(), d.describe()));
        }
        if first_diff(&before, &after).is_some() {
            return viol("refused-but-modified", format!("saving {}: {}, but the file was modified", m.describe(), d.describe()));
        }
        return Ok(());
    }
    let at = match mp4::check_shape(&after, Some(&bt)) {
        Err(e) => return viol("malformed", format!("after saving {}: {}", m.describe(), e)),
        Ok(t) => t,
    };
    if let Some(e) = m.diff(&after, &at) {
        return viol("items-differ", format!("after saving {}: {}", m.describe(), e));
    }
    if let Err(e) = mp4::preserved(&before, &bt, &after, &at) {
        return viol("not-preserved", e);
    }
    if let Err(e) = mp4::same_chunks(&before, &bt, &after, &at) {
        return viol("chunk-moved", e);
    }
    // and back
    let items: Items = gen_items(&mut cx.t, 3, 100);
    let via = gen_via(&mut cx.t, 1 << 20);
    let d = save(&sim, F, &make(&items), via);
    cx.evals += 1;
    if !d.ok() {
        return viol("save-fails", format!("of a small tag in place of {}: {}", m.describe(), d.describe()));
    }
    let small = sim.lock().get(F);
    let st = match mp4::check_saved(&small, Some(&bt)) {
        Err(e) => return viol("malformed", format!("a small tag in place of {}: {}", m.describe(), e)),
        Ok((t, got)) => {
            if let Some(e) = diff_items(&items, &got) {
                return viol("items-differ", e);
            }
            t
        }
    };
    if let Err(e) = mp4::preserved(&before, &bt, &small, &st) {
        return viol("not-preserved", e);
    }
    if let Err(e) = mp4::same_chunks(&before, &bt, &small, &st) {
        return viol("chunk-moved", e);
    }
    let d = read(&sim, F, Src::Path, 0);
    match d.out {
        Out::Ok(t) => match diff_items(&items, &tag_items(&t)) {
            Some(e) => viol("large-read-differs", e),
            None => Ok(()),
        },
        _ => viol("large-read-fails", d.describe()),
    }
}
