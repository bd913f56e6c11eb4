//! Reference container: a generator of well-formed files, a strict independent parser, and comparisons.
use crate::model::{cc_str, gen_count, gen_one_of, gen_value, near_pair, Cc, Id, Items, V};
use crate::store::Store;
use crate::tape::{pattern, Rng, Tape};

#[derive(Clone, Debug)]
pub enum Ref {
    Media(u32, u64),
    Abs(u64),
}

#[derive(Clone, Debug)]
pub enum Body {
    Leaf(Vec<u8>),
    /// Mostly a hole; marks are (offset, bytes).
    Sparse(u64, Vec<(u64, Vec<u8>)>),
    Kids(Vec<u8>, Vec<Node>),
    Offs(bool, [u8; 3], Vec<Ref>),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub cc: Cc,
    pub ext: bool,
    pub body: Body,
    pub mdat: u32,
}

impl Node {
    pub fn leaf(cc: &Cc, b: Vec<u8>) -> Node {
        Node { cc: *cc, ext: false, body: Body::Leaf(b), mdat: 0 }
    }
    pub fn kids(cc: &Cc, k: Vec<Node>) -> Node {
        Node { cc: *cc, ext: false, body: Body::Kids(Vec::new(), k), mdat: 0 }
    }
    pub fn full(cc: &Cc, pre: Vec<u8>, k: Vec<Node>) -> Node {
        Node { cc: *cc, ext: false, body: Body::Kids(pre, k), mdat: 0 }
    }
    fn body_len(&self) -> u64 {
        match &self.body {
            Body::Leaf(b) => b.len() as u64,
            Body::Sparse(n, _) => *n,
            Body::Kids(p, k) => p.len() as u64 + k.iter().map(|n| n.len()).sum::<u64>(),
            Body::Offs(w, _, r) => 8 + r.len() as u64 * if *w { 8 } else { 4 },
        }
    }
    pub fn is_ext(&self) -> bool {
        self.ext || self.body_len() + 8 > u32::MAX as u64
    }
    pub fn head(&self) -> u64 {
        if self.is_ext() {
            16
        } else {
            8
        }
    }
    pub fn len(&self) -> u64 {
        self.head() + self.body_len()
    }
    fn emit(&self, s: &mut Store, pos: u64, medias: &[(u32, u64)]) {
        let len = self.len();
        let mut h = Vec::new();
        if self.is_ext() {
            h.extend_from_slice(&1u32.to_be_bytes());
            h.extend_from_slice(&self.cc);
            h.extend_from_slice(&len.to_be_bytes());
        } else {
            h.extend_from_slice(&(len as u32).to_be_bytes());
            h.extend_from_slice(&self.cc);
        }
        s.write_at(pos, &h);
        let mut p = pos + h.len() as u64;
        match &self.body {
            Body::Leaf(b) => s.write_at(p, b),
            Body::Sparse(n, marks) => {
                if s.len() < p + n {
                    s.set_len(p + n);
                }
                for (o, b) in marks {
                    s.write_at(p + o, b);
                }
            }
            Body::Kids(pre, k) => {
                s.write_at(p, pre);
                p += pre.len() as u64;
                for n in k {
                    n.emit(s, p, medias);
                    p += n.len();
                }
            }
            Body::Offs(w, fl, refs) => {
                let mut b = vec![0, fl[0], fl[1], fl[2]];
                b.extend_from_slice(&(refs.len() as u32).to_be_bytes());
                for r in refs {
                    let o = match r {
                        Ref::Media(id, off) => medias.iter().find(|m| m.0 == *id).map_or(0, |m| m.1) + off,
                        Ref::Abs(a) => *a,
                    };
                    if *w {
                        b.extend_from_slice(&o.to_be_bytes());
                    } else {
                        b.extend_from_slice(&(o as u32).to_be_bytes());
                    }
                }
                s.write_at(p, &b);
            }
        }
    }
}

/// Replaces the items of the item list by plainly encoded ones; false if there is no item list.
pub fn set_items(top: &mut [Node], items: &Items) -> bool {
    fn down<'a>(v: &'a mut [Node], cc: &Cc) -> Option<&'a mut Vec<Node>> {
        match &mut v.iter_mut().find(|n| &n.cc == cc)?.body {
            Body::Kids(_, k) => Some(k),
            _ => None,
        }
    }
    let list = down(top, b"moov").and_then(|v| down(v, b"udta")).and_then(|v| down(v, b"meta")).and_then(|v| down(v, b"ilst"));
    let Some(list) = list else { return false };
    list.clear();
    for (id, vs) in items {
        let mut k = Vec::new();
        let cc = match id {
            Id::F(c) => *c,
            Id::Free(m, n) => {
                k.push(Node::leaf(b"mean", [&[0; 4], m.as_bytes()].concat()));
                k.push(Node::leaf(b"name", [&[0; 4], n.as_bytes()].concat()));
                *b"----"
            }
        };
        k.extend(vs.iter().map(|v| Node::leaf(b"data", [&v.code().to_be_bytes()[..], &[0; 4], &v.encode()].concat())));
        list.push(Node::kids(&cc, k));
    }
    true
}

pub fn emit_file(top: &[Node]) -> Store {
    let mut medias = Vec::new();
    let mut p = 0;
    for n in top {
        if n.mdat != 0 {
            medias.push((n.mdat, p + n.head()));
        }
        p += n.len();
    }
    let mut s = Store::default();
    let mut p = 0;
    for n in top {
        n.emit(&mut s, p, &medias);
        p += n.len();
    }
    if s.len() < p {
        s.set_len(p);
    }
    s
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Info {
    /// (duration, time scale)
    pub duration: Option<(u64, u32)>,
    pub channels: Option<u8>,
    pub rate: Option<u8>,
    pub max: Option<u32>,
    pub avg: Option<u32>,
}

pub struct Container {
    pub top: Vec<Node>,
    pub store: Store,
    pub items: Items,
    pub info: Info,
    pub ftyp: String,
    pub shape: u64,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub ext: u64,
    pub giant: bool,
    /// With `giant`: 32-bit chunk offsets close to what they can express.
    pub edge: bool,
    /// Something huge inside the movie atom, in front of the item list.
    pub giant_moov: bool,
    pub items: u64,
    pub val: u64,
    pub audio: bool,
    pub big_tables: bool,
    /// Chunk offset tables of more than 65 536 entries.
    pub huge_tables: bool,
    pub bulk: bool,
    /// A media data atom of tens of mebibytes.
    pub hulk: bool,
    /// Dozens to hundreds of one kind: atoms at the top, in the movie atom, around the item list, tracks, media.
    pub crowd: u8,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { ext: 1, giant: false, edge: false, giant_moov: false, items: 5, val: 300, audio: true, big_tables: true, huge_tables: false, bulk: false, hulk: false, crowd: 0 }
    }
}

struct G<'a> {
    t: &'a mut Tape,
    o: Opts,
    uniq: u64,
    h: crate::tape::Hash,
}

/// Fields that are not aligned to bytes.
#[derive(Default)]
struct Bits {
    v: Vec<u8>,
    n: usize,
}

impl Bits {
    fn put(&mut self, x: u64, k: usize) {
        for i in (0..k).rev() {
            if self.n % 8 == 0 {
                self.v.push(0);
            }
            *self.v.last_mut().unwrap() |= ((x >> i & 1) as u8) << (7 - self.n % 8);
            self.n += 1;
        }
    }
}

impl G<'_> {
    fn fill(&mut self, n: usize) -> Vec<u8> {
        self.uniq += 1;
        pattern(0x7000_0000 + self.uniq, n)
    }
    fn ext(&mut self, mut n: Node) -> Node {
        if self.o.ext > 0 && self.t.chance(self.o.ext, 16) {
            n.ext = true;
            self.h.add(0xE);
        }
        n
    }
    /// Inserts at a drawn position; the simple choice is the end.
    fn insert(&mut self, v: &mut Vec<Node>, n: Node) {
        let k = v.len() - self.t.usize(v.len() + 1);
        self.h.add(k as u64 + 100);
        v.insert(k, n);
    }
    fn filler(&mut self) -> Node {
        const C: &[&Cc] = &[b"free", b"skip", b"wide", b"uuid", b"junk", b"\xa9xyz", b"iods", b"pdin"];
        let cc = **self.t.pick(C);
        let n = if &cc == b"wide" { 0 } else { self.t.log(300) as usize };
        let zero = self.t.chance(1, 3);
        let b = if zero { vec![0; n] } else { self.fill(n) };
        let n = Node::leaf(&cc, b);
        self.ext(n)
    }
    fn data_node(&mut self, v: &V) -> Node {
        let mut b = v.code().to_be_bytes().to_vec();
        let loc = if self.t.chance(1, 6) { self.fill(4) } else { vec![0; 4] };
        b.extend_from_slice(&loc);
        b.extend(v.encode());
        let n = Node::leaf(b"data", b);
        self.ext(n)
    }
    fn item(&mut self, id: &Id, vs: &[V]) -> Node {
        let mut k: Vec<Node> = Vec::new();
        let cc = match id {
            Id::F(c) => *c,
            Id::Free(m, n) => {
                let f = |s: &str, r: &mut Self| {
                    let mut b = vec![0];
                    b.extend(if r.t.chance(1, 8) { r.fill(3) } else { vec![0; 3] });
                    b.extend_from_slice(s.as_bytes());
                    b
                };
                let (a, b) = (f(m, self), f(n, self));
                let a = self.ext(Node::leaf(b"mean", a));
                let b = self.ext(Node::leaf(b"name", b));
                k.push(a);
                k.push(b);
                if self.t.chance(1, 8) {
                    k.swap(0, 1);
                }
                *b"----"
            }
        };
        let mut datas: Vec<Node> = vs.iter().map(|v| self.data_node(v)).collect();
        if self.t.chance(1, 10) && !k.is_empty() {
            // values in front of the names
            datas.append(&mut k);
        }
        k.extend(datas);
        if self.t.chance(1, 8) {
            const C: &[&Cc] = &[b"xtra", b"free", b"itif"];
            let cc = **self.t.pick(C);
            let n = self.t.range(0, 20) as usize;
            let n = Node::leaf(&cc, self.fill(n));
            self.insert(&mut k, n);
        }
        if &cc != b"----" && self.t.chance(1, 24) {
            // a name that isn't part of the identifier
            let mut b = vec![0; 4];
            b.extend_from_slice(*self.t.pick(&[&b"a name"[..], b"", b"com.apple.iTunes"]));
            let n = Node::leaf(*self.t.pick(&[b"name", b"mean"]), b);
            self.insert(&mut k, n);
        }
        let n = Node::kids(&cc, k);
        self.ext(n)
    }
    fn ilst(&mut self, items: &mut Items) -> Node {
        let n = self.t.below(self.o.items + 1);
        let mut k: Vec<Node> = Vec::new();
        let mut near: Vec<Id> = Vec::new();
        for _ in 0..n {
            let mut id = gen_one_of(self.t, self.o.items);
            if let Some(n) = near.pop() {
                id = n;
            } else if self.t.chance(1, 16) {
                near = near_pair(self.t, &id).to_vec();
            }
            if matches!(&id, Id::F(c) if c == b"free") {
                id = Id::F(*b"\xa9nam");
            }
            // a plain "----" without names is read as that four-character code; keep foreign files conventional
            if matches!(&id, Id::F(c) if c == b"----") {
                id = Id::F(*b"cprt");
            }
            if near.is_empty() && !items.is_empty() && self.t.chance(1, 5) {
                let i = self.t.usize(items.len());
                id = items[i].0.clone();
            }
            let c = gen_count(self.t, self.o.items);
            let mut vs: Vec<V> = (0..c).map(|_| gen_value(self.t, self.o.val)).collect();
            if self.t.chance(1, 12) {
                let x = vs[0].clone();
                vs.push(x);
            }
            k.push(self.item(&id, &vs));
            match items.iter_mut().find(|e| e.0 == id) {
                Some(e) => e.1.extend(vs),
                None => items.push((id, vs)),
            }
            if self.t.chance(1, 8) {
                let n = self.t.log(200) as usize;
                let b = self.fill(n);
                let n = self.ext(Node::leaf(b"free", b));
                k.push(n);
            }
        }
        let n = Node::kids(b"ilst", k);
        self.ext(n)
    }
    fn hdlr(&mut self) -> Node {
        let mut b = vec![0u8; 4];
        // files of other programs carry other handlers
        b.extend_from_slice(if self.t.chance(1, 8) { *self.t.pick(&[b"mhlr", b"dhlr"]) } else { &[0; 4] });
        b.extend_from_slice(if self.t.chance(1, 6) { *self.t.pick(&[b"mdta", b"ID32", b"\0\0\0\0", b"soun", b"mp7t"]) } else { b"mdir" });
        b.extend_from_slice(if self.t.chance(1, 6) { *self.t.pick(&[b"\0\0\0\0", b"mp3 ", b"APPL"]) } else { b"appl" });
        let rest = if self.t.chance(1, 8) { self.fill(8) } else { vec![0; 8] };
        b.extend_from_slice(&rest);
        match self.t.weighted(&[6, 2, 1, 1]) {
            0 => b.push(0),
            1 => b.extend_from_slice(b"name of the handler\0"),
            2 => {
                let n = self.t.range(0, 300) as usize;
                let f = self.fill(n);
                b.extend_from_slice(&f)
            }
            _ => b.truncate([24, 20, 8, 0][self.t.usize(4)]),
        }
        let n = Node::leaf(b"hdlr", b);
        self.ext(n)
    }
    /// Metadata somewhere the library does not look: it must stay as it is.
    fn decoy(&mut self) -> Node {
        let mut it = Items::new();
        let save = self.o.items;
        self.o.items = 2;
        let i = self.ilst(&mut it);
        self.o.items = save;
        let h = self.hdlr();
        Node::full(b"meta", vec![0; 4], vec![h, i])
    }
    fn udta(&mut self, items: &mut Items) -> Option<Node> {
        // 0: complete, then missing levels
        let lvl = self.t.weighted(&[10, 2, 2, 2]);
        self.h.add(lvl as u64 + 200);
        if lvl == 3 {
            return None;
        }
        let mut uk = Vec::new();
        if lvl != 2 {
            let mut mk = Vec::new();
            if lvl == 0 {
                let i = self.ilst(items);
                mk.push(i);
            }
            if self.t.mostly(6, 7) {
                let h = self.hdlr();
                if self.t.chance(1, 4) {
                    mk.push(h)
                } else {
                    mk.insert(0, h)
                }
            } else {
                self.h.add(0xAD);
            }
            for _ in 0..self.t.weighted(&[5, 3, 1]) {
                let f = self.filler();
                self.insert(&mut mk, f);
            }
            let pre = if self.t.chance(1, 10) {
                let mut p = vec![0];
                p.extend(self.fill(3));
                p
            } else {
                vec![0; 4]
            };
            let m = self.ext(Node::full(b"meta", pre, mk));
            uk.push(m);
        }
        for _ in 0..self.t.weighted(&[6, 3, 1]) {
            let f = self.filler();
            self.insert(&mut uk, f);
        }
        let n = Node::kids(b"udta", uk);
        Some(self.ext(n))
    }
    fn desc(&mut self, tag: u8, body: Vec<u8>) -> Vec<u8> {
        let n = body.len();
        let min = if n < 0x80 {
            1
        } else if n < 0x4000 {
            2
        } else {
            3
        };
        let k = min + self.t.usize(5 - min);
        let mut v = vec![tag];
        for i in (0..k).rev() {
            v.push(((n >> (7 * i)) & 0x7f) as u8 | if i > 0 { 0x80 } else { 0 });
        }
        v.extend(body);
        v
    }
    fn rate(&mut self) -> u32 {
        match self.t.weighted(&[4, 2, 1, 2]) {
            0 => self.t.any64() as u32,
            1 => 0,
            2 => u32::MAX,
            _ => self.t.log(u32::MAX as u64) as u32,
        }
    }
    fn esds(&mut self, info: &mut Info) -> Node {
        let mut es = self.fill(2);
        es.push(self.t.below(32) as u8);
        let mut parts: Vec<Vec<u8>> = Vec::new();
        if self.t.mostly(9, 10) {
            let mut dc = vec![0x40, 0x15];
            if self.t.chance(1, 6) {
                dc = vec![*self.t.pick(&[0x6b, 0x69, 0x67, 0x66, 0xa5, 0x20, 0, 0xff]), *self.t.pick(&[0x15, 0x11, 0x14, 0, 0xff])];
            }
            dc.extend(self.fill(3));
            let max = self.rate();
            let avg = if self.t.chance(1, 8) { max } else { self.rate() };
            dc.extend_from_slice(&max.to_be_bytes());
            dc.extend_from_slice(&avg.to_be_bytes());
            info.max = Some(max);
            info.avg = Some(avg);
            let mut sub: Vec<Vec<u8>> = Vec::new();
            if self.t.mostly(9, 10) {
                // object type (escaped from 32 on), frequency index or the frequency itself, channels
                let mut bits = Bits::default();
                if self.t.mostly(9, 10) {
                    bits.put(1 + self.t.below(30), 5);
                } else {
                    bits.put(31, 5);
                    bits.put(self.t.below(64), 6);
                }
                const HZ: [u32; 13] = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350];
                if self.t.mostly(9, 10) {
                    let f = self.t.below(15);
                    bits.put(f, 4);
                    info.rate = if f < 13 { Some(f as u8) } else { None };
                } else {
                    let hz = match self.t.below(4) {
                        0 => self.t.below(1 << 24) as u32,
                        1 => *self.t.pick(&[0, 1, 44101, 0x00FF_FFFF, 192_000, 4]),
                        _ => *self.t.pick(&HZ),
                    };
                    bits.put(15, 4);
                    bits.put(hz as u64, 24);
                    info.rate = HZ.iter().position(|h| *h == hz).map(|i| i as u8);
                }
                let c = self.t.below(16);
                bits.put(c, 4);
                while bits.n % 8 > 0 {
                    bits.put(self.t.below(2), 1);
                }
                let mut ds = bits.v;
                let extra = self.t.weighted(&[4, 1, 1, 1]) * 3;
                ds.extend(self.fill(extra));
                sub.push(self.desc(5, ds));
                info.channels = if (1..8).contains(&c) { Some(c as u8) } else { None };
            }
            if self.t.chance(1, 4) {
                let n = if self.t.chance(1, 4) { 130 } else { self.t.range(0, 20) as usize };
                let b = self.fill(n);
                let d = self.desc(0x14, b);
                let at = self.t.usize(sub.len() + 1);
                sub.insert(at, d);
            }
            for s in sub {
                dc.extend(s);
            }
            parts.push(self.desc(4, dc));
        }
        let sl = self.desc(6, vec![2]);
        if self.t.chance(1, 5) {
            parts.insert(0, sl)
        } else {
            parts.push(sl)
        }
        if self.t.chance(1, 6) {
            let n = self.t.range(0, 200) as usize;
            let b = self.fill(n);
            let d = self.desc(0x0f, b);
            let at = self.t.usize(parts.len() + 1);
            parts.insert(at, d);
        }
        for p in parts {
            es.extend(p);
        }
        let mut b = vec![0];
        b.extend(if self.t.chance(1, 8) { self.fill(3) } else { vec![0; 3] });
        let d = self.desc(3, es);
        b.extend(d);
        let n = Node::leaf(b"esds", b);
        self.ext(n)
    }
    fn stsd(&mut self, info: &mut Option<Info>) -> Node {
        let mut entries: Vec<Node> = Vec::new();
        if self.t.mostly(4, 5) {
            let mut i = Info::default();
            let e = self.esds(&mut i);
            let mut pre = vec![0u8; 6];
            pre.extend_from_slice(&[0, 1]);
            pre.extend_from_slice(&[0; 8]);
            let (c, w) = if self.t.chance(1, 4) { (self.t.below(9) as u8, *self.t.pick(&[0, 8, 24, 32])) } else { (2, 16) };
            pre.extend_from_slice(&[0, c, 0, w]);
            pre.extend(self.fill(8));
            let mut k = vec![e];
            for _ in 0..self.t.weighted(&[9, 2, 1]) {
                const C: &[&Cc] = &[b"btrt", b"chan", b"srat", b"free", b"pinf"];
                let cc = **self.t.pick(C);
                let n = if self.t.chance(1, 2) { 12 } else { self.t.range(0, 60) as usize };
                let n = Node::leaf(&cc, self.fill(n));
                let n = self.ext(n);
                self.insert(&mut k, n);
            }
            let m = self.ext(Node::full(b"mp4a", pre, k));
            entries.push(m);
            *info = Some(i);
        }
        for _ in 0..self.t.weighted(&[8, 1]) {
            const C: &[&Cc] = &[b"alac", b"tx3g", b"avc1"];
            let cc = **self.t.pick(C);
            let n = self.t.range(8, 60) as usize;
            let e = Node::leaf(&cc, self.fill(n));
            self.insert(&mut entries, e);
        }
        let mut pre = vec![0u8; 4];
        pre.extend_from_slice(&(entries.len() as u32).to_be_bytes());
        let n = Node::full(b"stsd", pre, entries);
        self.ext(n)
    }
    fn offs(&mut self, wide: bool, medias: &[(u32, u64, bool)]) -> Node {
        let n = match self.t.weighted(&[8, 1, if self.o.big_tables { 1 } else { 0 }, if self.o.huge_tables { 10 } else { 0 }]) {
            3 => self.t.range(65_530, 140_000),
            0 => self.t.range(0, 6),
            1 => self.t.range(6, 60),
            _ => self.t.range(60, 3000),
        };
        let mut refs = Vec::new();
        let usable: Vec<_> = medias.iter().filter(|m| m.1 > 0 && (wide || !m.2)).collect();
        if !usable.is_empty() {
            if n <= 6 {
                for _ in 0..n {
                    let m = usable[self.t.usize(usable.len())];
                    let o = if m.2 { m.1 - 1 - self.t.log((m.1 - 1).min(1 << 20)) } else { self.t.below(m.1) };
                    refs.push(Ref::Media(m.0, o));
                }
            } else {
                let mut r = Rng::new(self.t.below(1 << 20));
                for _ in 0..n {
                    let m = usable[r.below(usable.len() as u64) as usize];
                    let o = r.below(m.1);
                    refs.push(Ref::Media(m.0, o));
                }
            }
        } else {
            for i in 0..n.min(2) {
                refs.push(Ref::Abs(i * 4));
            }
        }
        if self.t.chance(1, 8) {
            // entries that designate nothing
            for _ in 0..1 + self.t.below(3) {
                let at = if self.t.chance(1, 2) { 0 } else { self.t.usize(refs.len() + 1) };
                let far = !wide && !self.o.giant && !self.o.giant_moov;
                let v = match self.t.below(4) {
                    0 if far => (1 << 31) - self.t.log(1 << 20),
                    1 => self.t.below(17),
                    _ => 0,
                };
                refs.insert(at, Ref::Abs(v));
            }
        }
        let fl = if self.t.chance(1, 10) { [0, 0, 1] } else { [0; 3] };
        let n = Node { cc: if wide { *b"co64" } else { *b"stco" }, ext: false, body: Body::Offs(wide, fl, refs), mdat: 0 };
        self.ext(n)
    }
    fn trak(&mut self, info: &mut Option<Info>, medias: &[(u32, u64, bool)], giant: bool) -> Node {
        let mut sk: Vec<Node> = Vec::new();
        let lvl = self.t.weighted(&[14, 1, 1, 1, 1]);
        if self.t.mostly(14, 15) && self.o.audio {
            if lvl == 0 {
                let s = self.stsd(info);
                sk.push(s);
            }
        }
        const C: &[&Cc] = &[b"stts", b"stsc", b"stsz"];
        for c in C {
            if self.t.mostly(1, 2) {
                let n = self.t.range(8, 40) as usize;
                let n = Node::leaf(c, self.fill(n));
                sk.push(n);
            }
        }
        match self.t.weighted(&[if giant { 2 } else { 6 }, 4, 1, 1]) {
            0 => {
                let n = self.offs(false, medias);
                self.insert(&mut sk, n)
            }
            1 => {
                let n = self.offs(true, medias);
                self.insert(&mut sk, n)
            }
            2 => {
                let n = self.offs(false, medias);
                self.insert(&mut sk, n);
                let n = self.offs(true, medias);
                self.insert(&mut sk, n)
            }
            _ => {}
        }
        let stbl = self.ext(Node::kids(b"stbl", sk));
        let mut mk = vec![Node::leaf(b"smhd", vec![0; 8])];
        if lvl != 1 {
            self.insert(&mut mk, stbl);
        }
        let minf = self.ext(Node::kids(b"minf", mk));
        let mut mh = self.fill(25);
        if self.t.chance(1, 2) {
            mh[..8].copy_from_slice(&[0; 8]);
            mh[8..12].copy_from_slice(*self.t.pick(&[b"soun", b"vide", b"text", b"tmcd", b"hint"]));
        }
        let mut dk = vec![Node::leaf(b"mdhd", self.fill(24)), Node::leaf(b"hdlr", mh)];
        if lvl != 2 {
            self.insert(&mut dk, minf);
        }
        let mdia = self.ext(Node::kids(b"mdia", dk));
        let mut tk = vec![Node::leaf(b"tkhd", self.fill(84))];
        if lvl != 3 {
            self.insert(&mut tk, mdia);
        }
        for _ in 0..self.t.weighted(&[8, 1]) {
            let f = self.filler();
            self.insert(&mut tk, f);
        }
        if self.t.chance(1, 8) {
            let d = self.decoy();
            let n = Node::kids(b"udta", vec![d]);
            self.insert(&mut tk, n);
        }
        let n = Node::kids(b"trak", tk);
        self.ext(n)
    }
}

pub fn gen(t: &mut Tape, o: Opts) -> Container {
    let mut g = G { t, o, uniq: 0, h: crate::tape::Hash::new() };
    // file type
    const BR: &[&str] = &["M4A ", "isom", "mp42", "M4B ", "3gp4", "qt  "];
    let mut ftyp = g.t.pick(BR).to_string();
    ftyp.push_str(if g.t.chance(1, 4) { *g.t.pick(&["\0\0\0\0", "\0\0\0\u{1}", "\u{7f}\u{7f}\u{7f}\u{7f}", "1.0\n"]) } else { "\0\0\u{2}\0" });
    for _ in 0..g.t.below(4) {
        let b = *g.t.pick(BR);
        ftyp.push_str(b);
    }
    if g.t.chance(1, 12) {
        let n = g.t.usize(ftyp.len() + 1);
        match g.t.below(4) {
            0 => ftyp.truncate(n),
            1 => ftyp.push_str("\u{e9}\u{1F3B5}"),
            2 => ftyp.insert_str(n, "  "),
            _ => (0..1 + g.t.log(4000)).for_each(|_| ftyp.push_str("mp41")),
        }
    }
    let fnode = Node::leaf(b"ftyp", ftyp.as_bytes().to_vec());
    let fnode = g.ext(fnode);

    // media
    let nm = match o.crowd {
        5 => 12 + g.t.log(300) as u32,
        _ => [1u32, 0, 2, 3][g.t.weighted(&[8, 1, 4, 2])],
    };
    let crowd = if o.crowd > 0 { 30 + g.t.log(1200) } else { 0 };
    let giant = o.giant;
    let mut mdats = Vec::new();
    let mut medias: Vec<(u32, u64, bool)> = Vec::new();
    for i in 1..=nm {
        let huge = giant && i == 1;
        if huge {
            let big = match if o.edge { 9 } else { g.t.below(4) } {
                9 => (1u64 << 32) - (1 << 22),
                0 => (1u64 << 32) + g.t.below(1 << 33),
                1 => (1u64 << 32) - 8 - g.t.below(64),
                2 => 1u64 << (20 + g.t.below(16)),
                _ => (1u64 << 32) - 400 + g.t.below(900),
            };
            let mut marks = Vec::new();
            let mut r = Rng::new(g.t.below(1 << 20));
            for j in 0..12u64 {
                let b = g.fill(64);
                let at = if j < 4 { big.saturating_sub(64 * (j + 1)) } else { r.below(big - 64) };
                marks.push((at, b));
            }
            mdats.push(Node { cc: *b"mdat", ext: big > u32::MAX as u64 - 16, body: Body::Sparse(big, marks), mdat: i });
            medias.push((i, big, big > 0xF000_0000));
            g.h.add(0x61A);
        } else if o.hulk && i == 1 {
            let big = (17 << 20) + g.t.below(20 << 20);
            // every byte counts: nothing that is copied in pieces may differ at the seams
            let marks = vec![(0, g.fill(big as usize))];
            mdats.push(Node { cc: *b"mdat", ext: g.t.chance(1, 8), body: Body::Sparse(big, marks), mdat: i });
            medias.push((i, big, false));
            g.h.add(0x61C);
        } else {
            let n = match g.t.weighted(&[8, 2, 1, 1, if o.bulk { 6 } else { 0 }]) {
                4 => g.t.range(30_000, 200_000),
                0 => g.t.range(1, 200),
                1 => g.t.range(200, 9000),
                2 => 0,
                _ => g.t.range(9000, 40000),
            };
            let mut b = g.fill(n as usize);
            if g.t.chance(1, 10) && b.len() > 80 {
                // bytes that look like metadata inside the media
                let d = emit_file(&[Node::kids(b"moov", vec![Node::kids(b"udta", vec![Node::full(b"meta", vec![0; 4], vec![Node::kids(b"ilst", vec![])])])])]).to_vec();
                let at = g.t.usize(b.len() - d.len());
                b[at..at + d.len()].copy_from_slice(&d);
            }
            let mut n = Node::leaf(b"mdat", b);
            n.mdat = i;
            let n = g.ext(n);
            let l = n.body_len();
            mdats.push(n);
            medias.push((i, l, false));
        }
    }
    // with a giant file, anything behind the giant lies beyond 32 bits: restrict 32-bit tables to none of them
    let far = giant || o.giant_moov;
    let small_ok: Vec<(u32, u64, bool)> = medias.iter().map(|m| (m.0, m.1, if o.edge { m.0 == 1 } else { m.2 || far })).collect();

    // movie
    let mut items = Items::new();
    let mut info = Info::default();
    let mut mk: Vec<Node> = Vec::new();
    let mv = if o.audio { g.t.weighted(&[8, 4, 1]) } else { 0 };
    if mv < 2 {
        let ts = match g.t.weighted(&[4, 1, 1]) {
            0 => *g.t.pick(&[1000u32, 44100, 600, 48000, 90000]),
            1 => *g.t.pick(&[1, 2, 7, u32::MAX]),
            _ => 1 + g.t.below(u32::MAX as u64) as u32,
        };
        let mut b = vec![mv as u8, 0, 0, 0];
        let d = if mv == 0 {
            let d = if g.t.chance(1, 8) { u32::MAX as u64 } else { g.t.log(u32::MAX as u64) };
            b.extend(g.fill(8));
            b.extend_from_slice(&ts.to_be_bytes());
            b.extend_from_slice(&(d as u32).to_be_bytes());
            d
        } else {
            let d = if g.t.chance(1, 8) { u64::MAX } else { g.t.log(u64::MAX) };
            b.extend(g.fill(16));
            b.extend_from_slice(&ts.to_be_bytes());
            b.extend_from_slice(&d.to_be_bytes());
            d
        };
        b.extend(g.fill(80));
        info.duration = Some((d, ts));
        let n = Node::leaf(b"mvhd", b);
        let n = g.ext(n);
        mk.push(n);
        g.h.add(mv as u64 + 50);
    }
    let nt = match g.t.weighted(&[16, 2, 6, 2, 1]) {
        0 => 1,
        1 => 0,
        4 => 4 + g.t.below(9),
        n => n as u64,
    };
    let nt = if o.crowd == 4 { 12 + g.t.log(200) } else { nt };
    let mut order: Vec<(bool, Node)> = Vec::new();
    let mut infos: Vec<Option<Info>> = Vec::new();
    for _ in 0..nt {
        let mut ti = None;
        let n = g.trak(&mut ti, &small_ok, giant);
        order.push((true, n));
        infos.push(ti);
    }
    if let Some(i) = infos.into_iter().flatten().next() {
        info.channels = i.channels;
        info.rate = i.rate;
        info.max = i.max;
        info.avg = i.avg;
    }
    for (_, n) in order {
        mk.push(n);
    }
    if let Some(u) = g.udta(&mut items) {
        g.insert(&mut mk, u);
    }
    for _ in 0..g.t.weighted(&[6, 3, 1]) {
        let f = g.filler();
        g.insert(&mut mk, f);
    }
    if g.t.chance(1, 10) {
        let d = g.decoy();
        g.insert(&mut mk, d);
    }
    if o.crowd == 2 {
        for _ in 0..crowd {
            let f = g.filler();
            g.insert(&mut mk, f);
        }
    }
    let mut moov = g.ext(Node::kids(b"moov", mk));
    if o.crowd == 3 {
        // in the user data, or in its metadata atom
        let deep = g.t.chance(1, 2);
        let Body::Kids(_, k) = &mut moov.body else { unreachable!() };
        if let Some(Body::Kids(_, k)) = k.iter_mut().find(|n| &n.cc == b"udta").map(|n| &mut n.body) {
            let inner = k.iter().position(|n| &n.cc == b"meta" && matches!(n.body, Body::Kids(..)));
            let k = match inner {
                Some(i) if deep => match &mut k[i].body {
                    Body::Kids(_, k) => k,
                    _ => unreachable!(),
                },
                _ => k,
            };
            for _ in 0..crowd {
                let f = g.filler();
                g.insert(k, f);
            }
        }
    }
    if o.giant_moov {
        giant_inside(&mut g, &mut moov);
    }

    let mut top = vec![moov];
    for m in mdats {
        if m.mdat == 1 && giant {
            top.insert(0, m)
        } else {
            g.insert(&mut top, m);
        }
    }
    for _ in 0..g.t.weighted(&[5, 3, 1]) {
        let f = g.filler();
        g.insert(&mut top, f);
    }
    if g.t.chance(1, 12) {
        let d = g.decoy();
        g.insert(&mut top, d);
    }
    if o.crowd == 1 {
        for _ in 0..crowd {
            let f = g.filler();
            g.insert(&mut top, f);
        }
    }
    if giant && !o.edge && g.t.chance(1, 4) {
        // something else that is huge
        let n = (1 << 30) + g.t.below(1 << 33);
        let marks = vec![(0, g.fill(64)), (n - 64, g.fill(64)), (64 + g.t.below(n - 200), g.fill(64))];
        let cc = **g.t.pick(&[b"free", b"skip", b"wide", b"uuid", b"junk"]);
        top.insert(0, Node { cc, ext: n > u32::MAX as u64 - 16, body: Body::Sparse(n, marks), mdat: 0 });
    }
    top.insert(0, fnode);
    if o.edge && giant {
        to_the_edge(&mut top, g.t.log(3000));
    }
    let store = emit_file(&top);
    let shape = g.h.0;
    Container { top, store, items, info, ftyp, shape }
}

/// Puts something huge into the movie atom or the atoms around the item list, in front of it; mostly such that one of the
/// 32-bit sizes is close to what it can express.
fn giant_inside(g: &mut G, moov: &mut Node) {
    fn at<'a>(n: &'a mut Node, path: &[&Cc], deep: usize, level: usize) -> &'a mut Node {
        if deep == level {
            return n;
        }
        match &mut n.body {
            Body::Kids(_, k) => at(k.iter_mut().find(|x| &x.cc == path[level]).unwrap(), path, deep, level + 1),
            _ => unreachable!(),
        }
    }
    let kid = |n: &Node, cc: &Cc| match &n.body {
        Body::Kids(_, k) => k.iter().position(|x| &x.cc == cc),
        _ => None,
    };
    // around the item list, or inside a track in front of it
    let track = match (kid(moov, b"trak"), kid(moov, b"udta")) {
        (Some(t), Some(u)) => t < u,
        (t, _) => t.is_some(),
    };
    let track = track && g.t.chance(1, 3);
    let path: &[&Cc] = if track { &[b"trak", b"mdia", b"minf", b"stbl", b"stsd"] } else { &[b"udta", b"meta", b"ilst"] };
    let mut levels = 1;
    while levels < path.len() && kid(at(moov, path, levels - 1, 0), path[levels - 1]).is_some() {
        levels += 1;
    }
    let inside = g.t.usize(levels);
    let edge = g.t.usize(inside + 1);
    let far = g.t.chance(1, 4);
    let delta = g.t.log(3000);
    let mut free = Node { cc: **g.t.pick(&[b"free", b"skip", b"wide"]), ext: false, body: Body::Sparse(0, Vec::new()), mdat: 0 };
    let c = at(moov, path, inside, 0);
    let last = kid(c, path[inside]).filter(|_| !track || inside == 0);
    if let Body::Kids(_, k) = &mut c.body {
        let i = g.t.usize(last.unwrap_or(k.len()) + 1);
        k.insert(i, free.clone());
        // the size
        at(moov, path, edge, 0).ext = false;
        let n = match far {
            true => (1 << 32) + g.t.below(1 << 33),
            false => (u32::MAX as u64 - delta) - at(moov, path, edge, 0).len(),
        };
        let mut r = Rng::new(g.t.below(1 << 20));
        let mut marks = vec![(0, g.fill(64)), (n - 64, g.fill(64))];
        for _ in 0..4 {
            marks.push((64 + r.below(n - 200), g.fill(64)));
        }
        free.body = Body::Sparse(n, marks);
        if let Body::Kids(_, k) = &mut at(moov, path, inside, 0).body {
            k[i] = free;
        }
    }
    g.h.add(0x61B + inside as u64 * 8 + edge as u64 + track as u64 * 64);
}

/// Can the size of an atom around the item list be out of range once that grew to hold the items?
pub fn size_out_of_range(t: &[P], items_len: u64) -> bool {
    let Some(m) = top(t, b"moov") else { return false };
    let u = m.find(b"udta");
    let e = u.and_then(|u| u.find(b"meta"));
    let i = e.and_then(|e| e.find(b"ilst"));
    let slack = if i.is_some() && e.and_then(|e| e.find(b"hdlr")).is_some() { 0 } else { 200 };
    let grow = (items_len + slack).saturating_sub(i.map_or(0, |i| i.len));
    [Some(m), u, e].iter().flatten().any(|p| p.hlen == 8 && p.len + grow > u32::MAX as u64)
}

/// Sizes the giant media so that the highest 32-bit chunk offset is `delta` below the highest expressible one.
fn to_the_edge(top: &mut [Node], delta: u64) {
    fn highest(n: &Node, medias: &[(u32, u64)], max: &mut u64) {
        match &n.body {
            Body::Kids(_, k) => k.iter().for_each(|n| highest(n, medias, max)),
            Body::Offs(false, _, refs) => {
                for r in refs {
                    if let Ref::Media(id, off) = r {
                        let at = medias.iter().find(|m| m.0 == *id).map_or(0, |m| m.1) + off;
                        *max = at.max(*max);
                    }
                }
            }
            _ => {}
        }
    }
    let mut medias = Vec::new();
    let mut p = 0;
    for n in top.iter() {
        if n.mdat != 0 {
            medias.push((n.mdat, p + n.head()));
        }
        p += n.len();
    }
    let mut max = 0;
    top.iter().for_each(|n| highest(n, &medias, &mut max));
    if max > 1 << 31 {
        let grow = (u32::MAX as u64 - delta).saturating_sub(max);
        for n in top.iter_mut().filter(|n| n.mdat == 1) {
            if let Body::Sparse(l, _) = &mut n.body {
                *l += grow;
            }
        }
    }
}

// ---- strict parser ----------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cx {
    Top,
    Moov,
    Trak,
    Mdia,
    Minf,
    Stbl,
    Offs,
    Udta,
    Meta,
    Ilst,
    Item,
    Leaf,
}

#[derive(Clone, Debug)]
pub struct P {
    pub cc: Cc,
    pub cx: Cx,
    pub pos: u64,
    pub hlen: u64,
    pub len: u64,
    pub pre: u64,
    pub kids: Vec<P>,
}
impl P {
    pub fn end(&self) -> u64 {
        self.pos + self.len
    }
    pub fn body(&self) -> u64 {
        self.pos + self.hlen
    }
    pub fn find(&self, cc: &Cc) -> Option<&P> {
        self.kids.iter().find(|k| &k.cc == cc)
    }
}

fn child_cx(cx: Cx, cc: &Cc) -> Cx {
    match (cx, cc) {
        (Cx::Top, b"moov") => Cx::Moov,
        (Cx::Moov, b"trak") => Cx::Trak,
        (Cx::Moov, b"udta") => Cx::Udta,
        (Cx::Trak, b"mdia") => Cx::Mdia,
        (Cx::Mdia, b"minf") => Cx::Minf,
        (Cx::Minf, b"stbl") => Cx::Stbl,
        (Cx::Stbl, b"stco") | (Cx::Stbl, b"co64") => Cx::Offs,
        (Cx::Udta, b"meta") => Cx::Meta,
        (Cx::Meta, b"ilst") => Cx::Ilst,
        (Cx::Ilst, b"free") => Cx::Leaf,
        (Cx::Ilst, _) => Cx::Item,
        _ => Cx::Leaf,
    }
}

fn parse_level(s: &Store, cx: Cx, mut pos: u64, end: u64, path: &str) -> Result<Vec<P>, String> {
    let mut v = Vec::new();
    while pos < end {
        if end - pos < 8 {
            return Err(format!("{} stray bytes at {} in {}", end - pos, pos, path));
        }
        let h = s.slice(pos, 16);
        let mut len = u32::from_be_bytes([h[0], h[1], h[2], h[3]]) as u64;
        let cc: Cc = [h[4], h[5], h[6], h[7]];
        let mut hlen = 8;
        if len == 1 {
            if h.len() < 16 || end - pos < 16 {
                return Err(format!("truncated 64-bit head of {} at {}", cc_str(&cc), pos));
            }
            hlen = 16;
            len = u64::from_be_bytes([h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15]]);
        }
        if len < hlen || len > end - pos {
            return Err(format!("{}/{} at {}: size {} does not fit into the {} bytes left", path, cc_str(&cc), pos, len, end - pos));
        }
        let c = child_cx(cx, &cc);
        let mut p = P { cc, cx: c, pos, hlen, len, pre: 0, kids: Vec::new() };
        if c == Cx::Meta {
            p.pre = 4;
            if len < hlen + 4 {
                return Err("meta too short".into());
            }
        }
        if !matches!(c, Cx::Leaf | Cx::Offs) {
            p.kids = parse_level(s, c, pos + hlen + p.pre, pos + len, &format!("{}/{}", path, cc_str(&cc)))?;
        }
        v.push(p);
        pos += len;
    }
    Ok(v)
}

pub fn parse(s: &Store) -> Result<Vec<P>, String> {
    parse_level(s, Cx::Top, 0, s.len(), "")
}

pub fn top<'a>(t: &'a [P], cc: &Cc) -> Option<&'a P> {
    t.iter().find(|p| &p.cc == cc)
}

pub fn ilst<'a>(t: &'a [P]) -> Option<&'a P> {
    top(t, b"moov")?.find(b"udta")?.find(b"meta")?.find(b"ilst")
}

/// Item list contents; strict.
pub fn read_items(s: &Store, il: &P) -> Result<Items, String> {
    let mut items = Items::new();
    for it in &il.kids {
        if it.cx != Cx::Item {
            continue;
        }
        let mut mean = None;
        let mut name = None;
        let mut vals = Vec::new();
        for c in &it.kids {
            let b = s.slice(c.body(), c.len - c.hlen);
            match &c.cc {
                b"data" => {
                    if b.len() < 8 || b[0] != 0 {
                        return Err(format!("bad data atom in {}", cc_str(&it.cc)));
                    }
                    let code = u32::from_be_bytes([0, b[1], b[2], b[3]]);
                    vals.push(V::decode(code, b[8..].to_vec())?);
                }
                b"mean" | b"name" => {
                    if b.len() < 4 || b[0] != 0 {
                        return Err("bad mean or name atom".into());
                    }
                    let st = String::from_utf8(b[4..].to_vec()).map_err(|_| "mean or name not utf-8")?;
                    if &c.cc == b"mean" {
                        mean = Some(st)
                    } else {
                        name = Some(st)
                    }
                }
                _ => {}
            }
        }
        if vals.is_empty() {
            return Err(format!("item {} without a value", cc_str(&it.cc)));
        }
        let id = match (&it.cc, mean, name) {
            (b"----", Some(m), Some(n)) => Id::Free(m, n),
            (c, _, _) => Id::F(*c),
        };
        match items.iter_mut().find(|e| e.0 == id) {
            Some(e) => e.1.extend(vals),
            None => items.push((id, vals)),
        }
    }
    Ok(items)
}

/// Checks the shape promised for a saved file and returns its item list.
pub fn check_saved(s: &Store, before: Option<&[P]>) -> Result<(Vec<P>, Items), String> {
    let t = check_shape(s, before)?;
    let items = read_items(s, ilst(&t).unwrap())?;
    Ok((t, items))
}

/// Checks the shape promised for a saved file.
pub fn check_shape(s: &Store, before: Option<&[P]>) -> Result<Vec<P>, String> {
    let t = parse(s)?;
    if t.first().map(|p| &p.cc) != Some(b"ftyp") {
        return Err("file does not start with ftyp".into());
    }
    let one = |v: &[P], cc: &Cc, w: &str| -> Result<usize, String> {
        let n = v.iter().filter(|p| &p.cc == cc).count();
        if n == 1 {
            Ok(v.iter().position(|p| &p.cc == cc).unwrap())
        } else {
            Err(format!("{} {} atoms in {}", n, cc_str(cc), w))
        }
    };
    let m = &t[one(&t, b"moov", "the file")?];
    let u = &m.kids[one(&m.kids, b"udta", "moov")?];
    let me = &u.kids[one(&u.kids, b"meta", "moov/udta")?];
    if s.slice(me.body(), 1) != [0] {
        return Err("metadata atom version is not 0".into());
    }
    one(&me.kids, b"hdlr", "moov/udta/meta")?;
    let h = me.find(b"hdlr").unwrap();
    let hb = s.slice(h.body(), 16);
    // a handler that was there stays as it is
    let own = before.and_then(|t| top(t, b"moov")).and_then(|m| m.find(b"udta")).and_then(|u| u.find(b"meta")).and_then(|m| m.find(b"hdlr")).is_none();
    if own && (hb.len() < 16 || &hb[8..12] != b"mdir") {
        return Err("handler of the metadata is not mdir".into());
    }
    one(&me.kids, b"ilst", "moov/udta/meta")?;
    Ok(t)
}

// ---- preservation -----------------------------------------------------------------------------------------------

fn strip<'a>(v: &'a [P], drop: &[&Cc]) -> Vec<&'a P> {
    v.iter().filter(|p| !drop.iter().any(|c| *c == &p.cc)).collect()
}

fn cmp_level(b: &Store, a: &Store, cx: Cx, bk: &[P], ak: &[P], path: &str) -> Result<(), String> {
    let mut drop: Vec<&Cc> = Vec::new();
    match cx {
        Cx::Meta => {
            drop.push(b"ilst");
            if !bk.iter().any(|p| &p.cc == b"hdlr") {
                drop.push(b"hdlr");
            }
        }
        Cx::Udta if !bk.iter().any(|p| &p.cc == b"meta") => {
            if let Some(m) = ak.iter().find(|p| &p.cc == b"meta") {
                if !strip(&m.kids, &[b"ilst", b"hdlr"]).is_empty() || a.slice(m.body(), 4) != [0; 4] {
                    return Err(format!("{}: unexpected contents of the new meta atom", path));
                }
            }
            drop.push(b"meta");
        }
        Cx::Moov if !bk.iter().any(|p| &p.cc == b"udta") => {
            if let Some(u) = ak.iter().find(|p| &p.cc == b"udta") {
                cmp_level(b, a, Cx::Udta, &[], &u.kids, &format!("{}/udta", path))?;
            }
            drop.push(b"udta");
        }
        _ => {}
    }
    let (bs, as_) = (strip(bk, &drop), strip(ak, &drop));
    let names = |v: &[&P]| v.iter().map(|p| cc_str(&p.cc)).collect::<Vec<_>>().join(" ");
    if bs.len() != as_.len() || bs.iter().zip(&as_).any(|(x, y)| x.cc != y.cc) {
        return Err(format!("atoms in {:?} were [{}], now [{}]", if path.is_empty() { "file" } else { path }, names(&bs), names(&as_)));
    }
    for (x, y) in bs.iter().zip(&as_) {
        let here = format!("{}/{}", path, cc_str(&x.cc));
        if x.hlen != y.hlen {
            return Err(format!("{}: head changed from {} to {} bytes", here, x.hlen, y.hlen));
        }
        if x.pre != y.pre || b.slice(x.body(), x.pre) != a.slice(y.body(), y.pre) {
            return Err(format!("{}: version and flags changed", here));
        }
        match x.cx {
            Cx::Leaf => {
                if x.len != y.len {
                    return Err(format!("{}: length changed from {} to {}", here, x.len, y.len));
                }
                if let Some(d) = Store::first_diff(b, x.body(), a, y.body(), x.len - x.hlen) {
                    return Err(format!("{}: contents differ at byte {} of {}", here, d, x.len - x.hlen));
                }
            }
            Cx::Offs => {
                if x.len != y.len || b.slice(x.body(), 8) != a.slice(y.body(), 8) {
                    return Err(format!("{}: table head or size changed", here));
                }
            }
            _ => cmp_level(b, a, x.cx, &x.kids, &y.kids, &here)?,
        }
    }
    Ok(())
}

/// Everything but the item list is the same.
pub fn preserved(b: &Store, bt: &[P], a: &Store, at: &[P]) -> Result<(), String> {
    cmp_level(b, a, Cx::Top, bt, at, "")
}

pub struct Table {
    pub trak: usize,
    pub wide: bool,
    pub pos: u64,
    pub offs: Vec<u64>,
}

pub fn tables(s: &Store, t: &[P]) -> Vec<Table> {
    let mut v = Vec::new();
    let Some(m) = top(t, b"moov") else { return v };
    for (i, tr) in m.kids.iter().filter(|k| &k.cc == b"trak").enumerate() {
        let Some(st) = tr.find(b"mdia").and_then(|m| m.find(b"minf")).and_then(|m| m.find(b"stbl")) else { continue };
        for k in &st.kids {
            if k.cx != Cx::Offs {
                continue;
            }
            let wide = &k.cc == b"co64";
            let b = s.slice(k.body() + 8, k.len - k.hlen - 8);
            let offs = if wide {
                b.chunks_exact(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect()
            } else {
                b.chunks_exact(4).map(|c| u32::from_be_bytes(c.try_into().unwrap()) as u64).collect()
            };
            v.push(Table { trak: i, wide, pos: k.body() + 8, offs });
        }
    }
    v
}

/// Can a 32-bit chunk offset be out of range once the item list grew by up to so much?
pub fn out_of_range(s: &Store, t: &[P], grow: u64) -> bool {
    tables(s, t).iter().any(|x| !x.wide && x.offs.iter().any(|o| o + grow > u32::MAX as u64))
}

/// Every chunk offset designates the bytes it designated before.
pub fn same_chunks(b: &Store, bt: &[P], a: &Store, at: &[P]) -> Result<u64, String> {
    let (x, y) = (tables(b, bt), tables(a, at));
    if x.len() != y.len() {
        return Err(format!("{} chunk offset tables before, {} after", x.len(), y.len()));
    }
    let mut n = 0;
    for (p, q) in x.iter().zip(&y) {
        if p.offs.len() != q.offs.len() {
            return Err("chunk offset table changed size".into());
        }
        for (k, (&o, &w)) in p.offs.iter().zip(&q.offs).enumerate() {
            let Some(home) = bt.iter().find(|t| &t.cc == b"mdat" && o >= t.body() && o < t.end()) else { continue };
            let l = (home.end() - o).min(32);
            n += 1;
            if let Some(d) = Store::first_diff(b, o, a, w, l) {
                return Err(format!(
                    "track {} {} entry {}: was {}, now {}: designates other bytes (differ at +{})",
                    p.trak,
                    if p.wide { "co64" } else { "stco" },
                    k,
                    o,
                    w,
                    d
                ));
            }
        }
    }
    Ok(n)
}

// ---- damage -----------------------------------------------------------------------------------------------------

/// Positions that look like atom heads.
pub fn heads(b: &[u8]) -> Vec<usize> {
    const K: &[&Cc] = &[
        b"ftyp", b"moov", b"mvhd", b"trak", b"mdia", b"minf", b"stbl", b"stsd", b"mp4a", b"esds", b"stco", b"co64", b"udta", b"meta", b"hdlr",
        b"ilst", b"data", b"mean", b"name", b"----", b"mdat", b"free", b"covr", b"trkn",
    ];
    let mut v = Vec::new();
    for i in 4..b.len().saturating_sub(3) {
        let c = &b[i..i + 4];
        if K.iter().any(|k| &k[..] == c) {
            v.push(i - 4);
        }
    }
    v
}

/// Damages a small file; returns a description.
pub fn damage(t: &mut Tape, s: &Store) -> (Store, Vec<String>) {
    let mut b = s.to_vec();
    let mut what = Vec::new();
    let n = 1 + t.weighted(&[6, 3, 2, 1]);
    for _ in 0..n {
        if b.is_empty() {
            break;
        }
        let hs = heads(&b);
        let len = b.len();
        match t.weighted(&[48, 36, 24, 18, 12, 12, 12, 6, 6, 1]) {
            9 if t.chance(1, 3) && hs.iter().any(|h| &b[h + 4..h + 8] == b"esds" && h + 12 <= len) => {
                // one descriptor inside the other, thousands of times
                let es: Vec<usize> = hs.iter().cloned().filter(|h| &b[h + 4..h + 8] == b"esds" && h + 12 <= len).collect();
                let h = es[t.usize(es.len())];
                let k = 1000 + t.below(60_000) as usize;
                let tag = *t.pick(&[3u8, 3, 4, 4, 5, 6, 0x0e, 0x0f, 0x10, 0x14]);
                let gap = match tag {
                    3 => 3,
                    4 => 13,
                    _ => t.usize(4),
                };
                let mut d = vec![tag];
                match t.weighted(&[3, 1, 1]) {
                    0 => d.extend_from_slice(&[0xff, 0xff, 0xff, 0x7f]),
                    1 => d.push(0x7f),
                    _ => d.extend_from_slice(&[0x81, 0x80, 0x80, 0]),
                }
                d.resize(d.len() + gap, 0);
                // the stream's own head stays in front at times
                let at = if t.chance(1, 2) { h + 12 } else { (h + 20).min(len) };
                b.splice(at..at, d.repeat(k));
                what.push(format!("{:02x?} {} times at {} in the esds at {}", d, k, at, h));
            }
            9 if !hs.is_empty() => {
                // one level nested thousands of times, all ending together
                let h = hs[t.usize(hs.len())];
                let k = 1000 + t.below(24_000) as usize;
                const C: &[&Cc] = &[b"udta", b"moov", b"trak", b"mdia", b"minf", b"stbl", b"stsd", b"meta", b"ilst", b"----", b"data", b"free", b"mp4a", b"esds"];
                let mut c: Cc = b[h + 4..h + 8].try_into().unwrap();
                if t.chance(1, 4) {
                    c = **t.pick(C);
                }
                let pre: &[u8] = match &c {
                    b"meta" => &[0; 4],
                    b"stsd" => &[0; 8],
                    b"mp4a" => &[0; 28],
                    _ => &[],
                };
                let old = u32::from_be_bytes(b[h..h + 4].try_into().unwrap()) as usize;
                let inner = old.min(len - h);
                let step = 8 + pre.len();
                let mut x = Vec::with_capacity(k * step);
                for i in 0..k {
                    x.extend_from_slice(&((inner + (k - i) * step) as u32).to_be_bytes());
                    x.extend_from_slice(&c);
                    x.extend_from_slice(pre);
                }
                let grow = x.len();
                b.splice(h..h, x);
                what.push(format!("{} at {} nested {} times", cc_str(&c), h, k));
                if t.mostly(3, 4) {
                    // the enclosing atoms know about it
                    for p in hs {
                        if p < h {
                            let l = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
                            if l > 8 && p + l >= h + inner && p + l <= len {
                                b[p..p + 4].copy_from_slice(&((l + grow) as u32).to_be_bytes());
                            }
                        }
                    }
                }
            }
            0 | 1 if !hs.is_empty() => {
                // size fields
                let h = hs[t.usize(hs.len())];
                let old = u32::from_be_bytes(b[h..h + 4].try_into().unwrap());
                let cands: [u32; 20] = [
                    0, 1, 2, 7, 8, 9, 12, 15, 16, 17, 24, u32::MAX, 0x7fff_ffff, 0x8000_0000, old.wrapping_add(1), old.wrapping_sub(1),
                    old.wrapping_add(8), old.wrapping_sub(8), (len - h) as u32, (len - h) as u32 + 1,
                ];
                let v = if t.chance(1, 8) { t.any64() as u32 } else { *t.pick(&cands) };
                if old == 1 || (v == 1 && t.chance(3, 4)) {
                    b[h..h + 4].copy_from_slice(&1u32.to_be_bytes());
                    let c64: [u64; 16] = [
                        0, 1, 8, 15, 16, 17, 24, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX, u64::MAX - 7, u64::MAX - 15, 1 << 32, 1 << 40,
                        (len - h) as u64, (len - h) as u64 + 1,
                    ];
                    let w = if t.chance(1, 8) { t.any64() } else { *t.pick(&c64) };
                    if h + 16 <= len {
                        b[h + 8..h + 16].copy_from_slice(&w.to_be_bytes());
                    }
                    what.push(format!("64-bit size of {} at {} = {:#x}", cc_str(&b[h + 4..h + 8].try_into().unwrap()), h, w));
                } else {
                    b[h..h + 4].copy_from_slice(&v.to_be_bytes());
                    what.push(format!("size of {} at {} = {:#x} (was {:#x})", cc_str(&b[h + 4..h + 8].try_into().unwrap()), h, v, old));
                }
            }
            2 if !hs.is_empty() => {
                // the first bytes of an atom's contents: versions, counts, types, descriptor lengths
                let h = hs[t.usize(hs.len())];
                let o = h + 8 + t.usize(48);
                if o < len {
                    let k = 1 + t.weighted(&[4, 1, 1, 2]);
                    for i in o..(o + k).min(len) {
                        b[i] = match t.below(5) {
                            0 => 0xff,
                            1 => 0,
                            2 => 0x80,
                            3 => 0x7f,
                            _ => t.below(256) as u8,
                        };
                    }
                    what.push(format!("{} bytes at +{} of {} at {}", k, o - h, cc_str(&b[h + 4..h + 8].try_into().unwrap()), h));
                }
            }
            3 => {
                let n = t.usize(len + 1);
                b.truncate(n);
                what.push(format!("truncated to {}", n));
            }
            4 => {
                let k = t.log(600) as usize;
                let x = pattern(t.below(1 << 16), k);
                b.extend(x);
                what.push(format!("{} bytes of garbage appended", k));
            }
            5 => {
                // a lost or torn sector
                let sz = *t.pick(&[16usize, 64, 512]);
                let o = t.usize(len) / sz * sz;
                let e = (o + sz).min(len);
                if t.chance(1, 2) {
                    b[o..e].fill(0);
                } else {
                    let x = pattern(t.below(1 << 16), e - o);
                    b[o..e].copy_from_slice(&x);
                }
                what.push(format!("bytes {}..{} overwritten", o, e));
            }
            6 if !hs.is_empty() => {
                // one atom kind where another was
                let h = hs[t.usize(hs.len())];
                const C: &[&Cc] = &[
                    b"free", b"moov", b"meta", b"ilst", b"data", b"mean", b"name", b"esds", b"mp4a", b"mvhd", b"udta", b"trak", b"stco", b"co64", b"stsd",
                    b"ftyp", b"----", b"mdat",
                ];
                let c = *t.pick(C);
                b[h + 4..h + 8].copy_from_slice(c);
                what.push(format!("atom at {} renamed {}", h, cc_str(c)));
            }
            7 if !hs.is_empty() => {
                // remove or repeat a stretch
                let h = hs[t.usize(hs.len())];
                let k = 1 + t.usize(40.min(len - h));
                if t.chance(1, 2) {
                    b.drain(h..(h + k).min(len));
                    what.push(format!("{} bytes missing at {}", k, h));
                } else {
                    let x = b[h..(h + k).min(len)].to_vec();
                    b.splice(h..h, x);
                    what.push(format!("{} bytes repeated at {}", k, h));
                }
            }
            _ => {
                let k = 1 + t.below(4);
                for _ in 0..k {
                    let o = t.usize(len);
                    let bit = t.below(8);
                    b[o] ^= 1 << bit;
                    what.push(format!("bit {} of byte {}", bit, o));
                }
            }
        }
    }
    (Store::from_bytes(&b), what)
}
