//! Reference models: typed values, identifiers, and a tag as an ordered multimap.
use crate::tape::{pattern, Tape};
use mp4ameta::{Data, DataIdent, Fourcc, Tag};

pub type Cc = [u8; 4];

#[derive(Clone, PartialEq, Eq)]
pub enum V {
    Reserved(Vec<u8>),
    Utf8(String),
    Utf16(String),
    Jpeg(Vec<u8>),
    Png(Vec<u8>),
    BeSigned(Vec<u8>),
    Bmp(Vec<u8>),
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Id {
    F(Cc),
    Free(String, String),
}

pub type Items = Vec<(Id, Vec<V>)>;

fn short(s: &str) -> String {
    if s.chars().count() > 24 {
        format!("{:?}..({} bytes)", s.chars().take(16).collect::<String>(), s.len())
    } else {
        format!("{:?}", s)
    }
}
fn shortb(b: &[u8]) -> String {
    if b.len() > 12 {
        format!("{:02x?}..({} bytes)", &b[..8], b.len())
    } else {
        format!("{:02x?}", b)
    }
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            V::Reserved(b) => write!(f, "Reserved{}", shortb(b)),
            V::Utf8(s) => write!(f, "Utf8({})", short(s)),
            V::Utf16(s) => write!(f, "Utf16({})", short(s)),
            V::Jpeg(b) => write!(f, "Jpeg{}", shortb(b)),
            V::Png(b) => write!(f, "Png{}", shortb(b)),
            V::BeSigned(b) => write!(f, "BeSigned{}", shortb(b)),
            V::Bmp(b) => write!(f, "Bmp{}", shortb(b)),
        }
    }
}
impl std::fmt::Debug for Id {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Id::F(c) => write!(f, "{}", cc_str(c)),
            Id::Free(m, n) => write!(f, "----:{}:{}", short(m), short(n)),
        }
    }
}
pub fn cc_str(c: &Cc) -> String {
    c.iter().map(|&b| if (32..127).contains(&b) { (b as char).to_string() } else { format!("\\x{:02x}", b) }).collect()
}

impl V {
    pub fn code(&self) -> u32 {
        match self {
            V::Reserved(_) => 0,
            V::Utf8(_) => 1,
            V::Utf16(_) => 2,
            V::Jpeg(_) => 13,
            V::Png(_) => 14,
            V::BeSigned(_) => 21,
            V::Bmp(_) => 27,
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        match self {
            V::Reserved(b) | V::Jpeg(b) | V::Png(b) | V::BeSigned(b) | V::Bmp(b) => b.clone(),
            V::Utf8(s) => s.as_bytes().to_vec(),
            V::Utf16(s) => s.encode_utf16().flat_map(|u| u.to_be_bytes()).collect(),
        }
    }
    pub fn decode(code: u32, b: Vec<u8>) -> Result<V, String> {
        Ok(match code {
            0 => V::Reserved(b),
            1 => V::Utf8(String::from_utf8(b).map_err(|_| "value is not utf-8")?),
            2 => {
                if b.len() % 2 != 0 {
                    return Err("odd utf-16 length".into());
                }
                let u: Vec<u16> = b.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
                V::Utf16(String::from_utf16(&u).map_err(|_| "value is not utf-16")?)
            }
            13 => V::Jpeg(b),
            14 => V::Png(b),
            21 => V::BeSigned(b),
            27 => V::Bmp(b),
            c => return Err(format!("unknown type code {}", c)),
        })
    }
    pub fn to_data(&self) -> Data {
        match self.clone() {
            V::Reserved(b) => Data::Reserved(b),
            V::Utf8(s) => Data::Utf8(s),
            V::Utf16(s) => Data::Utf16(s),
            V::Jpeg(b) => Data::Jpeg(b),
            V::Png(b) => Data::Png(b),
            V::BeSigned(b) => Data::BeSigned(b),
            V::Bmp(b) => Data::Bmp(b),
        }
    }
    pub fn of(d: &Data) -> V {
        match d.clone() {
            Data::Reserved(b) => V::Reserved(b),
            Data::Utf8(s) => V::Utf8(s),
            Data::Utf16(s) => V::Utf16(s),
            Data::Jpeg(b) => V::Jpeg(b),
            Data::Png(b) => V::Png(b),
            Data::BeSigned(b) => V::BeSigned(b),
            Data::Bmp(b) => V::Bmp(b),
        }
    }
    pub fn is_bytes(&self) -> bool {
        matches!(self, V::Reserved(_) | V::BeSigned(_))
    }
    pub fn is_string(&self) -> bool {
        matches!(self, V::Utf8(_) | V::Utf16(_))
    }
    pub fn is_image(&self) -> bool {
        matches!(self, V::Jpeg(_) | V::Png(_) | V::Bmp(_))
    }
    pub fn bytes(&self) -> Option<&Vec<u8>> {
        match self {
            V::Reserved(b) | V::BeSigned(b) => Some(b),
            _ => None,
        }
    }
    pub fn bytes_mut(&mut self) -> Option<&mut Vec<u8>> {
        match self {
            V::Reserved(b) | V::BeSigned(b) => Some(b),
            _ => None,
        }
    }
    pub fn string(&self) -> Option<&String> {
        match self {
            V::Utf8(s) | V::Utf16(s) => Some(s),
            _ => None,
        }
    }
    pub fn string_mut(&mut self) -> Option<&mut String> {
        match self {
            V::Utf8(s) | V::Utf16(s) => Some(s),
            _ => None,
        }
    }
    pub fn image(&self) -> Option<&Vec<u8>> {
        match self {
            V::Jpeg(b) | V::Png(b) | V::Bmp(b) => Some(b),
            _ => None,
        }
    }
    pub fn image_mut(&mut self) -> Option<&mut Vec<u8>> {
        match self {
            V::Jpeg(b) | V::Png(b) | V::Bmp(b) => Some(b),
            _ => None,
        }
    }
}

impl Id {
    pub fn to_ident(&self) -> DataIdent {
        match self {
            Id::F(c) => DataIdent::Fourcc(Fourcc(*c)),
            Id::Free(m, n) => DataIdent::Freeform { mean: m.clone(), name: n.clone() },
        }
    }
    pub fn of(i: &DataIdent) -> Id {
        match i {
            DataIdent::Fourcc(f) => Id::F(f.0),
            DataIdent::Freeform { mean, name } => Id::Free(mean.clone(), name.clone()),
        }
    }
}

/// What a tag holds according to its own listing of all data.
pub fn items_of(tag: &Tag) -> Items {
    let mut v: Items = Vec::new();
    for (i, d) in tag.data() {
        let id = Id::of(i);
        match v.last_mut() {
            Some(l) if l.0 == id => l.1.push(V::of(d)),
            _ => v.push((id, vec![V::of(d)])),
        }
    }
    v
}

pub fn build_tag(items: &Items) -> Tag {
    let mut t = Tag::default();
    for (i, vs) in items {
        for v in vs {
            t.add_data(i.to_ident(), v.to_data());
        }
    }
    t
}

/// Size of the item list atom for these items.
pub fn encoded_len(items: &Items) -> u64 {
    8 + items
        .iter()
        .map(|(i, vs)| {
            let h = match i {
                Id::F(_) => 8,
                Id::Free(m, n) => 8 + 24 + m.len() as u64 + n.len() as u64,
            };
            h + vs.iter().map(|v| 16 + v.encode().len() as u64).sum::<u64>()
        })
        .sum::<u64>()
}

pub fn diff_items(want: &Items, got: &Items) -> Option<String> {
    if want == got {
        return None;
    }
    for (k, (w, g)) in want.iter().zip(got).enumerate() {
        if w.0 != g.0 {
            return Some(format!("item {} is {:?}, expected {:?}", k, g.0, w.0));
        }
        if w.1 != g.1 {
            return Some(format!("values of {:?} are {:?}, expected {:?}", w.0, g.1, w.1));
        }
    }
    if want.len() > got.len() {
        return Some(format!("item {:?} is missing", want[got.len()].0));
    }
    Some(format!("unexpected item {:?}", got[want.len()].0))
}

// ---- generators -------------------------------------------------------------------------------------------------

pub const KNOWN: &[&Cc] = &[
    b"\xa9nam", b"\xa9alb", b"\xa9ART", b"aART", b"covr", b"trkn", b"disk", b"\xa9gen", b"gnre", b"cpil", b"tmpo", b"\xa9day",
    b"\xa9cmt", b"\xa9wrt", b"cprt", b"\xa9too", b"rtng", b"stik", b"\xa9grp", b"catg", b"keyw", b"pcst", b"egid", b"purl",
    b"desc", b"\xa9lyr", b"tves", b"tven", b"tvnn", b"tvsn", b"tvsh", b"purd", b"pgap", b"\xa9mvn", b"\xa9mvc", b"\xa9mvi",
    b"\xa9wrk", b"shwm",
];
/// Identifiers that mean something else at other places of the hierarchy: legal as item identifiers.
const TRICKY: &[&Cc] = &[b"data", b"mean", b"name", b"ilst", b"meta", b"moov", b"hdlr", b"mdat", b"udta", b"skip", b"\0\0\0\0", b"\xff\xff\xff\xff", b"----"];

/// Up to the maximum; where that exceeds the usual I/O buffers, often beyond those.
fn long(t: &mut Tape, max: u64) -> u64 {
    if max > 8192 && t.mostly(1, 2) {
        t.range(max / 8, max)
    } else {
        t.log(max)
    }
}

pub fn gen_string(t: &mut Tape, max: u64) -> String {
    let n = match t.weighted(&[6, 1, 2, if max > 8192 { 3 } else { 1 }]) {
        0 => t.range(0, 12),
        1 => 0,
        2 => t.log(max.min(400)),
        _ => long(t, max),
    };
    let kind = t.weighted(&[3, 3]);
    let seed = t.below(1 << 16);
    let mut r = crate::tape::Rng::new(seed * 2 + 1);
    const WIDE: &[char] = &['a', 'é', 'ß', '中', '\u{1F3B5}', '\u{10FFFF}', '\u{0}', ' ', 'Z', '\u{FEFF}', '\u{301}', '\n', '\u{FFFD}', '\u{7FF}', '\u{800}', '\u{FFFF}', '\u{10000}'];
    let mut s: String = (0..n)
        .map(|_| if kind == 0 { (b'a' + r.below(26) as u8) as char } else { WIDE[r.below(WIDE.len() as u64) as usize] })
        .collect();
    if t.chance(1, 6) {
        // what readers like to clean up
        const PRE: &[&str] = &["\u{FEFF}", " ", "\0", "\u{FFFE}", "\n", "\"", "#", "ID3"];
        const POST: &[&str] = &["\0", " ", "\n", "\0\0", "\r\n", "\u{FEFF}", ";", "/"];
        const ALL: &[&str] = &["0", "1", "007", "3/12", "-1", "2021-07-16", "Rock; Pop", "Rock/Pop", "A, B", "(17)", "null", "\u{1F3B5}"];
        match t.weighted(&[3, 4, 2, 1]) {
            0 => s.insert_str(0, *t.pick(PRE)),
            1 => s.push_str(*t.pick(POST)),
            2 => s = t.pick(ALL).to_string(),
            _ => s = s.to_uppercase(),
        }
    }
    s
}

pub fn gen_bytes(t: &mut Tape, max: u64) -> Vec<u8> {
    let n = match t.weighted(&[6, 1, 2, if max > 8192 { 3 } else { 1 }]) {
        0 => t.range(0, 12),
        1 => 0,
        2 => t.log(max.min(600)),
        _ => long(t, max),
    };
    let mut b = pattern(t.below(1 << 16), n as usize);
    if t.chance(1, 6) {
        // signatures and stretches that look like something else
        const PRE: &[&[u8]] = &[
            b"\x89PNG\r\n\x1a\n", b"\xff\xd8\xff\xe0", b"BM", b"GIF89a", b"RIFF", b"\xef\xbb\xbf", b"\xfe\xff", b"\xff\xfe", b"\0\0\0\x10data\0\0\0\x01\0\0\0\0",
            b"\0\0\0\x08free", b"\0\0\0\x08ilst", b"\0\0\0\0", b"\0", b"ID3\x03",
        ];
        match t.weighted(&[5, 1, 2]) {
            0 => {
                let p = *t.pick(PRE);
                b.splice(0..0, p.iter().copied());
            }
            1 => b.iter_mut().for_each(|x| *x = 0),
            _ => b.extend_from_slice(*t.pick(&[&b"\0"[..], b"\0\0", b"\xff", b" ", b"\xff\xd9"])),
        }
    }
    b
}

pub fn gen_value(t: &mut Tape, max: u64) -> V {
    match t.weighted(&[6, 4, 3, 3, 3, 3, 2]) {
        0 => V::Utf8(gen_string(t, max.min(12 << 20))),
        1 => V::Utf16(gen_string(t, (max / 2).min(12 << 20))),
        2 => V::Reserved(gen_bytes(t, max)),
        3 => V::BeSigned(gen_bytes(t, max.min(64))),
        4 => V::Jpeg(gen_bytes(t, max)),
        5 => V::Png(gen_bytes(t, max)),
        _ => V::Bmp(gen_bytes(t, max)),
    }
}

pub fn gen_id(t: &mut Tape) -> Id {
    match t.weighted(&[8, 4, 3, 2, 1]) {
        0 => Id::F(**t.pick(KNOWN)),
        1 => {
            const N: &[&str] = &["ISRC", "LYRICIST", "iTunNORM", "iTunSMPB", "isrc", "", "ISRC "];
            const M: &[&str] = &["com.apple.iTunes", "com.apple.itunes", "org.example", ""];
            Id::Free(M[t.weighted(&[6, 1, 2, 1])].to_string(), t.pick(N).to_string())
        }
        2 => Id::F([b'x', b'y', b'z', b'0' + t.below(8) as u8]),
        3 => {
            let n = match t.weighted(&[28, 4, 1]) {
                0 => 40,
                1 => 400,
                _ => 70_000,
            };
            Id::Free(gen_string(t, n), gen_string(t, n))
        }
        _ => Id::F(**t.pick(TRICKY)),
    }
}

/// A different identifier that is easily taken for the same.
pub fn near_miss(t: &mut Tape, id: &Id) -> Id {
    match id {
        Id::F(c) => {
            let mut c = *c;
            match t.below(5) {
                0 => c[t.usize(4)] ^= 0x20,
                1 => c[t.usize(4)] ^= 0x80,
                2 => c.reverse(),
                3 => c.swap(2, 3),
                _ => return Id::Free(String::new(), c.iter().map(|b| *b as char).collect()),
            }
            Id::F(c)
        }
        Id::Free(m, n) => {
            let (mut m, mut n) = (m.clone(), n.clone());
            match t.below(7) {
                0 => std::mem::swap(&mut m, &mut n),
                1 => n.push(*t.pick(&['x', ' ', '\0', '\u{301}'])),
                2 => m.push(*t.pick(&['.', ' ', '\0', '\u{FEFF}'])),
                3 => n.insert(0, ' '),
                // the same when joined
                4 => {
                    if let Some(c) = m.pop() {
                        n.insert(0, c)
                    }
                }
                5 if !n.is_empty() => m.push(n.remove(0)),
                _ => n = if n.to_lowercase() == n { n.to_uppercase() } else { n.to_lowercase() },
            }
            Id::Free(m, n)
        }
    }
}

/// Two different identifiers that are easily taken for the same.
pub fn near_pair(t: &mut Tape, id: &Id) -> [Id; 2] {
    if let (Id::Free(m, n), true) = (id, t.chance(1, 3)) {
        // the same when joined by a separator
        let sep = *t.pick(&[":", "", "/", ".", "\0", ",", "----:"]);
        let x = *t.pick(&["x", "", "iTunes", "org.example"]);
        if !(sep.is_empty() && x.is_empty()) {
            return [Id::Free(format!("{}{}{}", m, sep, x), n.clone()), Id::Free(m.clone(), format!("{}{}{}", x, sep, n))];
        }
    }
    let a = near_miss(t, id);
    let b = near_miss(t, &a);
    [a, b]
}

/// An identifier for a list of up to so many items.
pub fn gen_one_of(t: &mut Tape, max_items: u64) -> Id {
    if max_items > 100 && t.chance(1, 2) {
        // many different ones
        return Id::F([b'w', b'a' + t.below(26) as u8, b'a' + t.below(26) as u8, b'0' + t.below(10) as u8]);
    }
    gen_id(t)
}

/// How many values an item of such a list has.
pub fn gen_count(t: &mut Tape, max_items: u64) -> u64 {
    if max_items > 100 && t.chance(1, 40) {
        return t.range(200, 600);
    }
    1 + t.weighted(&[6, 2, 1]) as u64
}

pub fn gen_items(t: &mut Tape, max_items: u64, max_val: u64) -> Items {
    let n = t.below(max_items + 1);
    let mut v: Items = Vec::new();
    for _ in 0..n {
        let id = gen_one_of(t, max_items);
        let k = gen_count(t, max_items);
        let mut vals: Vec<V> = (0..k).map(|_| gen_value(t, max_val)).collect();
        if t.chance(1, 10) {
            // the same value once more
            let x = vals[0].clone();
            vals.push(x);
        }
        match v.iter_mut().find(|e| e.0 == id) {
            Some(e) => e.1.extend(vals),
            None => v.push((id, vals)),
        }
        if t.chance(1, 16) {
            // one or two more that differ by little
            let id = v[t.usize(v.len())].0.clone();
            for id in near_pair(t, &id) {
                if v.iter().all(|e| e.0 != id) {
                    let x = gen_value(t, max_val);
                    v.push((id, vec![x]));
                }
            }
        }
    }
    v
}
