//! Sparse, copy-on-write file contents: snapshots are cheap and multi-gigabyte files cost only what was written.
use std::collections::BTreeMap;
use std::sync::Arc;

pub const PAGE: usize = 4096;
/// Transfers longer than this are taken for the gigabytes of zeros which they are.
pub const HUGE: usize = 64 << 20;
fn zeros(b: &[u8]) -> bool {
    b == &[0u8; PAGE][..b.len()]
}
type Page = Arc<[u8; PAGE]>;

#[derive(Clone, Default)]
pub struct Store {
    pages: BTreeMap<u64, Page>,
    len: u64,
}

impl Store {
    pub fn from_bytes(b: &[u8]) -> Self {
        let mut s = Store::default();
        s.write_at(0, b);
        s
    }
    pub fn len(&self) -> u64 {
        self.len
    }
    pub fn pages(&self) -> usize {
        self.pages.len()
    }
    pub fn has_page(&self, p: u64) -> bool {
        self.pages.contains_key(&p)
    }
    pub fn read_at(&self, off: u64, buf: &mut [u8]) -> usize {
        if off >= self.len {
            return 0;
        }
        let n = (buf.len() as u64).min(self.len - off) as usize;
        let mut done = 0;
        while done < n {
            let o = off + done as u64;
            let (p, i) = (o / PAGE as u64, (o % PAGE as u64) as usize);
            let k = (PAGE - i).min(n - done);
            match self.pages.get(&p) {
                Some(pg) => buf[done..done + k].copy_from_slice(&pg[i..i + k]),
                None => buf[done..done + k].fill(0),
            }
            done += k;
        }
        n
    }
    pub fn write_at(&mut self, off: u64, b: &[u8]) {
        let mut done = 0;
        while done < b.len() {
            let o = off + done as u64;
            let (p, i) = (o / PAGE as u64, (o % PAGE as u64) as usize);
            let k = (PAGE - i).min(b.len() - done);
            // gigabytes of zeros stay a hole
            if b.len() > HUGE && !self.pages.contains_key(&p) && zeros(&b[done..done + k]) {
                done += k;
                continue;
            }
            let pg = self.pages.entry(p).or_insert_with(|| Arc::new([0u8; PAGE]));
            Arc::make_mut(pg)[i..i + k].copy_from_slice(&b[done..done + k]);
            done += k;
        }
        if !b.is_empty() {
            self.len = self.len.max(off + b.len() as u64);
        }
    }
    pub fn set_len(&mut self, n: u64) {
        if n < self.len {
            let keep = n.div_ceil(PAGE as u64);
            let _ = self.pages.split_off(&keep);
            if n % PAGE as u64 != 0 {
                if let Some(pg) = self.pages.get_mut(&(n / PAGE as u64)) {
                    Arc::make_mut(pg)[(n % PAGE as u64) as usize..].fill(0);
                }
            }
        }
        self.len = n;
    }
    pub fn slice(&self, off: u64, len: u64) -> Vec<u8> {
        let n = len.min(self.len.saturating_sub(off)) as usize;
        let mut v = vec![0u8; n];
        self.read_at(off, &mut v);
        v
    }
    /// All bytes; only for files known to be small.
    pub fn to_vec(&self) -> Vec<u8> {
        assert!(self.len < 1 << 28, "file too large to materialise");
        self.slice(0, self.len)
    }
    fn extents(&self, lo: u64, hi: u64) -> Vec<(u64, u64)> {
        let mut v: Vec<(u64, u64)> = Vec::new();
        for (&p, _) in self.pages.range(lo / PAGE as u64..hi.div_ceil(PAGE as u64)) {
            let s = (p * PAGE as u64).max(lo);
            let e = ((p + 1) * PAGE as u64).min(hi).min(self.len);
            if s < e {
                match v.last_mut() {
                    Some(l) if l.1 == s => l.1 = e,
                    _ => v.push((s, e)),
                }
            }
        }
        v
    }
    /// First position (relative to the start) at which `a[ao..ao+len]` and `b[bo..bo+len]` differ.
    pub fn first_diff(a: &Store, ao: u64, b: &Store, bo: u64, len: u64) -> Option<u64> {
        let mut best: Option<u64> = None;
        let mut note = |p: u64| best = Some(best.map_or(p, |q: u64| q.min(p)));
        let (alen, blen) = (a.len.saturating_sub(ao).min(len), b.len.saturating_sub(bo).min(len));
        if alen != blen {
            note(alen.min(blen));
        }
        let n = alen.min(blen);
        let cmp = |s: u64, e: u64, note: &mut dyn FnMut(u64)| {
            let mut o = s;
            while o < e {
                let k = (e - o).min(65536);
                let (x, y) = (a.slice(ao + o, k), b.slice(bo + o, k));
                if x != y {
                    let i = x.iter().zip(&y).position(|(p, q)| p != q).unwrap_or(0);
                    note(o + i as u64);
                    return;
                }
                o += k;
            }
        };
        for (s, e) in a.extents(ao, ao + n) {
            cmp(s - ao, e - ao, &mut note);
        }
        for (s, e) in b.extents(bo, bo + n) {
            cmp(s - bo, e - bo, &mut note);
        }
        best
    }
    pub fn same(a: &Store, b: &Store) -> bool {
        a.len == b.len && Store::first_diff(a, 0, b, 0, a.len).is_none()
    }
    pub fn hash(&self) -> u64 {
        let mut h = crate::tape::Hash::new();
        h.add(self.len);
        for (s, e) in self.extents(0, self.len) {
            let mut o = s;
            while o < e {
                let k = (e - o).min(PAGE as u64);
                let b = self.slice(o, k);
                if b.iter().any(|&x| x != 0) {
                    h.add(o).bytes(&b);
                }
                o += k;
            }
        }
        h.0
    }
}
