//! Encoder: abstract store (JSON, as emitted by the specification) -> bytes of a .one/.onetoc2 file.
//! Written from the MS-ONESTORE/MS-FSSHTTPB documents, independent of the crate under test.
use crate::tables::{JCIDS, PROPS};
use serde_json::Value;
use std::collections::HashMap;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn flip(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

pub type Ex = ([u8; 16], u32);
pub const NIL: Ex = ([0; 16], 0);

pub fn guid(s: &str) -> [u8; 16] {
    let h: Vec<u8> = s
        .bytes()
        .filter(|c| c.is_ascii_hexdigit())
        .collect::<Vec<_>>()
        .chunks(2)
        .map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap())
        .collect();
    let mut r = [0u8; 16];
    let idx = [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15];
    for (i, j) in idx.iter().enumerate() {
        r[i] = h[*j];
    }
    r
}
fn fnv(s: &str, salt: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ salt.wrapping_mul(0x9E3779B97F4A7C15);
    for x in s.bytes() {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    Rng(h).next()
}
pub fn hash_guid(name: &str, salt: u64) -> [u8; 16] {
    let mut r = [0u8; 16];
    r[..8].copy_from_slice(&fnv(name, salt).to_le_bytes());
    r[8..].copy_from_slice(&fnv(name, salt ^ 77).to_le_bytes());
    r
}
/// Identifier for a name: "nil"; "base#n" -> (hash(base), n); "g:<32 hex>#n" -> literal GUID bytes;
/// otherwise (hash(name), hash-derived number of varying magnitude).
pub fn ident(name: &str, salt: u64) -> Ex {
    match name {
        "nil" => return NIL,
        "@hdr" => return (guid("1A5A319C-C26B-41AA-B9C5-9BD8C44E07D4"), 1),
        "@dat" => return (guid("84DEFAB9-AAA3-4A0D-A3A8-520C77AC7073"), 2),
        _ => {}
    }
    let (base, num) = match name.rsplit_once('#') {
        Some((b, n)) => (b, n.parse::<u32>().ok()),
        None => (name, None),
    };
    let g = if let Some(hex) = base.strip_prefix("g:") {
        let mut r = [0u8; 16];
        for i in 0..16 {
            r[i] = u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap_or(0);
        }
        r
    } else {
        hash_guid(base, salt)
    };
    let n = num.unwrap_or_else(|| {
        let h = fnv(base, salt ^ 99);
        match h % 5 {
            0 => (h >> 8) as u32 & 0x1f,
            1 => (h >> 8) as u32 & 0x3ff,
            2 => (h >> 8) as u32 & 0x1ffff,
            3 => (h >> 8) as u32,
            _ => 1 + ((h >> 8) as u32 % 9),
        }
    });
    (g, n)
}
const ROLES: [&str; 4] = ["content", "metadata", "encryption", "version"];

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}
fn arr<'a>(v: &'a Value, k: &str) -> &'a [Value] {
    v.get(k).and_then(|x| x.as_array()).map(|x| &x[..]).unwrap_or(&[])
}
fn obj_entries(v: Option<&Value>) -> Vec<(String, Value)> {
    match v {
        Some(Value::Object(m)) => m.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
        // a sequence of [id, obj] records or pairs
        Some(Value::Array(a)) => a
            .iter()
            .map(|e| match e {
                Value::Array(p) => (p[0].as_str().unwrap_or("").to_string(), p[1].clone()),
                e => (s(e, "id").to_string(), e.get("o").cloned().unwrap_or(Value::Null)),
            })
            .collect(),
        _ => vec![],
    }
}

pub fn blob_bytes(spec: &Value) -> Vec<u8> {
    if let Some(b) = spec.get("b").and_then(|x| x.as_array()) {
        return b.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect();
    }
    let n = spec.get("n").and_then(|x| x.as_u64()).unwrap_or(0);
    let seed = spec.get("s").and_then(|x| x.as_u64()).unwrap_or(0);
    let mut r = Rng(seed.wrapping_mul(0x51ED270B) + 7);
    (0..n).map(|_| (r.next() >> 16) as u8).collect()
}

pub struct Out {
    pub b: Vec<u8>,
}
pub struct Enc {
    pub rng: Rng,
    pub width: String,
    pub salt: u64,
    pub marks: Vec<(usize, String)>,
    /// identifiers given by the case, and the widths to write each of them in, in turn
    pub ids: HashMap<String, Ex>,
    pub wid: HashMap<Ex, (Vec<usize>, usize)>,
    /// least width of compact numbers (0..=7)
    pub cuw: usize,
    /// serial numbers given by the case
    pub sers: HashMap<String, [u8; 24]>,
}
impl Enc {
    pub fn new(seed: u64, width: &str, salt: u64) -> Enc {
        Enc { rng: Rng(seed ^ 0xABCDEF), width: width.to_string(), salt, marks: vec![], ids: HashMap::new(), wid: HashMap::new(), cuw: 0, sers: HashMap::new() }
    }
    fn pick(&mut self, n_legal: usize) -> usize {
        // index among legal widths, 0 = smallest
        match self.width.as_str() {
            "max" => n_legal - 1,
            "rand" => self.rng.below(n_legal as u64) as usize,
            _ => 0,
        }
    }
    pub fn ex(&mut self, o: &mut Vec<u8>, e: Ex) {
        if e == NIL {
            if self.width == "rand" && self.rng.below(4) == 0 {
                let k = self.rng.below(4) as usize;
                return self.ex_width(o, e, k);
            }
            o.push(0);
            return;
        }
        let limits = [0x20u64, 0x400, 0x20000, 0x1_0000_0000];
        let first = limits.iter().position(|l| (e.1 as u64) < *l).unwrap();
        if let Some((ws, i)) = self.wid.get_mut(&e) {
            let k = first.max(ws[*i % ws.len()]);
            *i += 1;
            return self.ex_width(o, e, k);
        }
        let k = first + self.pick(4 - first);
        self.ex_width(o, e, k)
    }
    pub fn ex_width(&mut self, o: &mut Vec<u8>, e: Ex, k: usize) {
        let v = e.1;
        match k {
            0 => o.push(((v << 3) | 4) as u8),
            1 => {
                let w = (v << 6) | 0x20;
                o.extend_from_slice(&(w as u16).to_le_bytes());
            }
            2 => {
                let w = (v << 7) | 0x40;
                o.extend_from_slice(&w.to_le_bytes()[..3]);
            }
            _ => {
                o.push(0x80);
                o.extend_from_slice(&v.to_le_bytes());
            }
        }
        o.extend_from_slice(&e.0);
    }
    pub fn cu(&mut self, o: &mut Vec<u8>, v: u64) {
        let bits = [7u32, 14, 21, 28, 35, 42, 49];
        if self.cuw > 0 {
            let first = bits.iter().position(|b| v < (1u64 << b)).unwrap_or(7);
            return self.cu_width(o, v, first.max(self.cuw));
        }
        if v == 0 && !(self.width == "rand" && self.rng.below(3) == 0) && self.width != "max" {
            o.push(0);
            return;
        }
        let first = bits.iter().position(|b| v < (1u64 << b)).unwrap_or(7);
        let k = first + self.pick(8 - first);
        self.cu_width(o, v, k)
    }
    pub fn cu_width(&mut self, o: &mut Vec<u8>, v: u64, k: usize) {
        if k >= 7 {
            o.push(0x80);
            o.extend_from_slice(&v.to_le_bytes());
        } else {
            let w = (v << (k + 1)) | (1u64 << k);
            o.extend_from_slice(&w.to_le_bytes()[..k + 1]);
        }
    }
    pub fn h16(&mut self, o: &mut Vec<u8>, ty: u32, compound: bool, len: usize) {
        let w = (ty << 3) | ((compound as u32) << 2) | (((len.min(127)) as u32) << 9);
        o.extend_from_slice(&(w as u16).to_le_bytes());
    }
    pub fn h32(&mut self, o: &mut Vec<u8>, ty: u32, compound: bool, len: usize) {
        let l = if len >= 0x7fff { 0x7fff } else { len as u32 };
        let w = 2 | ((compound as u32) << 2) | (ty << 3) | (l << 17);
        o.extend_from_slice(&w.to_le_bytes());
        if len >= 0x7fff {
            self.cu(o, len as u64);
        }
    }
    /// Header of either width.
    pub fn h(&mut self, o: &mut Vec<u8>, ty: u32, compound: bool, len: usize) {
        if ty < 64 && len < 128 && self.pick(2) == 0 {
            self.h16(o, ty, compound, len)
        } else {
            self.h32(o, ty, compound, len)
        }
    }
    fn end8(&mut self, o: &mut Vec<u8>, ty: u32) {
        o.push(((ty << 2) | 1) as u8);
    }
    fn serial(&mut self, o: &mut Vec<u8>, sn: Option<&str>) {
        match sn {
            None => {
                if self.rng.below(3) == 0 {
                    o.push(0)
                } else {
                    o.push(0x80);
                    let a = self.rng.next();
                    let b = self.rng.next();
                    o.extend_from_slice(&a.to_le_bytes());
                    o.extend_from_slice(&b.to_le_bytes());
                    let c = self.rng.next();
                    o.extend_from_slice(&c.to_le_bytes());
                }
            }
            Some(name) => {
                o.push(0x80);
                if let Some(b) = self.sers.get(name) {
                    o.extend_from_slice(b);
                    return;
                }
                let (base, num) = match name.rsplit_once('#') {
                    Some((b, n)) if n.parse::<u64>().is_ok() => (b, n.parse::<u64>().unwrap()),
                    _ => (name, fnv(name, self.salt ^ 55)),
                };
                o.extend_from_slice(&hash_guid(base, self.salt));
                o.extend_from_slice(&num.to_le_bytes());
            }
        }
    }
    fn id(&self, name: &str) -> Ex {
        if let Some(x) = self.ids.get(name) {
            return *x;
        }
        ident(name, self.salt)
    }
    fn element(&mut self, id: Ex, ty: u64, body: &[u8]) -> Vec<u8> {
        let mut b = vec![];
        self.ex(&mut b, id);
        self.serial(&mut b, None);
        self.cu(&mut b, ty);
        let mut o = vec![];
        self.h16(&mut o, 1, true, b.len());
        o.extend_from_slice(&b);
        o.extend_from_slice(body);
        self.end8(&mut o, 1);
        o
    }
}

pub fn jcid(k: &str) -> u32 {
    if let Some(x) = JCIDS.iter().find(|(n, _)| *n == k) {
        return x.1;
    }
    u32::from_str_radix(k.trim_start_matches("0x"), 16).unwrap_or(0x00060099)
}
pub fn propid(n: &str, ty: u32, bit: bool) -> u32 {
    let base = match PROPS.iter().find(|(m, _)| *m == n) {
        Some(x) => x.1,
        None => u32::from_str_radix(n.trim_start_matches("0x"), 16).unwrap_or_else(|_| 0x3A0000 + (fnv(n, 0) as u32 & 0xffff)),
    };
    (base & 0x3ffffff) | (ty << 26) | ((bit as u32) << 31)
}

#[derive(Default)]
struct Streams {
    oids: Vec<String>,
    osids: Vec<String>,
    ctxs: Vec<String>,
}
fn prop_type(p: &Value) -> u32 {
    p.get("t").and_then(|x| x.as_u64()).unwrap_or(1) as u32
}
fn bytes_of(p: &Value, k: &str) -> Vec<u8> {
    arr(p, k).iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect()
}
fn collect_streams(props: &[Value], st: &mut Streams) {
    for p in props {
        let r: Vec<String> = arr(p, "r").iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
        match prop_type(p) {
            8 | 9 => st.oids.extend(r),
            0xA | 0xB => st.osids.extend(r),
            0xC | 0xD => st.ctxs.extend(r),
            0x10 | 0x11 => {
                for set in arr(p, "s") {
                    collect_streams(set.as_array().map(|x| &x[..]).unwrap_or(&[]), st)
                }
            }
            _ => {}
        }
    }
}
fn prop_set(e: &mut Enc, o: &mut Vec<u8>, props: &[Value]) {
    o.extend_from_slice(&(props.len() as u16).to_le_bytes());
    for p in props {
        let t = prop_type(p);
        let bit = t == 2 && bytes_of(p, "v").first().copied().unwrap_or(0) != 0;
        o.extend_from_slice(&propid(s(p, "n"), t, bit).to_le_bytes());
    }
    for p in props {
        let v = bytes_of(p, "v");
        let t = prop_type(p);
        // "cnt": a stored count, as a number or its bytes
        let count = p.get("cnt").and_then(|x| match x.as_array() {
            Some(a) => Some(a.iter().rev().fold(0, |n, b| (n << 8) | b.as_u64().unwrap_or(0))),
            None => x.as_u64(),
        });
        match t {
            3..=6 => o.extend_from_slice(&v),
            7 => {
                o.extend_from_slice(&(count.unwrap_or(v.len() as u64) as u32).to_le_bytes());
                o.extend_from_slice(&v);
            }
            9 | 0xB | 0xD => {
                let n = count.unwrap_or(arr(p, "r").len() as u64) as u32;
                o.extend_from_slice(&n.to_le_bytes());
            }
            0x10 if p.get("nest").is_some() => {
                for _ in 0..p["nest"].as_u64().unwrap_or(0) {
                    o.extend_from_slice(&1u32.to_le_bytes());
                    o.extend_from_slice(&propid("NoteTag", 0x11, false).to_le_bytes());
                    o.extend_from_slice(&1u16.to_le_bytes());
                    o.extend_from_slice(&propid("NoteTags", 0x10, false).to_le_bytes());
                }
                o.extend_from_slice(&0u32.to_le_bytes());
            }
            0x10 => {
                let sets = arr(p, "s");
                o.extend_from_slice(&(count.unwrap_or(sets.len() as u64) as u32).to_le_bytes());
                o.extend_from_slice(&propid("NoteTag", 0x11, false).to_le_bytes());
                for x in sets {
                    prop_set(e, o, x.as_array().map(|x| &x[..]).unwrap_or(&[]));
                }
            }
            0x11 if p.get("nest").is_some() => {
                // property sets nested that deep, the innermost one empty
                for _ in 0..p["nest"].as_u64().unwrap_or(0) {
                    o.extend_from_slice(&1u16.to_le_bytes());
                    o.extend_from_slice(&propid("NoteTag", 0x11, false).to_le_bytes());
                }
                o.extend_from_slice(&0u16.to_le_bytes());
            }
            0x11 => {
                for x in arr(p, "s").iter().take(1) {
                    prop_set(e, o, x.as_array().map(|x| &x[..]).unwrap_or(&[]));
                }
            }
            _ => {}
        }
    }
}
/// Compact identifiers for a stream of targets ("" = no target assigned, only legal at the end).
fn cids(e: &mut Enc, targets: &[String], plan: &[Value], policy: &str, base: u32) -> Vec<u32> {
    let mut used: HashMap<String, u32> = HashMap::new();
    let mut all = vec![];
    let same = base + 1 + ((e.rng.below(200) as u32) << 8) + e.rng.below(200) as u32;
    let mut fresh = std::collections::HashSet::new();
    fresh.insert(same);
    let resolved = targets.iter().filter(|t| !t.is_empty()).count();
    for (i, t) in targets.iter().enumerate() {
        let mut new = |e: &mut Enc| loop {
            let c = base.wrapping_add(((e.rng.below(3000) as u32) << 8) | (e.rng.below(255) as u32));
            if fresh.insert(c) {
                return c;
            }
        };
        let c = if let Some(c) = plan.get(i).and_then(|x| x.as_u64()) {
            c as u32
        } else if policy == "seq" {
            // the same identifiers are used in every stream
            ((i as u32 % 7 + 1) << 8) | (i as u32 / 7 + 1)
        } else if t.is_empty() && policy == "allsame" && resolved > 1 {
            same
        } else if t.is_empty() {
            new(e)
        } else {
            match policy {
                "same" | "allsame" if resolved > 1 => same,
                "target" => match used.get(t) {
                    Some(c) => *c,
                    None => {
                        let c = new(e);
                        used.insert(t.clone(), c);
                        c
                    }
                },
                _ => new(e),
            }
        };
        all.push(c);
    }
    all
}
pub struct ObjBytes {
    pub data: Vec<u8>,
    pub refs: Vec<Ex>,
    pub cells: Vec<(Ex, Ex)>,
}
pub fn object_bytes(e: &mut Enc, o: &Value, space: &str, ctx_of: &dyn Fn(&str) -> String, policy: &str) -> ObjBytes {
    let props = arr(o, "p");
    let mut st = Streams::default();
    collect_streams(props, &mut st);
    if let Some(x) = o.get("oids").and_then(|x| x.as_array()) {
        // explicit object reference stream (targets by position)
        st.oids = x.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
    }
    if let Some(x) = o.get("osids").and_then(|x| x.as_array()) {
        st.osids = x.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
    }
    let pol = if s(o, "cid").is_empty() { policy } else { s(o, "cid") };
    let pol = if pol == "mix" || pol.is_empty() { ["uniq", "target", "same", "seq", "allsame"][e.rng.below(5) as usize] } else { pol }.to_string();
    let oc = cids(e, &st.oids, arr(o, "cp"), &pol, 0);
    let sc = cids(e, &st.osids, arr(o, "sp"), &pol, 0);
    let cc = cids(e, &st.ctxs, &[], if pol == "seq" { "seq" } else { "uniq" }, 0x00F0_0000 << 8);
    let mut d = vec![];
    let have_os = !sc.is_empty() || !cc.is_empty() || e.rng.below(3) == 0;
    let mut h = oc.len() as u32;
    if !have_os {
        h |= 1 << 31;
    }
    if !cc.is_empty() {
        h |= 1 << 30;
    }
    d.extend_from_slice(&h.to_le_bytes());
    for c in &oc {
        d.extend_from_slice(&c.to_le_bytes());
    }
    if have_os {
        let mut h = sc.len() as u32;
        let ext = !cc.is_empty() || e.rng.below(4) == 0;
        if ext {
            h |= 1 << 30;
        }
        d.extend_from_slice(&h.to_le_bytes());
        for c in &sc {
            d.extend_from_slice(&c.to_le_bytes());
        }
        if ext {
            d.extend_from_slice(&(cc.len() as u32).to_le_bytes());
            for c in &cc {
                d.extend_from_slice(&c.to_le_bytes());
            }
        }
    }
    prop_set(e, &mut d, props);
    if e.rng.flip() {
        while d.len() % 8 != 0 {
            d.push(0);
        }
    }
    let last = st.oids.iter().rposition(|t| !t.is_empty()).map(|x| x + 1).unwrap_or(0);
    let refs = st.oids[..last].iter().map(|t| if t.is_empty() { NIL } else { e.id(t) }).collect();
    // context and object space references, interleaved, each in its own order
    let mut cells = vec![];
    let (mut i, mut j) = (0, 0);
    while i < st.osids.len() || j < st.ctxs.len() {
        if i < st.osids.len() && (j >= st.ctxs.len() || e.rng.flip()) {
            let t = &st.osids[i];
            let c = ctx_of(t);
            cells.push((e.id(&c), e.id(t)));
            i += 1;
        } else {
            cells.push((e.id(&st.ctxs[j]), e.id(space)));
            j += 1;
        }
    }
    ObjBytes { data: d, refs, cells }
}

enum Rec {
    Data { id: Ex, part: u64, b: ObjBytes },
    Blob { id: Ex, blob: Ex },
    Excluded { id: Ex, part: u64, size: u64 },
}

pub fn group_body(e: &mut Enc, objs: &[(String, Value)], space: &str, ctx_of: &dyn Fn(&str) -> String, policy: &str, order: bool, drop: &dyn Fn(&str) -> bool) -> Vec<u8> {
    let mut recs: Vec<Vec<Rec>> = vec![];
    for (name, o) in objs {
        let id = e.id(name);
        let mut v = vec![];
        if !drop(&format!("part4:{name}")) {
            v.push(Rec::Data { id, part: 4, b: ObjBytes { data: jcid(s(o, "k")).to_le_bytes().to_vec(), refs: vec![], cells: vec![] } });
        }
        if !drop(&format!("part1:{name}")) {
            let b = object_bytes(e, o, space, ctx_of, policy);
            if drop(&format!("excl1:{name}")) {
                v.push(Rec::Excluded { id, part: 1, size: b.data.len() as u64 });
            } else {
                v.push(Rec::Data { id, part: 1, b });
            }
        }
        for b in arr(o, "b") {
            if !drop(&format!("part2:{name}")) {
                v.push(Rec::Blob { id, blob: e.id(&format!("blob:{}", b.as_str().unwrap_or(""))) });
            }
        }
        if order {
            e.rng.shuffle(&mut v);
        }
        recs.push(v);
    }
    if order {
        e.rng.shuffle(&mut recs);
    }
    let mut recs: Vec<Rec> = recs.into_iter().flatten().collect();
    if order && e.rng.flip() {
        e.rng.shuffle(&mut recs);
    }
    let mut o = vec![];
    e.h(&mut o, 0x1D, true, 0);
    for r in &recs {
        let mut b = vec![];
        match r {
            Rec::Data { id, part, b: d } => {
                e.ex(&mut b, *id);
                e.cu(&mut b, *part);
                e.cu(&mut b, d.data.len() as u64);
                e.cu(&mut b, d.refs.len() as u64);
                e.cu(&mut b, d.cells.len() as u64);
                e.h(&mut o, 0x18, false, b.len());
            }
            Rec::Excluded { id, part, size } => {
                e.ex(&mut b, *id);
                e.cu(&mut b, *part);
                e.cu(&mut b, *size);
                e.cu(&mut b, 0);
                e.cu(&mut b, 0);
                e.h(&mut o, 0x18, false, b.len());
            }
            Rec::Blob { id, blob } => {
                e.ex(&mut b, *id);
                e.ex(&mut b, *blob);
                e.cu(&mut b, 2);
                e.cu(&mut b, 1);
                e.cu(&mut b, 0);
                e.h(&mut o, 5, false, b.len());
            }
        }
        o.extend_from_slice(&b);
    }
    e.end8(&mut o, 0x1D);
    if order && e.rng.flip() {
        e.h32(&mut o, 0x79, true, 0);
        for _ in &recs {
            let mut b = vec![];
            let f = e.rng.below(5);
            e.cu(&mut b, f);
            e.h32(&mut o, 0x78, false, b.len());
            o.extend_from_slice(&b);
        }
        o.extend_from_slice(&((0x79u16 << 2) | 3).to_le_bytes());
    }
    e.h(&mut o, 0x1E, true, 0);
    for (k, r) in recs.iter().enumerate() {
        if drop("lastdata") && k + 1 == recs.len() {
            continue;
        }
        let mut b = vec![];
        match r {
            Rec::Data { b: d, .. } => {
                e.cu(&mut b, d.refs.len() as u64);
                for x in &d.refs {
                    e.ex(&mut b, *x);
                }
                e.cu(&mut b, d.cells.len() as u64);
                for x in &d.cells {
                    e.ex(&mut b, x.0);
                    e.ex(&mut b, x.1);
                }
                e.cu(&mut b, d.data.len() as u64);
                b.extend_from_slice(&d.data);
                e.h(&mut o, 0x16, false, b.len());
            }
            Rec::Excluded { size, .. } => {
                e.cu(&mut b, 0);
                e.cu(&mut b, 0);
                e.cu(&mut b, *size);
                e.h(&mut o, 3, false, b.len());
            }
            Rec::Blob { blob, .. } => {
                e.cu(&mut b, 1);
                e.ex(&mut b, *blob);
                e.cu(&mut b, 0);
                e.ex(&mut b, *blob);
                e.h(&mut o, 0x1C, false, b.len());
            }
        }
        o.extend_from_slice(&b);
    }
    e.end8(&mut o, 0x1E);
    o
}

pub fn schema_guid(x: &str) -> [u8; 16] {
    match x {
        "toc" => guid("E4DBFD38-E5C7-408B-A8A1-0E7B421E1F5F"),
        "section" | "" => guid("1F937CB4-B26F-445F-B9F8-17E20160E461"),
        o => {
            if o.len() >= 32 && o.chars().all(|c| c.is_ascii_hexdigit() || c == '-') {
                guid(o)
            } else {
                hash_guid(o, 3)
            }
        }
    }
}

struct IndexEntry(Vec<u8>);

/// Encode an abstract document.
/// `%` and `^` in the strings of a template are a number and the next one.
fn numbered(v: &Value, j: u64) -> Value {
    match v {
        Value::String(x) => Value::String(x.replace('%', &j.to_string()).replace('^', &(j + 1).to_string())),
        Value::Array(a) => Value::Array(
            a.iter()
                .flat_map(|x| match x.get("all").and_then(|b| b.as_array()) {
                    // {"all": [prefix, count]}: a list of names
                    Some(b) if b.len() == 2 => {
                        let p = b[0].as_str().unwrap_or("").to_string();
                        (1..=b[1].as_u64().unwrap_or(0)).map(|k| Value::String(format!("{p}{k}"))).collect::<Vec<_>>()
                    }
                    _ => vec![numbered(x, j)],
                })
                .collect(),
        ),
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.replace('%', &j.to_string()), numbered(x, j))).collect()),
        _ => v.clone(),
    }
}
/// A document with `long`: templates for long chains and lists.
///   long: {"spaces": n}             the space "p%" is repeated n times
///   long: {"revs": {space: n}}      the last revision of the space is repeated n times more
///   in revisions: "many": [{"n": count, "objs": {"E%": object}}]
fn expand(doc: &Value) -> Value {
    let mut d = doc.clone();
    let long = d["long"].take();
    if let Some(m) = d.as_object_mut() {
        m.remove("long");
    }
    let Some(spaces) = d["spaces"].as_object_mut() else { return d };
    if let (Some(n), Some(t)) = (long["spaces"].as_u64(), spaces.remove("p%")) {
        for j in 1..=n {
            spaces.insert(format!("p{j}"), numbered(&t, j));
        }
    }
    for (x, sp) in spaces.iter_mut() {
        let Some(revs) = sp["revs"].as_array_mut() else { continue };
        for rev in revs.iter_mut() {
            let many = rev["many"].take();
            let Some(objs) = rev["objs"].as_object_mut() else { continue };
            let old: Vec<(String, Value)> = objs.iter().map(|(k, o)| (k.clone(), numbered(o, 0))).collect();
            *objs = old.into_iter().collect();
            for t in many.as_array().into_iter().flatten() {
                for j in 1..=t["n"].as_u64().unwrap_or(0) {
                    for (k, o) in t["objs"].as_object().into_iter().flatten() {
                        objs.insert(k.replace('%', &j.to_string()), numbered(o, j));
                    }
                }
            }
            if let Some(m) = rev.as_object_mut() {
                m.remove("many");
            }
        }
        if let (Some(n), Some(l)) = (long["revs"][x.as_str()].as_u64(), revs.last().cloned()) {
            revs.extend((0..n).map(|_| l.clone()));
        }
    }
    d
}
pub fn encode(doc: &Value) -> Vec<u8> {
    encode_marked(doc).0
}

/// Encode; also returns named element boundaries (start offset, name) of the package.
pub fn encode_marked(doc: &Value) -> (Vec<u8>, Vec<(usize, String)>) {
    let expanded;
    let doc = if doc.get("long").is_some() {
        expanded = expand(doc);
        &expanded
    } else {
        doc
    };
    let opt = doc.get("enc").cloned().unwrap_or(Value::Null);
    let seed = opt.get("seed").and_then(|x| x.as_u64()).unwrap_or(1);
    let w = s(&opt, "w").to_string();
    let order = opt.get("shuffle").and_then(|x| x.as_bool()).unwrap_or(false);
    let split = opt.get("split").and_then(|x| x.as_u64()).unwrap_or(1);
    let extra = opt.get("extra").and_then(|x| x.as_u64()).unwrap_or(0);
    let cidp = s(&opt, "cid").to_string();
    let salt = opt.get("salt").and_then(|x| x.as_u64()).unwrap_or(0);
    let mut e = Enc::new(seed, &w, salt);
    e.cuw = opt.get("cuw").and_then(|x| x.as_u64()).unwrap_or(0) as usize;
    for (name, spec) in obj_entries(doc.get("sers")) {
        let mut b = [0u8; 24];
        for (i, x) in spec.as_array().into_iter().flatten().take(24).enumerate() {
            b[i] = x.as_u64().unwrap_or(0) as u8;
        }
        e.sers.insert(name, b);
    }
    for (name, spec) in obj_entries(doc.get("ids")) {
        let nums = |k: &str| arr(&spec, k).iter().map(|x| x.as_u64().unwrap_or(0)).collect::<Vec<_>>();
        let (mut g, mut n) = ([0u8; 16], [0u8; 4]);
        for (i, x) in nums("g").iter().enumerate() {
            g[i] = *x as u8;
        }
        for (i, x) in nums("n").iter().enumerate() {
            n[i] = *x as u8;
        }
        let id = (g, u32::from_le_bytes(n));
        e.ids.insert(name, id);
        let w: Vec<usize> = nums("w").iter().map(|x| *x as usize).collect();
        if !w.is_empty() {
            e.wid.insert(id, (w, 0));
        }
    }
    let drops: Vec<String> = arr(doc, "drop").iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
    let dropped = |n: &str| drops.iter().any(|d| d == n);
    let spaces = doc.get("spaces").and_then(|x| x.as_object()).cloned().unwrap_or_default();
    let ctxs: HashMap<String, String> = spaces
        .iter()
        .map(|(k, v)| (k.clone(), if s(v, "ctx").is_empty() { "ctx".to_string() } else { s(v, "ctx").to_string() }))
        .collect();
    let ctx_of = move |n: &str| ctxs.get(n).cloned().unwrap_or_else(|| "ctx".to_string());
    let mut elems: Vec<(String, Vec<u8>)> = vec![];
    let mut index: Vec<IndexEntry> = vec![];
    macro_rules! cellmap {
        ($cell:expr, $id:expr, $serial:expr) => {{
            let mut b = vec![];
            e.ex(&mut b, $cell.0);
            e.ex(&mut b, $cell.1);
            e.ex(&mut b, $id);
            e.serial(&mut b, $serial);
            let mut o = vec![];
            e.h16(&mut o, 0x0E, false, b.len());
            o.extend_from_slice(&b);
            index.push(IndexEntry(o));
        }};
    }
    macro_rules! revmap {
        ($key:expr, $id:expr, $serial:expr) => {{
            let mut b = vec![];
            e.ex(&mut b, $key);
            e.ex(&mut b, $id);
            e.serial(&mut b, $serial);
            let mut o = vec![];
            e.h16(&mut o, 0x0D, false, b.len());
            o.extend_from_slice(&b);
            index.push(IndexEntry(o));
        }};
    }
    // header cell
    let hdr_cell = (e.id("hdrctx"), e.id("hdrspace"));
    let hdr = s(doc, "hdr").to_string();
    if !dropped("cellmap:@hdr") {
        let (cm, rid, rm, og) = (e.id("cm:@hdr"), e.id("rid:@hdr"), e.id("rm:@hdr"), e.id("og:@hdr"));
        cellmap!(hdr_cell, cm, None);
        if !dropped("revmap:@hdr") {
            revmap!(rid, rm, None);
        }
        if !dropped("cm:@hdr") {
            let mut b = vec![];
            let mut t = vec![];
            e.ex(&mut t, rid);
            e.h16(&mut b, 0x0B, false, t.len());
            b.extend_from_slice(&t);
            let x = e.element(cm, 3, &b);
            elems.push(("cm:@hdr".into(), x));
        }
        if !dropped("rm:@hdr") {
            let mut b = vec![];
            let mut t = vec![];
            e.ex(&mut t, rid);
            e.ex(&mut t, NIL);
            e.h16(&mut b, 0x1A, false, t.len());
            b.extend_from_slice(&t);
            let mut t = vec![];
            e.ex(&mut t, og);
            e.h16(&mut b, 0x19, false, t.len());
            b.extend_from_slice(&t);
            let x = e.element(rm, 4, &b);
            elems.push(("rm:@hdr".into(), x));
        }
        if !dropped("og:@hdr") {
            let g16: Vec<u8> = hash_guid("fileid", salt).to_vec();
            let g16b: Vec<u8> = hash_guid("ancestor", salt).to_vec();
            let mut props = vec![
                serde_json::json!({"n":"FileIdentityGuid","t":7,"v":g16}),
                serde_json::json!({"n":"FileAncestorIdentityGuid","t":7,"v":g16b}),
                serde_json::json!({"n":"FileNameCrc","t":5,"v":[1,2,3,4]}),
                serde_json::json!({"n":"FileLastCodeVersionThatWroteToIt","t":5,"v":[1,2,3,4]}),
            ];
            match hdr.as_str() {
                "noid" => {
                    props.remove(0);
                }
                "noanc" => {
                    props.remove(1);
                }
                "nocrc" => {
                    props.remove(2);
                }
                "nover" => {
                    props.remove(3);
                }
                _ => {}
            }
            if order {
                e.rng.shuffle(&mut props);
            }
            let o = serde_json::json!({"k":"0x00020001","p":props});
            let body = group_body(&mut e, &[("hdrobj".to_string(), o)], "hdrspace", &ctx_of, "uniq", order, &dropped);
            let x = e.element(og, 5, &body);
            elems.push(("og:@hdr".into(), x));
        }
    }
    for (sid, sp) in spaces.iter() {
        let cell = (e.id(&ctx_of(sid)), e.id(sid));
        let revs = arr(sp, "revs").to_vec();
        let n = revs.len();
        let via = s(sp, "via").to_string();
        let cm = e.id(&format!("cm:{sid}"));
        let rid_name = |k: usize| match revs[k].get("rid").and_then(|x| x.as_str()) {
            Some(x) => x.to_string(),
            None => format!("rid:{sid}:{}", k + 1),
        };
        let rm_name = |k: usize| match revs[k].get("rm").and_then(|x| x.as_str()) {
            Some(x) => x.to_string(),
            None => format!("rm:{sid}:{}", k + 1),
        };
        let cur = sp.get("cur").and_then(|x| x.as_u64()).map(|x| x as usize).unwrap_or(n);
        let cur_serial = if s(sp, "serial").is_empty() { format!("sn:{sid}") } else { s(sp, "serial").to_string() };
        // "use": the current revision is that of another space
        let used = arr(sp, "use");
        if n == 0 && used.is_empty() {
            // explicitly empty current revision
            if !dropped(&format!("cellmap:{sid}")) {
                cellmap!(cell, cm, Some(&format!("snone:{sid}")[..]));
            }
            if !dropped(&format!("cm:{sid}")) {
                let mut b = vec![];
                let mut t = vec![];
                e.ex(&mut t, NIL);
                e.h16(&mut b, 0x0B, false, t.len());
                b.extend_from_slice(&t);
                let x = e.element(cm, 3, &b);
                elems.push((format!("cm:{sid}"), x));
            }
            continue;
        }
        let (crid, crm) = match &used[..] {
            [x, k] => (e.id(&format!("rid:{}:{k}", x.as_str().unwrap_or(""))), e.id(&format!("rm:{}:{k}", x.as_str().unwrap_or("")))),
            _ => (e.id(&rid_name(cur - 1)), e.id(&rm_name(cur - 1))),
        };
        if !dropped(&format!("cellmap:{sid}")) {
            match via.as_str() {
                "serial" => {
                    let x = e.id(&format!("nocm:{sid}"));
                    cellmap!(cell, x, Some(&cur_serial[..]))
                }
                "direct" => cellmap!(cell, crm, None),
                "map" => cellmap!(cell, crid, None),
                "skip" => cellmap!(cell, NIL, None),
                _ => cellmap!(cell, cm, None),
            }
        }
        if (via.is_empty() || via == "cell" || via == "cmdirect" || via == "cmnilserial") && !dropped(&format!("cm:{sid}")) {
            let mut b = vec![];
            let mut t = vec![];
            e.ex(&mut t, if via == "cmdirect" { crm } else { crid });
            e.h16(&mut b, 0x0B, false, t.len());
            b.extend_from_slice(&t);
            let x = e.element(cm, 3, &b);
            elems.push((format!("cm:{sid}"), x));
        }
        let basevia = s(sp, "base").to_string();
        for k in 0..n {
            let (rid, rm) = (e.id(&rid_name(k)), e.id(&rm_name(k)));
            // is a revision mapping required?
            let needed = s(sp, "maps") == "all" || (k + 1 == cur && matches!(via.as_str(), "" | "cell" | "map" | "serial")) || (k + 1 != cur && basevia != "direct");
            if needed && !dropped(&format!("revmap:{sid}:{}", k + 1)) {
                let sn = if k + 1 == cur { Some(&cur_serial[..]) } else { None };
                revmap!(rid, rm, sn);
            }
            let base: Ex = match revs[k].get("baserev").and_then(|x| x.as_str()) {
                Some(x) => e.id(x),
                None => {
                    if k == 0 {
                        NIL
                    } else if basevia == "direct" {
                        e.id(&rm_name(k - 1))
                    } else {
                        e.id(&rid_name(k - 1))
                    }
                }
            };
            let roots = obj_roots(revs[k].get("roots"));
            // object groups: explicit or distributed
            let mut groups: Vec<(String, Vec<(String, Value)>)> = vec![];
            if let Some(gs) = revs[k].get("groups").and_then(|x| x.as_array()) {
                for (j, g) in gs.iter().enumerate() {
                    groups.push((format!("og:{sid}:{}:{}", k + 1, j + 1), obj_entries(Some(g))));
                }
            } else {
                let mut objs = obj_entries(revs[k].get("objs"));
                if order {
                    e.rng.shuffle(&mut objs);
                }
                let m = if split <= 1 { 1 } else { 1 + e.rng.below(split) };
                for j in 0..m {
                    groups.push((format!("og:{sid}:{}:{}", k + 1, j + 1), vec![]));
                }
                for (i, o) in objs.into_iter().enumerate() {
                    let j = if order { e.rng.below(m) } else { i as u64 % m } as usize;
                    groups[j].1.push(o);
                }
            }
            if !dropped(&format!("rm:{sid}:{}", k + 1)) {
                let mut b = vec![];
                let mut t = vec![];
                e.ex(&mut t, rid);
                e.ex(&mut t, base);
                e.h16(&mut b, 0x1A, false, t.len());
                b.extend_from_slice(&t);
                let mut rl = vec![];
                for (role, oid) in &roots {
                    let mut t = vec![];
                    let rno = ROLES.iter().position(|r| r == role).map(|x| x as u32 + 1);
                    let rid = match rno {
                        Some(n) => (guid("4A3717F8-1C14-49E7-9526-81D942DE1741"), n),
                        None => e.id(role),
                    };
                    e.ex(&mut t, rid);
                    let oid = e.id(oid);
                    e.ex(&mut t, oid);
                    let mut o = vec![];
                    e.h16(&mut o, 0x0A, false, t.len());
                    o.extend_from_slice(&t);
                    rl.push(o);
                }
                let mut gl = vec![];
                // "grefs": groups of other revisions which this one uses, too
                let more = arr(&revs[k], "grefs").iter().map(|x| x.as_str().unwrap_or("").to_string());
                for g in groups.iter().map(|g| g.0.clone()).chain(more) {
                    let mut t = vec![];
                    let gid = e.id(&g);
                    e.ex(&mut t, gid);
                    let mut o = vec![];
                    e.h16(&mut o, 0x19, false, t.len());
                    o.extend_from_slice(&t);
                    gl.push(o);
                }
                if order {
                    e.rng.shuffle(&mut rl);
                }
                if order && e.rng.flip() {
                    b.extend(gl.concat());
                    b.extend(rl.concat());
                } else {
                    b.extend(rl.concat());
                    b.extend(gl.concat());
                }
                let x = e.element(rm, 4, &b);
                elems.push((format!("rm:{sid}:{}", k + 1), x));
            }
            for (g, objs) in &groups {
                if dropped(g) {
                    continue;
                }
                let body = {
                    let gd = |n: &str| dropped(n) || (n == "lastdata" && dropped(&format!("lastdata:{g}")));
                    group_body(&mut e, objs, sid, &ctx_of, &cidp, order, &gd)
                };
                let gid = e.id(g);
                let x = e.element(gid, 5, &body);
                elems.push((g.clone(), x));
            }
        }
    }
    // blobs
    if let Some(bs) = doc.get("blobs").and_then(|x| x.as_object()) {
        for (name, spec) in bs {
            let n = format!("blob:{name}");
            if dropped(&n) {
                continue;
            }
            let data = blob_bytes(spec);
            let mut t = vec![];
            e.cu(&mut t, data.len() as u64);
            t.extend_from_slice(&data);
            let mut b = vec![];
            e.h(&mut b, 2, false, t.len());
            b.extend_from_slice(&t);
            let id = e.id(&n);
            let x = e.element(id, 0x0A, &b);
            elems.push((n, x));
        }
    }
    // unreferenced extra elements
    for i in 0..extra {
        let id = e.id(&format!("extra:{i}"));
        let x = match e.rng.below(5) {
            0 => {
                let n = e.rng.below(40) as usize;
                let mut t = vec![];
                e.cu(&mut t, n as u64);
                t.resize(t.len() + n, 0x55);
                let mut b = vec![];
                e.h(&mut b, 2, false, t.len());
                b.extend_from_slice(&t);
                e.element(id, 0x0A, &b)
            }
            1 => {
                let mut t = vec![];
                e.ex(&mut t, NIL);
                let mut b = vec![];
                e.h16(&mut b, 0x0B, false, t.len());
                b.extend_from_slice(&t);
                e.element(id, 3, &b)
            }
            2 => {
                let o = serde_json::json!({"k":"TitleNode","p":[]});
                let body = group_body(&mut e, &[(format!("extraobj{i}"), o)], "xs", &ctx_of, "uniq", order, &|_| false);
                e.element(id, 5, &body)
            }
            3 => {
                let mut b = vec![];
                let mut t = vec![];
                let r = e.id(&format!("extrarid{i}"));
                e.ex(&mut t, r);
                e.ex(&mut t, NIL);
                e.h16(&mut b, 0x1A, false, t.len());
                b.extend_from_slice(&t);
                e.element(id, 4, &b)
            }
            _ => {
                let data = [9u8; 21];
                let mut t = vec![];
                e.ex(&mut t, id);
                e.cu(&mut t, data.len() as u64);
                e.cu(&mut t, 0);
                e.cu(&mut t, data.len() as u64);
                t.extend_from_slice(&data);
                let mut b = vec![];
                e.h32(&mut b, 0x6A, false, t.len());
                b.extend_from_slice(&t);
                e.element(id, 6, &b)
            }
        };
        elems.push((format!("extra:{i}"), x));
    }
    // storage manifest and storage index
    let root = s(doc, "root").to_string();
    let sm = e.id("sm");
    if !dropped("sm") {
        let mut t = schema_guid(s(doc, "schema")).to_vec();
        let mut b = vec![];
        e.h16(&mut b, 0x0C, false, t.len());
        b.append(&mut t);
        let mut rl = vec![];
        for (r, cell) in [("@hdr", hdr_cell), ("@dat", (e.id(&ctx_of(&root)), e.id(&root)))] {
            if dropped(&format!("root:{r}")) {
                continue;
            }
            let mut t = vec![];
            let rid = e.id(r);
            e.ex(&mut t, rid);
            e.ex(&mut t, cell.0);
            e.ex(&mut t, cell.1);
            let mut o = vec![];
            e.h16(&mut o, 7, false, t.len());
            o.extend_from_slice(&t);
            rl.push(o);
        }
        if order {
            e.rng.shuffle(&mut rl);
        }
        b.extend(rl.concat());
        let x = e.element(sm, 2, &b);
        elems.push(("sm".into(), x));
    }
    let si = e.id("si");
    if !dropped("si") {
        if !dropped("smmap") {
            let mut b = vec![];
            e.ex(&mut b, sm);
            e.serial(&mut b, None);
            let mut o = vec![];
            e.h16(&mut o, 0x11, false, b.len());
            o.extend_from_slice(&b);
            index.insert(0, IndexEntry(o));
        }
        if order {
            e.rng.shuffle(&mut index);
        }
        let b: Vec<u8> = index.iter().flat_map(|x| x.0.clone()).collect();
        let x = e.element(si, 1, &b);
        elems.push(("si".into(), x));
    }
    // elements of the wrong type in place of the right ones
    for n in arr(doc, "wrong").iter().map(|x| x.as_str().unwrap_or("").to_string()).collect::<Vec<_>>() {
        let id = e.id(&n);
        let x = if n.starts_with("cm:") {
            e.element(id, 1, &[])
        } else {
            let mut t = vec![];
            e.ex(&mut t, NIL);
            let mut b = vec![];
            e.h16(&mut b, 0x0B, false, t.len());
            b.extend_from_slice(&t);
            e.element(id, 3, &b)
        };
        for el in elems.iter_mut() {
            if el.0 == n {
                el.1 = x.clone();
            }
        }
    }
    // decoys: a second, unreferenced storage index / manifest
    if doc.get("decoy").is_some() {
        let names: Vec<String> = arr(doc, "decoy").iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
        for n in names {
            match n.as_str() {
                "si" => {
                    let id = e.id("decoysi");
                    let x = e.element(id, 1, &[]);
                    elems.push(("decoysi".into(), x));
                }
                "sm" => {
                    let mut t = schema_guid("decoy").to_vec();
                    let mut b = vec![];
                    e.h16(&mut b, 0x0C, false, t.len());
                    b.append(&mut t);
                    let id = e.id("decoysm");
                    let x = e.element(id, 2, &b);
                    elems.push(("decoysm".into(), x));
                }
                _ => {}
            }
        }
    }
    if order {
        e.rng.shuffle(&mut elems);
    }
    let pack = s(doc, "pack").to_string();
    let pointed = if s(doc, "siref") == "other" { e.id("unknownsi") } else { si };
    wrap(&mut e, &pack, s(doc, "format"), pointed, elems)
}
fn obj_roots(v: Option<&Value>) -> Vec<(String, String)> {
    match v {
        Some(Value::Object(m)) => m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect(),
        Some(Value::Array(a)) => a
            .iter()
            .filter_map(|p| {
                let p = p.as_array()?;
                Some((p.first()?.as_str()?.to_string(), p.get(1)?.as_str()?.to_string()))
            })
            .collect(),
        _ => vec![],
    }
}
fn wrap(e: &mut Enc, pack: &str, format: &str, si: Ex, elems: Vec<(String, Vec<u8>)>) -> (Vec<u8>, Vec<(usize, String)>) {
    let mut o: Vec<u8> = vec![];
    let ft = guid("7B5C52E4-D88C-4DA7-AEB1-5378D02996D3");
    let file = hash_guid("file", e.salt);
    let revfmt = guid("109ADD3F-911B-49F5-A5D0-1791EDC8AED8");
    let pkgfmt = guid("638DE92F-A6D4-4BC1-9A36-B3FC2511A5B7");
    let legver = hash_guid("legacyversion", e.salt);
    let fmt = match format {
        "" => None,
        "unknown" => Some(hash_guid("unknown format", 1)),
        _ => Some(guid(format)),
    };
    let mut marks = vec![];
    let head = |o: &mut Vec<u8>, ver: [u8; 16], f: [u8; 16]| {
        o.extend_from_slice(&ft);
        o.extend_from_slice(&file);
        o.extend_from_slice(&ver);
        o.extend_from_slice(&f);
    };
    match pack {
        "new" => {
            head(&mut o, [0; 16], fmt.unwrap_or(revfmt));
            for _ in 0..4 {
                let v: u32 = if e.rng.flip() { 0x2A } else { 0x1B };
                o.extend_from_slice(&v.to_le_bytes());
            }
            for _ in 0..(8 + 8 + 4 + 4 + 8 + 8 + 4 + 4) {
                let x = e.rng.next() as u8;
                o.push(x);
            }
            o.extend_from_slice(&hash_guid("anc", 4));
            o.extend_from_slice(&[1, 2, 3, 4]);
            // hashed chunk list (stp, cb), transaction log (stp, cb)
            o.extend_from_slice(&e.rng.next().to_le_bytes());
            o.extend_from_slice(&(e.rng.next() as u32).to_le_bytes());
            let here = o.len() + 12;
            let gap = e.rng.below(90) as usize;
            let end = here + gap;
            let cb = e.rng.below(end as u64 + 1);
            o.extend_from_slice(&((end as u64) - cb).to_le_bytes());
            o.extend_from_slice(&(cb as u32).to_le_bytes());
            o.resize(end, 0xEE);
            let f = e.rng.flip();
            head(&mut o, if f { [0; 16] } else { legver }, if f { revfmt } else { pkgfmt });
        }
        "revlegacy" => head(&mut o, legver, fmt.unwrap_or(revfmt)),
        _ => {
            let v = if e.rng.flip() { [0; 16] } else { legver };
            head(&mut o, v, fmt.unwrap_or(pkgfmt));
        }
    }
    marks.push((o.len(), "package".to_string()));
    o.extend_from_slice(&[0, 0, 0, 0]);
    let mut b = vec![];
    e.ex(&mut b, si);
    b.extend_from_slice(&hash_guid("cellschema", 0));
    e.h32(&mut o, 0x7A, true, b.len());
    o.extend_from_slice(&b);
    e.h16(&mut o, 0x15, true, 1);
    o.push(0);
    for (n, x) in elems {
        marks.push((o.len(), n));
        o.extend_from_slice(&x);
    }
    marks.push((o.len(), "end".to_string()));
    o.push((0x15 << 2) | 1);
    o.extend_from_slice(&(((0x7Au16) << 2) | 3).to_le_bytes());
    (o, marks)
}
