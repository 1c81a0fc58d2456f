//! What a file stores, how it is encoded, and how it is generated.
use crate::util::*;

#[derive(Clone, Debug, Default)]
pub struct Info {
    pub version: Option<i32>,
    pub timestamp: Option<i64>,
    pub changeset: Option<i64>,
    pub uid: Option<i32>,
    pub user_sid: Option<u32>,
    pub visible: Option<bool>,
}
#[derive(Clone, Debug, Default)]
pub struct Node {
    pub id: i64,
    pub keys: Vec<u32>,
    pub vals: Vec<u32>,
    pub info: Option<Info>,
    pub lat: i64,
    pub lon: i64,
}
#[derive(Clone, Debug, Default)]
pub struct DenseInfo {
    pub version: Vec<i32>,
    pub timestamp: Vec<i64>,
    pub changeset: Vec<i64>,
    pub uid: Vec<i32>,
    pub user_sid: Vec<i32>,
    pub visible: Vec<bool>,
}
#[derive(Clone, Debug, Default)]
pub struct Dense {
    pub id: Vec<i64>,
    pub lat: Vec<i64>,
    pub lon: Vec<i64>,
    pub kv: Vec<i32>,
    pub info: Option<DenseInfo>,
}
#[derive(Clone, Debug, Default)]
pub struct Way {
    pub id: i64,
    pub keys: Vec<u32>,
    pub vals: Vec<u32>,
    pub info: Option<Info>,
    pub refs: Vec<i64>,
    pub lat: Vec<i64>,
    pub lon: Vec<i64>,
}
#[derive(Clone, Debug, Default)]
pub struct Rel {
    pub id: i64,
    pub keys: Vec<u32>,
    pub vals: Vec<u32>,
    pub info: Option<Info>,
    pub roles: Vec<i32>,
    pub memids: Vec<i64>,
    pub types: Vec<i32>,
}
#[derive(Clone, Debug, Default)]
pub struct Group {
    pub nodes: Vec<Node>,
    pub dense: Option<Dense>,
    pub ways: Vec<Way>,
    pub rels: Vec<Rel>,
}
#[derive(Clone, Debug, Default)]
pub struct Block {
    pub strings: Vec<Vec<u8>>,
    pub groups: Vec<Group>,
    pub granularity: Option<i32>,
    pub lat_offset: Option<i64>,
    pub lon_offset: Option<i64>,
    pub date_granularity: Option<i32>,
}
#[derive(Clone, Debug, Default)]
pub struct Header {
    pub bbox: Option<[i64; 4]>,
    pub required: Vec<String>,
    pub optional: Vec<String>,
    pub program: Option<String>,
    pub source: Option<String>,
    pub ts: Option<i64>,
    pub seq: Option<i64>,
    pub url: Option<String>,
}

impl Dense {
    pub fn n(&self) -> usize {
        self.id.len().min(self.lat.len()).min(self.lon.len())
    }
    pub fn ids(&self) -> Vec<i64> {
        sums(&self.id)[..self.n()].to_vec()
    }
}
impl Group {
    pub fn dense(&self) -> Dense {
        self.dense.clone().unwrap_or_default()
    }
}
pub fn sums(d: &[i64]) -> Vec<i64> {
    let mut s = 0i64;
    d.iter()
        .map(|x| {
            s = s.wrapping_add(*x);
            s
        })
        .collect()
}
pub fn sums32(d: &[i32]) -> Vec<i32> {
    let mut s = 0i32;
    d.iter()
        .map(|x| {
            s = s.wrapping_add(*x);
            s
        })
        .collect()
}
/// the tags of the first n dense nodes
pub fn split_tags(kv: &[i32], n: usize) -> Vec<Vec<(i32, i32)>> {
    let mut out = vec![];
    let mut p = 0;
    for _ in 0..n {
        let mut t = vec![];
        while p < kv.len() {
            if kv[p] == 0 {
                p += 1;
                break;
            }
            if p + 1 == kv.len() {
                p += 1;
                break;
            }
            t.push((kv[p], kv[p + 1]));
            p += 2;
        }
        out.push(t);
    }
    out
}

// ---- encoding
fn info(i: &Info) -> Vec<u8> {
    let mut e = Enc::default();
    e.oint(1, i.version.map(|x| x as i64));
    e.oint(2, i.timestamp);
    e.oint(3, i.changeset);
    e.oint(4, i.uid.map(|x| x as i64));
    e.oint(5, i.user_sid.map(|x| x as i64));
    e.oint(6, i.visible.map(|x| x as i64));
    e.0
}
pub fn block(b: &Block) -> Vec<u8> {
    let mut e = Enc::default();
    let mut st = Enc::default();
    for s in &b.strings {
        st.bytes(1, s);
    }
    e.bytes(1, &st.0);
    for g in &b.groups {
        let mut ge = Enc::default();
        for n in &g.nodes {
            let mut x = Enc::default();
            x.sint(1, n.id);
            x.puint32(2, &n.keys);
            x.puint32(3, &n.vals);
            if let Some(i) = &n.info {
                x.bytes(4, &info(i));
            }
            x.sint(8, n.lat);
            x.sint(9, n.lon);
            ge.bytes(1, &x.0);
        }
        if let Some(d) = &g.dense {
            let mut x = Enc::default();
            x.psint(1, &d.id);
            if let Some(i) = &d.info {
                let mut y = Enc::default();
                y.pint32(1, &i.version);
                y.psint(2, &i.timestamp);
                y.psint(3, &i.changeset);
                y.psint32(4, &i.uid);
                y.psint32(5, &i.user_sid);
                y.pbool(6, &i.visible);
                x.bytes(5, &y.0);
            }
            x.psint(8, &d.lat);
            x.psint(9, &d.lon);
            x.pint32(10, &d.kv);
            ge.bytes(2, &x.0);
        }
        for w in &g.ways {
            let mut x = Enc::default();
            x.int(1, w.id);
            x.puint32(2, &w.keys);
            x.puint32(3, &w.vals);
            if let Some(i) = &w.info {
                x.bytes(4, &info(i));
            }
            x.psint(8, &w.refs);
            x.psint(9, &w.lat);
            x.psint(10, &w.lon);
            ge.bytes(3, &x.0);
        }
        for r in &g.rels {
            let mut x = Enc::default();
            x.int(1, r.id);
            x.puint32(2, &r.keys);
            x.puint32(3, &r.vals);
            if let Some(i) = &r.info {
                x.bytes(4, &info(i));
            }
            x.pint32(8, &r.roles);
            x.psint(9, &r.memids);
            x.pint32(10, &r.types);
            ge.bytes(4, &x.0);
        }
        e.bytes(2, &ge.0);
    }
    e.oint(17, b.granularity.map(|x| x as i64));
    e.oint(18, b.date_granularity.map(|x| x as i64));
    e.oint(19, b.lat_offset);
    e.oint(20, b.lon_offset);
    e.0
}
pub fn header(h: &Header) -> Vec<u8> {
    let mut e = Enc::default();
    if let Some(b) = h.bbox {
        let mut x = Enc::default();
        for i in 0..4 {
            x.sint(i as u32 + 1, b[i]);
        }
        e.bytes(1, &x.0);
    }
    for s in &h.required {
        e.bytes(4, s.as_bytes());
    }
    for s in &h.optional {
        e.bytes(5, s.as_bytes());
    }
    if let Some(s) = &h.program {
        e.bytes(16, s.as_bytes());
    }
    if let Some(s) = &h.source {
        e.bytes(17, s.as_bytes());
    }
    e.oint(32, h.ts);
    e.oint(33, h.seq);
    if let Some(s) = &h.url {
        e.bytes(34, s.as_bytes());
    }
    e.0
}
// ---- other encodings of the same message
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Header,
    Block,
    Group,
    Node,
    Dense,
    DenseInfo,
    Way,
    Rel,
    Leaf,
}
fn sub(k: Kind, f: u32) -> Option<Kind> {
    Some(match (k, f) {
        (Kind::Header, 1) => Kind::Leaf,
        (Kind::Block, 1) => Kind::Leaf,
        (Kind::Block, 2) => Kind::Group,
        (Kind::Group, 1) => Kind::Node,
        (Kind::Group, 2) => Kind::Dense,
        (Kind::Group, 3) => Kind::Way,
        (Kind::Group, 4) => Kind::Rel,
        (Kind::Node, 4) | (Kind::Way, 4) | (Kind::Rel, 4) => Kind::Leaf,
        (Kind::Dense, 5) => Kind::DenseInfo,
        _ => return None,
    })
}
fn packable(k: Kind, f: u32) -> bool {
    matches!((k, f), (Kind::Node | Kind::Way | Kind::Rel, 2 | 3) | (Kind::Dense, 1 | 8..=10) | (Kind::DenseInfo, 1..=6) | (Kind::Way | Kind::Rel, 8..=10))
}
/// the same message with its fields in another order, with unknown fields, with columns in several parts or not packed
pub fn vary(r: &mut Rng, k: Kind, b: &[u8]) -> Vec<u8> {
    let Ok(fields) = wire(b) else { return b.to_vec() };
    let mut queues: Vec<(u32, Vec<Vec<u8>>)> = vec![];
    let mut add = |f: u32, e: Enc| match queues.iter_mut().find(|q| q.0 == f) {
        Some(q) => q.1.push(e.0),
        None => queues.push((f, vec![e.0])),
    };
    for (f, v) in fields {
        let mut e = Enc::default();
        match v {
            Val::Var(x) => {
                if r.chance(1, 10) {
                    e.int(f, 77); // the last one counts
                }
                e.int(f, x as i64)
            }
            Val::Len(x) if packable(k, f) => {
                let vs = varints(&x);
                let mut i = 0;
                while i < vs.len() {
                    if r.chance(1, 20) {
                        e.bytes(f, &[]);
                    }
                    let n = if r.chance(1, 2) { vs.len() - i } else { r.range(1, vs.len() - i) };
                    if r.chance(1, 2) {
                        for v in &vs[i..i + n] {
                            e.int(f, *v as i64);
                        }
                    } else {
                        let mut y = Enc::default();
                        for v in &vs[i..i + n] {
                            y.varint(*v);
                        }
                        e.bytes(f, &y.0);
                    }
                    i += n;
                }
            }
            Val::Len(x) => match sub(k, f) {
                Some(s) if r.chance(2, 3) => e.bytes(f, &vary(r, s, &x)),
                _ => e.bytes(f, &x),
            },
            Val::Fix => return b.to_vec(),
        }
        add(f, e);
    }
    for _ in 0..r.below(3) {
        let mut e = Enc::default();
        let f = *r.pick(&[40u32, 100, 2047, 2048, 100_000]);
        match r.below(3) {
            0 => e.int(f, r.i64v()),
            1 => e.bytes(f, b"\x08\x01ab"),
            _ => {
                e.varint(((f << 3) | 5) as u64);
                e.0.extend([1, 2, 3, 4]);
            }
        }
        add(f, e);
    }
    if k == Kind::Group && r.chance(1, 4) {
        let mut e = Enc::default();
        e.bytes(5, &[8, 1]);
        add(5, e);
    }
    // within one field the order stays
    for q in &mut queues {
        q.1.reverse();
    }
    let whole = r.chance(1, 2);
    let mut out = vec![];
    while !queues.is_empty() {
        let i = r.below(queues.len() as u64) as usize;
        while let Some(x) = queues[i].1.pop() {
            out.extend(x);
            if !whole {
                break;
            }
        }
        if queues[i].1.is_empty() {
            queues.swap_remove(i);
        }
    }
    out
}
/// a block as some writer might store it
pub fn block_as(r: &mut Rng, b: &Block) -> Vec<u8> {
    let x = block(b);
    if r.chance(1, 4) { vary(r, Kind::Block, &x) } else { x }
}
pub fn header_as(r: &mut Rng, h: &Header) -> Vec<u8> {
    let x = header(h);
    if r.chance(1, 4) { vary(r, Kind::Header, &x) } else { x }
}
pub fn zlib(b: &[u8]) -> Vec<u8> {
    use std::io::Write;
    // as different programs do it, stored blocks included
    if b.len() < 200 && hash(b) % 5 == 0 {
        // announced with a smaller window, in pieces of stored content
        let cmf = [0x08u32, 0x18, 0x58, 0x68, 0x78][hash(b) as usize / 5 % 5];
        let flg = (0..256).find(|f| (cmf << 8 | f) % 31 == 0 && f & 0x20 == 0).unwrap();
        let mut z = vec![cmf as u8, flg as u8];
        let k = b.len() / 2;
        for (last, part) in [(0, &b[..k]), (1, &b[k..])] {
            z.push(last);
            z.extend((part.len() as u16).to_le_bytes());
            z.extend((!(part.len() as u16)).to_le_bytes());
            z.extend(part);
        }
        let (x, y) = b.iter().fold((1u32, 0u32), |(x, y), c| ((x + *c as u32) % 65521, (x + *c as u32 + y) % 65521));
        z.extend((y << 16 | x).to_be_bytes());
        return z;
    }
    let level = if b.len() > 1 << 16 { 1 } else { [1, 0, 6, 9][hash(b) as usize % 4] };
    let mut z = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level));
    z.write_all(b).unwrap();
    z.finish().unwrap()
}
pub fn raw_blob(content: &[u8]) -> Vec<u8> {
    let mut e = Enc::default();
    e.bytes(1, content);
    e.0
}
pub fn zlib_blob(content: &[u8]) -> Vec<u8> {
    let mut e = Enc::default();
    e.int(2, content.len() as i64);
    e.bytes(3, &zlib(content));
    e.0
}
/// a blob header as it stands in the file, without its length prefix
pub fn blob_header(ty: &str, size: i32, pad: Option<usize>) -> Vec<u8> {
    let mut e = Enc::default();
    e.bytes(1, ty.as_bytes());
    if let Some(n) = pad {
        e.bytes(2, &vec![7; n]);
    }
    e.int(3, size as i64);
    e.0
}
pub fn frame(ty: &str, blob: &[u8]) -> Vec<u8> {
    frame_padded(ty, blob, None)
}
pub fn frame_padded(ty: &str, blob: &[u8], pad: Option<usize>) -> Vec<u8> {
    let h = blob_header(ty, blob.len() as i32, pad);
    let mut o = (h.len() as u32).to_be_bytes().to_vec();
    o.extend(h);
    o.extend_from_slice(blob);
    o
}

// ---- generation
/// what a generated block should stress
#[derive(Clone, Copy, Default)]
pub struct Cfg {
    /// huge values, columns of different length, indices out of bounds
    pub wild: bool,
    /// element ids are distinct, starting here
    pub distinct_from: Option<i64>,
    pub max: usize,
    /// one column (which one, how long) is much longer than the others
    pub long: Option<(u8, usize)>,
}
/// a length beyond what a few bits or a buffer can hold
pub fn long(r: &mut Rng) -> Option<(u8, usize)> {
    let n = match r.below(10) {
        0..=3 => r.range(10, 300),
        4..=6 => *r.pick(&[127usize, 128, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025]),
        7 | 8 => *r.pick(&[2047usize, 2048, 2049, 4095, 4096, 4097, 5000, 7999, 8000, 8001, 8192, 9000, 10000]),
        _ => *r.pick(&[16383usize, 16384, 16385, 32000, 32767, 32768, 32769, 65535, 65536, 65537, 70000]),
    };
    Some((r.below(12) as u8, n))
}
pub fn gen_strings(r: &mut Rng, long: Option<(u8, usize)>) -> Vec<Vec<u8>> {
    let n = match (long, r.below(6)) {
        (Some((6, n)), _) => n,
        (Some((11, _)), _) => r.range(1, 4),
        (_, 0) => 0,
        (_, 1) => 1,
        _ => r.range(2, 9),
    };
    let mut v: Vec<Vec<u8>> = (0..n)
        .map(|i| match r.below(10) {
            0 => vec![],
            1 => vec![0xff, 0xfe],
            2 => vec![b'a', 0xc3],
            3 => "höher€𝄞".as_bytes().to_vec(),
            4 => vec![0xed, 0xa0, 0x80],
            _ => format!("s{i}").into_bytes(),
        })
        .collect();
    if let Some((11, n)) = long {
        // one long string
        let i = r.below(v.len() as u64) as usize;
        v[i] = match r.below(6) {
            0 => "é".repeat(n / 2 + 1).into_bytes(),
            1 => "x€".repeat(n / 4 + 1).into_bytes(),
            2 => vec![0; n],
            _ => (0..n).map(|k| b'a' + (k % 23) as u8).collect(),
        };
        match r.below(8) {
            0 => *v[i].last_mut().unwrap() = 0xc3, // not UTF-8 at its end
            1 => *v[i].first_mut().unwrap() = 0x80,
            _ => {}
        }
    }
    v
}
fn gen_info(r: &mut Rng, c: Cfg, ns: usize) -> Info {
    Info {
        version: r.opt(|r| r.i32v()),
        timestamp: r.opt(|r| if c.wild { r.i64v() } else { r.below(1 << 40) as i64 }),
        changeset: r.opt(|r| r.i64v()),
        uid: r.opt(|r| r.i32v()),
        user_sid: r.opt(|r| sid(r, ns, c)),
        visible: r.opt(|r| r.chance(1, 2)),
    }
}
fn sid(r: &mut Rng, ns: usize, c: Cfg) -> u32 {
    match r.below(if c.wild { 14 } else { 30 }) {
        0 => ns as u32,
        1 => u32::MAX,
        2 => ns as u32 + r.below(5) as u32,
        3 => i32::MAX as u32 + r.below(3) as u32,
        _ => r.below(ns.max(1) as u64) as u32,
    }
}
fn gen_tags(r: &mut Rng, c: Cfg, ns: usize) -> (Vec<u32>, Vec<u32>) {
    let n = r.range(0, c.max);
    let m = if r.chance(1, 4) { r.range(0, c.max) } else { n };
    (r.vec(n, |r| sid(r, ns, c)), r.vec(m, |r| sid(r, ns, c)))
}
/// three column lengths, usually equal
fn lens(r: &mut Rng, c: Cfg) -> [usize; 3] {
    let n = r.range(0, c.max);
    let mut l = [n; 3];
    if r.chance(1, 3) {
        let k = r.below(3) as usize;
        l[k] = r.range(0, c.max + 1);
        if r.chance(1, 2) {
            let k = r.below(3) as usize;
            l[k] = r.range(0, c.max + 1);
        }
    }
    l
}
fn coord(r: &mut Rng, c: Cfg) -> i64 {
    if c.wild { r.i64v() } else { r.below(3_600_000_000) as i64 - 1_800_000_000 }
}
pub struct Ids {
    next: Option<i64>,
    last: i64,
    /// some elements have the id of the one before
    again: bool,
}
impl Ids {
    fn get(&mut self, r: &mut Rng) -> i64 {
        if self.again && r.chance(1, 2) {
            return self.last;
        }
        self.last = match &mut self.next {
            Some(n) => {
                *n += 1 + r.below(3) as i64;
                *n
            }
            None => r.i64v(),
        };
        self.last
    }
}
pub fn gen_dense(r: &mut Rng, c: Cfg, ns: usize, ids: &mut Ids) -> Dense {
    let [mut a, b, d] = lens(r, c);
    let id: Vec<i64> = if ids.next.is_some() || ids.again {
        let mut last = 0i64;
        (0..a)
            .map(|_| {
                let x = ids.get(r);
                let dlt = x.wrapping_sub(last);
                last = x;
                dlt
            })
            .collect()
    } else {
        r.vec(a, |r| r.i64v())
    };
    a = id.len();
    let n = a.min(b).min(d);
    let kv = match r.below(5) {
        0 => vec![],
        1 => {
            let l = r.range(0, 3 * c.max + 2);
            r.vec(l, |r| match r.below(3) {
                0 => 0,
                1 => r.i32v(),
                _ => sid(r, ns, c) as i32,
            })
        }
        _ => {
            let mut v = vec![];
            for _ in 0..n {
                for _ in 0..r.range(0, 3) {
                    v.push(1 + r.below(ns.max(2) as u64 - 1) as i32);
                    v.push(sid(r, ns, c) as i32);
                }
                v.push(0);
            }
            if r.chance(1, 4) {
                v.pop();
            }
            if r.chance(1, 6) {
                v.push(1);
            }
            v
        }
    };
    let info = r.opt(|r| {
        let mut ls = [n; 6];
        if r.chance(1, 3) {
            for _ in 0..r.range(1, 3) {
                ls[r.below(6) as usize] = r.range(0, n + 1);
            }
        }
        if r.chance(1, 3) {
            ls[5] = 0;
        }
        let mut s = 0i32;
        DenseInfo {
            version: r.vec(ls[0], |r| r.i32v()),
            timestamp: r.vec(ls[1], |r| r.i64v()),
            changeset: r.vec(ls[2], |r| r.i64v()),
            uid: r.vec(ls[3], |r| r.i32v()),
            user_sid: r.vec(ls[4], |r| {
                if c.wild && r.chance(1, 4) {
                    return r.i32v();
                }
                let t = r.below(ns.max(1) as u64) as i32;
                let dlt = t.wrapping_sub(s);
                s = t;
                dlt
            }),
            visible: r.vec(ls[5], |r| r.chance(1, 2)),
        }
    });
    let lat = r.vec(b, |r| coord(r, c));
    let lon = r.vec(d, |r| coord(r, c));
    Dense { id, lat, lon, kv, info }
}
pub fn gen_block(r: &mut Rng, c: Cfg) -> Block {
    let strings = gen_strings(r, c.long);
    let ns = strings.len();
    let mut ids = Ids { next: c.distinct_from, last: 0, again: r.chance(1, 6) };
    let ng = r.range(0, 4);
    let mut groups: Vec<Group> = (0..ng)
        .map(|_| {
            let shape = r.below(8);
            let has = |k: u64, r: &mut Rng| shape == k || shape == 5 && r.chance(1, 2) || shape == 6;
            let mut g = Group::default();
            if has(0, r) {
                for _ in 0..r.range(0, c.max) {
                    let (keys, vals) = gen_tags(r, c, ns);
                    g.nodes.push(Node { id: ids.get(r), keys, vals, info: r.opt(|r| gen_info(r, c, ns)), lat: coord(r, c), lon: coord(r, c) });
                }
            }
            if has(1, r) || shape == 4 {
                g.dense = Some(gen_dense(r, c, ns, &mut ids));
            }
            if has(2, r) {
                for _ in 0..r.range(0, c.max) {
                    let (keys, vals) = gen_tags(r, c, ns);
                    let id = ids.get(r);
                    let n = r.range(0, c.max);
                    let [a, b, _] = lens(r, c);
                    let loc = r.chance(1, 2);
                    g.ways.push(Way {
                        id,
                        keys,
                        vals,
                        info: r.opt(|r| gen_info(r, c, ns)),
                        refs: r.vec(n, |r| r.i64v()),
                        lat: if loc { r.vec(a, |r| coord(r, c)) } else { vec![] },
                        lon: if loc { r.vec(b, |r| coord(r, c)) } else { vec![] },
                    });
                }
            }
            if has(3, r) {
                for _ in 0..r.range(0, c.max) {
                    let (keys, vals) = gen_tags(r, c, ns);
                    let id = ids.get(r);
                    let [a, b, d] = lens(r, c);
                    let bad_type = r.chance(1, 3);
                    g.rels.push(Rel {
                        id,
                        keys,
                        vals,
                        info: r.opt(|r| gen_info(r, c, ns)),
                        roles: r.vec(a, |r| if c.wild && r.chance(1, 4) { r.i32v() } else { sid(r, ns, c) as i32 }),
                        memids: r.vec(b, |r| r.i64v()),
                        types: r.vec(d, |r| if bad_type && r.chance(1, 4) { *r.pick(&[3, -1, 7, i32::MAX, i32::MIN]) } else { r.below(3) as i32 }),
                    });
                }
            }
            g
        })
        .collect();
    if let Some((k, n)) = c.long {
        stretch(r, c, ns, &mut ids, &mut groups, k, n);
    }
    Block {
        strings,
        groups,
        granularity: r.opt(|r| if c.wild { r.i32v() } else { *r.pick(&[1, 10, 100, 1000]) }),
        lat_offset: r.opt(|r| if c.wild { r.i64v() } else { r.below(1_000_000) as i64 - 500_000 }),
        lon_offset: r.opt(|r| if c.wild { r.i64v() } else { r.below(1_000_000) as i64 - 500_000 }),
        date_granularity: r.opt(|r| if c.wild { r.i32v() } else { *r.pick(&[1, 1000]) }),
    }
}
/// make one column of one element, or the number of elements or groups, this long
fn stretch(r: &mut Rng, c: Cfg, ns: usize, ids: &mut Ids, groups: &mut Vec<Group>, k: u8, n: usize) {
    if groups.is_empty() {
        groups.push(Group::default());
    }
    let wide = Cfg { max: n, ..c };
    let good = Cfg { wild: false, ..c };
    let gi = r.below(groups.len() as u64) as usize;
    // mostly indices that are in bounds
    let sid = |r: &mut Rng| if ns > 0 && !r.chance(1, 4 * n as u64) { r.below(ns as u64) as u32 } else { sid(r, ns, good) };
    let g = &mut groups[gi];
    match k {
        0 => {
            let (keys, vals) = (r.vec(n, sid), r.vec(n, sid));
            match r.below(3) {
                0 => g.nodes.push(Node { id: ids.get(r), keys, vals, ..Default::default() }),
                1 => g.ways.push(Way { id: ids.get(r), keys, vals, ..Default::default() }),
                _ => g.rels.push(Rel { id: ids.get(r), keys, vals, ..Default::default() }),
            }
        }
        1 => {
            let mut d = gen_dense(r, Cfg { max: 0, ..c }, ns, ids);
            while d.n() < n / 2 {
                d = gen_dense(r, wide, ns, ids);
            }
            g.dense = Some(d);
        }
        2 => {
            let mut kv = vec![];
            for i in 0..3 {
                for _ in 0..if i == 1 { n } else { 1 } {
                    kv.push(1 + r.below(ns.max(2) as u64 - 1) as i32);
                    kv.push(sid(r) as i32);
                }
                kv.push(0);
            }
            let mut id = vec![];
            let mut last = 0i64;
            for _ in 0..3 {
                let x = ids.get(r);
                id.push(x.wrapping_sub(last));
                last = x;
            }
            g.dense = Some(Dense { id, lat: r.vec(3, |r| coord(r, c)), lon: r.vec(3, |r| coord(r, c)), kv, info: None });
        }
        3 => g.ways.push(Way { id: ids.get(r), refs: r.vec(n, |r| r.i64v()), ..Default::default() }),
        4 => g.ways.push(Way { id: ids.get(r), refs: r.vec(3, |r| r.i64v()), lat: r.vec(n, |r| coord(r, c)), lon: r.vec(n, |r| coord(r, c)), ..Default::default() }),
        5 => g.rels.push(Rel {
            id: ids.get(r),
            roles: r.vec(n, |r| sid(r) as i32),
            memids: r.vec(n, |r| r.i64v()),
            types: r.vec(n, |r| r.below(3) as i32),
            ..Default::default()
        }),
        6 | 11 => {
            // a long string table or string, with indices all over it
            let (keys, vals) = (r.vec(9, sid), r.vec(9, sid));
            g.nodes.push(Node { id: ids.get(r), keys: keys.clone(), vals: vals.clone(), info: Some(Info { user_sid: Some(sid(r)), ..Default::default() }), ..Default::default() });
            g.rels.push(Rel { id: ids.get(r), keys, vals, roles: r.vec(9, |r| sid(r) as i32), memids: vec![1; 9], types: vec![0; 9], ..Default::default() });
        }
        7 => {
            for _ in 0..n {
                g.nodes.push(Node { id: ids.get(r), lat: coord(r, c), lon: coord(r, c), ..Default::default() });
            }
        }
        8 => {
            for _ in 0..n {
                g.ways.push(Way { id: ids.get(r), refs: vec![1], ..Default::default() });
            }
        }
        9 => {
            for _ in 0..n {
                g.rels.push(Rel { id: ids.get(r), ..Default::default() });
            }
        }
        10 if r.chance(1, 2) => {
            // groups of the same kind, mostly empty ones
            let g = match r.below(8) {
                0 => Group { nodes: vec![Node { id: ids.get(r), ..Default::default() }], ..Default::default() },
                1 => Group { ways: vec![Way { id: ids.get(r), ..Default::default() }], ..Default::default() },
                2 => Group { dense: Some(Dense::default()), ..Default::default() },
                _ => Group::default(),
            };
            let g = if c.distinct_from.is_some() && g.dense.is_none() { Group::default() } else { g };
            let at = r.range(0, groups.len());
            groups.splice(at..at, std::iter::repeat_n(g, n));
        }
        _ => {
            let n = n.min(9000);
            while groups.len() < n {
                let mut g = Group::default();
                match r.below(6) {
                    0 => g.nodes.push(Node { id: ids.get(r), ..Default::default() }),
                    1 => g.ways.push(Way { id: ids.get(r), ..Default::default() }),
                    2 => g.rels.push(Rel { id: ids.get(r), ..Default::default() }),
                    3 => g.dense = Some(gen_dense(r, Cfg { max: 1, ..c }, ns, ids)),
                    _ => {}
                }
                groups.push(g);
            }
        }
    }
}
/// the last id given out in a block with distinct ids
pub fn max_id(b: &Block) -> i64 {
    let mut m = i64::MIN;
    for g in &b.groups {
        for n in &g.nodes {
            m = m.max(n.id);
        }
        for i in sums(&g.dense().id) {
            m = m.max(i);
        }
        for w in &g.ways {
            m = m.max(w.id);
        }
        for w in &g.rels {
            m = m.max(w.id);
        }
    }
    m
}
pub fn gen_header(r: &mut Rng) -> Header {
    let word = |r: &mut Rng| {
        if r.chance(1, 60) {
            let n = *r.pick(&[31, 64, 127, 128, 255, 256, 300, 1024, 4097, 65536]);
            return ["x", "ü", "€a "][r.below(3) as usize].repeat(n);
        }
        r.pick(&["", "OsmSchema-V0.6", "DenseNodes", "a", "ü€", "osmium/1.16", "http://x.y/z", " a ", "a\0b", "LocationsOnWays", "HistoricalInformation", "Sort.Type_then_ID"]).to_string()
    };
    let top = if r.chance(1, 40) { *r.pick(&[9usize, 17, 33, 65, 128, 257, 1025]) } else { 4 };
    let n = r.range(0, top);
    let m = r.range(0, top);
    Header {
        bbox: r.opt(|r| [r.i64v(), r.i64v(), r.i64v(), r.i64v()]),
        required: r.vec(n, word),
        optional: r.vec(m, word),
        program: r.opt(word),
        source: r.opt(word),
        ts: r.opt(|r| r.i64v()),
        seq: r.opt(|r| r.i64v()),
        url: r.opt(word),
    }
}
