//! C01..C07, C16, C18: a decoded block against what was stored.
use crate::model::*;
use crate::util::*;
use crate::want;
use osmpbf as o;
use std::io::Cursor;

pub fn decode(bytes: &[u8]) -> Res<o::PrimitiveBlock> {
    let mut rd = o::BlobReader::new(Cursor::new(bytes));
    let b = rd.next().ok_or("no blob")?.map_err(|e| format!("blob not read: {e}"))?;
    b.to_primitiveblock().map_err(|e| format!("valid block not decoded: {e}"))
}
pub fn nano(off: Option<i64>, gran: Option<i32>, v: i64) -> i64 {
    off.unwrap_or(0).wrapping_add((gran.unwrap_or(100) as i64).wrapping_mul(v))
}
fn coords(b: &Block, what: &str, lat: i64, lon: i64, nanos: (i64, i64), dec: (i32, i32), deg: (f64, f64)) -> Res {
    let el = nano(b.lat_offset, b.granularity, lat);
    let eo = nano(b.lon_offset, b.granularity, lon);
    want!(format!("{what} nano_lat"), nanos.0, el);
    want!(format!("{what} nano_lon"), nanos.1, eo);
    if let Ok(x) = i32::try_from(el / 100) {
        want!(format!("{what} decimicro_lat"), dec.0, x);
    }
    if let Ok(x) = i32::try_from(eo / 100) {
        want!(format!("{what} decimicro_lon"), dec.1, x);
    }
    want!(format!("{what} lat"), deg.0.to_bits(), (1e-9 * el as f64).to_bits());
    want!(format!("{what} lon"), deg.1.to_bits(), (1e-9 * eo as f64).to_bits());
    Ok(())
}
fn text(b: &Block, i: usize) -> Option<&str> {
    b.strings.get(i).and_then(|s| std::str::from_utf8(s).ok())
}
/// the tags at these index pairs, up to the first that has no text
fn texts(b: &Block, t: impl Iterator<Item = (usize, usize)>) -> Vec<(String, String)> {
    let mut v = vec![];
    for (k, x) in t {
        match (text(b, k), text(b, x)) {
            (Some(k), Some(x)) => v.push((k.to_string(), x.to_string())),
            _ => break,
        }
    }
    v
}
fn lookup(b: &Block, what: &str, idx: i64, got: Result<&str, o::Error>) -> Res {
    match usize::try_from(idx).ok().and_then(|i| b.strings.get(i)) {
        None => match got {
            Err(e) => match e.kind() {
                o::ErrorKind::StringtableIndexOutOfBounds { index } => {
                    if idx >= 0 {
                        want!(format!("{what}: index in the error"), *index as i64, idx);
                    }
                    Ok(())
                }
                k => Err(format!("{what}: index {idx} is out of bounds, but got error {k:?}")),
            },
            Ok(s) => Err(format!("{what}: index {idx} is out of bounds, but got {s:?}")),
        },
        Some(s) => match (std::str::from_utf8(s), got) {
            (Ok(x), Ok(g)) => {
                want!(what, g, x);
                Ok(())
            }
            (Err(_), Err(e)) => match e.kind() {
                o::ErrorKind::StringtableUtf8 { index, .. } => {
                    want!(format!("{what}: index in the error"), *index as i64, idx);
                    Ok(())
                }
                k => Err(format!("{what}: entry {idx} is not text, but got error {k:?}")),
            },
            (_, g) => Err(format!("{what}: entry {idx} gave {g:?}")),
        },
    }
}
/// the announced length before every step, and at the end
fn count<I: Iterator + ExactSizeIterator + Clone>(what: &str, it: I) -> Res {
    let mut n = 0usize;
    let mut c = it.clone();
    while c.next().is_some() {
        n += 1;
    }
    for k in [0, 1, n / 2, n.saturating_sub(1)] {
        if k < n {
            let mut it = it.clone();
            it.nth(k);
            want!(format!("{what}: size_hint behind nth({k}) of {n}"), it.size_hint(), (n - k - 1, Some(n - k - 1)));
            want!(format!("{what}: len behind nth({k}) of {n}"), it.len(), n - k - 1);
        }
    }
    let mut it = it;
    for left in (0..=n).rev() {
        want!(format!("{what}: size_hint with {left} of {n} left"), it.size_hint(), (left, Some(left)));
        want!(format!("{what}: len with {left} of {n} left"), it.len(), left);
        let x = it.next();
        want!(format!("{what}: an item with {left} of {n} left"), x.is_some(), left > 0);
    }
    Ok(())
}
/// whatever way an iterator is used, it gives what `next` gives
pub fn laws<I: Iterator, K: PartialEq + std::fmt::Debug + Clone>(what: &str, mk: impl Fn() -> I, key: impl Fn(I::Item) -> K) -> Res {
    let mut all: Vec<K> = vec![];
    let mut it = mk();
    while let Some(x) = it.next() {
        all.push(key(x));
        if all.len() > 2_000_000 {
            return Err(format!("{what}: no end"));
        }
    }
    let n = all.len();
    want!(format!("{what}: count"), mk().count(), n);
    want!(format!("{what}: last"), mk().last().map(&key), all.last().cloned());
    let mut v = vec![];
    mk().for_each(|x| v.push(key(x)));
    want!(format!("{what}: for_each"), &v, &all);
    let v = mk().fold(vec![], |mut v, x| {
        v.push(key(x));
        v
    });
    want!(format!("{what}: fold"), &v, &all);
    want!(format!("{what}: collect"), mk().map(&key).collect::<Vec<_>>(), all.clone());
    let mut seen = 0;
    want!(format!("{what}: all"), mk().all(|x| { seen += 1; all.get(seen - 1) == Some(&key(x)) }), true);
    want!(format!("{what}: items given to all"), seen, n);
    want!(format!("{what}: any"), mk().any(|_| true), n > 0);
    want!(format!("{what}: any of none"), mk().any(|_| false), false);
    let ks: Vec<usize> = if n <= 5 { (0..=n + 1).collect() } else { vec![0, 1, n / 2, n - 1, n, n + 1] };
    for k in ks {
        want!(format!("{what}: nth({k}) of {n}"), mk().nth(k).map(&key), all.get(k).cloned());
        want!(format!("{what}: skip({k}) of {n}"), mk().skip(k).map(&key).collect::<Vec<_>>(), all[k.min(n)..].to_vec());
        want!(format!("{what}: take({k}) of {n}"), mk().take(k).map(&key).collect::<Vec<_>>(), all[..k.min(n)].to_vec());
        let mut i = 0;
        let f = mk().find(|_| {
            i += 1;
            i == k + 1
        });
        want!(format!("{what}: find item {k} of {n}"), f.map(&key), all.get(k).cloned());
        let mut i = 0;
        let f = mk().position(|_| {
            i += 1;
            i == k + 1
        });
        want!(format!("{what}: position {k} of {n}"), f, if k < n { Some(k) } else { None });
        if k >= n {
            continue;
        }
        // in the middle
        let mid = || {
            let mut it = mk();
            it.nth(k);
            it
        };
        let rest = all[k + 1..].to_vec();
        want!(format!("{what}: behind nth({k}) of {n}"), mid().map(&key).collect::<Vec<_>>(), rest.clone());
        want!(format!("{what}: count behind nth({k}) of {n}"), mid().count(), rest.len());
        let mid = || {
            let mut it = mk();
            for _ in 0..=k {
                it.next();
            }
            it
        };
        want!(format!("{what}: count behind item {k} of {n}"), mid().count(), rest.len());
        want!(format!("{what}: last behind item {k} of {n}"), mid().last().map(&key), rest.last().cloned());
        want!(format!("{what}: nth(0) behind item {k} of {n}"), mid().nth(0).map(&key), rest.first().cloned());
        want!(format!("{what}: nth(1) behind item {k} of {n}"), mid().nth(1).map(&key), rest.get(1).cloned());
        let v = mid().fold(vec![], |mut v, x| {
            v.push(key(x));
            v
        });
        want!(format!("{what}: fold behind item {k} of {n}"), &v, &rest);
        if k > 0 {
            want!(format!("{what}: every {k}th of {n}"), mk().step_by(k).map(&key).collect::<Vec<_>>(), all.iter().step_by(k).cloned().collect::<Vec<_>>());
        }
        let mut it = mid();
        let first: Vec<K> = it.by_ref().take(1).map(&key).collect();
        let mut got = first;
        if !got.is_empty() {
            got.extend(it.map(&key));
        }
        want!(format!("{what}: in two parts behind item {k} of {n}"), &got, &rest);
    }
    Ok(())
}
/// a copy goes its own way
pub fn copies<I: Iterator + Clone, K: PartialEq + std::fmt::Debug + Clone>(what: &str, it: I, key: impl Fn(I::Item) -> K) -> Res {
    laws(what, || it.clone(), &key)?;
    let mut a = it.clone();
    a.next();
    laws(&format!("a copy in the middle of {what}"), || a.clone(), &key)?;
    let n = it.clone().count();
    want!(format!("{what}: after copies of it were used"), it.map(&key).count(), n);
    Ok(())
}
fn mem(g: &o::RelMember) -> (i64, i32, u8) {
    let ty = match g.member_type {
        o::RelMemberType::Node => 0,
        o::RelMemberType::Way => 1,
        o::RelMemberType::Relation => 2,
    };
    (g.member_id, g.role_sid, ty)
}
fn dn(d: &o::DenseNode) -> (i64, i64, i64, Vec<(i32, i32)>, Option<(i32, i64, i64, i32, bool)>) {
    (d.id(), d.nano_lat(), d.nano_lon(), d.raw_tags().collect(), d.info().map(|i| (i.version(), i.milli_timestamp(), i.changeset(), i.uid(), i.visible())))
}
fn ts(b: &Block, t: i64) -> i64 {
    (b.date_granularity.unwrap_or(1000) as i64).wrapping_mul(t)
}

pub struct Q<'a> {
    pub prop: u32,
    pub b: &'a Block,
    /// check that the iterators are consistent in themselves too
    pub laws: bool,
}
/// the columns of the dense nodes of a group, decoded
struct Cols {
    id: Vec<i64>,
    lat: Vec<i64>,
    lon: Vec<i64>,
    tags: Vec<Vec<(i32, i32)>>,
    version: Vec<i32>,
    timestamp: Vec<i64>,
    changeset: Vec<i64>,
    uid: Vec<i32>,
    user_sid: Vec<i32>,
    visible: Vec<bool>,
}
impl Cols {
    fn of(m: &Dense) -> Cols {
        let i = m.info.clone().unwrap_or_default();
        Cols {
            id: sums(&m.id),
            lat: sums(&m.lat),
            lon: sums(&m.lon),
            tags: split_tags(&m.kv, m.n()),
            version: i.version,
            timestamp: sums(&i.timestamp),
            changeset: sums(&i.changeset),
            uid: sums32(&i.uid),
            user_sid: sums32(&i.user_sid),
            visible: i.visible,
        }
    }
}
impl Q<'_> {
    fn p(&self, n: u32) -> bool {
        self.prop == n
    }
    fn info(&self, what: &str, m: Option<&Info>, i: o::Info) -> Res {
        let z = Info::default();
        let m = m.unwrap_or(&z);
        if self.p(16) {
            want!(format!("{what} version"), i.version(), m.version);
            want!(format!("{what} timestamp"), i.milli_timestamp(), m.timestamp.map(|t| ts(self.b, t)));
            want!(format!("{what} changeset"), i.changeset(), m.changeset);
            want!(format!("{what} uid"), i.uid(), m.uid);
            want!(format!("{what} user is there"), i.user().is_some(), m.user_sid.is_some());
            want!(format!("{what} visible"), i.visible(), m.visible != Some(false));
            want!(format!("{what} deleted"), i.deleted(), m.visible == Some(false));
        }
        if self.p(16) || self.p(6) {
            if let (Some(u), Some(s)) = (i.user(), m.user_sid) {
                lookup(self.b, &format!("{what} user"), s as i64, u)?;
            }
        }
        Ok(())
    }
    fn tags<'b>(&self, what: &str, k: &[u32], v: &[u32], raw: impl Iterator<Item = (u32, u32)> + Clone + ExactSizeIterator, tags: impl Iterator<Item = (&'b str, &'b str)> + Clone + ExactSizeIterator) -> Res {
        let pairs: Vec<(u32, u32)> = k.iter().copied().zip(v.iter().copied()).collect();
        if self.p(6) && self.laws {
            copies(&format!("{what} raw tags"), raw.clone(), |x| x)?;
            copies(&format!("{what} tags"), tags.clone(), |x| x)?;
        }
        if self.p(6) {
            want!(format!("{what} raw tags"), raw.collect::<Vec<_>>(), pairs.clone());
            let got: Vec<_> = tags.map(|(a, b)| (a.to_string(), b.to_string())).collect();
            want!(format!("{what} tags"), got, texts(self.b, pairs.iter().map(|x| (x.0 as usize, x.1 as usize))));
        } else if self.p(18) && k.len() == v.len() {
            count(&format!("{what} raw tags"), raw)?;
            if texts(self.b, pairs.iter().map(|x| (x.0 as usize, x.1 as usize))).len() == pairs.len() {
                count(&format!("{what} tags"), tags)?;
            }
        }
        Ok(())
    }
    fn node(&self, what: &str, m: &Node, n: &o::Node) -> Res {
        if self.p(7) {
            want!(format!("{what} id"), n.id(), m.id);
        }
        if self.p(3) {
            coords(self.b, what, m.lat, m.lon, (n.nano_lat(), n.nano_lon()), (n.decimicro_lat(), n.decimicro_lon()), (n.lat(), n.lon()))?;
        }
        self.info(what, m.info.as_ref(), n.info())?;
        if self.p(7) || self.p(6) {
            want!(format!("{what} string table"), n.raw_stringtable(), &self.b.strings[..]);
        }
        self.tags(what, &m.keys, &m.vals, n.raw_tags(), n.tags())
    }
    fn way(&self, what: &str, m: &Way, w: &o::Way) -> Res {
        if self.p(7) || self.p(4) {
            want!(format!("{what} id"), w.id(), m.id);
        }
        let n = m.lat.len().min(m.lon.len());
        if self.p(4) {
            want!(format!("{what} raw refs"), w.raw_refs(), &m.refs[..]);
            want!(format!("{what} refs"), w.refs().take(m.refs.len() + 9).collect::<Vec<_>>(), sums(&m.refs));
        }
        if self.laws && self.p(4) {
            copies(&format!("{what} refs"), w.refs(), |x| x)?;
        }
        if self.laws && (self.p(4) || self.p(3)) {
            copies(&format!("{what} locations"), w.node_locations(), |l| (l.nano_lat(), l.nano_lon()))?;
        }
        if self.p(4) || self.p(3) {
            let (la, lo) = (sums(&m.lat), sums(&m.lon));
            let got: Vec<_> = w.node_locations().take(n + 9).collect();
            want!(format!("{what} number of node locations"), got.len(), n);
            for (k, l) in got.iter().enumerate() {
                coords(self.b, &format!("{what} location {k}"), la[k], lo[k], (l.nano_lat(), l.nano_lon()), (l.decimicro_lat(), l.decimicro_lon()), (l.lat(), l.lon()))?;
            }
        }
        if self.p(18) {
            count(&format!("{what} refs"), w.refs())?;
            if m.lat.len() == m.lon.len() {
                count(&format!("{what} locations"), w.node_locations())?;
            }
        }
        self.info(what, m.info.as_ref(), w.info())?;
        if self.p(7) || self.p(6) {
            want!(format!("{what} string table"), w.raw_stringtable(), &self.b.strings[..]);
        }
        self.tags(what, &m.keys, &m.vals, w.raw_tags(), w.tags())
    }
    fn rel(&self, what: &str, m: &Rel, x: &o::Relation) -> Res {
        if self.p(7) || self.p(5) {
            want!(format!("{what} id"), x.id(), m.id);
        }
        if self.laws && self.p(5) {
            copies(&format!("{what} members"), x.members(), |g| mem(&g))?;
        }
        if self.p(5) || self.p(6) {
            let n = m.roles.len().min(m.memids.len()).min(m.types.len());
            let n = m.types[..n].iter().position(|t| !(0..3).contains(t)).unwrap_or(n);
            let ids = sums(&m.memids);
            let got: Vec<_> = x.members().take(n + 9).collect();
            want!(format!("{what} number of members"), got.len(), n);
            for (k, g) in got.iter().enumerate() {
                if self.p(5) {
                    want!(format!("{what} member {k} id"), g.member_id, ids[k]);
                    want!(format!("{what} member {k} role index"), g.role_sid, m.roles[k]);
                    want!(format!("{what} member {k} type"), mem(g).2 as i32, m.types[k]);
                }
                lookup(self.b, &format!("{what} member {k} role"), m.roles[k] as i64, g.role())?;
            }
        }
        if self.p(18) && m.roles.len() == m.memids.len() && m.memids.len() == m.types.len() && m.types.iter().all(|t| (0..3).contains(t)) {
            count(&format!("{what} members"), x.members())?;
        }
        self.info(what, m.info.as_ref(), x.info())?;
        if self.p(7) || self.p(6) {
            want!(format!("{what} string table"), x.raw_stringtable(), &self.b.strings[..]);
        }
        self.tags(what, &m.keys, &m.vals, x.raw_tags(), x.tags())
    }
    fn dense(&self, what: &str, m: &Cols, k: usize, d: &o::DenseNode) -> Res {
        if self.p(1) || self.p(7) {
            want!(format!("{what} id"), d.id(), m.id[k]);
            want!(format!("{what} id field"), d.id, m.id[k]);
        }
        let (la, lo) = (m.lat[k], m.lon[k]);
        if self.p(1) {
            want!(format!("{what} nano_lat"), d.nano_lat(), nano(self.b.lat_offset, self.b.granularity, la));
            want!(format!("{what} nano_lon"), d.nano_lon(), nano(self.b.lon_offset, self.b.granularity, lo));
        }
        if self.p(3) {
            coords(self.b, what, la, lo, (d.nano_lat(), d.nano_lon()), (d.decimicro_lat(), d.decimicro_lon()), (d.lat(), d.lon()))?;
        }
        let t = &m.tags[k];
        if self.laws && (self.p(2) || self.p(6)) {
            copies(&format!("{what} raw tags"), d.raw_tags(), |x| x)?;
            copies(&format!("{what} tags"), d.tags(), |x| x)?;
        }
        if self.p(2) {
            want!(format!("{what} raw tags"), d.raw_tags().collect::<Vec<_>>(), t.clone());
        }
        let tt = texts(self.b, t.iter().map(|x| (x.0 as usize, x.1 as usize)));
        if self.p(6) || self.p(2) {
            let got: Vec<_> = d.tags().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            want!(format!("{what} tags"), got, tt);
        } else if self.p(18) {
            count(&format!("{what} raw tags"), d.raw_tags())?;
            if tt.len() == t.len() {
                count(&format!("{what} tags"), d.tags())?;
            }
        }
        let has = [m.version.len(), m.timestamp.len(), m.changeset.len(), m.uid.len(), m.user_sid.len()].iter().all(|l| *l > k);
        if self.p(16) {
            want!(format!("{what} has metadata"), d.info().is_some(), has);
        }
        if let (Some(i), true) = (d.info(), has) {
            if self.p(16) {
                want!(format!("{what} version"), i.version(), m.version[k]);
                want!(format!("{what} timestamp"), i.milli_timestamp(), ts(self.b, m.timestamp[k]));
                want!(format!("{what} changeset"), i.changeset(), m.changeset[k]);
                want!(format!("{what} uid"), i.uid(), m.uid[k]);
                let vis = m.visible.get(k).copied().unwrap_or(true);
                want!(format!("{what} visible"), i.visible(), vis);
                want!(format!("{what} deleted"), i.deleted(), !vis);
            }
            if self.p(16) || self.p(6) {
                lookup(self.b, &format!("{what} user"), m.user_sid[k] as i64, i.user())?;
            }
        }
        Ok(())
    }
    pub fn groups(&self, pb: &o::PrimitiveBlock) -> Res {
        want!("number of groups", pb.groups().take(self.b.groups.len() + 9).count(), self.b.groups.len());
        if self.p(18) {
            count("groups", pb.groups())?;
        }
        if self.laws && self.p(7) {
            copies("groups", pb.groups(), |g| (g.nodes().count(), g.dense_nodes().count(), g.ways().count(), g.relations().count()))?;
            copies("elements()", pb.elements(), |e| seen(&e))?;
        }
        for (gi, (g, pg)) in self.b.groups.iter().zip(pb.groups()).enumerate() {
            let d = g.dense();
            if self.p(18) {
                count(&format!("group {gi} nodes"), pg.nodes())?;
                count(&format!("group {gi} ways"), pg.ways())?;
                count(&format!("group {gi} relations"), pg.relations())?;
                if d.id.len() == d.lat.len() && d.lat.len() == d.lon.len() {
                    count(&format!("group {gi} dense nodes"), pg.dense_nodes())?;
                }
            }
            if self.laws && (self.p(1) || self.p(2) || self.p(7) || self.p(16)) {
                copies(&format!("group {gi} dense nodes"), pg.dense_nodes(), |x| dn(&x))?;
            }
            if self.laws && self.p(7) {
                copies(&format!("group {gi} nodes"), pg.nodes(), |x| x.id())?;
                copies(&format!("group {gi} ways"), pg.ways(), |x| x.id())?;
                copies(&format!("group {gi} relations"), pg.relations(), |x| x.id())?;
            }
            let ns: Vec<_> = pg.nodes().take(g.nodes.len() + 9).collect();
            want!(format!("group {gi} number of nodes"), ns.len(), g.nodes.len());
            for (k, n) in ns.iter().enumerate() {
                self.node(&format!("group {gi} node {k}"), &g.nodes[k], n)?;
            }
            let ds: Vec<_> = pg.dense_nodes().take(d.n() + 9).collect();
            want!(format!("group {gi} number of dense nodes"), ds.len(), d.n());
            let cols = Cols::of(&d);
            for (k, n) in ds.iter().enumerate() {
                self.dense(&format!("group {gi} dense node {k}"), &cols, k, n)?;
            }
            let ws: Vec<_> = pg.ways().take(g.ways.len() + 9).collect();
            want!(format!("group {gi} number of ways"), ws.len(), g.ways.len());
            for (k, n) in ws.iter().enumerate() {
                self.way(&format!("group {gi} way {k}"), &g.ways[k], n)?;
            }
            let rs: Vec<_> = pg.relations().take(g.rels.len() + 9).collect();
            want!(format!("group {gi} number of relations"), rs.len(), g.rels.len());
            for (k, n) in rs.iter().enumerate() {
                self.rel(&format!("group {gi} relation {k}"), &g.rels[k], n)?;
            }
        }
        Ok(())
    }
}

/// an element as seen in a traversal: kind and id
pub type Seen = (char, i64);
pub fn seen(e: &o::Element) -> Seen {
    match e {
        o::Element::Node(x) => ('n', x.id()),
        o::Element::DenseNode(x) => ('d', x.id()),
        o::Element::Way(x) => ('w', x.id()),
        o::Element::Relation(x) => ('r', x.id()),
    }
}
/// per group: nodes, dense nodes, ways, relations
pub fn stored(g: &Group) -> [Vec<Seen>; 4] {
    [
        g.nodes.iter().map(|x| ('n', x.id)).collect(),
        g.dense().ids().into_iter().map(|x| ('d', x)).collect(),
        g.ways.iter().map(|x| ('w', x.id)).collect(),
        g.rels.iter().map(|x| ('r', x.id)).collect(),
    ]
}
/// got holds the elements of these groups, group after group, each kind in order; gives what is left
pub fn groups_in_order<'a>(what: &str, gs: &[Group], mut got: &'a [Seen]) -> Res<&'a [Seen]> {
    for (gi, g) in gs.iter().enumerate() {
        let exp = stored(g);
        let n: usize = exp.iter().map(|x| x.len()).sum();
        if got.len() < n {
            return Err(format!("{what}: group {gi} has {n} elements, but only {:?} are left", got));
        }
        for (i, c) in ['n', 'd', 'w', 'r'].iter().enumerate() {
            let k: Vec<Seen> = got[..n].iter().filter(|x| x.0 == *c).copied().collect();
            want!(format!("{what}: group {gi}, kind {c}"), k, exp[i].clone());
        }
        got = &got[n..];
    }
    Ok(got)
}

pub fn case(prop: u32, r: &mut Rng, idx: u64) -> Res<(bool, u64, String)> {
    let max = 1 + (idx % 5) as usize;
    let c = Cfg { wild: prop != 7 && r.chance(1, 2), distinct_from: if prop == 7 { Some(r.below(100) as i64) } else { None }, max, long: None };
    let c = Cfg { long: if idx % 61 == 17 { long(r) } else { None }, ..c };
    let b = gen_block(r, c);
    let bytes = frame("OSMData", &raw_blob(&block_as(r, &b)));
    input("a file with one data blob", &bytes);
    let pb = decode(&bytes)?;
    let q = Q { prop, b: &b, laws: idx % 4 == 1 };
    q.groups(&pb)?;
    if prop == 7 {
        want!("string table", pb.raw_stringtable(), &b.strings[..]);
        let total: usize = b.groups.iter().map(|g| stored(g).iter().map(|x| x.len()).sum::<usize>()).sum();
        let a: Vec<Seen> = pb.elements().take(total + 9).map(|e| seen(&e)).collect();
        let rest = groups_in_order("elements()", &b.groups, &a)?;
        want!("elements(): more than stored", rest.len(), 0);
        let mut it = pb.elements();
        for _ in 0..total {
            it.next();
        }
        want!("elements(): still at its end", (it.next().is_none(), it.next().is_none()), (true, true));
        let mut v = vec![];
        pb.for_each_element(|e| v.push(seen(&e)));
        let rest = groups_in_order("for_each_element", &b.groups, &v)?;
        want!("for_each_element: more than stored", rest.len(), 0);
    }
    let n: usize = b.groups.iter().map(|g| stored(g).iter().map(|x| x.len()).sum::<usize>()).sum();
    Ok((n > 0, hash(&bytes), format!("{:?}", b)))
}
