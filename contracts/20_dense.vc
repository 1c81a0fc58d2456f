@mod dense

@spec
/// What a dense node's metadata reports.
pub struct InfoV { pub version: i32, pub timestamp: i64, pub changeset: i64, pub uid: i32, pub user_sid: i32, pub visible: bool }

impl<'a> DenseNodeInfo<'a> {
    pub open spec fn v(&self) -> InfoV {
        InfoV { version: self.version, timestamp: self.timestamp, changeset: self.changeset, uid: self.uid,
            user_sid: self.user_sid, visible: self.visible }
    }
}

// ---- metadata columns
pub open spec fn info_len(version: Seq<i32>, ts: Seq<i64>, cs: Seq<i64>, uid: Seq<i32>, sid: Seq<i32>) -> int {
    imin(version.len() as int, imin(ts.len() as int, imin(cs.len() as int, imin(uid.len() as int, sid.len() as int))))
}
pub open spec fn info_at(version: Seq<i32>, ts: Seq<i64>, cs: Seq<i64>, uid: Seq<i32>, sid: Seq<i32>, vis: Seq<bool>,
    t0: i64, c0: i64, u0: i32, s0: i32, k: int) -> InfoV
{
    InfoV {
        version: version[k],
        timestamp: trunc64(t0 + sum64(ts, k + 1)),
        changeset: trunc64(c0 + sum64(cs, k + 1)),
        uid: trunc32(u0 + sum32(uid, k + 1)),
        user_sid: trunc32(s0 + sum32(sid, k + 1)),
        visible: if k < vis.len() { vis[k] } else { true },
    }
}
pub open spec fn info_seq(version: Seq<i32>, ts: Seq<i64>, cs: Seq<i64>, uid: Seq<i32>, sid: Seq<i32>, vis: Seq<bool>,
    t0: i64, c0: i64, u0: i32, s0: i32) -> Seq<InfoV>
{
    Seq::new(info_len(version, ts, cs, uid, sid) as nat, |k: int| info_at(version, ts, cs, uid, sid, vis, t0, c0, u0, s0, k))
}
/// the metadata of the nodes of a dense group: item k has the stored version and the sums of the first k+1 deltas
pub open spec fn dense_infos(d: osmformat::DenseInfo) -> Seq<InfoV> {
    info_seq(d.version@, d.timestamp@, d.changeset@, d.uid@, d.user_sid@, d.visible@, 0, 0, 0, 0)
}
impl<'a> DenseNodeInfoIter<'a> {
    pub open spec fn items(&self) -> Seq<InfoV> {
        info_seq(self.versions.rest(), self.dtimestamps.rest(), self.dchangesets.rest(), self.duids.rest(),
            self.duser_sids.rest(), self.visible.rest(), self.ctimestamp, self.cchangeset, self.cuid, self.cuser_sid)
    }
    pub proof fn lemma_step(self)
        ensures
            self.items().len() > 0 ==> {
                let t = self.ctimestamp.wrapping_add(self.dtimestamps.rest()[0]);
                let c = self.cchangeset.wrapping_add(self.dchangesets.rest()[0]);
                let u = self.cuid.wrapping_add(self.duids.rest()[0]);
                let s = self.cuser_sid.wrapping_add(self.duser_sids.rest()[0]);
                let vis = self.visible.rest();
                &&& self.items()[0] == InfoV { version: self.versions.rest()[0], timestamp: t, changeset: c, uid: u, user_sid: s,
                        visible: if vis.len() > 0 { vis[0] } else { true } }
                &&& info_seq(pop(self.versions.rest()), pop(self.dtimestamps.rest()), pop(self.dchangesets.rest()), pop(self.duids.rest()),
                        pop(self.duser_sids.rest()), pop(vis), t, c, u, s) == self.items().drop_first()
            },
    {
        hide(trunc64);
        hide(trunc32);
        let (ver, ts, cs, uid, sid, vis) = (self.versions.rest(), self.dtimestamps.rest(), self.dchangesets.rest(), self.duids.rest(),
            self.duser_sids.rest(), self.visible.rest());
        if self.items().len() > 0 {
            let t = self.ctimestamp.wrapping_add(ts[0]);
            let c = self.cchangeset.wrapping_add(cs[0]);
            let u = self.cuid.wrapping_add(uid[0]);
            let s = self.cuser_sid.wrapping_add(sid[0]);
            let d = info_seq(pop(ver), pop(ts), pop(cs), pop(uid), pop(sid), pop(vis), t, c, u, s);
            let e = self.items().drop_first();
            lemma_acc64_0(self.ctimestamp, ts);
            lemma_acc64_0(self.cchangeset, cs);
            lemma_acc32_0(self.cuid, uid);
            lemma_acc32_0(self.cuser_sid, sid);
            assert forall|k: int| 0 <= k < d.len() implies d[k] == e[k] by {
                lemma_acc64(self.ctimestamp, ts, k);
                lemma_acc64(self.cchangeset, cs, k);
                lemma_acc32(self.cuid, uid, k);
                lemma_acc32(self.cuser_sid, sid, k);
            }
            assert(d =~= e);
        }
    }
}

// ---- packed tags
/// where the tags of the node whose tags start at i end
pub open spec fn kv_end(s: Seq<i32>, i: int) -> int
    decreases s.len() - i
{
    if 0 <= i && i + 1 < s.len() && s[i] != 0 { kv_end(s, i + 2) } else { i }
}
/// where the tags of the next node start
pub open spec fn kv_next(s: Seq<i32>, i: int) -> int {
    if kv_end(s, i) < s.len() { kv_end(s, i) + 1 } else { kv_end(s, i) }
}
/// where the tags of the k-th node from i start
pub open spec fn kv_start(s: Seq<i32>, i: int, k: int) -> int
    decreases k
{
    if k <= 0 { i } else { kv_start(s, kv_next(s, i), k - 1) }
}
pub open spec fn kv_at(s: Seq<i32>, i: int, k: int) -> Seq<i32> {
    s.subrange(kv_start(s, i, k), kv_end(s, kv_start(s, i, k)))
}
pub proof fn lemma_kv_end(s: Seq<i32>, i: int)
    requires 0 <= i <= s.len()
    ensures i <= kv_end(s, i) <= s.len(), i <= kv_next(s, i) <= s.len()
    decreases s.len() - i
{
    if i + 1 < s.len() && s[i] != 0 { lemma_kv_end(s, i + 2); }
}

// ---- dense nodes
pub open spec fn dense_len(id: Seq<i64>, lat: Seq<i64>, lon: Seq<i64>) -> nat {
    imin(id.len() as int, imin(lat.len() as int, lon.len() as int)) as nat
}
pub open spec fn dn(d: osmformat::DenseNodes) -> nat { dense_len(d.id@, d.lat@, d.lon@) }
pub open spec fn dense_ids(d: osmformat::DenseNodes) -> Seq<i64> { run64(dn(d), 0, d.id@) }
pub open spec fn dense_lats(d: osmformat::DenseNodes) -> Seq<i64> { run64(dn(d), 0, d.lat@) }
pub open spec fn dense_lons(d: osmformat::DenseNodes) -> Seq<i64> { run64(dn(d), 0, d.lon@) }
pub open spec fn dense_kvs(d: osmformat::DenseNodes) -> Seq<Seq<i32>> {
    Seq::new(dn(d), |k: int| kv_at(d.keys_vals@, 0, k))
}
pub open spec fn opt_at(s: Seq<InfoV>, k: int) -> Option<InfoV> { if 0 <= k < s.len() { Some(s[k]) } else { None } }
pub open spec fn dense_node_infos(d: osmformat::DenseNodes) -> Seq<Option<InfoV>> {
    Seq::new(dn(d), |k: int| opt_at(dense_infos(d.denseinfo.get()), k))
}

impl<'a> DenseNodeIter<'a> {
    pub open spec fn n(&self) -> nat { dense_len(self.dids.rest(), self.dlats.rest(), self.dlons.rest()) }
    pub open spec fn ids(&self) -> Seq<i64> { run64(self.n(), self.cid, self.dids.rest()) }
    pub open spec fn lats(&self) -> Seq<i64> { run64(self.n(), self.clat, self.dlats.rest()) }
    pub open spec fn lons(&self) -> Seq<i64> { run64(self.n(), self.clon, self.dlons.rest()) }
    pub open spec fn kvs(&self) -> Seq<Seq<i32>> {
        Seq::new(self.n(), |k: int| kv_at(self.keys_vals_slice@, self.keys_vals_index as int, k))
    }
    pub open spec fn info_items(&self) -> Seq<InfoV> {
        match self.info_iter { Some(i) => i.items(), None => Seq::empty() }
    }
    pub open spec fn infos(&self) -> Seq<Option<InfoV>> { Seq::new(self.n(), |k: int| opt_at(self.info_items(), k)) }
    /// the columns have the same length
    pub open spec fn even(&self) -> bool { self.dids.rest().len() == self.dlats.rest().len() == self.dlons.rest().len() }
    /// the tag cursor is inside of the tag array
    pub open spec fn wf(&self) -> bool {
        &&& self.keys_vals_index <= self.keys_vals_slice@.len()
    }
}
impl<'a> DenseNode<'a> {
    pub open spec fn info_v(&self) -> Option<InfoV> { match self.info { Some(i) => Some(i.v()), None => None } }
}

@end

@fn DenseNodeInfoIter::new(block, info) -> r [C16]
@ensures
- r.items() =~= dense_infos(*info)
- *r.block == *block
@end

@fn DenseNodeInfoIter::next() -> r [C16]
@ensures
- *final(self).block == *old(self).block
- match r { Some(x) => old(self).items().len() > 0 && x.v() == old(self).items()[0] && *x.block == *old(self).block
      && final(self).items() == old(self).items().drop_first(),
    None => old(self).items().len() == 0 && final(self).items() == old(self).items() }
@start
proof { old(self).lemma_step(); }
@end

@fn DenseNodeIter::new(block, osmdense) -> r [C01 C02 C03 C16]
@ensures
[C02 C01] r.wf()
[C01 C02 C03 C16] *r.block == *block
[C01 C14] r.ids() =~= dense_ids(*osmdense)
[C01 C03] r.lats() =~= dense_lats(*osmdense)
[C01 C03] r.lons() =~= dense_lons(*osmdense)
[C02] r.kvs() =~= dense_kvs(*osmdense)
[C16] r.infos() =~= dense_node_infos(*osmdense)
[D] r.vs() =~= crate::block::dense_seq(*osmdense)
[C18] r.even() == (osmdense.id@.len() == osmdense.lat@.len() == osmdense.lon@.len())
[C18] r.n() == dn(*osmdense)
@end

@fn DenseNodeIter::empty(block) -> r [C07]
@ensures
- r.wf()
- *r.block == *block
- r.ids().len() == 0
- r.lats().len() == 0
- r.lons().len() == 0
- r.kvs().len() == 0
- r.infos().len() == 0
[D] r.vs().len() == 0
@end

@fn DenseNodeIter::next() -> r [C01 C02 C16]
@requires
- old(self).wf()
@ensures
[C01 C02] final(self).wf()
[C01 C02 C03 C16] *final(self).block == *old(self).block
[C01 C02 C03 C16 C07 C12 C14 C15] r is Some <==> old(self).ids().len() > 0
[C01 C02 C03 C16] r matches Some(x) ==> *x.block == *old(self).block
[C01 C14] match r { Some(x) => x.id == old(self).ids()[0] && final(self).ids() == old(self).ids().drop_first(), None => final(self).ids().len() == 0 }
[C01 C03] match r { Some(x) => x.lat == old(self).lats()[0] && final(self).lats() == old(self).lats().drop_first(), None => final(self).lats().len() == 0 }
[C01 C03] match r { Some(x) => x.lon == old(self).lons()[0] && final(self).lons() == old(self).lons().drop_first(), None => final(self).lons().len() == 0 }
[C02] match r { Some(x) => x.keys_vals_indices@ =~= old(self).kvs()[0] && final(self).kvs() =~= old(self).kvs().drop_first(), None => final(self).kvs().len() == 0 }
[C16] match r { Some(x) => x.info_v() == old(self).infos()[0] && final(self).infos() =~= old(self).infos().drop_first(), None => final(self).infos().len() == 0 }
[D] match r { Some(x) => old(self).vs().len() > 0 && x.dv() == old(self).vs()[0] && final(self).vs() =~= old(self).vs().drop_first(), None => old(self).vs().len() == 0 && final(self).vs() =~= old(self).vs() }
[C18] old(self).even() ==> final(self).even()
[C18] final(self).n() == (if r is Some { old(self).n() - 1 } else { 0 })
@start
let ghost s0 = *self;
proof {
    lemma_run64(s0.n(), s0.cid, s0.dids.rest());
    lemma_run64(s0.n(), s0.clat, s0.dlats.rest());
    lemma_run64(s0.n(), s0.clon, s0.dlons.rest());
    lemma_kv_end(s0.keys_vals_slice@, s0.keys_vals_index as int);
}
@loop 0 iter
invariant
    $it.size() == 2,
    s0.keys_vals_index == start_index,
    start_index <= end_index <= self.keys_vals_slice@.len(),
    self.keys_vals_slice@ == s0.keys_vals_slice@,
    *self == (DenseNodeIter { keys_vals_index: self.keys_vals_index, ..*self }),
    self.keys_vals_index == end_index,
    $it.rest() == self.keys_vals_slice@.subrange(end_index as int, self.keys_vals_slice@.len() as int),
    kv_end(self.keys_vals_slice@, start_index as int) == kv_end(self.keys_vals_slice@, end_index as int),
decreases $it.rest().len()
@end
@alt DenseNodeIter::next()
@start
let ghost s0 = *self;
proof {
    lemma_run64(s0.n(), s0.cid, s0.dids.rest());
    lemma_run64(s0.n(), s0.clat, s0.dlats.rest());
    lemma_run64(s0.n(), s0.clon, s0.dlons.rest());
    lemma_kv_end(s0.keys_vals_slice@, s0.keys_vals_index as int);
}
@loop 0 cond
invariant
    s0.keys_vals_index == start_index,
    start_index <= end_index <= self.keys_vals_slice@.len(),
    self.keys_vals_slice@ == s0.keys_vals_slice@,
    *self == (DenseNodeIter { keys_vals_index: self.keys_vals_index, ..*self }),
    kv_end(self.keys_vals_slice@, start_index as int) == kv_end(self.keys_vals_slice@, end_index as int),
decreases self.keys_vals_slice@.len() - end_index
@end

@fn DenseNodeIter::size_hint() -> r [C18]
@ensures
- self.even() ==> r.0 == self.n() && r.1 == Some(r.0)
@end
@fn DenseNodeIter::len() -> r [C18]
@ensures
- self.even() ==> r == self.n()
@end

# ---- accessors
@fn DenseNode::id() -> r [C01 C14]
@ensures
- r == self.id
@end
@fn DenseNode::info() -> r [C16]
@ensures
- match r { Some(x) => self.info == Some(*x), None => self.info is None }
@end
@fn DenseNode::nano_lat() -> r [C01 C03]
@ensures
- r == osmformat::nano_lat_of(*self.block, self.lat)
@end
@fn DenseNode::nano_lon() -> r [C01 C03]
@ensures
- r == osmformat::nano_lon_of(*self.block, self.lon)
@end
@fn DenseNode::lat() -> r [C03]
@ensures
- r == osmformat::degrees(osmformat::nano_lat_of(*self.block, self.lat))
@end
@fn DenseNode::lon() -> r [C03]
@ensures
- r == osmformat::degrees(osmformat::nano_lon_of(*self.block, self.lon))
@end
@fn DenseNode::decimicro_lat() -> r [C03]
@ensures
- r == osmformat::decimicro(osmformat::nano_lat_of(*self.block, self.lat))
@end
@fn DenseNode::decimicro_lon() -> r [C03]
@ensures
- r == osmformat::decimicro(osmformat::nano_lon_of(*self.block, self.lon))
@end
@fn DenseNode::tags() -> r [C02 C06]
@ensures
- r.keys_vals_indices.rest() == self.keys_vals_indices@
- *r.block == *self.block
@end
@fn DenseNode::raw_tags() -> r [C02]
@ensures
- r.keys_vals_indices.rest() == self.keys_vals_indices@
@end

@fn DenseTagIter::next() -> r [C02 C06]
@ensures
- *final(self).block == *old(self).block
- match r {
      Some(x) => old(self).keys_vals_indices.rest().len() >= 2
          && crate::block::str_at(*old(self).block, old(self).keys_vals_indices.rest()[0] as int) == Some(x.0@)
          && crate::block::str_at(*old(self).block, old(self).keys_vals_indices.rest()[1] as int) == Some(x.1@)
          && final(self).keys_vals_indices.rest() =~= old(self).keys_vals_indices.rest().subrange(2, old(self).keys_vals_indices.rest().len() as int),
      None => old(self).keys_vals_indices.rest().len() < 2
          || crate::block::str_at(*old(self).block, old(self).keys_vals_indices.rest()[0] as int) is None
          || crate::block::str_at(*old(self).block, old(self).keys_vals_indices.rest()[1] as int) is None,
  }
[C18] old(self).keys_vals_indices.rest().len() >= 2 ==> final(self).keys_vals_indices.rest().len() == old(self).keys_vals_indices.rest().len() - 2
[C18] r is None && old(self).keys_vals_indices.rest().len() >= 2 ==>
          crate::block::str_at(*old(self).block, old(self).keys_vals_indices.rest()[0] as int) is None
          || crate::block::str_at(*old(self).block, old(self).keys_vals_indices.rest()[1] as int) is None
@end
@fn DenseTagIter::size_hint() -> r [C18]
@ensures
- r.0 == self.keys_vals_indices.rest().len() / 2
- r.1 == Some(r.0)
@end
@fn DenseTagIter::len() -> r [C18]
@ensures
- r == self.keys_vals_indices.rest().len() / 2
@end
@fn DenseRawTagIter::next() -> r [C02]
@ensures
- match r {
      Some(x) => old(self).keys_vals_indices.rest().len() >= 2
          && x.0 == old(self).keys_vals_indices.rest()[0] && x.1 == old(self).keys_vals_indices.rest()[1]
          && final(self).keys_vals_indices.rest() =~= old(self).keys_vals_indices.rest().subrange(2, old(self).keys_vals_indices.rest().len() as int),
      None => old(self).keys_vals_indices.rest().len() < 2,
  }
[C18] final(self).keys_vals_indices.rest().len() / 2 == (if r is Some { old(self).keys_vals_indices.rest().len() / 2 - 1 } else { 0 })
@end
@fn DenseRawTagIter::size_hint() -> r [C18]
@ensures
- r.0 == self.keys_vals_indices.rest().len() / 2
- r.1 == Some(r.0)
@end
@fn DenseRawTagIter::len() -> r [C18]
@ensures
- r == self.keys_vals_indices.rest().len() / 2
@end

@fn DenseNodeInfo::version() -> r [C16]
@ensures
- r == self.version
@end
@fn DenseNodeInfo::changeset() -> r [C16]
@ensures
- r == self.changeset
@end
@fn DenseNodeInfo::uid() -> r [C16]
@ensures
- r == self.uid
@end
@fn DenseNodeInfo::user() -> r [C06 C16]
@ensures
- crate::block::lookup(*self.block, crate::dep::cast_usize(self.user_sid as int), r)
@end
@fn DenseNodeInfo::milli_timestamp() -> r [C16]
@ensures
- r == osmformat::milli_of(*self.block, self.timestamp)
@end
@fn DenseNodeInfo::visible() -> r [C16]
@ensures
- r == self.visible
@end
@fn DenseNodeInfo::deleted() -> r [C16]
@ensures
- r == !self.visible
@end
