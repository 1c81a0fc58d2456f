# Nodes, ways, relations
@mod elements

@spec
impl crate::dep::IntoErr<RelMemberType> for EnumOrUnknown<MemberType> {
    open spec fn conv_pre(&self) -> bool { self.known() is Some }
    open spec fn conv(&self, t: RelMemberType) -> bool { same_type(t, self.known()->0) }
    fn cv(self) -> (r: RelMemberType) { RelMemberType::from(self) }
}
pub open spec fn len2<A, B>(a: Seq<A>, b: Seq<B>) -> nat { imin(a.len() as int, b.len() as int) as nat }
pub open spec fn len3<A, B, C>(a: Seq<A>, b: Seq<B>, c: Seq<C>) -> nat { imin(a.len() as int, imin(b.len() as int, c.len() as int)) as nat }
/// the ids a way refers to: item k is the sum of the first k+1 deltas
pub open spec fn way_refs(w: osmformat::Way) -> Seq<i64> { run64(w.refs@.len(), 0, w.refs@) }
pub open spec fn way_lats(b: PrimitiveBlock, w: osmformat::Way) -> Seq<i64> {
    nano_lats(b, run64(len2(w.lat@, w.lon@), 0, w.lat@))
}
pub open spec fn way_lons(b: PrimitiveBlock, w: osmformat::Way) -> Seq<i64> {
    nano_lons(b, run64(len2(w.lat@, w.lon@), 0, w.lon@))
}
pub open spec fn nano_lats(b: PrimitiveBlock, s: Seq<i64>) -> Seq<i64> { s.map_values(|x: i64| osmformat::nano_lat_of(b, x)) }
pub open spec fn nano_lons(b: PrimitiveBlock, s: Seq<i64>) -> Seq<i64> { s.map_values(|x: i64| osmformat::nano_lon_of(b, x)) }
/// the same type of a member, in the file format
pub open spec fn same_type(t: RelMemberType, m: MemberType) -> bool {
    match m {
        MemberType::NODE => t == RelMemberType::Node,
        MemberType::WAY => t == RelMemberType::Way,
        MemberType::RELATION => t == RelMemberType::Relation,
    }
}
impl<'a> WayRefIter<'a> {
    pub open spec fn items(&self) -> Seq<i64> { run64(self.deltas.rest().len(), self.current, self.deltas.rest()) }
}
impl<'a> WayNodeLocationsIter<'a> {
    pub open spec fn n(&self) -> nat { len2(self.dlats.rest(), self.dlons.rest()) }
    pub open spec fn lats(&self) -> Seq<i64> { nano_lats(*self.block, run64(self.n(), self.clat, self.dlats.rest())) }
    pub open spec fn lons(&self) -> Seq<i64> { nano_lons(*self.block, run64(self.n(), self.clon, self.dlons.rest())) }
    pub open spec fn even(&self) -> bool { self.dlats.rest().len() == self.dlons.rest().len() }
    pub proof fn lemma_step(self)
        ensures self.n() > 0 ==> {
            &&& self.lats()[0] == osmformat::nano_lat_of(*self.block, self.clat.wrapping_add(self.dlats.rest()[0]))
            &&& self.lons()[0] == osmformat::nano_lon_of(*self.block, self.clon.wrapping_add(self.dlons.rest()[0]))
            &&& nano_lats(*self.block, run64((self.n() - 1) as nat, self.clat.wrapping_add(self.dlats.rest()[0]), pop(self.dlats.rest())))
                    == self.lats().drop_first()
            &&& nano_lons(*self.block, run64((self.n() - 1) as nat, self.clon.wrapping_add(self.dlons.rest()[0]), pop(self.dlons.rest())))
                    == self.lons().drop_first()
        }
    {
        hide(trunc64);
        let (n, a, b) = (self.n(), self.dlats.rest(), self.dlons.rest());
        lemma_run64(n, self.clat, a);
        lemma_run64(n, self.clon, b);
        if n > 0 {
            assert(nano_lats(*self.block, run64((n - 1) as nat, self.clat.wrapping_add(a[0]), pop(a))) =~= self.lats().drop_first());
            assert(nano_lons(*self.block, run64((n - 1) as nat, self.clon.wrapping_add(b[0]), pop(b))) =~= self.lons().drop_first());
        }
    }
}
impl<'a> RelMemberIter<'a> {
    pub open spec fn n(&self) -> nat { len3(self.role_sids.rest(), self.member_id_deltas.rest(), self.member_types.rest()) }
    pub open spec fn ids(&self) -> Seq<i64> { run64(self.n(), self.current_member_id, self.member_id_deltas.rest()) }
    pub open spec fn even(&self) -> bool {
        self.role_sids.rest().len() == self.member_id_deltas.rest().len() == self.member_types.rest().len()
    }
}
@end

# ---- element types

@fn Node::new(block, osmnode) -> r [C03 C07]
@ensures
[C03 C07 C06 C16] *r.block == *block
[C03 C07 C06 C16] *r.osmnode == *osmnode
@end
@fn Node::id() -> r [C03 C07 C14]
@ensures
- r == osmformat::node_id_of(*self.osmnode)
@end
@fn Node::tags() -> r [C06]
@ensures
- *r.block == *self.block
- r.key_indices.rest() == self.osmnode.keys@
- r.val_indices.rest() == self.osmnode.vals@
@end
@fn Node::raw_tags() -> r [C06]
@ensures
- r.key_indices.rest() == self.osmnode.keys@
- r.val_indices.rest() == self.osmnode.vals@
@end
@fn Node::info() -> r [C16]
@ensures
- *r.block == *self.block
- *r.info == self.osmnode.info.get()
@end
@fn Node::raw_stringtable() -> r [C07]
@ensures
- r@ =~= crate::block::table(*self.block)
@end

@fn Way::new(block, osmway) -> r [C04 C07 C14]
@ensures
[C04 C07 C14 C06 C16] *r.block == *block
[C04 C07 C14 C06 C16] *r.osmway == *osmway
@end
@fn Way::id() -> r [C04 C07]
@ensures
- r == osmformat::way_id_of(*self.osmway)
@end
@fn Way::tags() -> r [C06]
@ensures
- *r.block == *self.block
- r.key_indices.rest() == self.osmway.keys@
- r.val_indices.rest() == self.osmway.vals@
@end
@fn Way::raw_tags() -> r [C06]
@ensures
- r.key_indices.rest() == self.osmway.keys@
- r.val_indices.rest() == self.osmway.vals@
@end
@fn Way::info() -> r [C16]
@ensures
- *r.block == *self.block
- *r.info == self.osmway.info.get()
@end
@fn Way::raw_stringtable() -> r [C07]
@ensures
- r@ =~= crate::block::table(*self.block)
@end

@fn Relation::new(block, osmrel) -> r [C05 C07]
@ensures
[C05 C07 C06 C16] *r.block == *block
[C05 C07 C06 C16] *r.osmrel == *osmrel
@end
@fn Relation::id() -> r [C05 C07]
@ensures
- r == osmformat::rel_id_of(*self.osmrel)
@end
@fn Relation::tags() -> r [C06]
@ensures
- *r.block == *self.block
- r.key_indices.rest() == self.osmrel.keys@
- r.val_indices.rest() == self.osmrel.vals@
@end
@fn Relation::raw_tags() -> r [C06]
@ensures
- r.key_indices.rest() == self.osmrel.keys@
- r.val_indices.rest() == self.osmrel.vals@
@end
@fn Relation::info() -> r [C16]
@ensures
- *r.block == *self.block
- *r.info == self.osmrel.info.get()
@end
@fn Relation::raw_stringtable() -> r [C07]
@ensures
- r@ =~= crate::block::table(*self.block)
@end

@fn Node::nano_lat() -> r [C03]
@ensures
- r == osmformat::nano_lat_of(*self.block, osmformat::node_lat_of(*self.osmnode))
@end
@fn Node::lat() -> r [C03]
@ensures
- r == osmformat::degrees(osmformat::nano_lat_of(*self.block, osmformat::node_lat_of(*self.osmnode)))
@end
@fn Node::decimicro_lat() -> r [C03]
@ensures
- r == osmformat::decimicro(osmformat::nano_lat_of(*self.block, osmformat::node_lat_of(*self.osmnode)))
@end
@fn WayNodeLocation::nano_lat() -> r [C03]
@ensures
- r == self.lat
@end
@fn WayNodeLocation::lat() -> r [C03]
@ensures
- r == osmformat::degrees(self.lat)
@end
@fn WayNodeLocation::decimicro_lat() -> r [C03]
@ensures
- r == osmformat::decimicro(self.lat)
@end

@fn Node::nano_lon() -> r [C03]
@ensures
- r == osmformat::nano_lon_of(*self.block, osmformat::node_lon_of(*self.osmnode))
@end
@fn Node::lon() -> r [C03]
@ensures
- r == osmformat::degrees(osmformat::nano_lon_of(*self.block, osmformat::node_lon_of(*self.osmnode)))
@end
@fn Node::decimicro_lon() -> r [C03]
@ensures
- r == osmformat::decimicro(osmformat::nano_lon_of(*self.block, osmformat::node_lon_of(*self.osmnode)))
@end
@fn WayNodeLocation::nano_lon() -> r [C03]
@ensures
- r == self.lon
@end
@fn WayNodeLocation::lon() -> r [C03]
@ensures
- r == osmformat::degrees(self.lon)
@end
@fn WayNodeLocation::decimicro_lon() -> r [C03]
@ensures
- r == osmformat::decimicro(self.lon)
@end

# ---- ways
@fn Way::refs() -> r [C04 C14]
@ensures
- r.items() =~= way_refs(*self.osmway)
@end
@fn Way::raw_refs() -> r [C04]
@ensures
- r@ =~= self.osmway.refs@
@end
@fn Way::node_locations() -> r [C03 C04]
@ensures
[C03 C04] *r.block == *self.block
[C03 C04] r.lats() =~= way_lats(*self.block, *self.osmway)
[C03 C04] r.lons() =~= way_lons(*self.block, *self.osmway)
[C18] r.even() == (self.osmway.lat@.len() == self.osmway.lon@.len())
@end
@fn WayRefIter::next() -> r [C04 C14]
@ensures
- match r { Some(x) => old(self).items().len() > 0 && x == old(self).items()[0] && final(self).items() == old(self).items().drop_first(),
    None => old(self).items().len() == 0 && final(self).items().len() == 0 }
[C18] final(self).deltas.rest().len() == (if r is Some { old(self).deltas.rest().len() - 1 } else { 0 })
[C18] r is Some <==> old(self).deltas.rest().len() > 0
@start
proof { lemma_run64(old(self).deltas.rest().len(), old(self).current, old(self).deltas.rest()); }
@end
@fn WayRefIter::size_hint() -> r [C18]
@ensures
- r.0 == self.deltas.rest().len()
- r.1 == Some(r.0)
@end
@fn WayRefIter::len() -> r [C18]
@ensures
- r == self.deltas.rest().len()
@end
@fn WayNodeLocationsIter::next() -> r [C03 C04]
@ensures
- *final(self).block == *old(self).block
- match r { Some(x) => old(self).lats().len() > 0 && x.lat == old(self).lats()[0] && final(self).lats() == old(self).lats().drop_first(),
    None => old(self).lats().len() == 0 && final(self).lats().len() == 0 }
- match r { Some(x) => old(self).lons().len() > 0 && x.lon == old(self).lons()[0] && final(self).lons() == old(self).lons().drop_first(),
    None => old(self).lons().len() == 0 && final(self).lons().len() == 0 }
[C18] old(self).even() ==> final(self).even()
[C18] final(self).n() == (if r is Some { old(self).n() - 1 } else { 0 })
[C18] r is Some <==> old(self).n() > 0
@start
proof { old(self).lemma_step(); }
@end
@fn WayNodeLocationsIter::size_hint() -> r [C18]
@ensures
- self.even() ==> r.0 == self.n() && r.1 == Some(r.0)
@end
@fn WayNodeLocationsIter::len() -> r [C18]
@ensures
- self.even() ==> r == self.n()
@end

# ---- relations
@fn RelMemberType::from(rmt) -> r [C05]
@requires
- rmt.known() is Some
@ensures
- rmt.known() is Some ==> same_type(r, rmt.known()->0)
@end
@fn RelMember::role() -> r [C05 C06]
@ensures
- crate::block::lookup(*self.block, crate::dep::cast_usize(self.role_sid as int), r)
@end
@fn RelMemberIter::new(block, osmrel) -> r [C05]
@ensures
- *r.block == *block
- r.ids() =~= run64(len3(osmrel.roles_sid@, osmrel.memids@, osmrel.types@), 0, osmrel.memids@)
- r.role_sids.rest() == osmrel.roles_sid@
- r.member_types.rest() == osmrel.types@
[C18] r.even() == (osmrel.roles_sid@.len() == osmrel.memids@.len() == osmrel.types@.len())
@end
@fn Relation::members() -> r [C05]
@ensures
- *r.block == *self.block
- r.ids() =~= run64(len3(self.osmrel.roles_sid@, self.osmrel.memids@, self.osmrel.types@), 0, self.osmrel.memids@)
- r.role_sids.rest() == self.osmrel.roles_sid@
- r.member_types.rest() == self.osmrel.types@
[C18] r.even() == (self.osmrel.roles_sid@.len() == self.osmrel.memids@.len() == self.osmrel.types@.len())
@end
@fn RelMemberIter::next() -> r [C05]
@ensures
- *final(self).block == *old(self).block
- r is Some <==> old(self).n() > 0 && old(self).member_types.rest()[0].known() is Some
- r matches Some(x) ==> *x.block == *old(self).block && x.role_sid == old(self).role_sids.rest()[0]
- r matches Some(x) ==> same_type(x.member_type, old(self).member_types.rest()[0].known()->0)
- r matches Some(x) ==> x.member_id == old(self).ids()[0] && final(self).ids() == old(self).ids().drop_first()
- r is Some ==> final(self).role_sids.rest() == old(self).role_sids.rest().drop_first()
      && final(self).member_types.rest() == old(self).member_types.rest().drop_first()
- old(self).n() == 0 ==> final(self).n() == 0
[C18] old(self).even() ==> final(self).even()
[C18] final(self).n() == (if old(self).n() > 0 { old(self).n() - 1 } else { 0 })
[C18] r is None && old(self).n() > 0 ==> old(self).member_types.rest()[0].known() is None
@start
proof { lemma_run64(old(self).n(), old(self).current_member_id, old(self).member_id_deltas.rest()); }
@end
@fn RelMemberIter::size_hint() -> r [C18]
@ensures
- self.even() ==> r.0 == self.n() && r.1 == Some(r.0)
@end
@fn RelMemberIter::len() -> r [C18]
@ensures
- self.even() ==> r == self.n()
@end

# ---- tags
@fn TagIter::next() -> r [C06]
@ensures
- *final(self).block == *old(self).block
- old(self).key_indices.rest().len() > 0 && old(self).val_indices.rest().len() > 0 ==>
      final(self).key_indices.rest() =~= old(self).key_indices.rest().drop_first()
      && final(self).val_indices.rest() =~= old(self).val_indices.rest().drop_first()
- old(self).key_indices.rest().len() == 0 || old(self).val_indices.rest().len() == 0 ==>
      final(self).key_indices.rest().len() == 0 || final(self).val_indices.rest().len() == 0
- match r {
      Some(x) => old(self).key_indices.rest().len() > 0 && old(self).val_indices.rest().len() > 0
          && crate::block::str_at(*old(self).block, old(self).key_indices.rest()[0] as int) == Some(x.0@)
          && crate::block::str_at(*old(self).block, old(self).val_indices.rest()[0] as int) == Some(x.1@),
      None => old(self).key_indices.rest().len() == 0 || old(self).val_indices.rest().len() == 0
          || crate::block::str_at(*old(self).block, old(self).key_indices.rest()[0] as int) is None
          || crate::block::str_at(*old(self).block, old(self).val_indices.rest()[0] as int) is None,
  }
[C18] old(self).key_indices.rest().len() == old(self).val_indices.rest().len() ==>
          final(self).key_indices.rest().len() == pop(old(self).key_indices.rest()).len()
          && final(self).val_indices.rest().len() == pop(old(self).val_indices.rest()).len()
@end
@fn TagIter::size_hint() -> r [C18]
@ensures
- self.key_indices.rest().len() == self.val_indices.rest().len() ==> r.0 == self.key_indices.rest().len() && r.1 == Some(r.0)
@end
@fn TagIter::len() -> r [C18]
@ensures
- self.key_indices.rest().len() == self.val_indices.rest().len() ==> r == self.key_indices.rest().len()
@end
@fn RawTagIter::next() -> r [C06]
@ensures
- match r {
      Some(x) => old(self).key_indices.rest().len() > 0 && old(self).val_indices.rest().len() > 0
          && x.0 == old(self).key_indices.rest()[0] && x.1 == old(self).val_indices.rest()[0]
          && final(self).key_indices.rest() =~= pop(old(self).key_indices.rest())
          && final(self).val_indices.rest() =~= pop(old(self).val_indices.rest()),
      None => old(self).key_indices.rest().len() == 0 || old(self).val_indices.rest().len() == 0,
  }
[C18] old(self).key_indices.rest().len() == old(self).val_indices.rest().len() ==>
          final(self).key_indices.rest().len() == pop(old(self).key_indices.rest()).len()
          && final(self).val_indices.rest().len() == pop(old(self).val_indices.rest()).len()
[C18] r is Some <==> old(self).key_indices.rest().len() > 0 && old(self).val_indices.rest().len() > 0
@end
@fn RawTagIter::size_hint() -> r [C18]
@ensures
- self.key_indices.rest().len() == self.val_indices.rest().len() ==> r.0 == self.key_indices.rest().len() && r.1 == Some(r.0)
@end
@fn RawTagIter::len() -> r [C18]
@ensures
- self.key_indices.rest().len() == self.val_indices.rest().len() ==> r == self.key_indices.rest().len()
@end

# ---- metadata
@fn Info::new(block, info) -> r [C16]
@ensures
- *r.block == *block
- *r.info == *info
@end
@fn Info::version() -> r [C16]
@ensures
- r == self.info.version
@end
@fn Info::milli_timestamp() -> r [C16]
@ensures
- match self.info.timestamp { Some(t) => r == Some(osmformat::milli_of(*self.block, t)), None => r is None }
@end
@fn Info::changeset() -> r [C16]
@ensures
- r == self.info.changeset
@end
@fn Info::uid() -> r [C16]
@ensures
- r == self.info.uid
@end
@fn Info::user() -> r [C06 C16]
@ensures
- match self.info.user_sid {
      Some(sid) => r matches Some(x) && crate::block::lookup(*self.block, crate::dep::cast_usize(sid as int), x),
      None => r is None,
  }
@end
@fn Info::visible() -> r [C16]
@ensures
- r == !(self.info.visible == Some(false))
@end
@fn Info::deleted() -> r [C16]
@ensures
- r == (self.info.visible == Some(false))
@end
