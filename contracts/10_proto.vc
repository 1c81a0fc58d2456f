# Generated message types (osmformat.rs, fileformat.rs in OUT_DIR): accessors.
# An unset field reads as the default of the format (granularity 100, date granularity 1000, version -1, else zero or empty).

@mod proto::osmformat

@fn HeaderBlock::writingprogram() -> r [C17]
@ensures
- r@ == (match self.writingprogram { Some(v) => v@, None => Seq::<char>::empty() })
@start
proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@end
@fn HeaderBlock::has_writingprogram() -> r [C17]
@ensures
- r == (self.writingprogram is Some)
@end
@fn HeaderBlock::source() -> r [C17]
@ensures
- r@ == (match self.source { Some(v) => v@, None => Seq::<char>::empty() })
@start
proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@end
@fn HeaderBlock::has_source() -> r [C17]
@ensures
- r == (self.source is Some)
@end
@fn HeaderBlock::osmosis_replication_timestamp() -> r [C17]
@ensures
- r == (match self.osmosis_replication_timestamp { Some(v) => v, None => 0 })
@end
@fn HeaderBlock::has_osmosis_replication_timestamp() -> r [C17]
@ensures
- r == (self.osmosis_replication_timestamp is Some)
@end
@fn HeaderBlock::osmosis_replication_sequence_number() -> r [C17]
@ensures
- r == (match self.osmosis_replication_sequence_number { Some(v) => v, None => 0 })
@end
@fn HeaderBlock::has_osmosis_replication_sequence_number() -> r [C17]
@ensures
- r == (self.osmosis_replication_sequence_number is Some)
@end
@fn HeaderBlock::osmosis_replication_base_url() -> r [C17]
@ensures
- r@ == (match self.osmosis_replication_base_url { Some(v) => v@, None => Seq::<char>::empty() })
@start
proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@end
@fn HeaderBlock::has_osmosis_replication_base_url() -> r [C17]
@ensures
- r == (self.osmosis_replication_base_url is Some)
@end
@fn HeaderBBox::left() -> r [C17]
@ensures
- r == (match self.left { Some(v) => v, None => 0 })
@end
@fn HeaderBBox::has_left() -> r [C17]
@ensures
- r == (self.left is Some)
@end
@fn HeaderBBox::right() -> r [C17]
@ensures
- r == (match self.right { Some(v) => v, None => 0 })
@end
@fn HeaderBBox::has_right() -> r [C17]
@ensures
- r == (self.right is Some)
@end
@fn HeaderBBox::top() -> r [C17]
@ensures
- r == (match self.top { Some(v) => v, None => 0 })
@end
@fn HeaderBBox::has_top() -> r [C17]
@ensures
- r == (self.top is Some)
@end
@fn HeaderBBox::bottom() -> r [C17]
@ensures
- r == (match self.bottom { Some(v) => v, None => 0 })
@end
@fn HeaderBBox::has_bottom() -> r [C17]
@ensures
- r == (self.bottom is Some)
@end
@fn PrimitiveBlock::granularity() -> r [C01 C03 C04]
@ensures
- r == (match self.granularity { Some(v) => v, None => 100 })
@end
@fn PrimitiveBlock::has_granularity() -> r [C01 C03 C04]
@ensures
- r == (self.granularity is Some)
@end
@fn PrimitiveBlock::lat_offset() -> r [C01 C03 C04]
@ensures
- r == (match self.lat_offset { Some(v) => v, None => 0 })
@end
@fn PrimitiveBlock::has_lat_offset() -> r [C01 C03 C04]
@ensures
- r == (self.lat_offset is Some)
@end
@fn PrimitiveBlock::lon_offset() -> r [C01 C03 C04]
@ensures
- r == (match self.lon_offset { Some(v) => v, None => 0 })
@end
@fn PrimitiveBlock::has_lon_offset() -> r [C01 C03 C04]
@ensures
- r == (self.lon_offset is Some)
@end
@fn PrimitiveBlock::date_granularity() -> r [C16]
@ensures
- r == (match self.date_granularity { Some(v) => v, None => 1000 })
@end
@fn PrimitiveBlock::has_date_granularity() -> r [C16]
@ensures
- r == (self.date_granularity is Some)
@end
@fn Info::version() -> r [C16]
@ensures
- r == (match self.version { Some(v) => v, None => -1i32 })
@end
@fn Info::has_version() -> r [C16]
@ensures
- r == (self.version is Some)
@end
@fn Info::timestamp() -> r [C16]
@ensures
- r == (match self.timestamp { Some(v) => v, None => 0 })
@end
@fn Info::has_timestamp() -> r [C16]
@ensures
- r == (self.timestamp is Some)
@end
@fn Info::changeset() -> r [C16]
@ensures
- r == (match self.changeset { Some(v) => v, None => 0 })
@end
@fn Info::has_changeset() -> r [C16]
@ensures
- r == (self.changeset is Some)
@end
@fn Info::uid() -> r [C16]
@ensures
- r == (match self.uid { Some(v) => v, None => 0 })
@end
@fn Info::has_uid() -> r [C16]
@ensures
- r == (self.uid is Some)
@end
@fn Info::user_sid() -> r [C06 C16]
@ensures
- r == (match self.user_sid { Some(v) => v, None => 0 })
@end
@fn Info::has_user_sid() -> r [C06 C16]
@ensures
- r == (self.user_sid is Some)
@end
@fn Info::visible() -> r [C16]
@ensures
- r == (match self.visible { Some(v) => v, None => false })
@end
@fn Info::has_visible() -> r [C16]
@ensures
- r == (self.visible is Some)
@end
@fn Node::id() -> r [C07 C14 C15]
@ensures
- r == (match self.id { Some(v) => v, None => 0 })
@end
@fn Node::has_id() -> r [C07 C14 C15]
@ensures
- r == (self.id is Some)
@end
@fn Node::lat() -> r [C03]
@ensures
- r == (match self.lat { Some(v) => v, None => 0 })
@end
@fn Node::has_lat() -> r [C03]
@ensures
- r == (self.lat is Some)
@end
@fn Node::lon() -> r [C03]
@ensures
- r == (match self.lon { Some(v) => v, None => 0 })
@end
@fn Node::has_lon() -> r [C03]
@ensures
- r == (self.lon is Some)
@end
@fn Way::id() -> r [C04]
@ensures
- r == (match self.id { Some(v) => v, None => 0 })
@end
@fn Way::has_id() -> r [C04]
@ensures
- r == (self.id is Some)
@end
@fn Relation::id() -> r [C05]
@ensures
- r == (match self.id { Some(v) => v, None => 0 })
@end
@fn Relation::has_id() -> r [C05]
@ensures
- r == (self.id is Some)
@end

@mod proto::fileformat

@fn BlobHeader::type_() -> r [C11 C15 C12 C13 C14 C10]
@ensures
- r@ == (match self.type_ { Some(v) => v@, None => Seq::<char>::empty() })
@start
proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@end
@fn BlobHeader::has_type() -> r [C11 C15 C12 C13 C14 C10]
@ensures
- r == (self.type_ is Some)
@end
@fn BlobHeader::indexdata() -> r [C11]
@ensures
- r@ == (match self.indexdata { Some(v) => v@, None => Seq::<u8>::empty() })
@end
@fn BlobHeader::has_indexdata() -> r [C11]
@ensures
- r == (self.indexdata is Some)
@end
@fn BlobHeader::datasize() -> r [C08 C09 C10]
@ensures
- r == (match self.datasize { Some(v) => v, None => 0 })
@end
@fn BlobHeader::has_datasize() -> r [C08 C09 C10]
@ensures
- r == (self.datasize is Some)
@end
@fn Blob::raw_size() -> r [C11]
@ensures
- r == (match self.raw_size { Some(v) => v, None => 0 })
@end
@fn Blob::has_raw_size() -> r [C11]
@ensures
- r == (self.raw_size is Some)
@end

@spec
pub open spec fn raw_of(b: Blob) -> Option<Seq<u8>> { match b.data { Some(blob::Data::Raw(v)) => Some(v@), _ => None } }
pub open spec fn zlib_of(b: Blob) -> Option<Seq<u8>> { match b.data { Some(blob::Data::ZlibData(v)) => Some(v@), _ => None } }
pub open spec fn or_empty(o: Option<Seq<u8>>) -> Seq<u8> { match o { Some(s) => s, None => Seq::empty() } }
pub open spec fn type_of(h: BlobHeader) -> Seq<char> { match h.type_ { Some(v) => v@, None => Seq::empty() } }
pub open spec fn datasize_of(h: BlobHeader) -> i32 { match h.datasize { Some(v) => v, None => 0 } }
@end
@fn Blob::raw() -> r [C11]
@ensures
- r@ =~= or_empty(raw_of(*self))
@end
@fn Blob::has_raw() -> r [C11]
@ensures
- r == (raw_of(*self) is Some)
@end
@fn Blob::zlib_data() -> r [C11]
@ensures
- r@ =~= or_empty(zlib_of(*self))
@end
@fn Blob::has_zlib_data() -> r [C11]
@ensures
- r == (zlib_of(*self) is Some)
@end
@fn Blob::has_lzma_data() -> r [C11]
@ensures
- r == (self.data matches Some(blob::Data::LzmaData(_)))
@end
@fn Blob::has_lz4_data() -> r [C11]
@ensures
- r == (self.data matches Some(blob::Data::Lz4Data(_)))
@end
@fn Blob::has_zstd_data() -> r [C11]
@ensures
- r == (self.data matches Some(blob::Data::ZstdData(_)))
@end
@fn Blob::has_OBSOLETE_bzip2_data() -> r [C11]
@ensures
- r == (self.data matches Some(blob::Data::OBSOLETEBzip2Data(_)))
@end

@mod proto::osmformat

@spec
/// block defaults of the format: granularity 100, offsets 0, date granularity 1000
pub open spec fn granularity_of(b: PrimitiveBlock) -> i32 { match b.granularity { Some(v) => v, None => 100 } }
pub open spec fn lat_offset_of(b: PrimitiveBlock) -> i64 { match b.lat_offset { Some(v) => v, None => 0 } }
pub open spec fn lon_offset_of(b: PrimitiveBlock) -> i64 { match b.lon_offset { Some(v) => v, None => 0 } }
pub open spec fn date_granularity_of(b: PrimitiveBlock) -> i32 { match b.date_granularity { Some(v) => v, None => 1000 } }
/// nanodegrees of a stored coordinate
pub open spec fn nano_lat_of(b: PrimitiveBlock, raw: i64) -> i64 { trunc64(lat_offset_of(b) + granularity_of(b) * raw) }
pub open spec fn nano_lon_of(b: PrimitiveBlock, raw: i64) -> i64 { trunc64(lon_offset_of(b) + granularity_of(b) * raw) }
pub open spec fn milli_of(b: PrimitiveBlock, raw: i64) -> i64 { trunc64(date_granularity_of(b) * raw) }
/// degrees of a nanodegree value
pub open spec fn degrees(nano: i64) -> f64 { fmul(1e-9f64, i2f(nano as int)) }
/// decimicrodegrees of a nanodegree value (the low 32 bits of the truncated quotient)
pub open spec fn decimicro(nano: i64) -> i32 { trunc32(tdiv(nano as int, 100)) }
pub open spec fn node_id_of(n: Node) -> i64 { match n.id { Some(v) => v, None => 0 } }
pub open spec fn node_lat_of(n: Node) -> i64 { match n.lat { Some(v) => v, None => 0 } }
pub open spec fn node_lon_of(n: Node) -> i64 { match n.lon { Some(v) => v, None => 0 } }
pub open spec fn way_id_of(n: Way) -> i64 { match n.id { Some(v) => v, None => 0 } }
pub open spec fn rel_id_of(n: Relation) -> i64 { match n.id { Some(v) => v, None => 0 } }
pub open spec fn bbox_left_of(b: HeaderBBox) -> i64 { match b.left { Some(v) => v, None => 0 } }
pub open spec fn bbox_right_of(b: HeaderBBox) -> i64 { match b.right { Some(v) => v, None => 0 } }
pub open spec fn bbox_top_of(b: HeaderBBox) -> i64 { match b.top { Some(v) => v, None => 0 } }
pub open spec fn bbox_bottom_of(b: HeaderBBox) -> i64 { match b.bottom { Some(v) => v, None => 0 } }
@end
