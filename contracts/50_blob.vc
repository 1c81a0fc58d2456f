# Framing of a stream into blobs, decoding of blob contents
@mod blob

@spec
/// the length prefix at p
pub open spec fn prefix_at(s: Seq<u8>, p: int) -> int { crate::dep::byteorder::be32(s.subrange(p, p + 4)) as int }
pub open spec fn has_prefix(s: Seq<u8>, p: int) -> bool { 0 <= p && p + 4 <= s.len() }
/// where the content of the blob at p starts
pub open spec fn body_at(s: Seq<u8>, p: int) -> int { p + 4 + prefix_at(s, p) }
/// the blob header at p: shorter than 64 KiB, inside of the stream, parsed from exactly the delimited bytes, no negative size
pub open spec fn hdr_at(s: Seq<u8>, p: int) -> Option<fileformat::BlobHeader> {
    if has_prefix(s, p) && prefix_at(s, p) < 65536 && body_at(s, p) <= s.len() {
        match crate::dep::protobuf::parsed::<fileformat::BlobHeader>(s.subrange(p + 4, body_at(s, p))) {
            Some(h) => if fileformat::datasize_of(h) >= 0 { Some(h) } else { None },
            None => None,
        }
    } else { None }
}
/// where the blob after the one at p starts
pub open spec fn next_at(s: Seq<u8>, p: int) -> int { body_at(s, p) + fileformat::datasize_of(hdr_at(s, p)->0) }
/// the bytes of the blob at p are all there
pub open spec fn framed_at(s: Seq<u8>, p: int) -> bool { hdr_at(s, p) is Some && next_at(s, p) <= s.len() }
pub open spec fn data_at(s: Seq<u8>, p: int) -> Seq<u8> { s.subrange(body_at(s, p), next_at(s, p)) }
/// the content of the blob at p, parsed from exactly the delimited bytes
pub open spec fn body_msg_at(s: Seq<u8>, p: int) -> Option<fileformat::Blob> {
    if framed_at(s, p) { crate::dep::protobuf::parsed::<fileformat::Blob>(data_at(s, p)) } else { None }
}
/// the blob at p, with both parts
pub open spec fn blob_at(s: Seq<u8>, p: int) -> Option<(fileformat::BlobHeader, fileformat::Blob)> {
    match body_msg_at(s, p) { Some(b) => Some((hdr_at(s, p)->0, b)), None => None }
}
pub open spec fn off(o: Option<ByteOffset>, p: int) -> Option<ByteOffset> {
    match o { Some(_) => Some(ByteOffset(p as u64)), None => None }
}
impl<R: Read> BlobReader<R> {
    /// the reported offset, if known, is the position of the stream
    pub open spec fn wf(&self) -> bool {
        &&& self.reader.pos() >= 0
        &&& self.offset matches Some(o) ==> o.0 as int == self.reader.pos()
    }
    pub open spec fn s(&self) -> Seq<u8> { self.reader.stream() }
    pub open spec fn p(&self) -> int { self.reader.pos() }
    pub open spec fn same_stream(&self, o: &Self) -> bool {
        &&& self.reader.stream() == o.reader.stream()
        &&& self.reader.clean() == o.reader.clean()
        &&& self.reader.reliable() == o.reader.reliable()
    }
}
/// the kind a blob type name stands for
pub open spec fn type_is(t: BlobType, name: Seq<char>) -> bool {
    match t {
        BlobType::OsmHeader => name == "OSMHeader"@,
        BlobType::OsmData => name == "OSMData"@,
        BlobType::Unknown(x) => x@ == name && name != "OSMHeader"@ && name != "OSMData"@,
    }
}
/// the message in a blob: from the raw bytes if present, else from the zlib stream, each below 32 MiB
pub open spec fn decoded<T>(b: fileformat::Blob) -> Option<T> {
    match fileformat::raw_of(b) {
        Some(raw) => if raw.len() < 33554432 { crate::dep::protobuf::parsed::<T>(raw) } else { None },
        None => match fileformat::zlib_of(b) {
            Some(z) => if crate::dep::flate2::read::inflated(z).len() < 33554432 && crate::dep::flate2::read::inflates(z) {
                crate::dep::protobuf::parsed::<T>(crate::dep::flate2::read::inflated(z))
            } else { None },
            None => None,
        },
    }
}
pub open spec fn no_content(b: fileformat::Blob) -> bool { fileformat::raw_of(b) is None && fileformat::zlib_of(b) is None }
pub open spec fn is_empty_error(e: crate::error::Error) -> bool { *e.0 == ErrorKind::Blob(BlobError::Empty) }
/// what decoding a blob with this type name and content gives
pub open spec fn decode_ok(name: Seq<char>, b: fileformat::Blob, r: BlobDecode) -> bool {
    match r {
        BlobDecode::OsmHeader(h) => name == "OSMHeader"@ && decoded::<crate::proto::osmformat::HeaderBlock>(b) == Some(h.header),
        BlobDecode::OsmData(d) => name == "OSMData"@ && decoded::<crate::proto::osmformat::PrimitiveBlock>(b) == Some(d.block),
        BlobDecode::Unknown(x) => x@ == name && name != "OSMHeader"@ && name != "OSMData"@,
    }
}
pub open spec fn decode_fails(name: Seq<char>, b: fileformat::Blob) -> bool {
    (name == "OSMHeader"@ && decoded::<crate::proto::osmformat::HeaderBlock>(b) is None)
    || (name == "OSMData"@ && decoded::<crate::proto::osmformat::PrimitiveBlock>(b) is None)
}
/// the type names are different texts
pub proof fn lemma_names()
    ensures "OSMHeader"@ != "OSMData"@
{
    reveal_strlit("OSMHeader");
    reveal_strlit("OSMData");
    assert("OSMHeader"@.len() == 9);
    assert("OSMData"@.len() == 7);
}
@end

# ---- blob types and contents
@fn BlobType::as_str() -> r [C11]
@ensures
- match *self { BlobType::OsmHeader => r@ == "OSMHeader"@, BlobType::OsmData => r@ == "OSMData"@, BlobType::Unknown(x) => r@ == x@ }
@end
@fn Blob::new(header, blob, offset) -> r [C08 C09]
@ensures
- r.header == header
- r.blob == blob
- r.offset == offset
@end
@fn Blob::get_type() -> r [C11 C12 C13 C15]
@ensures
- type_is(r, fileformat::type_of(self.header))
@start
proof { lemma_names(); }
@end
@fn Blob::offset() -> r [C08 C09]
@ensures
- r == self.offset
@end
@fn Blob::to_headerblock() -> r [C11]
@ensures
- match r { Ok(h) => decoded::<crate::proto::osmformat::HeaderBlock>(self.blob) == Some(h.header),
    Err(_) => decoded::<crate::proto::osmformat::HeaderBlock>(self.blob) is None }
- r matches Err(e) ==> no_content(self.blob) ==> is_empty_error(e)
@end
@fn Blob::to_primitiveblock() -> r [C11 C14 C15]
@ensures
- match r { Ok(h) => decoded::<crate::proto::osmformat::PrimitiveBlock>(self.blob) == Some(h.block),
    Err(_) => decoded::<crate::proto::osmformat::PrimitiveBlock>(self.blob) is None }
- r matches Err(e) ==> no_content(self.blob) ==> is_empty_error(e)
@end
@fn Blob::decode() -> r [C11 C12 C13]
@ensures
- r matches Ok(d) ==> decode_ok(fileformat::type_of(self.header), self.blob, d)
- r is Err ==> decode_fails(fileformat::type_of(self.header), self.blob)
- r matches Err(e) ==> no_content(self.blob) ==> is_empty_error(e)
@start
proof { lemma_names(); }
@end
@fn BlobHeader::new(header) -> r [C09]
@ensures
- r.header == header
@end
@fn BlobHeader::blob_type() -> r [C09 C15]
@ensures
- type_is(r, fileformat::type_of(self.header))
@start
proof { lemma_names(); }
@end
@fn BlobHeader::get_blob_size() -> r [C09]
@ensures
- r == fileformat::datasize_of(self.header)
@end
@fn decode_blob(blob) -> r [C11]
@ensures
- r matches Ok(m) ==> decoded::<T>(*blob) == Some(m)
- r is Err ==> decoded::<T>(*blob) is None
- r matches Err(e) ==> no_content(*blob) ==> is_empty_error(e)
@start
broadcast use crate::dep::ext::subseq;
@end

# ---- reading
@fn BlobReader::new(reader) -> r [C08]
@ensures
- r.reader == reader
- r.offset is None
- r.last_blob_ok
@end
@fn BlobReader::new_seekable(reader) -> r [C08 C09]
@requires
- reader.pos() >= 0
@ensures
- r matches Ok(b) ==> b.wf() && b.s() == reader.stream() && b.p() == reader.pos() && b.offset is Some && b.last_blob_ok
      && b.reader.clean() == reader.clean() && b.reader.reliable() == reader.reliable()
- r is Err ==> !reader.reliable()
@end
@fn BlobReader::from_path(path) -> r [C08 C09 C12]
@ensures
- r matches Ok(b) ==> b.wf() && b.s() == crate::dep::std::fs::file_at(path.names()) && b.p() == 0
      && b.offset == Some(ByteOffset(0)) && b.last_blob_ok
@end
@fn BlobReader::seekable_from_path(path) -> r [C08 C09]
@ensures
- r matches Ok(b) ==> b.wf() && b.s() == crate::dep::std::fs::file_at(path.names()) && b.p() == 0
      && b.offset == Some(ByteOffset(0)) && b.last_blob_ok
@end
@fn BlobReader::read_blob_header() -> r [C08 C09]
@requires
- old(self).wf()
@ensures
- final(self).wf()
- final(self).same_stream(old(self))
- final(self).p() >= old(self).p()
- match r {
      Some(Ok(h)) => hdr_at(old(self).s(), old(self).p()) == Some(h) && final(self).p() == body_at(old(self).s(), old(self).p())
          && final(self).last_blob_ok == old(self).last_blob_ok,
      Some(Err(_)) => !final(self).last_blob_ok && (!old(self).reader.reliable() || hdr_at(old(self).s(), old(self).p()) is None),
      None => old(self).p() + 4 > old(self).s().len() && final(self).last_blob_ok == old(self).last_blob_ok,
  }
- r matches Some(Ok(h)) ==> final(self).offset == off(old(self).offset, final(self).p()) && old(self).s().len() <= u64::MAX
- r matches Some(Err(_)) ==> !old(self).reader.reliable() || !old(self).reader.clean() || has_prefix(old(self).s(), old(self).p())
@start
broadcast use crate::dep::ext::subseq;
@end
@fn BlobReader::next() -> r [C08]
@requires
- old(self).wf()
@ensures
[C08 C09 C12 C13 C15] final(self).wf()
[C08 C09 C12 C13 C14 C15] final(self).same_stream(old(self))
[C08 C12 C13] final(self).p() >= old(self).p()
[C08 C12 C13] !old(self).last_blob_ok ==> r is None && !final(self).last_blob_ok
[C08 C09 C12 C13] r is None && old(self).last_blob_ok ==> old(self).p() + 4 > old(self).s().len() && final(self).last_blob_ok
[C08 C09 C12 C13 C14 C15] r matches Some(Ok(b)) ==> blob_at(old(self).s(), old(self).p()) == Some((b.header, b.blob)) && final(self).last_blob_ok
[C08 C09 C12 C13] r matches Some(Ok(b)) ==> final(self).p() == next_at(old(self).s(), old(self).p())
[C08 C09] r matches Some(Ok(b)) ==> b.offset == old(self).offset && final(self).offset == off(old(self).offset, final(self).p())
[C08 C09 C12 C13] r matches Some(Err(_)) ==> !final(self).last_blob_ok
[C08 C09 C12 C13] r matches Some(Err(_)) ==> !old(self).reader.reliable() || blob_at(old(self).s(), old(self).p()) is None
[C08 C12 C13] r matches Some(Err(_)) ==> !old(self).reader.reliable() || !old(self).reader.clean() || has_prefix(old(self).s(), old(self).p())
@start
broadcast use crate::dep::ext::subseq;
@end

# ---- seeking
@fn BlobReader::seek(pos) -> r [C09]
@requires
- old(self).wf()
@ensures
- final(self).wf()
- final(self).same_stream(old(self))
- r is Ok ==> final(self).p() == pos.0 && final(self).offset == Some(pos) && final(self).last_blob_ok
- r is Err ==> !old(self).reader.reliable() || pos.0 > i64::MAX
@end
@fn BlobReader::seek_raw(pos) -> r [C09]
@requires
- old(self).wf()
@ensures
- final(self).wf()
- final(self).same_stream(old(self))
- r matches Ok(o) ==> o as int == crate::dep::std::io::seek_target(old(self).reader, pos)
- r matches Ok(o) ==> final(self).p() == o && final(self).offset == Some(ByteOffset(o)) && final(self).last_blob_ok
- r is Err ==> !old(self).reader.reliable() || !(0 <= crate::dep::std::io::seek_target(old(self).reader, pos) <= i64::MAX)
@end
@fn BlobReader::blob_from_offset(pos) -> r [C09 C14 C15]
@requires
- old(self).wf()
@ensures
- final(self).wf()
- final(self).same_stream(old(self))
- r matches Ok(b) ==> blob_at(old(self).s(), pos.0 as int) == Some((b.header, b.blob)) && b.offset == Some(pos)
- r is Ok ==> final(self).p() == next_at(old(self).s(), pos.0 as int) && final(self).offset is Some && final(self).last_blob_ok
- r is Err ==> !old(self).reader.reliable() || pos.0 > i64::MAX || blob_at(old(self).s(), pos.0 as int) is None
@end
@fn BlobReader::next_header_skip_blob() -> r [C09 C15]
@requires
- old(self).wf()
@ensures
- final(self).wf()
- final(self).same_stream(old(self))
- !old(self).last_blob_ok ==> r is None && !final(self).last_blob_ok
- r is None && old(self).last_blob_ok ==> old(self).p() + 4 > old(self).s().len()
- r matches Some(Ok((h, o))) ==> hdr_at(old(self).s(), old(self).p()) == Some(h.header) && o == old(self).offset
- r matches Some(Ok(_)) ==> final(self).p() == next_at(old(self).s(), old(self).p()) && final(self).offset is Some && final(self).last_blob_ok
- r matches Some(Err(_)) ==> !final(self).last_blob_ok
- r matches Some(Err(_)) ==> !old(self).reader.reliable() || hdr_at(old(self).s(), old(self).p()) is None
      || next_at(old(self).s(), old(self).p()) > i64::MAX
- r matches Some(Err(_)) ==> !old(self).reader.reliable() || !old(self).reader.clean() || has_prefix(old(self).s(), old(self).p())
@end
