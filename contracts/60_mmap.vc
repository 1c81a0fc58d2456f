# The memory-map reader
@mod mmap_blob

@spec
impl Mmap {
    /// the mapped bytes
    pub open spec fn v(&self) -> Seq<u8> { self.mmap.view() }
}
impl<'a> MmapBlobReader<'a> {
    pub open spec fn s(&self) -> Seq<u8> { self.mmap.v() }
    pub open spec fn p(&self) -> int { self.offset as int }
}
/// a well-formed file: blobs from p to the end
pub open spec fn whole(s: Seq<u8>, p: int) -> bool
    decreases s.len() - p
{
    0 <= p <= s.len() && (p == s.len() || (crate::blob::blob_at(s, p) is Some && crate::blob::next_at(s, p) > p && whole(s, crate::blob::next_at(s, p))))
}
/// C10: client of both readers, verified against their contracts only: over a well-formed file they stay in step to the end
pub fn vp_same_sequence<R: crate::dep::std::io::Read + Send>(stream: crate::blob::BlobReader<R>, map: &Mmap)
    requires
        stream.wf(), stream.s() == map.v(), stream.p() == 0, stream.offset == Some(ByteOffset(0)), stream.last_blob_ok,
        stream.reader.reliable(), stream.reader.clean(), whole(map.v(), 0),
{
    let mut a = stream;
    let mut b = map.blob_iter();
    let ghost s = map.v();
    loop
        invariant
            a.wf(), a.s() == s, b.s() == s, a.p() == b.p(), a.last_blob_ok, b.last_blob_ok, a.reader.reliable(), a.reader.clean(),
            a.offset is Some, whole(s, a.p()),
        decreases s.len() - a.p()
    {
        match (a.next(), b.next()) {
            (None, None) => { return; }
            (Some(Ok(x)), Some(Ok(y))) => {
                assert(x.offset == Some(y.offset));
                assert(x.header == y.header);
                assert(crate::dep::protobuf::parsed::<fileformat::Blob>(y.data@) == Some(x.blob));
            }
            _ => { assert(false); }
        }
    }
}
/// C09: client of two stream readers, verified against their contracts only: over a well-formed stream, skipping
/// through headers and reading stay in step to the end, and reading any visited offset again on a third reader,
/// whatever happened to that one before, gives the same blob and leaves it at the following one
pub fn vp_skip_and_seek<R: crate::dep::std::io::Read + crate::dep::std::io::Seek + Send>(skipping: crate::blob::BlobReader<R>, reading: crate::blob::BlobReader<R>, used: crate::blob::BlobReader<R>)
    requires
        skipping.wf(), reading.wf(), used.wf(), skipping.p() == reading.p(), reading.offset is Some, skipping.offset is Some,
        skipping.last_blob_ok, reading.last_blob_ok, whole(reading.s(), reading.p()), reading.s().len() <= i64::MAX,
        skipping.s() == reading.s(), used.s() == reading.s(),
        skipping.reader.reliable(), skipping.reader.clean(), reading.reader.reliable(), reading.reader.clean(), used.reader.reliable(),
{
    let mut a = skipping;
    let mut b = reading;
    let mut c = used;
    let ghost s = reading.s();
    loop
        invariant
            a.wf(), b.wf(), c.wf(), a.s() == s, b.s() == s, c.s() == s, a.p() == b.p(), a.last_blob_ok, b.last_blob_ok,
            a.reader.reliable(), a.reader.clean(), b.reader.reliable(), b.reader.clean(), c.reader.reliable(),
            a.offset is Some, b.offset is Some, whole(s, b.p()), s.len() <= i64::MAX,
        decreases s.len() - b.p()
    {
        let ghost q = b.p();
        match (a.next_header_skip_blob(), b.next()) {
            (None, None) => { return; }
            (Some(Ok((h, o))), Some(Ok(x))) => {
                assert(o == x.offset);
                assert(h.header == x.header);
                assert(x.offset is Some);
                match x.offset {
                    Some(at) => match c.blob_from_offset(at) {
                        Ok(y) => {
                            assert(y.header == x.header && y.blob == x.blob && y.offset == x.offset);
                            assert(c.p() == b.p() && c.last_blob_ok && c.offset is Some);
                        }
                        Err(_) => { assert(false); }
                    }
                    None => { assert(false); }
                }
            }
            _ => { assert(false); }
        }
    }
}
@end

@fn Mmap::from_file(file) -> r [C10]
@ensures
- r matches Ok(m) ==> m.v() == crate::dep::std::io::Read::stream(file)
@end
@fn Mmap::from_path(path) -> r [C10]
@ensures
- r matches Ok(m) ==> m.v() == crate::dep::std::fs::file_at(path.names())
@end
@fn Mmap::as_slice() -> r [C10]
@ensures
- r@ == self.v()
@end
@fn Mmap::blob_iter() -> r [C10]
@ensures
- r.s() == self.v()
- r.p() == 0
- r.last_blob_ok
@end
@fn MmapBlobReader::new(mmap) -> r [C10]
@ensures
- r.s() == mmap.v()
- r.p() == 0
- r.last_blob_ok
@end
@fn MmapBlobReader::seek(pos) -> r [C10]
@ensures
- final(self).s() == old(self).s()
- final(self).p() == pos.0
- final(self).last_blob_ok
@end
@fn MmapBlobReader::next() -> r [C10]
@ensures
- final(self).s() == old(self).s()
- !old(self).last_blob_ok ==> r is None && !final(self).last_blob_ok && final(self).p() == old(self).p()
- r is None && old(self).last_blob_ok ==> old(self).p() >= old(self).s().len() && final(self).last_blob_ok && final(self).p() == old(self).p()
- r matches Some(Ok(b)) ==> old(self).last_blob_ok && final(self).last_blob_ok && crate::blob::framed_at(old(self).s(), old(self).p())
- r matches Some(Ok(b)) ==> crate::blob::hdr_at(old(self).s(), old(self).p()) == Some(b.header)
- r matches Some(Ok(b)) ==> b.data@ == crate::blob::data_at(old(self).s(), old(self).p())
- r matches Some(Ok(b)) ==> b.offset == ByteOffset(old(self).offset as u64)
- r matches Some(Ok(b)) ==> final(self).p() == crate::blob::next_at(old(self).s(), old(self).p())
- r matches Some(Err(_)) ==> !final(self).last_blob_ok && final(self).p() == old(self).p()
- r matches Some(Err(_)) ==> old(self).p() < old(self).s().len() && !crate::blob::framed_at(old(self).s(), old(self).p())
@start
broadcast use crate::dep::ext::subtail;
@end
@fn MmapBlob::decode() -> r [C10 C11]
@ensures
- r matches Ok(d) ==> crate::dep::protobuf::parsed::<fileformat::Blob>(self.data@) is Some
      && crate::blob::decode_ok(fileformat::type_of(self.header), crate::dep::protobuf::parsed::<fileformat::Blob>(self.data@)->0, d)
- r is Err ==> crate::dep::protobuf::parsed::<fileformat::Blob>(self.data@) is None
      || crate::blob::decode_fails(fileformat::type_of(self.header), crate::dep::protobuf::parsed::<fileformat::Blob>(self.data@)->0)
@start
proof { crate::blob::lemma_names(); }
@end
@fn MmapBlob::get_type() -> r [C10 C11]
@ensures
- crate::blob::type_is(r, fileformat::type_of(self.header))
@start
proof { crate::blob::lemma_names(); }
@end
@fn MmapBlob::offset() -> r [C10]
@ensures
- r == self.offset
@end
