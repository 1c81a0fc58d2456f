# The element reader: sequential and parallel reading
@mod reader

@spec
use crate::blob::{blob_at, next_at, decoded, decode_fails, has_prefix};
use crate::proto::{fileformat, osmformat};
use crate::block::{ElemV, block_logged};
pub open spec fn is_data(h: fileformat::BlobHeader) -> bool { fileformat::type_of(h) == "OSMData"@ }
/// where the n-th blob after the one at p starts
pub open spec fn nth_at(s: Seq<u8>, p: int, n: int) -> int
    decreases n
{
    if n <= 0 { p } else { next_at(s, nth_at(s, p, n - 1)) }
}
/// the blob at p is readable, and decodes if it is a header block or a data block
pub open spec fn good_at(s: Seq<u8>, p: int) -> bool {
    blob_at(s, p) matches Some((h, b)) && !decode_fails(fileformat::type_of(h), b)
}
/// the data block at p, if that blob is one
pub open spec fn data_block_at(s: Seq<u8>, p: int) -> Option<osmformat::PrimitiveBlock> {
    match blob_at(s, p) {
        Some((h, b)) => if is_data(h) { decoded::<osmformat::PrimitiveBlock>(b) } else { None },
        None => None,
    }
}
/// the blob at p is fine; exactly its elements were handed over
pub open spec fn blob_logged(s: Seq<u8>, p: int, l0: Seq<ElemV>, l1: Seq<ElemV>) -> bool {
    good_at(s, p) && match data_block_at(s, p) { Some(b) => block_logged(l0, l1, b), None => l0 == l1 }
}
/// the first n blobs from p are fine; their elements were handed over, blob after blob
pub open spec fn reads(s: Seq<u8>, p: int, l0: Seq<ElemV>, l1: Seq<ElemV>, n: int) -> bool
    decreases n
{
    if n <= 0 { l0 == l1 } else {
        exists|m: Seq<ElemV>| reads(s, p, l0, m, n - 1) && #[trigger] blob_logged(s, nth_at(s, p, n - 1), m, l1)
    }
}
/// some number of blobs from p, then nothing but fewer than four bytes
pub open spec fn read_to_end(s: Seq<u8>, p: int, l0: Seq<ElemV>, l1: Seq<ElemV>) -> bool {
    exists|n: int| n >= 0 && #[trigger] reads(s, p, l0, l1, n) && nth_at(s, p, n) + 4 > s.len()
}
/// some number of blobs from p, then one that cannot be read or decoded
pub open spec fn read_to_error<R: Read>(r: BlobReader<R>, l0: Seq<ElemV>, l1: Seq<ElemV>) -> bool {
    exists|n: int| n >= 0 && #[trigger] reads(r.s(), r.p(), l0, l1, n) && fails_at(r, nth_at(r.s(), r.p(), n))
}
pub open spec fn fails_at<R: Read>(r: BlobReader<R>, q: int) -> bool {
    !r.reader.reliable() || (!good_at(r.s(), q) && (!r.reader.clean() || has_prefix(r.s(), q)))
}
pub proof fn lemma_reads(s: Seq<u8>, p: int, l0: Seq<ElemV>, m: Seq<ElemV>, l1: Seq<ElemV>, n: int)
    requires 0 <= n, reads(s, p, l0, m, n), blob_logged(s, nth_at(s, p, n), m, l1)
    ensures reads(s, p, l0, l1, n + 1)
{
    let j = n + 1;
    assert(reads(s, p, l0, m, j - 1) && blob_logged(s, nth_at(s, p, j - 1), m, l1));
}
impl<R: Read> ElementReader<R> {
    pub open spec fn wf(&self) -> bool { self.blob_iter.wf() && self.blob_iter.last_blob_ok }
}
@end

@fn ElementReader::new(reader) -> r [C12 C13]
@ensures
- r.blob_iter.reader == reader
- reader.pos() >= 0 ==> r.wf()
@end
@fn ElementReader::from_path(path) -> r [C12 C13]
@ensures
- r matches Ok(x) ==> x.wf() && x.blob_iter.s() == crate::dep::std::fs::file_at(path.names()) && x.blob_iter.p() == 0
@end
@fn ElementReader::for_each(f) -> r [C12]
@requires
- self.wf()
@ensures
- r is Ok ==> read_to_end(self.blob_iter.s(), self.blob_iter.p(), old(f).log(), final(f).log())
- r is Err ==> read_to_error(self.blob_iter, old(f).log(), final(f).log())
@start
let ghost l0 = f.log();
let ghost s = self.blob_iter.s();
let ghost p0 = self.blob_iter.p();
let ghost mut n: int = 0;
proof { crate::blob::lemma_names(); }
@loop 0 iter
invariant
    $it.wf(),
    $it.same_stream(&self.blob_iter),
    $it.last_blob_ok,
    n >= 0,
    reads(s, p0, l0, f.log(), n),
    $it.p() == nth_at(s, p0, n),
decreases s.len() - $it.p()
@loop 0 begin
let ghost m = f.log();
proof { assert(good_at(s, nth_at(s, p0, n)) || !good_at(s, nth_at(s, p0, n))); }
@loop 0 end
proof {
    lemma_reads(s, p0, l0, m, f.log(), n);
    n = n + 1;
}
@end
