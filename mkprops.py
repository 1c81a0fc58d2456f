import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],obs=[],hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
SAMPLE="The tests decode five tiny files (three nodes, one way, one relation each); "
p("C01","Dense nodes decode to the running sums of their deltas",
 "Iterating a dense group yields exactly as many nodes as its id, latitude and longitude columns have in common, in file order. The k-th node's id is the sum of the first k id deltas and its nanodegree coordinates are offset + granularity * (sum of the first k latitude or longitude deltas), in 64-bit two's-complement arithmetic. This holds for every column content, including negative, zero and huge deltas and columns of unequal length, and decoding never panics.",
 ["inputs"],"all dense groups: every id/lat/lon column of any length and content, every block granularity and offset",
 SAMPLE+"one dense group of three nodes with default granularity and zero offset; no run of unequal, negative or overflowing deltas.",
 ["src/dense.rs","src/block.rs"],[("DenseNodeIter::next accumulates cid/clat/clon","src/dense.rs"),("DenseNode::nano_lat/nano_lon scale and shift","src/dense.rs")],
 [("cid, clat, clon","running sums of the deltas consumed so far","src/dense.rs DenseNodeIter")],["PrimitiveGroup::dense_nodes","DenseNode::id","DenseNode::nano_lat","DenseNode::nano_lon"])
p("C02","Dense tag list is split between nodes exactly at its delimiters",
 "For a dense group, the k-th node's raw tags are exactly the (key, value) index pairs between the (k-1)-th and the k-th zero delimiter of the group's packed tag array, in order, and no node sees another node's tags. An empty or exhausted array gives nodes without tags, a value index of zero does not end a node's tags, and a trailing key without a value is dropped. Iterating never panics, whatever the array holds.",
 ["inputs"],"all packed tag arrays (any length, any integers, missing or surplus delimiters, odd lengths) and all node counts",
 SAMPLE+"no dense tag list is ever compared with its packed array, and none is malformed.",
 ["src/dense.rs"],[("the chunk scan in DenseNodeIter::next","src/dense.rs"),("DenseRawTagIter, DenseTagIter","src/dense.rs")],
 [("keys_vals_index","start of the next node's tags in the packed array","src/dense.rs DenseNodeIter")],["DenseNode::raw_tags","DenseNode::tags"])
p("C03","Coordinates are offset + granularity * raw, in every unit and every element",
 "For nodes, dense nodes and way node locations, the nanodegree latitude (longitude) is the block's latitude (longitude) offset plus granularity times the stored value, with granularity 100 and offset 0 when the block does not set them. The decimicrodegree value is the nanodegree value divided by 100, truncated toward zero, and the degree value is the nanodegree value times 1e-9 in double precision. Latitude and longitude are never exchanged, and no stored value makes an accessor panic.",
 ["inputs"],"all stored coordinates, granularities (set or unset) and offsets, for the three element kinds that carry coordinates",
 SAMPLE+"all with unset granularity and zero offsets, so a wrong offset, a swapped offset or a dropped granularity goes unnoticed.",
 ["src/elements.rs","src/dense.rs","src/proto/osmformat.proto"],[("nano_lat, nano_lon, decimicro_*, lat, lon of Node, DenseNode, WayNodeLocation","src/elements.rs, src/dense.rs"),("WayNodeLocationsIter::next","src/elements.rs")],[],["Node::nano_lat","DenseNode::decimicro_lon","WayNodeLocation::lat"])
p("C04","Way references and node locations are the running sums of their deltas",
 "A way's refs yield exactly one id per stored delta, the k-th being the sum of the first k deltas (64-bit two's complement), and raw_refs returns the stored deltas unchanged. A way's node locations yield exactly as many positions as its latitude and longitude columns have in common, the k-th computed from the sums of the first k deltas of each; a way without those columns has none. A way's id is the stored id.",
 ["inputs"],"all ways: any refs, lat and lon columns, equal or unequal in length, any block granularity and offset",
 SAMPLE+"one way with four references, and no block with an offset.",
 ["src/elements.rs"],[("WayRefIter::next","src/elements.rs"),("WayNodeLocationsIter::next","src/elements.rs"),("Way::refs, Way::node_locations, Way::raw_refs","src/elements.rs")],
 [("current, clat, clon","running sums","src/elements.rs")],["Way::refs","Way::raw_refs","Way::node_locations","Way::id"])
p("C05","Relation members are decoded in order with id, type and role",
 "A relation's members are exactly the positions its role, member-id and type columns have in common, in order: the k-th has the sum of the first k id deltas as its id, the k-th stored role index as role_sid, and the k-th stored type (node, way or relation). Its role is the string-table entry at that index, or an error. A member whose stored type is none of the three ends the member list; nothing in the columns makes iteration panic.",
 ["inputs"],"all relations: any role, id-delta and type columns, of equal or unequal length, with any 32-bit type value",
 SAMPLE+"one relation with a single member, so neither the delta decoding nor the pairing of columns is exercised.",
 ["src/elements.rs"],[("RelMemberIter::next","src/elements.rs"),("RelMemberType conversion","src/elements.rs"),("RelMember::role","src/elements.rs")],
 [("current_member_id","running sum of the id deltas","src/elements.rs RelMemberIter")],["Relation::members","RelMember::role","Relation::id"])
p("C06","Tags and strings come from the right string-table entries",
 "For nodes, ways, relations and dense nodes, the i-th tag is the pair of string-table entries at the element's i-th key and value index, in order, and raw_tags gives those indices; iteration ends at the first position where either index is missing or names no valid UTF-8 entry. Looking up a single string (role, user name) returns exactly the entry at that index, or an error that carries the index: out of bounds if there is no such entry, invalid UTF-8 if it is not text. No index, including a negative one, ever yields another string or a panic.",
 ["inputs"],"all string tables (any bytes) and all index columns, valid, out of range, negative or non-UTF-8, equal or unequal in length",
 SAMPLE+"every index in them is valid and every string is ASCII.",
 ["src/block.rs","src/elements.rs","src/dense.rs","src/error.rs"],[("str_from_stringtable, get_stringtable_key_value","src/block.rs"),("TagIter, RawTagIter","src/elements.rs"),("DenseTagIter, DenseRawTagIter","src/dense.rs")],[],["Node::tags","Way::tags","Relation::tags","DenseNode::tags","RelMember::role","Info::user","DenseNodeInfo::user"])
p("C07","Block traversal visits every element of every group exactly once",
 "For a decoded block, elements(), for_each_element and the per-group iterators each visit every node, dense node, way and relation of every group exactly once, with groups in file order and elements of one kind in stored order. Groups that are empty or hold several kinds lose and duplicate nothing, and traversal ends after the last element. The string table handed out is the stored one.",
 ["inputs"],"all blocks: any number of groups, each with any mixture of nodes, dense nodes, ways and relations, including empty groups in any position",
 SAMPLE+"blocks of at most three non-empty single-kind groups; no empty group, no mixed group, no group after an empty one.",
 ["src/block.rs"],[("BlockElementsIter::step state machine","src/block.rs"),("PrimitiveBlock::for_each_element","src/block.rs"),("GroupIter, GroupNodeIter, GroupWayIter, GroupRelationIter","src/block.rs")],
 [("state","which element kind of the current group is being drained","src/block.rs BlockElementsIter")],["PrimitiveBlock::elements","PrimitiveBlock::for_each_element","PrimitiveBlock::groups"])
p("C08","A stream is cut into blobs exactly as its length prefixes say",
 "Reading blobs from a stream yields, for each blob in order, the header and content parsed from exactly the bytes its 4-byte big-endian length prefix and its header's data size delimit, and reports the stream offset of that length prefix when offsets are known. Iteration ends without error when fewer than four bytes remain at a blob boundary; a header of 64 KiB or more, a header or content that does not parse, a negative data size, content cut short by the end of the stream, or any other I/O failure is reported as an error, once, after which iteration ends. No byte sequence makes it panic or read outside the delimited bytes.",
 ["inputs","fault_sequences"],"all byte streams (well-formed, truncated at any byte, corrupt) and all readers, including ones that fail at any read",
 SAMPLE+"all well-formed and of two or three blobs; no truncated, oversized, negative-size or failing stream is ever read.",
 ["src/blob.rs"],[("BlobReader::read_blob_header","src/blob.rs"),("Iterator for BlobReader","src/blob.rs"),("MAX_BLOB_HEADER_SIZE","src/blob.rs")],
 [("offset","stream position of the next blob, if known","src/blob.rs BlobReader"),("last_blob_ok","false once an error was returned","src/blob.rs BlobReader")],["BlobReader::next","Blob::offset"])
p("C09","Seeking and skipping agree with sequential reading, whatever came before",
 "Reading the blob at an offset reported earlier gives the blob that sequential reading gives there and leaves the reader at the start of the following blob, regardless of earlier reads, skips, seeks or failures on that reader. Skipping through headers visits the same offsets, blob types and sizes as reading the blobs. A position with no blob gives an error, and offsets keep being reported correctly after every seek.",
 ["inputs","histories","fault_sequences"],"all seekable streams and all sequences of next, next_header_skip_blob, seek, seek_raw and blob_from_offset on one reader, including after failed calls",
 "Only a doc example re-reads the first blob of one file; no test skips a blob, seeks after an error, or compares skipping with reading.",
 ["src/blob.rs"],[("BlobReader::seek, seek_raw, blob_from_offset, next_header_skip_blob","src/blob.rs")],
 [("offset","equals the reader's stream position whenever it is known","src/blob.rs BlobReader")],["BlobReader::blob_from_offset","BlobReader::next_header_skip_blob","BlobReader::seek"])
p("C10","The memory-map reader frames blobs like the stream reader and stays in bounds",
 "Over a memory-mapped file, the blob iterator yields for every well-formed file the same sequence of blob types, offsets and decoded contents as the stream reader. Truncated or corrupt data (1 to 3 trailing bytes, a header of 64 KiB or more, header or content longer than what is left, a negative data size, an unparsable header) gives one error, after which iteration ends until a seek. No file content and no seek position, even beyond the end, makes it panic or read out of bounds.",
 ["inputs","histories"],"all file contents and all sequences of next and seek",
 SAMPLE+"only well-formed ones are mapped, and seeking is only tried to offset 0.",
 ["src/mmap_blob.rs"],[("Iterator for MmapBlobReader","src/mmap_blob.rs"),("MmapBlob::decode, get_type","src/mmap_blob.rs")],
 [("offset","byte position of the next blob in the map","src/mmap_blob.rs MmapBlobReader"),("last_blob_ok","false once an error was returned","src/mmap_blob.rs MmapBlobReader")],["MmapBlobReader::next","MmapBlobReader::seek","MmapBlob::offset","MmapBlob::decode"])
p("C11","Blob contents decode by declared type and storage, within the size limit",
 "A blob of type OSMHeader decodes to a header block, OSMData to a primitive block, and any other type to Unknown with its name, without touching the content; the comparison is exact. Content comes from the raw bytes if present, else from the zlib stream, and is an Empty error if neither is present. Content of 32 MiB or more is rejected, in raw and in compressed form, and is never silently cut off.",
 ["inputs"],"all blobs: any type string, any combination of stored content kinds, any content size around the limit, any bytes",
 SAMPLE+"two type strings, no blob without data, none near the size limit.",
 ["src/blob.rs","src/mmap_blob.rs"],[("decode_blob","src/blob.rs"),("Blob::get_type, decode, to_headerblock, to_primitiveblock","src/blob.rs"),("BlobHeader::blob_type, get_blob_size","src/blob.rs")],[],["Blob::decode","Blob::get_type","MmapBlob::decode","BlobHeader::blob_type"])
p("C12","Sequential reading hands over every element, in order, until an error",
 "ElementReader::for_each calls the closure once for every element of every data blob, blobs in file order, and ignores header and unknown blobs wherever they stand. It returns Ok exactly when the whole stream was read and decoded without error; otherwise it returns the first error, after having handed over all elements of the blobs before it and none after.",
 ["inputs","fault_sequences"],"all streams: any number and order of header, data and unknown blobs, and any read, framing or decoding failure at any point",
 SAMPLE+"counts five elements in one data blob; no file has several data blobs, an unknown blob, or an error.",
 ["src/reader.rs","src/block.rs","src/blob.rs"],[("ElementReader::for_each","src/reader.rs"),("PrimitiveBlock::for_each_element","src/block.rs")],[],["ElementReader::for_each"])
p("C13","Parallel map-reduce equals the sequential reduction, whatever the schedule",
 "When the reduction is associative and commutative and the identity is neutral, par_map_reduce returns the reduction over exactly the elements that sequential reading visits, each mapped once, independently of thread count and scheduling. If reading or decoding any blob fails it returns an error, and it never returns Ok with part of the elements missing.",
 ["inputs","schedules","fault_sequences"],"all streams, all schedules and splittings of the work, all commutative reductions, and any failing blob at any position",
 SAMPLE+"one count over five elements in one blob on one schedule; nothing with several blobs or an error.",
 ["src/reader.rs"],[("ElementReader::par_map_reduce","src/reader.rs")],[],["ElementReader::par_map_reduce"])
p("C14","Filtered ways come with all their nodes and nothing else",
 "read_ways_and_deps offers every way in the file to the filter exactly once per call, hands exactly the accepted ways to the callback, and then hands over exactly those nodes and dense nodes of the file whose id is referenced by an accepted way, each stored occurrence once. This holds for any order and mixture of elements across blobs, and for any earlier calls on the same reader, failed ones included. A call that fails to read the index or a data blob it needs returns an error.",
 ["inputs","histories","fault_sequences"],"all files and filters, and all histories of calls on one indexed reader including calls that failed",
 SAMPLE+"one call with one building way and its three nodes in a single blob; the blob-skipping index is never exercised by a second blob or a second call.",
 ["src/indexed.rs"],[("IndexedReader::read_ways_and_deps","src/indexed.rs"),("update_element_id_ranges, node_range_included, range_included","src/indexed.rs"),("create_index","src/indexed.rs")],
 [("index","per blob: offset, kind and, once decoded, the minimum and maximum id of each element type","src/indexed.rs IndexedReader")],["IndexedReader::read_ways_and_deps"])
p("C15","Indexed node iteration visits every node once, on every call",
 "IndexedReader::for_each_node calls the closure exactly once for every node and dense node stored in the file, blobs in file order, and never for a way or relation, however often it and the other methods of the reader were called before and whether or not those calls failed. Building the index records every blob of the file once with its offset and kind. A file with an unreadable blob header or an undecodable data blob gives an error on every call.",
 ["inputs","histories","fault_sequences"],"all files and all histories of create_index, for_each_node and read_ways_and_deps on one reader, including failed calls",
 "No test calls for_each_node on more than one blob, twice, or after another method; only a doc example runs it once.",
 ["src/indexed.rs"],[("IndexedReader::for_each_node","src/indexed.rs"),("create_index","src/indexed.rs"),("nodes_available, ways_available","src/indexed.rs")],
 [("index","per blob: offset, kind, id ranges","src/indexed.rs IndexedReader")],["IndexedReader::for_each_node","IndexedReader::create_index"])
p("C16","Element metadata is decoded faithfully",
 "For nodes, ways and relations each metadata field is reported exactly if stored and absent otherwise; for dense nodes the k-th node has metadata exactly if the version, timestamp, changeset, uid and user columns all reach k, with the stored version and the sums of the first k deltas of the others (two's complement). Timestamps in milliseconds are the stored value times the block's date granularity (1000 if unset). An element is visible unless its visible flag is stored as false, and deleted is the opposite of visible; no stored value makes an accessor panic.",
 ["inputs"],"all metadata messages and dense metadata columns of any length and content, any date granularity",
 SAMPLE+"checks uid and visibility only; no timestamp, changeset, version or user name is ever compared, and no column is short.",
 ["src/dense.rs","src/elements.rs","src/proto/osmformat.proto"],[("DenseNodeInfoIter::next","src/dense.rs"),("Info accessors","src/elements.rs"),("DenseNodeInfo accessors","src/dense.rs")],
 [("ctimestamp, cchangeset, cuid, cuser_sid","running sums","src/dense.rs DenseNodeInfoIter")],["Node::info","Way::info","Relation::info","DenseNode::info"])
p("C17","Header block accessors report exactly what the header stores",
 "Required and optional features are the stored lists in order; writing program, source and the replication timestamp, sequence number and base URL are each reported exactly if stored, and None otherwise, never one in place of another. The bounding box is absent if not stored; otherwise its left, right, top and bottom are the stored nanodegree values of the same name times 1e-9.",
 ["inputs"],"all header messages: every subset of optional fields, any values",
 SAMPLE+"only the two feature lists are ever looked at.",
 ["src/block.rs","src/proto/osmformat.proto"],[("HeaderBlock accessors","src/block.rs")],[],["HeaderBlock::bbox","HeaderBlock::source","HeaderBlock::osmosis_replication_timestamp"])
p("C18","Announced iterator lengths equal the number of items",
 "Before and after any number of steps, the exact length announced by the group iterators, way refs, and raw tags of dense nodes equals the number of items still to come; for the iterators over parallel columns (dense nodes, tags, raw tags, members, node locations) it does so whenever the columns have equal length and, for tags, every string is valid.",
 ["inputs","histories"],"all blocks whose parallel columns agree, and every number of steps already taken",
 "No test asks any iterator for its length.",
 ["src/block.rs","src/dense.rs","src/elements.rs"],[("size_hint of the ExactSizeIterator implementations","src/block.rs, src/dense.rs, src/elements.rs")],[],["ExactSizeIterator::len"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    import re
    n=len(re.findall(r'[.!?](?:\s|$)',x['statement'])); print(x['id'],n)
