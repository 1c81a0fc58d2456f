# String table
@mod block

@spec
/// the string table
pub open spec fn table(b: osmformat::PrimitiveBlock) -> Seq<Vec<u8>> { b.stringtable.get().s@ }
/// the text at an index of the string table; None if there is no such entry or it is not UTF-8
pub open spec fn str_at(b: osmformat::PrimitiveBlock, i: int) -> Option<Seq<char>> {
    if 0 <= i < table(b).len() { crate::dep::std::str::utf8(table(b)[i]@) } else { None }
}
/// the result of a lookup of one string
pub open spec fn lookup(b: osmformat::PrimitiveBlock, index: usize, r: ::std::result::Result<&str, crate::error::Error>) -> bool {
    match r {
        Ok(s) => str_at(b, index as int) == Some(s@) && index < table(b).len(),
        Err(e) => str_at(b, index as int) is None && match *e.0 {
            ErrorKind::StringtableUtf8 { err: _, index: i } => i == index && index < table(b).len(),
            ErrorKind::StringtableIndexOutOfBounds { index: i } => i == index && index >= table(b).len(),
            _ => false,
        },
    }
}
/// an index column entry as a string index
pub open spec fn opt_str_at(b: osmformat::PrimitiveBlock, i: Option<usize>) -> Option<Seq<char>> {
    match i { Some(x) => str_at(b, x as int), None => None }
}
@end

@fn str_from_stringtable(block, index) -> r [C05 C06 C16]
@ensures
[C05 C06 C16] lookup(*block, index, r)
@end

@fn get_stringtable_key_value(block, key_index, value_index) -> r [C06]
@ensures
- match r {
      Some(x) => opt_str_at(*block, key_index) == Some(x.0@) && opt_str_at(*block, value_index) == Some(x.1@),
      None => opt_str_at(*block, key_index) is None || opt_str_at(*block, value_index) is None,
  }
@end
