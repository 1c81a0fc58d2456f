# Errors
@mod error

@fn new_error(kind) -> r [C06 C08 C09 C10 C11]
@ensures
- *r.0 == kind
@end
@fn new_blob_error(kind) -> r [C08 C09 C10 C11]
@ensures
- *r.0 == ErrorKind::Blob(kind)
@end
@fn new_protobuf_error(err, location) -> r [C08 C09 C10 C11]
@ensures
- *r.0 == (ErrorKind::Protobuf { err, location })
@end
@fn Error::kind() -> r [C06]
@ensures
- *r == *self.0
@end
@fn Error::into_kind() -> r [C06]
@ensures
- r == *self.0
@end
@fn Error::from(err) -> r [C08 C09 C10]
@ensures
- *r.0 == ErrorKind::Io(err)
@end
