@@ item errors::ULogError
@ derive
Debug
@ after
impl From<crate::xstd::io::Error> for ULogError { fn from(e: crate::xstd::io::Error) -> Self { ULogError::Io(e) } }
impl From<FromUtf8Error> for ULogError { fn from(e: FromUtf8Error) -> Self { ULogError::Utf8(e) } }
impl vstd::std_specs::convert::FromSpecImpl<crate::xstd::io::Error> for ULogError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: crate::xstd::io::Error) -> Self { ULogError::Io(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<FromUtf8Error> for ULogError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: FromUtf8Error) -> Self { ULogError::Utf8(e) }
}
@@ path thiserror -
