@@ path std::io crate::xstd::io
@@ path std::collections crate::xstd::collections
@@ path byteorder crate::xstd::byteorder
@@ path io crate::xstd::io
@@ rename to_le_bytes x_to_le_bytes
@@ rename clone x_clone
@@ rename to_string x_to_string
@@ rename to_owned x_to_string
@@ rename into x_into
@@ rename try_into x_try_into
@@ rename starts_with x_starts_with
@@ rename retain x_retain
@@ callpath Shared::from x_shared_from
@@ callpath u16::try_from x_u16_try_from
@@ callpath u8::try_from x_u8_try_from
@@ rename to_vec x_to_vec
@@ callpath size_of::<f32> x_size_of_4
@@ callpath size_of::<f64> x_size_of_8
@@ rename trim_end_matches x_trim_end_matches
@@ callpath String::from_utf8_lossy x_from_utf8_lossy
@@ callpath char::from x_char_from
@@ rename contains x_contains
