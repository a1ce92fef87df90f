//! syn without the compiler's proc_macro bridge: everything is the real syn, only
//! `parse_macro_input!` works on proc_macro2 token streams (the macros under test run as
//! ordinary functions).
pub use realsyn::*;

#[macro_export]
macro_rules! parse_macro_input {
    ($tokens:ident as $ty:ty) => {
        match $crate::parse2::<$ty>($tokens) {
            Ok(data) => data,
            Err(err) => return err.to_compile_error().into(),
        }
    };
    ($tokens:ident with $parser:path) => {
        match $crate::parse::Parser::parse2($parser, $tokens) {
            Ok(data) => data,
            Err(err) => return err.to_compile_error().into(),
        }
    };
    ($tokens:ident) => {
        $crate::parse_macro_input!($tokens as _)
    };
}
