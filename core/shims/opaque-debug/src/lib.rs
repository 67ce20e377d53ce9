//! `implement!(T)`: a Debug that shows the type's name only.
#![no_std]
#[doc(hidden)]
pub extern crate core as __core;

#[macro_export]
macro_rules! implement {
    ($struct:ident) => {
        impl $crate::__core::fmt::Debug for $struct {
            fn fmt(&self, f: &mut $crate::__core::fmt::Formatter) -> Result<(), $crate::__core::fmt::Error> {
                write!(f, concat!(stringify!($struct), " {{ ... }}"))
            }
        }
    };
    ($struct:ident<$($p:ident),+>) => {
        impl<$($p),+> $crate::__core::fmt::Debug for $struct<$($p),+> {
            fn fmt(&self, f: &mut $crate::__core::fmt::Formatter) -> Result<(), $crate::__core::fmt::Error> {
                write!(f, concat!(stringify!($struct), " {{ ... }}"))
            }
        }
    };
}
