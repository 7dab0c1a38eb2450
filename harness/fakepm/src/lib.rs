pub use proc_macro2::fakepm::*;
