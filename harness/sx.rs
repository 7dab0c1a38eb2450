//! Harness side of the symbolic executor's intrinsics.
#![allow(dead_code)]
pub mod raw {
    extern "C" {
        pub fn sx_input(p: *const u8, l: usize, bits: u32) -> u64;
        pub fn sx_mirror(p: *const u8, l: usize, bits: u32) -> u64;
        pub fn sx_param(p: *const u8, l: usize, default: u64) -> u64;
        pub fn sx_assume(b: bool);
        pub fn sx_check(b: bool, p: *const u8, l: usize);
        pub fn sx_reach(p: *const u8, l: usize);
        pub fn sx_expect_panic(b: bool);
        pub fn sx_allow_panic();
        pub fn sx_forbid_panic();
        pub fn sx_bound_loops(n: u64);
        pub fn sx_fsame64(a: f64, b: f64) -> bool;
        pub fn sx_fsame32(a: f32, b: f32) -> bool;
        pub fn sx_branch(b: bool) -> bool;
        pub fn sx_pick(v: u64) -> u64;
        pub fn sx_out(p: *const u8, l: usize, v: u64);
        pub fn sx_ftoken(p: *const u8, l: usize, v: f64);
        pub fn sx_symbolic() -> bool;
        pub fn sx_stop() -> !;
        pub fn sx_print(p: *const u8, l: usize);
    }
}
pub fn input(n: &str, bits: u32) -> u64 { unsafe { raw::sx_input(n.as_ptr(), n.len(), bits) } }
/// the value of the latest input of that name, through a second variable
pub fn mirror(n: &str, bits: u32) -> u64 { unsafe { raw::sx_mirror(n.as_ptr(), n.len(), bits) } }
/// a bound chosen by the driver
pub fn param(n: &str, default: u64) -> u64 { unsafe { raw::sx_param(n.as_ptr(), n.len(), default) } }
pub fn assume(b: bool) { unsafe { raw::sx_assume(b) } }
pub fn check(b: bool, n: &str) { unsafe { raw::sx_check(b, n.as_ptr(), n.len()) } }
pub fn reach(n: &str) { unsafe { raw::sx_reach(n.as_ptr(), n.len()) } }
pub fn expect_panic(b: bool) { unsafe { raw::sx_expect_panic(b) } }
pub fn allow_panic() { unsafe { raw::sx_allow_panic() } }
pub fn forbid_panic() { unsafe { raw::sx_forbid_panic() } }
/// leave out paths that take one of the branches on symbolic conditions more than n times (0: no limit)
pub fn bound_loops(n: u64) { unsafe { raw::sx_bound_loops(n) } }
pub fn branch(b: bool) -> bool { unsafe { raw::sx_branch(b) } }
pub fn pick(v: u64) -> u64 { unsafe { raw::sx_pick(v) } }
pub fn out(n: &str, v: u64) { unsafe { raw::sx_out(n.as_ptr(), n.len(), v) } }
pub fn ftoken(n: &str, v: f64) { unsafe { raw::sx_ftoken(n.as_ptr(), n.len(), v) } }
pub fn symbolic() -> bool { unsafe { raw::sx_symbolic() } }
pub fn stop() -> ! { unsafe { raw::sx_stop() } }
pub fn print(n: &str) { unsafe { raw::sx_print(n.as_ptr(), n.len()) } }
pub fn same64(a: f64, b: f64) -> bool { unsafe { raw::sx_fsame64(a, b) } }
pub fn same32(a: f32, b: f32) -> bool { unsafe { raw::sx_fsame32(a, b) } }

/// A storage type the harness can make symbolic values of.
pub trait St: Copy {
    fn inp(n: &str) -> Self;
    fn mir(n: &str) -> Self;
    fn same(a: Self, b: Self) -> bool;
}
impl St for f64 {
    fn inp(n: &str) -> f64 { f64::from_bits(input(n, 64)) }
    fn mir(n: &str) -> f64 { f64::from_bits(mirror(n, 64)) }
    fn same(a: f64, b: f64) -> bool { same64(a, b) }
}
impl St for f32 {
    fn inp(n: &str) -> f32 { f32::from_bits(input(n, 32) as u32) }
    fn mir(n: &str) -> f32 { f32::from_bits(mirror(n, 32) as u32) }
    fn same(a: f32, b: f32) -> bool { same32(a, b) }
}
impl St for bool {
    fn inp(n: &str) -> bool { input(n, 1) & 1 == 1 }
    fn mir(n: &str) -> bool { mirror(n, 1) & 1 == 1 }
    fn same(a: bool, b: bool) -> bool { a == b }
}
impl St for Option<core::cmp::Ordering> {
    fn inp(_: &str) -> Self { unimplemented!() }
    fn mir(_: &str) -> Self { unimplemented!() }
    fn same(a: Self, b: Self) -> bool { a == b }
}
#[macro_export]
macro_rules! st_vec {
    ($t:ty, $f:ty, $($c:ident $n:literal),*) => {
        impl $crate::sx::St for $t {
            fn inp(n: &str) -> Self { let _ = n; <$t>::new($(<$f as $crate::sx::St>::inp(concat_name(n, $n)),)*) }
            fn mir(n: &str) -> Self { <$t>::new($(<$f as $crate::sx::St>::mir(concat_name(n, $n)),)*) }
            fn same(a: Self, b: Self) -> bool { true $(& <$f as $crate::sx::St>::same(a.$c, b.$c))* }
        }
    };
}
/// "a" + ".x" without allocating
pub fn concat_name(n: &str, s: &str) -> &'static str {
    match (n, s) {
        ("a", "x") => "a.x", ("a", "y") => "a.y", ("a", "z") => "a.z",
        ("b", "x") => "b.x", ("b", "y") => "b.y", ("b", "z") => "b.z",
        ("c", "x") => "c.x", ("c", "y") => "c.y", ("c", "z") => "c.z",
        _ => unimplemented!(),
    }
}
/// A storage type whose operations are deliberately neither commutative nor associative, so that
/// swapped operands, dropped operands and repeated operations are all visible.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Tag(pub u64);
impl St for Tag {
    fn inp(n: &str) -> Tag { Tag(input(n, 64)) }
    fn mir(n: &str) -> Tag { Tag(mirror(n, 64)) }
    fn same(a: Tag, b: Tag) -> bool { a == b }
}
macro_rules! tagop {
    ($t:ident $f:ident $ta:ident $fa:ident $m:literal $n:literal) => {
        impl core::ops::$t for Tag { type Output = Tag; fn $f(self, o: Tag) -> Tag { Tag((self.0.wrapping_mul($m) ^ o.0.rotate_left($n)).wrapping_add($m)) } }
        impl core::ops::$t<&Tag> for Tag { type Output = Tag; fn $f(self, o: &Tag) -> Tag { core::ops::$t::$f(self, *o) } }
        impl core::ops::$ta for Tag { fn $fa(&mut self, o: Tag) { *self = Tag((self.0.rotate_left($n) ^ o.0.wrapping_mul($m)).wrapping_add(77)) } }
        impl core::ops::$ta<&Tag> for Tag { fn $fa(&mut self, o: &Tag) { core::ops::$ta::$fa(self, *o) } }
    };
}
tagop!(Add add AddAssign add_assign 3 7);
tagop!(Sub sub SubAssign sub_assign 5 9);
tagop!(Mul mul MulAssign mul_assign 7 11);
tagop!(Div div DivAssign div_assign 9 13);
impl core::ops::Neg for Tag { type Output = Tag; fn neg(self) -> Tag { Tag(self.0.wrapping_mul(11).rotate_left(3)) } }
impl Default for Tag { fn default() -> Tag { Tag(0x1234_5678_9abc_def1) } }
impl core::cmp::PartialOrd for Tag {
    fn partial_cmp(&self, o: &Tag) -> Option<core::cmp::Ordering> {
        // an unusual order: reversed on the low half, unordered when the low bit differs
        if (self.0 ^ o.0) & 1 == 1 { None } else { (o.0 >> 1).partial_cmp(&(self.0 >> 1)) }
    }
}
#[macro_export]
macro_rules! entry {
    ($($name:ident $b:block)*) => { $( #[no_mangle] pub extern "C" fn $name() $b )* };
}
