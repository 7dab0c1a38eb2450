#![cfg_attr(not(feature = "std"), no_std)]
#![allow(incomplete_features, dead_code, unused_imports, unused_variables, non_upper_case_globals, static_mut_refs)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "../../sx.rs"]
#[macro_use]
pub mod sx;
#[cfg(not(feature = "std"))]
mod nostd_rt {
    extern "C" { fn abort() -> !; }
    #[panic_handler]
    fn panic(_: &core::panic::PanicInfo) -> ! { unsafe { abort() } }
    #[no_mangle] pub extern "C" fn rust_eh_personality() {}
}
pub mod sys {
    use diman::unit_system;
    unit_system!(
        quantity_type Quantity;
        dimension_type Dimension;
        dimension Length;
        dimension Time;
        dimension Mass;
        dimension Dimensionless = 1;
        dimension Velocity = Length / Time;
        dimension Area = Length^2;
        dimension Volume = Length^3;
        dimension Power9 = Length^9 / Time^3 * Mass^6;

        #[base(Length)] #[symbol(m)] unit meter: Length;
        #[base(Time)] #[symbol(s)] unit second: Time;
        #[base(Mass)] #[symbol(kg)] unit kilogram: Mass;

        unit u_tenth: Length = 0.1 * meter;
        unit u_odd: Length = 1.7976931348623157e308 * meter;
        unit u_third: Length = 1.0 / 3.0 * meter;
        unit u_kilo: Length = 1000.0 * meter;
        unit u_tiny: Length = 3.3e-308 * meter;
        unit u_sub: Length = 4.9406564584124654e-324 * meter;
        unit u_f32: Length = 16777217.0 * meter;
        unit u_mid: Length = 1.25e-39 * meter;

        unit t_hour: Time = 3600.0 * second;
        unit t_odd: Time = 0.7 * second;
        unit t_big: Time = 3.0e200 * second;

        unit d_percent: Dimensionless = 0.01;
        unit d_one: Dimensionless = 1.0;
        unit m_solar: Mass = 1.989e30 * kilogram;
        constant K_LIGHT: Velocity = 299792458.0 * meter / second;
    );
    // the dimension type's fields and the quantity's stored number are only visible in here
    pub type Q<S, const D: Dimension> = Quantity<S, D>;
    /// The stored number of a quantity, read without going through the crate's accessors.
    pub fn raw<S: Copy, const D: Dimension>(q: &Quantity<S, D>) -> S { unsafe { core::ptr::read(q as *const _ as *const S) } }
    pub fn mk<S: Copy, const D: Dimension>(s: S) -> Quantity<S, D> {
        assert!(core::mem::size_of::<S>() == core::mem::size_of::<Quantity<S, D>>());
        unsafe { core::mem::transmute_copy(&s) }
    }
    pub mod inner_dim;
}
#[cfg(feature = "glamf")]
pub mod vecs {
    use crate::sx::concat_name;
    crate::st_vec!(glam::Vec2, f32, x "x", y "y");
    crate::st_vec!(glam::DVec2, f64, x "x", y "y");
    crate::st_vec!(glam::Vec3, f32, x "x", y "y", z "z");
    crate::st_vec!(glam::DVec3, f64, x "x", y "y", z "z");
}
pub mod c03;
pub mod c04;
pub mod c17;
#[cfg(feature = "glamf")]
pub mod c18;
pub mod c21;
pub mod c06;
#[cfg(feature = "rational")]
pub mod c07;
/// Bits of the numerators and the largest denominator in the C07 harness.
#[cfg(feature = "rational")]
pub fn c07_bits() -> u64 { sx::param("c07_bits", 8) }
#[cfg(feature = "rational")]
pub fn c07_den() -> i64 { sx::param("c07_den", 4) as i64 }
#[cfg(feature = "rational")]
pub fn c07_num() -> i64 { sx::param("c07_num", 4) as i64 }
