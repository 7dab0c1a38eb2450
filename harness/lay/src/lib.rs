//! C20: a quantity has the layout its MPI and HDF5 descriptions claim.
#![allow(incomplete_features, dead_code, unused_imports, unused_variables, non_upper_case_globals, non_snake_case, static_mut_refs, uncommon_codepoints)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "../../sx.rs"]
#[macro_use]
pub mod sx;
pub mod types;
use sx::*;

pub mod sa {
    use diman::unit_system;
    unit_system!(
        quantity_type Quantity;
        dimension_type Dimension;
        dimension Length;
        dimension Time;
        dimension Mass;
        #[base(Length)] #[symbol(m)] unit meter: Length;
        #[base(Time)] #[symbol(s)] unit second: Time;
        #[base(Mass)] #[symbol(kg)] unit kilogram: Mass;
        unit inch: Length = 0.0254 * meter;
    );
    pub mod probe { include!("probe.rs"); }
}
use sa::{probe, Dimension, Quantity};
use hdf5::types::{FloatSize, TypeDescriptor};
use hdf5::H5Type;
use mpi::datatype::Equivalence;
use mpi::raw::AsRaw;
use std::mem::{align_of, size_of};

pub trait Parts: Copy { type F: Copy; const N: usize; fn make() -> Self; fn part(i: usize) -> u64; }
fn name(i: usize) -> &'static str { ["x", "y", "z"][i] }
macro_rules! parts { ($($T:ty, $make:expr, $F:ty, $B:ty, $bits:literal, $n:literal, $($i:literal)*;)*) => { $(
    impl Parts for $T {
        type F = $F;
        const N: usize = $n;
        fn make() -> Self { let make = $make; make($(<$F>::from_bits(input(name($i), $bits) as $B)),*) }
        fn part(i: usize) -> u64 { mirror(name(i), $bits) }
    }
)* };
}
parts! {
    f32, (|x: f32| x), f32, u32, 32, 1, 0;
    f64, (|x: f64| x), f64, u64, 64, 1, 0;
    glam::Vec2, glam::Vec2::new, f32, u32, 32, 2, 0 1;
    glam::DVec2, glam::DVec2::new, f64, u64, 64, 2, 0 1;
    glam::Vec3, glam::Vec3::new, f32, u32, 32, 3, 0 1 2;
    glam::DVec3, glam::DVec3::new, f64, u64, 64, 3, 0 1 2;
}
/// the little-endian word of n bytes at p
fn word(p: *const u8, n: usize) -> u64 {
    let mut v = 0u64;
    for i in (0..n).rev() { v = v << 8 | unsafe { *p.add(i) } as u64; }
    v
}
#[inline(never)]
fn layout<S: Parts, const D: Dimension>() {
    type Q<S, const D: Dimension> = Quantity<S, D>;
    check(size_of::<Q<S, D>>() == size_of::<S>() && align_of::<Q<S, D>>() == align_of::<S>(), "size");
    let s = S::make();
    let q = Q::<S, D>::new_unchecked(s);
    let w = size_of::<S::F>();
    let mut ok = true;
    for i in 0..S::N { ok &= word((&q as *const _ as *const u8).wrapping_add(i * w), w) == S::part(i); }
    check(ok, "the bytes of a quantity are those of its value");
    let back: S = unsafe { core::ptr::read(&q as *const _ as *const S) };
    let made: Q<S, D> = unsafe { core::ptr::read(&back as *const _ as *const Q<S, D>) };
    let v = made.value_unchecked();
    let mut ok = true;
    for i in 0..S::N { ok &= word((&v as *const _ as *const u8).wrapping_add(i * w), w) == S::part(i); }
    check(ok, "the value made of bytes");
    let two = [q, q];
    let mut ok = true;
    for k in 0..2 { for i in 0..S::N { ok &= word((&two as *const _ as *const u8).wrapping_add(k * size_of::<S>() + i * w), w) == S::part(i); } }
    check(ok, "quantities in an array");
    reach("end");
}
#[inline(never)]
fn mpi<S: Parts, const D: Dimension>() where Quantity<S, D>: Equivalence, S::F: Equivalence,
    <Quantity<S, D> as Equivalence>::Out: AsRaw<Raw = mpi::ffi::MPI_Datatype>, <S::F as Equivalence>::Out: AsRaw<Raw = mpi::ffi::MPI_Datatype> {
    let q = Quantity::<S, D>::new_unchecked(S::make());
    let base = S::F::equivalent_datatype().as_raw();
    let w = size_of::<S::F>();
    for _ in 0..2 {
        let t = <Quantity<S, D> as Equivalence>::equivalent_datatype();
        let mut m = types::Map::default();
        check(types::ready(types::handle(t.as_raw())), "the datatype can be used");
        types::flatten(types::handle(t.as_raw()), 0, types::handle(base), w, &mut m);
        check(m.ok && m.n == S::N, "number and type of the components");
        check(types::extent(types::handle(t.as_raw()), w) == size_of::<Quantity<S, D>>(), "extent");
        let mut ok = true;
        for i in 0..m.n.min(S::N) { ok &= word((&q as *const _ as *const u8).wrapping_add(m.at[i]), w) == S::part(i); }
        check(ok, "the components where the datatype says they are");
    }
    reach("end");
}
#[inline(never)]
fn hdf5<S: Parts, const D: Dimension>() where Quantity<S, D>: H5Type, S::F: H5Type {
    let q = Quantity::<S, D>::new_unchecked(S::make());
    let w = size_of::<S::F>();
    let t = <Quantity<S, D> as H5Type>::type_descriptor();
    check(t.size() == size_of::<Quantity<S, D>>(), "size of the type");
    // the floats the description lists, and where
    let mut at = [0usize; 4];
    let mut n = 0;
    let mut ok = true;
    fn walk(t: &TypeDescriptor, from: usize, w: usize, at: &mut [usize; 4], n: &mut usize, ok: &mut bool) {
        match t {
            TypeDescriptor::Float(s) => {
                *ok &= *s as usize == w && *n < 4;
                if *n < 4 { at[*n] = from; *n += 1; }
            }
            TypeDescriptor::FixedArray(e, k) => for i in 0..*k { if *n < 4 { walk(e, from + i * e.size(), w, at, n, ok); } else { *ok = false; } },
            TypeDescriptor::Compound(c) => for f in &c.fields { walk(&f.ty, from + f.offset, w, at, n, ok); },
            _ => *ok = false,
        }
    }
    walk(&t, 0, w, &mut at, &mut n, &mut ok);
    check(ok && n == S::N, "number and type of the components");
    let mut ok = true;
    for i in 0..n.min(S::N) { ok &= word((&q as *const _ as *const u8).wrapping_add(at[i]), w) == S::part(i); }
    check(ok, "the components where the type says they are");
    reach("end");
}
macro_rules! entries { ($($S:ty, $lay:ident $mpi:ident $h5:ident;)*) => { $(
    #[no_mangle] pub extern "C" fn $lay() { each!(layout, $S); }
    #[no_mangle] pub extern "C" fn $mpi() { each!(mpi, $S); }
    #[no_mangle] pub extern "C" fn $h5() { each!(hdf5, $S); }
)* } }
macro_rules! each { ($f:ident, $S:ty) => {
    match pick(input("dimension", 3)) {
        0 => $f::<$S, { probe::dim(0, 0, 0, 1) }>(),
        1 => $f::<$S, { probe::dim(1, 0, 0, 1) }>(),
        2 => $f::<$S, { probe::dim(-2, 3, 1, 1) }>(),
        3 => $f::<$S, { probe::dim(0, -100, 0, 1) }>(),
        _ => {}
    }
} }
entries! {
    f32, c20_layout_f32 c20_mpi_f32 c20_hdf5_f32;
    f64, c20_layout_f64 c20_mpi_f64 c20_hdf5_f64;
    glam::Vec2, c20_layout_vec2 c20_mpi_vec2 c20_hdf5_vec2;
    glam::DVec2, c20_layout_dvec2 c20_mpi_dvec2 c20_hdf5_dvec2;
    glam::Vec3, c20_layout_vec3 c20_mpi_vec3 c20_hdf5_vec3;
    glam::DVec3, c20_layout_dvec3 c20_mpi_dvec3 c20_hdf5_dvec3;
}
/// the datatypes of two types, one after the other
#[no_mangle] pub extern "C" fn c20_mpi_two() {
    for n in ["first", "second"] {
        match pick(input(n, 3)) {
            0 => mpi::<f32, { probe::dim(1, 0, 0, 1) }>(),
            1 => mpi::<f64, { probe::dim(1, 0, 0, 1) }>(),
            2 => mpi::<glam::Vec2, { probe::dim(0, 0, 0, 1) }>(),
            3 => mpi::<glam::DVec2, { probe::dim(1, 0, 0, 1) }>(),
            4 => mpi::<glam::Vec3, { probe::dim(0, 0, 0, 1) }>(),
            5 => mpi::<glam::DVec3, { probe::dim(1, 0, 0, 1) }>(),
            _ => {}
        }
    }
}
