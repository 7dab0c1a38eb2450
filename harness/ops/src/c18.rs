//! C18: vector quantities behave componentwise.
use crate::sx::*;
use crate::sys::dimensions::*;
use crate::sys::*;
use glam::{DVec2, DVec3, Vec2, Vec3};
macro_rules! ck { ($id:expr, $t:ty, $got:expr, $want:expr) => { check(<$t as St>::same($got, $want), $id) }; }

macro_rules! common {
    ($V:ident $F:ident: $set:ident $geo:ident $misc:ident) => {
        #[no_mangle] pub extern "C" fn $set() {
            let v0 = <$V>::inp("a");
            let s: Length<$F> = mk(<$F>::inp("s"));
            let (m, sm) = (<$V>::mir("a"), <$F>::mir("s"));
            let v: Length<$V> = mk(v0);
            ck!("x", $F, raw(&v.x()), m.x);
            ck!("y", $F, raw(&v.y()), m.y);
            { let mut w = v; w.set_x(s); let mut e = m; e.x = sm; ck!("set_x", $V, raw(&w), e); }
            { let mut w = v; w.set_y(s); let mut e = m; e.y = sm; ck!("set_y", $V, raw(&w), e); }
            ck!("new_x", $V, raw(&Length::<$V>::new_x(s)), sm * <$V>::X);
            ck!("new_y", $V, raw(&Length::<$V>::new_y(s)), sm * <$V>::Y);
            ck!("zero", $V, raw(&Length::<$V>::zero()), <$V>::ZERO);
            reach("end");
        }
        #[no_mangle] pub extern "C" fn $geo() {
            let (a, b): (Length<$V>, Length<$V>) = (mk(<$V>::inp("a")), mk(<$V>::inp("b")));
            let (x, y) = (<$V>::mir("a"), <$V>::mir("b"));
            ck!("length", $F, raw(&a.length()), x.length());
            ck!("distance", $F, raw(&a.distance(&b)), x.distance(y));
            ck!("distance_squared", $F, raw(&a.distance_squared(&b)), x.distance_squared(y));
            let t: Time<$V> = mk(<$V>::inp("c"));
            ck!("dot", $F, raw(&a.dot(t)), x.dot(<$V>::mir("c")));
            ck!("normalize", $V, raw(&a.normalize()), x.normalize());
            reach("end");
        }
        #[no_mangle] pub extern "C" fn $misc() {
            let (a, b): (Length<$V>, Length<$V>) = (mk(<$V>::inp("a")), mk(<$V>::inp("b")));
            let (x, y) = (<$V>::mir("a"), <$V>::mir("b"));
            ck!("min", $V, raw(&a.min(b)), x.min(y));
            ck!("max", $V, raw(&a.max(b)), x.max(y));
            ck!("abs", $V, raw(&a.abs()), x.abs());
            reach("end");
        }
    };
}
macro_rules! two {
    ($V:ident $F:ident: $name:ident) => {
        #[no_mangle] pub extern "C" fn $name() {
            let (x, y) = (<$F>::inp("x"), <$F>::inp("y"));
            let v = Length::<$V>::new(mk(x), mk(y));
            let r = raw(&v);
            ck!("new.x", $F, r.x, <$F>::mir("x"));
            ck!("new.y", $F, r.y, <$F>::mir("y"));
            ck!("new then x", $F, raw(&v.x()), <$F>::mir("x"));
            reach("end");
        }
    };
}
macro_rules! three {
    ($V:ident $F:ident: $name:ident) => {
        #[no_mangle] pub extern "C" fn $name() {
            let (x, y, z) = (<$F>::inp("x"), <$F>::inp("y"), <$F>::inp("z"));
            let v = Length::<$V>::new(mk(x), mk(y), mk(z));
            let r = raw(&v);
            ck!("new.x", $F, r.x, <$F>::mir("x"));
            ck!("new.y", $F, r.y, <$F>::mir("y"));
            ck!("new.z", $F, r.z, <$F>::mir("z"));
            ck!("z", $F, raw(&v.z()), <$F>::mir("z"));
            let s: Length<$F> = mk(<$F>::inp("s"));
            let sm = <$F>::mir("s");
            { let mut w = v; w.set_z(s); let q = raw(&w); ck!("set_z.x", $F, q.x, <$F>::mir("x")); ck!("set_z.y", $F, q.y, <$F>::mir("y")); ck!("set_z.z", $F, q.z, sm); }
            ck!("new_z", $V, raw(&Length::<$V>::new_z(s)), sm * <$V>::Z);
            reach("end");
        }
    };
}
common!(DVec3 f64: c18_set_dv3 c18_geo_dv3 c18_misc_dv3);
common!(DVec2 f64: c18_set_dv2 c18_geo_dv2 c18_misc_dv2);
common!(Vec3 f32: c18_set_v3 c18_geo_v3 c18_misc_v3);
common!(Vec2 f32: c18_set_v2 c18_geo_v2 c18_misc_v2);
two!(DVec2 f64: c18_new_dv2);
two!(Vec2 f32: c18_new_v2);
three!(DVec3 f64: c18_new_dv3);
three!(Vec3 f32: c18_new_v3);
