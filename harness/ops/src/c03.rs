//! C03: quantity operators compute exactly what the storage type computes.
use crate::sx::*;
use crate::sys::dimensions::*;
use crate::sys::*;
use core::ops::*;
#[cfg(feature = "glamf")]
use glam::{DVec2, DVec3, Vec2, Vec3};

macro_rules! q {
    ($D:ident $S:ty, $n:literal) => { mk::<$S, { dim!($D) }>(<$S as St>::inp($n)) };
}
macro_rules! ck { ($id:expr, $t:ty, $got:expr, $want:expr) => { check(<$t as St>::same($got, $want), $id) }; }

/// operator between two quantities of dimensions $DL $DR, storages $L $R
macro_rules! qq {
    ($name:ident, $tr:ident $f:ident, $DL:ident<$L:ty>, $DR:ident<$R:ty>) => {
        #[no_mangle] pub extern "C" fn $name() {
            type O = <$L as $tr<$R>>::Output;
            let a: $DL<$L> = mk(<$L>::inp("a"));
            let b: $DR<$R> = mk(<$R>::inp("b"));
            let w: O = <$L as $tr<$R>>::$f(<$L>::mir("a"), <$R>::mir("b"));
            ck!("value op value", O, raw(&<$DL<$L> as $tr<$DR<$R>>>::$f(a, b)), w);
            ck!("value op ref", O, raw(&<$DL<$L> as $tr<&$DR<$R>>>::$f(a, &b)), w);
            ck!("ref op value", O, raw(&<&$DL<$L> as $tr<$DR<$R>>>::$f(&a, b)), w);
            ck!("ref op ref", O, raw(&<&$DL<$L> as $tr<&$DR<$R>>>::$f(&a, &b)), w);
            ck!("left untouched", $L, raw(&a), <$L>::mir("a"));
            ck!("right untouched", $R, raw(&b), <$R>::mir("b"));
            reach("end");
        }
    };
}
/// assigning operator between quantities (right side may be dimensionless)
macro_rules! qqa {
    ($name:ident, $tr:ident $f:ident, $DL:ident<$L:ty>, $DR:ident<$R:ty>) => {
        #[no_mangle] pub extern "C" fn $name() {
            let b: $DR<$R> = mk(<$R>::inp("b"));
            let a0 = <$L>::inp("a");
            let mut w: $L = <$L>::mir("a");
            <$L as $tr<$R>>::$f(&mut w, <$R>::mir("b"));
            { let mut a: $DL<$L> = mk(a0); <$DL<$L> as $tr<$DR<$R>>>::$f(&mut a, b); ck!("value op= value", $L, raw(&a), w); }
            { let mut a: $DL<$L> = mk(a0); <$DL<$L> as $tr<&$DR<$R>>>::$f(&mut a, &b); ck!("value op= ref", $L, raw(&a), w); }
            { let mut a: $DL<$L> = mk(a0); { let mut r = &mut a; <&mut $DL<$L> as $tr<$DR<$R>>>::$f(&mut r, b); } ck!("mut ref op= value", $L, raw(&a), w); }
            { let mut a: $DL<$L> = mk(a0); { let mut r = &mut a; <&mut $DL<$L> as $tr<&$DR<$R>>>::$f(&mut r, &b); } ck!("mut ref op= ref", $L, raw(&a), w); }
            ck!("right untouched", $R, raw(&b), <$R>::mir("b"));
            reach("end");
        }
    };
}
/// quantity op number
macro_rules! qs {
    ($name:ident, $tr:ident $f:ident, $DL:ident<$L:ty>, $R:ty) => {
        #[no_mangle] pub extern "C" fn $name() {
            type O = <$L as $tr<$R>>::Output;
            let a: $DL<$L> = mk(<$L>::inp("a"));
            let b: $R = <$R>::inp("b");
            let w: O = <$L as $tr<$R>>::$f(<$L>::mir("a"), <$R>::mir("b"));
            ck!("value op value", O, raw(&<$DL<$L> as $tr<$R>>::$f(a, b)), w);
            ck!("value op ref", O, raw(&<$DL<$L> as $tr<&$R>>::$f(a, &b)), w);
            ck!("ref op value", O, raw(&<&$DL<$L> as $tr<$R>>::$f(&a, b)), w);
            ck!("ref op ref", O, raw(&<&$DL<$L> as $tr<&$R>>::$f(&a, &b)), w);
            reach("end");
        }
    };
}
/// number op quantity
macro_rules! sq {
    ($name:ident, $tr:ident $f:ident, $L:ty, $DR:ident<$R:ty>) => {
        #[no_mangle] pub extern "C" fn $name() {
            type O = <$L as $tr<$R>>::Output;
            let a: $L = <$L>::inp("a");
            let b: $DR<$R> = mk(<$R>::inp("b"));
            let w: O = <$L as $tr<$R>>::$f(<$L>::mir("a"), <$R>::mir("b"));
            ck!("value op value", O, raw(&<$L as $tr<$DR<$R>>>::$f(a, b)), w);
            ck!("value op ref", O, raw(&<$L as $tr<&$DR<$R>>>::$f(a, &b)), w);
            ck!("ref op value", O, raw(&<&$L as $tr<$DR<$R>>>::$f(&a, b)), w);
            ck!("ref op ref", O, raw(&<&$L as $tr<&$DR<$R>>>::$f(&a, &b)), w);
            reach("end");
        }
    };
}
/// quantity op= number, also through &mut when $m
macro_rules! qsa {
    ($name:ident, $tr:ident $f:ident, $DL:ident<$L:ty>, $R:ty, $($m:tt)?) => {
        #[no_mangle] pub extern "C" fn $name() {
            let b: $R = <$R>::inp("b");
            let a0 = <$L>::inp("a");
            let mut w: $L = <$L>::mir("a");
            <$L as $tr<$R>>::$f(&mut w, <$R>::mir("b"));
            { let mut a: $DL<$L> = mk(a0); <$DL<$L> as $tr<$R>>::$f(&mut a, b); ck!("value op= value", $L, raw(&a), w); }
            { let mut a: $DL<$L> = mk(a0); <$DL<$L> as $tr<&$R>>::$f(&mut a, &b); ck!("value op= ref", $L, raw(&a), w); }
            $( let _ = $m;
            { let mut a: $DL<$L> = mk(a0); { let mut r = &mut a; <&mut $DL<$L> as $tr<$R>>::$f(&mut r, b); } ck!("mut ref op= value", $L, raw(&a), w); }
            { let mut a: $DL<$L> = mk(a0); { let mut r = &mut a; <&mut $DL<$L> as $tr<&$R>>::$f(&mut r, &b); } ck!("mut ref op= ref", $L, raw(&a), w); }
            )?
            reach("end");
        }
    };
}
/// number op= dimensionless quantity
macro_rules! sqa {
    ($name:ident, $tr:ident $f:ident, $L:ty, $R:ty) => {
        #[no_mangle] pub extern "C" fn $name() {
            let b: Dimensionless<$R> = mk(<$R>::inp("b"));
            let a0 = <$L>::inp("a");
            let mut w: $L = <$L>::mir("a");
            <$L as $tr<$R>>::$f(&mut w, <$R>::mir("b"));
            { let mut a: $L = a0; <$L as $tr<Dimensionless<$R>>>::$f(&mut a, b); ck!("value op= value", $L, a, w); }
            { let mut a: $L = a0; <$L as $tr<&Dimensionless<$R>>>::$f(&mut a, &b); ck!("value op= ref", $L, a, w); }
            reach("end");
        }
    };
}
macro_rules! cmp_of {
    ($pre:literal, $L:ty, $R:ty, $a:expr, $b:expr, $x:expr, $y:expr) => {
        check(<$L as PartialEq<$R>>::eq($a, $b) == ($x == $y), concat!($pre, " =="));
        check(<$L as PartialEq<$R>>::ne($a, $b) == ($x != $y), concat!($pre, " !="));
        check(<$L as PartialOrd<$R>>::partial_cmp($a, $b) == $x.partial_cmp(&$y), concat!($pre, " partial_cmp"));
        check(<$L as PartialOrd<$R>>::lt($a, $b) == ($x < $y), concat!($pre, " <"));
        check(<$L as PartialOrd<$R>>::le($a, $b) == ($x <= $y), concat!($pre, " <="));
        check(<$L as PartialOrd<$R>>::gt($a, $b) == ($x > $y), concat!($pre, " >"));
        check(<$L as PartialOrd<$R>>::ge($a, $b) == ($x >= $y), concat!($pre, " >="));
    };
}
macro_rules! cmps {
    ($name:ident, $S:ty, $D:ident) => {
        #[no_mangle] pub extern "C" fn $name() {
            let a: $D<$S> = mk(<$S>::inp("a"));
            let b: $D<$S> = mk(<$S>::inp("b"));
            let (x, y) = (<$S>::mir("a"), <$S>::mir("b"));
            cmp_of!("value/value", $D<$S>, $D<$S>, &a, &b, x, y);
            cmp_of!("value/ref", $D<$S>, &$D<$S>, &a, &&b, x, y);
            cmp_of!("ref/value", &$D<$S>, $D<$S>, &&a, &b, x, y);
            cmp_of!("ref/ref", &$D<$S>, &$D<$S>, &&a, &&b, x, y);
            if x != x { reach("nan"); }
            if x < y { reach("less"); }
            reach("end");
        }
    };
}
macro_rules! cmps_num {
    ($name:ident, $S:ty) => {
        #[no_mangle] pub extern "C" fn $name() {
            let a: Dimensionless<$S> = mk(<$S>::inp("a"));
            let b: $S = <$S>::inp("b");
            let (x, y) = (<$S>::mir("a"), <$S>::mir("b"));
            cmp_of!("quantity/number", Dimensionless<$S>, $S, &a, &b, x, y);
            cmp_of!("number/quantity", $S, Dimensionless<$S>, &b, &a, y, x);
            reach("end");
        }
    };
}
macro_rules! eqs {
    ($name:ident, $S:ty, $D:ident) => {
        #[no_mangle] pub extern "C" fn $name() {
            let a: $D<$S> = mk(<$S>::inp("a"));
            let b: $D<$S> = mk(<$S>::inp("b"));
            let (x, y) = (<$S>::mir("a"), <$S>::mir("b"));
            check((a == b) == (x == y), "value/value ==");
            check((a != b) == (x != y), "value/value !=");
            check((a == &b) == (x == y), "value/ref ==");
            check((&a == b) == (x == y), "ref/value ==");
            check((&a == &b) == (x == y), "ref/ref ==");
            reach("end");
        }
    };
}
macro_rules! eqs_num {
    ($name:ident, $S:ty) => {
        #[no_mangle] pub extern "C" fn $name() {
            let a: Dimensionless<$S> = mk(<$S>::inp("a"));
            let b: $S = <$S>::inp("b");
            let (x, y) = (<$S>::mir("a"), <$S>::mir("b"));
            check((a == b) == (x == y), "quantity/number ==");
            check((b == a) == (y == x), "number/quantity ==");
            check((a != b) == (x != y), "quantity/number !=");
            check((b != a) == (y != x), "number/quantity !=");
            reach("end");
        }
    };
}
macro_rules! negs {
    ($name:ident, $S:ty, $D:ident) => {
        #[no_mangle] pub extern "C" fn $name() {
            let a: $D<$S> = mk(<$S>::inp("a"));
            ck!("negation", $S, raw(&(-a)), -<$S>::mir("a"));
            reach("end");
        }
    };
}
macro_rules! all_same {
    ($S:ty: $add:ident $sub:ident $add0:ident $mul:ident $div:ident $adda:ident $suba:ident $mula:ident $diva:ident $neg:ident $addn:ident $subn:ident $addna:ident $subna:ident) => {
        qq!($add, Add add, Velocity<$S>, Velocity<$S>);
        qq!($sub, Sub sub, Velocity<$S>, Velocity<$S>);
        qq!($add0, Add add, Dimensionless<$S>, Dimensionless<$S>);
        qq!($mul, Mul mul, Length<$S>, Time<$S>);
        qq!($div, Div div, Length<$S>, Time<$S>);
        qqa!($adda, AddAssign add_assign, Length<$S>, Length<$S>);
        qqa!($suba, SubAssign sub_assign, Length<$S>, Length<$S>);
        qqa!($mula, MulAssign mul_assign, Length<$S>, Dimensionless<$S>);
        qqa!($diva, DivAssign div_assign, Length<$S>, Dimensionless<$S>);
        negs!($neg, $S, Length);
        qs!($addn, Add add, Dimensionless<$S>, $S);
        qs!($subn, Sub sub, Dimensionless<$S>, $S);
        qsa!($addna, AddAssign add_assign, Dimensionless<$S>, $S, 1);
        qsa!($subna, SubAssign sub_assign, Dimensionless<$S>, $S, 1);
    };
}
all_same!(Tag: c03_add_tag c03_sub_tag c03_add0_tag c03_mul_tag c03_div_tag c03_adda_tag c03_suba_tag c03_mula_tag c03_diva_tag c03_neg_tag c03_addn_tag c03_subn_tag c03_addna_tag c03_subna_tag);
all_same!(f64: c03_add_f64 c03_sub_f64 c03_add0_f64 c03_mul_f64 c03_div_f64 c03_adda_f64 c03_suba_f64 c03_mula_f64 c03_diva_f64 c03_neg_f64 c03_addn_f64 c03_subn_f64 c03_addna_f64 c03_subna_f64);
all_same!(f32: c03_add_f32 c03_sub_f32 c03_add0_f32 c03_mul_f32 c03_div_f32 c03_adda_f32 c03_suba_f32 c03_mula_f32 c03_diva_f32 c03_neg_f32 c03_addn_f32 c03_subn_f32 c03_addna_f32 c03_subna_f32);
cmps!(c03_cmp_tag, Tag, Length);
cmps!(c03_cmp_f64, f64, Length);
cmps!(c03_cmp_f32, f32, Velocity);
cmps!(c03_cmp0_f64, f64, Dimensionless);
cmps_num!(c03_cmpn_f64, f64);
cmps_num!(c03_cmpn_f32, f32);
macro_rules! concrete_num {
    ($S:ty: $sadd:ident $ssub:ident $sadda:ident $ssuba:ident $smula:ident $sdiva:ident $qmula:ident $qdiva:ident $qmul:ident $qdiv:ident $smul:ident $sdiv:ident) => {
        sq!($sadd, Add add, $S, Dimensionless<$S>);
        sq!($ssub, Sub sub, $S, Dimensionless<$S>);
        sqa!($sadda, AddAssign add_assign, $S, $S);
        sqa!($ssuba, SubAssign sub_assign, $S, $S);
        sqa!($smula, MulAssign mul_assign, $S, $S);
        sqa!($sdiva, DivAssign div_assign, $S, $S);
        qsa!($qmula, MulAssign mul_assign, Length<$S>, $S,);
        qsa!($qdiva, DivAssign div_assign, Length<$S>, $S,);
        qs!($qmul, Mul mul, Velocity<$S>, $S);
        qs!($qdiv, Div div, Velocity<$S>, $S);
        sq!($smul, Mul mul, $S, Velocity<$S>);
        sq!($sdiv, Div div, $S, Velocity<$S>);
    };
}
concrete_num!(f64: c03_sadd_f64 c03_ssub_f64 c03_sadda_f64 c03_ssuba_f64 c03_smula_f64 c03_sdiva_f64 c03_qmula_f64 c03_qdiva_f64 c03_qmul_f64 c03_qdiv_f64 c03_smul_f64 c03_sdiv_f64);
concrete_num!(f32: c03_sadd_f32 c03_ssub_f32 c03_sadda_f32 c03_ssuba_f32 c03_smula_f32 c03_sdiva_f32 c03_qmula_f32 c03_qdiva_f32 c03_qmul_f32 c03_qdiv_f32 c03_smul_f32 c03_sdiv_f32);
// storage on the left of a generic quantity: the left operand is the number
impl Mul<Tag> for f64 { type Output = Tag; fn mul(self, o: Tag) -> Tag { Tag(self.to_bits().wrapping_mul(3) ^ o.0.rotate_left(5)) } }
impl Div<Tag> for f64 { type Output = Tag; fn div(self, o: Tag) -> Tag { Tag(self.to_bits().rotate_left(9) ^ o.0.wrapping_mul(5)) } }
impl Mul<f64> for Tag { type Output = Tag; fn mul(self, o: f64) -> Tag { Tag(o.to_bits().wrapping_mul(7) ^ self.0.rotate_left(15)) } }
impl Div<f64> for Tag { type Output = Tag; fn div(self, o: f64) -> Tag { Tag(o.to_bits().rotate_left(19) ^ self.0.wrapping_mul(11)) } }
qs!(c03_qmul_tagf, Mul mul, Velocity<Tag>, f64);
qs!(c03_qdiv_tagf, Div div, Velocity<Tag>, f64);
sq!(c03_smul_ftag, Mul mul, f64, Velocity<Tag>);
sq!(c03_sdiv_ftag, Div div, f64, Velocity<Tag>);
qq!(c03_qqmul_ftag, Mul mul, Length<f64>, Time<Tag>);
qq!(c03_qqdiv_tagf, Div div, Length<Tag>, Time<f64>);

#[cfg(feature = "glamf")]
mod vec {
    use super::*;
    all_same!(DVec3: c03_add_dv3 c03_sub_dv3 c03_add0_dv3 c03_mul_dv3 c03_div_dv3 c03_adda_dv3 c03_suba_dv3 c03_mula_dv3 c03_diva_dv3 c03_neg_dv3 c03_addn_dv3 c03_subn_dv3 c03_addna_dv3 c03_subna_dv3);
    all_same!(DVec2: c03_add_dv2 c03_sub_dv2 c03_add0_dv2 c03_mul_dv2 c03_div_dv2 c03_adda_dv2 c03_suba_dv2 c03_mula_dv2 c03_diva_dv2 c03_neg_dv2 c03_addn_dv2 c03_subn_dv2 c03_addna_dv2 c03_subna_dv2);
    all_same!(Vec3: c03_add_v3 c03_sub_v3 c03_add0_v3 c03_mul_v3 c03_div_v3 c03_adda_v3 c03_suba_v3 c03_mula_v3 c03_diva_v3 c03_neg_v3 c03_addn_v3 c03_subn_v3 c03_addna_v3 c03_subna_v3);
    all_same!(Vec2: c03_add_v2 c03_sub_v2 c03_add0_v2 c03_mul_v2 c03_div_v2 c03_adda_v2 c03_suba_v2 c03_mula_v2 c03_diva_v2 c03_neg_v2 c03_addn_v2 c03_subn_v2 c03_addna_v2 c03_subna_v2);
    concrete_num!(DVec3: c03_sadd_dv3 c03_ssub_dv3 c03_sadda_dv3 c03_ssuba_dv3 c03_smula_dv3 c03_sdiva_dv3 c03_qmula_dv3 c03_qdiva_dv3 c03_qmul_dv3 c03_qdiv_dv3 c03_smul_dv3 c03_sdiv_dv3);
    concrete_num!(DVec2: c03_sadd_dv2 c03_ssub_dv2 c03_sadda_dv2 c03_ssuba_dv2 c03_smula_dv2 c03_sdiva_dv2 c03_qmula_dv2 c03_qdiva_dv2 c03_qmul_dv2 c03_qdiv_dv2 c03_smul_dv2 c03_sdiv_dv2);
    concrete_num!(Vec3: c03_sadd_v3 c03_ssub_v3 c03_sadda_v3 c03_ssuba_v3 c03_smula_v3 c03_sdiva_v3 c03_qmula_v3 c03_qdiva_v3 c03_qmul_v3 c03_qdiv_v3 c03_smul_v3 c03_sdiv_v3);
    concrete_num!(Vec2: c03_sadd_v2 c03_ssub_v2 c03_sadda_v2 c03_ssuba_v2 c03_smula_v2 c03_sdiva_v2 c03_qmula_v2 c03_qdiva_v2 c03_qmul_v2 c03_qdiv_v2 c03_smul_v2 c03_sdiv_v2);
    // mixed float / vector
    macro_rules! mixed {
        ($V:ty, $F:ty: $a:ident $b:ident $c:ident $d:ident $e:ident $f:ident $g:ident $h:ident $i:ident $j:ident $k:ident $l:ident) => {
            qq!($a, Mul mul, Length<$V>, Time<$F>);
            qq!($b, Mul mul, Length<$F>, Time<$V>);
            qq!($c, Div div, Length<$V>, Time<$F>);
            qq!($d, Div div, Length<$F>, Time<$V>);
            qs!($e, Mul mul, Length<$V>, $F);
            qs!($f, Div div, Length<$V>, $F);
            qs!($g, Mul mul, Length<$F>, $V);
            sq!($h, Mul mul, $F, Length<$V>);
            sq!($i, Mul mul, $V, Length<$F>);
            sq!($j, Div div, $V, Length<$F>);
            qqa!($k, MulAssign mul_assign, Length<$V>, Dimensionless<$F>);
            qqa!($l, DivAssign div_assign, Length<$V>, Dimensionless<$F>);
        };
    }
    mixed!(DVec3, f64: c03_mx1_dv3 c03_mx2_dv3 c03_mx3_dv3 c03_mx4_dv3 c03_mx5_dv3 c03_mx6_dv3 c03_mx7_dv3 c03_mx8_dv3 c03_mx9_dv3 c03_mxa_dv3 c03_mxb_dv3 c03_mxc_dv3);
    mixed!(DVec2, f64: c03_mx1_dv2 c03_mx2_dv2 c03_mx3_dv2 c03_mx4_dv2 c03_mx5_dv2 c03_mx6_dv2 c03_mx7_dv2 c03_mx8_dv2 c03_mx9_dv2 c03_mxa_dv2 c03_mxb_dv2 c03_mxc_dv2);
    mixed!(Vec3, f32: c03_mx1_v3 c03_mx2_v3 c03_mx3_v3 c03_mx4_v3 c03_mx5_v3 c03_mx6_v3 c03_mx7_v3 c03_mx8_v3 c03_mx9_v3 c03_mxa_v3 c03_mxb_v3 c03_mxc_v3);
    mixed!(Vec2, f32: c03_mx1_v2 c03_mx2_v2 c03_mx3_v2 c03_mx4_v2 c03_mx5_v2 c03_mx6_v2 c03_mx7_v2 c03_mx8_v2 c03_mx9_v2 c03_mxa_v2 c03_mxb_v2 c03_mxc_v2);
    eqs!(c03_eq_dv3, DVec3, Length);
    eqs!(c03_eq_dv2, DVec2, Length);
    eqs!(c03_eq_v3, Vec3, Length);
    eqs!(c03_eq_v2, Vec2, Length);
    eqs_num!(c03_eqn_dv3, DVec3);
    eqs_num!(c03_eqn_dv2, DVec2);
    eqs_num!(c03_eqn_v3, Vec3);
    eqs_num!(c03_eqn_v2, Vec2);
}
