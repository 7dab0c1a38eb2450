From 906e920d7883baa6d0887dcf0f371d2d4824f8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 01/15] fix: do not lose very small magnitudes in
 Magnitude::into_f64

---
 crates/diman_lib/src/magnitude.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/diman_lib/src/magnitude.rs b/crates/diman_lib/src/magnitude.rs
index b31c8bb..c290229 100644
--- a/crates/diman_lib/src/magnitude.rs
+++ b/crates/diman_lib/src/magnitude.rs
@@ -44,7 +44,11 @@ impl Magnitude {
     }
 
     pub fn into_f64(self) -> f64 {
-        self.sign as f64 * self.mantissa as f64 * 2.0f64.powi(self.exponent as i32)
+        // Scale in two steps: for very small numbers, 2^exponent
+        // underflows to zero even though the result does not.
+        let exponent = self.exponent as i32;
+        let half = exponent / 2;
+        self.sign as f64 * self.mantissa as f64 * 2.0f64.powi(half) * 2.0f64.powi(exponent - half)
     }
 
     pub fn into_f32(self) -> f32 {
-- 
2.43.0


From 57d96b952cd8885c08c912fdc9df77cb622c425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 02/15] fix: keep rational exponents reduced with a positive
 denominator and reject overflow

---
 crates/diman_lib/src/ratio.rs | 71 +++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 28 deletions(-)

diff --git a/crates/diman_lib/src/ratio.rs b/crates/diman_lib/src/ratio.rs
index 7dd57b7..50140f6 100644
--- a/crates/diman_lib/src/ratio.rs
+++ b/crates/diman_lib/src/ratio.rs
@@ -13,7 +13,7 @@ pub struct Ratio {
     denom: i64,
 }
 
-const fn gcd(mut a: i64, mut b: i64) -> i64 {
+const fn gcd(mut a: i128, mut b: i128) -> i128 {
     while b != 0 {
         let temp = b;
         b = a % b;
@@ -22,6 +22,14 @@ const fn gcd(mut a: i64, mut b: i64) -> i64 {
     a.abs()
 }
 
+const fn to_i64(x: i128) -> i64 {
+    assert!(
+        x >= i64::MIN as i128 && x <= i64::MAX as i128,
+        "Overflow in rational exponent"
+    );
+    x as i64
+}
+
 impl Ratio {
     pub const fn int(num: i64) -> Self {
         Self { num, denom: 1 }
@@ -36,23 +44,41 @@ impl Ratio {
     }
 
     pub const fn new(num: i64, denom: i64) -> Self {
+        Self::reduce(num as i128, denom as i128)
+    }
+
+    /// Lowest terms with a positive denominator, so that numbers which
+    /// are equal are also represented in the same way.
+    const fn reduce(num: i128, denom: i128) -> Self {
+        assert!(denom != 0, "Rational exponent with zero denominator");
         let gcd = gcd(num, denom);
+        let gcd = if denom < 0 { -gcd } else { gcd };
         Self {
-            num: num / gcd,
-            denom: denom / gcd,
+            num: to_i64(num / gcd),
+            denom: to_i64(denom / gcd),
         }
     }
 
     pub const fn powi(self, exp: i32) -> Self {
-        let num = self.num * exp as i64;
-        let denom = self.denom * exp as i64;
-        Self::new(num, denom)
+        let mut base = if exp < 0 { self.inv() } else { self };
+        let mut exp = exp.unsigned_abs();
+        let mut result = Self::int(1);
+        while exp > 0 {
+            if exp % 2 == 1 {
+                result = result.mul(base);
+            }
+            exp /= 2;
+            if exp > 0 {
+                base = base.mul(base);
+            }
+        }
+        result
     }
 
     pub const fn add(self, rhs: Self) -> Self {
-        let num = self.num * rhs.denom + rhs.num * self.denom;
-        let denom = self.denom * rhs.denom;
-        Self::new(num, denom)
+        let num = self.num as i128 * rhs.denom as i128 + rhs.num as i128 * self.denom as i128;
+        let denom = self.denom as i128 * rhs.denom as i128;
+        Self::reduce(num, denom)
     }
 
     pub const fn sub(self, rhs: Self) -> Self {
@@ -60,16 +86,13 @@ impl Ratio {
     }
 
     pub const fn neg(self) -> Self {
-        Self {
-            num: -self.num,
-            denom: self.denom,
-        }
+        Self::reduce(-(self.num as i128), self.denom as i128)
     }
 
     pub const fn mul(self, rhs: Self) -> Self {
-        let num = self.num * rhs.num;
-        let denom = self.denom * rhs.denom;
-        Self::new(num, denom)
+        let num = self.num as i128 * rhs.num as i128;
+        let denom = self.denom as i128 * rhs.denom as i128;
+        Self::reduce(num, denom)
     }
 
     pub const fn div(self, rhs: Self) -> Self {
@@ -77,10 +100,7 @@ impl Ratio {
     }
 
     const fn inv(self) -> Self {
-        Self {
-            num: self.denom,
-            denom: self.num,
-        }
+        Self::new(self.denom, self.num)
     }
 }
 
@@ -116,15 +136,13 @@ impl core::ops::Mul for Ratio {
     type Output = Self;
 
     fn mul(self, rhs: Self) -> Self::Output {
-        Self::new(self.num * rhs.num, self.denom * rhs.denom)
+        Ratio::mul(self, rhs)
     }
 }
 
 impl core::ops::AddAssign for Ratio {
     fn add_assign(&mut self, rhs: Self) {
-        let num = self.num * rhs.denom + rhs.num * self.denom;
-        let denom = self.denom * rhs.denom;
-        *self = Self::new(num, denom)
+        *self = self.add(rhs)
     }
 }
 
@@ -132,9 +150,6 @@ impl core::ops::Neg for Ratio {
     type Output = Self;
 
     fn neg(self) -> Self::Output {
-        Self {
-            num: -self.num,
-            denom: self.denom,
-        }
+        Ratio::neg(self)
     }
 }
-- 
2.43.0


From 0b69364fc2937851181851eab30d0e7bbe3cd0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 03/15] fix: compare base dimensions symmetrically

---
 crates/diman_unit_system/src/dimension_math.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/diman_unit_system/src/dimension_math.rs b/crates/diman_unit_system/src/dimension_math.rs
index e39482f..ee2b2be 100644
--- a/crates/diman_unit_system/src/dimension_math.rs
+++ b/crates/diman_unit_system/src/dimension_math.rs
@@ -21,13 +21,16 @@ pub struct DimensionsAndMagnitude {
 
 impl PartialEq for BaseDimensions {
     fn eq(&self, other: &Self) -> bool {
-        self.fields.iter().all(|(dimension, value)| {
-            if let Some(corresponding_value) = other.fields.get(dimension) {
-                value == corresponding_value
-            } else {
-                false
-            }
-        })
+        // A missing base dimension is the same as one with exponent zero.
+        let exponent = |dimensions: &Self, dimension: &BaseDimension| {
+            dimensions
+                .get(dimension)
+                .copied()
+                .unwrap_or_else(Exponent::zero)
+        };
+        self.keys()
+            .chain(other.keys())
+            .all(|dimension| exponent(self, dimension) == exponent(other, dimension))
     }
 }
 impl BaseDimensions {
-- 
2.43.0


From 64730f33569fd887ea780930ca254963a6cde76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 04/15] fix: dividing a number by a unit inverts the dimension

---
 crates/diman_unit_system/src/codegen/unit_type.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 3475966..2ca70d1 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -206,8 +206,11 @@ impl Codegen {
             }
 
             // X / Unit
-            impl<const D: Dimension, const F: Magnitude> Div<Unit<D, F>> for #name {
-                type Output = Quantity<#name, D>;
+            impl<const D: Dimension, const F: Magnitude> Div<Unit<D, F>> for #name
+            where
+                Quantity<(), { D.neg() }>:,
+            {
+                type Output = Quantity<#name, { D.neg() }>;
                 fn div(self, _: Unit<D, F>) -> Self::Output {
                     Quantity(self / #into)
                 }
@@ -238,8 +241,11 @@ impl Codegen {
             }
 
             // X / RuntimeUnit
-            impl<const D: Dimension> Div<RuntimeUnit<D>> for #name {
-                type Output = Quantity<#name, D>;
+            impl<const D: Dimension> Div<RuntimeUnit<D>> for #name
+            where
+                Quantity<(), { D.neg() }>:,
+            {
+                type Output = Quantity<#name, { D.neg() }>;
                 fn div(self, unit: RuntimeUnit<D>) -> Self::Output {
                     Quantity(self / unit.0.#conversion_to_float())
                 }
-- 
2.43.0


From 465d1c4ffd56e579397632761435da2d7a696516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 05/15] fix: dividing a unit by a quantity divides the unit by
 the value

---
 .../src/codegen/unit_type.rs                  | 50 +++++++++----------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 2ca70d1..9b480e4 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -68,19 +68,6 @@ impl Codegen {
                 }
             }
 
-            // Unit / Quantity<S>
-            impl<const DL: Dimension, const DR: Dimension, const FL: Magnitude, S> Div<Quantity<S, DR>>
-                for Unit<DL, FL>
-            where
-                S: Div<Magnitude, Output = S>,
-                Quantity<(), { DL.sub(DR) }>:,
-            {
-                type Output = Quantity<S, { DL.sub(DR) }>;
-                fn div(self, x: Quantity<S, DR>) -> Self::Output {
-                    Quantity(x.value_unchecked() / FL)
-                }
-            }
-
             // Quantity<S> / Unit
             impl<const DL: Dimension, const DR: Dimension, const FR: Magnitude, S> Div<Unit<DR, FR>>
                 for Quantity<S, DL>
@@ -129,19 +116,6 @@ impl Codegen {
                 }
             }
 
-            // RuntimeUnit / Quantity<S>
-            impl<const DL: Dimension, const DR: Dimension, S> Div<Quantity<S, DR>>
-                for RuntimeUnit<DL>
-            where
-                S: Div<Magnitude, Output = S>,
-                Quantity<(), { DL.sub(DR) }>:,
-            {
-                type Output = Quantity<S, { DL.sub(DR) }>;
-                fn div(self, x: Quantity<S, DR>) -> Self::Output {
-                    Quantity(x.value_unchecked() / self.0)
-                }
-            }
-
             // Quantity<S> / RuntimeUnit
             impl<const DL: Dimension, const DR: Dimension, S> Div<RuntimeUnit<DR>>
                 for Quantity<S, DL>
@@ -266,6 +240,30 @@ impl Codegen {
                     Quantity(self.0.#conversion_to_float() / f)
                 }
             }
+
+            // Unit / Quantity<X>
+            impl<const DL: Dimension, const DR: Dimension, const F: Magnitude> Div<Quantity<#name, DR>>
+                for Unit<DL, F>
+            where
+                Quantity<(), { DL.sub(DR) }>:,
+            {
+                type Output = Quantity<#name, { DL.sub(DR) }>;
+                fn div(self, x: Quantity<#name, DR>) -> Self::Output {
+                    Quantity(#into / x.value_unchecked())
+                }
+            }
+
+            // RuntimeUnit / Quantity<X>
+            impl<const DL: Dimension, const DR: Dimension> Div<Quantity<#name, DR>>
+                for RuntimeUnit<DL>
+            where
+                Quantity<(), { DL.sub(DR) }>:,
+            {
+                type Output = Quantity<#name, { DL.sub(DR) }>;
+                fn div(self, x: Quantity<#name, DR>) -> Self::Output {
+                    Quantity(self.0.#conversion_to_float() / x.value_unchecked())
+                }
+            }
         };
         res
     }
-- 
2.43.0


From 8c4d009ca6e17e4e8044b7111b45d4f58ec0a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 06/15] fix: value_in only accepts units of the dimension of
 the quantity

---
 crates/diman_unit_system/src/codegen/quantity_type.rs | 2 +-
 crates/diman_unit_system/src/codegen/unit_type.rs     | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/diman_unit_system/src/codegen/quantity_type.rs b/crates/diman_unit_system/src/codegen/quantity_type.rs
index e7a8d8e..6157f22 100644
--- a/crates/diman_unit_system/src/codegen/quantity_type.rs
+++ b/crates/diman_unit_system/src/codegen/quantity_type.rs
@@ -61,7 +61,7 @@ impl Codegen {
             where
                 S: core::ops::Div<Magnitude, Output = S> + core::fmt::Debug,
             {
-                pub fn value_in<A: Into<Magnitude>>(self, a: A) -> S {
+                pub fn value_in<A: unit_type::UnitOf<D>>(self, a: A) -> S {
                     self.value_unchecked() / a.into()
                 }
             }
diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 9b480e4..8188b27 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -138,6 +138,11 @@ impl Codegen {
                 }
             }
 
+            /// A unit of the given dimension.
+            pub trait UnitOf<const D: Dimension>: Into<Magnitude> {}
+            impl<const D: Dimension, const F: Magnitude> UnitOf<D> for Unit<D, F> {}
+            impl<const D: Dimension> UnitOf<D> for RuntimeUnit<D> {}
+
             impl<const D: Dimension, const F: Magnitude> From<Unit<D, F>> for Magnitude {
                 fn from(_: Unit<D, F>) -> Magnitude {
                     F
-- 
2.43.0


From 581da2e0d723587c9ec6ba7261ebb91c5fdba76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 07/15] fix: honour the names of the quantity and dimension
 types everywhere

---
 crates/diman_unit_system/src/codegen/serde.rs          |  4 ++--
 crates/diman_unit_system/src/codegen/unit_type.rs      |  5 ++---
 .../src/codegen/units_and_constants.rs                 | 10 ++++++----
 crates/diman_unit_system/src/codegen/vector_methods.rs |  4 ++--
 4 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 05cc3a9..a5cf2eb 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -179,7 +179,7 @@ impl Codegen {
                 }
             }
 
-            impl<const D: Dimension> serde::Serialize for #quantity_type<#float_type, D> {
+            impl<const D: #dimension_type> serde::Serialize for #quantity_type<#float_type, D> {
                 fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
                 where
                     S: serde::Serializer,
@@ -260,7 +260,7 @@ impl Codegen {
                 }
             }
 
-            impl<const D: Dimension> serde::Serialize for #quantity_type<#vector_type, D> {
+            impl<const D: #dimension_type> serde::Serialize for #quantity_type<#vector_type, D> {
                 fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
                 where
                     S: serde::Serializer,
diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 8188b27..e08f191 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -6,12 +6,11 @@ use super::Codegen;
 
 impl Codegen {
     pub fn gen_unit_type(&self) -> TokenStream {
-        let dimension_type = &self.defs.dimension_type;
         let trait_impls = self.gen_unit_trait_impls();
         let storage_type_impls = self.gen_unit_trait_impls_for_storage_types();
         quote! {
-            pub struct Unit<const D: #dimension_type, const F: Magnitude>;
-            pub struct RuntimeUnit<const D: #dimension_type>(Magnitude);
+            pub struct Unit<const D: Dimension, const F: Magnitude>;
+            pub struct RuntimeUnit<const D: Dimension>(Magnitude);
             #trait_impls
             #storage_type_impls
         }
diff --git a/crates/diman_unit_system/src/codegen/units_and_constants.rs b/crates/diman_unit_system/src/codegen/units_and_constants.rs
index f3c098e..84be135 100644
--- a/crates/diman_unit_system/src/codegen/units_and_constants.rs
+++ b/crates/diman_unit_system/src/codegen/units_and_constants.rs
@@ -31,12 +31,14 @@ impl Codegen {
             })
             .collect();
         let path_prefix = self.caller_type.path_prefix();
+        let dimension_type = &self.defs.dimension_type;
+        let quantity_type = &self.defs.quantity_type;
         quote! {
             pub use #path_prefix::magnitude::Magnitude;
             mod unit_type {
-                use super::Dimension;
+                use super::#dimension_type as Dimension;
                 use super::Magnitude;
-                use super::Quantity;
+                use super::#quantity_type as Quantity;
                 #def_unit_type
             }
             #[allow(unused)]
@@ -46,7 +48,7 @@ impl Codegen {
             pub mod units {
                 use super::Magnitude;
                 use super::Unit;
-                use super::Dimension;
+                use super::#dimension_type;
                 use super::Exponent;
                 #units
             }
@@ -54,7 +56,7 @@ impl Codegen {
             pub mod constants {
                 use super::Magnitude;
                 use super::Unit;
-                use super::Dimension;
+                use super::#dimension_type;
                 use super::Exponent;
                 #constants
             }
diff --git a/crates/diman_unit_system/src/codegen/vector_methods.rs b/crates/diman_unit_system/src/codegen/vector_methods.rs
index da73e96..b3986e7 100644
--- a/crates/diman_unit_system/src/codegen/vector_methods.rs
+++ b/crates/diman_unit_system/src/codegen/vector_methods.rs
@@ -136,9 +136,9 @@ impl Codegen {
                     #quantity_type::<#vector_type_name, { #dimension_type::none() }>(self.0.normalize())
                 }
 
-                pub fn dot<const DR: Dimension>(
+                pub fn dot<const DR: #dimension_type>(
                     self,
-                    rhs: Quantity<#vector_type_name, DR>,
+                    rhs: #quantity_type<#vector_type_name, DR>,
                 ) -> #quantity_type<#float_type, { D.add(DR) }> {
                     #quantity_type(self.0.dot(rhs.0))
                 }
-- 
2.43.0


From 4582b8cfc44235ad58115935508f28449bbdea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 08/15] fix: reject dimension exponents that overflow instead
 of wrapping them

---
 crates/diman_unit_system/src/codegen/dimension_type.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/dimension_type.rs b/crates/diman_unit_system/src/codegen/dimension_type.rs
index d688fb1..875151d 100644
--- a/crates/diman_unit_system/src/codegen/dimension_type.rs
+++ b/crates/diman_unit_system/src/codegen/dimension_type.rs
@@ -81,25 +81,25 @@ impl Codegen {
 
     fn add_entry(&self, ident: &Ident) -> TokenStream {
         quote! {
-            #ident: self.#ident + other.#ident,
+            #ident: self.#ident.checked_add(other.#ident).expect("Overflow in dimension exponent"),
         }
     }
 
     fn sub_entry(&self, ident: &Ident) -> TokenStream {
         quote! {
-            #ident: self.#ident - other.#ident,
+            #ident: self.#ident.checked_sub(other.#ident).expect("Overflow in dimension exponent"),
         }
     }
 
     fn neg_entry(&self, ident: &Ident) -> TokenStream {
         quote! {
-            #ident: -self.#ident,
+            #ident: self.#ident.checked_neg().expect("Overflow in dimension exponent"),
         }
     }
 
     fn mul_entry(&self, ident: &Ident) -> TokenStream {
         quote! {
-            #ident: self.#ident * other as i64,
+            #ident: self.#ident.checked_mul(other as i64).expect("Overflow in dimension exponent"),
         }
     }
 
-- 
2.43.0


From c22faaeef16916d37a6e17f13e135207020b4f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 09/15] fix: reject text before the opening bracket when
 deserializing vectors

---
 crates/diman_unit_system/src/codegen/serde.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index a5cf2eb..1874ed7 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -234,10 +234,10 @@ impl Codegen {
                         .find(')')
                         .ok_or_else(|| E::custom("No closing bracket in vector string"))?;
                     let (vector_part, unit_part) = value.split_at(bracket_end + 1);
-                    let bracket_begin = vector_part
-                        .find('(')
-                        .ok_or_else(|| E::custom("No opening bracket in vector string"))?;
-                    let vector_part = vector_part[bracket_begin + 1..vector_part.len() - 1].to_string();
+                    if !vector_part.starts_with('(') {
+                        return Err(E::custom("No opening bracket at the beginning of vector string"));
+                    }
+                    let vector_part = vector_part[1..vector_part.len() - 1].to_string();
                     let vector_components = &vector_part.split_whitespace().collect::<Vec<_>>();
                     if vector_components.len() != #num_dims {
                         return Err(E::custom(format!("found {} substrings in brackets, expected {}", vector_components.len(), #num_dims)))?;
-- 
2.43.0


From ac96229fbbf81f172cded418c800bce6e1edadb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 10/15] fix: deserialize rational exponents and report
 exponents that overflow

---
 crates/diman_lib/src/ratio.rs                 | 45 +++++++++++-------
 crates/diman_unit_system/src/codegen/serde.rs | 47 +++++++++++++++++--
 2 files changed, 69 insertions(+), 23 deletions(-)

diff --git a/crates/diman_lib/src/ratio.rs b/crates/diman_lib/src/ratio.rs
index 50140f6..aee9469 100644
--- a/crates/diman_lib/src/ratio.rs
+++ b/crates/diman_lib/src/ratio.rs
@@ -22,14 +22,6 @@ const fn gcd(mut a: i128, mut b: i128) -> i128 {
     a.abs()
 }
 
-const fn to_i64(x: i128) -> i64 {
-    assert!(
-        x >= i64::MIN as i128 && x <= i64::MAX as i128,
-        "Overflow in rational exponent"
-    );
-    x as i64
-}
-
 impl Ratio {
     pub const fn int(num: i64) -> Self {
         Self { num, denom: 1 }
@@ -48,15 +40,24 @@ impl Ratio {
     }
 
     /// Lowest terms with a positive denominator, so that numbers which
-    /// are equal are also represented in the same way.
-    const fn reduce(num: i128, denom: i128) -> Self {
+    /// are equal are also represented in the same way. None if the
+    /// result does not fit.
+    const fn checked_reduce(num: i128, denom: i128) -> Option<Self> {
         assert!(denom != 0, "Rational exponent with zero denominator");
         let gcd = gcd(num, denom);
         let gcd = if denom < 0 { -gcd } else { gcd };
-        Self {
-            num: to_i64(num / gcd),
-            denom: to_i64(denom / gcd),
+        let (num, denom) = (num / gcd, denom / gcd);
+        if num < i64::MIN as i128 || num > i64::MAX as i128 || denom > i64::MAX as i128 {
+            return None;
         }
+        Some(Self {
+            num: num as i64,
+            denom: denom as i64,
+        })
+    }
+
+    const fn reduce(num: i128, denom: i128) -> Self {
+        Self::checked_reduce(num, denom).expect("Overflow in rational exponent")
     }
 
     pub const fn powi(self, exp: i32) -> Self {
@@ -75,10 +76,20 @@ impl Ratio {
         result
     }
 
-    pub const fn add(self, rhs: Self) -> Self {
+    pub const fn checked_add(self, rhs: Self) -> Option<Self> {
         let num = self.num as i128 * rhs.denom as i128 + rhs.num as i128 * self.denom as i128;
         let denom = self.denom as i128 * rhs.denom as i128;
-        Self::reduce(num, denom)
+        Self::checked_reduce(num, denom)
+    }
+
+    pub const fn checked_mul(self, rhs: Self) -> Option<Self> {
+        let num = self.num as i128 * rhs.num as i128;
+        let denom = self.denom as i128 * rhs.denom as i128;
+        Self::checked_reduce(num, denom)
+    }
+
+    pub const fn add(self, rhs: Self) -> Self {
+        self.checked_add(rhs).expect("Overflow in rational exponent")
     }
 
     pub const fn sub(self, rhs: Self) -> Self {
@@ -90,9 +101,7 @@ impl Ratio {
     }
 
     pub const fn mul(self, rhs: Self) -> Self {
-        let num = self.num as i128 * rhs.num as i128;
-        let denom = self.denom as i128 * rhs.denom as i128;
-        Self::reduce(num, denom)
+        self.checked_mul(rhs).expect("Overflow in rational exponent")
     }
 
     pub const fn div(self, rhs: Self) -> Self {
diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 1874ed7..1bc870a 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -20,6 +20,17 @@ impl Codegen {
         let dimension_type = &self.defs.dimension_type;
         let quantity_type = &self.defs.quantity_type;
         let all_units_storage = self.runtime_unit_storage(self.defs.units.iter());
+        let parse_exponent = self.serde_parse_exponent();
+        let dimension_to_exponent: TokenStream = self
+            .defs
+            .base_dimensions()
+            .map(|dim| quote! { #dim: unit.dimension.#dim.checked_mul(exponent).ok_or_else(overflow)?, })
+            .collect();
+        let sum_of_dimensions: TokenStream = self
+            .defs
+            .base_dimensions()
+            .map(|dim| quote! { #dim: total_dimension.#dim.checked_add(dimension.#dim).ok_or_else(overflow)?, })
+            .collect();
 
         quote! {
             use core::marker::PhantomData;
@@ -46,20 +57,24 @@ impl Codegen {
             }
 
             fn read_unit_str<E: de::Error>(split: SplitWhitespace) -> Result<(#dimension_type, f64), E> {
+                let overflow = || E::custom("unit exponent too large");
                 let mut total_dimension = #dimension_type::none();
                 let mut total_factor = 1.0;
                 for unit in split {
                     let (dimension, factor) = read_single_unit_str(unit)?;
-                    total_dimension = total_dimension.add(dimension.clone());
+                    total_dimension = #dimension_type { #sum_of_dimensions };
                     total_factor *= factor;
                 }
                 Ok((total_dimension, total_factor))
             }
 
+            #parse_exponent
+
             fn read_single_unit_str<E>(unit_str: &str) -> Result<(#dimension_type, f64), E>
             where
                 E: de::Error,
             {
+                let overflow = || E::custom(format!("unit exponent too large: {}", unit_str));
                 let (unit, exponent) = if unit_str.contains('^') {
                     let split: Vec<_> = unit_str.split('^').collect();
                     if split.len() != 2 {
@@ -67,25 +82,47 @@ impl Codegen {
                     }
                     (
                         split[0],
-                        split[1].parse::<i32>().map_err(|_| {
+                        parse_exponent(split[1]).ok_or_else(|| {
                             E::custom(format!("unable to parse unit exponent: {}", split[1]))
                         })?,
                     )
                 } else {
-                    (unit_str, 1)
+                    (unit_str, Exponent::one())
                 };
                 #all_units_storage
                 let unit = units
                     .get_unit_by_symbol(unit)
                     .ok_or_else(|| E::custom(format!("unknown unit: {}", &unit)))?;
                 Ok((
-                    unit.dimension.clone().mul(exponent),
-                    Exponent::float_pow(Magnitude::from_f64(unit.magnitude), Exponent::from_int(exponent)).into_f64(),
+                    #dimension_type { #dimension_to_exponent },
+                    Exponent::float_pow(Magnitude::from_f64(unit.magnitude), exponent).into_f64(),
                 ))
             }
         }
     }
 
+    #[cfg(not(feature = "rational-dimensions"))]
+    fn serde_parse_exponent(&self) -> TokenStream {
+        quote! {
+            fn parse_exponent(exponent: &str) -> Option<Exponent> {
+                exponent.parse::<i32>().ok().map(Exponent::from_int)
+            }
+        }
+    }
+
+    #[cfg(feature = "rational-dimensions")]
+    fn serde_parse_exponent(&self) -> TokenStream {
+        quote! {
+            fn parse_exponent(exponent: &str) -> Option<Exponent> {
+                let (num, denom) = match exponent.split_once('/') {
+                    Some((num, denom)) => (num, denom.parse::<u32>().ok().filter(|denom| *denom > 0)?),
+                    None => (exponent, 1),
+                };
+                Some(Exponent::new(num.parse::<i32>().ok()? as i64, denom as i64))
+            }
+        }
+    }
+
     fn serde_floats_impl(&self) -> TokenStream {
         self.float_types()
             .iter()
-- 
2.43.0


From 9f78058d7b515c1a0182116feec786fb42b19d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:08 +0000
Subject: [PATCH 11/15] fix: sample single random quantities like single
 numbers

gen_range on quantities went through UniformSampler::new, unlike gen_range
on numbers: it returned different samples and did not terminate for ranges
of a few units in the last place.
---
 crates/diman_unit_system/src/codegen/rand.rs | 30 ++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/diman_unit_system/src/codegen/rand.rs b/crates/diman_unit_system/src/codegen/rand.rs
index 832e5bf..a31b414 100644
--- a/crates/diman_unit_system/src/codegen/rand.rs
+++ b/crates/diman_unit_system/src/codegen/rand.rs
@@ -58,6 +58,36 @@ impl Codegen {
                 fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Self::X {
                     #quantity_type::<#float_type, D>(self.0.sample(rng))
                 }
+
+                fn sample_single<R: Rng + ?Sized, B1, B2>(low: B1, high: B2, rng: &mut R) -> Self::X
+                where
+                    B1: SampleBorrow<Self::X> + Sized,
+                    B2: SampleBorrow<Self::X> + Sized,
+                {
+                    #quantity_type::<#float_type, D>(UniformFloat::<#float_type>::sample_single(
+                        low.borrow().0,
+                        high.borrow().0,
+                        rng,
+                    ))
+                }
+
+                fn sample_single_inclusive<R: Rng + ?Sized, B1, B2>(
+                    low: B1,
+                    high: B2,
+                    rng: &mut R,
+                ) -> Self::X
+                where
+                    B1: SampleBorrow<Self::X> + Sized,
+                    B2: SampleBorrow<Self::X> + Sized,
+                {
+                    #quantity_type::<#float_type, D>(
+                        UniformFloat::<#float_type>::sample_single_inclusive(
+                            low.borrow().0,
+                            high.borrow().0,
+                            rng,
+                        ),
+                    )
+                }
             }
 
             impl<const D: #dimension_type> SampleUniform for #quantity_type<#float_type, D> {
-- 
2.43.0


From 0062ba9bf9f08d2627708c9c5eeac5f615a8ce29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:51 +0000
Subject: [PATCH 12/15] fix: raise factors to powers beyond 32 bits

---
 crates/diman_lib/src/dimension_exponent.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/diman_lib/src/dimension_exponent.rs b/crates/diman_lib/src/dimension_exponent.rs
index c427bc1..60aedb8 100644
--- a/crates/diman_lib/src/dimension_exponent.rs
+++ b/crates/diman_lib/src/dimension_exponent.rs
@@ -26,7 +26,19 @@ impl DimensionExponent for i64 {
     }
 
     fn float_pow(num: Magnitude, exponent: Self) -> Magnitude {
-        Magnitude::from_f64(num.into_f64().powi(exponent as i32))
+        // powi takes 32 bits, larger exponents are split up.
+        const STEP: i32 = i32::MAX;
+        let base = num.into_f64();
+        match i32::try_from(exponent) {
+            Ok(exponent) => Magnitude::from_f64(base.powi(exponent)),
+            Err(_) => {
+                let steps = Magnitude::from_f64(base.powi(STEP));
+                let rest = base.powi((exponent % STEP as i64) as i32);
+                Magnitude::from_f64(
+                    Self::float_pow(steps, exponent / STEP as i64).into_f64() * rest,
+                )
+            }
+        }
     }
 
     fn from_int(i: i32) -> Self {
-- 
2.43.0


From 2ddd08686b147ecc162c42528269a1b7c0d45072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:51 +0000
Subject: [PATCH 13/15] fix: deserialize exponents beyond 32 bits

---
 crates/diman_unit_system/src/codegen/serde.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 1bc870a..a730def 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -105,7 +105,7 @@ impl Codegen {
     fn serde_parse_exponent(&self) -> TokenStream {
         quote! {
             fn parse_exponent(exponent: &str) -> Option<Exponent> {
-                exponent.parse::<i32>().ok().map(Exponent::from_int)
+                exponent.parse::<i64>().ok()
             }
         }
     }
@@ -115,10 +115,10 @@ impl Codegen {
         quote! {
             fn parse_exponent(exponent: &str) -> Option<Exponent> {
                 let (num, denom) = match exponent.split_once('/') {
-                    Some((num, denom)) => (num, denom.parse::<u32>().ok().filter(|denom| *denom > 0)?),
+                    Some((num, denom)) => (num, denom.parse::<i64>().ok().filter(|denom| *denom > 0)?),
                     None => (exponent, 1),
                 };
-                Some(Exponent::new(num.parse::<i32>().ok()? as i64, denom as i64))
+                Some(Exponent::new(num.parse::<i64>().ok()?, denom))
             }
         }
     }
-- 
2.43.0


From e801d850d2be53c3f502009b3e999d8292016476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:50 +0000
Subject: [PATCH 14/15] fix: accept base dimensions whose names become keywords

---
 crates/diman_unit_system/src/types/base_dimension.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/diman_unit_system/src/types/base_dimension.rs b/crates/diman_unit_system/src/types/base_dimension.rs
index 925cf17..79a5352 100644
--- a/crates/diman_unit_system/src/types/base_dimension.rs
+++ b/crates/diman_unit_system/src/types/base_dimension.rs
@@ -20,7 +20,11 @@ fn str_to_snakecase(s: &str) -> String {
 }
 
 fn to_snakecase(dim: &Ident) -> Ident {
-    let snake_case = str_to_snakecase(&dim.to_string());
+    let mut snake_case = str_to_snakecase(&dim.to_string());
+    if syn::parse_str::<Ident>(&snake_case).is_err() {
+        // Names like Type become keywords, which are no names for fields.
+        snake_case.push('_');
+    }
     Ident::new(&snake_case, dim.span())
 }
 
-- 
2.43.0


From acfec0f40d758b2cfc65f1511bf328cd1b67bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:42 +0000
Subject: [PATCH 15/15] fix: report exponents of definitions that overflow in
 release builds

---
 crates/diman_unit_system/src/dimension_math.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/diman_unit_system/src/dimension_math.rs b/crates/diman_unit_system/src/dimension_math.rs
index ee2b2be..18c7603 100644
--- a/crates/diman_unit_system/src/dimension_math.rs
+++ b/crates/diman_unit_system/src/dimension_math.rs
@@ -8,6 +8,13 @@ use crate::{
     types::{base_dimension::BaseDimension, Exponent},
 };
 
+// Checked explicitly, since macros are built without overflow checks in release builds.
+const EXPONENT_OVERFLOW: &str = "Overflow in dimension exponent";
+
+fn checked_mul(lhs: Exponent, rhs: Exponent) -> Exponent {
+    lhs.checked_mul(rhs).expect(EXPONENT_OVERFLOW)
+}
+
 #[derive(Clone)]
 pub struct BaseDimensions {
     fields: HashMap<BaseDimension, Exponent>,
@@ -72,7 +79,7 @@ impl core::ops::Mul for BaseDimensions {
         for (name_rhs, val_rhs) in rhs.fields {
             let same_field = fields.get_mut(&name_rhs);
             if let Some(val) = same_field {
-                *val += val_rhs;
+                *val = val.checked_add(val_rhs).expect(EXPONENT_OVERFLOW);
             } else {
                 fields.insert(name_rhs, val_rhs);
             }
@@ -84,7 +91,7 @@ impl core::ops::Mul for BaseDimensions {
 impl BaseDimensions {
     fn inv(mut self) -> Self {
         for (_, value) in self.fields.iter_mut() {
-            *value = -*value;
+            *value = checked_mul(*value, Exponent::from_int(-1));
         }
         self
     }
@@ -105,7 +112,7 @@ impl MulDiv for BaseDimensions {
             fields: self
                 .fields
                 .into_iter()
-                .map(|(ident, value)| (ident, value * pow))
+                .map(|(ident, value)| (ident, checked_mul(value, pow)))
                 .collect(),
         }
     }
-- 
2.43.0

