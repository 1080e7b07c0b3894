From 3ff0bb57748435f9443fd4949041b99714accfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 01/20] fix: compare all base dimensions when checking
 dimension annotations

---
 crates/diman_unit_system/src/dimension_math.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/diman_unit_system/src/dimension_math.rs b/crates/diman_unit_system/src/dimension_math.rs
index e39482f..0e6c6b4 100644
--- a/crates/diman_unit_system/src/dimension_math.rs
+++ b/crates/diman_unit_system/src/dimension_math.rs
@@ -21,12 +21,10 @@ pub struct DimensionsAndMagnitude {
 
 impl PartialEq for BaseDimensions {
     fn eq(&self, other: &Self) -> bool {
-        self.fields.iter().all(|(dimension, value)| {
-            if let Some(corresponding_value) = other.fields.get(dimension) {
-                value == corresponding_value
-            } else {
-                false
-            }
+        // A base dimension that is not listed has exponent zero.
+        let zero = Exponent::zero();
+        self.keys().chain(other.keys()).all(|dimension| {
+            self.get(dimension).unwrap_or(&zero) == other.get(dimension).unwrap_or(&zero)
         })
     }
 }
-- 
2.43.0


From fb107c9d175a379ff2c9e56644da29e875abdb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 02/20] fix: do not flush very small magnitudes to zero

---
 crates/diman_lib/src/magnitude.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/diman_lib/src/magnitude.rs b/crates/diman_lib/src/magnitude.rs
index b31c8bb..00afee0 100644
--- a/crates/diman_lib/src/magnitude.rs
+++ b/crates/diman_lib/src/magnitude.rs
@@ -44,7 +44,11 @@ impl Magnitude {
     }
 
     pub fn into_f64(self) -> f64 {
-        self.sign as f64 * self.mantissa as f64 * 2.0f64.powi(self.exponent as i32)
+        // Scale in two steps: on its own, two to the power of the smallest
+        // exponents is not representable and would turn the result into zero.
+        let exponent = self.exponent as i32;
+        let half = exponent / 2;
+        self.sign as f64 * self.mantissa as f64 * 2.0f64.powi(half) * 2.0f64.powi(exponent - half)
     }
 
     pub fn into_f32(self) -> f32 {
-- 
2.43.0


From 273640a97b79c6aea7e1bcd5b32a71956f392a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 03/20] fix: keep the denominator of rational exponents
 positive

---
 crates/diman_lib/src/ratio.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/diman_lib/src/ratio.rs b/crates/diman_lib/src/ratio.rs
index 7dd57b7..a5c0e3e 100644
--- a/crates/diman_lib/src/ratio.rs
+++ b/crates/diman_lib/src/ratio.rs
@@ -36,7 +36,13 @@ impl Ratio {
     }
 
     pub const fn new(num: i64, denom: i64) -> Self {
-        let gcd = gcd(num, denom);
+        // Always keep the sign in the numerator, so that equal
+        // ratios have equal representations.
+        let gcd = if denom < 0 {
+            -gcd(num, denom)
+        } else {
+            gcd(num, denom)
+        };
         Self {
             num: num / gcd,
             denom: denom / gcd,
-- 
2.43.0


From 1cfa59c4e805d9171f92b7a2fe63a72cfb961203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 04/20] fix: reject rational exponents with a denominator of
 zero

---
 crates/diman_unit_system/src/parse/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/diman_unit_system/src/parse/mod.rs b/crates/diman_unit_system/src/parse/mod.rs
index 4407f10..265a116 100644
--- a/crates/diman_unit_system/src/parse/mod.rs
+++ b/crates/diman_unit_system/src/parse/mod.rs
@@ -130,7 +130,14 @@ impl Parse for Exponent {
             let _: token::Paren = parenthesized!(content in input);
             let num: Int = content.parse()?;
             let _: DivisionToken = content.parse()?;
+            let denom_span = content.span();
             let denom: Int = content.parse()?;
+            if denom.int == 0 {
+                return Err(Error::new(
+                    denom_span,
+                    "The denominator of an exponent cannot be zero.".to_string(),
+                ));
+            }
             Ok(Self {
                 num,
                 denom: Some(denom),
-- 
2.43.0


From deb32e9b3e136d380cc8d44a1aaa1e7746ab7c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 05/20] fix: respect the names given by quantity_type and
 dimension_type everywhere

---
 crates/diman_unit_system/src/codegen/serde.rs          |  4 ++--
 .../src/codegen/units_and_constants.rs                 | 10 ++++++----
 crates/diman_unit_system/src/codegen/vector_methods.rs |  4 ++--
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 05cc3a9..a5cf2eb 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -179,7 +179,7 @@ impl Codegen {
                 }
             }
 
-            impl<const D: Dimension> serde::Serialize for #quantity_type<#float_type, D> {
+            impl<const D: #dimension_type> serde::Serialize for #quantity_type<#float_type, D> {
                 fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
                 where
                     S: serde::Serializer,
@@ -260,7 +260,7 @@ impl Codegen {
                 }
             }
 
-            impl<const D: Dimension> serde::Serialize for #quantity_type<#vector_type, D> {
+            impl<const D: #dimension_type> serde::Serialize for #quantity_type<#vector_type, D> {
                 fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
                 where
                     S: serde::Serializer,
diff --git a/crates/diman_unit_system/src/codegen/units_and_constants.rs b/crates/diman_unit_system/src/codegen/units_and_constants.rs
index f3c098e..84be135 100644
--- a/crates/diman_unit_system/src/codegen/units_and_constants.rs
+++ b/crates/diman_unit_system/src/codegen/units_and_constants.rs
@@ -31,12 +31,14 @@ impl Codegen {
             })
             .collect();
         let path_prefix = self.caller_type.path_prefix();
+        let dimension_type = &self.defs.dimension_type;
+        let quantity_type = &self.defs.quantity_type;
         quote! {
             pub use #path_prefix::magnitude::Magnitude;
             mod unit_type {
-                use super::Dimension;
+                use super::#dimension_type as Dimension;
                 use super::Magnitude;
-                use super::Quantity;
+                use super::#quantity_type as Quantity;
                 #def_unit_type
             }
             #[allow(unused)]
@@ -46,7 +48,7 @@ impl Codegen {
             pub mod units {
                 use super::Magnitude;
                 use super::Unit;
-                use super::Dimension;
+                use super::#dimension_type;
                 use super::Exponent;
                 #units
             }
@@ -54,7 +56,7 @@ impl Codegen {
             pub mod constants {
                 use super::Magnitude;
                 use super::Unit;
-                use super::Dimension;
+                use super::#dimension_type;
                 use super::Exponent;
                 #constants
             }
diff --git a/crates/diman_unit_system/src/codegen/vector_methods.rs b/crates/diman_unit_system/src/codegen/vector_methods.rs
index da73e96..b3986e7 100644
--- a/crates/diman_unit_system/src/codegen/vector_methods.rs
+++ b/crates/diman_unit_system/src/codegen/vector_methods.rs
@@ -136,9 +136,9 @@ impl Codegen {
                     #quantity_type::<#vector_type_name, { #dimension_type::none() }>(self.0.normalize())
                 }
 
-                pub fn dot<const DR: Dimension>(
+                pub fn dot<const DR: #dimension_type>(
                     self,
-                    rhs: Quantity<#vector_type_name, DR>,
+                    rhs: #quantity_type<#vector_type_name, DR>,
                 ) -> #quantity_type<#float_type, { D.add(DR) }> {
                     #quantity_type(self.0.dot(rhs.0))
                 }
-- 
2.43.0


From c3b15f6e1beebbb17816d8027c136bf01e648d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 06/20] fix: reject vector strings that do not start with an
 opening bracket

---
 crates/diman_unit_system/src/codegen/serde.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index a5cf2eb..7b0977d 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -234,10 +234,10 @@ impl Codegen {
                         .find(')')
                         .ok_or_else(|| E::custom("No closing bracket in vector string"))?;
                     let (vector_part, unit_part) = value.split_at(bracket_end + 1);
-                    let bracket_begin = vector_part
-                        .find('(')
-                        .ok_or_else(|| E::custom("No opening bracket in vector string"))?;
-                    let vector_part = vector_part[bracket_begin + 1..vector_part.len() - 1].to_string();
+                    if !vector_part.starts_with('(') {
+                        return Err(E::custom("No opening bracket at the start of vector string"));
+                    }
+                    let vector_part = vector_part[1..vector_part.len() - 1].to_string();
                     let vector_components = &vector_part.split_whitespace().collect::<Vec<_>>();
                     if vector_components.len() != #num_dims {
                         return Err(E::custom(format!("found {} substrings in brackets, expected {}", vector_components.len(), #num_dims)))?;
-- 
2.43.0


From 64feb091d3b1fb6707bc0a43caa84e6014a70600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 07/20] fix: do not panic in Debug for dimensions without a
 base unit

---
 crates/diman_unit_system/src/codegen/debug_trait.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/debug_trait.rs b/crates/diman_unit_system/src/codegen/debug_trait.rs
index 51214b7..70f3bec 100644
--- a/crates/diman_unit_system/src/codegen/debug_trait.rs
+++ b/crates/diman_unit_system/src/codegen/debug_trait.rs
@@ -76,14 +76,19 @@ impl Codegen {
 
     fn get_base_dimension_symbol(&self, base_dim: &BaseDimension) -> TokenStream {
         let dim = self.get_dimension_expr(&BaseDimensions::for_base_dimension(base_dim.clone()));
-        // We know that symbols exist for base dimensions, so we can unwrap here.
+        // We know that symbols exist for base units. If the dimension does not
+        // have a base unit, fall back to the name of the dimension.
         let base_dim = &base_dim.0;
+        let name = base_dim.to_string();
+        let symbol = quote! {
+            units.get_first_unit_for_dimension(#dim).map_or(#name, |unit| unit.symbol)
+        };
         quote! {
             if D.#base_dim == Exponent::one() {
-                write!(f, " {}", units.get_first_unit_for_dimension(#dim).unwrap().symbol)?;
+                write!(f, " {}", #symbol)?;
             }
             else if D.#base_dim != Exponent::zero() {
-                write!(f, " {}^{}", units.get_first_unit_for_dimension(#dim).unwrap().symbol, D.#base_dim)?;
+                write!(f, " {}^{}", #symbol, D.#base_dim)?;
             }
         }
     }
-- 
2.43.0


From a7e138862072bedb7b4cc88af70ba56c0d48fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 08/20] fix: dividing a number by a unit inverts the dimension

---
 crates/diman_unit_system/src/codegen/unit_type.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 3475966..2ca70d1 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -206,8 +206,11 @@ impl Codegen {
             }
 
             // X / Unit
-            impl<const D: Dimension, const F: Magnitude> Div<Unit<D, F>> for #name {
-                type Output = Quantity<#name, D>;
+            impl<const D: Dimension, const F: Magnitude> Div<Unit<D, F>> for #name
+            where
+                Quantity<(), { D.neg() }>:,
+            {
+                type Output = Quantity<#name, { D.neg() }>;
                 fn div(self, _: Unit<D, F>) -> Self::Output {
                     Quantity(self / #into)
                 }
@@ -238,8 +241,11 @@ impl Codegen {
             }
 
             // X / RuntimeUnit
-            impl<const D: Dimension> Div<RuntimeUnit<D>> for #name {
-                type Output = Quantity<#name, D>;
+            impl<const D: Dimension> Div<RuntimeUnit<D>> for #name
+            where
+                Quantity<(), { D.neg() }>:,
+            {
+                type Output = Quantity<#name, { D.neg() }>;
                 fn div(self, unit: RuntimeUnit<D>) -> Self::Output {
                     Quantity(self / unit.0.#conversion_to_float())
                 }
-- 
2.43.0


From f23d851405456023a3cfaee3ab576d78e8c2f77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 09/20] fix: dividing a unit by a quantity divides the unit by
 the value

---
 crates/diman_lib/src/magnitude.rs                 | 12 ++++++++++++
 crates/diman_unit_system/src/codegen/unit_type.rs |  8 ++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/diman_lib/src/magnitude.rs b/crates/diman_lib/src/magnitude.rs
index 00afee0..a69d8b4 100644
--- a/crates/diman_lib/src/magnitude.rs
+++ b/crates/diman_lib/src/magnitude.rs
@@ -65,6 +65,18 @@ impl Magnitude {
     }
 }
 
+impl From<Magnitude> for f64 {
+    fn from(magnitude: Magnitude) -> Self {
+        magnitude.into_f64()
+    }
+}
+
+impl From<Magnitude> for f32 {
+    fn from(magnitude: Magnitude) -> Self {
+        magnitude.into_f32()
+    }
+}
+
 impl Mul<Magnitude> for Magnitude {
     type Output = Self;
 
diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 2ca70d1..4187834 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -72,12 +72,12 @@ impl Codegen {
             impl<const DL: Dimension, const DR: Dimension, const FL: Magnitude, S> Div<Quantity<S, DR>>
                 for Unit<DL, FL>
             where
-                S: Div<Magnitude, Output = S>,
+                S: From<Magnitude> + Div<S, Output = S>,
                 Quantity<(), { DL.sub(DR) }>:,
             {
                 type Output = Quantity<S, { DL.sub(DR) }>;
                 fn div(self, x: Quantity<S, DR>) -> Self::Output {
-                    Quantity(x.value_unchecked() / FL)
+                    Quantity(S::from(FL) / x.value_unchecked())
                 }
             }
 
@@ -133,12 +133,12 @@ impl Codegen {
             impl<const DL: Dimension, const DR: Dimension, S> Div<Quantity<S, DR>>
                 for RuntimeUnit<DL>
             where
-                S: Div<Magnitude, Output = S>,
+                S: From<Magnitude> + Div<S, Output = S>,
                 Quantity<(), { DL.sub(DR) }>:,
             {
                 type Output = Quantity<S, { DL.sub(DR) }>;
                 fn div(self, x: Quantity<S, DR>) -> Self::Output {
-                    Quantity(x.value_unchecked() / self.0)
+                    Quantity(S::from(self.0) / x.value_unchecked())
                 }
             }
 
-- 
2.43.0


From b7b6e1eee38d4949656c080427555fe6ae4b88a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 10/20] fix: value_in only accepts units of the dimension of
 the quantity

---
 crates/diman_unit_system/src/codegen/quantity_type.rs | 2 +-
 crates/diman_unit_system/src/codegen/unit_type.rs     | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/diman_unit_system/src/codegen/quantity_type.rs b/crates/diman_unit_system/src/codegen/quantity_type.rs
index e7a8d8e..a651588 100644
--- a/crates/diman_unit_system/src/codegen/quantity_type.rs
+++ b/crates/diman_unit_system/src/codegen/quantity_type.rs
@@ -61,7 +61,7 @@ impl Codegen {
             where
                 S: core::ops::Div<Magnitude, Output = S> + core::fmt::Debug,
             {
-                pub fn value_in<A: Into<Magnitude>>(self, a: A) -> S {
+                pub fn value_in<A: unit_type::UnitOfDimension<D>>(self, a: A) -> S {
                     self.value_unchecked() / a.into()
                 }
             }
diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 4187834..01ba4c2 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -170,6 +170,11 @@ impl Codegen {
                 }
             }
 
+            /// A unit of dimension D, needed to convert a quantity of the same dimension.
+            pub trait UnitOfDimension<const D: Dimension>: Into<Magnitude> {}
+            impl<const D: Dimension, const F: Magnitude> UnitOfDimension<D> for Unit<D, F> {}
+            impl<const D: Dimension> UnitOfDimension<D> for RuntimeUnit<D> {}
+
             impl<const D: Dimension> From<RuntimeUnit<D>> for Magnitude {
                 fn from(unit: RuntimeUnit<D>) -> Magnitude {
                     unit.0
-- 
2.43.0


From 1fe39aeb8aa60574b6fef55e21afe7ff40aaafef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 11/20] fix: deserialize quantities with rational exponents

---
 crates/diman_lib/src/dimension_exponent.rs    |  6 ++++
 crates/diman_lib/src/ratio.rs                 | 21 +++++++++++++
 crates/diman_unit_system/src/codegen/serde.rs | 31 ++++++++++++++++---
 3 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/crates/diman_lib/src/dimension_exponent.rs b/crates/diman_lib/src/dimension_exponent.rs
index c427bc1..b94250c 100644
--- a/crates/diman_lib/src/dimension_exponent.rs
+++ b/crates/diman_lib/src/dimension_exponent.rs
@@ -14,6 +14,8 @@ pub trait DimensionExponent: Clone + PartialEq + Copy + Mul + AddAssign + Neg {
     fn one() -> Self;
     fn zero() -> Self;
     fn from_int(i: i32) -> Self;
+    /// Parse an exponent in the form in which it is displayed.
+    fn from_displayed(s: &str) -> Option<Self>;
 }
 
 impl DimensionExponent for i64 {
@@ -32,4 +34,8 @@ impl DimensionExponent for i64 {
     fn from_int(i: i32) -> Self {
         i as i64
     }
+
+    fn from_displayed(s: &str) -> Option<Self> {
+        s.parse::<i32>().ok().map(Self::from_int)
+    }
 }
diff --git a/crates/diman_lib/src/ratio.rs b/crates/diman_lib/src/ratio.rs
index a5c0e3e..f6491fd 100644
--- a/crates/diman_lib/src/ratio.rs
+++ b/crates/diman_lib/src/ratio.rs
@@ -82,6 +82,19 @@ impl Ratio {
         self.mul(rhs.inv())
     }
 
+    pub fn checked_add(self, rhs: Self) -> Option<Self> {
+        let num =
+            (self.num.checked_mul(rhs.denom)?).checked_add(rhs.num.checked_mul(self.denom)?)?;
+        let denom = self.denom.checked_mul(rhs.denom)?;
+        Some(Self::new(num, denom))
+    }
+
+    pub fn checked_mul(self, rhs: Self) -> Option<Self> {
+        let num = self.num.checked_mul(rhs.num)?;
+        let denom = self.denom.checked_mul(rhs.denom)?;
+        Some(Self::new(num, denom))
+    }
+
     const fn inv(self) -> Self {
         Self {
             num: self.denom,
@@ -106,6 +119,14 @@ impl DimensionExponent for Ratio {
     fn from_int(i: i32) -> Self {
         Ratio::int(i as i64)
     }
+
+    fn from_displayed(s: &str) -> Option<Self> {
+        let (num, denom) = match s.split_once('/') {
+            Some((num, denom)) => (num.parse::<i32>().ok()?, denom.parse::<i32>().ok()?),
+            None => (s.parse::<i32>().ok()?, 1),
+        };
+        (denom > 0).then(|| Ratio::new(num as i64, denom as i64))
+    }
 }
 
 impl core::fmt::Display for Ratio {
diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 7b0977d..7468532 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -20,6 +20,16 @@ impl Codegen {
         let dimension_type = &self.defs.dimension_type;
         let quantity_type = &self.defs.quantity_type;
         let all_units_storage = self.runtime_unit_storage(self.defs.units.iter());
+        let add_gen: TokenStream = self
+            .defs
+            .base_dimensions()
+            .map(|dim| quote! { #dim: lhs.#dim.checked_add(rhs.#dim)?, })
+            .collect();
+        let mul_gen: TokenStream = self
+            .defs
+            .base_dimensions()
+            .map(|dim| quote! { #dim: dimension.#dim.checked_mul(exponent)?, })
+            .collect();
 
         quote! {
             use core::marker::PhantomData;
@@ -45,12 +55,21 @@ impl Codegen {
                 }
             }
 
+            fn checked_add_dimensions(lhs: #dimension_type, rhs: #dimension_type) -> Option<#dimension_type> {
+                Some(#dimension_type { #add_gen })
+            }
+
+            fn checked_mul_dimension(dimension: &#dimension_type, exponent: Exponent) -> Option<#dimension_type> {
+                Some(#dimension_type { #mul_gen })
+            }
+
             fn read_unit_str<E: de::Error>(split: SplitWhitespace) -> Result<(#dimension_type, f64), E> {
                 let mut total_dimension = #dimension_type::none();
                 let mut total_factor = 1.0;
                 for unit in split {
                     let (dimension, factor) = read_single_unit_str(unit)?;
-                    total_dimension = total_dimension.add(dimension.clone());
+                    total_dimension = checked_add_dimensions(total_dimension, dimension)
+                        .ok_or_else(|| E::custom(format!("exponents too large: {}", unit)))?;
                     total_factor *= factor;
                 }
                 Ok((total_dimension, total_factor))
@@ -67,20 +86,22 @@ impl Codegen {
                     }
                     (
                         split[0],
-                        split[1].parse::<i32>().map_err(|_| {
+                        Exponent::from_displayed(split[1]).ok_or_else(|| {
                             E::custom(format!("unable to parse unit exponent: {}", split[1]))
                         })?,
                     )
                 } else {
-                    (unit_str, 1)
+                    (unit_str, Exponent::one())
                 };
                 #all_units_storage
                 let unit = units
                     .get_unit_by_symbol(unit)
                     .ok_or_else(|| E::custom(format!("unknown unit: {}", &unit)))?;
+                let dimension = checked_mul_dimension(&unit.dimension, exponent)
+                    .ok_or_else(|| E::custom(format!("exponent too large: {}", unit_str)))?;
                 Ok((
-                    unit.dimension.clone().mul(exponent),
-                    Exponent::float_pow(Magnitude::from_f64(unit.magnitude), Exponent::from_int(exponent)).into_f64(),
+                    dimension,
+                    Exponent::float_pow(Magnitude::from_f64(unit.magnitude), exponent).into_f64(),
                 ))
             }
         }
-- 
2.43.0


From 5822e4f5dc0bd873133fb98df2ec7b699fa33613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 12/20] fix: respect the name given by dimension_type in the
 definition of Unit

---
 crates/diman_unit_system/src/codegen/unit_type.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/unit_type.rs b/crates/diman_unit_system/src/codegen/unit_type.rs
index 01ba4c2..85df412 100644
--- a/crates/diman_unit_system/src/codegen/unit_type.rs
+++ b/crates/diman_unit_system/src/codegen/unit_type.rs
@@ -6,12 +6,11 @@ use super::Codegen;
 
 impl Codegen {
     pub fn gen_unit_type(&self) -> TokenStream {
-        let dimension_type = &self.defs.dimension_type;
         let trait_impls = self.gen_unit_trait_impls();
         let storage_type_impls = self.gen_unit_trait_impls_for_storage_types();
         quote! {
-            pub struct Unit<const D: #dimension_type, const F: Magnitude>;
-            pub struct RuntimeUnit<const D: #dimension_type>(Magnitude);
+            pub struct Unit<const D: Dimension, const F: Magnitude>;
+            pub struct RuntimeUnit<const D: Dimension>(Magnitude);
             #trait_impls
             #storage_type_impls
         }
-- 
2.43.0


From 09c0e0e664aa9efa5c4c7a1817179b3d5eae680a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:16 +0000
Subject: [PATCH 13/20] fix: build the si module with serde but without std

---
 crates/diman_unit_system/src/codegen/serde.rs | 36 +++++++++----------
 src/lib.rs                                    |  5 +++
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/serde.rs b/crates/diman_unit_system/src/codegen/serde.rs
index 7468532..4696b61 100644
--- a/crates/diman_unit_system/src/codegen/serde.rs
+++ b/crates/diman_unit_system/src/codegen/serde.rs
@@ -48,7 +48,7 @@ impl Codegen {
                 if dimension == D {
                     Ok(#quantity_type::<S, D>(numerical_value))
                 } else {
-                    Err(E::custom(format!(
+                    Err(E::custom(std::format!(
                         "mismatch in dimensions: needed: {:?} given: {:?} in string: {}",
                         D, dimension, context
                     )))
@@ -69,7 +69,7 @@ impl Codegen {
                 for unit in split {
                     let (dimension, factor) = read_single_unit_str(unit)?;
                     total_dimension = checked_add_dimensions(total_dimension, dimension)
-                        .ok_or_else(|| E::custom(format!("exponents too large: {}", unit)))?;
+                        .ok_or_else(|| E::custom(std::format!("exponents too large: {}", unit)))?;
                     total_factor *= factor;
                 }
                 Ok((total_dimension, total_factor))
@@ -80,14 +80,14 @@ impl Codegen {
                 E: de::Error,
             {
                 let (unit, exponent) = if unit_str.contains('^') {
-                    let split: Vec<_> = unit_str.split('^').collect();
+                    let split: std::vec::Vec<_> = unit_str.split('^').collect();
                     if split.len() != 2 {
-                        return Err(E::custom(format!("invalid unit string: {}", unit_str)));
+                        return Err(E::custom(std::format!("invalid unit string: {}", unit_str)));
                     }
                     (
                         split[0],
                         Exponent::from_displayed(split[1]).ok_or_else(|| {
-                            E::custom(format!("unable to parse unit exponent: {}", split[1]))
+                            E::custom(std::format!("unable to parse unit exponent: {}", split[1]))
                         })?,
                     )
                 } else {
@@ -96,9 +96,9 @@ impl Codegen {
                 #all_units_storage
                 let unit = units
                     .get_unit_by_symbol(unit)
-                    .ok_or_else(|| E::custom(format!("unknown unit: {}", &unit)))?;
+                    .ok_or_else(|| E::custom(std::format!("unknown unit: {}", &unit)))?;
                 let dimension = checked_mul_dimension(&unit.dimension, exponent)
-                    .ok_or_else(|| E::custom(format!("exponent too large: {}", unit_str)))?;
+                    .ok_or_else(|| E::custom(std::format!("exponent too large: {}", unit_str)))?;
                 Ok((
                     dimension,
                     Exponent::float_pow(Magnitude::from_f64(unit.magnitude), exponent).into_f64(),
@@ -142,7 +142,7 @@ impl Codegen {
                     if D == #dimension_type::none() {
                         Ok(#quantity_type::<#float_type, D>(value as #float_type))
                     } else {
-                        Err(E::custom(format!(
+                        Err(E::custom(std::format!(
                             "dimensionless numerical value given for non-dimensionless quantity: {}",
                             value
                         )))
@@ -155,7 +155,7 @@ impl Codegen {
                     if D == #dimension_type::none() {
                         Ok(#quantity_type::<#float_type, D>(value as #float_type))
                     } else {
-                        Err(E::custom(format!(
+                        Err(E::custom(std::format!(
                             "dimensionless numerical value given for non-dimensionless quantity: {}",
                             value
                         )))
@@ -169,7 +169,7 @@ impl Codegen {
                     if D == #dimension_type::none() {
                         Ok(#quantity_type::<#float_type, D>(value as #float_type))
                     } else {
-                        Err(E::custom(format!(
+                        Err(E::custom(std::format!(
                             "dimensionless numerical value given for non-dimensionless quantity: {}",
                             value
                         )))
@@ -186,7 +186,7 @@ impl Codegen {
                         .next()
                         .ok_or_else(|| E::custom("unable to parse empty string"))?;
                     let numerical_value = numerical_value_str.parse::<#float_type>().map_err(|_| {
-                        E::custom(format!(
+                        E::custom(std::format!(
                             "unable to parse numerical value {}",
                             &numerical_value_str
                         ))
@@ -205,7 +205,7 @@ impl Codegen {
                 where
                     S: serde::Serializer,
                 {
-                    serializer.serialize_str(&format!("{:?}", self))
+                    serializer.serialize_str(&std::format!("{:?}", self))
                 }
             }
         }
@@ -243,7 +243,7 @@ impl Codegen {
                         3 => "three",
                         _ => unimplemented!(),
                     };
-                    formatter.write_str(&format!("{} numerical values surrounded by () followed by a series of powers of units, e.g. (1.0 2.0) m s^-2", num_expected))
+                    formatter.write_str(&std::format!("{} numerical values surrounded by () followed by a series of powers of units, e.g. (1.0 2.0) m s^-2", num_expected))
                 }
 
                 fn visit_str<E>(self, value: &str) -> Result<Self::Value, E>
@@ -258,17 +258,17 @@ impl Codegen {
                     if !vector_part.starts_with('(') {
                         return Err(E::custom("No opening bracket at the start of vector string"));
                     }
-                    let vector_part = vector_part[1..vector_part.len() - 1].to_string();
-                    let vector_components = &vector_part.split_whitespace().collect::<Vec<_>>();
+                    let vector_part = &vector_part[1..vector_part.len() - 1];
+                    let vector_components = &vector_part.split_whitespace().collect::<std::vec::Vec<_>>();
                     if vector_components.len() != #num_dims {
-                        return Err(E::custom(format!("found {} substrings in brackets, expected {}", vector_components.len(), #num_dims)))?;
+                        return Err(E::custom(std::format!("found {} substrings in brackets, expected {}", vector_components.len(), #num_dims)))?;
                     }
                     let mut array = [0.0; #num_dims];
                     for dim in 0..#num_dims {
                         let string = vector_components[dim];
                         array[dim] = string
                             .parse::<#float_type>()
-                                .map_err(|e| E::custom(format!("While parsing component {}: {}, '{}'", dim, e, string)))?;
+                                .map_err(|e| E::custom(std::format!("While parsing component {}: {}, '{}'", dim, e, string)))?;
 
                     }
                     let vector = <#vector_type>::from_array(array);
@@ -288,7 +288,7 @@ impl Codegen {
                 {
                     // yaml syntax struggles with comma delimited [] entries because
                     // they look like lists, so do this ugly stuff
-                    let vec_str = format!("{:?}", self);
+                    let vec_str = std::format!("{:?}", self);
                     serializer.serialize_str(&vec_str.replace("[", "(").replace("]", ")").replace(",", ""))
                 }
             }
diff --git a/src/lib.rs b/src/lib.rs
index ec2f1a5..6d279c9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -406,6 +406,11 @@
 // imports via `crate::` and `diman::` in the proc macro.
 extern crate self as diman;
 
+// Serialization produces strings, which requires `std` (which the
+// `serde` crate itself requires as well).
+#[cfg(all(feature = "serde", not(feature = "std")))]
+extern crate std;
+
 #[cfg(all(
     feature = "rational-dimensions",
     not(any(feature = "std", feature = "num-traits-libm"))
-- 
2.43.0


From 9d325ee8b1d1745a46dc600634e32a7c87b98c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 14/20] fix: build vectors and the si module with hdf5 but
 without std

---
 crates/diman_unit_system/src/codegen/hdf5.rs | 2 +-
 src/lib.rs                                   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/diman_unit_system/src/codegen/hdf5.rs b/crates/diman_unit_system/src/codegen/hdf5.rs
index 8cac75f..3ac4271 100644
--- a/crates/diman_unit_system/src/codegen/hdf5.rs
+++ b/crates/diman_unit_system/src/codegen/hdf5.rs
@@ -48,7 +48,7 @@ impl Codegen {
             unsafe impl<const D: #dimension_type> hdf5::H5Type for #quantity_type<#vector_type_name, D> {
                 fn type_descriptor() -> hdf5::types::TypeDescriptor {
                     hdf5::types::TypeDescriptor::FixedArray(
-                        Box::new(hdf5::types::TypeDescriptor::Float(#hdf5_type)),
+                        std::boxed::Box::new(hdf5::types::TypeDescriptor::Float(#hdf5_type)),
                         #num_dims,
                     )
                 }
diff --git a/src/lib.rs b/src/lib.rs
index 6d279c9..aca0428 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -406,9 +406,9 @@
 // imports via `crate::` and `diman::` in the proc macro.
 extern crate self as diman;
 
-// Serialization produces strings, which requires `std` (which the
-// `serde` crate itself requires as well).
-#[cfg(all(feature = "serde", not(feature = "std")))]
+// Serialization and HDF5 type descriptors need strings and boxes, which
+// requires `std` (which the `serde` and `hdf5` crates require as well).
+#[cfg(all(any(feature = "serde", feature = "hdf5"), not(feature = "std")))]
 extern crate std;
 
 #[cfg(all(
-- 
2.43.0


From d5ba3e0b28898f666b1830875729b66cd9661f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:12 +0000
Subject: [PATCH 15/20] fix: report too large exponents instead of panicking in
 the macro

---
 .../diman_unit_system/src/dimension_math.rs   | 19 +++++++++++++++----
 crates/diman_unit_system/src/parse/mod.rs     |  3 +++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/crates/diman_unit_system/src/dimension_math.rs b/crates/diman_unit_system/src/dimension_math.rs
index 0e6c6b4..e0b47c5 100644
--- a/crates/diman_unit_system/src/dimension_math.rs
+++ b/crates/diman_unit_system/src/dimension_math.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 
 use diman_lib::{dimension_exponent::DimensionExponent, magnitude::Magnitude};
-use proc_macro2::Ident;
+use proc_macro2::{Ident, Span};
 
 use crate::{
     types::expression::MulDiv,
@@ -58,6 +58,17 @@ impl BaseDimensions {
     }
 }
 
+/// Report exponents that are too large to be represented, and continue without them.
+fn checked(exponent: Option<Exponent>) -> Exponent {
+    exponent.unwrap_or_else(|| {
+        Span::call_site()
+            .unwrap()
+            .error("Exponent is too large.")
+            .emit();
+        Exponent::zero()
+    })
+}
+
 impl core::ops::Mul for BaseDimensions {
     type Output = Self;
 
@@ -67,7 +78,7 @@ impl core::ops::Mul for BaseDimensions {
         for (name_rhs, val_rhs) in rhs.fields {
             let same_field = fields.get_mut(&name_rhs);
             if let Some(val) = same_field {
-                *val += val_rhs;
+                *val = checked(val.checked_add(val_rhs));
             } else {
                 fields.insert(name_rhs, val_rhs);
             }
@@ -79,7 +90,7 @@ impl core::ops::Mul for BaseDimensions {
 impl BaseDimensions {
     fn inv(mut self) -> Self {
         for (_, value) in self.fields.iter_mut() {
-            *value = -*value;
+            *value = checked(value.checked_mul(Exponent::from_int(-1)));
         }
         self
     }
@@ -100,7 +111,7 @@ impl MulDiv for BaseDimensions {
             fields: self
                 .fields
                 .into_iter()
-                .map(|(ident, value)| (ident, value * pow))
+                .map(|(ident, value)| (ident, checked(value.checked_mul(pow))))
                 .collect(),
         }
     }
diff --git a/crates/diman_unit_system/src/parse/mod.rs b/crates/diman_unit_system/src/parse/mod.rs
index 265a116..a0e78c6 100644
--- a/crates/diman_unit_system/src/parse/mod.rs
+++ b/crates/diman_unit_system/src/parse/mod.rs
@@ -138,6 +138,9 @@ impl Parse for Exponent {
                     "The denominator of an exponent cannot be zero.".to_string(),
                 ));
             }
+            if num.int == i64::MIN || denom.int == i64::MIN {
+                return Err(Error::new(denom_span, "Exponent is too large.".to_string()));
+            }
             Ok(Self {
                 num,
                 denom: Some(denom),
-- 
2.43.0


From bc3151fe05a77022006c95bc3219e30de8338752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:05 +0000
Subject: [PATCH 16/20] fix: integer powers with exponents beyond 32 bits

---
 crates/diman_lib/src/dimension_exponent.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/diman_lib/src/dimension_exponent.rs b/crates/diman_lib/src/dimension_exponent.rs
index b94250c..7abe3f2 100644
--- a/crates/diman_lib/src/dimension_exponent.rs
+++ b/crates/diman_lib/src/dimension_exponent.rs
@@ -28,7 +28,13 @@ impl DimensionExponent for i64 {
     }
 
     fn float_pow(num: Magnitude, exponent: Self) -> Magnitude {
-        Magnitude::from_f64(num.into_f64().powi(exponent as i32))
+        match i32::try_from(exponent) {
+            Ok(exponent) => Magnitude::from_f64(num.into_f64().powi(exponent)),
+            Err(_) => {
+                let half = Self::float_pow(num, exponent / 2);
+                half * half * Self::float_pow(num, exponent % 2)
+            }
+        }
     }
 
     fn from_int(i: i32) -> Self {
-- 
2.43.0


From 7f9f5b7aab80d5a779d52e08548bdbe5f85dfca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:46 +0000
Subject: [PATCH 17/20] fix: deserialize units with exponents beyond 32 bits

---
 crates/diman_lib/src/dimension_exponent.rs | 2 +-
 crates/diman_lib/src/ratio.rs              | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/diman_lib/src/dimension_exponent.rs b/crates/diman_lib/src/dimension_exponent.rs
index 7abe3f2..7f964e9 100644
--- a/crates/diman_lib/src/dimension_exponent.rs
+++ b/crates/diman_lib/src/dimension_exponent.rs
@@ -42,6 +42,6 @@ impl DimensionExponent for i64 {
     }
 
     fn from_displayed(s: &str) -> Option<Self> {
-        s.parse::<i32>().ok().map(Self::from_int)
+        s.parse().ok()
     }
 }
diff --git a/crates/diman_lib/src/ratio.rs b/crates/diman_lib/src/ratio.rs
index f6491fd..7d44b02 100644
--- a/crates/diman_lib/src/ratio.rs
+++ b/crates/diman_lib/src/ratio.rs
@@ -122,10 +122,10 @@ impl DimensionExponent for Ratio {
 
     fn from_displayed(s: &str) -> Option<Self> {
         let (num, denom) = match s.split_once('/') {
-            Some((num, denom)) => (num.parse::<i32>().ok()?, denom.parse::<i32>().ok()?),
-            None => (s.parse::<i32>().ok()?, 1),
+            Some((num, denom)) => (num.parse::<i64>().ok()?, denom.parse::<i64>().ok()?),
+            None => (s.parse::<i64>().ok()?, 1),
         };
-        (denom > 0).then(|| Ratio::new(num as i64, denom as i64))
+        (denom > 0).then(|| Ratio::new(num, denom))
     }
 }
 
-- 
2.43.0


From 5b3b288a0cc9d126394a51a67574c536f4c914e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:20 +0000
Subject: [PATCH 18/20] fix: allow dimensions named like keywords

---
 crates/diman_unit_system/src/types/base_dimension.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/diman_unit_system/src/types/base_dimension.rs b/crates/diman_unit_system/src/types/base_dimension.rs
index 925cf17..38db8a2 100644
--- a/crates/diman_unit_system/src/types/base_dimension.rs
+++ b/crates/diman_unit_system/src/types/base_dimension.rs
@@ -20,7 +20,11 @@ fn str_to_snakecase(s: &str) -> String {
 }
 
 fn to_snakecase(dim: &Ident) -> Ident {
-    let snake_case = str_to_snakecase(&dim.to_string());
+    let mut snake_case = str_to_snakecase(&dim.to_string());
+    if syn::parse_str::<Ident>(&snake_case).is_err() {
+        // The name is a keyword, which cannot be the name of a field.
+        snake_case.push('_');
+    }
     Ident::new(&snake_case, dim.span())
 }
 
-- 
2.43.0


From 78e46f6d5a45728a2bcac9171b1f9d01f0476a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:32 +0000
Subject: [PATCH 19/20] fix: allow raw identifiers as names and symbols

---
 crates/diman_unit_system/src/parse/attributes.rs     | 12 ++++++++----
 crates/diman_unit_system/src/types/base_dimension.rs |  3 ++-
 crates/diman_unit_system/src/types/mod.rs            |  7 +++++--
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/diman_unit_system/src/parse/attributes.rs b/crates/diman_unit_system/src/parse/attributes.rs
index 0ebce2c..c814365 100644
--- a/crates/diman_unit_system/src/parse/attributes.rs
+++ b/crates/diman_unit_system/src/parse/attributes.rs
@@ -1,8 +1,10 @@
 use proc_macro2::Span;
 use syn::{
-    bracketed, parenthesized,
+    bracketed,
+    ext::IdentExt,
+    parenthesized,
     parse::{Parse, ParseBuffer, ParseStream},
-    Error, Result, Token,
+    Error, Ident, Result, Token,
 };
 
 use crate::{
@@ -164,8 +166,10 @@ impl FromAttribute for Symbol {
 
     fn from_attribute(attribute: &Attribute) -> Result<Self> {
         let inner = attribute.inner_or_err()?;
-        let name = inner.parse()?;
-        Ok(Symbol(name))
+        let name: Ident = inner.parse()?;
+        // A symbol is never used as a name in the generated code, so that
+        // any keyword is fine, but needs to be written as a raw identifier.
+        Ok(Symbol(name.unraw()))
     }
 }
 
diff --git a/crates/diman_unit_system/src/types/base_dimension.rs b/crates/diman_unit_system/src/types/base_dimension.rs
index 38db8a2..4a8e279 100644
--- a/crates/diman_unit_system/src/types/base_dimension.rs
+++ b/crates/diman_unit_system/src/types/base_dimension.rs
@@ -1,4 +1,5 @@
 use proc_macro2::Ident;
+use syn::ext::IdentExt;
 
 #[derive(PartialEq, Eq, Hash, Clone, PartialOrd, Ord)]
 pub struct BaseDimension(pub Ident);
@@ -20,7 +21,7 @@ fn str_to_snakecase(s: &str) -> String {
 }
 
 fn to_snakecase(dim: &Ident) -> Ident {
-    let mut snake_case = str_to_snakecase(&dim.to_string());
+    let mut snake_case = str_to_snakecase(&dim.unraw().to_string());
     if syn::parse_str::<Ident>(&snake_case).is_err() {
         // The name is a keyword, which cannot be the name of a field.
         snake_case.push('_');
diff --git a/crates/diman_unit_system/src/types/mod.rs b/crates/diman_unit_system/src/types/mod.rs
index 7c68a27..88410a0 100644
--- a/crates/diman_unit_system/src/types/mod.rs
+++ b/crates/diman_unit_system/src/types/mod.rs
@@ -4,7 +4,7 @@ pub mod prefixes;
 
 use diman_lib::magnitude::Magnitude;
 use proc_macro2::Span;
-use syn::*;
+use syn::{ext::IdentExt, *};
 
 use self::{
     base_dimension::BaseDimension,
@@ -104,7 +104,10 @@ impl UnitTemplate {
         };
         match prefix {
             None => name,
-            Some(prefix) => Ident::new(&format!("{}{}", prefix.name(), name), name.span()),
+            Some(prefix) => Ident::new(
+                &format!("{}{}", prefix.name(), name.unraw()),
+                name.span(),
+            ),
         }
     }
 
-- 
2.43.0


From e7f90bd46dd8337c2d4f1285b99c1a19c549c3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:39 +0000
Subject: [PATCH 20/20] fix: quote the right rule for base units defined in
 terms of a unit

---
 crates/diman_unit_system/src/resolve/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/diman_unit_system/src/resolve/error.rs b/crates/diman_unit_system/src/resolve/error.rs
index 0f2f229..af02999 100644
--- a/crates/diman_unit_system/src/resolve/error.rs
+++ b/crates/diman_unit_system/src/resolve/error.rs
@@ -210,13 +210,13 @@ impl<'a> Emit for KindNotAllowedError<'a> {
         let plural = |kind| match kind {
             Kind::Dimension => "Dimensions",
             Kind::Unit => "Units",
-            Kind::BaseUnit => "Units",
+            Kind::BaseUnit => "Base units",
             Kind::Constant => "Constants",
         };
         let allowed_rhs_kinds = |kind| match kind {
             Kind::Dimension => "other dimensions",
             Kind::Unit => "other units and constants",
-            Kind::BaseUnit => "other units and constants",
+            Kind::BaseUnit => "base dimensions",
             Kind::Constant => "other constants and units",
         };
         Diagnostic::spanned(
-- 
2.43.0

