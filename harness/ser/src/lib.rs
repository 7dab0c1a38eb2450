#![allow(incomplete_features, dead_code, unused_imports, unused_variables, non_upper_case_globals, non_snake_case, static_mut_refs, uncommon_codepoints)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "../../sx.rs"]
#[macro_use]
pub mod sx;

/// with coherent derived units, prefixed and scaled units, and a unit for dimensionless quantities
pub mod sa {
    use diman::unit_system;
    unit_system!(
        quantity_type Quantity;
        dimension_type Dimension;
        dimension Length;
        dimension Time;
        dimension Mass;
        dimension Dimensionless = 1;
        dimension Velocity = Length / Time;
        dimension Force = Mass * Length / Time^2;
        dimension Pace = Time^2 / Length;
        #[base(Length)] #[symbol(m)] unit meter: Length;
        #[base(Time)] #[symbol(s)] unit second: Time;
        #[base(Mass)] #[symbol(kg)] unit kilogram: Mass;
        // factors that are powers of two: products of their powers are exact in whatever order they are taken
        #[symbol(B)] unit big: Length = 4096 * meter;
        #[symbol(h)] unit half: Time = 0.015625 * second;
        unit nosym: Velocity = meter / second;
        #[symbol(z)] unit zoom: Velocity = 1.0 * meter / second;
        #[symbol(N)] unit newton: Force = kilogram meter / second^2;
        #[symbol(Ω)] unit omega: Pace = 64 second^2 / meter;
        #[symbol(pc)] unit percent: Dimensionless = 0.125;
        unit plain: Mass = 3 * kilogram;
    );
    pub mod probe { include!("probe.rs"); }
}
/// base units only, declared in another order than sa's, none of them dimensionless
pub mod sb {
    use diman::unit_system;
    unit_system!(
        quantity_type Quantity;
        dimension_type Dimension;
        dimension Time;
        dimension Mass;
        dimension Length;
        #[symbol(km)] unit kilometer: Length = 1000 * meter;
        #[base(Mass)] #[symbol(kg)] unit kilogram: Mass;
        #[base(Length)] #[symbol(m)] unit meter: Length;
        #[base(Time)] #[symbol(s)] unit second: Time;
    );
    pub mod probe { include!("probe.rs"); }
}
/// a dimensionless unit of factor one
pub mod sc {
    use diman::unit_system;
    unit_system!(
        quantity_type Quantity;
        dimension_type Dimension;
        dimension Mass;
        dimension Length;
        dimension Time;
        dimension Angle = 1;
        #[base(Length)] #[symbol(m)] unit meter: Length;
        #[base(Time)] #[symbol(s)] unit second: Time;
        #[base(Mass)] #[symbol(kg)] unit kilogram: Mass;
        #[symbol(turn)] unit turn: Angle = 8;
        #[symbol(rad)] unit radian: Angle = meter / meter;
        #[symbol(Hz)] unit hertz = 1 / second;
    );
    pub mod probe { include!("probe.rs"); }
}
pub mod util;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c19;
