#!/usr/bin/env python3
"""Source of properties.jsonl (kept here because one-line JSON is unpleasant to edit)."""
import json, os
CG = "crates/diman_unit_system/src/codegen/"
US = "crates/diman_unit_system/src/"
LIB = "crates/diman_lib/src/"
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Only quantities of equal dimension can be added, subtracted or compared",
 "Adding, subtracting, add-assigning, subtract-assigning, comparing or testing equality of two quantities is accepted exactly when both have the same dimension, and a sum or difference again has that dimension. A plain number can take the place of one operand of these operations only if the other operand is dimensionless, and multiply-assign and divide-assign accept only a dimensionless quantity or a plain number on the right. This holds for every mixture of operands by value, by shared reference and by mutable reference.",
 ["programs", "inputs"], "every pair of dimensions (all exponents of all base dimensions), every operator, every operand form (value, reference, mutable reference, plain number), in both exponent representations",
 "compile_fail tests try a handful of concrete dimension pairs for a few operand forms; a single over-permissive impl among the ~100 generated ones accepts an unsound program nobody wrote as a test",
 [CG+"num_traits/operator_trait.rs", CG+"dimension_type.rs", CG+"quantity_type.rs"],
 [("headers of the generated operator impls (shared const parameter D)", CG+"num_traits/operator_trait.rs"), ("structural equality of the dimension type", CG+"dimension_type.rs")],
 ["impl headers in the expansion of unit_system!", "whether rustc accepts a program"])

prop("C02", "Products, quotients, powers and roots get the right dimension",
 "Multiplying quantities adds, and dividing subtracts, the exponents of every base dimension; a number divided by a quantity negates them; powi, squared and cubed multiply them by the power; sqrt and cbrt divide them by 2 and 3; multiplying or dividing by a plain number or negating keeps them. With integer exponents a root whose dimension would not be integral is rejected. An exponent that does not fit its representation is rejected, never wrapped to a wrong dimension.",
 ["programs", "inputs"], "every pair of dimensions, every integer power, every operand form, integer and rational exponents",
 "tests use about ten dimension pairs of one example system with exponents in -2..3; nothing quantifies over exponents, base dimensions or operand forms",
 [CG+"dimension_type.rs", CG+"num_traits/operator_trait.rs", CG+"float_methods.rs", CG+"unit_type.rs", LIB+"ratio.rs"],
 [("const fns add/sub/neg/mul/div_2/div_3 of the generated dimension type", CG+"dimension_type.rs"), ("output types of the operator impls and method signatures", CG+"num_traits/operator_trait.rs")],
 ["type of the result of an operation", "dimension const fns"])

prop("C03", "Quantity operators compute exactly what the storage type computes",
 "For every operator and every operand form, the number stored in the result of an operation on quantities (or on quantities and plain numbers) is bit for bit the result of the same operation, with operands in the same order, on the stored numbers; assigning operators change only the left operand. Comparison operators (including ordering of NaN) and negation answer as they do for the stored numbers.",
 ["inputs"], "every pair of f32/f64 values including NaN, infinities, signed zeros and subnormals, every operator, every combination of value/reference/mutable-reference operands",
 "tests evaluate each operator on one or two small positive integers, many forms only with operands for which swapped operands or a wrong operator would be invisible",
 [CG+"num_traits/operator_trait.rs", CG+"num_traits/mod.rs"],
 [("generated operator bodies forwarding to the storage type", CG+"num_traits/operator_trait.rs")],
 ["value_unchecked() of the result"])

prop("C04", "Creating quantities from units scales by exactly the unit's factor",
 "For every number x and unit u, x * u, u * x and u.new(x) give the same quantity, whose stored value is x times u's factor rounded once in x's own precision; x / u, u / x and multiplying or dividing a quantity by a unit scale and place the factor the way their dimension says. A product or quotient of units behaves as one unit whose factor is the product or quotient of the factors.",
 ["inputs", "programs"], "every f32/f64 number (or vector), every unit factor, single and composite units, every operand order",
 "tests build a few quantities of magnitude 1..100 with units whose factors are powers of ten; operand orders such as unit / quantity and composite units on the right are not exercised",
 [CG+"unit_type.rs", LIB+"magnitude.rs", CG+"units_and_constants.rs"],
 [("Mul/Div impls between numbers, units, runtime units and quantities", CG+"unit_type.rs"), ("arithmetic of magnitudes with floats", LIB+"magnitude.rs")],
 ["value_unchecked() of the created quantity"])

prop("C05", "A quantity can be read only in units of its own dimension, and exactly",
 "Reading a quantity in a unit is accepted only if the unit (single or composite) has the quantity's dimension, and then returns the stored value divided by the unit's factor, rounded once in the storage precision. Creating a quantity in a unit and reading it in the same unit returns the original number up to the rounding of one multiplication and one division, and exactly for factor one.",
 ["inputs", "programs"], "every dimension of quantity and unit, every stored value, every unit factor",
 "the tests read a few values in matching units; that a mismatching unit is refused is not tested at all",
 [CG+"quantity_type.rs", CG+"unit_type.rs", LIB+"magnitude.rs"],
 [("signature and body of value_in", CG+"quantity_type.rs"), ("conversion of units to their factor", CG+"unit_type.rs")],
 ["value_in", "whether rustc accepts a program"])

prop("C06", "Unit factors survive compile-time encoding unchanged",
 "Every finite factor of a unit, constant or prefix, from the largest double down to the smallest subnormal and of either sign, is the same double after being carried through the compile-time representation of factors. Products and quotients of factors are the correctly rounded double products and quotients, and a factor is recognised as one exactly when it equals 1.0.",
 ["inputs"], "all finite f64 values; all pairs for products and quotients",
 "the unit test checks multiples of 0.01 up to 100 and 100 powers of two; encoding errors hide in particular exponents, signs and subnormals",
 [LIB+"magnitude.rs"], [("from_f64 / into_f64 / Mul / Div / is_one", LIB+"magnitude.rs")],
 ["factor of a unit"], state=[("Magnitude", "mantissa, exponent, sign of a double", LIB+"magnitude.rs")])

prop("C07", "Rational exponents are exact and have one representation",
 "Sums, differences, products, quotients, negations and integer powers of rational exponents are the exact rational results, and two exponents that are equal as numbers are always the same exponent, whatever signs, common factors or operations produced them. An exponent with zero denominator or one that does not fit is rejected, never replaced by a wrong value.",
 ["inputs", "programs"], "all numerators and denominators (any sign), all sequences of operations",
 "the only test of rational exponents uses 1/2 and -1/2; canonical form depends on gcd, sign placement and zero",
 [LIB+"ratio.rs"], [("Ratio::new reduction, add/sub/mul/div/neg/powi", LIB+"ratio.rs")],
 ["equality of dimensions", "Display of exponents"])

prop("C08", "Definition expressions follow ordinary algebra",
 "The dimension and factor of every defined dimension, unit and constant are those of its defining expression under ordinary rules: juxtaposition means product, * and / have equal precedence and group to the left, ^ binds tighter and applies to the factor before it, parentheses group, exponents may be negative. Literal numbers contribute their exact double value, named factors contribute their own dimension and factor, and exponents of the same base dimension add up even if they cancel to zero.",
 ["programs"], "all expressions up to a bounded number of factors: every choice of operators, exponents, parentheses, numbers and referenced names",
 "unit tests evaluate five integer expressions; dimensions, negative exponents, cancellation, and mixed nesting are never checked",
 [US+"types/expression.rs", US+"parse/mod.rs", US+"dimension_math.rs", US+"resolve/ident_storage.rs", LIB+"dimension_exponent.rs"],
 [("expression parser", US+"parse/mod.rs"), ("Expr::eval / Factor::eval", US+"types/expression.rs"), ("BaseDimensions and DimensionsAndMagnitude algebra", US+"dimension_math.rs")],
 ["dimension and factor of resolved definitions"])

prop("C09", "The order of definitions does not matter and cycles are rejected",
 "Permuting the statements of a unit system never changes the dimension or factor of any definition: definitions may refer to names defined later. A definition that refers to an undefined name, or that is part of or depends on a circular definition, is reported as an error; every definition that can be resolved keeps its value.",
 ["programs"], "all reference graphs over a bounded number of definitions, all statement orders",
 "tests contain two or three fixed orders; a resolver that depends on the order, drops a definition or mis-resolves on a particular graph passes them",
 [US+"resolve/ident_storage.rs", US+"resolve/mod.rs"], [("topological resolution", US+"resolve/ident_storage.rs")],
 ["resolved definitions", "emitted errors"])

prop("C10", "Dimension annotations are enforced exactly",
 "A unit or constant annotated with a dimension is accepted exactly when the dimension of its expression equals the annotated dimension: same exponent for every base dimension, with absent base dimensions and cancelled ones both counting as exponent zero. An annotation that is not a dimension of the system is rejected.",
 ["programs"], "all pairs of annotated and actual dimensions",
 "two compile_fail examples; whether extra, missing or cancelled base dimensions are noticed is not tested",
 [US+"dimension_math.rs", US+"resolve/ident_storage.rs"], [("comparison of base dimensions", US+"dimension_math.rs"), ("annotation check", US+"resolve/ident_storage.rs")],
 ["emitted errors"])

prop("C11", "Prefixes and aliases generate exactly the documented units",
 "For a unit with prefixes and aliases, one unit is defined for each combination of (no prefix or a listed prefix) with (the name or an alias), named prefix + name, with the dimension of the unit and the factor of the unit times the prefix's power of ten, rounded once. Symbols (short prefix + symbol) are given to the prefixed units of the main name only; metric prefixes means the sixteen from atto to exa except the skipped ones.",
 ["programs", "inputs"], "every prefix, every subset of listed or skipped prefixes, every alias, every factor of the unit",
 "tests use kilo, centi, milli and micro with one alias; a wrong factor, name or symbol of another prefix, or of prefix-alias combinations, is not seen",
 [US+"types/prefixes.rs", US+"types/mod.rs", US+"parse/attributes.rs"], [("prefix table", US+"types/prefixes.rs"), ("template expansion", US+"types/mod.rs"), ("attribute parsing", US+"parse/attributes.rs")],
 ["units and symbols of the system"])

prop("C12", "Contradictory unit systems are rejected",
 "A unit system is rejected if a name or symbol is defined twice, a base dimension has two base units, a base unit names something that is not a base dimension, a base unit has no symbol, a definition mixes kinds (dimensions in unit or constant expressions, units or constants in dimension expressions), a dimension uses a number other than one, or the quantity or dimension type is missing or given twice. A system with none of these defects is accepted.",
 ["programs"], "all bounded systems over a set of statements with arbitrarily coinciding names, symbols, kinds and base dimensions",
 "one compile_fail example per defect, each in the simplest position; interaction with prefixes, aliases, order and other definitions is untested",
 [US+"resolve/mod.rs", US+"resolve/ident_storage.rs", US+"parse/mod.rs"], [("checks run during resolution", US+"resolve/mod.rs")],
 ["emitted errors"])

prop("C13", "The SI system's units have their official dimensions and factors",
 "Every unit, prefixed unit, alias and constant of the bundled SI system has the dimension and (up to a few units in the last place of a double) the factor that the SI defines for its name, and every named dimension alias is the dimension the SI assigns to that name. Consequently converting any value between two units of the same dimension multiplies it by the official ratio, up to rounding.",
 ["inputs", "configurations"], "all units, prefixes, aliases, symbols and dimensions of the bundled system, all values",
 "the tests touch five of its roughly one thousand units",
 ["src/si.rs", US+"types/prefixes.rs"], [("the definitions", "src/si.rs")], ["diman::si::units", "diman::si::dimensions"])

prop("C14", "Debug output shows the base value with the right unit",
 "Debug-formatting a quantity writes the stored value as its storage type displays it, followed by the symbol of a unit with factor one and exactly the quantity's dimension if the system has one with a symbol; otherwise, for each base dimension with non-zero exponent in order of declaration, by the symbol of its base unit (or of another unit with factor one and that dimension), once, with ^exponent unless the exponent is one. A dimensionless quantity without such a unit gets no suffix.",
 ["inputs", "programs"], "all stored values, all dimensions within a grid of exponents, integer and rational exponents, systems with and without coherent derived units",
 "four strings are tested; exponent handling, order and choice of unit for other dimensions are not",
 [CG+"debug_trait.rs", LIB+"runtime_unit_storage.rs"], [("generated Debug impl", CG+"debug_trait.rs"), ("unit lookup", LIB+"runtime_unit_storage.rs")],
 ["format!(\"{:?}\", q)"])

prop("C15", "Deserialization accepts exactly well-formed quantities of the right dimension",
 "A string deserializes to a quantity exactly if it is a number (or a parenthesised list of the right length for vectors) followed by whitespace-separated unit symbols, each optionally with ^ and an integer exponent (or n/d with rational-dimensions), whose product has the target dimension; the result is the number times the product of the unit factors to those powers. Anything else (unknown symbol, bad exponent, wrong dimension, missing number or bracket) is an error and never panics. Bare numbers are accepted only for dimensionless quantities.",
 ["inputs"], "all strings over a bounded alphabet and length, all numbers, all integer exponents within bounds",
 "tests deserialize six strings; malformed strings, negative and repeated exponents and unit products are not covered",
 [CG+"serde.rs", LIB+"runtime_unit_storage.rs", LIB+"dimension_exponent.rs"], [("generated visitor", CG+"serde.rs")],
 ["serde Deserialize of quantities"])

prop("C16", "Serialization round-trips",
 "For every quantity of f32, f64 or vector storage and every dimension, deserializing what serializing produced gives back the same quantity (bit for bit up to NaN).",
 ["inputs"], "all stored values, all dimensions within a grid of exponents, integer and rational",
 "no test round-trips; serialization and deserialization are tested on different strings",
 [CG+"serde.rs", CG+"debug_trait.rs"], [("generated Serialize/Deserialize", CG+"serde.rs")],
 ["serde Serialize then Deserialize"])

prop("C17", "Mathematical functions act as on the stored number",
 "Each float function on a quantity (squared, cubed, powi, sqrt, cbrt, abs, min, max, clamp, sign and NaN predicates; sin, exp, log2 and the other transcendental functions on dimensionless quantities) returns the result of the function of the same name on the stored number, and zero is the number 0. Functions that only make sense for pure numbers are available exactly for dimensionless quantities.",
 ["inputs"], "all f32/f64 values including NaN, infinities and signed zeros, all functions, std and libm",
 "each function is tested on one or two values; swapped or near-equal functions and edge values are not distinguished",
 [CG+"float_methods.rs", CG+"generic_methods.rs"], [("generated forwarding methods", CG+"float_methods.rs")],
 ["value_unchecked() of the result"])

prop("C18", "Vector quantities behave componentwise with the right dimension",
 "Constructors, accessors and setters of vector quantities map each component to itself with the vector's dimension and leave the others alone; length, distance, dot, min, max, abs and normalize return what glam returns for the stored vectors. Their dimensions are D for length and distance, 2D for squared distance, the sum for dot, and none for normalize.",
 ["inputs"], "all component values for Vec2, DVec2, Vec3 and DVec3, all dimensions",
 "tests use one or two integer vectors per method, several methods have none",
 [CG+"vector_methods.rs", CG+"generic_methods.rs"], [("generated vector methods", CG+"vector_methods.rs")],
 ["components of the result"])

prop("C19", "Random quantities are the storage type's samples",
 "Sampling a quantity uniformly between two quantities yields, for the same generator state, exactly the number sampled between the stored numbers (half-open and inclusive ranges alike), consumes the same randomness, and therefore lies within the bounds; it fails exactly when sampling the numbers fails.",
 ["inputs"], "all bounds, all generator outputs",
 "the test draws 100 samples from one range",
 [CG+"rand.rs"], [("generated UniformSampler", CG+"rand.rs")], ["rng.gen_range"])

prop("C20", "A quantity has the layout its MPI and HDF5 descriptions claim",
 "A quantity occupies exactly the bytes of its stored value; its MPI datatype and HDF5 type describe that storage (the float type of the right width, and for vectors the right number of contiguous components).",
 ["inputs", "configurations"], "all bit patterns, all storage types, all dimensions",
 "tests pack and unpack one value per type with the same (possibly wrong) datatype on both sides; HDF5 types are not tested",
 [CG+"mpi.rs", CG+"hdf5.rs", CG+"quantity_type.rs", CG+"storage_types.rs"], [("Equivalence and H5Type impls", CG+"mpi.rs"), ("repr(transparent)", CG+"quantity_type.rs")],
 ["H5Type::type_descriptor", "Equivalence::equivalent_datatype", "transmute"])

prop("C21", "Wrapping and unwrapping is lossless and gated on being dimensionless",
 "value, value_ref, Deref, From and the unchecked accessors and constructor move the stored number in and out unchanged; summing an iterator of quantities adds the stored numbers left to right from zero, and the default is the storage default. The accessors and conversions not marked unchecked are accepted only for dimensionless quantities.",
 ["inputs", "programs"], "all stored values, all sequences up to a bounded length, all dimensions",
 "tests use a few values; that value(), Deref or From are refused for other dimensions is not tested",
 [CG+"quantity_type.rs", CG+"num_traits/mod.rs"], [("impl blocks restricted to the empty dimension", CG+"quantity_type.rs")],
 ["value_unchecked()", "whether rustc accepts a program"])

prop("C22", "Rational dimensions extend integer dimensions without changing them",
 "For dimensions whose exponents are integers (and roots that stay integral), every dimension operation gives the same exponents, and every definition the same dimension, with the rational-dimensions feature as without it; units and constants have the same factors, up to the rounding of powers.",
 ["configurations", "inputs"], "all integer exponents within bounds, all dimension operations, all definitions of bounded systems",
 "CI runs the same few tests under both features; nothing compares them",
 [CG+"dimension_type.rs", LIB+"ratio.rs", LIB+"dimension_exponent.rs", US+"types/mod.rs"], [("the two implementations of exponent arithmetic", CG+"dimension_type.rs")],
 ["dimension of results with and without the feature"])

open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
