use crate::sx::*;
use std::fmt::{self, Display, Write};
/// the text a storage type displays: an opaque token for a symbolic number
pub fn number(x: f64) -> String { format!("{}", x) }

/// Serialize into a string through serde's own Serializer for formatters.
pub struct Ser<'a, T>(pub &'a T);
impl<'a, T: serde::Serialize> Display for Ser<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.serialize(f) }
}
pub fn de<'a, T: serde::Deserialize<'a>>(s: &'a str) -> Result<T, serde::de::value::Error> {
    use serde::de::IntoDeserializer;
    let d: serde::de::value::StrDeserializer<serde::de::value::Error> = s.into_deserializer();
    T::deserialize(d)
}

/// A storage type that shows which way it was displayed.
#[derive(Clone, Copy)]
pub struct Shown(pub u8);
impl Display for Shown {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("<shown")?;
        if let Some(p) = f.precision() { f.write_char((b'0' + p as u8) as char)?; }
        if let Some(p) = f.width() { f.write_char((b'a' + p as u8) as char)?; }
        if f.sign_plus() { f.write_char('+')?; }
        if self.0 & 1 == 1 { return Err(fmt::Error); }
        f.write_char('>')
    }
}

/// " m^2 s^-1": the base units with non-zero exponents in the order given
pub fn suffix(order: [(&str, i64); 3], den: i64) -> String {
    let mut o = String::new();
    for (s, n) in order {
        if n == 0 { continue; }
        o.push(' ');
        o.push_str(s);
        let (a, b) = lowest(n, den);
        if (a, b) != (1, 1) {
            o.push('^');
            put(&mut o, a);
            if b != 1 { o.push('/'); put(&mut o, b); }
        }
    }
    o
}
pub fn lowest(n: i64, d: i64) -> (i64, i64) {
    let (mut a, mut b) = (n.abs(), d);
    while b != 0 { (a, b) = (b, a % b); }
    (n / a, d / a)
}
pub fn put(o: &mut String, n: i64) {
    if n < 0 { o.push('-'); }
    let n = n.unsigned_abs();
    if n >= 10 { put(o, (n / 10) as i64); }
    o.push((b'0' + (n % 10) as u8) as char);
}
