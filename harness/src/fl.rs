//! `F`: an `f32` that can be hashed, compared by bits and written to JSON.
use serde::{de::Error as _, Deserialize, Deserializer, Serialize, Serializer};

#[derive(Clone, Copy)]
pub struct F(pub f32);

impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl PartialEq for F {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}
impl Eq for F {}
impl std::hash::Hash for F {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.to_bits().hash(h)
    }
}
impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        String::deserialize(d)?
            .parse::<f32>()
            .map(F)
            .map_err(D::Error::custom)
    }
}

/// Move a finite float by `n` representable steps.
pub fn ulps(x: f32, n: i32) -> f32 {
    let mut x = x;
    for _ in 0..n.abs() {
        x = if n > 0 { x.next_up() } else { x.next_down() };
    }
    x
}

/// Equal as real numbers (`-0.0 == 0.0`), infinities equal, NaN equals NaN.
pub fn same(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// `a` equals `b` up to `rel` relative to `scale` (infinities must match).
pub fn close(a: f32, b: f64, rel: f64, scale: f64) -> bool {
    let a = a as f64;
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.is_infinite() || b.abs() > f32::MAX as f64 {
        // Overflow of the f32 computation: same sign and close to the limit.
        return a == b
            || (a.is_infinite() && b.signum() == a.signum() && b.abs() >= 0.99 * f32::MAX as f64)
            || (a.signum() == b.signum() && a.abs() >= 0.99 * f32::MAX as f64 && b.abs() <= 1.01 * f32::MAX as f64);
    }
    (a - b).abs() <= rel * scale.max(b.abs()) + 1e-44
}
