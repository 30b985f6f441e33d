//! `Ef`: a reference value together with a bound on how far a careful single-precision
//! evaluation of the same formula may be from it.
//!
//! The reference itself is computed in f64. Each operation adds the rounding error one f32
//! operation can introduce (scaled by `SLACK`, so that algebraically equivalent evaluation orders
//! stay inside the bound) to the propagated error of its operands. A bound of infinity means
//! "single precision says nothing about this value"; such values are never compared.

const U: f64 = 5.960_464_477_539_063e-8; // 2^-24
const SLACK: f64 = 6.0;
const TINY: f64 = 3.0e-45;
const HUGE: f64 = 3.0e38;

#[derive(Clone, Copy, Debug)]
pub struct Ef {
    pub v: f64,
    pub e: f64,
}

impl Ef {
    /// A value that f32 represents exactly.
    pub fn exact(v: f64) -> Ef {
        Ef { v, e: 0.0 }
    }
    /// A constant that has to be rounded to f32 once.
    pub fn constant(v: f64) -> Ef {
        Ef { v, e: v.abs() * U }
    }
    pub fn wild() -> Ef {
        Ef { v: 0.0, e: f64::INFINITY }
    }
    pub fn is_wild(&self) -> bool {
        !(self.e < f64::INFINITY) || !self.v.is_finite()
    }
    pub fn with_err(v: f64, e: f64) -> Ef {
        Ef { v, e }
    }
    fn rounded(v: f64, e: f64) -> Ef {
        if !v.is_finite() || !e.is_finite() || v.abs() + e > HUGE {
            return Ef::wild();
        }
        Ef { v, e: e + (v.abs() + e) * U * SLACK + TINY * SLACK }
    }
    pub fn add(self, o: Ef) -> Ef {
        // A sum that cancels can still have been evaluated through its larger terms.
        let r = Ef::rounded(self.v + o.v, self.e + o.e);
        if r.is_wild() {
            return r;
        }
        Ef { v: r.v, e: r.e + (self.v.abs() + o.v.abs()) * U }
    }
    pub fn sub(self, o: Ef) -> Ef {
        self.add(Ef { v: -o.v, e: o.e })
    }
    pub fn mul(self, o: Ef) -> Ef {
        if self.is_wild() || o.is_wild() {
            return Ef::wild();
        }
        Ef::rounded(self.v * o.v, self.v.abs() * o.e + o.v.abs() * self.e + self.e * o.e)
    }
    pub fn div(self, o: Ef) -> Ef {
        if self.is_wild() || o.is_wild() || o.v.abs() <= o.e * 1.5 || o.v == 0.0 {
            return Ef::wild();
        }
        let v = self.v / o.v;
        Ef::rounded(v, (self.e + v.abs() * o.e) / (o.v.abs() - o.e))
    }
    /// Small integer power by repeated multiplication.
    pub fn powi(self, n: u32) -> Ef {
        let mut r = self;
        for _ in 1..n {
            r = r.mul(self);
        }
        r
    }
    /// Fourth root. `None` when the operand is certainly negative (the f32 result is NaN).
    pub fn root4(self) -> Option<Ef> {
        if self.is_wild() {
            return Some(Ef::wild());
        }
        if self.v + self.e < 0.0 {
            return None;
        }
        if self.v - self.e <= 0.0 {
            return Some(Ef::wild());
        }
        let v = self.v.powf(0.25);
        let lo = (self.v - self.e).powf(0.25);
        Some(Ef::rounded(v, v - lo))
    }
    pub fn neg(self) -> Ef {
        Ef { v: -self.v, e: self.e }
    }
    pub fn admits(&self, x: f32) -> bool {
        if self.is_wild() {
            return true;
        }
        x.is_finite() && (f64::from(x) - self.v).abs() <= self.e
    }
    /// Whether two reference values can be told apart for certain.
    pub fn disjoint(&self, o: &Ef) -> bool {
        !self.is_wild() && !o.is_wild() && (self.v - o.v).abs() > self.e + o.e
    }
}
