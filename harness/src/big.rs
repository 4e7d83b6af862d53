//! Just enough big-integer arithmetic to say which float a decimal literal denotes, without any float parser.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big(Vec<u32>);
impl Big {
    pub fn from_u64(n: u64) -> Big {
        let mut b = Big(vec![n as u32, (n >> 32) as u32]);
        b.trim();
        b
    }
    fn trim(&mut self) {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn mul_add(&mut self, m: u32, a: u32) {
        let mut c = a as u64;
        for x in &mut self.0 {
            let y = *x as u64 * m as u64 + c;
            *x = y as u32;
            c = y >> 32;
        }
        if c > 0 {
            self.0.push(c as u32);
        }
    }
    pub fn from_decimal(s: &str) -> Big {
        let mut b = Big(vec![]);
        let d = s.as_bytes();
        for ch in d.chunks(9) {
            let mut v = 0u32;
            for c in ch {
                v = v * 10 + (c - b'0') as u32;
            }
            b.mul_add(10u32.pow(ch.len() as u32), v);
        }
        b.trim();
        b
    }
    pub fn pow10(&mut self, n: u32) {
        for _ in 0..n / 9 {
            self.mul_add(1_000_000_000, 0);
        }
        self.mul_add(10u32.pow(n % 9), 0);
    }
    pub fn pow5(&mut self, n: u32) {
        for _ in 0..n / 13 {
            self.mul_add(1_220_703_125, 0);
        }
        self.mul_add(5u32.pow(n % 13), 0);
    }
    pub fn shl(&mut self, n: u32) {
        if self.is_zero() {
            return;
        }
        self.mul_add(1 << (n % 32), 0);
        let mut v = vec![0u32; (n / 32) as usize];
        v.append(&mut self.0);
        self.0 = v;
    }
    pub fn to_decimal(&self) -> String {
        let mut v = self.0.clone();
        let mut parts = vec![];
        while !v.is_empty() {
            let mut rem = 0u64;
            for x in v.iter_mut().rev() {
                let y = rem << 32 | *x as u64;
                *x = (y / 1_000_000_000) as u32;
                rem = y % 1_000_000_000;
            }
            while v.last() == Some(&0) {
                v.pop();
            }
            parts.push(rem as u32);
        }
        let mut s = String::new();
        for (i, p) in parts.iter().rev().enumerate() {
            s.push_str(&if i == 0 { format!("{p}") } else { format!("{p:09}") });
        }
        if s.is_empty() {
            s.push('0');
        }
        s
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}
/// digits × 10^e10 against m × 2^e2
pub fn cmp_dec(digits: &Big, e10: i64, m: u64, e2: i64) -> Ordering {
    let mut l = digits.clone();
    let mut r = Big::from_u64(m);
    if e10 >= 0 {
        l.pow10(e10 as u32);
    } else {
        r.pow10(-e10 as u32);
    }
    if e2 >= 0 {
        r.shl(e2 as u32);
    } else {
        l.shl(-e2 as u32);
    }
    l.cmp(&r)
}
#[derive(Clone, Copy)]
pub struct FloatFmt {
    pub mant: u32,
    pub exp: u32,
}
pub const F32: FloatFmt = FloatFmt { mant: 23, exp: 8 };
pub const F64: FloatFmt = FloatFmt { mant: 52, exp: 11 };
impl FloatFmt {
    /// The magnitude as m × 2^e.
    pub fn split(&self, bits: u64) -> (u64, i64) {
        let e = (bits >> self.mant) & ((1 << self.exp) - 1);
        let m = bits & ((1 << self.mant) - 1);
        let bias = (1i64 << (self.exp - 1)) - 1 + self.mant as i64;
        if e == 0 {
            (m, 1 - bias)
        } else {
            (m | 1 << self.mant, e as i64 - bias)
        }
    }
    pub fn inf(&self) -> u64 {
        ((1u64 << self.exp) - 1) << self.mant
    }
    pub fn sign(&self) -> u64 {
        1 << (self.mant + self.exp)
    }
    /// Whether the float with these bits (sign left out) is the one nearest to digits × 10^e10, ties to even.
    /// The value's magnitude must lie within 10^±1000.
    pub fn nearest(&self, bits: u64, digits: &Big, e10: i64) -> bool {
        if digits.is_zero() {
            return bits == 0;
        }
        if bits > self.inf() {
            return false;
        }
        let even = bits & 1 == 0;
        let ok = |o: Ordering, want: Ordering| o == want || o == Ordering::Equal && even;
        let (m, e) = self.split(bits);
        if bits == self.inf() {
            let (m, e) = self.split(bits - 1);
            return cmp_dec(digits, e10, 2 * m + 1, e - 1) != Ordering::Less;
        }
        if !ok(cmp_dec(digits, e10, 2 * m + 1, e - 1), Ordering::Less) {
            return false;
        }
        if bits == 0 {
            return true;
        }
        let low = if m == 1 << self.mant && bits >> self.mant > 1 { cmp_dec(digits, e10, 4 * m - 1, e - 2) } else { cmp_dec(digits, e10, 2 * m - 1, e - 1) };
        ok(low, Ordering::Greater)
    }
    /// The middle between this float and the next: (decimal digits, exponent of ten).
    pub fn middle(&self, bits: u64) -> (String, i64) {
        let (m, e) = self.split(bits);
        let mut b = Big::from_u64(2 * m + 1);
        let e = e - 1;
        if e >= 0 {
            b.shl(e as u32);
            (b.to_decimal(), 0)
        } else {
            b.pow5(-e as u32);
            (b.to_decimal(), e)
        }
    }
}
#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn agrees_with_std() {
        let mut r = crate::rng::Rng::new(5);
        for _ in 0..20000 {
            let b = r.u64() & !(1 << 63);
            let f = f64::from_bits(b);
            if !f.is_finite() {
                continue;
            }
            let s = format!("{f:e}");
            let (d, e) = s.split_once('e').unwrap();
            let frac = d.split_once('.').map(|x| x.1.len()).unwrap_or(0);
            let dig = Big::from_decimal(&d.replace('.', ""));
            let e = e.parse::<i64>().unwrap() - frac as i64;
            assert!(F64.nearest(b, &dig, e), "{s}");
            assert!(!F64.nearest(b + 1, &dig, e) && (b == 0 || !F64.nearest(b - 1, &dig, e)));
            let (m, e) = F64.middle(b);
            assert!(F64.nearest(b + (b & 1), &Big::from_decimal(&m), e) && !F64.nearest(b + 1 - (b & 1), &Big::from_decimal(&m), e));
            assert_eq!(format!("{m}e{e}").parse::<f64>().unwrap().to_bits(), b + (b & 1));
        }
    }
}
