//! Double-double arithmetic (about 31 digits) for reference values.
use std::ops::*;
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct DD(pub f64, pub f64);
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
fn quick(a: f64, b: f64) -> DD {
    let s = a + b;
    DD(s, b - (s - a))
}
fn split(a: f64) -> (f64, f64) {
    if a.abs() > 1e299 {
        let a = a * 3.725290298461914e-9; // 2^-28
        let t = 134217729.0 * a;
        let h = t - (t - a);
        return (h * 268435456.0, (a - h) * 268435456.0);
    }
    let t = 134217729.0 * a;
    let h = t - (t - a);
    (h, a - h)
}
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    if !p.is_finite() {
        return (p, 0.0);
    }
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}
impl DD {
    pub const ZERO: DD = DD(0.0, 0.0);
    pub const ONE: DD = DD(1.0, 0.0);
    pub const PI: DD = DD(3.141592653589793, 1.2246467991473532e-16);
    pub const LN2: DD = DD(0.6931471805599453, 2.3190468138462996e-17);
    pub fn f(self) -> f64 {
        self.0 + self.1
    }
    pub fn abs(self) -> DD {
        if self.0 < 0.0 || (self.0 == 0.0 && self.1 < 0.0) {
            -self
        } else {
            self
        }
    }
    pub fn sqrt(self) -> DD {
        if self.0 <= 0.0 {
            return DD::ZERO;
        }
        let x = DD(self.0.sqrt(), 0.0);
        let r = self - x * x;
        let y = x + DD(r.0 / (2.0 * x.0), 0.0);
        let r = self - y * y;
        y + DD(r.0 / (2.0 * y.0), 0.0)
    }
    pub fn powi(self, n: u32) -> DD {
        let mut r = DD::ONE;
        let mut b = self;
        let mut n = n;
        while n > 0 {
            if n & 1 == 1 {
                r = r * b;
            }
            n >>= 1;
            if n > 0 {
                b = b * b;
            }
        }
        r
    }
    pub fn exp(self) -> DD {
        let k = (self.0 / std::f64::consts::LN_2).round();
        let r = self - DD::LN2 * DD::from(k);
        // scale by 2^-6
        let m = DD(r.0 / 64.0, r.1 / 64.0);
        let mut t = DD::ONE;
        let mut s = DD::ONE;
        for i in 1..24 {
            t = t * m / DD::from(i as f64);
            s = s + t;
            if t.0.abs() < 1e-34 {
                break;
            }
        }
        for _ in 0..6 {
            s = s * s;
        }
        let (k1, k2) = ((k / 2.0).trunc(), k - (k / 2.0).trunc());
        let (p1, p2) = ((2f64).powi(k1 as i32), (2f64).powi(k2 as i32));
        DD(s.0 * p1 * p2, s.1 * p1 * p2)
    }
}
impl From<f64> for DD {
    fn from(x: f64) -> DD {
        DD(x, 0.0)
    }
}
impl From<i64> for DD {
    fn from(x: i64) -> DD {
        let h = x as f64;
        DD(h, (x as i128 - h as i128) as f64)
    }
}
impl Neg for DD {
    type Output = DD;
    fn neg(self) -> DD {
        DD(-self.0, -self.1)
    }
}
impl Add for DD {
    type Output = DD;
    fn add(self, b: DD) -> DD {
        let (s, e) = two_sum(self.0, b.0);
        let (t, f) = two_sum(self.1, b.1);
        let e = e + t;
        let DD(s, e) = quick(s, e);
        quick(s, e + f)
    }
}
impl Sub for DD {
    type Output = DD;
    fn sub(self, b: DD) -> DD {
        self + (-b)
    }
}
impl Mul for DD {
    type Output = DD;
    fn mul(self, b: DD) -> DD {
        let (p, e) = two_prod(self.0, b.0);
        quick(p, e + (self.0 * b.1 + self.1 * b.0))
    }
}
impl Div for DD {
    type Output = DD;
    fn div(self, b: DD) -> DD {
        let q1 = self.0 / b.0;
        let r = self - b * DD(q1, 0.0);
        let q2 = r.0 / b.0;
        let r = r - b * DD(q2, 0.0);
        let q3 = r.0 / b.0;
        let q = quick(q1, q2);
        q + DD(q3, 0.0)
    }
}
impl AddAssign for DD {
    fn add_assign(&mut self, b: DD) {
        *self = *self + b
    }
}
impl SubAssign for DD {
    fn sub_assign(&mut self, b: DD) {
        *self = *self - b
    }
}
impl MulAssign for DD {
    fn mul_assign(&mut self, b: DD) {
        *self = *self * b
    }
}
impl PartialOrd for DD {
    fn partial_cmp(&self, o: &DD) -> Option<std::cmp::Ordering> {
        match self.0.partial_cmp(&o.0) {
            Some(std::cmp::Ordering::Equal) => self.1.partial_cmp(&o.1),
            x => x,
        }
    }
}
/// complex double-double
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct CD {
    pub re: DD,
    pub im: DD,
}
pub fn cd(re: f64, im: f64) -> CD {
    CD { re: DD(re, 0.0), im: DD(im, 0.0) }
}
impl CD {
    pub const ONE: CD = CD { re: DD::ONE, im: DD::ZERO };
    pub const ZERO: CD = CD { re: DD::ZERO, im: DD::ZERO };
    pub fn norm(self) -> f64 {
        self.re.0.hypot(self.im.0)
    }
    pub fn norm2(self) -> DD {
        self.re * self.re + self.im * self.im
    }
    pub fn conj(self) -> CD {
        CD { re: self.re, im: -self.im }
    }
    pub fn scale(self, k: DD) -> CD {
        CD { re: self.re * k, im: self.im * k }
    }
    pub fn finite(self) -> bool {
        self.re.0.is_finite() && self.im.0.is_finite()
    }
}
impl Add for CD {
    type Output = CD;
    fn add(self, b: CD) -> CD {
        CD { re: self.re + b.re, im: self.im + b.im }
    }
}
impl Sub for CD {
    type Output = CD;
    fn sub(self, b: CD) -> CD {
        CD { re: self.re - b.re, im: self.im - b.im }
    }
}
impl Neg for CD {
    type Output = CD;
    fn neg(self) -> CD {
        CD { re: -self.re, im: -self.im }
    }
}
impl Mul for CD {
    type Output = CD;
    fn mul(self, b: CD) -> CD {
        CD { re: self.re * b.re - self.im * b.im, im: self.re * b.im + self.im * b.re }
    }
}
impl Div for CD {
    type Output = CD;
    fn div(self, b: CD) -> CD {
        let d = b.norm2();
        let n = self * b.conj();
        CD { re: n.re / d, im: n.im / d }
    }
}
