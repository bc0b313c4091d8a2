//! The float types under test and value generators.
use crate::rng::Rng;
use sci_rs::na::{Complex, RealField};
use std::fmt::{Debug, Display};
use std::iter::Sum;

pub trait Fl:
    RealField + num_traits::Float + Sum + Default + Copy + Debug + Display + Send + Sync + 'static
{
    const EPS: f64;
    const NAME: &'static str;
    /// all integers up to this are exact
    const IMAX: f64;
    const MAXF: f64;
    const TINY: f64;
    fn of(x: f64) -> Self;
    fn d(self) -> f64;
    fn bits(self) -> u64;
}
impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
    const IMAX: f64 = 16777216.0;
    const MAXF: f64 = f32::MAX as f64;
    const TINY: f64 = 1.1754943508222875e-38;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn d(self) -> f64 {
        self as f64
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}
impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
    const IMAX: f64 = 9007199254740992.0;
    const MAXF: f64 = f64::MAX;
    const TINY: f64 = f64::MIN_POSITIVE;
    fn of(x: f64) -> f64 {
        x
    }
    fn d(self) -> f64 {
        self
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}
pub fn cf<F: Fl>(z: Complex<F>) -> crate::dd::CD {
    crate::dd::cd(z.re.d(), z.im.d())
}
/// Signals of many classes; values are exactly representable in F.
pub fn gen_signal<F: Fl>(r: &mut Rng, n: usize) -> (Vec<f64>, &'static str) {
    let scale = match r.below(6) {
        0 => r.logf(1e-30, 1e30),
        1 => 1e-3,
        2 => 1e5,
        _ => 1.0,
    };
    let k = r.below(10);
    let (w, ph) = (r.f(0.0, 3.2), r.f(0.0, 6.3));
    let pos = r.below(n.max(1));
    let a = r.f(-1.0, 1.0);
    let mut acc = 0.0;
    let v: Vec<f64> = (0..n)
        .map(|i| {
            let x = match k {
                0 => r.normal(),
                1 => r.f(-1.0, 1.0),
                2 => (w * i as f64 + ph).sin(),
                3 => {
                    if i == pos {
                        1.0
                    } else {
                        0.0
                    }
                }
                4 => a,
                5 => i as f64 * 0.25,
                6 => {
                    if i % 2 == 0 {
                        1.0
                    } else {
                        -1.0
                    }
                }
                7 => {
                    acc += r.normal();
                    acc
                }
                8 => r.range(-8, 8) as f64,
                _ => {
                    if r.one_in(10) {
                        100.0 * r.normal()
                    } else {
                        0.01 * r.normal() + 3.0
                    }
                }
            };
            F::of(x * scale).d()
        })
        .collect();
    (v, ["normal", "uniform", "sine", "impulse", "const", "ramp", "alternating", "walk", "smallint", "spiky"][k])
}
pub fn to<F: Fl>(v: &[f64]) -> Vec<F> {
    v.iter().map(|x| F::of(*x)).collect()
}
pub fn short<T: Debug>(v: &[T]) -> String {
    if v.len() <= 24 {
        format!("{v:?}")
    } else {
        format!("{:?}..({} items)", &v[..24], v.len())
    }
}
