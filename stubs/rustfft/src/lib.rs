//! VERIF stub of rustfft: the defining sum of the discrete Fourier transform
//! (rustfft's documented contract), so that it can be executed symbolically.
pub use num_complex;
use num_complex::Complex;
use std::sync::Arc;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum FftDirection {
    Forward,
    Inverse,
}

pub trait FftNum: Copy {}
impl FftNum for f64 {}

pub trait Fft<T: FftNum>: Sync + Send {
    fn process(&self, buffer: &mut [Complex<T>]);
    fn len(&self) -> usize;
}

struct Dft {
    l: usize,
    sign: f64,
}

impl Fft<f64> for Dft {
    fn len(&self) -> usize {
        self.l
    }
    fn process(&self, buffer: &mut [Complex<f64>]) {
        assert!(self.l > 0 && buffer.len() % self.l == 0);
        let mut base = 0;
        while base < buffer.len() {
            let mut out: Vec<(f64, f64)> = Vec::new();
            for k in 0..self.l {
                let mut re = 0.0;
                let mut im = 0.0;
                for j in 0..self.l {
                    let a = self.sign * 2.0 * std::f64::consts::PI * (((j * k) % self.l) as f64)
                        / (self.l as f64);
                    let (c, s) = (a.cos(), a.sin());
                    let z = buffer[base + j];
                    re += z.re * c - z.im * s;
                    im += z.re * s + z.im * c;
                }
                out.push((re, im));
            }
            for k in 0..self.l {
                buffer[base + k].re = out[k].0;
                buffer[base + k].im = out[k].1;
            }
            base += self.l;
        }
    }
}

pub struct FftPlanner<T: FftNum> {
    _p: std::marker::PhantomData<T>,
}

impl FftPlanner<f64> {
    pub fn new() -> Self {
        FftPlanner { _p: std::marker::PhantomData }
    }
    pub fn plan_fft(&mut self, len: usize, d: FftDirection) -> Arc<dyn Fft<f64>> {
        let sign = match d {
            FftDirection::Forward => -1.0,
            FftDirection::Inverse => 1.0,
        };
        Arc::new(Dft { l: len, sign })
    }
    pub fn plan_fft_forward(&mut self, len: usize) -> Arc<dyn Fft<f64>> {
        self.plan_fft(len, FftDirection::Forward)
    }
    pub fn plan_fft_inverse(&mut self, len: usize) -> Arc<dyn Fft<f64>> {
        self.plan_fft(len, FftDirection::Inverse)
    }
}
