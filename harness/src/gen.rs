//! Workload generators: series of finite numbers that cross the code's thresholds
//! (integer widths, powers of two, padding sizes, precision limits, run structure, zeros).
use crate::rng::Rng;

pub const EDGE_LENS: &[usize] = &[
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 20, 21, 29, 30, 31, 32, 33, 63, 64, 65, 99, 100, 101,
    126, 127, 128, 129, 130, 143, 144, 145, 161, 162, 163, 199, 200, 201, 215, 216, 217, 242, 243, 244, 249, 250, 251,
    252, 253, 254, 255, 256, 257, 258, 287, 288, 289, 299, 300, 301, 302, 303, 323, 324, 383, 384, 385, 398, 399, 400,
    401, 402, 431, 432, 433, 485, 486, 487, 499, 500, 501, 511, 512,
];
pub const MED_LENS: &[usize] = &[
    513, 575, 576, 577, 599, 600, 647, 648, 728, 729, 730, 767, 768, 799, 800, 863, 864, 900, 971, 972, 1000, 1023, 1024,
    1025, 1151, 1152, 1199, 1200, 1295, 1296, 1457, 1458, 1459, 1500, 1535, 1536, 1537, 2000, 2047, 2048, 2049, 2186,
    2187, 2188, 2500, 2559, 2560, 2854, 3000, 4000, 4095, 4096, 4097, 5000,
];
pub const LARGE_LENS: &[usize] = &[
    6561, 8191, 8192, 8193, 10000, 12032, 16384, 16385, 20000, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000,
    100000, 131071, 131072,
];

#[derive(Clone, Copy, PartialEq)]
pub enum Size {
    Tiny,
    Small,
    Medium,
    Large,
}

pub fn pick_len(r: &mut Rng, s: Size) -> usize {
    match s {
        Size::Tiny => 1 + r.below(40),
        Size::Small => {
            if r.chance(0.7) {
                *r.pick(EDGE_LENS)
            } else {
                1 + r.below(512)
            }
        }
        Size::Medium => {
            if r.chance(0.6) {
                *r.pick(MED_LENS)
            } else {
                512 + r.below(4600)
            }
        }
        Size::Large => {
            if r.chance(0.8) {
                *r.pick(LARGE_LENS)
            } else {
                5000 + r.below(126072)
            }
        }
    }
}

/// Mix of sizes used by most series properties.
pub fn pick_size(r: &mut Rng, large_p: f64) -> Size {
    let x = r.f();
    if x < large_p {
        Size::Large
    } else if x < large_p + 0.15 {
        Size::Medium
    } else if x < large_p + 0.35 {
        Size::Tiny
    } else {
        Size::Small
    }
}

pub const EDGE_VALUES: &[f64] = &[
    0.0, -0.0, 1.0, -1.0, 2.0, 127.0, 128.0, -127.0, -128.0, -129.0, 250.0, 251.0, 252.0, 253.0, 254.0, 255.0, 256.0,
    257.0, 300.0, -255.0, -256.0, 32766.0, 32767.0, 32768.0, 32769.0, -32767.0, -32768.0, -32769.0, 65534.0, 65535.0,
    65536.0, 65537.0, 8388608.0, 16777215.0, 16777216.0, 16777217.0, 16777219.0, 2147483646.0, 2147483647.0, 2147483648.0,
    2147483649.0, -2147483647.0, -2147483648.0, -2147483649.0, 4294967294.0, 4294967295.0, 4294967296.0, 4294967297.0,
    1e10, 123456789012.0, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, -9007199254740992.0,
    1152921504606846976.0, 4611686018427387904.0, 9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0,
    -9223372036854777856.0, 18446744073709551616.0, 1e19, -1e19, 1e20, 2.5e20, 36893488147419103232.0,
    1180591620717411303424.0, 1e25, -1e25, 1e30, 3.4e38, 3.5e38, -3.5e38, 1e39, 1e100, 1e154, 1e200, 1e300,
    1.7e308, -1.7e308, 0.5, -0.5, 1.5, 2.5, 0.1, 0.2, 0.3, 0.7, -0.1, 1e-3, 1e-4, 1e-5, 4e-6, 5e-6, 6e-6, 1e-6, 1e-7,
    -1e-7, 1e-10, 1e-15, 1e-16, 1e-19, 5e-20, 1e-20, -1e-20, 1e-25, 1e-30, -1e-30, 1e-37, 1e-38, 1e-39, 1e-45, 1e-46,
    1e-100, 1e-300, 2.2250738585072014e-308, 5e-324, -5e-324, 1.1920928955078125e-7, 3.14159265358979, 2.71828182845905,
    60.486139011651275, 0.027052617340727718, 1.23456, 99.99999, 99.999999, 100.000001,
];

const MAGS: &[f64] = &[
    1.0, 1.0, 1.0, 5.0, 10.0, 50.0, 100.0, 100.0, 200.0, 256.0, 1000.0, 3e4, 32768.0, 65536.0, 1e5, 1e6, 1e7, 16777216.0,
    2147483648.0, 4294967296.0, 1e12,
];
const MAGS_WILD: &[f64] = &[
    9007199254740992.0, 4611686018427387904.0, 9223372036854775808.0, 1e19, 1e21, 1e25, 1e30, 1e36, 1e38, 1e39, 1e77,
    1e150, 1e200, 1e300, 1.0e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-8, 1e-10, 1e-16, 1e-20, 1e-30, 1e-38, 1e-45, 1e-60, 1e-200,
    1e-308, 1e-320,
];

pub struct Series {
    pub desc: String,
    pub v: Vec<f64>,
}

/// How far the values may go.
#[derive(Clone, Copy, PartialEq)]
pub enum Wild {
    /// ordinary metric magnitudes
    No,
    /// sometimes extreme magnitudes
    Some,
}

fn shape(r: &mut Rng, n: usize) -> (String, Vec<f64>) {
    let k = r.below(34);
    let tau = std::f64::consts::TAU;
    let mut v = vec![0.0f64; n];
    let name: String = match k {
        0 => {
            let c = r.f() * 2.0 - 1.0;
            v.iter_mut().for_each(|x| *x = c);
            "const".into()
        }
        1 => {
            // runs of few distinct values
            let d = 2 + r.below(6);
            let vals: Vec<f64> = (0..d).map(|_| r.f()).collect();
            let maxrun = 1 + r.below(1 + n / 4);
            let mut i = 0;
            while i < n {
                let x = *r.pick(&vals);
                let l = 1 + r.below(maxrun);
                for _ in 0..l {
                    if i < n {
                        v[i] = x;
                        i += 1;
                    }
                }
            }
            format!("runs d={d} max={maxrun}")
        }
        2 => {
            let s = r.f() * 2.0 - 1.0;
            for (i, x) in v.iter_mut().enumerate() {
                *x = s * i as f64 / n as f64;
            }
            "ramp".into()
        }
        3 => {
            let p = 2 + r.below(n.max(3));
            for (i, x) in v.iter_mut().enumerate() {
                *x = (i % p) as f64 / p as f64;
            }
            format!("sawtooth p={p}")
        }
        4 | 5 | 6 => {
            let m = 1 + r.below(4);
            let off = 1.0 + r.f() * 3.0;
            for _ in 0..m {
                let f = r.f() * r.f() * (n as f64 / 2.0);
                let a = r.f() / m as f64;
                let ph = r.f() * tau;
                for (i, x) in v.iter_mut().enumerate() {
                    *x += a * (tau * f * i as f64 / n as f64 + ph).sin();
                }
            }
            v.iter_mut().for_each(|x| *x += off);
            format!("sines m={m}")
        }
        7 | 8 => {
            let f = (1 + r.below(20)) as f64;
            let noise = [0.001, 0.01, 0.03, 0.05, 0.1, 0.3, 1.0][r.below(7)];
            let off = [0.0, 1.0, 2.0, 10.0][r.below(4)];
            for (i, x) in v.iter_mut().enumerate() {
                *x = off + (tau * f * i as f64 / n as f64).sin() * 0.5 + noise * r.gauss();
            }
            format!("sine+noise {noise}")
        }
        9 => {
            v.iter_mut().for_each(|x| *x = r.f());
            "uniform noise".into()
        }
        10 => {
            v.iter_mut().for_each(|x| *x = r.f() * 2.0 - 1.0);
            "symmetric noise".into()
        }
        11 | 12 => {
            let mut y = r.f() * 10.0;
            let s = [0.001, 0.01, 0.1, 1.0][r.below(4)];
            for x in v.iter_mut() {
                y += s * r.gauss();
                *x = y;
            }
            format!("walk {s}")
        }
        13 => {
            let p = 0.3 * r.f();
            for x in v.iter_mut() {
                if r.chance(p) {
                    *x = r.f();
                }
            }
            "sparse spikes on zero".into()
        }
        14 => {
            let c = 0.5 + r.f();
            let p = 0.1 * r.f();
            for x in v.iter_mut() {
                *x = if r.chance(p) { r.f() * 2.0 } else { c };
            }
            "spikes on constant".into()
        }
        15 => {
            let (a, b) = (r.f(), r.f() * 2.0 - 1.0);
            for (i, x) in v.iter_mut().enumerate() {
                *x = if i % 2 == 0 { a } else { b };
            }
            "alternating".into()
        }
        16 => {
            let c = r.f();
            v.iter_mut().for_each(|x| *x = c);
            let pos = [0, n - 1, n / 2, r.below(n)][r.below(4)];
            v[pos] = r.f();
            format!("constant but [{pos}]")
        }
        17 => {
            // constant prefix then noise
            let cut = 1 + r.below(n);
            let c = r.f() + 0.5;
            for (i, x) in v.iter_mut().enumerate() {
                *x = if i < cut { c } else { r.f() * 2.0 };
            }
            format!("constant {cut} then noise")
        }
        18 => {
            let cut = r.below(n);
            let c = r.f() + 0.5;
            for (i, x) in v.iter_mut().enumerate() {
                *x = if i >= cut { c } else { r.f() * 2.0 };
            }
            format!("noise {cut} then constant")
        }
        19 => {
            // smooth prefix then rough
            let cut = 1 + r.below(n);
            for (i, x) in v.iter_mut().enumerate() {
                *x = if i < cut { 2.0 + (tau * 3.0 * i as f64 / n as f64).sin() } else { 0.2 + r.f() * 4.0 };
            }
            format!("smooth {cut} then rough")
        }
        20 => {
            let p = 2 + r.below(60);
            for (i, x) in v.iter_mut().enumerate() {
                *x = if (i / p) % 2 == 0 { 1.0 } else { 2.0 };
            }
            format!("square p={p}")
        }
        21 => {
            let g = (r.f() * 20.0 - 10.0) / n as f64;
            for (i, x) in v.iter_mut().enumerate() {
                *x = (g * i as f64).exp();
            }
            "exponential".into()
        }
        22 => {
            for (i, x) in v.iter_mut().enumerate() {
                let t = i as f64 / n as f64;
                *x = 2.0 + (tau * n as f64 * 0.25 * t * t).sin();
            }
            "chirp".into()
        }
        23 => {
            let eps = [1e-15, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3][r.below(8)];
            v.iter_mut().for_each(|x| *x = 1.0 + eps * r.f());
            format!("near-constant {eps:e}")
        }
        24 => {
            let mut y = 0.0;
            for x in v.iter_mut() {
                *x = y;
                if r.chance(0.5) {
                    y += 1.0 / n as f64;
                }
            }
            "counter".into()
        }
        25 => {
            // piecewise linear
            let mut y = r.f();
            let mut s = 0.0;
            for x in v.iter_mut() {
                if r.chance(0.05) {
                    s = (r.f() - 0.5) * 0.1;
                }
                y += s;
                *x = y;
            }
            "piecewise linear".into()
        }
        26 => {
            for (i, x) in v.iter_mut().enumerate() {
                *x = 1.0 + i as f64 / n as f64;
            }
            let p = r.below(n);
            v[p] += 50.0;
            "ramp with outlier".into()
        }
        27 => {
            // steps (levels)
            let m = 1 + r.below(30);
            for (i, x) in v.iter_mut().enumerate() {
                *x = 1.0 + (i * m / n) as f64;
            }
            format!("staircase {m}")
        }
        28 => {
            // edge constants at both ends, active in the middle: padding is as flat as the ends
            let a = n / 3;
            for (i, x) in v.iter_mut().enumerate() {
                *x = if i < a || i >= 2 * a { 1.0 } else { 1.0 + r.f() };
            }
            "active middle".into()
        }
        29 => {
            // rough body, ends constant-valued so that padding is easy to fit
            for (i, x) in v.iter_mut().enumerate() {
                *x = 3.0 + (tau * i as f64 * 5.0 / n as f64).sin() + 0.3 * r.gauss();
            }
            "rough body".into()
        }
        30 => {
            // zeros mixed with values
            let p = r.f();
            v.iter_mut().for_each(|x| *x = if r.chance(p) { 0.0 } else { 0.2 + r.f() });
            "zeros mixed".into()
        }
        31 => {
            // periodic small alphabet
            let p = 2 + r.below(12);
            let a: Vec<f64> = (0..p).map(|_| r.f()).collect();
            for (i, x) in v.iter_mut().enumerate() {
                *x = a[i % p];
            }
            format!("periodic p={p}")
        }
        32 => {
            // log-uniform magnitudes across many decades
            v.iter_mut().for_each(|x| *x = 10f64.powf(r.f() * 12.0 - 6.0));
            "many decades".into()
        }
        _ => {
            // cosine with zero-mean crossing
            let f = (1 + r.below(8)) as f64;
            for (i, x) in v.iter_mut().enumerate() {
                *x = (tau * f * i as f64 / n as f64).cos();
            }
            "cosine".into()
        }
    };
    (name, v)
}

pub fn series(r: &mut Rng, n: usize, wild: Wild) -> Series {
    if r.chance(0.06) {
        // raw edge values only
        let d = 1 + r.below(5);
        let lim = if wild == Wild::No { 1e12 } else { f64::MAX };
        let tiny = if wild == Wild::No { 1e-7 } else { 0.0 };
        let ok: Vec<f64> =
            EDGE_VALUES.iter().copied().filter(|x| x.abs() <= lim && (*x == 0.0 || x.abs() >= tiny)).collect();
        let vals: Vec<f64> = (0..d).map(|_| *r.pick(&ok)).collect();
        let runs = 1 + r.below(10);
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let x = *r.pick(&vals);
            for _ in 0..1 + r.below(runs) {
                if v.len() < n {
                    v.push(x);
                }
            }
        }
        return Series { desc: format!("edge values {vals:?} n={n}"), v };
    }
    let (name, mut v) = shape(r, n);
    let is_wild = wild == Wild::Some && r.chance(0.2);
    let mag = if is_wild { *r.pick(MAGS_WILD) } else { *r.pick(MAGS) };
    let offset = match r.below(8) {
        0 => 1.0,
        1 => -1.0,
        2 => 10.0,
        3 => -2.5,
        4 => 1e4,
        _ => 0.0,
    };
    let neg = r.chance(0.15);
    let quant = r.below(9);
    for x in v.iter_mut() {
        let mut y = (*x + offset) * mag;
        match quant {
            0 | 1 | 2 => y = y.round(),
            3 => y = (y * 2.0).round() / 2.0,
            4 => y = (y * 100.0).round() / 100.0,
            5 => y = (y * 1e5).round() / 1e5,
            _ => {}
        }
        if neg {
            y = -y;
        }
        if !y.is_finite() {
            y = f64::MAX.copysign(if y.is_nan() { 1.0 } else { y });
        }
        *x = y;
    }
    let mut desc = format!("{name} n={n} mag={mag:e} off={offset} quant={quant} neg={neg}");
    if r.chance(0.2) {
        let m = 1 + r.below(3);
        let big: f64 = if is_wild || (wild == Wild::Some && r.chance(0.2)) { f64::MAX } else { mag.abs() * 100.0 + 70000.0 };
        let cand: Vec<f64> = EDGE_VALUES.iter().copied().filter(|x| x.abs() <= big).collect();
        for _ in 0..m {
            let p = if r.chance(0.3) { [0, n - 1][r.below(2)] } else { r.below(n) };
            let e = *r.pick(&cand);
            v[p] = e;
            desc += &format!(" inj[{p}]={e:e}");
        }
    }
    Series { desc, v }
}

/// A short textual rendition for evidence samples and replay files.
pub fn brief(v: &[f64]) -> String {
    if v.len() <= 8 {
        format!("{v:?}")
    } else {
        format!("{:?}..{:?} ({} samples)", &v[..4], &v[v.len() - 2..], v.len())
    }
}
