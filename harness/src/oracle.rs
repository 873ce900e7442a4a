//! Independent measurements the monitors judge by.

/// Relative error of one sample: a zero that comes back as zero is exact, any other change of a zero is infinite.
pub fn rel(o: f64, d: f64) -> f64 {
    if o == d {
        return 0.0;
    }
    if o == 0.0 {
        return f64::INFINITY;
    }
    let diff = d - o;
    let r = if diff.is_finite() { diff / o } else { d / o - 1.0 };
    if r.is_nan() {
        return f64::INFINITY;
    }
    r.abs()
}

/// Mean absolute percentage error as a fraction (1 = 100%), compensated summation.
pub fn mape(o: &[f64], d: &[f64]) -> f64 {
    assert!(o.len() == d.len());
    let (mut s, mut c) = (0.0f64, 0.0f64);
    for (a, b) in o.iter().zip(d) {
        let x = rel(*a, *b);
        if x.is_infinite() {
            return x;
        }
        let y = x - c;
        let t = s + y;
        if t.is_infinite() {
            return t;
        }
        c = (t - s) - y;
        s = t;
    }
    s / o.len() as f64
}

/// Largest fraction accepted for "at most E percent": the single-precision rendition of E/100 is accepted too.
pub fn bound(e_percent: u8) -> f64 {
    let a = e_percent as f64 / 100.0;
    let b = (e_percent as f32 / 100.0) as f64;
    a.max(b) * (1.0 + 1e-9)
}

pub fn bound_frac(e: f32) -> f64 {
    e as f64 * (1.0 + 1e-9)
}

pub fn min_max(v: &[f64]) -> (f64, f64) {
    let (mut lo, mut hi) = (v[0], v[0]);
    for x in v {
        if *x < lo {
            lo = *x
        }
        if *x > hi {
            hi = *x
        }
    }
    (lo, hi)
}

pub fn all_equal(v: &[f64]) -> bool {
    v.iter().all(|x| *x == v[0])
}

/// Across builds the sign of a zero is left open: f64::max(0.0, -0.0) is either
pub fn same_values(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()))
}

pub fn same_bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

pub fn first_diff(a: &[f64], b: &[f64]) -> String {
    if a.len() != b.len() {
        return format!("lengths {} and {}", a.len(), b.len());
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x.to_bits() != y.to_bits() {
            return format!("[{i}] {x:e} became {y:e}");
        }
    }
    "no difference".into()
}

/// Input written out so that a replay file is self-contained (bits of every sample, up to a limit).
pub fn dump(v: &[f64]) -> String {
    if v.len() <= 3000 {
        v.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(" ")
    } else {
        format!("{} samples; regenerate from seed/phase/case", v.len())
    }
}
