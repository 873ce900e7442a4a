//! Independent decoder of the version-1 .bro format. It shares no code with the system under test and is frozen:
//! archived files have to keep this meaning.

pub type R<T> = Result<T, String>;

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, p: 0 }
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.b.len() - self.p {
            return Err(format!("unexpected end at byte {}", self.p));
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    pub fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn uint(&mut self) -> R<u64> {
        let m = self.u8()?;
        Ok(match m {
            0..=250 => m as u64,
            251 => u16::from_le_bytes(self.take(2)?.try_into().unwrap()) as u64,
            252 => u32::from_le_bytes(self.take(4)?.try_into().unwrap()) as u64,
            253 => u64::from_le_bytes(self.take(8)?.try_into().unwrap()),
            _ => return Err(format!("integer marker {m}")),
        })
    }
    pub fn int(&mut self) -> R<i64> {
        let u = self.uint()?;
        Ok(((u >> 1) as i64) ^ -((u & 1) as i64))
    }
    pub fn f64(&mut self) -> R<f64> {
        Ok(f64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn f32(&mut self) -> R<f32> {
        Ok(f32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn len(&mut self, unit: usize) -> R<usize> {
        let n = self.uint()?;
        if n > ((self.b.len() - self.p) / unit.max(1)) as u64 {
            return Err(format!("length {n} beyond the data"));
        }
        Ok(n as usize)
    }
}

pub const NOOP: u64 = 0;
pub const FFT: u64 = 1;
pub const IDW: u64 = 2;
pub const CONSTANT: u64 = 3;
pub const POLYNOMIAL: u64 = 4;
pub const AUTO: u64 = 5;
pub const RLE: u64 = 6;
pub fn name(tag: u64) -> &'static str {
    ["noop", "fft", "idw", "constant", "polynomial", "auto", "rle"].get(tag as usize).copied().unwrap_or("unknown")
}

#[derive(Clone, Debug)]
pub struct Frame {
    pub frame_size: u64,
    pub samples: u64,
    pub tag: u64,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Stream {
    pub version: u32,
    pub count_byte: u8,
    pub frames: Vec<Frame>,
    /// bytes used by the stream
    pub used: usize,
}

pub fn parse(b: &[u8]) -> R<Stream> {
    let mut r = Rd::new(b);
    if r.take(4)? != b"BRRO" {
        return Err("magic".into());
    }
    let version = u32::from_le_bytes(r.take(4)?.try_into().unwrap());
    let count_byte = r.u8()?;
    let n = r.len(4)?;
    let mut frames = Vec::new();
    for _ in 0..n {
        let frame_size = r.uint()?;
        let samples = r.uint()?;
        let tag = r.uint()?;
        if tag > 6 {
            return Err(format!("compressor tag {tag}"));
        }
        let l = r.len(1)?;
        frames.push(Frame { frame_size, samples, tag, data: r.take(l)?.to_vec() });
    }
    Ok(Stream { version, count_byte, frames, used: r.p })
}

/// Reconstructed numbers and, per frame, how far the current decompressor may differ from them (0 = exactly equal).
pub struct Decoded {
    pub v: Vec<f64>,
    pub tol: f64,
    pub detail: String,
}

fn bitdepth(r: &mut Rd) -> R<u64> {
    let d = r.uint()?;
    if d > 3 {
        return Err(format!("bit depth {d}"));
    }
    Ok(d)
}
fn scalar(r: &mut Rd, d: u64) -> R<f64> {
    Ok(match d {
        0 => r.f64()?,
        1 | 2 => r.int()? as f64,
        _ => r.u8()? as f64,
    })
}

pub fn next_size(n: usize) -> usize {
    let mut m = n + 1;
    loop {
        let mut k = m;
        while k % 2 == 0 {
            k /= 2
        }
        while k % 3 == 0 {
            k /= 3
        }
        if k == 1 {
            return m;
        }
        m += 1;
    }
}

/// (padding before, padding after) of an FFT frame
pub fn padding(n: usize) -> (usize, usize) {
    if n < 128 {
        return (0, 0);
    }
    let a = next_size(n) - n;
    (a / 2, a - a / 2)
}

#[derive(Clone, Copy)]
pub struct C {
    pub re: f64,
    pub im: f64,
}

/// DFT of any length: mixed radix 2 and 3 where it divides, naive otherwise. sign = -1 forward, +1 inverse (unscaled).
pub fn dft(x: &[C], sign: f64) -> Vec<C> {
    let n = x.len();
    if n <= 1 {
        return x.to_vec();
    }
    let p = if n % 2 == 0 {
        2
    } else if n % 3 == 0 {
        3
    } else {
        n
    };
    let tau = std::f64::consts::TAU;
    let tw: Vec<C> = (0..n)
        .map(|k| {
            let a = sign * tau * k as f64 / n as f64;
            C { re: a.cos(), im: a.sin() }
        })
        .collect();
    if p == n {
        return (0..n)
            .map(|k| {
                let mut s = C { re: 0.0, im: 0.0 };
                for (j, v) in x.iter().enumerate() {
                    let w = tw[(j * k) % n];
                    s.re += v.re * w.re - v.im * w.im;
                    s.im += v.re * w.im + v.im * w.re;
                }
                s
            })
            .collect();
    }
    let m = n / p;
    let subs: Vec<Vec<C>> = (0..p).map(|r| dft(&(0..m).map(|i| x[i * p + r]).collect::<Vec<_>>(), sign)).collect();
    (0..n)
        .map(|k| {
            let mut s = C { re: 0.0, im: 0.0 };
            for (r, sub) in subs.iter().enumerate() {
                let v = sub[k % m];
                let w = tw[(r * k) % n];
                s.re += v.re * w.re - v.im * w.im;
                s.im += v.re * w.im + v.im * w.re;
            }
            s
        })
        .collect()
}

fn round5(x: f64) -> f64 {
    let s = x * 100000.0;
    if s.is_finite() {
        s.round() / 100000.0
    } else {
        x
    }
}

pub fn decode_frame(f: &Frame) -> R<Decoded> {
    let n = f.samples as usize;
    let mut r = Rd::new(&f.data);
    let mut detail = String::new();
    let (v, tol) = match f.tag {
        NOOP => {
            if r.u8()? != 250 {
                return Err("noop id".into());
            }
            let l = r.len(1)?;
            let mut v = Vec::with_capacity(l);
            for _ in 0..l {
                v.push(r.int()? as f64);
            }
            (v, 0.0)
        }
        CONSTANT => {
            if r.u8()? != 30 {
                return Err("constant id".into());
            }
            let d = bitdepth(&mut r)?;
            detail = format!("depth{d}");
            (vec![scalar(&mut r, d)?; n], 0.0)
        }
        RLE => {
            if r.u8()? != 60 {
                return Err("rle id".into());
            }
            let d = bitdepth(&mut r)?;
            detail = format!("depth{d}");
            let k = r.len(2)?;
            let mut starts: Vec<(u64, f64)> = Vec::new();
            for _ in 0..k {
                let x = scalar(&mut r, d)?;
                let m = r.len(1)?;
                for _ in 0..m {
                    starts.push((r.uint()?, x));
                }
            }
            starts.sort_by_key(|s| s.0);
            let mut v = vec![0.0; n];
            for (i, (s, x)) in starts.iter().enumerate() {
                let e = starts.get(i + 1).map(|t| t.0).unwrap_or(n as u64).min(n as u64);
                for slot in v.iter_mut().take(e as usize).skip(*s as usize) {
                    *slot = *x;
                }
            }
            (v, 0.0)
        }
        FFT => {
            if r.u8()? != 15 {
                return Err("fft id".into());
            }
            let k = r.len(9)?;
            let mut fr = Vec::with_capacity(k);
            for _ in 0..k {
                let p = r.uint()? as usize;
                fr.push((p, r.f32()? as f64, r.f32()? as f64));
            }
            let max = r.f32()? as f64;
            let min = r.f32()? as f64;
            detail = format!("pad{}", (padding(n).0 > 0) as u8);
            if max == min {
                (vec![max; n], 0.0)
            } else {
                let (a, b) = padding(n);
                let m = a + n + b;
                let mut s = vec![C { re: 0.0, im: 0.0 }; m];
                let mut amp = 0.0;
                for (p, re, im) in &fr {
                    if *p > m / 2 {
                        return Err(format!("frequency {p} of {m}"));
                    }
                    s[*p] = C { re: *re, im: *im };
                    if *p != 0 {
                        s[m - *p] = C { re: *re, im: -*im };
                    }
                    amp += 2.0 * (re * re + im * im).sqrt();
                }
                let out = dft(&s, 1.0);
                let lo = min.min(max);
                let hi = max.max(min);
                let v = out[a..a + n].iter().map(|c| round5(c.re / m as f64).clamp(lo, hi)).collect();
                // sums beyond single precision are not defined by the format
                let tol = if amp < 1e37 { 1.01e-5 + 4e-6 * amp / m as f64 + 1e-6 * lo.abs().max(hi.abs()) } else { f64::INFINITY };
                (v, tol)
            }
        }
        POLYNOMIAL | IDW => {
            let id = r.uint()?;
            if id > 1 {
                return Err("interpolator id".into());
            }
            let d = bitdepth(&mut r)?;
            let k = r.len(1)?;
            let mut pts = Vec::with_capacity(k);
            for _ in 0..k {
                pts.push(scalar(&mut r, d)?);
            }
            let min = r.f64()?;
            let max = r.f64()?;
            let step = r.u8()? as usize;
            detail = format!("depth{d} {}", if k == n { "full" } else { "partial" });
            if step == 0 {
                return Err("step 0".into());
            }
            if max == min {
                (vec![max; n], 0.0)
            } else if pts.len() == n {
                (pts, 0.0)
            } else {
                let mut pos: Vec<usize> = (0..n).step_by(step).collect();
                if pos.last() != Some(&(n - 1)) {
                    pos.push(n - 1);
                }
                if pos.len() != pts.len() {
                    return Err(format!("{} stored points for {} positions", pts.len(), pos.len()));
                }
                let v: Vec<f64> = (0..n)
                    .map(|t| {
                        let x = if id == 1 { idw(&pos, &pts, t) } else { spline(&pos, &pts, t) };
                        round5(x).clamp(min, max)
                    })
                    .collect();
                // summation order may differ: one rounding unit plus relative rounding of the interpolation
                let big = min.abs().max(max.abs());
                // rounding to the fifth decimal overflows next to the largest double
                let tol = if big < 1e300 { 1.01e-5 + 1e-11 * big } else { f64::INFINITY };
                (v, tol)
            }
        }
        t => return Err(format!("frame with compressor tag {t}")),
    };
    if r.p != f.data.len() {
        return Err(format!("{} bytes of payload left over", f.data.len() - r.p));
    }
    if v.len() != n {
        return Err(format!("{} values for {} samples", v.len(), n));
    }
    Ok(Decoded { v, tol, detail })
}

fn spline(pos: &[usize], v: &[f64], t: usize) -> f64 {
    let last = pos.len() - 1;
    if t >= pos[last] {
        return v[last];
    }
    let i = match pos.binary_search(&t) {
        Ok(i) => i,
        Err(i) => i - 1,
    };
    let (a, b) = (v[i], v[i + 1]);
    let h = (pos[i + 1] - pos[i]) as f64;
    let u = (t - pos[i]) as f64 / h;
    if i == 0 || i + 2 > last {
        return a * (1.0 - u) + b * u;
    }
    let m0 = (b - v[i - 1]) / (pos[i + 1] - pos[i - 1]) as f64 * h;
    let m1 = (v[i + 2] - a) / (pos[i + 2] - pos[i]) as f64 * h;
    a * (2.0 * u * u * u - 3.0 * u * u + 1.0)
        + m0 * (u * u * u - 2.0 * u * u + u)
        + b * (3.0 * u * u - 2.0 * u * u * u)
        + m1 * (u * u * u - u * u)
}

fn idw(pos: &[usize], v: &[f64], t: usize) -> f64 {
    let (mut s, mut w) = (0.0, 0.0);
    for (p, x) in pos.iter().zip(v) {
        if *p == t {
            return *x;
        }
        let d = t.abs_diff(*p) as f64;
        let k = 1.0 / (d * d);
        s += k * x;
        w += k;
    }
    s / w
}
