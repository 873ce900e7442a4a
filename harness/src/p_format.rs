//! The version-1 .bro format: C09 (binary meaning) and C11 (damaged and foreign input).
use crate::cli::{run, tool, Limits};
use crate::ctx::*;
use crate::gen::*;
use crate::p_series::{all_compressors, cname, efrac, pick_err, unpack};
use crate::p_wbro::scratch;
use crate::refdec;
use crate::rng::*;
use atsc::compressor::Compressor;
use atsc::data::CompressedStream;
use std::path::Path;

// ------------------------------------------------------------------------------- writing streams
pub struct Made {
    pub bytes: Vec<u8>,
    pub chunks: Vec<(Compressor, Vec<f64>)>,
    pub desc: String,
}
/// A stream of a few frames written by the system under test.
pub fn made(r: &mut Rng, frames: usize, max_len: usize, wild: bool) -> Result<Made, String> {
    let mut cs = CompressedStream::new();
    let mut chunks = vec![];
    let mut desc = String::new();
    for _ in 0..frames {
        let comp = all_compressors()[r.below(7)];
        let n = match r.below(4) {
            0 => 1 + r.below(12),
            1 => pick_len(r, Size::Small).min(max_len),
            _ => 1 + r.below(max_len),
        };
        let n = if comp == Compressor::Idw { n.min(200) } else { n };
        let s = series(r, n, if wild { Wild::Some } else { Wild::No });
        let e = efrac(pick_err(r));
        let bounded = comp == Compressor::Auto || r.chance(0.6);
        let level = r.below(7);
        guard(|| {
            if bounded {
                cs.compress_chunk_bounded_with(&s.v, comp, e, level)
            } else {
                cs.compress_chunk_with(&s.v, comp)
            }
        })?;
        desc += &format!("{}{}[{}x{}] ", cname(comp), if bounded { format!("<={e}") } else { String::new() }, s.desc, n);
        chunks.push((comp, s.v));
    }
    let bytes = guard(|| cs.to_bytes())?;
    Ok(Made { bytes, chunks, desc })
}
pub fn hex(b: &[u8]) -> String {
    b.iter().take(20000).map(|x| format!("{x:02x}")).collect()
}

/// The independent decoding of `b` against what the current reader makes of it.
fn compare(c: &mut Case, b: &[u8], what: &str, counts: Option<&[usize]>) -> Res {
    let st = refdec::parse(b).or_else(|e| fail(format!("{what}: not a version-1 stream for the independent reader: {e}"), hex(b)))?;
    let o = guard(|| unpack(b)).or_else(|p| fail(format!("{what}: the reader refuses a valid stream: {p}"), hex(b)))?;
    if st.used != b.len() {
        return fail(format!("{what}: {} bytes follow the frames", b.len() - st.used), hex(b));
    }
    if st.version != 1 {
        return fail(format!("{what}: version {}", st.version), hex(b));
    }
    if st.count_byte as usize != st.frames.len().min(255) {
        return fail(format!("{what}: header counts {} frames of {}", st.count_byte, st.frames.len()), hex(b));
    }
    if let Some(cn) = counts {
        if cn.len() != st.frames.len() {
            return fail(format!("{what}: {} frames for {} chunks", st.frames.len(), cn.len()), hex(b));
        }
    }
    let mut at = 0;
    for (i, f) in st.frames.iter().enumerate() {
        if let Some(cn) = counts {
            if f.samples != cn[i] as u64 {
                return fail(format!("{what}: frame {i} says {} samples for a chunk of {}", f.samples, cn[i]), hex(b));
            }
        }
        let d = refdec::decode_frame(f)
            .or_else(|e| fail(format!("{what}: frame {i} ({}, {} samples) is not valid version 1: {e}", refdec::name(f.tag), f.samples), hex(b)))?;
        let mine = match o.get(at..at + d.v.len()) {
            Some(x) => x,
            None => return fail(format!("{what}: frame {i} needs {} values, the reader gives {} in all", d.v.len(), o.len()), hex(b)),
        };
        at += d.v.len();
        if !d.tol.is_finite() {
            c.count("frames_beyond_the_defined_range");
            continue;
        }
        for (k, (x, y)) in d.v.iter().zip(mine).enumerate() {
            let same = x == y || (x.is_nan() && y.is_nan());
            if !same && !((x - y).abs() <= d.tol) {
                return fail(
                    format!("{what}: frame {i} ({} {}, {} samples) sample {k}: version 1 means {x:e}, the reader says {y:e} (tolerance {:e})", refdec::name(f.tag), d.detail, f.samples, d.tol),
                    hex(b),
                );
            }
        }
        c.local.add("samples_compared", d.v.len() as u64);
        c.local.count(&format!("frames_{}_{}", refdec::name(f.tag), d.detail.replace(' ', "_")));
    }
    if at != o.len() {
        return fail(format!("{what}: {} values for {at} samples", o.len()), hex(b));
    }
    c.local.hit(hash_bytes(9, b));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C09
fn c09_written(c: &mut Case) -> Res {
    let frames = match c.rng.below(10) {
        0 => 0,
        1 => 20 + c.rng.below(300),
        _ => 1 + c.rng.below(4),
    };
    let max = if frames > 10 { 20 } else { 1200 };
    let m = made(&mut c.rng, frames, max, true).or_else(|p| fail(format!("writing a stream panicked: {p}"), ""))?;
    let cn: Vec<usize> = m.chunks.iter().map(|x| x.1.len()).collect();
    compare(c, &m.bytes, &format!("stream of {}", m.desc.chars().take(300).collect::<String>()), Some(&cn))?;
    c.local.sample(|| format!("{} -> {} bytes", m.desc.chars().take(200).collect::<String>(), m.bytes.len()));
    Ok(())
}
/// large frames: three-byte and five-byte integers, long payloads
fn c09_large(c: &mut Case) -> Res {
    let n = *c.rng.pick(LARGE_LENS);
    let s = series(&mut c.rng, n, Wild::No);
    let comp = [Compressor::Noop, Compressor::FFT, Compressor::Polynomial, Compressor::Auto, Compressor::Constant][c.rng.below(5)];
    let e = efrac(pick_err(&mut c.rng));
    let b = guard(|| {
        let mut cs = CompressedStream::new();
        cs.compress_chunk_bounded_with(&s.v, comp, e, 0);
        cs.to_bytes()
    })
    .or_else(|p| fail(format!("panic {p}"), ""))?;
    compare(c, &b, &format!("{} e={e} {} x{n}", cname(comp), s.desc), Some(&[n]))
}

struct Wr(Vec<u8>);
impl Wr {
    fn uint(&mut self, x: u64) {
        match x {
            0..=250 => self.0.push(x as u8),
            251..=0xffff => {
                self.0.push(251);
                self.0.extend((x as u16).to_le_bytes())
            }
            0x10000..=0xffff_ffff => {
                self.0.push(252);
                self.0.extend((x as u32).to_le_bytes())
            }
            _ => {
                self.0.push(253);
                self.0.extend(x.to_le_bytes())
            }
        }
    }
    fn int(&mut self, x: i64) {
        self.uint(((x << 1) ^ (x >> 63)) as u64)
    }
    fn f64(&mut self, x: f64) {
        self.0.extend(x.to_le_bytes())
    }
    fn f32(&mut self, x: f32) {
        self.0.extend(x.to_le_bytes())
    }
    fn scalar(&mut self, d: u64, x: f64) {
        match d {
            0 => self.f64(x),
            1 | 2 => self.int(x as i64),
            _ => self.0.push(x as u8),
        }
    }
}
fn scalar_for(r: &mut Rng, d: u64) -> f64 {
    let edge = r.chance(0.25);
    match d {
        0 => match r.below(6) {
            0 => -0.0,
            1 => 1e300,
            2 => 5e-324,
            3 => r.gauss() * 1e-7,
            _ => r.gauss() * 10f64.powi(r.range(-3, 6) as i32),
        },
        1 if edge => *r.pick(&[i32::MIN as f64, i32::MAX as f64, 0.0, -1.0, 125.0, -126.0, 32768.0]),
        1 => r.range(i32::MIN as i64, i32::MAX as i64) as f64,
        2 if edge => *r.pick(&[i16::MIN as f64, i16::MAX as f64, 0.0, -1.0, 125.0, 126.0, -126.0]),
        2 => r.range(i16::MIN as i64, i16::MAX as i64) as f64,
        _ if edge => *r.pick(&[0.0, 250.0, 251.0, 252.0, 253.0, 254.0, 255.0]),
        _ => r.below(256) as f64,
    }
}
fn hand_frame(r: &mut Rng, w: &mut Wr) -> String {
    let tag = *r.pick(&[refdec::NOOP, refdec::FFT, refdec::IDW, refdec::CONSTANT, refdec::POLYNOMIAL, refdec::RLE]);
    let n = match r.below(5) {
        0 => 1 + r.below(8),
        1 => pick_len(r, Size::Small),
        2 => pick_len(r, Size::Medium).min(1500),
        _ => 1 + r.below(300),
    };
    let n = if tag == refdec::IDW { n.min(150) } else { n };
    let mut p = Wr(vec![]);
    let mut d = r.below(4) as u64;
    match tag {
        refdec::NOOP => {
            p.0.push(250);
            p.uint(n as u64);
            let wide = r.below(3);
            for _ in 0..n {
                let x = match wide {
                    0 => r.range(-200, 200),
                    1 => r.range(-40000, 70000),
                    _ => r.u64() as i64 >> r.below(60),
                };
                p.int(x);
            }
            d = 9;
        }
        refdec::CONSTANT => {
            p.0.push(30);
            p.uint(d);
            let x = scalar_for(r, d);
            p.scalar(d, x);
        }
        refdec::RLE => {
            p.0.push(60);
            p.uint(d);
            // runs at random starts, grouped by value in any order
            let k = 1 + r.below(12.min(n));
            let mut starts: Vec<u64> = (0..k).map(|_| r.below(n) as u64).collect();
            starts.push(0);
            starts.sort();
            starts.dedup();
            let vals = 1 + r.below(starts.len());
            let mut groups: Vec<(f64, Vec<u64>)> = vec![];
            for _ in 0..vals {
                let x = scalar_for(r, d);
                if !groups.iter().any(|g| g.0 == x) {
                    groups.push((x, vec![]));
                }
            }
            for s in &starts {
                let g = r.below(groups.len());
                groups[g].1.push(*s);
            }
            p.uint(groups.len() as u64);
            for (x, i) in &groups {
                p.scalar(d, *x);
                p.uint(i.len() as u64);
                for s in i {
                    p.uint(*s);
                }
            }
        }
        refdec::FFT => {
            p.0.push(15);
            let (a, b) = refdec::padding(n);
            let m = n + a + b;
            let k = r.below(8.min(m / 2 + 1) + 1);
            let mut pos: Vec<usize> = vec![];
            for _ in 0..k {
                let q = match r.below(5) {
                    0 => 0,
                    1 => m / 2,
                    _ => r.below(m / 2 + 1),
                };
                if !pos.contains(&q) {
                    pos.push(q);
                }
            }
            p.uint(pos.len() as u64);
            let scale = 10f64.powi(r.range(-2, 4) as i32) * m as f64;
            for q in &pos {
                p.uint(*q as u64);
                p.f32((r.gauss() * scale) as f32);
                p.f32(if *q == 0 || 2 * *q == m { 0.0 } else { (r.gauss() * scale) as f32 });
            }
            let wide = (scale / m as f64 * [0.5, 3.0, 100.0][r.below(3)]) as f32;
            if r.chance(0.06) {
                p.f32(wide);
                p.f32(wide);
            } else {
                p.f32(wide);
                p.f32(-wide * r.f() as f32);
            }
            d = 9;
        }
        _ => {
            p.uint(if tag == refdec::IDW { 1 } else { 0 });
            p.uint(d);
            let step = if r.chance(0.1) { 1 } else { 1 + r.below(255.min(n.max(2))) };
            let step = step.clamp(1, 255);
            let mut k = n.div_ceil(step);
            if (n - 1) % step != 0 {
                k += 1;
            }
            if r.chance(0.1) {
                k = n;
            }
            let vals: Vec<f64> = (0..k)
                .map(|_| {
                    let x = scalar_for(r, d);
                    if x.abs() > 1e9 {
                        x / 1e295
                    } else {
                        x
                    }
                })
                .collect();
            p.uint(k as u64);
            for x in &vals {
                p.scalar(d, *x);
            }
            let lo = vals.iter().copied().fold(f64::INFINITY, f64::min) - if r.chance(0.3) { 3.0 } else { 0.0 };
            let hi = vals.iter().copied().fold(f64::NEG_INFINITY, f64::max);
            p.f64(lo);
            p.f64(hi);
            p.0.push(step as u8);
        }
    }
    w.uint(*r.pick(&[0, 41, 48, 300, 1 << 33]));
    w.uint(n as u64);
    w.uint(tag);
    w.uint(p.0.len() as u64);
    w.0.extend(&p.0);
    format!("{} depth{d} x{n}", refdec::name(tag))
}
fn c09_hand(c: &mut Case) -> Res {
    let frames = if c.rng.chance(0.05) { c.rng.below(300) } else { 1 + c.rng.below(4) };
    let mut w = Wr(b"BRRO".to_vec());
    w.0.extend(1u32.to_le_bytes());
    w.0.push(frames.min(255) as u8);
    w.uint(frames as u64);
    let mut d = String::new();
    for _ in 0..frames {
        d += &hand_frame(&mut c.rng, &mut w);
        d.push(' ');
    }
    compare(c, &w.0, &format!("hand-made stream of {}", d.chars().take(200).collect::<String>()), None)?;
    c.count("hand_made_streams");
    c.local.sample(|| format!("hand-made {}", d.chars().take(200).collect::<String>()));
    Ok(())
}
/// .bro files written by the released version, with the numbers it gave back
fn c09_golden(c: &mut Case) -> Res {
    let p = format!("{}/golden/golden.bin", c.ctx.verif);
    let t = std::fs::read(&p).unwrap_or_else(|e| panic!("HARNESS: {p}: {e}"));
    let mut r = refdec::Rd::new(&t);
    let mut k = 0;
    while r.p < t.len() {
        let mut u = || -> usize { u32::from_le_bytes(r.take(4).unwrap().try_into().unwrap()) as usize };
        let (nl, bl, vl) = (u(), u(), u());
        let name = String::from_utf8_lossy(r.take(nl).unwrap()).into_owned();
        let b = r.take(bl).unwrap().to_vec();
        let want: Vec<f64> = (0..vl).map(|_| r.f64().unwrap()).collect();
        let o = guard(|| unpack(&b)).or_else(|p| fail(format!("archived stream {k} ({name}) is refused: {p}"), hex(&b)))?;
        if o.len() != want.len() {
            return fail(format!("archived stream {k} ({name}): {} values instead of {}", o.len(), want.len()), hex(&b));
        }
        // numbers were rounded to the fifth decimal then
        let tol = refdec::parse(&b).ok().map(|s| s.frames.iter().filter_map(|f| refdec::decode_frame(f).ok()).map(|d| d.tol).fold(1.01e-5, f64::max)).unwrap_or(1.01e-5);
        for (i, (x, y)) in want.iter().zip(&o).enumerate() {
            if !(x == y || (x - y).abs() <= tol + 1e-12 * x.abs()) {
                return fail(format!("archived stream {k} ({name}) sample {i} was {x:e} and now reads {y:e}"), hex(&b));
            }
        }
        c.local.add("archived_samples", want.len() as u64);
        c.count("archived_streams");
        c.local.evals += 1;
        c.local.hit(hash_bytes(99, &b));
        k += 1;
    }
    if k < 50 {
        panic!("HARNESS: only {k} archived streams");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C11
/// every strict prefix of a stream, in process
fn c11_prefix(c: &mut Case) -> Res {
    let frames = 1 + c.rng.below(3);
    let m = made(&mut c.rng, frames, 150, false).or_else(|p| fail(format!("writing a stream panicked: {p}"), ""))?;
    let n = m.bytes.len();
    let step = if n > 1500 { 1 + n / 700 } else { 1 };
    let full = guard(|| unpack(&m.bytes)).or_else(|p| fail(format!("complete stream of {} refused: {p}", m.desc), hex(&m.bytes)))?;
    let want: usize = m.chunks.iter().map(|x| x.1.len()).sum();
    if full.len() != want {
        return fail(format!("complete stream of {}: {} values for {want}", m.desc, full.len()), hex(&m.bytes));
    }
    for l in (0..n).filter(|l| l % step == 0 || n - l < 40 || *l < 40) {
        // the exact bytes in an allocation of their own
        let cut = m.bytes[..l].to_vec().into_boxed_slice();
        if let Ok(o) = guard(|| unpack(&cut)) {
            return fail(format!("the first {l} of {n} bytes of a stream ({}) are accepted and give {} values", m.desc, o.len()), hex(&m.bytes));
        }
        c.count("prefixes_refused_in_process");
    }
    c.local.hit(hash_bytes(11, &m.bytes));
    c.local.sample(|| format!("all prefixes of {} bytes: {}", n, m.desc.chars().take(150).collect::<String>()));
    Ok(())
}
fn c11_versions(c: &mut Case) -> Res {
    let frames = c.rng.below(3);
    let m = made(&mut c.rng, frames, 30, false).or_else(|p| fail(format!("writing a stream panicked: {p}"), ""))?;
    let vs: [u32; 12] = [2, 3, 9, 10, 255, 256, 257, 65536, 1 << 24, (1 << 24) + 1, 1 << 31, u32::MAX];
    let v = if c.idx < 12 { vs[c.idx as usize] } else { 2 + (c.rng.u64() >> (32 + c.rng.below(31))) as u32 };
    let v = v.max(2);
    let mut b = m.bytes.clone();
    b[4..8].copy_from_slice(&v.to_le_bytes());
    if let Ok(o) = guard(|| unpack(&b)) {
        return fail(format!("a version {v} stream is accepted and gives {} values", o.len()), hex(&b));
    }
    c.count("higher_versions_refused_in_process");
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Accept,
    Refuse,
    Either,
    /// exit status free, but no output
    NoOutput,
}
fn mutate(r: &mut Rng, b: &[u8]) -> (Vec<u8>, String) {
    let mut x = b.to_vec();
    let h = 9.min(x.len());
    let kind = r.below(7);
    let what = match kind {
        0 => {
            for _ in 0..1 + r.below(3) {
                if x.len() > h {
                    let i = h + r.below(x.len() - h);
                    x[i] ^= 1 << r.below(8);
                }
            }
            "bits flipped"
        }
        1 => {
            for _ in 0..1 + r.below(4) {
                if x.len() > h {
                    let i = h + r.below((x.len() - h).min(40));
                    x[i] = *r.pick(&[0, 1, 250, 251, 252, 253, 254, 255]);
                }
            }
            "bytes replaced by integer markers"
        }
        2 => {
            let n = r.below(60);
            x.truncate(h);
            x.extend((0..n).map(|_| r.u64() as u8));
            "random bytes"
        }
        3 => {
            let n = r.below(60);
            x.truncate(h);
            x.extend((0..n).map(|_| *r.pick(&[0u8, 0, 1, 1, 2, 3, 4, 5, 6, 15, 30, 60, 250, 251, 255])));
            "random small bytes"
        }
        4 => {
            let i = h + r.below(x.len() - h + 1);
            let n = 1 + r.below(9);
            for _ in 0..n {
                let v = r.u64() as u8;
                x.insert(i, v);
            }
            "bytes inserted"
        }
        5 => {
            let i = h + r.below((x.len() - h).max(1));
            let n = 1 + r.below(9);
            for _ in 0..n {
                if i < x.len() {
                    x.remove(i);
                }
            }
            "bytes removed"
        }
        _ => {
            // a well-formed frame around a random payload
            let n = r.below(50);
            let p: Vec<u8> = match r.below(3) {
                0 => (0..n).map(|_| r.u64() as u8).collect(),
                _ => {
                    let mut p = vec![*r.pick(&[0u8, 1, 15, 30, 60, 250]), r.below(5) as u8];
                    p.extend((0..n).map(|_| if r.chance(0.5) { r.below(8) as u8 } else { r.u64() as u8 }));
                    p
                }
            };
            x.truncate(h);
            let mut w = Wr(x);
            w.uint(1);
            w.uint(41);
            w.uint(*r.pick(&[0u64, 1, 2, 5, 127, 128, 300, 5000]));
            w.uint(r.below(7) as u64);
            w.uint(p.len() as u64);
            w.0.extend(&p);
            x = w.0;
            "random payload in a valid frame"
        }
    };
    (x, what.to_string())
}
/// What a damaged stream may ask for: damage that merely asks for a huge number of samples is work, not a hang.
fn too_much(b: &[u8]) -> bool {
    // lenient scan of the frame headers, whatever state the payloads are in
    let mut r = refdec::Rd::new(b);
    if r.take(9).is_err() {
        return false;
    }
    let Ok(n) = r.uint() else { return false };
    for _ in 0..n.min(4096) {
        let _ = r.uint();
        match r.uint() {
            Ok(s) if s > 20_000 => return true,
            Err(_) => return false,
            _ => {}
        }
        let _ = r.uint();
        let Ok(l) = r.uint() else { return false };
        if r.take((l as usize).min(b.len() + 1)).is_err() {
            return false;
        }
    }
    false
}
/// damaged files through the real executable
fn c11_cli(c: &mut Case) -> Res {
    let frames = match c.rng.below(8) {
        0 => 0,
        1 => 5,
        _ => 1 + c.rng.below(2),
    };
    let maxl = if c.rng.chance(0.2) { 400 } else { 40 };
    let m = made(&mut c.rng, frames, maxl, false).or_else(|p| fail(format!("writing a stream panicked: {p}"), ""))?;
    let (b, what, want) = match c.rng.below(12) {
        0 => (m.bytes.clone(), "complete".to_string(), Want::Accept),
        1..=3 => {
            let l = if frames > 0 {
                match c.rng.below(3) {
                    0 => c.rng.below(14.min(m.bytes.len())),
                    1 => m.bytes.len() - 1 - c.rng.below(4.min(m.bytes.len())),
                    _ => c.rng.below(m.bytes.len()),
                }
            } else {
                c.rng.below(4)
            };
            (m.bytes[..l].to_vec(), format!("cut at byte {l} of {}", m.bytes.len()), Want::Refuse)
        }
        4 => {
            let v = if c.rng.chance(0.5) { *c.rng.pick(&[2u32, 255, 256, 65536, 1 << 24, u32::MAX]) } else { 2 + (c.rng.u64() >> 33) as u32 };
            let mut b = m.bytes.clone();
            b[4..8].copy_from_slice(&v.to_le_bytes());
            (b, format!("version {v}"), Want::Refuse)
        }
        5 => {
            let mut b = m.bytes.clone();
            match c.rng.below(4) {
                0 => b[c.rng.below(4)] ^= 1 << c.rng.below(8),
                1 => b[..4].copy_from_slice(b"WBRO"),
                2 => b[..4].copy_from_slice(b"brro"),
                _ => b = (0..c.rng.below(40) + 4).map(|_| b'A' + c.rng.below(26) as u8).collect(),
            }
            if b.starts_with(b"BRRO") {
                b[0] = b'X';
            }
            (b, "foreign magic".to_string(), Want::NoOutput)
        }
        _ => {
            let (x, w) = mutate(&mut c.rng, &m.bytes);
            (x, w, Want::Either)
        }
    };
    if want == Want::Either && too_much(&b) {
        c.count("skipped_asking_for_too_many_samples");
        return Ok(());
    }
    let dir = scratch(c);
    let work = dir.0.join("w");
    std::fs::create_dir_all(&work).expect("HARNESS: scratch");
    let inp = work.join("in.bro");
    let out = work.join("in.wbro");
    let use_asan = c.rng.chance(0.3) && std::env::var("ATSC_ASAN").is_ok();
    let reps: &[bool] = if use_asan { &[false, true] } else { &[false] };
    for asan in reps {
        std::fs::write(&inp, &b).expect("HARNESS: scratch");
        let sentinel = c.rng.chance(0.5);
        let before = b"previous content of the output, to be kept".to_vec();
        if sentinel {
            std::fs::write(&out, &before).expect("HARNESS: scratch");
        } else {
            let _ = std::fs::remove_file(&out);
        }
        let r = if *asan {
            let exe = std::path::PathBuf::from(std::env::var("ATSC_ASAN").unwrap());
            let l = Limits { mem: 0, cpu_s: 120, ..Default::default() };
            run(&exe, &["-u", "in.bro"], &work, l, &[("ASAN_OPTIONS", "allocator_may_return_null=1:max_allocation_size_mb=3000:exitcode=86:detect_leaks=0")])
        } else {
            run(&tool(&c.ctx.bin, "atsc"), &["-u", "in.bro"], &work, Limits::default(), &[])
        };
        let ctx = || format!("atsc -u on a stream ({}) with {what}{}", m.desc.chars().take(200).collect::<String>(), if *asan { " [AddressSanitizer build]" } else { "" });
        if r.hang() {
            return fail(format!("{} did not finish within its CPU limit", ctx()), hex(&b));
        }
        if r.crash() || r.code == Some(86) || r.err.contains("ERROR: AddressSanitizer: ") {
            return fail(format!("{} broke memory safety: {}", ctx(), r.how()), hex(&b));
        }
        let after = std::fs::read(&out).ok();
        let untouched = after.as_deref() == if sentinel { Some(&before[..]) } else { None };
        if std::fs::read(&inp).ok().as_deref() != Some(&b[..]) {
            return fail(format!("{} changed its input", ctx()), hex(&b));
        }
        let files = std::fs::read_dir(&work).expect("HARNESS: scratch").count();
        if files > 1 + after.is_some() as usize {
            return fail(format!("{} left other files behind", ctx()), hex(&b));
        }
        if !r.ok() && !untouched {
            return fail(format!("{} failed ({}) but {} the output file", ctx(), r.how(), if sentinel { "changed" } else { "created" }), hex(&b));
        }
        match want {
            Want::Accept => {
                if !r.ok() {
                    return fail(format!("{}: refused: {}", ctx(), r.how()), hex(&b));
                }
                let vals = guard(|| unpack(&b)).or_else(|p| fail(format!("{}: library refuses: {p}", ctx()), hex(&b)))?;
                check_wbro(&out, &vals, false).or_else(|e| fail(format!("{}: {e}", ctx()), hex(&b)))?;
                c.count("complete_accepted");
            }
            Want::Refuse => {
                if r.ok() {
                    return fail(format!("{}: accepted with exit status 0", ctx()), hex(&b));
                }
                c.count("refused");
            }
            Want::NoOutput => {
                if !untouched {
                    return fail(format!("{}: produced output", ctx()), hex(&b));
                }
                c.count("foreign_without_output");
            }
            Want::Either => {
                if r.ok() {
                    c.count("damaged_accepted");
                } else if r.signal == Some(libc::SIGABRT) {
                    c.count("damaged_aborted");
                } else {
                    c.count("damaged_refused");
                }
            }
        }
        if *asan {
            c.count("runs_under_address_sanitizer");
        }
        c.count("process_runs");
    }
    c.local.hit(hash_bytes(12, &b));
    c.local.sample(|| format!("{what}: {}", m.desc.chars().take(150).collect::<String>()));
    Ok(())
}
/// With `bits` the file is to hold these very bit patterns, otherwise these numbers
pub fn check_wbro(p: &Path, vals: &[f64], bits: bool) -> Result<(), String> {
    let o = match guard(|| wavbrro::wavbrro::WavBrro::from_file(p)) {
        Ok(Ok(o)) => o,
        Ok(Err(e)) => return Err(format!("output {} is not readable: {e}", p.display())),
        Err(e) => return Err(format!("output {} is not readable: {e}", p.display())),
    };
    if o.len() != vals.len() {
        return Err(format!("output has {} samples instead of {}", o.len(), vals.len()));
    }
    match o.iter().zip(vals).position(|(a, b)| a.to_bits() != b.to_bits() && (bits || (a != b && !(a.is_nan() && b.is_nan())))) {
        Some(i) => Err(format!("output sample {i} is {:e} instead of {:e}", o[i], vals[i])),
        None => Ok(()),
    }
}
/// csv-compressor -u on damaged .bro files
fn c11_csv(c: &mut Case) -> Res {
    let frames = 1 + c.rng.below(2);
    let m = made(&mut c.rng, frames, 40, false).or_else(|p| fail(format!("writing a stream panicked: {p}"), ""))?;
    let total: usize = m.chunks.iter().map(|x| x.1.len()).sum();
    let (b, what) = match c.rng.below(3) {
        0 => {
            let mut b = m.bytes.clone();
            b[4] = 2 + c.rng.below(200) as u8;
            (b, "higher version".to_string())
        }
        _ => {
            let l = c.rng.below(m.bytes.len());
            (m.bytes[..l].to_vec(), format!("cut at byte {l} of {}", m.bytes.len()))
        }
    };
    let dir = scratch(c);
    let work = dir.0.join("w");
    std::fs::create_dir_all(&work).expect("HARNESS: scratch");
    std::fs::write(work.join("in.bro"), &b).expect("HARNESS: scratch");
    std::fs::write(work.join("in.vsri"), format!("1\n600\n1,0,1,{total}\n")).expect("HARNESS: scratch");
    let names = ["in.wbro", "in.csv"];
    let sentinel = c.rng.chance(0.6);
    if sentinel {
        for n in names {
            std::fs::write(work.join(n), "keep").expect("HARNESS: scratch");
        }
    }
    let r = run(&tool(&c.ctx.bin, "csv-compressor"), &["-u", "in.bro"], &work, Limits::default(), &[]);
    if r.hang() || r.crash() {
        return fail(format!("csv-compressor -u with {what}: {}", r.how()), hex(&b));
    }
    if r.ok() {
        return fail(format!("csv-compressor -u accepts a .bro file with {what}"), hex(&b));
    }
    for n in names {
        let now = std::fs::read(work.join(n)).ok();
        if now.as_deref() != if sentinel { Some(&b"keep"[..]) } else { None } {
            return fail(format!("csv-compressor -u with {what} failed but touched {n}"), hex(&b));
        }
    }
    c.count("csv_compressor_refused");
    c.local.hit(hash_bytes(13, &b));
    Ok(())
}

pub fn phases(id: &str) -> Option<(Vec<Phase>, Meta)> {
    let p = |name, quick, thorough, f| Phase { name, quick, thorough, threads: 0, f };
    Some(match id {
        "C09" => (
            vec![
                p("golden", 1, 1, c09_golden as fn(&mut Case) -> Res),
                p("hand", 72000, 1080000, c09_hand),
                p("written", 90000, 1350000, c09_written),
                p("large", 300, 4500, c09_large),
            ],
            Meta {
                level: "exploration",
                rule: "archived streams of the released version; streams encoded by hand for every compressor and bit depth; streams written by the current code; every one is decoded by the real reader and by an independent one; distinct by bytes",
                assumptions: &["FFT and interpolated values are compared within the rounding of single precision and of the fifth decimal"],
            },
        ),
        "C11" => (
            vec![
                p("prefix", 4500, 67500, c11_prefix as fn(&mut Case) -> Res),
                p("versions", 1800, 27000, c11_versions),
                p("cli", 15000, 225000, c11_cli),
                p("csv", 900, 13500, c11_csv),
            ],
            Meta {
                level: "fault_enumeration",
                rule: "every truncation point in process, higher versions, and damaged files through the executables; distinct by the damaged bytes",
                assumptions: &["a damaged file that merely declares more than 20000 samples is not run: what it asks for is work, not a hang"],
            },
        ),
        _ => return None,
    })
}
