//! The library's own building blocks: C40 (all ways to a frame agree), C41 (sizes, rounding, statistics).
use crate::ctx::*;
use crate::gen::*;
use crate::oracle::*;
use crate::p_series::{cname, pick_err};
use crate::refdec;
use crate::rng::*;
use atsc::compressor::constant::{constant_compressor, constant_to_data};
use atsc::compressor::fft::{fft, fft_allowed_error, fft_compressor, fft_to_data};
use atsc::compressor::noop::{noop, noop_compressor, noop_to_data};
use atsc::compressor::polynomial::{polynomial, polynomial_allowed_error, to_data, PolynomialType};
use atsc::compressor::rle::{rle_compressor, rle_to_data, IndexRLE};
use atsc::compressor::Compressor;
use atsc::data::CompressedStream;
use atsc::frame::CompressorFrame;
use atsc::optimizer::utils::{Bitdepth, DataStats};
use atsc::utils::*;

// ---------------------------------------------------------------------------------------------- C40
fn payload(b: &[u8]) -> Result<(u64, Vec<u8>), String> {
    let s = refdec::parse(b)?;
    match &s.frames[..] {
        [f] => Ok((f.tag, f.data.clone())),
        f => Err(format!("{} frames", f.len())),
    }
}
fn bits_of(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}
fn c40_case(c: &mut Case) -> Res {
    use Compressor::*;
    let comp = [Noop, FFT, Idw, Constant, Polynomial, RLE][(c.idx % 6) as usize];
    let r = &mut c.rng;
    let n = match r.below(40) {
        0 => pick_len(r, Size::Medium),
        _ => 1 + r.below(700),
    };
    let n = if comp == Idw { n.min(160) } else { n };
    let mut v = series(r, n, Wild::No).v;
    if comp == FFT {
        v.iter_mut().filter(|x| x.abs() >= 1e29).for_each(|x| *x = x.signum() * 1e29);
    }
    let n = v.len();
    // as a percentage the stream's single precision can hold
    let e = match r.below(3) {
        0 => pick_err(r) as f32 / 100.0,
        1 => *r.pick(&[0.0f32, 0.01, 0.05, 0.001, 0.5]),
        _ => (r.f() * 0.5) as f32,
    };
    let what = format!("{} e={e} n={n}", cname(comp));
    let p = guard(|| -> Result<Vec<(&'static str, bool)>, String> {
        let mut seen = vec![];
        let stats = || DataStats::new(&v);
        let mut a = CompressedStream::new();
        a.compress_chunk_with(&v, comp);
        let (tag, plain) = payload(&a.to_bytes())?;
        let mut b = CompressedStream::new();
        b.compress_chunk_bounded_with(&v, comp, e, 0);
        let whole = b.to_bytes();
        let (tag2, bounded) = payload(&whole)?;
        if tag != comp as u64 || tag2 != tag {
            return Err(format!("the frames name compressors {tag} and {tag2}"));
        }
        // ways to compress without a target
        seen.push(("Compressor::compress", comp.compress(&v) == plain));
        let mut f = CompressorFrame::new(Some(comp));
        f.compress(&v);
        f.close();
        let direct = f.decompress();
        let mut ways: Vec<(&'static str, Vec<u8>)> = match comp {
            Noop => {
                let mut x = atsc::compressor::noop::Noop::new(n);
                x.compress(&v);
                vec![("noop", noop(&v)), ("Noop", x.to_bytes())]
            }
            FFT => {
                let st = stats();
                let mut x = atsc::compressor::fft::FFT::new(n, st.min, st.max);
                x.compress(&v);
                vec![("fft", fft(&v)), ("FFT", x.to_bytes())]
            }
            Constant => {
                let st = stats();
                vec![("constant_compressor", constant_compressor(&v, stats()).compressed_data), ("Constant", atsc::compressor::constant::Constant::new(n, st.min, st.bitdepth).to_bytes())]
            }
            RLE => vec![("rle_compressor", rle_compressor(&v, stats()).compressed_data), ("IndexRLE", IndexRLE::new(&v, stats().bitdepth).to_bytes())],
            Polynomial => vec![("polynomial", polynomial(&v, PolynomialType::Polynomial))],
            _ => vec![("polynomial (idw)", polynomial(&v, PolynomialType::Idw))],
        };
        for (w, b) in ways.drain(..) {
            seen.push((w, b == plain));
        }
        // ways with one
        let e = e as f64;
        let results = comp.get_compress_bounded_results(&v, e);
        seen.push(("Compressor::compress_bounded", comp.compress_bounded(&v, e) == bounded));
        seen.push(("Compressor::get_compress_bounded_results", results.compressed_data == bounded));
        let mut ways = match comp {
            Noop => vec![("noop_compressor", noop_compressor(&v))],
            FFT => vec![("fft_compressor", fft_compressor(&v, e, stats())), ("fft_allowed_error", fft_allowed_error(&v, e))],
            Constant => vec![("constant_compressor", constant_compressor(&v, stats()))],
            RLE => vec![("rle_compressor", rle_compressor(&v, stats()))],
            Polynomial => vec![("polynomial_allowed_error", polynomial_allowed_error(&v, e, PolynomialType::Polynomial))],
            _ => vec![("polynomial_allowed_error (idw)", polynomial_allowed_error(&v, e, PolynomialType::Idw))],
        };
        for (w, x) in ways.drain(..) {
            seen.push((w, x.compressed_data == bounded));
            seen.push(("the error reported", x.error.to_bits() == results.error.to_bits()));
        }
        let mut g = CompressorFrame::new(Some(comp));
        g.compress_bounded(&v, e as f32);
        g.close();
        // ways to decompress
        for (k, data) in [&plain, &bounded].into_iter().enumerate() {
            let s = if k == 0 { direct.clone() } else { CompressedStream::from_bytes(&whole).decompress() };
            let s = bits_of(&s);
            if k == 1 {
                seen.push(("CompressorFrame::compress_bounded", bits_of(&g.decompress()) == s));
            }
            seen.push(("Compressor::decompress", bits_of(&comp.decompress(n, data)) == s));
            let (m, o, again) = match comp {
                Noop => (noop_to_data(n, data), atsc::compressor::noop::Noop::decompress(data).to_data(n).iter().map(|x| *x as f64).collect(), atsc::compressor::noop::Noop::decompress(data).to_bytes()),
                FFT => (fft_to_data(n, data), atsc::compressor::fft::FFT::decompress(data).to_data(n), atsc::compressor::fft::FFT::decompress(data).to_bytes()),
                Constant => (constant_to_data(n, data), atsc::compressor::constant::Constant::decompress(data).to_data(n), atsc::compressor::constant::Constant::decompress(data).to_bytes()),
                RLE => (rle_to_data(n, data), IndexRLE::decompress(data).to_data(n), IndexRLE::decompress(data).to_bytes()),
                _ => (to_data(n, data), atsc::compressor::polynomial::Polynomial::decompress(data).to_data(n), atsc::compressor::polynomial::Polynomial::decompress(data).to_bytes()),
            };
            seen.push(("decompression by the compressor's module", bits_of(&m) == s));
            seen.push(("decompression by the compressor's type", bits_of(&o) == s));
            seen.push(("the payload read and written again", again == *data));
        }
        seen.push(("the stream read and written again", CompressedStream::from_bytes(&whole).to_bytes() == whole));
        // a frame without a choice is a noop frame
        if comp == Noop {
            let mut d = CompressedStream::new();
            d.compress_chunk(&v);
            seen.push(("compress_chunk", payload(&d.to_bytes())? == (tag, plain.clone())));
            let mut f = CompressorFrame::new(None);
            f.compress(&v);
            seen.push(("CompressorFrame without a choice", bits_of(&f.decompress()) == bits_of(&direct)));
        }
        Ok(seen)
    });
    match p {
        Err(m) => fail(format!("{what}: panic {m}"), dump(&v)),
        Ok(Err(m)) => fail(format!("{what}: {m}"), dump(&v)),
        Ok(Ok(seen)) => {
            for (w, ok) in &seen {
                if !ok {
                    return fail(format!("{what}: {w} differs from the stream's"), dump(&v));
                }
                c.local.count(&format!("ways_{}", w.replace(' ', "_")));
            }
            if n > 1 {
                c.local.hit(hash_f64s(c.idx % 6 + 8 * e.to_bits() as u64, &v));
            }
            c.local.sample(|| what.clone());
            Ok(())
        }
    }
}

/// An automatic frame is the frame of the compressor it names
fn c40_auto(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let n = match r.below(20) {
        0 => pick_len(r, Size::Medium),
        1..=3 => 100 + r.below(5000),
        _ => 1 + r.below(700),
    };
    let v = series(r, n, Wild::No).v;
    let n = v.len();
    let e = crate::p_series::efrac(pick_err(r));
    let level = r.below(7);
    let what = format!("auto e={e} level={level} n={n}");
    let got = guard(|| -> Result<(&'static str, bool), String> {
        let (tag, auto) = payload(&crate::p_series::chunk_bytes(&v, Compressor::Auto, Some(e), level))?;
        let comp = [Compressor::FFT, Compressor::Polynomial, Compressor::RLE, Compressor::Constant, Compressor::Noop, Compressor::Idw].into_iter().find(|x| *x as u64 == tag).ok_or(format!("names compressor {tag}"))?;
        let (_, forced) = payload(&crate::p_series::chunk_bytes(&v, comp, Some(e), 0))?;
        Ok((cname(comp), auto == forced))
    });
    match got {
        Ok(Ok((w, true))) => {
            c.local.count(&format!("auto_chose_{w}"));
            if n > 1 {
                c.local.hit(hash_f64s(level as u64 + 8 * e.to_bits() as u64, &v));
            }
            c.local.sample(|| what.clone());
            Ok(())
        }
        Ok(Ok((w, false))) => fail(format!("{what}: the frame differs from the one that {w} makes by itself"), dump(&v)),
        Ok(Err(m)) => fail(format!("{what}: {m}"), dump(&v)),
        Err(m) => fail(format!("{what}: panic {m}"), dump(&v)),
    }
}

// ---------------------------------------------------------------------------------------------- C41
/// 2^a * 3^b in ascending order
fn smooth() -> Vec<u64> {
    let mut s = vec![];
    let mut a = 1u128;
    while a < 1 << 64 {
        let mut b = a;
        while b < 1 << 64 {
            s.push(b as u64);
            b *= 3;
        }
        a *= 2;
    }
    s.sort_unstable();
    s
}
fn c41_sizes(c: &mut Case) -> Res {
    let s = smooth();
    let check = |n: usize| -> Res {
        let m = n.to_string();
        let pow = if n == 0 { 0 } else { 1usize << n.ilog2() };
        let got = guard(|| prev_power_of_two(n)).or_else(|p| fail(format!("prev_power_of_two({n}): panic {p}"), &m[..]))?;
        if got != pow {
            return fail(format!("prev_power_of_two({n}) = {got}"), &m[..]);
        }
        if n > 0 {
            let got = guard(|| is_decomposable(n)).or_else(|p| fail(format!("is_decomposable({n}): panic {p}"), &m[..]))?;
            if got != s.binary_search(&(n as u64)).is_ok() {
                return fail(format!("is_decomposable({n}) = {got}"), &m[..]);
            }
        }
        // found by counting upwards, so only where the next one is near
        if n <= 140_000 || (n <= 10_000_000 && n % 251 == 0) {
            let want = s[s.partition_point(|x| *x <= n as u64)] as usize;
            let got = guard(|| next_size(n)).or_else(|p| fail(format!("next_size({n}): panic {p}"), &m[..]))?;
            if got != want {
                return fail(format!("next_size({n}) = {got}, not {want}"), &m[..]);
            }
        }
        Ok(())
    };
    let chunk = 250;
    for n in c.idx as usize * chunk..(c.idx as usize + 1) * chunk {
        check(n)?;
    }
    let r = &mut c.rng;
    for _ in 0..20 {
        // around the numbers of the form, and anything
        let n = match r.below(3) {
            0 => (*r.pick(&s) as i128 + r.range(-2, 3) as i128).clamp(1, u64::MAX as i128) as usize,
            1 => ((1u64 << r.below(63)) as i64 + r.range(-2, 3)).max(1) as usize,
            _ => (r.u64() >> (1 + r.below(63))) as usize,
        };
        check(n)?;
        c.local.hit(n as u64);
        c.local.count("sizes_beyond");
    }
    c.local.add("sizes_in_order", chunk as u64);
    c.local.sample(|| format!("sizes {}..", c.idx as usize * chunk));
    Ok(())
}
fn c41_stats(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let n = match r.below(20) {
        0 => pick_len(r, Size::Medium),
        1..=6 => 1 + r.below(4),
        _ => 1 + r.below(600),
    };
    let v: Vec<f64> = if r.chance(0.5) {
        series(r, n, Wild::No).v
    } else {
        // at the ends of the integer types, with few others between
        let ends = [0.0, -0.0, -1.0, 1.0, 254.0, 255.0, 256.0, -128.0, -129.0, 32767.0, 32768.0, 65535.0, 65536.0, -32768.0, -32769.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0, 9.007199254740992e15, 9.223372036854776e18, -9.223372036854776e18, 1e19, 1e300];
        let few: Vec<f64> = (0..1 + r.below(4)).map(|_| *r.pick(&ends[..])).collect();
        let odd = r.chance(0.3);
        (0..n).map(|_| *r.pick(&few) + if odd && r.chance(0.05) { *r.pick(&[0.5, -0.25, 1e-9]) } else { 0.0 }).collect()
    };
    if v.iter().any(|x| x.abs() > 1e300) {
        c.count("too_large_to_sum");
        return Ok(());
    }
    let st = guard(|| DataStats::new(&v)).or_else(|p| fail(format!("DataStats: panic {p}"), dump(&v)))?;
    let n = v.len();
    let (min, max) = (v.iter().copied().fold(v[0], f64::min), v.iter().copied().fold(v[0], f64::max));
    let first = |x: f64| v.iter().position(|y| *y == x).unwrap_or(usize::MAX);
    let whole = v.iter().all(|x| x.floor() == *x);
    let depth = match () {
        _ if !whole => Bitdepth::F64,
        _ if min >= 0.0 && max <= 255.0 => Bitdepth::U8,
        _ if min >= -32768.0 && max <= 32767.0 => Bitdepth::I16,
        _ if min >= -2147483648.0 && max <= 2147483647.0 => Bitdepth::I32,
        _ => Bitdepth::F64,
    };
    let say = |what: String| fail::<()>(format!("statistics of {n} samples: {what}"), dump(&v));
    if st.min != min || st.max != max {
        return say(format!("range {}..{}, not {min}..{max}", st.min, st.max));
    }
    if st.min_loc != first(min) || st.max_loc != first(max) {
        return say(format!("minimum at {} and maximum at {}, not {} and {}", st.min_loc, st.max_loc, first(min), first(max)));
    }
    if st.fractional == whole {
        return say(format!("fractional = {}", st.fractional));
    }
    if st.bitdepth != depth {
        return say(format!("width {:?}, not {depth:?}", st.bitdepth));
    }
    let big = v.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    let mean: f64 = if big == 0.0 { 0.0 } else { big * comp_sum(v.iter().map(|x| x / big)) / n as f64 };
    if !((st.mean - mean).abs() <= (n as f64 + 4.0) * f64::EPSILON * big) {
        return say(format!("mean {}, not {mean}", st.mean));
    }
    c.local.count(&format!("width_{depth:?}"));
    if n > 1 {
        c.local.hit(hash_f64s(1, &v));
    }
    c.local.sample(|| format!("{n} samples {min}..{max}"));
    Ok(())
}
fn comp_sum(it: impl Iterator<Item = f64>) -> f64 {
    let (mut s, mut k) = (0.0f64, 0.0f64);
    for x in it {
        let t = s + x;
        k += if s.abs() >= x.abs() { (s - t) + x } else { (x - t) + s };
        s = t;
    }
    s + k
}
fn c41_rounding(c: &mut Case) -> Res {
    let r = &mut c.rng;
    for _ in 0..200 {
        let d = r.below(10) as u32;
        let y = 10f64.powi(d as i32);
        let x = match r.below(5) {
            0 => r.range(-100_000, 100_000) as f64 / y,
            1 => (r.range(-100_000, 100_000) as f64 + 0.5) / y,
            2 => r.gauss() * 10f64.powi(r.range(-12, 13) as i32),
            3 => r.gauss() * 10f64.powi(r.range(-300, 290) as i32),
            _ => *r.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 1e-300, 4.35, 2.675, 1.005, -1.005]),
        };
        let say = |what: String| fail::<()>(what, format!("{x:e} {d}"));
        let got = guard(|| round_f64(x, d)).or_else(|p| fail(format!("round_f64({x}, {d}): panic {p}"), format!("{x:e} {d}")))?;
        // at most half a unit of the last place away, and there is nothing beyond that place
        let slack = 4.0 * f64::EPSILON * x.abs();
        if !((got - x).abs() <= 0.5 / y + slack) {
            return say(format!("round_f64({x}, {d}) = {got}"));
        }
        let scaled = got * y;
        if !((scaled - scaled.round()).abs() <= 4.0 * f64::EPSILON * scaled.abs()) {
            return say(format!("round_f64({x}, {d}) = {got} has more places"));
        }
        let w = r.gauss().abs() * x.abs().max(1.0);
        let (lo, hi) = match r.below(4) {
            0 => (x, x + w),
            1 => (x - w, x),
            2 => (x + w, x + 2.0 * w),
            _ => (x - w, x + w),
        };
        let lim = guard(|| round_and_limit_f64(x, lo, hi, d)).or_else(|p| fail(format!("round_and_limit_f64({x}, {lo}, {hi}, {d}): panic {p}"), format!("{x:e} {d}")))?;
        let want = if got < lo { lo } else if got > hi { hi } else { got };
        if lim != want {
            return say(format!("round_and_limit_f64({x}, {lo}, {hi}, {d}) = {lim}, not {want}"));
        }
        let p = r.below(7);
        let x = match r.below(4) {
            0 => r.f() * 10f64.powi(r.range(-8, 13) as i32),
            1 => r.below(100_000_000) as f64,
            2 => r.below(100_000_000) as f64 / 10f64.powi(p as i32),
            _ => *r.pick(&[0.0, 0.999_999_999, 1.0, 1.5, 1e12]),
        };
        let got = guard(|| f64_to_u64(x, p)).or_else(|m| fail(format!("f64_to_u64({x}, {p}): panic {m}"), format!("{x:e} {p}")))?;
        let exact = x * 10f64.powi(p as i32);
        let (a, b) = ((exact * (1.0 - f64::EPSILON)).floor() as u64, (exact * (1.0 + f64::EPSILON)).floor() as u64);
        if !(a..=b).contains(&got) {
            return fail(format!("f64_to_u64({x}, {p}) = {got}, not {a}"), format!("{x:e} {p}"));
        }
        c.local.hit(x.to_bits() ^ ((d as u64) << 3));
        c.local.count("roundings");
    }
    c.local.sample(|| "200 roundings".to_string());
    Ok(())
}

pub fn phases(id: &str) -> Option<(Vec<Phase>, Meta)> {
    let p = |name, quick, thorough, f| Phase { name, quick, thorough, threads: 0, f };
    let m = |level, rule| Meta { level, rule, assumptions: &[] };
    Some(match id {
        "C40" => (
            vec![p("ways", 60000, 900000, c40_case as fn(&mut Case) -> Res), p("auto", 50000, 750000, c40_auto)],
            m("exploration", "one series through all public functions and types that compress or decompress a frame of one compressor, compared bit for bit; distinct by numbers, compressor and target, more than one sample"),
        ),
        "C41" => (
            vec![
                p("sizes", 2000, 40000, c41_sizes as fn(&mut Case) -> Res),
                p("stats", 1000000, 15000000, c41_stats),
                p("rounding", 30000, 450000, c41_rounding),
            ],
            m("exploration", "every size up to half a million (ten million thorough) and around all sizes of the form; statistics of series at the ends of the integer types; rounding of numbers of all magnitudes; distinct by input"),
        ),
        _ => return None,
    })
}
