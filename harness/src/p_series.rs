//! Monitors over compress -> serialise -> read back -> decompress executions (C01-C08, C10, C22, C23, C27, C28).
use crate::ctx::*;
use crate::gen::*;
use crate::oracle::*;
use crate::refdec;
use crate::rng::*;
use atsc::compressor::polynomial::{polynomial, polynomial_allowed_error, Polynomial, PolynomialType};
use atsc::compressor::Compressor;
use atsc::data::CompressedStream;
use atsc::optimizer::OptimizerPlan;
use atsc::optimizer::utils::DataStats;

pub const LEVELS: [usize; 7] = [usize::MAX, 4096, 2048, 1024, 512, 256, 128];

pub fn cname(c: Compressor) -> &'static str {
    match c {
        Compressor::Noop => "noop",
        Compressor::FFT => "fft",
        Compressor::Idw => "idw",
        Compressor::Constant => "constant",
        Compressor::Polynomial => "polynomial",
        Compressor::Auto => "auto",
        Compressor::RLE => "rle",
    }
}

pub fn pick_err(r: &mut Rng) -> u8 {
    match r.below(12) {
        0 | 1 => 0,
        2 => 1,
        3 => 2,
        4 => 3,
        5 | 6 => 5,
        7 => 10,
        8 => 20,
        9 => 50,
        _ => r.below(51) as u8,
    }
}
pub fn efrac(e: u8) -> f32 {
    e as f32 / 100.0
}

/// One chunk through a stream and back.
pub fn chunk_bytes(v: &[f64], c: Compressor, e: Option<f32>, level: usize) -> Vec<u8> {
    let mut cs = CompressedStream::new();
    match e {
        Some(e) => cs.compress_chunk_bounded_with(v, c, e, level),
        None => cs.compress_chunk_with(v, c),
    }
    cs.to_bytes()
}
pub fn unpack(b: &[u8]) -> Vec<f64> {
    CompressedStream::from_bytes(b).decompress()
}
pub fn trip(v: &[f64], c: Compressor, e: Option<f32>, level: usize) -> Result<(Vec<f64>, Vec<u8>), Fail> {
    let what = || format!("{} e={e:?} level={level}", cname(c));
    let b = guard(|| chunk_bytes(v, c, e, level)).or_else(|p| fail(format!("compressing with {} panicked: {p}", what()), dump(v)))?;
    let o = guard(|| unpack(&b)).or_else(|p| fail(format!("decompressing {} panicked: {p}", what()), dump(v)))?;
    Ok((o, b))
}

pub fn frame_tag(b: &[u8]) -> &'static str {
    refdec::parse(b).ok().and_then(|s| s.frames.first().map(|f| refdec::name(f.tag))).unwrap_or("?")
}

fn lens(v: &[f64], o: &[f64], what: &str) -> Res {
    if v.len() != o.len() {
        return fail(format!("{what}: {} samples became {}", v.len(), o.len()), dump(v));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C01
fn check_bound(c: &mut Case, d: &str, v: &[f64], o: &[f64], lim: f64, what: &str) -> Res {
    let m = mape(v, o);
    if m.partial_cmp(&lim) == Some(std::cmp::Ordering::Greater) || m.is_nan() {
        return fail(format!("{what}: mean absolute percentage error {m:e} exceeds {lim:e}; input {d}: {}", brief(v)), dump(v));
    }
    c.local.add("samples_compared", v.len() as u64);
    if m > 0.0 {
        c.count("frames_lossy");
        if m > lim * 0.9 {
            c.count("frames_within_10pct_of_bound");
        }
    } else {
        c.count("frames_exact");
    }
    Ok(())
}

fn c01_random(c: &mut Case) -> Res {
    let sz = pick_size(&mut c.rng, if c.tier == Tier::Quick { 0.004 } else { 0.01 });
    let n = pick_len(&mut c.rng, sz);
    let s = series(&mut c.rng, n, Wild::Some);
    let e = pick_err(&mut c.rng);
    let (frac, lim) = if c.rng.chance(0.1) {
        let f = (c.rng.f() * 0.5 * c.rng.f()) as f32;
        (f, bound_frac(f))
    } else {
        (efrac(e), bound(e))
    };
    let level = if c.rng.chance(0.35) { 0 } else { c.rng.below(7) };
    c01_one(c, &s, frac, lim, level)
}
fn c01_one(c: &mut Case, s: &Series, frac: f32, lim: f64, level: usize) -> Res {
    let what = format!("auto error={frac} level={level}");
    let (o, b) = trip(&s.v, Compressor::Auto, Some(frac), level)?;
    lens(&s.v, &o, &what)?;
    check_bound(c, &s.desc, &s.v, &o, lim, &what)?;
    let t = frame_tag(&b);
    c.local.count(&format!("chosen_{t}"));
    if s.v.len() >= LEVELS[level] {
        c.count("selected_on_a_sample");
    }
    if !all_equal(&s.v) {
        c.local.hit(hash_f64s(frac.to_bits() as u64 + level as u64 * 7, &s.v));
    }
    c.local.sample(|| format!("{what} {} -> {t}, {} bytes, error {:e}", s.desc, b.len(), mape(&s.v, &o)));
    Ok(())
}
/// series whose sampled prefix misleads the selection
fn c01_sampling(c: &mut Case) -> Res {
    let level = 1 + c.rng.below(6);
    let p = LEVELS[level];
    let n = p + c.rng.below(2 * p + 1);
    let mut v = series(&mut c.rng, p, Wild::No);
    match c.rng.below(4) {
        0 => v.v = vec![v.v[0]; p],
        1 => {
            let (a, f) = (v.v[0].abs() + 1.0, (1 + c.rng.below(5)) as f64);
            v.v = (0..p).map(|i| a * (2.0 + (std::f64::consts::TAU * f * i as f64 / p as f64).sin())).collect();
        }
        2 => v.v = (0..p).map(|i| 10.0 + i as f64 * 0.01).collect(),
        _ => {}
    }
    let rest = series(&mut c.rng, (n - p).max(1), Wild::Some);
    v.v.extend_from_slice(&rest.v[..n - p]);
    v.desc = format!("prefix {} then {}", v.desc, rest.desc);
    let e = pick_err(&mut c.rng);
    c01_one(c, &v, efrac(e), bound(e), level)
}
/// whole plans: several chunks per stream
fn c01_plan(c: &mut Case) -> Res {
    let n = match c.rng.below(4) {
        0 => 513 + c.rng.below(4000),
        1 => *c.rng.pick(MED_LENS) + c.rng.below(3),
        2 => 2 * 512 + c.rng.below(9000),
        _ => 1 + c.rng.below(30000),
    };
    let s = series(&mut c.rng, n, Wild::Some);
    let e = pick_err(&mut c.rng);
    let level = c.rng.below(7);
    let r = guard(|| {
        let mut op = OptimizerPlan::plan(&s.v);
        op.set_compressor(Compressor::Auto);
        let mut cs = CompressedStream::new();
        let mut parts = vec![];
        for (k, d) in op.get_execution() {
            cs.compress_chunk_bounded_with(d, *k, efrac(e), level);
            parts.push(d.len());
        }
        (unpack(&cs.to_bytes()), parts)
    });
    let (o, parts) = r.or_else(|p| fail(format!("panic: {p}"), dump(&s.v)))?;
    lens(&s.v, &o, "auto")?;
    let mut at = 0;
    for p in parts {
        let what = format!("auto e={e} level={level} frame at {at} of {p}");
        check_bound(c, &s.desc, &s.v[at..at + p], &o[at..at + p], bound(e), &what)?;
        at += p;
    }
    if at != n {
        return fail(format!("frames cover {at} of {n} samples"), dump(&s.v));
    }
    c.count("plans");
    c.local.hit(hash_f64s(e as u64, &s.v));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C02
fn exact(s: &Series, o: &[f64], what: &str) -> Res {
    lens(&s.v, o, what)?;
    for (i, (a, b)) in s.v.iter().zip(o).enumerate() {
        if a != b {
            return fail(format!("{what}: sample {i} {a:e} became {b:e}; input {}", s.desc), dump(&s.v));
        }
    }
    Ok(())
}
fn c02_case(c: &mut Case) -> Res {
    let k = c.idx % 8;
    let idw = k == 2;
    let sz = if idw {
        if c.rng.chance(0.1) {
            Size::Small
        } else {
            Size::Tiny
        }
    } else {
        pick_size(&mut c.rng, 0.004)
    };
    let n = pick_len(&mut c.rng, sz).min(if idw { 400 } else { usize::MAX });
    let mut s = series(&mut c.rng, n, Wild::Some);
    if k >= 6 {
        // constant frames
        let x = if c.rng.chance(0.6) { *c.rng.pick(EDGE_VALUES) } else { s.v[0] };
        s.v = vec![x; n];
        if x == 0.0 && c.rng.chance(0.5) {
            s.v.iter_mut().step_by(2).for_each(|y| *y = -0.0);
        }
        s.desc = format!("constant {x:e} n={n}");
    }
    let level = c.rng.below(7);
    let e = pick_err(&mut c.rng);
    let (comp, err, level) = match k {
        0 | 3 => (Compressor::Auto, Some(0.0), level),
        1 => (Compressor::Polynomial, Some(0.0), 0),
        2 => (Compressor::Idw, Some(0.0), 0),
        4 => (Compressor::RLE, Some(efrac(e)), 0),
        5 => (Compressor::RLE, None, 0),
        6 => (Compressor::Auto, Some(efrac(e)), level),
        _ => (Compressor::Constant, if c.rng.chance(0.5) { None } else { Some(efrac(e)) }, 0),
    };
    let what = format!("{} e={err:?} level={level}", cname(comp));
    let (o, b) = trip(&s.v, comp, err, level)?;
    exact(&s, &o, &what)?;
    c.local.count(&format!("exact_{}", cname(comp)));
    if let Ok(p) = refdec::parse(&b) {
        for f in &p.frames {
            if let Ok(d) = refdec::decode_frame(f) {
                c.local.count(&format!("encoding_{}_{}", refdec::name(f.tag), d.detail.replace(' ', "_")));
            }
        }
    }
    c.local.add("samples_compared", n as u64);
    c.local.hit(hash_f64s(k, &s.v));
    c.local.sample(|| format!("{what} {}", s.desc));
    Ok(())
}
/// pairs of boundary values: every encoding width decision, exhaustively
fn c02_pairs(c: &mut Case) -> Res {
    let m = EDGE_VALUES.len() as u64;
    let (i, j) = (c.idx / m, c.idx % m);
    if i >= m {
        return Ok(());
    }
    let (a, b) = (EDGE_VALUES[i as usize], EDGE_VALUES[j as usize]);
    let n = 2 + c.rng.below(9);
    let v: Vec<f64> = (0..n).map(|k| if k == 0 || (k > 1 && c.rng.chance(0.5)) { a } else { b }).collect();
    let s = Series { desc: format!("{a:e} with {b:e}"), v };
    for (comp, err) in [
        (Compressor::RLE, None),
        (Compressor::Auto, Some(0.0)),
        (Compressor::Polynomial, Some(0.0)),
        (Compressor::Idw, Some(0.0)),
    ] {
        let what = format!("{} e={err:?}", cname(comp));
        let (o, _) = trip(&s.v, comp, err, 0)?;
        exact(&s, &o, &what)?;
    }
    c.count("boundary_value_pairs");
    if i != j {
        c.local.hit(hash_f64s(77, &s.v));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C03
fn c03_case(c: &mut Case) -> Res {
    let idw = c.idx % 3 == 2;
    let sz = pick_size(&mut c.rng, if idw { 0.0 } else { 0.003 });
    let mut n = pick_len(&mut c.rng, sz);
    if idw {
        n = n.min(if c.rng.chance(0.03) { 1400 } else { 330 });
    }
    let s = series(&mut c.rng, n, Wild::Some);
    let e = pick_err(&mut c.rng);
    let (frac, lim) = if c.rng.chance(0.15) {
        let f = [0.0001f32, 0.00049, 0.0005, 0.00051, 0.001, 0.0014999, 0.0015, 0.005, 1e-6][c.rng.below(9)];
        (f, bound_frac(f))
    } else {
        (efrac(e), bound(e))
    };
    let comp = if idw { Compressor::Idw } else { Compressor::Polynomial };
    let what = format!("{} error={frac}", cname(comp));
    let (o, b) = trip(&s.v, comp, Some(frac), c.rng.below(7))?;
    lens(&s.v, &o, &what)?;
    check_bound(c, &s.desc, &s.v, &o, lim, &what)?;
    if let Ok(p) = refdec::parse(&b) {
        if let Some(Ok(d)) = p.frames.first().map(refdec::decode_frame) {
            c.local.count(&format!("{}_{}", cname(comp), d.detail.replace(' ', "_")));
        }
    }
    if s.v.contains(&0.0) {
        c.count("series_with_zeros");
    }
    if !all_equal(&s.v) {
        c.local.hit(hash_f64s(frac.to_bits() as u64, &s.v));
    }
    c.local.sample(|| format!("{what} {} -> {} bytes, error {:e}", s.desc, b.len(), mape(&s.v, &o)));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C04
fn c04_case(c: &mut Case) -> Res {
    let comp = [Compressor::FFT, Compressor::FFT, Compressor::Polynomial, Compressor::Idw, Compressor::RLE, Compressor::FFT, Compressor::Constant, Compressor::Noop][(c.idx % 8) as usize];
    let sz = pick_size(&mut c.rng, if comp == Compressor::Idw { 0.0 } else { 0.004 });
    let mut n = pick_len(&mut c.rng, sz);
    if comp == Compressor::Idw {
        n = n.min(260);
    }
    let mut s = series(&mut c.rng, n, Wild::Some);
    // what constant and noop store does not depend on a target: whatever it is, the report has to own up to it
    if comp == Compressor::Constant && c.rng.chance(0.6) {
        s.v = vec![s.v[c.idx as usize % n]; n];
    }
    let e = match c.rng.below(5) {
        0 => 0.0,
        1 => c.rng.f() * 0.01,
        2 => pick_err(&mut c.rng) as f64 / 100.0,
        _ => c.rng.f() * 0.5,
    };
    let what = format!("{} target={e:e}", cname(comp));
    let r = guard(|| {
        let r = comp.get_compress_bounded_results(&s.v, e);
        let o = comp.decompress(n, &r.compressed_data);
        (r.error, o)
    });
    let (rep, o) = r.or_else(|p| fail(format!("{what} panicked: {p}; input {}", s.desc), dump(&s.v)))?;
    lens(&s.v, &o, &what)?;
    let m = mape(&s.v, &o);
    let (lo, hi) = min_max(&s.v);
    let huge = lo.abs().max(hi.abs()) > 1e300;
    // a report that is not a number, like an infinite one, is never within a target
    let honest = if rep == m || (rep.is_nan() && !m.is_finite()) {
        true
    } else if huge {
        rep >= m * (1.0 - 1e-9)
    } else {
        (rep - m).abs() <= 1e-9 * m.abs().max(rep.abs()) + 1e-15
    };
    if !honest {
        return fail(format!("{what} reports error {rep:e}, the stored bytes give {m:e}; input {}: {}", s.desc, brief(&s.v)), dump(&s.v));
    }
    c.local.count(&format!("reports_{}", cname(comp)));
    c.count(if rep == 0.0 { "report_zero" } else if rep.is_infinite() { "report_infinite" } else if rep > e { "report_above_target" } else { "report_within_target" });
    if !all_equal(&s.v) {
        c.local.hit(hash_f64s(e.to_bits(), &s.v));
    }
    c.local.sample(|| format!("{what} {} reported {rep:e} measured {m:e}", s.desc));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C05
pub fn all_compressors() -> [Compressor; 7] {
    [Compressor::Noop, Compressor::FFT, Compressor::Idw, Compressor::Constant, Compressor::Polynomial, Compressor::Auto, Compressor::RLE]
}
fn c05_run(c: &mut Case, v: &[f64], desc: &str, comp: Compressor, bounded: bool, e: f32) -> Res {
    let what = format!("{} {} {desc}", cname(comp), if bounded { "bounded" } else { "plain" });
    let clean: Vec<f64> = v.iter().copied().filter(|x| x.is_finite()).collect();
    let op = guard(|| {
        let mut op = OptimizerPlan::plan(v);
        op.set_compressor(comp);
        op
    })
    .or_else(|p| fail(format!("planning panicked: {p}"), dump(v)))?;
    if !same_bits(&op.data, &clean) {
        return fail(format!("{what}: cleaned series differs: {}", first_diff(&clean, &op.data)), dump(v));
    }
    let ex = guard(|| op.get_execution().into_iter().map(|(k, d)| (*k, d.to_vec())).collect::<Vec<_>>())
        .or_else(|p| fail(format!("{what}: get_execution panicked: {p}"), dump(v)))?;
    let mut cat: Vec<f64> = vec![];
    for (k, d) in &ex {
        if d.is_empty() || d.len() > 131072 {
            return fail(format!("{what}: chunk of {} samples", d.len()), dump(v));
        }
        if *k != comp {
            return fail(format!("{what}: chunk assigned to {}", cname(*k)), dump(v));
        }
        cat.extend_from_slice(d);
    }
    if !same_bits(&cat, &clean) {
        return fail(format!("{what}: chunks do not partition the series: {}", first_diff(&clean, &cat)), dump(v));
    }
    let r = guard(|| {
        let mut cs = CompressedStream::new();
        let mut own = vec![];
        for (k, d) in &ex {
            if bounded {
                cs.compress_chunk_bounded_with(d, *k, e, 0);
                own.push(unpack(&chunk_bytes(d, *k, Some(e), 0)));
            } else {
                cs.compress_chunk_with(d, *k);
                own.push(unpack(&chunk_bytes(d, *k, None, 0)));
            }
        }
        (unpack(&cs.to_bytes()), own)
    });
    let (o, own) = r.or_else(|p| fail(format!("{what}: panic {p}"), dump(v)))?;
    for ((_, d), w) in ex.iter().zip(&own) {
        if d.len() != w.len() {
            return fail(format!("{what}: chunk of {} samples gives back {}", d.len(), w.len()), dump(v));
        }
    }
    if o.len() != clean.len() {
        return fail(format!("{what}: {} finite samples, {} returned", clean.len(), o.len()), dump(v));
    }
    let ocat: Vec<f64> = own.concat();
    if !same_bits(&ocat, &o) {
        return fail(format!("{what}: stream differs from its chunks: {}", first_diff(&ocat, &o)), dump(v));
    }
    if comp == Compressor::RLE {
        if let Some(i) = (0..o.len()).find(|&i| o[i] != clean[i]) {
            return fail(format!("{what}: sample {i} {:e} came back as {:e}", clean[i], o[i]), dump(v));
        }
    }
    c.local.add("samples_conserved", o.len() as u64);
    c.local.count(&format!("streams_{}", cname(comp)));
    c.local.max("frames_in_a_stream", ex.len() as u64);
    Ok(())
}
fn sprinkle(r: &mut Rng, v: &mut Vec<f64>) -> usize {
    let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::from_bits(0x7ff8dead_beef0001), f64::from_bits(0xfff00000_00000001)];
    let mode = r.below(5);
    let mut k = 0;
    let n = v.len();
    match mode {
        0 => {}
        1 => {
            let p = r.f();
            for x in v.iter_mut() {
                if r.chance(p * 0.5) {
                    *x = *r.pick(&bad);
                    k += 1;
                }
            }
        }
        2 => {
            for _ in 0..1 + r.below(4) {
                let at = r.below(v.len() + 1);
                v.insert(at, *r.pick(&bad));
                k += 1;
            }
        }
        3 => {
            // a run
            let at = r.below(n + 1);
            let l = 1 + r.below(n + 1);
            let b = *r.pick(&bad);
            for _ in 0..l {
                v.insert(at, b);
                k += 1;
            }
        }
        _ => {
            if r.chance(0.3) {
                v.iter_mut().for_each(|x| *x = bad[0]);
                k = n;
            } else {
                v.insert(0, *r.pick(&bad));
                v.push(*r.pick(&bad));
                k = 2;
            }
        }
    }
    k
}
fn c05_case(c: &mut Case) -> Res {
    let comp = all_compressors()[(c.idx % 7) as usize];
    let n = match c.rng.below(10) {
        0 => c.rng.below(4),
        1..=4 => *c.rng.pick(EDGE_LENS),
        5..=7 => pick_len(&mut c.rng, Size::Medium),
        8 => 512 * (1 + c.rng.below(20)) + c.rng.below(5),
        _ => 1 + c.rng.below(2000),
    };
    let n = if comp == Compressor::Idw { n.min(600) } else { n };
    let mut s = if n == 0 { Series { desc: "empty".into(), v: vec![] } } else { series(&mut c.rng, n, Wild::No) };
    if n > 0 && c.rng.chance(0.12) {
        // finite, however close to the limits
        for _ in 0..1 + c.rng.below(3) {
            let at = c.rng.below(n);
            s.v[at] = *c.rng.pick(&[f64::MAX, f64::MIN, f64::from_bits(f64::MAX.to_bits() - 1), f64::MIN_POSITIVE, f64::from_bits(1), -f64::from_bits(1), -0.0, 1e308]);
            c.count("samples_at_the_limits_of_f64");
        }
    }
    let k = sprinkle(&mut c.rng, &mut s.v);
    let bounded = comp == Compressor::Auto || c.rng.chance(0.6);
    let e = if comp == Compressor::Idw { 0.3 } else { efrac(pick_err(&mut c.rng)) };
    let d = format!("{} with {k} non-finite", s.desc);
    if k > 0 {
        c.count("series_with_nonfinite");
    }
    c05_run(c, &s.v, &d, comp, bounded, e)?;
    if s.v.len() > 1 {
        c.local.hit(hash_f64s(c.idx % 7, &s.v));
    }
    c.local.sample(|| format!("{} {d}", cname(comp)));
    Ok(())
}
/// every length from 0 up, one compressor per residue
fn c05_lengths(c: &mut Case) -> Res {
    let n = (c.idx / 2) as usize;
    let comp = if c.idx % 2 == 0 { Compressor::RLE } else { [Compressor::FFT, Compressor::Polynomial, Compressor::Noop][n % 3] };
    let v: Vec<f64> = (0..n).map(|i| ((i * 7919) % 251) as f64).collect();
    c05_run(c, &v, &format!("every length: {n}"), comp, n % 2 == 0, 0.05)?;
    c.count("lengths_enumerated");
    if n > 1 {
        c.local.hit(mix(c.idx));
    }
    Ok(())
}
fn c05_large(c: &mut Case) -> Res {
    let n = match c.idx % 6 {
        0 => 131071,
        1 => 131072,
        2 => 131073,
        3 => 2 * 131072 + c.rng.below(600),
        4 => 3 * 131072 + 1765,
        _ => 131072 + c.rng.below(131072),
    };
    let comp = [Compressor::Noop, Compressor::RLE, Compressor::Constant, Compressor::FFT, Compressor::Polynomial][(c.idx / 6 % 5) as usize];
    // few runs: the RLE index is quadratic in the number of runs
    let v: Vec<f64> = (0..n).map(|i| ((i / 97) * 31 % 5003) as f64).collect();
    c05_run(c, &v, &format!("large {n}"), comp, true, 0.5)?;
    c.local.hit(mix(n as u64 * 31 + c.idx));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C06
fn round_away(x: f64) -> f64 {
    // independent of f64::round: compare the exact fractional part with one half
    let t = x.trunc();
    let f = (x - t).abs();
    if f >= 0.5 {
        t + 1f64.copysign(x)
    } else {
        t
    }
}
fn c06_case(c: &mut Case) -> Res {
    let sz = pick_size(&mut c.rng, 0.005);
    let n = pick_len(&mut c.rng, sz);
    let mut s = series(&mut c.rng, n, Wild::Some);
    match c.rng.below(4) {
        0 => {
            for x in s.v.iter_mut() {
                let k = c.rng.range(-300, 300) as f64;
                *x = match c.rng.below(6) {
                    0 => k + 0.5,
                    1 => f64::from_bits((k + 0.5).to_bits() - 1),
                    2 => f64::from_bits((k + 0.5).to_bits() + 1),
                    3 => 0.49999999999999994f64.copysign(k),
                    4 => k,
                    _ => k + c.rng.f(),
                };
            }
        }
        1 => {
            for x in s.v.iter_mut() {
                *x = match c.rng.below(3) {
                    0 => f64::from_bits(c.rng.u64()),
                    1 => (c.rng.u64() as i64 >> c.rng.below(64)) as f64,
                    _ => *c.rng.pick(EDGE_VALUES),
                };
            }
        }
        _ => {}
    }
    let lim = 9223372036854775808.0;
    for x in s.v.iter_mut() {
        if !x.is_finite() || x.abs() >= lim {
            *x = 0.25;
        }
    }
    let via = c.rng.below(3);
    let o = guard(|| match via {
        0 => unpack(&chunk_bytes(&s.v, Compressor::Noop, None, 0)),
        1 => unpack(&chunk_bytes(&s.v, Compressor::Noop, Some(0.07), 3)),
        _ => {
            let mut cs = CompressedStream::new();
            cs.compress_chunk(&s.v);
            unpack(&cs.to_bytes())
        }
    })
    .or_else(|p| fail(format!("noop panicked: {p}; input {}", s.desc), dump(&s.v)))?;
    lens(&s.v, &o, "noop")?;
    for (i, (a, b)) in s.v.iter().zip(&o).enumerate() {
        if round_away(*a) != *b {
            return fail(format!("noop sample {i}: {a:e} became {b:e}, expected {:e}", round_away(*a)), dump(&s.v));
        }
        if a.fract() != 0.0 {
            c.local.add("fractional_samples", 1);
        }
    }
    c.local.add("samples_compared", n as u64);
    c.local.hit(hash_f64s(6, &s.v));
    c.local.sample(|| format!("noop {} {}", s.desc, brief(&s.v)));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C07
fn c07_case(c: &mut Case) -> Res {
    let comp = [Compressor::FFT, Compressor::Polynomial, Compressor::Auto, Compressor::FFT, Compressor::Idw, Compressor::RLE, Compressor::Polynomial, Compressor::Constant][(c.idx % 8) as usize];
    let sz = pick_size(&mut c.rng, if comp == Compressor::Idw { 0.0 } else { 0.004 });
    let mut n = pick_len(&mut c.rng, sz);
    if comp == Compressor::Idw {
        n = n.min(260);
    }
    let mut s = series(&mut c.rng, n, Wild::Some);
    if comp == Compressor::FFT || c.rng.chance(0.7) {
        s.v.iter_mut().for_each(|x| *x = if x.abs() < 1e30 { *x } else { *x * 1e-290 });
        s.v.iter_mut().for_each(|x| *x = if x.abs() < 1e30 { *x } else { 1e29f64.copysign(*x) });
    }
    if comp == Compressor::Constant {
        s.v = vec![s.v[0]; n];
    }
    let plain = comp != Compressor::Auto && c.rng.chance(0.25);
    let e = if plain { None } else { Some(efrac(pick_err(&mut c.rng))) };
    let (o, b) = trip(&s.v, comp, e, c.rng.below(7))?;
    let what = format!("{} e={e:?}", cname(comp));
    lens(&s.v, &o, &what)?;
    let (mut lo, mut hi) = min_max(&s.v);
    let small = lo > -1e30 && hi < 1e30;
    if frame_tag(&b) == "fft" {
        lo = (lo as f32) as f64;
        hi = (hi as f32) as f64;
    }
    for (i, x) in o.iter().enumerate() {
        if !x.is_finite() && small {
            return fail(format!("{what}: sample {i} decompressed to {x}; input {}", s.desc), dump(&s.v));
        }
        let within = *x >= lo && *x <= hi;
        if !within && !(x.is_nan() && !small) {
            return fail(format!("{what}: sample {i} decompressed to {x:e} outside [{lo:e}, {hi:e}]; input {}", s.desc), dump(&s.v));
        }
        if (*x == lo || *x == hi) && o[i] != s.v[i] {
            c.local.add("values_at_the_limits", 1);
        }
    }
    c.local.add("samples_compared", n as u64);
    c.local.count(&format!("frames_{}", frame_tag(&b)));
    if !all_equal(&s.v) {
        c.local.hit(hash_f64s(c.idx % 8, &s.v));
    }
    c.local.sample(|| format!("{what} {} in [{lo:e},{hi:e}]", s.desc));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C08
/// Deterministic work list used for the cross-run, cross-thread and cross-process comparisons.
pub fn work_item(seed: u64, k: u64) -> (Series, Compressor, Option<f32>, usize) {
    let mut r = Rng::new(mix(seed ^ 0xC08).wrapping_add(mix(k)));
    let comp = all_compressors()[(k % 7) as usize];
    let sz = if comp == Compressor::Idw { Size::Tiny } else { pick_size(&mut r, 0.002) };
    let n = pick_len(&mut r, sz);
    let s = series(&mut r, n, Wild::Some);
    let e = if comp == Compressor::Auto || r.chance(0.7) { Some(efrac(pick_err(&mut r))) } else { None };
    let level = r.below(7);
    (s, comp, e, level)
}
pub fn work_digest(seed: u64, k: u64) -> u64 {
    let (s, comp, e, level) = work_item(seed, k);
    match guard(|| {
        let b = chunk_bytes(&s.v, comp, e, level);
        let o = unpack(&b);
        hash_f64s(hash_bytes(1, &b), &o)
    }) {
        Ok(h) => h,
        Err(_) => 0xdead,
    }
}
fn c08_case(c: &mut Case) -> Res {
    let (s, comp, e, level) = work_item(c.ctx.seed, c.idx);
    let what = format!("{} e={e:?} level={level} {}", cname(comp), s.desc);
    let (o1, b1) = trip(&s.v, comp, e, level)?;
    // repeats, with other work in between and in other threads
    let nthreads = 3;
    let outs: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nthreads)
            .map(|t| {
                let (s, what) = (&s, &what);
                let k = c.idx;
                let seed = c.ctx.seed;
                sc.spawn(move || -> Result<(Vec<f64>, Vec<u8>), Fail> {
                    for j in 0..t {
                        let (s2, c2, e2, l2) = work_item(seed, k * 31 + j + 1);
                        if s2.v.len() < 3000 {
                            let _ = guard(|| chunk_bytes(&s2.v, c2, e2, l2));
                        }
                    }
                    trip(&s.v, comp, e, level).map_err(|f| Fail { msg: format!("{what}: {}", f.msg), input: f.input })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for r in outs {
        let (o2, b2) = r?;
        if b1 != b2 {
            return fail(format!("two compressions of the same chunk differ ({} and {} bytes): {what}", b1.len(), b2.len()), dump(&s.v));
        }
        if !same_bits(&o1, &o2) {
            return fail(format!("two decompressions differ: {what}: {}", first_diff(&o1, &o2)), dump(&s.v));
        }
        c.count("repeat_runs_compared");
    }
    // at different positions of a stream
    let nf = 1 + c.rng.below(4);
    let at = c.rng.below(nf + 1);
    let r = guard(|| {
        let mut cs = CompressedStream::new();
        let mut before = 0;
        for j in 0..=nf {
            if j == at {
                match e {
                    Some(e) => cs.compress_chunk_bounded_with(&s.v, comp, e, level),
                    None => cs.compress_chunk_with(&s.v, comp),
                }
            } else {
                let n = 1 + c.rng.below(600);
                let other = series(&mut c.rng, n, Wild::No);
                let oc = [Compressor::Noop, Compressor::FFT, Compressor::Polynomial, Compressor::RLE, Compressor::Auto][c.rng.below(5)];
                cs.compress_chunk_bounded_with(&other.v, oc, efrac(pick_err(&mut c.rng)), 0);
                if j < at {
                    before += n;
                }
            }
        }
        let direct = cs.clone().decompress();
        (before, unpack(&cs.to_bytes()), direct)
    });
    let (before, o, direct) = r.or_else(|p| fail(format!("{what}: panic {p}"), dump(&s.v)))?;
    if !same_bits(&o, &direct) {
        return fail(format!("{what}: reading the stream back changes it: {}", first_diff(&direct, &o)), dump(&s.v));
    }
    let slice = o.get(before..before + o1.len()).unwrap_or(&[]);
    if !same_bits(slice, &o1) {
        return fail(format!("{what}: frame {at} of {} depends on its neighbours: {}", nf + 1, first_diff(&o1, slice)), dump(&s.v));
    }
    c.count("stream_positions_compared");
    c.local.count(&format!("streams_{}", cname(comp)));
    if !all_equal(&s.v) {
        c.local.hit(hash_f64s(c.idx % 7, &s.v));
    }
    c.local.sample(|| what.clone());
    Ok(())
}
/// Frames that resemble each other - same length, same number of stored points, same content in the same memory -
/// read one after the other in one thread, against each of them read in a thread of its own.
fn c08_alike(c: &mut Case) -> Res {
    use atsc::compressor::fft::fft_set;
    let n = match c.rng.below(6) {
        0..=3 => 3 + c.rng.below(120),
        4 => *c.rng.pick(EDGE_LENS),
        _ => 100 + c.rng.below(900),
    };
    let comp = [Compressor::Polynomial, Compressor::Idw, Compressor::FFT, Compressor::RLE, Compressor::Idw, Compressor::Noop, Compressor::Polynomial, Compressor::Constant][(c.idx % 8) as usize];
    let m = 3 + c.rng.below(5);
    let base = series(&mut c.rng, n, Wild::No).v;
    let mut list: Vec<(Vec<f64>, Vec<u8>)> = vec![];
    for _ in 0..m {
        let v: Vec<f64> = match c.rng.below(5) {
            0 => base.clone(),
            1 => {
                let mut v = base.clone();
                let p = c.rng.below(n);
                v[p] += 1.0 + c.rng.f();
                v
            }
            2 => base.iter().rev().copied().collect(),
            3 => base.iter().map(|x| x * 2.0 + 1.0).collect(),
            _ => series(&mut c.rng, n, Wild::No).v,
        };
        let v = if comp == Compressor::Constant { vec![v[0]; n] } else { v };
        let b = guard(|| match comp {
            Compressor::Polynomial | Compressor::Idw if c.rng.chance(0.7) => {
                let (lo, hi) = min_max(&v);
                let ty = if comp == Compressor::Idw { PolynomialType::Idw } else { PolynomialType::Polynomial };
                let mut p = Polynomial::new(n, lo, hi, ty, atsc::optimizer::utils::Bitdepth::F64);
                p.compress_hinted(&v, n / 255 + 1 + c.rng.below(n));
                p.to_bytes()
            }
            Compressor::FFT if c.rng.chance(0.6) => fft_set(&v, 1 + c.rng.below(6)),
            _ => comp.compress_bounded(&v, efrac(pick_err(&mut c.rng)) as f64),
        })
        .or_else(|p| fail(format!("compressing {n} samples with {} panicked: {p}", cname(comp)), dump(&v)))?;
        list.push((v, b));
    }
    let read = |b: &[u8]| guard(|| comp.decompress(n, b));
    let alone: Vec<Result<Vec<f64>, String>> =
        list.iter().map(|(_, b)| std::thread::scope(|s| s.spawn(|| read(b)).join().unwrap())).collect();
    let orders: Vec<Vec<usize>> = (0..2).map(|_| (0..2 * m).map(|_| c.rng.below(m)).collect()).collect();
    for o in orders {
        // in a fresh thread each, so that what this thread did before plays no role
        let got: Vec<Result<Vec<f64>, String>> = std::thread::scope(|s| s.spawn(|| o.iter().map(|k| read(&list[*k].1)).collect()).join().unwrap());
        for (j, (k, g)) in o.iter().zip(&got).enumerate() {
            let same = match (g, &alone[*k]) {
                (Ok(a), Ok(b)) => same_bits(a, b),
                (a, b) => a.is_ok() == b.is_ok(),
            };
            if !same {
                let d = if let (Ok(a), Ok(b)) = (&alone[*k], g) { first_diff(a, b) } else { String::new() };
                return fail(format!("a {} frame of {n} samples is read differently after {:?}: {d}", cname(comp), &o[..j]), dump(&list[*k].0));
            }
            c.count("alike_frames_compared");
        }
    }
    // writing: the same memory holding different content, one after the other
    let e = efrac(pick_err(&mut c.rng));
    let comp = if comp != Compressor::Constant && c.rng.chance(0.3) { Compressor::Auto } else { comp };
    let write = |v: &[f64]| guard(|| chunk_bytes(v, comp, Some(e), 0));
    let alone: Vec<_> = list.iter().map(|(v, _)| std::thread::scope(|s| s.spawn(|| write(v)).join().unwrap())).collect();
    let got: Vec<_> = std::thread::scope(|s| {
        s.spawn(|| {
            let mut buf = vec![0.0; n];
            list.iter()
                .map(|(v, _)| {
                    buf.copy_from_slice(v);
                    write(&buf)
                })
                .collect::<Vec<_>>()
        })
        .join()
        .unwrap()
    });
    for k in 0..m {
        if alone[k] != got[k] {
            return fail(format!("compressing {n} samples with {} e={e} depends on what was compressed before", cname(comp)), dump(&list[k].0));
        }
    }
    c.local.count(&format!("alike_{}", cname(comp)));
    c.local.hit(hash_f64s(c.idx % 8 + 100, &base));
    Ok(())
}
/// separate processes, each doing the same work in a different order
fn c08_process(c: &mut Case) -> Res {
    let n: u64 = if c.tier == Tier::Quick { 300 } else { 3000 };
    let exe = std::env::current_exe().expect("HARNESS: exe");
    let mut outs = vec![];
    let shim = std::env::var("TIMESHIM").unwrap_or_default();
    for p in 0..4u64 {
        let mut cmd = std::process::Command::new(&exe);
        if p == 2 && !shim.is_empty() {
            cmd.env("LD_PRELOAD", &shim);
            c.count("processes_with_jumping_clocks");
        }
        if p == 3 {
            use std::os::unix::process::CommandExt;
            // all threads share one processor
            unsafe {
                cmd.pre_exec(|| {
                    let mut set: libc::cpu_set_t = std::mem::zeroed();
                    libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
                    if let Some(k) = (0..1024).rev().find(|k| libc::CPU_ISSET(*k, &set)) {
                        libc::CPU_ZERO(&mut set);
                        libc::CPU_SET(k, &mut set);
                        libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                    }
                    Ok(())
                });
            }
            c.count("processes_on_one_processor");
        }
        let o = cmd
            .args(["digest", &c.ctx.seed.to_string(), &(c.idx * n).to_string(), &n.to_string(), &p.to_string()])
            .env("TZ", ["UTC", "Asia/Tokyo", "America/New_York", "UTC"][p as usize])
            .env("HOME", if p == 1 { "/nonexistent" } else { "/root" })
            .current_dir(if p == 2 { "/" } else { "/tmp" })
            .output()
            .expect("HARNESS: spawn");
        if !o.status.success() {
            return fail(format!("a compressing process ended with {:?}", o.status), "");
        }
        let mut v: Vec<(u64, u64)> = String::from_utf8_lossy(&o.stdout)
            .lines()
            .filter_map(|l| l.split_once(' ').map(|(a, b)| (a.parse().unwrap_or(0), u64::from_str_radix(b, 16).unwrap_or(1))))
            .collect();
        v.sort();
        if v.len() != n as usize {
            panic!("HARNESS: digest lines {}", v.len());
        }
        outs.push(v);
    }
    for p in 1..4 {
        for (a, b) in outs[0].iter().zip(&outs[p]) {
            if a != b {
                let (s, comp, e, level) = work_item(c.ctx.seed, a.0);
                return fail(format!("item {} ({} e={e:?} level={level} {}) gives different bytes or numbers in another process", a.0, cname(comp), s.desc), dump(&s.v));
            }
            c.count("cross_process_items");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C10
fn c10_run(c: &mut Case, n: usize) -> Res {
    let r = guard(|| {
        let mut cs = CompressedStream::new();
        let mut own: Vec<f64> = vec![];
        let mut kinds = [0u64; 7];
        for j in 0..n {
            let k = c.rng.below(7);
            let comp = all_compressors()[k];
            kinds[k] += 1;
            let len = if n > 2000 {
                1 + c.rng.below(3)
            } else if c.rng.chance(0.02) && n < 300 {
                1 + c.rng.below(700)
            } else {
                1 + c.rng.below(12)
            };
            let s = series(&mut c.rng, len, Wild::No);
            let v = s.v;
            let mut one = CompressedStream::new();
            let e = efrac(pick_err(&mut c.rng));
            if comp == Compressor::Auto || c.rng.chance(0.5) {
                cs.compress_chunk_bounded_with(&v, comp, e, 0);
                one.compress_chunk_bounded_with(&v, comp, e, 0);
            } else if c.rng.chance(0.2) {
                cs.compress_chunk(&v);
                one.compress_chunk(&v);
            } else {
                cs.compress_chunk_with(&v, comp);
                one.compress_chunk_with(&v, comp);
            }
            own.extend(one.decompress());
            let hc = cs.header.get_frame_count() as usize;
            if hc != (j + 1).min(255) {
                return Err(format!("after {} frames the header says {hc}", j + 1));
            }
        }
        let direct = cs.decompress();
        let bytes = cs.clone().to_bytes();
        let again = cs.to_bytes();
        let mut back = CompressedStream::from_bytes(&bytes);
        let hc = back.header.get_frame_count() as usize;
        if hc != n.min(255) {
            return Err(format!("{n} frames: header read back says {hc}"));
        }
        let o = back.decompress();
        let twice = CompressedStream::from_bytes(&back.clone().to_bytes()).decompress();
        Ok((own, direct, o, twice, bytes, again, kinds))
    });
    let (own, direct, o, twice, bytes, again, kinds) = match r {
        Ok(Ok(x)) => x,
        Ok(Err(m)) => return fail(m, format!("{n} frames")),
        Err(p) => return fail(format!("stream of {n} frames: panic {p}"), format!("{n} frames")),
    };
    if bytes != again {
        return fail(format!("{n} frames: a clone serialises differently"), "");
    }
    for (name, x) in [("before serialisation", &direct), ("after reading back", &o), ("after a second round", &twice)] {
        if !same_bits(&own, x) {
            return fail(format!("{n} frames: stream {name} differs from its frames: {}", first_diff(&own, x)), "");
        }
    }
    for (k, cnt) in kinds.iter().enumerate() {
        c.local.add(&format!("frames_{}", cname(all_compressors()[k])), *cnt);
    }
    c.local.add("frames_total", n as u64);
    c.local.max("frames_in_a_stream", n as u64);
    if n > 255 {
        c.count("streams_beyond_255_frames");
    }
    if n > 1 {
        c.local.hit(hash_bytes(10, &bytes));
    }
    c.local.sample(|| format!("{n} frames, {} bytes", bytes.len()));
    Ok(())
}
fn c10_counts(c: &mut Case) -> Res {
    let n = c.idx as usize;
    c10_run(c, n)
}
fn c10_many(c: &mut Case) -> Res {
    let n = if c.idx % if c.tier == Tier::Thorough { 10 } else { 600 } == 1 { 65530 + c.rng.below(12) } else { 256 + c.rng.below(2500) };
    c10_run(c, n)
}

// ---------------------------------------------------------------------------------------------- C22
fn c22_case(c: &mut Case) -> Res {
    let sz = pick_size(&mut c.rng, 0.004);
    let n = pick_len(&mut c.rng, sz);
    let s = series(&mut c.rng, n, Wild::Some);
    let e = pick_err(&mut c.rng);
    let frac = if c.rng.chance(0.15) { (c.rng.f() * 0.3) as f32 } else { efrac(e) };
    let (o, b) = trip(&s.v, Compressor::Auto, Some(frac), 0)?;
    let _ = o;
    if all_equal(&s.v) {
        // magic, version, count, frames, frame size, samples, tag, payload length: at most 19 bytes around the payload
        if b.len() > 16 + 19 {
            return fail(format!("constant frame of {n} samples of {:e} takes {} bytes", s.v[0], b.len()), dump(&s.v));
        }
        c.count("constant_frames");
        return Ok(());
    }
    let (lo, hi) = min_max(&s.v);
    if lo.abs().max(hi.abs()) > 1e300 {
        c.count("skipped_extreme");
        return Ok(());
    }
    let lim = frac as f64;
    let mut eligible = 0;
    for comp in [Compressor::FFT, Compressor::Polynomial, Compressor::RLE] {
        let (co, cb) = trip(&s.v, comp, Some(frac), 0)?;
        if co.len() != n {
            continue;
        }
        let m = mape(&s.v, &co);
        if m == 0.0 || m <= lim * (1.0 - 1e-9) {
            eligible += 1;
            if b.len() > cb.len() {
                return fail(
                    format!("auto at {frac} takes {} bytes, {} within the target (error {m:e}) takes {}; input {}", b.len(), cname(comp), cb.len(), s.desc),
                    dump(&s.v),
                );
            }
            c.local.count(&format!("compared_with_{}", cname(comp)));
        }
    }
    c.local.count(&format!("eligible_{eligible}"));
    c.local.count(&format!("chosen_{}", frame_tag(&b)));
    c.local.hit(hash_f64s(frac.to_bits() as u64, &s.v));
    c.local.sample(|| format!("auto e={frac} {}: {} bytes, {eligible} eligible candidates", s.desc, b.len()));
    Ok(())
}
fn c22_const(c: &mut Case) -> Res {
    let n = if c.rng.chance(0.3) { *c.rng.pick(LARGE_LENS) } else { 1 + c.rng.below(5000) };
    let x = if c.rng.chance(0.5) { *c.rng.pick(EDGE_VALUES) } else { f64::from_bits(c.rng.u64()) };
    let x = if x.is_finite() { x } else { 1.5 };
    let e = pick_err(&mut c.rng);
    let level = c.rng.below(7);
    let (o, b) = trip(&vec![x; n], Compressor::Auto, Some(efrac(e)), level)?;
    if b.len() > 16 + 19 {
        return fail(format!("constant frame of {n} samples of {x:e} at error {e} takes {} bytes", b.len()), "");
    }
    if o.len() != n || o.iter().any(|y| *y != x) {
        return fail(format!("constant frame of {n} samples of {x:e} does not come back"), "");
    }
    c.count("constant_frames");
    c.local.max("constant_stream_bytes", b.len() as u64);
    c.local.hit(hash_f64s(n as u64, &[x]));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C23
fn c23_case(c: &mut Case) -> Res {
    let idw = c.idx % 3 == 2;
    let sz = pick_size(&mut c.rng, if idw { 0.0 } else { 0.004 });
    let mut n = pick_len(&mut c.rng, sz);
    if idw {
        n = n.min(if c.rng.chance(0.05) { 1500 } else { 300 });
    }
    c23_run(c, n, idw)
}
/// long frames: many stored points
fn c23_long(c: &mut Case) -> Res {
    let n = if c.rng.chance(0.3) { *c.rng.pick(LARGE_LENS) } else { 5000 + c.rng.below(126072) };
    c23_run(c, n, false)
}
fn c23_run(c: &mut Case, n: usize, idw: bool) -> Res {
    let mut s = series(&mut c.rng, n, Wild::Some);
    s.v.iter_mut().for_each(|x| *x = if x.abs() < 1e300 { *x } else { *x * 1e-10 });
    let ty = || if idw { PolynomialType::Idw } else { PolynomialType::Polynomial };
    let bounded = c.rng.chance(0.6);
    let most = if c.rng.chance(0.7) { n.min(20) } else { n };
    let hint = if !bounded && c.rng.chance(0.4) { 1 + c.rng.below(most) } else { 0 };
    let e = pick_err(&mut c.rng) as f64 / 100.0;
    let what = format!(
        "{} {}",
        if idw { "idw" } else { "polynomial" },
        if bounded {
            format!("e={e}")
        } else if hint > 0 {
            format!("with {hint} points")
        } else {
            "plain".into()
        }
    );
    let r = guard(|| {
        let b = if hint > 0 {
            let t = DataStats::new(&s.v);
            let mut p = Polynomial::new(n, t.min, t.max, ty(), t.bitdepth);
            p.compress_hinted(&s.v, hint);
            c.count("with_a_number_of_points");
            p.to_bytes()
        } else if bounded { polynomial_allowed_error(&s.v, e, ty()).compressed_data } else { polynomial(&s.v, ty()) };
        let p = Polynomial::decompress(&b);
        let o = p.to_data(n);
        let via = if idw { Compressor::Idw } else { Compressor::Polynomial }.decompress(n, &b);
        (p.point_step as usize, o, via, p.data_points.len())
    });
    let (step, o, via, k) = r.or_else(|p| fail(format!("{what} panicked: {p}; {}", s.desc), dump(&s.v)))?;
    lens(&s.v, &o, &what)?;
    if !same_bits(&o, &via) {
        return fail(format!("{what}: two ways to decompress differ: {}", first_diff(&o, &via)), dump(&s.v));
    }
    if step == 0 {
        return fail(format!("{what}: recorded spacing 0"), dump(&s.v));
    }
    let mut pos: Vec<usize> = (0..n).step_by(step).collect();
    pos.push(n - 1);
    for i in &pos {
        let (a, b) = (s.v[*i], o[*i]);
        if !((a - b).abs() <= 0.5000001e-5 + 1e-12 * a.abs()) {
            return fail(format!("{what}: sample {i} (spacing {step}, {n} samples) {a:e} came back as {b:e}; {}", s.desc), dump(&s.v));
        }
    }
    c.local.add("stored_positions_checked", pos.len() as u64);
    c.local.count(if k == n { "stored_in_full" } else { "interpolated" });
    if k < n && n > 2 {
        c.local.hit(hash_f64s(c.idx % 3 + 10 * bounded as u64, &s.v));
    }
    c.local.max("spacing", step as u64);
    c.local.sample(|| format!("{what} {} spacing {step}, {k} of {n} stored", s.desc));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C27
fn c27_case(c: &mut Case) -> Res {
    use atsc::utils::error::*;
    let sz = pick_size(&mut c.rng, 0.003);
    let n = pick_len(&mut c.rng, sz);
    let s = series(&mut c.rng, n, Wild::Some);
    let mut a = s.v;
    a.iter_mut().for_each(|x| *x = if x.abs() < 1e140 { *x } else { *x * 1e-170 });
    let mode = c.rng.below(6);
    let b: Vec<f64> = match mode {
        0 => a.clone(),
        1 => a.iter().map(|x| x * (1.0 + 0.1 * c.rng.gauss())).collect(),
        2 => a.iter().map(|x| x + c.rng.gauss()).collect(),
        3 => {
            let mut b = a.clone();
            let p = c.rng.below(n);
            b[p] = c.rng.f() * 10.0;
            b
        }
        4 => {
            let mut r2 = c.rng.clone();
            series(&mut r2, n, Wild::No).v
        }
        _ => a.iter().map(|x| if *x == 0.0 { 0.0 } else { -x }).collect(),
    };
    let ok = |x: f64, y: f64| x == y || (x - y).abs() <= 1e-9 * x.abs().max(y.abs()) + 1e-300;
    let nan_free = |x: f64| !x.is_nan();
    let inp = || format!("{} | {}", dump(&a), dump(&b));
    let m = mape(&a, &b);
    for (name, got) in [
        ("calculate_error", guard(|| calculate_error(&a, &b))),
        ("error_mape", guard(|| error_mape(&a, &b))),
        ("ErrorMethod::default", guard(|| ErrorMethod::default().error(&a, &b))),
        ("ErrorMethod::Mape", guard(|| ErrorMethod::Mape.error(&a, &b))),
    ] {
        let got = got.or_else(|p| fail(format!("{name} panicked: {p}"), inp()))?;
        if !ok(got, m) {
            return fail(format!("{name} gives {got:e}, the definition {m:e} (mode {mode}, {n} samples, {} zeros)", a.iter().filter(|x| **x == 0.0).count()), inp());
        }
    }
    let sum = |f: &dyn Fn(f64, f64) -> f64| {
        let (mut s, mut k) = (0.0f64, 0.0f64);
        for (x, y) in a.iter().zip(&b) {
            let t = f(*x, *y) - k;
            let u = s + t;
            k = (u - s) - t;
            s = u;
        }
        s
    };
    let se = sum(&|x, y| (x - y) * (x - y));
    let sq = sum(&|x, _| x * x);
    let sa = sum(&|x, y| (x - y).abs());
    let inv = n as f64;
    let both = sum(&|x, y| x.abs() + y.abs());
    let tests: [(&str, fn(&[f64], &[f64]) -> f64, ErrorMethod, f64); 4] = [
        ("mse", error_mse, ErrorMethod::Mse, se / inv),
        ("nmse", error_nmsqe, ErrorMethod::Nmse, se / sq),
        ("mae", error_mae, ErrorMethod::Mae, sa / inv),
        ("smape", error_smape, ErrorMethod::Smape, sa / both / inv),
    ];
    for (name, f, me, want) in tests {
        if !nan_free(want) || (name == "nmse" && sq < 1e-280) {
            continue;
        }
        let g = guard(|| (f(&a, &b), me.error(&a, &b))).or_else(|p| fail(format!("{name} panicked: {p}"), inp()))?;
        if !ok(g.0, want) || !ok(g.1, want) {
            return fail(format!("{name} gives {:e} / {:e}, the definition {want:e} ({n} samples, mode {mode})", g.0, g.1), inp());
        }
        c.count("textbook_values_compared");
    }
    // different lengths never get a value
    let short = &b[..n - 1 - c.rng.below(n.min(3)).min(n - 1)];
    let fs: [fn(&[f64], &[f64]) -> f64; 6] = [calculate_error, error_mse, error_mae, error_mape, error_nmsqe, error_smape];
    for (i, f) in fs.iter().enumerate() {
        for (x, y) in [(&a[..], short), (short, &a[..])] {
            if let Ok(v) = guard(|| f(x, y)) {
                return fail(format!("measure {i} gives {v:e} for lengths {} and {}", x.len(), y.len()), inp());
            }
        }
    }
    if a.contains(&0.0) {
        c.count("pairs_with_zero_originals");
    }
    c.local.count(&format!("mode_{mode}"));
    if mode != 0 {
        c.local.hit(hash_f64s(hash_f64s(27, &a), &b));
    }
    c.local.sample(|| format!("{} against mode {mode}: {m:e}", s.desc));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C28
fn energies(v: &[f64]) -> (Vec<f64>, usize) {
    // single-precision input grid with the documented padding
    let (a, b) = refdec::padding(v.len());
    let m = a + v.len() + b;
    let mut x: Vec<refdec::C> = Vec::with_capacity(m);
    for _ in 0..a {
        x.push(refdec::C { re: v[0], im: 0.0 });
    }
    for y in v {
        x.push(refdec::C { re: *y, im: 0.0 });
    }
    for _ in 0..b {
        x.push(refdec::C { re: v[v.len() - 1], im: 0.0 });
    }
    let s = refdec::dft(&x, -1.0);
    let e = (0..=m / 2)
        .map(|k| {
            let p = s[k].re * s[k].re + s[k].im * s[k].im;
            if k == 0 || 2 * k == m {
                p / m as f64
            } else {
                2.0 * p / m as f64
            }
        })
        .collect();
    (e, m)
}
fn norms_from(e: &[f64], m: usize) -> Vec<f64> {
    e.iter().enumerate().map(|(k, x)| if k == 0 || 2 * k == m { *x } else { x / 2.0 }).collect()
}
/// The most energy that keeping some k strongest frequencies can leave out: frequencies whose strength differs
/// by less than single-precision noise may be ranked either way.
fn worst_dropped(nz: &[f64], e: &[f64], k: usize) -> f64 {
    if k >= nz.len() {
        return 0.0;
    }
    let mut order: Vec<usize> = (0..nz.len()).collect();
    order.sort_by(|x, y| nz[*y].partial_cmp(&nz[*x]).unwrap());
    let d = 1e-5 * nz[order[0]];
    if k == 0 {
        return e.iter().sum();
    }
    let t = nz[order[k - 1]];
    let sure = order.iter().filter(|i| nz[**i] > t + d).count();
    let mut band: Vec<f64> = order.iter().filter(|i| (nz[**i] - t).abs() <= d).map(|i| e[*i]).collect();
    band.sort_by(|x, y| y.partial_cmp(x).unwrap());
    let out: f64 = order.iter().filter(|i| nz[**i] < t - d).map(|i| e[*i]).sum();
    out + band[..band.len() - (k - sure)].iter().sum::<f64>()
}

fn c28_case(c: &mut Case) -> Res {
    let n = match c.rng.below(10) {
        0..=4 => *c.rng.pick(EDGE_LENS),
        5..=6 => 1 + c.rng.below(300),
        7..=8 => 1 + c.rng.below(1500),
        _ => *c.rng.pick(&MED_LENS[..30]),
    };
    let kind = c.rng.below(3);
    c28_run(c, n, kind)
}
/// frames up to the maximum size: their highest frequencies have positions beyond 16 bits
fn c28_long(c: &mut Case) -> Res {
    let n = match c.rng.below(7) {
        6 => 131073 + c.rng.below(150000),
        0..=2 => 131072,
        3 => 124416 + c.rng.below(6657),
        4 => *c.rng.pick(LARGE_LENS),
        _ => 5000 + c.rng.below(126073),
    };
    let kind = [1, 1, 3, 3, 0, 2][c.rng.below(6)];
    c28_run(c, n, kind)
}
fn c28_run(c: &mut Case, n: usize, kind: usize) -> Res {
    use atsc::compressor::fft::{fft, fft_allowed_error, fft_set, fft_to_data, FFT};
    let entry = c.idx % 5;
    let tau = std::f64::consts::TAU;
    // strengths are compared in single precision: far from 1 as well
    let mag = if c.rng.chance(0.2) { 10f64.powf(c.rng.f() * 36.0 - 9.0) } else { 1.0 };
    let (mut v, mut desc) = if kind != 2 {
        // constant plus a few sinusoids on the frame's grid
        let (a, b) = refdec::padding(n);
        let m = a + n + b;
        let k = 1 + c.rng.below(4);
        let off = 20.0 + 50.0 * c.rng.f();
        let mut v = vec![off; n];
        for _ in 0..k {
            let f = 1 + c.rng.below((m / 2).max(1));
            let f = match kind {
                0 => f.min(1 + c.rng.below(12)),
                3 => (m / 2 - c.rng.below(1 + m / 36)).max(1),
                _ => f,
            };
            if f > 65535 {
                c.count("frequencies_beyond_16_bits");
            }
            let am = 0.5 + 4.0 * c.rng.f();
            let ph = c.rng.f() * tau;
            for (i, x) in v.iter_mut().enumerate() {
                *x += am * (tau * f as f64 * (i + a) as f64 / m as f64 + ph).cos();
            }
        }
        (v, format!("constant plus {k} sinusoids n={n}"))
    } else {
        let mut s = series(&mut c.rng, n, Wild::No);
        s.v.iter_mut().for_each(|x| *x = if x.abs() < 1e12 { *x } else { 1e12 });
        s.v.iter_mut().for_each(|x| *x = if mag == 1.0 { *x } else { *x % 100.0 });
        (s.v, s.desc)
    };
    if mag != 1.0 {
        v.iter_mut().for_each(|x| *x *= mag);
        desc += &format!(" times {mag:e}");
        c.count("unusual_magnitudes");
    }
    let (e, m) = energies(&v);
    let full = m / 2 + 1;
    let k = match entry {
        0 => full + c.rng.below(3),
        1 => 2 + c.rng.below(full),
        2 => (n / 100).max(3),
        3 => 2 + c.rng.below(8),
        _ => 0,
    };
    let (lo, hi) = min_max(&v);
    let scale = lo.abs().max(hi.abs());
    let r = guard(|| match entry {
        0 | 1 | 3 => {
            let b = fft_set(&v, k);
            (fft_to_data(n, &b), k, f64::NAN)
        }
        2 => {
            let b = if c.rng.chance(0.5) { fft(&v) } else { Compressor::FFT.compress(&v) };
            (Compressor::FFT.decompress(n, &b), k, f64::NAN)
        }
        _ => {
            // a target of zero keeps adding frequencies
            let t = [0.0, 1e-6, 0.001, 0.02][c.rng.below(4)];
            let r = fft_allowed_error(&v, t);
            let kept = FFT::decompress(&r.compressed_data).frequencies.len();
            (fft_to_data(n, &r.compressed_data), kept, r.error)
        }
    });
    let what = format!("entry {entry} keeping {k} of {full} frequencies, {desc}");
    let (o, k, _) = r.or_else(|p| fail(format!("{what}: panic {p}"), dump(&v)))?;
    lens(&v, &o, &what)?;
    // Parseval: what the k strongest frequencies leave out bounds the squared error on the real samples
    let nz = norms_from(&e, m);
    let dropped = worst_dropped(&nz, &e, k);
    let total: f64 = e.iter().sum();
    let err2: f64 = v.iter().zip(&o).map(|(a, b)| (a - b) * (a - b)).sum();
    let unit = 1e-5 + 4e-6 * scale;
    // ties in strength are broken by single-precision noise: allow the noise of the transform
    let noise = unit * unit * n as f64 + 1e-10 * total * (1.0 + k as f64).sqrt();
    let lim = dropped * 1.0001 + 2.0 * (dropped * noise).sqrt() + noise;
    let equal32 = lo as f32 == hi as f32;
    if !equal32 && !(err2 <= lim) {
        return fail(
            format!("{what}: squared error {err2:e}, the kept frequencies leave out only {dropped:e} (limit {lim:e})"),
            dump(&v),
        );
    }
    if k >= full && !equal32 {
        let w = v.iter().zip(&o).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
        let tol = 1e-5 + 2e-5 * scale;
        if !(w <= tol) {
            return fail(format!("{what}: all frequencies kept, worst deviation {w:e} (limit {tol:e})"), dump(&v));
        }
        c.count("full_spectrum_round_trips");
    }
    if dropped <= 1e-9 * total {
        c.count("signals_within_kept_frequencies");
    }
    c.local.count(&format!("entry_{entry}"));
    c.count(if m == n { "unpadded" } else { "padded" });
    if !all_equal(&v) {
        c.local.hit(hash_f64s(entry * 1000 + k as u64, &v));
    }
    c.local.sample(|| format!("{what}: squared error {err2:e} limit {lim:e}"));
    Ok(())
}
/// every frame length, full spectrum through the hinted entry
fn c28_lengths(c: &mut Case) -> Res {
    use atsc::compressor::fft::{fft_set, fft_to_data};
    let n = 2 + c.idx as usize;
    let v: Vec<f64> = (0..n).map(|i| 50.0 + 20.0 * (i as f64 * 0.37).sin() + ((i * 37) % 11) as f64).collect();
    let full = {
        let (a, b) = refdec::padding(n);
        (a + n + b) / 2 + 1
    };
    let o = guard(|| fft_to_data(n, &fft_set(&v, full))).or_else(|p| fail(format!("length {n}: panic {p}"), dump(&v)))?;
    lens(&v, &o, "full spectrum")?;
    let w = v.iter().zip(&o).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
    if !(w <= 2e-3) {
        return fail(format!("length {n}: all {full} frequencies kept, worst deviation {w:e}"), dump(&v));
    }
    c.count("lengths_enumerated");
    c.local.hit(mix(n as u64));
    Ok(())
}

pub fn phases(id: &str) -> Option<(Vec<Phase>, Meta)> {
    let p = |name, quick, thorough, f| Phase { name, quick, thorough, threads: 0, f };
    let m = |rule| Meta { level: "exploration", rule, assumptions: &[] };
    Some(match id {
        "C01" => (
            vec![p("sampling", 17500, 262500, c01_sampling as fn(&mut Case) -> Res), p("random", 112000, 1680000, c01_random), p("plan", 1750, 26250, c01_plan)],
            m("random series (34 shapes x magnitudes x lengths 1..131072), error target and sampling level through auto compression; non-trivial: samples not all equal; distinct by series, error and level"),
        ),
        "C02" => (
            vec![p("pairs", (EDGE_VALUES.len() * EDGE_VALUES.len()) as u64, (EDGE_VALUES.len() * EDGE_VALUES.len()) as u64, c02_pairs as fn(&mut Case) -> Res), p("random", 352000, 5280000, c02_case)],
            m("all pairs of boundary values through every lossless configuration, then random series; non-trivial: counted per distinct series and configuration"),
        ),
        "C03" => (vec![p("random", 280000, 4200000, c03_case as fn(&mut Case) -> Res)], m("random series and error targets through forced polynomial and idw; non-trivial: samples not all equal")),
        "C04" => (vec![p("random", 352000, 5280000, c04_case as fn(&mut Case) -> Res)], m("reported error against the measured error of the decompressed bytes; non-trivial: samples not all equal")),
        "C05" => (
            vec![p("lengths", 2 * 1100, 2 * 4200, c05_lengths as fn(&mut Case) -> Res), p("random", 120000, 1800000, c05_case), p("large", 24, 360, c05_large)],
            m("every length from 0 up, random series with non-finite values inserted, multi-frame plans; non-trivial: more than one sample"),
        ),
        "C06" => (vec![p("random", 1000000, 15000000, c06_case as fn(&mut Case) -> Res)], m("random finite series below 2^63 incl. ties and their neighbours; distinct by series")),
        "C07" => (vec![p("random", 352000, 5280000, c07_case as fn(&mut Case) -> Res)], m("every decompressed value against the frame's input range; non-trivial: samples not all equal")),
        "C08" => (
            vec![p("threads", 16000, 240000, c08_case as fn(&mut Case) -> Res), p("alike", 24000, 360000, c08_alike), Phase { name: "processes", quick: 2, thorough: 6, threads: 1, f: c08_process }, Phase { name: "races", quick: 7, thorough: 70, threads: 7, f: crate::p_ub::c08_miri }],
            m("each work item compressed in 4 threads, at a random stream position, in 3 processes in different orders, and tiny items by two threads under Miri; non-trivial: samples not all equal"),
        ),
        "C10" => (
            vec![p("counts", 1040, 5500, c10_counts as fn(&mut Case) -> Res), p("many", 4000, 60000, c10_many)],
            m("streams of 0..519 frames one by one and random larger ones, all compressors mixed; non-trivial: at least two frames; distinct by serialised bytes"),
        ),
        "C22" => (
            vec![p("constant", 12000, 180000, c22_const as fn(&mut Case) -> Res), p("random", 90000, 1350000, c22_case)],
            m("serialised size under automatic selection against each candidate whose measured error is within the target; non-trivial: samples not all equal"),
        ),
        "C23" => (vec![p("long", 400, 6000, c23_long as fn(&mut Case) -> Res), p("random", 420000, 6300000, c23_case)], m("decompressed values at the recorded spacing, first and last position; non-trivial: frame actually interpolated")),
        "C27" => (vec![p("random", 960000, 14400000, c27_case as fn(&mut Case) -> Res)], m("pairs of series; each measure against a compensated textbook computation; non-trivial: the series differ")),
        "C28" => (
            vec![p("lengths", 2400, 36000, c28_lengths as fn(&mut Case) -> Res), p("long", 120, 4000, c28_long), p("random", 360000, 5400000, c28_case)],
            m("squared error against the energy of the dropped frequencies (Parseval) on the padded grid, per entry point; non-trivial: samples not all equal"),
        ),
        _ => return None,
    })
}
