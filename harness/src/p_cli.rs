//! Whole-program monitors: C18-C21, C24, C25.
use crate::cli::{env_of, io_calls, io_env, run, surroundings, tool, Io, Limits};
use crate::ctx::*;
use crate::gen::*;
use crate::oracle::*;
use crate::p_format::{check_wbro, hex};
use crate::p_series::unpack;
use crate::p_wbro::{bits, scratch};
use crate::rng::*;
use atsc::compressor::Compressor;
use atsc::data::CompressedStream;
use atsc::optimizer::OptimizerPlan;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use wavbrro::wavbrro::WavBrro;

pub const KINDS: [(&str, Compressor); 7] = [
    ("auto", Compressor::Auto),
    ("noop", Compressor::Noop),
    ("fft", Compressor::FFT),
    ("constant", Compressor::Constant),
    ("polynomial", Compressor::Polynomial),
    ("idw", Compressor::Idw),
    ("rle", Compressor::RLE),
];

/// What the documentation of the command line says the library does with a series.
pub fn library(v: &[f64], comp: Compressor, e: u8, level: u8) -> Vec<u8> {
    let mut op = OptimizerPlan::plan(v);
    op.set_compressor(comp);
    let mut cs = CompressedStream::new();
    for (k, d) in op.get_execution() {
        match comp {
            Compressor::FFT | Compressor::Polynomial | Compressor::Idw | Compressor::Auto => {
                cs.compress_chunk_bounded_with(d, k.to_owned(), e as f32 / 100.0, level as usize)
            }
            _ => cs.compress_chunk_with(d, k.to_owned()),
        }
    }
    cs.to_bytes()
}

pub fn work(c: &Case) -> (crate::p_wbro::Dir, PathBuf) {
    let d = scratch(c);
    let w = d.0.join("w");
    std::fs::create_dir_all(&w).expect("HARNESS: scratch");
    (d, w)
}
pub fn put(p: &Path, b: impl AsRef<[u8]>) {
    std::fs::write(p, b).expect("HARNESS: scratch write");
}
pub fn get(p: &Path) -> Option<Vec<u8>> {
    std::fs::read(p).ok()
}
/// Every file below a directory, with its content.
pub fn snapshot(d: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(d).expect("HARNESS: scratch") {
        let e = e.expect("HARNESS: scratch").path();
        let name = e.file_name().unwrap().to_string_lossy().into_owned();
        if e.is_dir() {
            for (k, v) in snapshot(&e) {
                m.insert(format!("{name}/{k}"), v);
            }
            m.insert(format!("{name}/"), vec![]);
        } else if let Some(to) = std::fs::read_link(&e).ok().filter(|_| !e.exists()) {
            m.insert(name, format!("-> {}", to.display()).into_bytes());
        } else {
            m.insert(name, std::fs::read(&e).expect("HARNESS: scratch"));
        }
    }
    m
}
pub fn wbro_bytes(v: &[f64]) -> Vec<u8> {
    let mut b = b"WBRO0000WBRO".to_vec();
    let mut w = WavBrro::new();
    for x in v {
        w.add_sample(*x);
    }
    b.extend_from_slice(&w.to_bytes());
    b
}
/// A number as text that reads back as exactly that number.
fn text(r: &mut Rng, x: f64, style: usize) -> String {
    if x.is_nan() {
        return "NaN".into();
    }
    if x.is_infinite() {
        return if x > 0.0 { ["inf", "Infinity", "+inf"][r.below(3)].into() } else { ["-inf", "-Infinity"][r.below(2)].into() };
    }
    match style {
        0 => format!("{x}"),
        1 => format!("{x:e}"),
        2 => format!("{x:E}"),
        3 => {
            let s = format!("{x:?}");
            if s.contains('e') {
                s
            } else if s.contains('.') {
                s + "000"
            } else {
                s + ".0"
            }
        }
        4 if x >= 0.0 && x.is_sign_positive() => format!("+{x}"),
        5 => format!("{x:.17e}"),
        _ => format!("{x}"),
    }
}
fn with_gaps(r: &mut Rng, v: &mut [f64]) {
    if r.chance(0.2) {
        for _ in 0..1 + r.below(4) {
            let i = r.below(v.len());
            v[i] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][r.below(3)];
        }
    }
}
fn pick_cli_len(r: &mut Rng) -> usize {
    match r.below(20) {
        0..=5 => 1 + r.below(12),
        6..=15 => pick_len(r, Size::Small),
        16..=18 => pick_len(r, Size::Medium).min(3000),
        _ => 1 + r.below(9000),
    }
}
fn err_args(r: &mut Rng, e: u8, level: u8, default: u8) -> Vec<String> {
    let mut a = vec![];
    if e != default || r.chance(0.5) {
        a.extend(match r.below(3) {
            0 => vec!["-e".to_string(), e.to_string()],
            1 => vec![format!("--error={e}")],
            _ => vec![format!("-e{e}")],
        });
    }
    if level != 0 || r.chance(0.3) {
        a.extend(match r.below(2) {
            0 => vec!["-c".to_string(), level.to_string()],
            _ => vec!["--compression-selection-sample-level".to_string(), level.to_string()],
        });
    }
    a
}
fn pick_setting(r: &mut Rng, default: u8) -> (usize, u8, u8) {
    let k = if r.chance(0.35) { 0 } else { r.below(7) };
    let e = if r.chance(0.25) { default } else { crate::p_series::pick_err(r) };
    let level = if r.chance(0.5) { 0 } else { r.below(7) as u8 };
    (k, e, level)
}

// ---------------------------------------------------------------------------------------------- C24
fn c24_case(c: &mut Case) -> Res {
    let (_d, w) = work(c);
    let r = &mut c.rng;
    let default = if r.chance(0.5) { 3 } else { 5 };
    let (k, e, level) = pick_setting(r, default);
    let (name, comp) = KINDS[k];
    let mut n = pick_cli_len(r);
    if comp == Compressor::Idw {
        n = n.min(300)
    }
    if comp == Compressor::RLE {
        n = n.min(3000)
    }
    if r.chance(0.004) {
        n = 131_072 + r.below(3000);
    }
    let k_auto = matches!(comp, Compressor::Idw | Compressor::RLE);
    if k_auto {
        n = n.min(3000)
    }
    let wild = if r.chance(0.3) { Wild::Some } else { Wild::No };
    let s = series(r, n, wild);
    let mut v = s.v;
    if comp == Compressor::FFT {
        // beyond single precision FFT computes NaNs, whose sign bit is left open by the language
        v.iter_mut().filter(|x| x.abs() >= 1e30).for_each(|x| *x = x.signum() * 1e29);
    }
    with_gaps(r, &mut v);
    let what = format!("{name} -e {e} -c {level} on {} ({} samples)", s.desc, n);
    let lib = guard(|| library(&v, comp, e, level)).or_else(|p| fail(format!("{what}: the library panics: {p}"), dump(&v)))?;
    let nums = guard(|| unpack(&lib)).or_else(|p| fail(format!("{what}: the library cannot read its stream: {p}"), dump(&v)))?;
    let atsc = tool(&c.ctx.bin, "atsc");
    let l = Limits::default();
    let verbose = r.chance(0.1);
    let around = surroundings(r, n);
    if !around.is_empty() {
        c.local.count("series_in_other_surroundings");
    }
    let r = &mut c.rng;
    let check = |c: &mut Local, how: &str, res: crate::cli::Run, input: &Path, before: &[u8], out: &Path| -> Res {
        if !res.ok() {
            return fail(format!("{how}: {what}: {}", res.how()), dump(&v));
        }
        if get(input).as_deref() != Some(before) {
            return fail(format!("{how}: {what}: the input file was changed"), dump(&v));
        }
        match get(out) {
            None => return fail(format!("{how}: {what}: no output file"), dump(&v)),
            Some(b) if b != lib => {
                let at = b.iter().zip(&lib).position(|(a, b)| a != b).unwrap_or(b.len().min(lib.len()));
                return fail(format!("{how}: {what}: output differs from the library's at byte {at} ({} and {} bytes)", b.len(), lib.len()), dump(&v));
            }
            _ => {}
        }
        c.count(&format!("agree_{how}"));
        Ok(())
    };
    let base_args = |r: &mut Rng, default: u8| {
        let mut a: Vec<String> = vec![];
        if k != 0 || r.chance(0.3) {
            a.extend(["--compressor".to_string(), name.to_string()]);
        }
        a.extend(err_args(r, e, level, default));
        if verbose {
            a.push("--verbose".into());
        }
        a
    };
    // WBRO
    let inp = w.join("one.wbro");
    let wb = wbro_bytes(&v);
    put(&inp, &wb);
    if r.chance(0.3) {
        put(&w.join("one.bro"), vec![7u8; lib.len() + 100]);
    }
    let mut a = base_args(r, 3);
    let p = if r.chance(0.3) { inp.to_string_lossy().into_owned() } else { "one.wbro".into() };
    a.insert(r.below(2) * a.len(), p);
    let res = run(&atsc, &a, &w, l, &around);
    check(c.local, "wbro", res, &inp, &wb, &w.join("one.bro"))?;
    // back
    let res = run(&atsc, &["-u", "one.bro"], &w, l, &around);
    if !res.ok() {
        return fail(format!("atsc -u: {what}: {}", res.how()), dump(&v));
    }
    if get(&w.join("one.bro")).as_deref() != Some(&lib[..]) {
        return fail(format!("atsc -u: {what}: the input file was changed"), dump(&v));
    }
    check_wbro(&w.join("one.wbro"), &nums, false).or_else(|m| fail(format!("atsc -u: {what}: {m}"), dump(&v)))?;
    c.local.count("agree_decompressed");
    // CSV with header
    let r = &mut c.rng;
    let style = r.below(6);
    let (tn, vn) = *r.pick(&[("time", "value"), ("timestamp", "v"), ("t", "the value"), ("Zeit", "Wert")]);
    let swap = r.chance(0.4);
    let extra = r.chance(0.3);
    let mut t = String::new();
    let row = |a: &str, b: &str, x: &str| {
        let mut f = if swap { vec![b, a] } else { vec![a, b] };
        if extra {
            f.insert(1, x);
        }
        f.join(",") + "\n"
    };
    t += &row(tn, vn, "other");
    for (i, x) in v.iter().enumerate() {
        t += &row(&format!("{}", i * 7), &text(r, *x, style), "x");
    }
    let inp = w.join("two.csv");
    put(&inp, &t);
    let mut a = base_args(r, 3);
    a.extend(["--csv".to_string(), "two.csv".to_string()]);
    if (tn, vn) != ("time", "value") || r.chance(0.3) {
        a.push(format!("--fields={tn},{vn}"));
    }
    let res = run(&atsc, &a, &w, l, &around);
    check(c.local, "csv", res, &inp, t.as_bytes(), &w.join("two.bro"))?;
    // CSV without header
    let mut t = String::new();
    for x in &v {
        t += &text(r, *x, style);
        t.push('\n');
    }
    let inp = w.join("three.csv");
    put(&inp, &t);
    let mut a = base_args(r, 3);
    a.extend(["--csv".to_string(), "--no-header".to_string(), "three.csv".to_string()]);
    let res = run(&atsc, &a, &w, l, &around);
    check(c.local, "csv_no_header", res, &inp, t.as_bytes(), &w.join("three.bro"))?;
    // csv-compressor
    if comp != Compressor::RLE && n <= 86_400 {
        let mut t = "timestamp,value\n".to_string();
        for (i, x) in v.iter().enumerate() {
            t += &format!("{},{}\n", i * 1000, text(r, *x, style));
        }
        let inp = w.join("four.csv");
        put(&inp, &t);
        let mut a = vec![];
        if k != 0 || r.chance(0.3) {
            a.extend(["--compressor".to_string(), name.to_string()]);
        }
        a.extend(err_args(r, e, level, 5));
        a.push("four.csv".into());
        let out = if r.chance(0.4) {
            a.extend(["--output".to_string(), "five".to_string()]);
            w.join("five.bro")
        } else {
            w.join("four.bro")
        };
        let res = run(&tool(&c.ctx.bin, "csv-compressor"), &a, &w, l, &around);
        check(c.local, "csv_compressor", res, &inp, t.as_bytes(), &out)?;
    }
    c.local.count(&format!("settings_{name}"));
    if !all_equal(&v) {
        c.local.hit(hash_f64s(k as u64 * 1000 + e as u64 * 7 + level as u64, &v));
    }
    c.local.sample(|| what.clone());
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C18
fn c18_case(c: &mut Case) -> Res {
    let (_d, w) = work(c);
    let r = &mut c.rng;
    let n = if r.chance(0.01) { 20_000 + r.below(60_000) } else { pick_cli_len(r) };
    // seconds of the day
    let mut secs: Vec<i64> = Vec::with_capacity(n);
    let kind = r.below(6);
    let mut t = match r.below(5) {
        0 => 0,
        1 => r.range(0, 59),
        _ => r.range(0, 40_000),
    };
    let step = *r.pick(&[1i64, 1, 5, 10, 15, 20, 30, 60, 300]);
    let step = step.min((86_400 / n as i64).max(1));
    for i in 0..n {
        secs.push(t.min(86_399));
        t += match kind {
            0 => step,
            1 => step + if r.chance(0.1) { r.range(-1, 1) } else { 0 },
            2 => if r.chance(0.05) { r.range(0, 2000) } else { step },
            3 => if r.chance(0.3) { 0 } else { step },
            4 => r.range(0, 2 * step),
            _ => if i % (1 + n / 3) == n / 4 { r.range(0, 4000) } else { step },
        };
    }
    if r.chance(0.1) {
        let m = secs.len();
        secs[m - 1] = 86_399;
    }
    let day = match r.below(10) {
        0 => 0,
        1 => -1,
        2 => r.range(-30_000, -1),
        _ => r.range(0, 40_000),
    };
    let (k, e, level) = loop {
        let s = pick_setting(r, 5);
        if s.0 != 6 {
            break s;
        }
    };
    let (name, comp) = KINDS[k];
    let comp_n = if comp == Compressor::Idw { n.min(300) } else { n };
    secs.truncate(comp_n);
    let n = comp_n;
    let mut s = series(r, n, Wild::No);
    if comp == Compressor::Constant {
        let x = s.v[0];
        s.v.iter_mut().for_each(|y| *y = x);
    }
    let mut v = s.v;
    with_gaps(r, &mut v);
    let swap = r.chance(0.2);
    let mut t = if swap { "value,timestamp\n".to_string() } else { "timestamp,value\n".to_string() };
    let style = r.below(4);
    let mut last = 0;
    for (s, x) in secs.iter().zip(&v) {
        // any millisecond of the second, not before the previous row
        let low = if last / 1000 == *s { last % 1000 } else { 0 };
        last = s * 1000 + if r.chance(0.5) { r.range(low, 999) } else { low };
        let ms = day * 86_400_000 + last;
        let x = text(r, *x, style);
        t += &if swap { format!("{x},{ms}\n") } else { format!("{ms},{x}\n") };
    }
    let want: Vec<(i64, f64)> = secs.iter().copied().zip(v.iter().copied()).filter(|x| x.1.is_finite()).collect();
    let what = format!("csv-compressor --compressor {name} -e {e} on {n} rows from second {} by {step} (kind {kind}), values {}", secs[0], s.desc);
    let inp = w.join("in.csv");
    put(&inp, &t);
    let exe = tool(&c.ctx.bin, "csv-compressor");
    let base = if r.chance(0.5) { "in" } else { "other" };
    let mut a: Vec<String> = vec!["in.csv".into(), "--output-vsri".into()];
    if k != 0 || r.chance(0.5) {
        a.extend(["--compressor".to_string(), name.to_string()]);
    }
    a.extend(err_args(r, e, level, 5));
    if base == "other" {
        a.extend(["-o".to_string(), "other".to_string()]);
    }
    let wav = r.chance(0.2);
    let around = surroundings(r, n);
    let around2 = surroundings(r, n);
    if wav {
        a.push("--output-wavbrro".into());
    }
    let dumpin = || t.chars().take(60_000).collect::<String>();
    let res = run(&exe, &a, &w, Limits::default(), &around);
    if !res.ok() {
        return fail(format!("{what}: compressing: {}", res.how()), dumpin());
    }
    if get(&inp).as_deref() != Some(t.as_bytes()) {
        return fail(format!("{what}: compressing changed the input file"), dumpin());
    }
    if wav {
        let finite: Vec<f64> = want.iter().map(|x| x.1).collect();
        check_wbro(&w.join(format!("{base}.wavbro")), &finite, true).or_else(|m| fail(format!("{what}: --output-wavbrro: {m}"), dumpin()))?;
        c.local.count("wavbrro_outputs");
    }
    let bro = match get(&w.join(format!("{base}.bro"))) {
        Some(b) => b,
        None => return fail(format!("{what}: no .bro file"), dumpin()),
    };
    let r = &mut c.rng;
    let mut a: Vec<String> = vec!["-u".into(), format!("{base}.bro")];
    let res_base = if r.chance(0.5) {
        a.extend(["-o".to_string(), "res".to_string()]);
        "res"
    } else {
        base
    };
    let res = run(&exe, &a, &w, Limits::default(), &around2);
    if !res.ok() {
        return fail(format!("{what}: decompressing: {}", res.how()), dumpin());
    }
    if get(&w.join(format!("{base}.bro"))).as_deref() != Some(&bro[..]) {
        return fail(format!("{what}: decompressing changed the .bro file"), dumpin());
    }
    let out = match get(&w.join(format!("{res_base}.csv"))) {
        Some(b) => String::from_utf8_lossy(&b).into_owned(),
        None => return fail(format!("{what}: no CSV output"), dumpin()),
    };
    let mut lines = out.lines();
    let head = lines.next().unwrap_or("");
    if head != "timestamp,value" && !want.is_empty() {
        return fail(format!("{what}: CSV output starts with '{head}'"), dumpin());
    }
    let mut got: Vec<(i64, f64)> = vec![];
    for l in lines {
        match l.split_once(',').and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))) {
            Some(x) => got.push(x),
            None => return fail(format!("{what}: CSV output has the row '{l}'"), dumpin()),
        }
    }
    if got.len() != want.len() {
        return fail(format!("{what}: {} finite rows came back as {}", want.len(), got.len()), dumpin());
    }
    for (i, (g, x)) in got.iter().zip(&want).enumerate() {
        if g.0 != x.0 {
            return fail(format!("{what}: row {i} of second {} came back at second {}", x.0, g.0), dumpin());
        }
    }
    let gv: Vec<f64> = got.iter().map(|x| x.1).collect();
    let wv: Vec<f64> = want.iter().map(|x| x.1).collect();
    let lib = guard(|| unpack(&bro)).or_else(|p| fail(format!("{what}: library cannot read the .bro file: {p}"), dumpin()))?;
    if !same_values(&lib, &gv) {
        return fail(format!("{what}: CSV values differ from what the .bro file holds: {}", first_diff(&lib, &gv)), dumpin());
    }
    check_wbro(&w.join(format!("{res_base}.wbro")), &lib, false).or_else(|m| fail(format!("{what}: {m}"), dumpin()))?;
    match comp {
        Compressor::Noop => {
            for (i, (g, x)) in gv.iter().zip(&wv).enumerate() {
                if *g != x.round() && x.abs() < 9e15 {
                    return fail(format!("{what}: row {i} was {x:e} and came back as {g:e} instead of its rounding"), dumpin());
                }
            }
        }
        Compressor::Constant => {
            if let Some(i) = gv.iter().zip(&wv).position(|(a, b)| a != b) {
                return fail(format!("{what}: constant row {i} was {:e} and came back as {:e}", wv[i], gv[i]), dumpin());
            }
        }
        Compressor::FFT if wv.is_empty() => {}
        Compressor::FFT => {
            let (lo, hi) = min_max(&wv);
            let tol = 1e-6 * lo.abs().max(hi.abs()) + 1e-5;
            if let Some(i) = gv.iter().position(|g| !(*g >= lo - tol && *g <= hi + tol)) {
                return fail(format!("{what}: row {i} came back as {:e}, outside {lo:e}..{hi:e}", gv[i]), dumpin());
            }
        }
        _ => {
            for (g, x) in gv.chunks(131_072).zip(wv.chunks(131_072)) {
                let m = mape(x, g);
                if !(m <= bound(e)) {
                    return fail(format!("{what}: values differ by a mean percentage error of {m:e}"), dumpin());
                }
            }
        }
    }
    if !around.is_empty() || !around2.is_empty() {
        c.local.count("runs_in_other_surroundings");
    }
    c.local.add("rows_compared", got.len() as u64);
    c.local.count(&format!("runs_{name}"));
    if got.len() > 1 {
        c.local.hit(hash_bytes(18, t.as_bytes()));
    }
    c.local.sample(|| what.clone());
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C19
struct Sheet {
    rows: Vec<Vec<String>>,
    header: Option<Vec<String>>,
    val: usize,
    time: usize,
    vals: Vec<f64>,
    eol: &'static str,
    blank: bool,
    final_eol: bool,
    quote: usize,
}
fn field(r: &mut Rng, f: &str, q: usize) -> String {
    let must = f.contains([',', '"', '\n', '\r']) || f.is_empty();
    if must || (q == 1 && r.chance(0.3)) || q == 2 {
        format!("\"{}\"", f.replace('"', "\"\""))
    } else {
        f.to_string()
    }
}
impl Sheet {
    fn text(&self, r: &mut Rng) -> String {
        let mut lines = vec![];
        for row in self.header.iter().chain(&self.rows) {
            lines.push(row.iter().map(|f| field(r, f, self.quote)).collect::<Vec<_>>().join(","));
        }
        let mut t = String::new();
        let n = lines.len();
        for (i, l) in lines.into_iter().enumerate() {
            if self.blank && r.chance(0.2) {
                t += self.eol;
            }
            t += &l;
            if i + 1 < n || self.final_eol {
                t += self.eol;
            }
        }
        t
    }
    fn names(&self) -> (String, String) {
        let h = self.header.as_ref().unwrap();
        (h[self.time].clone(), h[self.val].clone())
    }
}
fn odd_number(r: &mut Rng) -> (String, f64) {
    let x = match r.below(8) {
        0 => f64::from_bits(r.u64()),
        1 => r.range(-1000, 1000) as f64,
        2 => r.gauss() * 10f64.powi(r.range(-300, 300) as i32),
        3 => *r.pick(EDGE_VALUES),
        4 => f64::from_bits(r.u64() >> 13),
        5 => r.range(i64::MIN, i64::MAX) as f64,
        _ => (r.gauss() * 1e4).round() / 100.0,
    };
    let style = r.below(6);
    let s = match r.below(12) {
        0 => format!("{}.{:020}", r.below(1000), r.u64()),
        1 => format!(".{}", r.below(100000)),
        2 => format!("{}.", r.below(100000)),
        3 => format!("-0{}", r.below(100)),
        4 => format!("{}e{}", r.below(100), r.range(-20, 20)),
        _ => text(r, x, style),
    };
    let y = s.parse::<f64>().expect("HARNESS: number text");
    (s, y)
}
fn sheet(r: &mut Rng, header: bool) -> Sheet {
    let cols = if header { 2 + r.below(4) } else { [1, 1, 2, 4][r.below(4)] };
    let (time, val) = if header {
        let t = r.below(cols);
        let mut v = r.below(cols);
        while v == t {
            v = r.below(cols);
        }
        (t, v)
    } else {
        (if cols > 1 { 1 } else { 0 }, 0)
    };
    let n = match r.below(6) {
        0 => r.below(4),
        1 if r.chance(0.005) => 65_000 + r.below(5000),
        1 => 1 + r.below(500),
        _ => 1 + r.below(30),
    };
    let junk = ["", "a", "a,b", "say \"x\"", "two\nlines", "ümläut", "1.5", "  ", "end\r\n", "#1", "# note", ";", "a;b", "'x'", "\\", "a\tb", "NaN", "//", "\u{feff}x", "-"];
    let mut vals = vec![];
    let mut rows = vec![];
    for i in 0..n {
        let mut row = vec![];
        for k in 0..cols {
            row.push(if k == val {
                let (s, y) = odd_number(r);
                vals.push(y);
                s
            } else if k == time {
                format!("{}", 1_600_000_000 + i * 15)
            } else {
                (*r.pick(&junk)).to_string()
            });
        }
        rows.push(row);
    }
    let names = ["time", "value", "timestamp", "v", "Name with space", "x,y", "values", "tim", "#id", "a;b", "'q'", "1.5", "say \"x\""];
    let header = header.then(|| {
        let mut h: Vec<String> = (0..cols).map(|k| format!("col{k}")).collect();
        let mut perm: Vec<&str> = names.to_vec();
        for h in h.iter_mut() {
            if r.chance(0.7) {
                let k = r.below(perm.len());
                *h = perm.remove(k).to_string();
            }
        }
        // Of two columns of one name the first counts.
        if r.chance(0.2) {
            let named = if r.chance(0.7) { val } else { time };
            for k in named + 1..cols {
                if k != val && k != time && r.chance(0.6) {
                    h[k] = h[named].clone();
                }
            }
        }
        h
    });
    Sheet {
        rows,
        header,
        val,
        time,
        vals,
        eol: if r.chance(0.3) { "\r\n" } else { "\n" },
        blank: r.chance(0.2),
        final_eol: r.chance(0.8),
        quote: r.below(3),
    }
}
fn read_lib(p: &Path, names: Option<(&str, &str)>) -> Result<Result<Vec<f64>, String>, String> {
    guard(|| match names {
        Some((t, v)) => atsc::csv::read_samples_with_headers(p, t, v),
        None => atsc::csv::read_samples(p),
    }
    .map(|s| s.into_iter().map(|x| x.value).collect())
    .map_err(|e| e.to_string()))
}
fn same_number(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn c19_good(c: &mut Case) -> Res {
    let (_d, w) = work(c);
    let header = c.rng.chance(0.6);
    let s = sheet(&mut c.rng, header);
    let t = s.text(&mut c.rng);
    let p = w.join("a.csv");
    put(&p, &t);
    let names = header.then(|| s.names());
    let got = read_lib(&p, names.as_ref().map(|x| (x.0.as_str(), x.1.as_str())))
        .or_else(|m| fail(format!("reading a well-formed CSV panicked: {m}"), t.clone()))?
        .or_else(|m| fail(format!("a well-formed CSV ({} rows, header {:?}) was refused: {m}", s.rows.len(), s.header), t.clone()))?;
    if got.len() != s.vals.len() {
        return fail(format!("{} rows read as {} values", s.vals.len(), got.len()), t);
    }
    for (i, (g, x)) in got.iter().zip(&s.vals).enumerate() {
        if !same_number(*g, *x) {
            return fail(format!("row {i}: '{}' was read as {g:e}", s.rows[i][s.val]), t);
        }
    }
    c.local.add("values_compared", got.len() as u64);
    c.count(if header { "well_formed_with_header" } else { "well_formed_without_header" });
    if got.len() > 1 {
        c.local.hit(hash_bytes(19, t.as_bytes()));
    }
    c.local.sample(|| t.chars().take(160).collect());
    Ok(())
}
/// one defect in an otherwise well-formed file
fn spoil(r: &mut Rng, header: bool) -> (Vec<u8>, Option<(String, String)>, &'static str) {
    loop {
        let mut s = sheet(r, header);
        let mut names = header.then(|| s.names());
        let n = s.rows.len();
        let kind = r.below(8);
        if n < 2 && kind != 0 {
            continue;
        }
        let at = r.below(n.max(1));
        let at2 = if r.chance(0.5) { n.saturating_sub(1) } else { at };
        let what = match kind {
            0 => {
                let Some(nm) = names.as_mut() else { continue };
                let h = s.header.as_ref().unwrap();
                let bad = loop {
                    let b = *r.pick(&["missing", "Time", "VALUE", "valu", "values ", "", "col9", " value"]);
                    if !h.iter().any(|x| x == b) {
                        break b.to_string();
                    }
                };
                if r.chance(0.5) {
                    nm.0 = bad
                } else {
                    nm.1 = bad
                }
                "missing column"
            }
            1 | 2 => {
                s.rows[at2][s.val] = r
                    .pick(&["", "abc", "1,5", "0x10", "1_000", "1.2.3", "--1", "1e", "e5", "1 2", "NULL", "true", "1.5f", "٣", "-", ".", "+", "1e5.5", "12:30"])
                    .to_string();
                // a single empty field on its own line would be an empty line
                if s.rows[at2].len() == 1 && s.rows[at2][0].is_empty() {
                    s.rows[at2][0] = "x".into();
                }
                "unparsable value"
            }
            3 => {
                if s.rows[at2].len() == 1 {
                    continue;
                }
                s.rows[at2].pop();
                "row with a field missing at the end"
            }
            4 => {
                s.rows[at2].push("1".into());
                if n == 1 && s.header.is_none() {
                    continue;
                }
                "row with one field too many"
            }
            5 => {
                if s.rows[at2].len() < 2 {
                    continue;
                }
                let k = r.below(s.rows[at2].len());
                s.rows[at2].remove(k);
                "row with a field missing"
            }
            _ => {
                let t = s.text(r);
                // invalid UTF-8 inside a data row: in place of a digit of the time or value column
                let mut b = t.into_bytes();
                let from = b.iter().position(|x| *x == b'\n').unwrap_or(0);
                let cand: Vec<usize> = (from..b.len()).filter(|i| b[*i].is_ascii_digit()).collect();
                if cand.is_empty() {
                    continue;
                }
                let i = *r.pick(&cand);
                b[i] = *r.pick(&[0xff, 0xc3, 0x80, 0xfe]);
                if std::str::from_utf8(&b).is_ok() {
                    continue;
                }
                return (b, names, "invalid text");
            }
        };
        return (s.text(r).into_bytes(), names, what);
    }
}
fn c19_bad(c: &mut Case) -> Res {
    let (_d, w) = work(c);
    let header = c.rng.chance(0.6);
    let (b, names, what) = spoil(&mut c.rng, header);
    let p = w.join("a.csv");
    put(&p, &b);
    let shown = || String::from_utf8_lossy(&b).into_owned();
    match read_lib(&p, names.as_ref().map(|x| (x.0.as_str(), x.1.as_str()))) {
        Err(m) => return fail(format!("a CSV with {what} (fields {names:?}) made the reader panic: {m}"), shown()),
        Ok(Ok(v)) => return fail(format!("a CSV with {what} (fields {names:?}) was read as {} values", v.len()), shown()),
        Ok(Err(_)) => {}
    }
    c.local.count(&format!("refused_{}", what.replace(' ', "_")));
    c.local.hit(hash_bytes(190, &b));
    c.local.sample(|| format!("{what}: {}", shown().chars().take(120).collect::<String>()));
    Ok(())
}
/// arbitrary bytes: never a crash
fn c19_garbage(c: &mut Case) -> Res {
    let (_d, w) = work(c);
    let r = &mut c.rng;
    let alphabet: &[u8] = b"time,value\n\r\"1234567890.-+eE ,,\"\"\n\n\x00\xff\xc3;\t";
    let n = r.below(200);
    let mut b: Vec<u8> = if r.chance(0.5) { b"time,value\n".to_vec() } else { vec![] };
    b.extend((0..n).map(|_| *r.pick(alphabet)));
    let p = w.join("a.csv");
    put(&p, &b);
    for names in [Some(("time", "value")), Some(("", "value")), None] {
        if let Err(m) = read_lib(&p, names) {
            return fail(format!("arbitrary bytes read as CSV (fields {names:?}) panicked: {m}"), hex(&b));
        }
    }
    c.count("arbitrary_byte_files");
    c.local.hit(hash_bytes(191, &b));
    Ok(())
}
fn c19_cli(c: &mut Case) -> Res {
    let (_d, w) = work(c);
    let header = c.rng.chance(0.6);
    let atsc = tool(&c.ctx.bin, "atsc");
    let args = |names: &Option<(String, String)>| {
        let mut a = vec!["--csv".to_string(), "a.csv".to_string(), "--compressor".into(), "rle".into()];
        match names {
            Some((t, v)) => a.push(format!("--fields={t},{v}")),
            None => a.push("--no-header".into()),
        }
        a
    };
    if c.rng.chance(0.5) {
        // fields with a comma cannot be named on the command line
        let s = loop {
            let s = sheet(&mut c.rng, header);
            if s.header.iter().flatten().all(|h| !h.contains(',')) {
                break s;
            }
        };
        let t = s.text(&mut c.rng);
        put(&w.join("a.csv"), &t);
        let names = header.then(|| s.names());
        let r = run(&atsc, &args(&names), &w, Limits::default(), &[]);
        if !r.ok() {
            return fail(format!("atsc refuses a well-formed CSV: {}", r.how()), t);
        }
        let lib = guard(|| library(&s.vals, Compressor::RLE, 0, 0)).or_else(|p| fail(format!("library: {p}"), t.clone()))?;
        if get(&w.join("a.bro")).as_deref() != Some(&lib[..]) {
            return fail("atsc --csv wrote something else than the values of the file", t);
        }
        c.count("cli_well_formed");
        c.local.hit(hash_bytes(192, t.as_bytes()));
        return Ok(());
    }
    let (b, names, what) = loop {
        let x = spoil(&mut c.rng, header);
        if x.1.iter().all(|(a, b)| !a.contains(',') && !b.contains(',')) {
            break x;
        }
    };
    put(&w.join("a.csv"), &b);
    let sentinel = c.rng.chance(0.4);
    if sentinel {
        put(&w.join("a.bro"), b"keep");
    }
    let r = run(&atsc, &args(&names), &w, Limits::default(), &[]);
    let shown = String::from_utf8_lossy(&b).into_owned();
    if r.ok() {
        return fail(format!("atsc accepts a CSV with {what} (fields {names:?})"), shown);
    }
    if r.code == Some(101) || r.signal.is_some() {
        return fail(format!("atsc crashes on a CSV with {what} (fields {names:?}): {}", r.how()), shown);
    }
    if get(&w.join("a.bro")).as_deref() != if sentinel { Some(&b"keep"[..]) } else { None } {
        return fail(format!("atsc refused a CSV with {what} but wrote an output"), shown);
    }
    if get(&w.join("a.csv")).as_deref() != Some(&b[..]) {
        return fail("the input CSV was changed", shown);
    }
    c.count("cli_refused");
    c.local.hit(hash_bytes(193, &b));
    // csv-compressor has its own reader
    let mut s = "timestamp,value\n".to_string();
    let n = 2 + c.rng.below(10);
    let bad = c.rng.below(n);
    for i in 0..n {
        let (k, _) = odd_number(&mut c.rng);
        let row = if i == bad {
            match c.rng.below(4) {
                0 => format!("{},abc", i * 1000),
                1 => format!("{}", i * 1000),
                2 => format!("{},{k},7", i * 1000),
                _ => format!("x{i},{k}"),
            }
        } else {
            format!("{},{k}", i * 1000)
        };
        s += &row;
        s.push('\n');
    }
    put(&w.join("c.csv"), &s);
    let r = run(&tool(&c.ctx.bin, "csv-compressor"), &["c.csv", "--output-vsri", "--output-wavbrro"], &w, Limits::default(), &[]);
    if r.ok() || r.crash() || r.hang() {
        return fail(format!("csv-compressor on a malformed CSV: {}", r.how()), s);
    }
    for o in ["c.bro", "c.vsri", "c.wavbro"] {
        if w.join(o).exists() {
            return fail(format!("csv-compressor refused a malformed CSV but wrote {o}"), s);
        }
    }
    c.count("csv_compressor_refused");
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C20
fn c20_case(c: &mut Case) -> Res {
    let (_d, root) = {
        let d = scratch(c);
        let p = d.0.clone();
        (d, p)
    };
    let r = &mut c.rng;
    let mode = r.below(3); // compress, decompress, csv
    let dir = root.join("dir");
    let one = root.join("one");
    std::fs::create_dir_all(&dir).expect("HARNESS: scratch");
    std::fs::create_dir_all(&one).expect("HARNESS: scratch");
    let (k, e, level) = pick_setting(r, 3);
    let (name, comp) = KINDS[k];
    let nvalid = match r.below(10) {
        0 => 0,
        1 => 20 + r.below(30),
        _ => 1 + r.below(6),
    };
    let nother = r.below(7);
    let mut valid = vec![];
    let mut args: Vec<String> = vec![];
    match mode {
        0 | 2 => {
            args.extend(["--compressor".into(), name.into()]);
            args.extend(err_args(r, e, level, 3));
            if mode == 2 {
                args.push("--csv".into());
            }
        }
        _ => args.push("-u".into()),
    }
    let mut stems = vec![];
    let mut links = 0;
    for i in 0..nvalid {
        let stem = match r.below(5) {
            0 => format!("f{i}"),
            1 => format!("metric {i}"),
            2 => format!(".hidden{i}"),
            3 => format!("Größe{i}"),
            _ => format!("a.b{i}"),
        };
        let n = if comp == Compressor::Idw { 1 + r.below(100) } else { 1 + r.below(300) };
        let s = series(r, n, Wild::No);
        let (file, content) = match mode {
            0 => (format!("{stem}.{}", if r.chance(0.85) { "wbro" } else { *r.pick(&["WBRO", "wavbro", "dat"]) }), wbro_bytes(&s.v)),
            1 => {
                let n = 1 + r.below(3);
                let m = crate::p_format::made(r, n, 200, false).or_else(|p| fail(format!("writing a stream panicked: {p}"), ""))?;
                (format!("{stem}.{}", if r.chance(0.85) { "bro" } else { *r.pick(&["BRO", "dat", "brro"]) }), m.bytes)
            }
            _ => {
                let mut t = "time,value\n".to_string();
                for (i, x) in s.v.iter().enumerate() {
                    t += &format!("{i},{x}\n");
                }
                (format!("{stem}.{}", if r.chance(0.85) { "csv" } else { "txt" }), t.into_bytes())
            }
        };
        stems.push(stem);
        if r.chance(0.1) {
            // a link to a file elsewhere
            std::fs::create_dir_all(root.join("store")).expect("HARNESS: scratch");
            put(&root.join(format!("store/x{i}")), &content);
            std::os::unix::fs::symlink(format!("../store/x{i}"), dir.join(&file)).expect("HARNESS: scratch");
            links += 1;
        } else {
            put(&dir.join(&file), &content);
        }
        valid.push((file, content));
    }
    // what a run over each file alone gives
    let atsc = tool(&c.ctx.bin, "atsc");
    let out_ext = if mode == 1 { "wbro" } else { "bro" };
    let mut expect: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for (f, b) in &valid {
        put(&one.join(f), b);
        let mut a = args.clone();
        a.push(f.clone());
        let res = run(&atsc, &a, &one, Limits::default(), &[]);
        if !res.ok() {
            return fail(format!("single run on {f}: {}", res.how()), hex(b));
        }
        let out = Path::new(f).with_extension(out_ext).to_string_lossy().into_owned();
        match get(&one.join(&out)) {
            Some(o) => {
                expect.insert(out, o);
            }
            None => return fail(format!("single run on {f} wrote no {out}"), hex(b)),
        }
        for e in std::fs::read_dir(&one).expect("HARNESS: scratch") {
            let _ = std::fs::remove_file(e.expect("HARNESS: scratch").path());
        }
    }
    let r = &mut c.rng;
    // other files
    let mut others = 0;
    for i in 0..nother {
        let (f, b): (String, Vec<u8>) = match r.below(9) {
            0 => (format!("z-empty{i}.{}", r.pick(&["wbro", "bro", "txt", "csv"])), vec![]),
            1 => (format!("0-short{i}.{}", r.pick(&["wbro", "bro", "bin"])), vec![b'W'; 1 + r.below(11)]),
            2 => (format!("readme{i}.md"), b"# not a metric\nsome text, with words\n".to_vec()),
            3 => (format!("img{i}.png"), (0..200).map(|_| r.u64() as u8 | 0x80).collect()),
            4 => (format!("w{i}.wbro"), b"RIFF0000WAVEfmt ................".to_vec()),
            5 if mode != 1 => (format!("old{i}.bro"), b"BRRO\x01\0\0\0\x01\x01\x29\x05\x03\x03\x1e\x03\x01".to_vec()),
            6 if mode == 1 => (format!("old{i}.wbro"), wbro_bytes(&[1.0, 2.0])),
            7 => (format!("b{i}.bro.bak"), b"XRRO_________________________".to_vec()),
            8 => {
                std::fs::create_dir_all(dir.join(format!("sub{i}"))).expect("HARNESS: scratch");
                (format!("sub{i}/x.wbro"), wbro_bytes(&[3.0, 4.0]))
            }
            _ => (format!("other{i}"), b"just text that is long enough to have a header".to_vec()),
        };
        put(&dir.join(&f), &b);
        others += 1;
    }
    if r.chance(0.1) {
        // links that lead nowhere, and to a directory
        std::os::unix::fs::symlink("nowhere", dir.join("dangling.wbro")).expect("HARNESS: scratch");
        std::os::unix::fs::symlink("../one", dir.join("one.bro")).expect("HARNESS: scratch");
        c.local.count("directories_with_odd_links");
    }
    // outputs of an earlier run are there already, with old content
    let stale = r.chance(0.3);
    if stale {
        for o in expect.keys() {
            if r.chance(0.6) && !valid.iter().any(|v| v.0 == *o) {
                put(&dir.join(o), b"stale output of an earlier run, longer than twelve bytes");
            }
        }
    }
    let before = snapshot(&dir);
    let desc = format!("{} {:?} on {} valid and {others} other files{}", ["compress", "decompress", "csv"][mode], args, valid.len(), if stale { ", stale outputs" } else { "" });
    let mut want = before.clone();
    want.extend(expect.clone());
    let target = if r.chance(0.5) { "dir".to_string() } else { dir.to_string_lossy().into_owned() };
    let target = if r.chance(0.3) { target + "/" } else { target };
    for round in 1..=2 {
        let mut a = args.clone();
        a.push(target.clone());
        let around = surroundings(&mut c.rng, 400);
        let res = run(&atsc, &a, &root, Limits::default(), &around);
        if res.signal.is_some() || res.code == Some(101) {
            return fail(format!("{desc}: run {round}: {}", res.how()), format!("{:?}", before.keys()));
        }
        let after = snapshot(&dir);
        for (f, b) in &want {
            match after.get(f) {
                None => {
                    let k = if expect.contains_key(f) { "has no output" } else { "lost the file" };
                    return fail(format!("{desc}: run {round} {k} {f} ({})", res.how()), format!("{:?}", before.keys()));
                }
                Some(x) if x != b => {
                    let k = if expect.contains_key(f) { "writes another output than the single run to" } else { "changed" };
                    return fail(format!("{desc}: run {round} {k} {f}: {} bytes, {} expected ({})", x.len(), b.len(), res.how()), format!("{:?}", before.keys()));
                }
                _ => {}
            }
        }
        if let Some(f) = after.keys().find(|f| !want.contains_key(*f)) {
            return fail(format!("{desc}: run {round} created {f}"), format!("{:?}", before.keys()));
        }
        c.local.add("outputs_compared", expect.len() as u64);
    }
    c.local.add("links_followed", links);
    c.local.add("other_files_untouched", others);
    c.local.count(["directories_compressed", "directories_decompressed", "directories_csv"][mode]);
    if valid.len() + others as usize > 1 {
        c.local.hit(mix(hash_str(&desc) ^ before.values().fold(0, |h, b| hash_bytes(h, b))));
    }
    c.local.sample(|| desc.clone());
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C21
struct Job {
    exe: &'static str,
    args: Vec<String>,
    inputs: Vec<(String, Vec<u8>)>,
    outputs: Vec<String>,
}
fn job(r: &mut Rng, kind: u64) -> Result<Job, Fail> {
    let n = match r.below(4) {
        0 => 1 + r.below(8),
        1 => 1 + r.below(60),
        2 => 200 + r.below(1500),
        _ => 1000 + r.below(4000),
    };
    let n = if kind == 6 { n.min(400) } else { n };
    let s = series(r, n, Wild::No);
    let v = s.v;
    let kinds = ["noop", "rle", "auto", "polynomial", "fft"];
    let comp = kinds[r.below(if n > 1200 { 1 } else { 5 })].to_string();
    let csv = |r: &mut Rng, v: &[f64]| {
        let mut t = "timestamp,value\n".to_string();
        let mut s = 0;
        for x in v {
            t += &format!("{},{x}\n", s * 1000);
            s += if r.chance(0.5) { 5 } else { r.range(1, 15) };
        }
        t.into_bytes()
    };
    let bro = |v: &[f64]| {
        let mut cs = CompressedStream::new();
        for c in v.chunks(700) {
            cs.compress_chunk_with(c, Compressor::Noop);
        }
        cs.to_bytes()
    };
    Ok(match kind {
        0 => Job { exe: "atsc", args: vec!["--compressor".into(), comp, "a.wbro".into()], inputs: vec![("a.wbro".into(), wbro_bytes(&v))], outputs: vec!["a.bro".into()] },
        1 => Job { exe: "atsc", args: vec!["-u".into(), "a.bro".into()], inputs: vec![("a.bro".into(), bro(&v))], outputs: vec!["a.wbro".into()] },
        2 => {
            let mut t = String::new();
            for x in &v {
                t += &format!("{x}\n");
            }
            Job {
                exe: "atsc",
                args: vec!["--csv".into(), "--no-header".into(), "--compressor".into(), comp, "a.csv".into()],
                inputs: vec![("a.csv".into(), t.into_bytes())],
                outputs: vec!["a.bro".into()],
            }
        }
        3 => Job {
            exe: "csv-compressor",
            args: vec!["--no-compression".into(), "--output-vsri".into(), "a.csv".into()],
            inputs: vec![("a.csv".into(), csv(r, &v))],
            outputs: vec!["a.vsri".into()],
        },
        4 => Job {
            exe: "csv-compressor",
            args: vec!["--no-compression".into(), "--output-wavbrro".into(), "a.csv".into()],
            inputs: vec![("a.csv".into(), csv(r, &v))],
            outputs: vec!["a.wavbro".into()],
        },
        5 => Job {
            exe: "csv-compressor",
            args: vec!["--compressor".into(), "noop".into(), "--output-vsri".into(), "--output-wavbrro".into(), "a.csv".into()],
            inputs: vec![("a.csv".into(), csv(r, &v))],
            outputs: vec!["a.bro".into(), "a.vsri".into(), "a.wavbro".into()],
        },
        6 => {
            let b = bro(&v);
            Job {
                exe: "csv-compressor",
                args: vec!["-u".into(), "a.bro".into(), "-o".into(), "res".into()],
                inputs: vec![("a.bro".into(), b), ("a.vsri".into(), format!("0\n{}\n5,0,0,{}\n", 5 * (v.len() - 1), v.len()).into_bytes())],
                outputs: vec!["res.wbro".into(), "res.csv".into()],
            }
        }
        8 => {
            // a directory
            let mode = r.below(3);
            let mut j = Job { exe: "atsc", args: vec![], inputs: vec![], outputs: vec![] };
            for i in 0..2 + r.below(3) {
                let n = 1 + r.below(if i == 0 { 1500 } else { 80 });
                let v = series(r, n, Wild::No).v;
                let (e, b) = match mode {
                    0 => ("wbro", wbro_bytes(&v)),
                    1 => ("bro", bro(&v)),
                    _ => ("csv", csv(r, &v)),
                };
                j.inputs.push((format!("d/f{i}.{e}"), b));
                j.outputs.push(format!("d/f{i}.{}", if mode == 1 { "wbro" } else { "bro" }));
            }
            match mode {
                0 => j.args.extend(["--compressor".into(), comp]),
                1 => j.args.push("-u".into()),
                _ => j.args.extend(["--csv".into(), "--fields=timestamp,value".into(), "--compressor".into(), comp]),
            }
            j.args.push("d".into());
            j
        }
        _ => Job { exe: "wav2wbro", args: vec!["a.wav".into()], inputs: vec![("a.wav".into(), wav(&v, false))], outputs: vec!["a.wbro".into()] },
    })
}
fn c21_case(c: &mut Case) -> Res {
    let (_d, w) = work(c);
    let jk = c.idx % 9;
    let j = job(&mut c.rng, jk)?;
    let exe = tool(&c.ctx.bin, j.exe);
    std::fs::create_dir_all(w.join("d")).expect("HARNESS: scratch");
    for (f, b) in &j.inputs {
        put(&w.join(f), b);
    }
    let what = format!("{} {}", j.exe, j.args.join(" "));
    let r0 = run(&exe, &j.args, &w, Limits::default(), &[]);
    if !r0.ok() {
        return fail(format!("{what} without a fault: {}", r0.how()), hex(&j.inputs[0].1));
    }
    let mut refs = vec![];
    for o in &j.outputs {
        match get(&w.join(o)) {
            Some(b) => refs.push(b),
            None => return fail(format!("{what}: no {o}"), hex(&j.inputs[0].1)),
        }
    }
    let max = refs.iter().map(|b| b.len()).max().unwrap();
    let sane = |c: &mut Case, fault: String, r: &crate::cli::Run| -> Res {
        for (f, b) in &j.inputs {
            if get(&w.join(f)).as_deref() != Some(&b[..]) {
                return fail(format!("{what} with {fault}: input {f} was changed"), hex(b));
            }
        }
        if r.crash() || r.hang() {
            return fail(format!("{what} with {fault}: {}", r.how()), hex(&j.inputs[0].1));
        }
        if r.ok() {
            for (o, b) in j.outputs.iter().zip(&refs) {
                let x = get(&w.join(o));
                let dev = std::fs::symlink_metadata(w.join(o)).map(|m| m.file_type().is_symlink()).unwrap_or(false);
                if dev || x.as_deref() != Some(&b[..]) {
                    return fail(
                        format!("{what} with {fault} reports success, but {o} holds {} of {} bytes", if dev { 0 } else { x.map(|x| x.len()).unwrap_or(0) }, b.len()),
                        hex(&j.inputs[0].1),
                    );
                }
            }
            c.local.count("complete_despite_limit");
        } else {
            c.local.count("failures_reported");
        }
        Ok(())
    };
    // the file may grow to `lim` bytes and no further
    let mut lims: Vec<usize> = vec![];
    if max <= 60 || c.tier == Tier::Thorough && max <= 300 {
        lims.extend(0..=max);
        c.local.count("jobs_with_every_offset");
    } else {
        let m = if c.tier == Tier::Thorough { 60 } else { 16 };
        lims.extend([0, 1, 4, 8, 9, 11, 12, 13, 511, 512, 4095, 4096, 8191, 8192, 8193, max - 1, max]);
        for b in &refs {
            lims.extend([b.len() - 1, b.len(), b.len().saturating_sub(9)]);
        }
        lims.extend((0..m).map(|_| c.rng.below(max)));
        lims.retain(|l| *l <= max);
        lims.sort();
        lims.dedup();
    }
    let leave = c.rng.chance(0.5);
    for lim in lims {
        for (o, b) in j.outputs.iter().zip(&refs) {
            let _ = std::fs::remove_file(w.join(o));
            if leave {
                // an older output of the same length is there
                put(&w.join(o), vec![b'o'; b.len()]);
            }
        }
        let r = run(&exe, &j.args, &w, Limits { fsize: lim as u64, ignore_xfsz: true, ..Default::default() }, &[]);
        sane(c, format!("files limited to {lim} bytes"), &r)?;
        c.local.count("offsets_tried");
        c.local.hit(mix(hash_bytes(lim as u64, &j.inputs[0].1) ^ jk));
    }
    // a full device behind each output in turn
    if Path::new("/dev/full").exists() {
        for k in 0..j.outputs.len() {
            for o in &j.outputs {
                let _ = std::fs::remove_file(w.join(o));
            }
            std::os::unix::fs::symlink("/dev/full", w.join(&j.outputs[k])).expect("HARNESS: symlink");
            let r = run(&exe, &j.args, &w, Limits::default(), &[]);
            sane(c, format!("{} on a full device", j.outputs[k]), &r)?;
            c.local.count("full_devices");
            let _ = std::fs::remove_file(w.join(&j.outputs[k]));
        }
    }
    // the output cannot even be created
    for k in 0..j.outputs.len() {
        for o in &j.outputs {
            let _ = std::fs::remove_file(w.join(o));
        }
        std::fs::create_dir(w.join(&j.outputs[k])).expect("HARNESS: scratch");
        let r = run(&exe, &j.args, &w, Limits::default(), &[]);
        sane(c, format!("{} being a directory", j.outputs[k]), &r)?;
        c.local.count("outputs_that_are_directories");
        let _ = std::fs::remove_dir(w.join(&j.outputs[k]));
    }
    // any one call on a file fails
    for o in &j.outputs {
        let _ = std::fs::remove_file(w.join(o));
    }
    if let Some((r, mut calls)) = io_calls(&exe, &j.args, &w) {
        sane(c, "its calls counted".into(), &r)?;
        if jk == 8 {
            // in a directory, what can't be read is left alone like a file of another kind
            calls.retain(|k| !matches!(k, b'r' | b'o' | b'k'));
        }
        let n = calls.len();
        let mut at: Vec<usize> = (1..=n).collect();
        if n > 30 {
            at = (1..=6).chain(n - 8..=n).chain((0..12).map(|_| 1 + c.rng.below(n))).collect();
            at.sort();
            at.dedup();
        } else {
            c.local.count("jobs_with_every_call_failing");
        }
        for k in at {
            for (o, b) in j.outputs.iter().zip(&refs) {
                let _ = std::fs::remove_file(w.join(o));
                if leave {
                    put(&w.join(o), vec![b'o'; b.len()]);
                }
            }
            let kind = calls[k - 1];
            let errno = match kind {
                b'r' => libc::EIO,
                b'o' => *c.rng.pick(&[libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOENT]),
                _ => *c.rng.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EACCES, libc::EROFS]),
            };
            let e = io_env(Io::Fail { at: k, errno, writes: jk == 8 }, w.parent().unwrap()).unwrap();
            let r = run(&exe, &j.args, &w, Limits::default(), &env_of(&e));
            sane(c, format!("error {errno} of its {k}. call of {n} on a file, a '{}' in {}", kind as char, String::from_utf8_lossy(&calls)), &r)?;
            c.local.count(&format!("failed_calls_{}", match kind { b'r' => "read", b'o' => "open_to_read", b'O' => "open_to_write", b'w' => "write", _ => "other" }));
            c.local.hit(mix(hash_bytes(k as u64, &j.inputs[0].1) ^ jk ^ 77));
        }
    }
    c.local.sample(|| format!("{what}: outputs of {:?} bytes", refs.iter().map(|b| b.len()).collect::<Vec<_>>()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C45
fn c45_case(c: &mut Case) -> Res {
    let (_d, w) = work(c);
    let whole = w.join("whole");
    let parts = w.join("parts");
    let mut j = job(&mut c.rng, c.idx % 8)?;
    let exe = tool(&c.ctx.bin, j.exe);
    let mut kind = "good";
    // several files at once, for those that take a directory
    if j.exe == "atsc" && c.rng.chance(0.3) {
        kind = "directory";
        let (f, b) = j.inputs[0].clone();
        let ext = f.rsplit('.').next().unwrap().to_string();
        j.inputs = vec![(format!("d/{f}"), b)];
        for i in 0..1 + c.rng.below(4) {
            let k = match ext.as_str() {
                "bro" => 1,
                "csv" => 2,
                _ => 0,
            };
            let more = job(&mut c.rng, k)?;
            j.inputs.push((format!("d/b{i}.{ext}"), more.inputs[0].1.clone()));
        }
        if c.rng.chance(0.5) {
            let n = c.rng.below(40);
            let junk: Vec<u8> = (0..n).map(|_| c.rng.below(256) as u8).collect();
            j.inputs.push(("d/junk.dat".into(), junk));
        }
        *j.args.last_mut().unwrap() = "d".into();
    } else if c.rng.chance(0.25) {
        // damaged: refused in whatever pieces it comes, or taken for the same
        kind = "damaged";
        let k = c.rng.below(j.inputs.len());
        let b = &mut j.inputs[k].1;
        match c.rng.below(4) {
            0 => b.truncate(c.rng.below(b.len() + 1)),
            1 => {
                let i = c.rng.below(b.len());
                b[i] = b[i].wrapping_add(1 + c.rng.below(255) as u8);
            }
            2 => b.extend((0..1 + c.rng.below(30)).map(|i| i as u8)),
            _ => {
                let n = b.len().min(13);
                let i = c.rng.below(n);
                b[i] ^= 1 << c.rng.below(8);
            }
        }
    }
    for d in [&whole, &parts] {
        std::fs::create_dir_all(d.join("d")).expect("HARNESS: scratch");
        for (f, b) in &j.inputs {
            put(&d.join(f), b);
        }
    }
    let lim = Limits { cpu_s: 20, ..Default::default() };
    let what = format!("{} {}{}", j.exe, j.args.join(" "), if kind == "good" { String::new() } else { format!(" ({kind})") });
    let r0 = run(&exe, &j.args, &whole, lim, &[]);
    if kind == "good" && !r0.ok() {
        return fail(format!("{what}: {}", r0.how()), hex(&j.inputs[0].1));
    }
    let want = snapshot(&whole);
    for round in 0..3 {
        let seed = c.rng.below(1 << 30) as u64;
        let (io, how) = if round == 2 { (Io::Delay { seed, max_us: 150 }, "its calls taking their time") } else { (Io::Short { seed }, "reads and writes in pieces") };
        let Some(e) = io_env(io, &w) else {
            c.local.count("shim_unavailable");
            return Ok(());
        };
        for f in snapshot(&parts).keys() {
            let _ = std::fs::remove_file(parts.join(f));
        }
        for (f, b) in &j.inputs {
            put(&parts.join(f), b);
        }
        let r = run(&exe, &j.args, &parts, lim, &env_of(&e));
        if r.ok() != r0.ok() || r.crash() != r0.crash() {
            return fail(format!("{what} with {how}: {}, without it {}", r.how(), r0.how()), hex(&j.inputs[0].1));
        }
        let got = snapshot(&parts);
        for (f, b) in &want {
            if got.get(f) != Some(b) {
                return fail(format!("{what} with {how}: {f} holds {:?} bytes that differ from the {} without it", got.get(f).map(|x| x.len()), b.len()), hex(&j.inputs[0].1));
            }
        }
        if let Some(f) = got.keys().find(|f| !want.contains_key(*f)) {
            return fail(format!("{what} with {how} leaves {f}, which it doesn't without it"), hex(&j.inputs[0].1));
        }
        c.local.count(if round == 2 { "runs_delayed" } else { "runs_in_pieces" });
    }
    c.local.count(&format!("jobs_{kind}"));
    c.local.hit(mix(j.inputs.iter().fold(c.idx % 8, |h, (_, b)| hash_bytes(h, b))));
    c.local.sample(|| what.clone());
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C25
pub fn wav(v: &[f64], list: bool) -> Vec<u8> {
    wav_of(v, list, 4, 16, 1)
}
/// Samples of `channels` words of `width` bits, the words above the fourth and the bits above the 16th being zero
fn wav_of(v: &[f64], list: bool, channels: usize, width: usize, format: u16) -> Vec<u8> {
    let mut data = vec![];
    for x in v {
        let b = x.to_bits();
        for k in 0..channels {
            let word = if k < 4 { (b >> (16 * k)) as u16 } else { 0 };
            data.extend(&(word as u64).to_le_bytes()[..width / 8]);
        }
    }
    let block = channels * width / 8;
    let mut body = b"WAVE".to_vec();
    body.extend(b"fmt ");
    body.extend(16u32.to_le_bytes());
    body.extend(format.to_le_bytes());
    body.extend((channels as u16).to_le_bytes());
    body.extend(8000u32.to_le_bytes());
    body.extend((8000 * block as u32).to_le_bytes());
    body.extend((block as u16).to_le_bytes());
    body.extend((width as u16).to_le_bytes());
    if list {
        body.extend(b"LIST");
        body.extend(10u32.to_le_bytes());
        body.extend(b"INFOsoft\0\0");
    }
    body.extend(b"data");
    body.extend((data.len() as u32).to_le_bytes());
    body.extend(&data);
    let mut w = b"RIFF".to_vec();
    w.extend((body.len() as u32).to_le_bytes());
    w.extend(body);
    w
}
fn c25_case(c: &mut Case) -> Res {
    let (_d, w) = work(c);
    let r = &mut c.rng;
    let n = match r.below(8) {
        0 => r.below(3),
        1 => *r.pick(&[2047, 2048, 2049, 4096, 4097]),
        2 if r.chance(0.02) => 65_530 + r.below(4000),
        2 => 1 + r.below(10000),
        _ => 1 + r.below(600),
    };
    let v = if r.chance(0.3) { series(r, n.max(1), Wild::Some).v } else { bits(r, n) };
    let list = r.chance(0.2);
    // fewer channels carry the low words only
    let channels = if r.chance(0.2) { 1 + r.below(3) } else { 4 };
    let v: Vec<f64> = v.into_iter().map(|x| f64::from_bits(x.to_bits() & (u64::MAX >> (64 - 16 * channels)))).collect();
    // any other layout has no meaning
    let (other, width, format) = match r.below(40) {
        0 => (5 + r.below(4), 16, 1),
        1 => (channels, 24, 1),
        2 => (channels, 32, 1),
        3 => (channels, 32, 3),
        _ => (channels, 16, 1),
    };
    let b = wav_of(&v, list, other, width, format);
    let stem = *r.pick(&["a", "a.b", "wav", "x.wav", "awav"]);
    let inp = w.join(format!("{stem}.wav"));
    let out = w.join(format!("{stem}.wbro"));
    put(&inp, &b);
    let older = vec![1u8; 12 + 8 * n + 500];
    let over = r.chance(0.3);
    if over {
        put(&out, &older);
    }
    let p = if r.chance(0.5) { format!("{stem}.wav") } else { inp.to_string_lossy().into_owned() };
    let around = surroundings(r, n);
    let validate = r.chance(0.3);
    let mut a = vec![p];
    if validate {
        a.insert(r.below(2), "--validate".into());
    }
    let res = run(&tool(&c.ctx.bin, "wav2wbro"), &a, &w, Limits::default(), &around);
    if (other, width, format) != (channels, 16, 1) {
        let what = format!("a WAV of {other} channels of {width} bits, format {format}, and {} samples", v.len());
        if v.is_empty() {
            return Ok(());
        }
        if res.ok() || get(&out) != over.then_some(older) {
            return fail(format!("wav2wbro on {what}: {}, the output {}", res.how(), if get(&out).is_some() { "is there" } else { "isn't" }), hex(&b));
        }
        c.local.count("other_layouts_refused");
        return Ok(());
    }
    c.local.add("samples_of_fewer_channels", if channels < 4 { v.len() as u64 } else { 0 });
    if !res.ok() {
        return fail(format!("wav2wbro on {} samples: {}", v.len(), res.how()), hex(&b));
    }
    if get(&inp).as_deref() != Some(&b[..]) {
        return fail("wav2wbro changed its input", hex(&b));
    }
    let want: Vec<f64> = v.iter().copied().filter(|x| !x.is_nan()).collect();
    check_wbro(&out, &want, true).or_else(|m| fail(format!("wav2wbro on {} samples: {m}", v.len()), hex(&b)))?;
    if validate {
        // it says something exactly when something was left out
        if res.out.trim().is_empty() != (want.len() == v.len()) {
            return fail(format!("wav2wbro --validate on {} samples, {} of them NaN, says '{}'", v.len(), v.len() - want.len(), res.out.trim()), hex(&b));
        }
        c.local.count(if want.len() == v.len() { "validated_complete" } else { "validated_incomplete" });
    }
    if std::fs::read_dir(&w).expect("HARNESS: scratch").count() != 2 {
        return fail("wav2wbro left other files behind", hex(&b));
    }
    c.local.add("samples_compared", want.len() as u64);
    c.local.add("nans_dropped", (v.len() - want.len()) as u64);
    if want.len() > 1 {
        c.local.hit(hash_bytes(25, &b));
    }
    c.local.sample(|| format!("{} samples, {} NaN, name {stem}.wav", v.len(), v.len() - want.len()));
    Ok(())
}

pub fn phases(id: &str) -> Option<(Vec<Phase>, Meta)> {
    let p = |name, quick, thorough, f| Phase { name, quick, thorough, threads: 0, f };
    let m = |level, rule| Meta { level, rule, assumptions: &[] };
    Some(match id {
        "C18" => (
            vec![p("rows", 7500, 112500, c18_case as fn(&mut Case) -> Res)],
            m("exploration", "one-day CSV files (regular, jittered, gaps, duplicate seconds, non-finite values) through csv-compressor and back; non-trivial: more than one finite row; distinct by CSV content"),
        ),
        "C19" => (
            vec![
                p("good", 24000, 360000, c19_good as fn(&mut Case) -> Res),
                p("bad", 24000, 360000, c19_bad),
                p("garbage", 9000, 135000, c19_garbage),
                p("cli", 6000, 90000, c19_cli),
            ],
            m("exploration", "well-formed CSV files generated from the expected numbers, the same with one defect, and arbitrary bytes; library and executables; distinct by file content"),
        ),
        "C20" => (
            vec![p("dirs", 3500, 52500, c20_case as fn(&mut Case) -> Res)],
            m("exploration", "directories of valid, foreign, short and stale files run twice as a whole and file by file; non-trivial: more than one file"),
        ),
        "C21" => (
            vec![p("faults", 1296, 19440, c21_case as fn(&mut Case) -> Res)],
            m("fault_enumeration", "file-size limits at every (short outputs) or sampled (long outputs) byte offset, full devices, uncreatable outputs and every call on a file failing, for nine kinds of job; distinct by input and offset"),
        ),
        "C45" => (
            vec![p("pieces", 2500, 40000, c45_case as fn(&mut Case) -> Res)],
            m("exploration", "jobs of eight kinds, on directories and on damaged files, run again with reads and writes cut to random pieces and with random delays; distinct by job and input"),
        ),
        "C24" => (
            vec![p("runs", 4500, 67500, c24_case as fn(&mut Case) -> Res)],
            m("exploration", "one series and setting through the library, atsc on WBRO, CSV and headerless CSV, csv-compressor, and back; non-trivial: samples not all equal"),
        ),
        "C25" => (
            vec![p("wav", 25000, 375000, c25_case as fn(&mut Case) -> Res)],
            m("exploration", "WAV files from random bit patterns and series, lengths around the chunk size; distinct by content, more than one number"),
        ),
        _ => return None,
    })
}
