//! C26: the same deterministic work list in builds with different instrumentation.
use crate::cli::*;
use crate::ctx::*;
use crate::gen::*;
use crate::p_series as ps;
use crate::rng::*;
use atsc::compressor::Compressor;
use atsc::data::CompressedStream;
use atsc::optimizer::OptimizerPlan;
use std::path::{Path, PathBuf};
use vsri::Vsri;
use wavbrro::wavbrro::WavBrro;

/// A logger that formats what it is given, for the threads that ask for it: the arguments of log statements run too.
struct Formats;
thread_local! { static FORMATS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
impl log::Log for Formats {
    fn enabled(&self, _: &log::Metadata) -> bool {
        FORMATS.with(|f| f.get())
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            std::hint::black_box(r.args().to_string());
        }
    }
    fn flush(&self) {}
}

fn unsigned_zeros(mut v: Vec<f64>) -> Vec<f64> {
    v.iter_mut().for_each(|x| *x += 0.0);
    v
}

/// One work item: series, WBRO or time index, entirely determined by (seed, k, tiny).
/// Panics inside the library are reported as text.
pub fn item(seed: u64, k: u64, tiny: bool, dir: &Path) -> Result<(u64, String), String> {
    let mut r = Rng::new(mix(seed ^ 0xC26).wrapping_add(mix(k)));
    let files = !tiny;
    static LOG: std::sync::Once = std::sync::Once::new();
    LOG.call_once(|| {
        let _ = log::set_logger(&Formats);
        log::set_max_level(log::LevelFilter::Trace);
    });
    FORMATS.with(|f| f.set(false));
    match k % 10 {
        // series through a forced or automatic compressor
        0..=5 => {
            let comps = ps::all_compressors();
            let comp = comps[(k / 10 % 7) as usize];
            let sz = if tiny || comp == Compressor::Idw { Size::Tiny } else { pick_size(&mut r, 0.002) };
            let n = if tiny { 1 + r.below(14) } else { pick_len(&mut r, sz) };
            let wild = if k % 10 < 3 { Wild::Some } else { Wild::No };
            let mut s = series(&mut r, n, wild);
            // builds may differ in the sign of a zero
            s.v.iter_mut().for_each(|x| *x += 0.0);
            FORMATS.with(|f| f.set(n <= 200 && k % 3 == 0));
            let e = ps::efrac(ps::pick_err(&mut r));
            let level = r.below(7);
            let how = r.below(4);
            let what = format!("series {comp:?} e={e} level={level} way {how} {}", s.desc);
            guard(|| {
                let mut h = 0;
                match how {
                    0 => h = hash_bytes(h, &ps::chunk_bytes(&s.v, comp, if comp == Compressor::Auto { Some(e) } else { None }, level)),
                    1 if comp != Compressor::Auto => {
                        let x = comp.get_compress_bounded_results(&s.v, e as f64);
                        h = hash_bytes(h, &x.compressed_data) ^ if x.error.is_nan() { 7 } else { x.error.to_bits() };
                        h = hash_f64s(h, &unsigned_zeros(comp.decompress(s.v.len(), &x.compressed_data)));
                    }
                    2 => {
                        let mut p = OptimizerPlan::plan(&s.v);
                        p.set_compressor(comp);
                        let mut cs = CompressedStream::new();
                        for (c, d) in p.get_execution() {
                            cs.compress_chunk_bounded_with(d, *c, e, level);
                        }
                        let b = cs.to_bytes();
                        h = hash_f64s(hash_bytes(h, &b), &unsigned_zeros(ps::unpack(&b)));
                    }
                    _ => {
                        let b = ps::chunk_bytes(&s.v, comp, Some(e), level);
                        h = hash_f64s(hash_bytes(h, &b), &unsigned_zeros(ps::unpack(&b)));
                    }
                }
                h
            })
            // beyond single precision FFT computes NaNs, whose sign bit is left open by the language
            .map(|h| (if comp == Compressor::FFT && s.v.iter().any(|x| x.abs() >= 1e30) { 0 } else { h }, what.clone()))
            .map_err(|p| format!("{what}: panic: {p}"))
        }
        6 | 7 => {
            let n = if tiny { r.below(12) } else { [r.below(60), 2040 + r.below(20), 4090 + r.below(12), r.below(9000)][r.below(4)] };
            let v = crate::p_wbro::bits(&mut r, n);
            let what = format!("wbro of {n} samples");
            guard(|| {
                let mut w = WavBrro::new();
                for x in &v {
                    w.add_sample(*x);
                }
                let b = w.to_bytes();
                let mut h = hash_bytes(3, &b);
                let mut al = vec![0u8; b.len() + 16];
                for off in [0usize, 3] {
                    // the copy lies at another alignment
                    al[off..off + b.len()].copy_from_slice(&b);
                    h = hash_f64s(h, &WavBrro::from_bytes(&al[off..off + b.len()]).get_samples());
                }
                if files {
                    let p = dir.join(format!("i{k}.wbro"));
                    w.to_file(&p);
                    h = hash_f64s(h, &WavBrro::from_file(&p).expect("reading back"));
                    WavBrro::to_file_with_data(&p, &v);
                    h = hash_bytes(h, &std::fs::read(&p).expect("HARNESS: scratch"));
                    let _ = std::fs::remove_file(&p);
                }
                h
            })
            .map(|h| (h, what.clone()))
            .map_err(|p| format!("{what}: panic: {p}"))
        }
        _ => {
            let (mut t, d) = crate::p_vsri::sequence(&mut r, false);
            t.truncate(if tiny { 9 } else { 3000 });
            let what = format!("time index of {} points ({d})", t.len());
            guard(|| {
                let base = dir.join(format!("i{k}"));
                let mut v = Vsri::new(base.to_str().unwrap());
                let mut h = 5;
                for y in &t {
                    h = mix(h ^ v.update_for_point(*y).is_ok() as u64);
                }
                if files {
                    v.flush().expect("flush");
                    let f = base.with_extension("vsri");
                    h = hash_bytes(h, &std::fs::read(&f).expect("HARNESS: scratch"));
                    v = Vsri::load(f.to_str().unwrap()).expect("load");
                    let _ = std::fs::remove_file(&f);
                }
                for a in crate::p_vsri::answers(&v, &t, &r) {
                    h = hash_bytes(h, a.as_bytes());
                }
                h
            })
            .map(|h| (h, what.clone()))
            .map_err(|p| format!("{what}: panic: {p}"))
        }
    }
}

/// harness ubwork SEED FROM N tiny|full
pub fn ubwork(a: &[String]) -> i32 {
    install_hook();
    let (seed, from, n): (u64, u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap(), a[2].parse().unwrap());
    let tiny = a.get(3).map(|x| x == "tiny").unwrap_or(false);
    let dir = PathBuf::from(std::env::var("UB_DIR").unwrap_or_else(|_| "/tmp".into()));
    let mut rc = 0;
    for k in from..from + n {
        eprintln!("item {k}");
        match item(seed, k, tiny, &dir) {
            Ok((h, what)) => println!("{k} {h:016x} {what}"),
            Err(m) => {
                println!("{k} PANIC {}", m.replace('\n', " "));
                rc = 10;
            }
        }
    }
    rc
}

/// harness races SEED FROM N: each tiny item by two threads at once, for a race detector
pub fn races(a: &[String]) -> i32 {
    install_hook();
    let (seed, from, n): (u64, u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap(), a[2].parse().unwrap());
    let mut rc = 0;
    for k in from..from + n {
        eprintln!("item {k}");
        let w = move |k| item(seed, k, true, Path::new("/nonexistent"));
        let (a, b) = std::thread::scope(|s| {
            let x = s.spawn(move || w(k));
            let y = s.spawn(move || w(k));
            (x.join().unwrap(), y.join().unwrap())
        });
        match (a, b) {
            (Ok(a), Ok(b)) if a.0 == b.0 => println!("{k} {:016x} {}", a.0, a.1),
            (Ok(a), Ok(_)) => {
                println!("{k} PANIC two threads get different results: {}", a.1);
                rc = 10;
            }
            (Err(m), _) | (_, Err(m)) => {
                println!("{k} PANIC {}", m.replace('\n', " "));
                rc = 10;
            }
        }
    }
    rc
}

fn lim() -> Limits {
    Limits { cpu_s: 380, mem: 0, fsize: 64 << 20, ignore_xfsz: false }
}
fn go(c: &mut Case, tag: &str, exe: &Path, pre: &[String], from: u64, n: u64, size: &str, env: &[(&str, &str)]) -> Run {
    let d = PathBuf::from(&c.ctx.scratch).join(format!("ub-{tag}-{}", c.idx));
    let w = d.join("w");
    std::fs::create_dir_all(&w).expect("HARNESS: scratch");
    let mut a: Vec<String> = pre.to_vec();
    a.extend([if tag == "races" { "races" } else { "ubwork" }.to_string(), c.ctx.seed.to_string(), from.to_string(), n.to_string(), size.into()]);
    let ws = w.to_string_lossy().into_owned();
    let mut e: Vec<(&str, &str)> = vec![("UB_DIR", &ws), ("RUST_BACKTRACE", "0")];
    e.extend(env);
    let r = run(exe, &a, &w, lim(), &e);
    let _ = std::fs::remove_dir_all(&d);
    r
}
fn last_item(r: &Run) -> String {
    r.err.lines().rev().find_map(|l| l.strip_prefix("item ")).unwrap_or("?").to_string()
}
fn report(r: &Run) -> String {
    // the heart of a sanitizer report
    let l: Vec<&str> = r.err.lines().filter(|l| !l.starts_with("item ")).collect();
    let i = l.iter().position(|l| l.contains("ERROR") || l.contains("error:") || l.contains("==")).unwrap_or(0);
    l[i..].iter().take(12).map(|s| s.trim()).collect::<Vec<_>>().join(" | ").chars().take(900).collect()
}
/// every line must be a digest
fn lines(build: &str, r: &Run, from: u64, n: u64) -> Result<Vec<(String, String)>, Fail> {
    if let Some(l) = r.out.lines().find(|l| l.contains(" PANIC ")) {
        return fail(format!("{build} build: item {l}"), "");
    }
    if !r.ok() {
        return fail(format!("{build} build: item {} ended with {}: {}", last_item(r), match (r.code, r.signal) { (Some(c), _) => format!("exit status {c}"), (_, s) => format!("signal {s:?}") }, report(r)), "");
    }
    let v: Vec<(String, String)> = r.out.lines().filter_map(|l| l.splitn(3, ' ').nth(1).map(|h| (h.to_string(), l.to_string()))).collect();
    if v.len() as u64 != n {
        panic!("HARNESS: {build}: {} digests for {from}+{n}", v.len());
    }
    Ok(v)
}
fn exe_from(k: &str) -> PathBuf {
    let p = PathBuf::from(std::env::var(k).unwrap_or_default());
    if !p.exists() {
        panic!("HARNESS: {k} is missing");
    }
    p
}
const PER: u64 = 60;

fn c26_builds(c: &mut Case) -> Res {
    let me = std::env::current_exe().expect("HARNESS: exe");
    let from = c.idx * PER;
    let a = go(c, "checked", &me, &[], from, PER, "full", &[]);
    let a = lines("checked (debug assertions, overflow checks)", &a, from, PER)?;
    let b = go(c, "release", &exe_from("HARNESS_RELEASE"), &[], from, PER, "full", &[]);
    let b = lines("release", &b, from, PER)?;
    for (x, y) in a.iter().zip(&b) {
        if x.0 != y.0 {
            return fail(format!("debug-checked and release builds disagree on item {}: digest {} in release", x.1, y.0), "");
        }
        c.count(match x.1.split(' ').nth(2) {
            Some("series") => "series_items_equal_in_both_builds",
            Some("wbro") => "wbro_items_equal_in_both_builds",
            _ => "index_items_equal_in_both_builds",
        });
        c.local.hit(hash_bytes(26, x.1.as_bytes()));
    }
    c.local.sample(|| a[0].1.clone());
    Ok(())
}
fn c26_asan(c: &mut Case) -> Res {
    let from = c.idx * PER;
    let r = go(c, "asan", &exe_from("HARNESS_ASAN"), &[], from, PER, "full", &[("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=66")]);
    lines("AddressSanitizer", &r, from, PER)?;
    c.local.add("items_under_address_sanitizer", PER);
    Ok(())
}
const MEM: u64 = 12;
fn c26_memcheck(c: &mut Case) -> Res {
    let vg = Path::new("/usr/bin/valgrind");
    if !vg.exists() {
        c.count("memcheck_unavailable");
        return Ok(());
    }
    let from = 1_000_000 + c.idx * MEM;
    let pre: Vec<String> = ["-q", "--error-exitcode=67", "--leak-check=no", "--undef-value-errors=yes"].iter().map(|s| s.to_string()).chain([exe_from("HARNESS_RELEASE").to_string_lossy().into_owned()]).collect();
    let r = go(c, "memcheck", vg, &pre, from, MEM, "full", &[]);
    lines("release build under memcheck", &r, from, MEM)?;
    c.local.add("items_under_memcheck", MEM);
    Ok(())
}
fn c26_miri(c: &mut Case) -> Res {
    let exe = std::env::var("MIRI_RUN").unwrap_or_default();
    if exe.is_empty() {
        c.count("miri_unavailable");
        return Ok(());
    }
    let per = 10;
    let from = 2_000_000 + c.idx * per;
    let flags = format!("-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-symbolic-alignment-check -Zmiri-seed={}", c.ctx.seed + c.idx);
    let r = go(c, "miri", Path::new(&exe), &[], from, per, "tiny", &[("MIRIFLAGS", &flags)]);
    lines("Miri", &r, from, per)?;
    c.local.add("items_under_miri", per);
    Ok(())
}

/// C08: two threads on the same item under Miri's data race detector, another schedule for every seed
pub fn c08_miri(c: &mut Case) -> Res {
    let exe = std::env::var("MIRI_RUN").unwrap_or_default();
    if exe.is_empty() {
        c.count("miri_unavailable");
        return Ok(());
    }
    let per = 4;
    // the items that are series, one compressor per case
    let from = 3_000_000 + c.idx * 10;
    let flags = format!("-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-deterministic-floats -Zmiri-preemption-rate=0.05 -Zmiri-seed={}", c.ctx.seed * 1000 + c.idx);
    let r = go(c, "races", Path::new(&exe), &[], from, per, "tiny", &[("MIRIFLAGS", &flags)]);
    lines("Miri, two threads,", &r, from, per)?;
    c.local.add("items_under_miri_in_two_threads", per);
    Ok(())
}

pub fn phases(id: &str) -> Option<(Vec<Phase>, Meta)> {
    if id != "C26" {
        return None;
    }
    let p = |name, quick, thorough, threads, f| Phase { name, quick, thorough, threads, f };
    Some((
        vec![
            p("builds", 300, 4500, 0, c26_builds as fn(&mut Case) -> Res),
            p("asan", 180, 2700, 0, c26_asan),
            p("memcheck", 8, 120, 0, c26_memcheck),
            p("miri", 14, 210, 7, c26_miri),
        ],
        Meta {
            level: "exploration",
            rule: "deterministic work items (60% series, 20% WBRO, 20% time index) in checked, release, AddressSanitizer, memcheck and Miri builds; checked and release digests compared; distinct by item",
            assumptions: &["Miri and memcheck run on a small part of the list"],
        },
    ))
}
