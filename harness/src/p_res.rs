//! What a run takes and where it puts things: C37-C39.
use crate::alloc::{live, measure};
use crate::cli::{run, surroundings, tool, Limits};
use crate::ctx::*;
use crate::gen::*;
use crate::oracle::*;
use crate::p_cli::{get, library, put, snapshot, wav, wbro_bytes, work, KINDS};
use crate::p_series::{all_compressors, cname};
use crate::rng::*;
use atsc::compressor::Compressor;
use atsc::data::CompressedStream;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------------------------------------- C37
/// Bytes per sample that may be held at once and asked for in all, and those that come on top
const PEAK_PER_SAMPLE: u64 = 450;
const TOTAL_COMPRESSING: u64 = 6000;
const TOTAL_DECOMPRESSING: u64 = 600;
const BASE: u64 = 256 << 10;
fn c37_work(v: &[f64], comp: Compressor, e: Option<f32>, level: usize) -> Vec<u8> {
    let mut cs = CompressedStream::new();
    match e {
        Some(e) => cs.compress_chunk_bounded_with(v, comp, e, level),
        None => cs.compress_chunk_with(v, comp),
    }
    cs.to_bytes()
}
fn c37_case(c: &mut Case) -> Res {
    let comp = all_compressors()[(c.idx % 7) as usize];
    let r = &mut c.rng;
    let n = match (c.idx / 7) % 24 {
        0 => *r.pick(&[131072, 100_000, 65536, 65535, 40_000, 98_304]),
        1..=4 => pick_len(r, Size::Medium),
        5..=8 => 1 + r.below(64),
        _ => 1 + r.below(5000),
    };
    let n = if comp == Compressor::Idw { n.min(500) } else { n };
    let s = match r.below(5) {
        0 => {
            // few values, many runs
            let m = *r.pick(&[2, 3, 20, 300]);
            let m = 1 + r.below(m);
            let scale = *r.pick(&[1.0, 1e3, 0.37, 1e-3]);
            let shuffled = r.chance(0.5);
            Series { desc: format!("{m} values in turn n={n}"), v: (0..n).map(|i| scale * if shuffled { r.below(m) } else { i % m } as f64).collect() }
        }
        1 => Series { desc: format!("all different n={n}"), v: (0..n).map(|i| i as f64 * 0.37 + r.f()).collect() },
        _ => series(r, n, Wild::No),
    };
    let mut v = s.v;
    if comp == Compressor::FFT {
        v.iter_mut().filter(|x| x.abs() >= 1e30).for_each(|x| *x = x.signum() * 1e29);
    }
    let n = v.len();
    let bounded = comp == Compressor::Auto || r.chance(0.7);
    let e = bounded.then(|| *r.pick(&[0.0f32, 0.0, 0.001, 0.01, 0.03, 0.05, 0.5]));
    let level = if comp == Compressor::Auto { r.below(7) } else { 0 };
    let what = format!("{} e={e:?} level={level} {}", cname(comp), s.desc);
    let panicked = |p: String| fail::<()>(format!("{what}: panic {p}"), dump(&v));
    let limit = |per: u64| BASE + per * n as u64;
    let mut left = vec![];
    let rounds = if n <= 300 { 12 } else { 3 };
    for round in 0..rounds {
        let l0 = live();
        let (bytes, up) = match guard(|| measure(|| c37_work(&v, comp, e, level))) {
            Ok(x) => x,
            Err(p) => return panicked(p),
        };
        let (out, down) = match guard(|| measure(|| CompressedStream::from_bytes(&bytes).decompress())) {
            Ok(x) => x,
            Err(p) => return panicked(p),
        };
        if out.len() != n {
            return fail(format!("{what}: {} samples come back", out.len()), dump(&v));
        }
        if n >= 4096 {
            for (k, x) in [("peak_compressing", up.peak), ("total_compressing", up.total), ("peak_decompressing", down.peak), ("total_decompressing", down.total)] {
                c.local.max(&format!("bytes_per_sample_{k}_{}", cname(comp)), x / n as u64);
            }
        }
        for (doing, u, total) in [("compressing", up, TOTAL_COMPRESSING), ("decompressing", down, TOTAL_DECOMPRESSING)] {
            if u.peak > limit(PEAK_PER_SAMPLE) {
                return fail(format!("{what}: {doing} {n} samples holds {} bytes at once, {} per sample", u.peak, u.peak / n as u64), dump(&v));
            }
            // IDW looks at all samples anew for each point it adds, by design
            if comp != Compressor::Idw && u.total > 4 * BASE + total * n as u64 {
                return fail(format!("{what}: {doing} {n} samples allocates {} bytes in all, {} per sample", u.total, u.total / n as u64), dump(&v));
            }
        }
        drop((bytes, out));
        left.push(live() - l0);
        c.local.count(if round == 0 { "frames_measured" } else { "repetitions_measured" });
    }
    // what the first time leaves behind may be kept for good, but not more of it every time
    let more: i64 = left[1..].iter().sum();
    if more > 0 {
        return fail(format!("{what}: every repetition leaves memory allocated: {left:?} bytes"), dump(&v));
    }
    if left[0] > limit(PEAK_PER_SAMPLE) as i64 {
        return fail(format!("{what}: {} bytes remain allocated", left[0]), dump(&v));
    }
    if left[0] > 0 {
        c.count("kept_once");
    }
    c.local.add("samples_measured", n as u64);
    if n > 1 {
        c.local.hit(hash_f64s(c.idx % 7 + 10 * level as u64, &v));
    }
    c.local.sample(|| what.clone());
    Ok(())
}

/// Frames of changing content and few lengths, one after the other: what remains must not add up
fn c37_history(c: &mut Case) -> Res {
    let comps = all_compressors();
    let r = &mut c.rng;
    let only = (r.chance(0.6)).then(|| comps[r.below(7)]);
    let lens: Vec<usize> = (0..1 + r.below(3)).map(|_| 200 + r.below(1500)).collect();
    let rounds = 40;
    let mut series_list = vec![];
    for k in 0..rounds {
        let comp = only.unwrap_or(comps[k % 7]);
        let n = if comp == Compressor::Idw { lens[k % lens.len()].min(250) } else { lens[k % lens.len()] };
        let mut v = series(r, n, Wild::No).v;
        v.resize(n, 1.5);
        if comp == Compressor::FFT {
            v.iter_mut().filter(|x| x.abs() >= 1e29).for_each(|x| *x = x.signum() * 1e29);
        }
        let e = *r.pick(&[0.0f32, 0.01, 0.05, 0.2]);
        let level = if comp == Compressor::Auto { r.below(7) } else { 0 };
        series_list.push((comp, v, e, level));
    }
    let half = rounds / 2;
    let mut at = vec![0i64; rounds];
    for (k, (comp, v, e, level)) in series_list.iter().enumerate() {
        let out = guard(|| {
            let bytes = c37_work(v, *comp, Some(*e), *level);
            CompressedStream::from_bytes(&bytes).decompress().len()
        });
        match out {
            Err(p) => return fail(format!("{} n={}: panic {p}", cname(*comp), v.len()), dump(v)),
            Ok(m) if m != v.len() => return fail(format!("{}: {m} of {} samples come back", cname(*comp), v.len()), dump(v)),
            _ => {}
        }
        at[k] = live();
    }
    let grown = at[rounds - 1] - at[half - 1];
    if grown > 2048 {
        let what = only.map(|x| cname(x).to_string()).unwrap_or("all in turn".into());
        return fail(format!("{what}: {half} further frames of lengths {lens:?} leave {grown} bytes allocated"), format!("{at:?}"));
    }
    c.local.max("bytes_left_by_20_frames", grown.max(0) as u64);
    c.local.add("frames_in_histories", rounds as u64);
    c.local.hit(hash_f64s(7, &series_list[0].1));
    c.local.sample(|| format!("history of {rounds} frames of lengths {lens:?}"));
    Ok(())
}
/// The same of the files around: WBRO files and VSRI indexes
fn c37_files(c: &mut Case) -> Res {
    let d = crate::p_wbro::scratch(c);
    let p = d.0.join("f");
    let r = &mut c.rng;
    let n = match r.below(12) {
        0 => 200_000 + r.below(200_000),
        1..=3 => 86_400,
        _ => 1 + r.below(20_000),
    };
    let check = |what: &str, u: &crate::alloc::Use, units: usize, peak: u64, total: u64| {
        if u.peak > (64 << 10) + peak * units as u64 || u.total > (256 << 10) + total * units as u64 {
            return fail::<()>(format!("{what}: holds {} bytes at once and allocates {} in all for {units}", u.peak, u.total), what.to_string());
        }
        Ok(())
    };
    let mut left = vec![];
    if c.idx % 2 == 0 {
        let v: Vec<f64> = (0..n).map(|i| i as f64 * 0.5).collect();
        for _ in 0..3 {
            let l0 = live();
            let x = guard(|| {
                let (wb, a) = measure(|| {
                    let mut wb = wavbrro::wavbrro::WavBrro::new();
                    v.iter().for_each(|x| wb.add_sample(*x));
                    wb
                });
                let (_, b) = measure(|| wb.to_file(&p));
                let ((), f) = measure(|| wavbrro::wavbrro::WavBrro::to_file_with_data(&p, &v));
                let (back, e) = measure(|| wavbrro::wavbrro::WavBrro::from_file(&p));
                (a, b, f, e, back.map(|x| x.len()).unwrap_or(usize::MAX))
            });
            match x {
                Err(m) => return fail(format!("WBRO of {n} samples: panic {m}"), ""),
                Ok((a, b, f, e, len)) => {
                    if len != n {
                        return fail(format!("WBRO of {n} samples: {len} come back"), "");
                    }
                    for (what, u) in [("adding samples to a WBRO", a), ("writing a WBRO", b), ("writing samples as a WBRO", f), ("reading a WBRO", e)] {
                        c.local.max(&format!("wbro_bytes_per_sample_{}", what.replace(' ', "_")), u.total / n as u64);
                        check(what, &u, n, 100, 200)?;
                    }
                }
            }
            left.push(live() - l0);
        }
        c.local.count("wbro_files_measured");
    } else {
        // points of one day: regular, with gaps, or irregular
        let n = n.min(86_400);
        let kind = r.below(3);
        let mut t = 0;
        let mut pts = vec![];
        while pts.len() < n && t < 86_400 {
            pts.push(t);
            t += match kind {
                0 => 1,
                1 if pts.len() % 100 == 0 => 7,
                1 => 1,
                _ => 1 + r.range(0, 4) as i32,
            };
        }
        // stretches of one step
        let steps: Vec<i32> = pts.windows(2).map(|w| w[1] - w[0]).collect();
        let segments = 1 + steps.windows(2).filter(|w| w[0] != w[1]).count();
        for _ in 0..3 {
            let l0 = live();
            let x = guard(|| {
                let (ix, a) = measure(|| {
                    let mut ix = vsri::Vsri::new("f");
                    pts.iter().all(|t| ix.update_for_point(*t).is_ok()).then_some(ix)
                });
                let ix = ix.expect("a point is refused");
                let (w, b) = measure(|| ix.flush_to(&p).is_ok());
                let (back, e) = measure(|| vsri::Vsri::load(p.to_str().unwrap_or("")).ok());
                let back = back.expect("the index can't be read");
                let (all, f) = measure(|| back.get_all_timestamps().len());
                let (_, g) = measure(|| pts.iter().step_by(1 + pts.len() / 200).filter(|t| back.get_sample(**t).is_some() && back.get_next_sample(**t).is_some() && !back.is_empty([**t, **t])).count());
                (w && all == pts.len(), a, b, e, f, g)
            });
            match x {
                Err(m) => return fail(format!("index of {} points kind {kind}: panic {m}", pts.len()), ""),
                Ok((ok, a, b, e, f, g)) => {
                    if !ok {
                        return fail(format!("index of {} points kind {kind}: does not come back", pts.len()), "");
                    }
                    for (what, u, peak, total) in [("filling an index", a, 100, 200), ("writing an index", b, 200, 400), ("reading an index", e, 200, 600), ("looking into an index", g, 0, 0)] {
                        c.local.max(&format!("index_bytes_per_segment_{}", what.replace(' ', "_")), u.total / segments as u64);
                        check(what, &u, segments, peak, total)?;
                    }
                    check("listing an index", &f, pts.len(), 24, 48)?;
                }
            }
            left.push(live() - l0);
        }
        c.local.count("indexes_measured");
        c.local.add("index_points", pts.len() as u64);
    }
    if left[1] > 0 && left[2] > 0 {
        return fail(format!("every repetition leaves memory allocated: {left:?} bytes"), "");
    }
    c.local.hit(hash_str(&format!("{} {n} {:?}", c.idx % 2, c.rng.u64())));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C38
fn diff(before: &BTreeMap<String, Vec<u8>>, after: &BTreeMap<String, Vec<u8>>) -> Vec<String> {
    let mut d: Vec<String> = after.iter().filter(|(k, x)| before.get(*k) != Some(*x)).map(|x| x.0.clone()).collect();
    d.extend(before.keys().filter(|k| !after.contains_key(*k)).map(|k| format!("{k} (gone)")));
    d
}
fn c38_case(c: &mut Case) -> Res {
    let (_d, w) = work(c);
    let w2 = w.join("../ref");
    std::fs::create_dir_all(&w2).expect("HARNESS: scratch");
    let r = &mut c.rng;
    let most = *r.pick(&[4, 40, 400]);
    let n = if r.chance(0.05) { 0 } else { 1 + r.below(most) };
    let v = if n == 0 { vec![] } else { series(r, n, Wild::No).v };
    let mut t = "timestamp,value\n".to_string();
    let day = r.range(-400, 20000);
    let mut s = r.range(0, 2000);
    let step = *r.pick(&[1, 5, 15, 20]);
    let mut finite = vec![];
    for x in &v {
        let x = if r.chance(0.02) { f64::NAN } else { *x };
        if x.is_finite() {
            finite.push(x);
        }
        t += &format!("{},{x}\n", (day * 86_400 + s) * 1000);
        s += if r.chance(0.9) { step } else { r.range(0, 60) };
    }
    let k = r.below(6);
    let (name, comp) = KINDS[k];
    let e = crate::p_series::pick_err(r);
    let exe = tool(&c.ctx.bin, "csv-compressor");
    // all there can be, for comparison
    let mut set: Vec<String> = vec!["--compressor".into(), name.into(), format!("-e{e}")];
    put(&w2.join("m.csv"), &t);
    let mut a = set.clone();
    a.extend(["m.csv".into(), "--output-vsri".into(), "--output-wavbrro".into()]);
    let res = run(&exe, &a, &w2, Limits::default(), &[]);
    let shown = || t.chars().take(40_000).collect::<String>();
    if !res.ok() {
        return fail(format!("csv-compressor {a:?} on {n} rows: {}", res.how()), shown());
    }
    let part = |x: &str| get(&w2.join(x));
    let (bro, vsri, wbro) = match (part("m.bro"), part("m.vsri"), part("m.wavbro")) {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => return fail(format!("csv-compressor {a:?} does not write all three outputs"), shown()),
    };
    if n > 0 {
        let lib = guard(|| library(&finite, comp, e, 0)).or_else(|p| fail(format!("library: {p}"), dump(&finite)))?;
        if lib != bro {
            return fail(format!("csv-compressor {a:?}: the .bro differs from the library's"), shown());
        }
        if wbro != wbro_bytes(&finite) {
            return fail(format!("csv-compressor {a:?}: the .wavbro does not hold the values"), shown());
        }
    }
    // one choice of outputs, between older and foreign files
    let out = *r.pick(&["", "", "res", "res.csv", "sub/res", "a.b", "sub/x.bro", "m"]);
    let base = match out {
        "" => "m".to_string(),
        "a.b" => "a".to_string(),
        x => x.trim_end_matches(".csv").trim_end_matches(".bro").to_string(),
    };
    std::fs::create_dir_all(w.join("sub")).expect("HARNESS: scratch");
    for b in ["m", "res", "sub/res", "a", "sub/x", "other"] {
        for x in ["bro", "vsri", "wavbro", "wbro"] {
            if r.chance(0.3) {
                put(&w.join(format!("{b}.{x}")), format!("an older {b}.{x}, longer than what is written in its place, perhaps{}", "....".repeat(r.below(4000))));
            }
        }
    }
    put(&w.join("m.csv"), &t);
    let mut asked = BTreeMap::new();
    let (ix, wb, no) = (r.chance(0.5), r.chance(0.5), r.chance(0.4));
    if ix {
        set.push("--output-vsri".into());
        asked.insert(format!("{base}.vsri"), vsri.clone());
    }
    if wb {
        set.push("--output-wavbrro".into());
        asked.insert(format!("{base}.wavbro"), wbro);
    }
    if no {
        set.push("--no-compression".into());
    } else {
        asked.insert(format!("{base}.bro"), bro.clone());
    }
    if !out.is_empty() {
        set.push(if r.chance(0.5) { format!("-o{out}") } else { format!("--output={out}") });
    }
    let at = r.below(2) * set.len();
    set.insert(at, "m.csv".into());
    let around = surroundings(r, n);
    let before = snapshot(&w);
    let res = run(&exe, &set, &w, Limits::default(), &around);
    if !res.ok() {
        return fail(format!("csv-compressor {set:?} on {n} rows: {}", res.how()), shown());
    }
    let mut want = before.clone();
    want.extend(asked.clone());
    let after = snapshot(&w);
    if after != want {
        return fail(format!("csv-compressor {set:?} on {n} rows: differs from what was asked for in {:?}", diff(&want, &after)), shown());
    }
    c.local.count(&format!("runs_with{}{}{}", if ix { "_index" } else { "" }, if wb { "_wavbro" } else { "" }, if no { "_no_compression" } else { "" }));
    c.local.add("outputs_compared", asked.len() as u64);
    // a file it cannot take: nothing changes
    let r = &mut c.rng;
    let mut lines: Vec<String> = t.lines().map(|l| l.to_string()).collect();
    let kind = r.below(8);
    let at = 1 + r.below(n.max(1));
    let ms = |s: i64| (day * 86_400 + s) * 1000;
    let mut raw: Option<Vec<u8>> = None;
    let why = match kind {
        0 if n >= 2 && s > 0 => {
            // the last row, one second before the largest so far
            let top = lines[1..].iter().filter(|l| !l.ends_with("NaN")).filter_map(|l| l.split(',').next()?.parse::<i64>().ok()).max();
            match top {
                Some(x) if x.div_euclid(1000).rem_euclid(86_400) > 0 => {
                    lines.push(format!("{},1.5", x - 1000 * (1 + r.range(0, x.div_euclid(1000).rem_euclid(86_400) - 1))));
                    "a row that goes back in time"
                }
                _ => {
                    lines.push("x,1".into());
                    "a timestamp that is no number"
                }
            }
        }
        1 => {
            lines.insert(at.min(lines.len()), format!("{},{}", ms(86_000), r.pick(&["x", "", "1.5.2", "1,5", "--1", "0x10", "1e", "\"1", "one"])));
            "a value that is no number"
        }
        2 => {
            lines.insert(at.min(lines.len()), format!("{},1", r.pick(&["x", "", "1.5", "2020-01-01T00:00:00Z", "99999999999999999999", "1e3", "9223372036854775807", "-9223372036854775808"])));
            "a timestamp that is none"
        }
        3 => {
            lines[0] = r.pick(&["time,value", "timestamp,val", "timestamp", "value,time", "Timestamp,Value"]).to_string();
            if n == 0 {
                lines.push("1,1".into());
            }
            "a column that is missing"
        }
        4 => {
            lines.push(format!("{}", ms(86_399)));
            "a short last row"
        }
        5 => {
            lines.insert(at.min(lines.len()), format!("{},1,2", ms(86_000)));
            "a row that is too long"
        }
        6 => {
            let mut b = t.clone().into_bytes();
            b.extend_from_slice(format!("{},1", ms(86_399)).as_bytes());
            b.push(0xff);
            b.extend_from_slice(b"0\n");
            raw = Some(b);
            "bytes that are no text"
        }
        _ => {
            set.iter_mut().for_each(|x| {
                if x == "m.csv" {
                    *x = "none.csv".into()
                }
            });
            "an input that is missing"
        }
    };
    put(&w.join("m.csv"), raw.unwrap_or_else(|| (lines.join("\n") + "\n").into_bytes()));
    let before = snapshot(&w);
    let res = run(&exe, &set, &w, Limits::default(), &around);
    let shown = || String::from_utf8_lossy(&before["m.csv"]).chars().take(40_000).collect::<String>();
    if res.ok() {
        return fail(format!("csv-compressor {set:?} accepts {why}"), shown());
    }
    if res.signal.is_some() {
        return fail(format!("csv-compressor {set:?} with {why} ends with {}", res.how()), shown());
    }
    let after = snapshot(&w);
    if after != before {
        return fail(format!("csv-compressor {set:?} refuses {why}, but changes {:?}", diff(&before, &after)), shown());
    }
    c.local.count(&format!("refused_{}", why.replace(' ', "_")));
    // back again: two outputs, and only with the index
    let r = &mut c.rng;
    let out = *r.pick(&["", "back", "sub/back", "back.csv"]);
    let base = if out.is_empty() { "q".to_string() } else { out.trim_end_matches(".csv").to_string() };
    put(&w.join("q.bro"), &bro);
    let indexed = r.chance(0.6);
    let mut lacks = "the index";
    if indexed {
        put(&w.join("q.vsri"), &vsri);
    } else if finite.len() > 2 && r.chance(0.5) {
        // an index of fewer samples than the stream holds
        lacks = "an index of all samples";
        let mut ix = vsri::Vsri::new("q");
        let k = 1 + r.below(finite.len() - 2);
        let irregular = r.chance(0.5);
        for i in 0..k as i32 {
            let at = if irregular { i * i / 3 } else { 7 * i };
            if ix.update_for_point(at).is_err() || at > 86_000 {
                break;
            }
        }
        ix.flush_to(&w.join("q.vsri")).expect("HARNESS: scratch");
    }
    if r.chance(0.3) {
        put(&w.join(format!("{base}.csv")), vec![b'z'; 30_000]);
        put(&w.join(format!("{base}.vsri.old")), b"0\n0\n");
    }
    let mut a = vec!["-u".to_string(), "q.bro".into()];
    if !out.is_empty() {
        a.extend(["-o".to_string(), out.to_string()]);
    }
    if r.chance(0.3) {
        a.push("--output-csv".into());
    }
    let before = snapshot(&w);
    let res = run(&exe, &a, &w, Limits::default(), &around);
    let after = snapshot(&w);
    let changed = diff(&before, &after);
    if indexed {
        if !res.ok() {
            return fail(format!("csv-compressor {a:?}: {}", res.how()), shown());
        }
        let mut want = vec![format!("{base}.csv"), format!("{base}.wbro")];
        want.retain(|f| before.get(f) != after.get(f));
        if changed != want || !after.contains_key(&format!("{base}.csv")) || !after.contains_key(&format!("{base}.wbro")) {
            return fail(format!("csv-compressor {a:?} changes {changed:?}"), shown());
        }
        // the same where nothing was before
        let clean = w.join("clean");
        std::fs::create_dir_all(&clean).expect("HARNESS: scratch");
        put(&clean.join("q.bro"), &bro);
        put(&clean.join("q.vsri"), &vsri);
        let res = run(&exe, &["-u".to_string(), "q.bro".into()], &clean, Limits::default(), &around);
        let fresh = snapshot(&clean);
        for x in ["csv", "wbro"] {
            if !res.ok() || fresh.get(&format!("q.{x}")) != after.get(&format!("{base}.{x}")) {
                return fail(format!("csv-compressor {a:?}: the .{x} is another in an empty directory ({})", res.how()), shown());
            }
        }
        c.local.count("decompressed");
    } else {
        if res.ok() || !changed.is_empty() {
            return fail(format!("csv-compressor {a:?} without {lacks}: {}, changes {changed:?}", res.how()), shown());
        }
        c.local.count(&format!("refused_without_{}", lacks.replace(' ', "_")));
    }
    c.local.hit(hash_str(&format!("{set:?}{out}{n}")) ^ hash_f64s(kind as u64, &v));
    c.local.sample(|| format!("{set:?} on {n} rows, {why}"));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C39
/// The name with what follows its last dot replaced, or appended where it has none
fn replaced(name: &[u8], ext: &str) -> Vec<u8> {
    let cut = name.iter().rposition(|b| *b == b'.').filter(|i| *i > 0).unwrap_or(name.len());
    let mut v = name[..cut].to_vec();
    v.push(b'.');
    v.extend_from_slice(ext.as_bytes());
    v
}
fn odd_name(r: &mut Rng, ext: &str, bytes: bool) -> Vec<u8> {
    let stems: &[&str] = &["a", "cpu.load", "a b", " lead", "trail ", "x.csv", "y.bro.old", "\u{e4}\u{f6}\u{20ac}", "\u{1F600}", "e\u{301}", "-dash", "--x", "(1)", "a'b", "q\"q", "$HOME", "*", "a\\b", "new\nline", "tab\t", "%s%d", "~", "CON", "..dots", "...", "a..b", "#1", "&", ";", "0", "wbro", "bro", "wav", "csv.csv", "wav.wav", "my.wbro.wav", "brobro", "x.wav.y"];
    let mut v = match r.below(8) {
        0 => vec![b'n'; 1 + r.below(240)],
        1 if bytes => {
            let k = 1 + r.below(6);
            let mut v: Vec<u8> = (0..k).map(|_| *r.pick(&[0x80u8, 0xff, 0xc3, b'a', 0xfe, b'_', 0x01, 0x7f])).collect();
            v.push(b'z');
            v
        }
        _ => {
            let mut s = r.pick(stems).to_string();
            if r.chance(0.3) {
                s += *r.pick(stems);
            }
            s.into_bytes()
        }
    };
    v.push(b'.');
    v.extend_from_slice(ext.as_bytes());
    v
}
fn os(v: &[u8]) -> OsString {
    OsString::from_vec(v.to_vec())
}
/// Every file below a directory by its exact name
fn tree(d: &Path, at: &[u8], m: &mut BTreeMap<Vec<u8>, Vec<u8>>) {
    for e in std::fs::read_dir(d).expect("HARNESS: scratch") {
        let e = e.expect("HARNESS: scratch");
        let mut k = at.to_vec();
        k.push(b'/');
        k.extend_from_slice(e.file_name().as_bytes());
        let t = e.file_type().expect("HARNESS: scratch");
        if t.is_dir() {
            m.insert(k.clone(), b"directory".to_vec());
            tree(&e.path(), &k, m);
        } else if t.is_symlink() {
            m.insert(k, std::fs::read_link(e.path()).expect("HARNESS: scratch").into_os_string().into_vec());
        } else {
            m.insert(k, std::fs::read(e.path()).expect("HARNESS: scratch"));
        }
    }
}
fn c39_case(c: &mut Case) -> Res {
    let (_d, w) = work(c);
    let r = &mut c.rng;
    let n = 1 + r.below(60);
    let v = series(r, n, Wild::No).v;
    let mode = c.idx % 6;
    // what is read, and what is to come of it
    let lib = |v: &[f64]| guard(|| library(v, Compressor::RLE, 3, 0)).or_else(|p| fail(format!("library: {p}"), dump(v)));
    let csv = || {
        let mut t = "timestamp,value\n".to_string();
        for (i, x) in v.iter().enumerate() {
            t += &format!("{},{x}\n", i * 1000);
        }
        t.into_bytes()
    };
    let noop = v.iter().map(|x| x.round().clamp(-1e15, 1e15)).collect::<Vec<f64>>();
    let (exe, mut args, ext, input, out_ext, output): (&str, Vec<&str>, &str, Vec<u8>, &str, Vec<u8>) = match mode {
        0 => ("atsc", vec!["--compressor", "rle"], *r.pick(&["wbro", "wbro", "WBRO", "dat", "csv", "x"]), wbro_bytes(&v), "bro", lib(&v)?),
        1 => ("atsc", vec!["--compressor", "rle", "--csv", "--fields=timestamp,value"], *r.pick(&["csv", "csv", "CSV", "txt", "wbro"]), csv(), "bro", lib(&v)?),
        2 => {
            let b = lib(&v)?;
            let back = guard(|| CompressedStream::from_bytes(&b).decompress()).or_else(|p| fail(format!("library: {p}"), dump(&v)))?;
            ("atsc", vec!["-u"], *r.pick(&["bro", "bro", "BRO", "data", "bak"]), b, "wbro", wbro_bytes(&back))
        }
        3 => ("wav2wbro", vec![], "wav", wav(&v, false), "wbro", wbro_bytes(&v)),
        4 => ("csv-compressor", vec!["--no-compression", "--output-wavbrro"], *r.pick(&["csv", "csv", "txt"]), csv(), "wavbro", wbro_bytes(&v)),
        _ => {
            let b = guard(|| library(&noop, Compressor::Noop, 3, 0)).or_else(|p| fail(format!("library: {p}"), dump(&noop)))?;
            let mut t = "timestamp,value\n".to_string();
            for (i, x) in noop.iter().enumerate() {
                t += &format!("{},{x}\n", i * 1000);
            }
            ("csv-compressor", vec!["--compressor", "noop"], "csv", t.into_bytes(), "bro", b)
        }
    };
    let bytes = exe == "atsc";
    let mut name = odd_name(r, ext, bytes);
    let mut made = if mode == 3 { [&name[..name.len() - 3], b"wbro"].concat() } else { replaced(&name, out_ext) };
    if mode != 3 && r.chance(0.12) {
        // without an extension, or nothing but one
        name = r.pick(&[&b"plain"[..], b".hidden", b"a.", b".x.y", b"x.y.", b"Makefile", b"wbro", b"bro"]).to_vec();
        made = replaced(&name, out_ext);
    }
    if made == name || made.len() > 250 {
        c.count("names_skipped");
        return Ok(());
    }
    let dirs: &[&str] = &["in", "in/deep/er", "with space", "dot.dir", "in.bro", "\u{fc}ml", "a,b", "in/.hid", "wav", "my.wav", "csv.wbro", "wbro/csv"];
    let d = *r.pick(dirs);
    let cwd = w.join(r.pick(&["", "here", "in"]));
    for p in [w.join(d), cwd.clone(), w.join("here"), w.join("in")] {
        std::fs::create_dir_all(p).expect("HARNESS: scratch");
    }
    let real = w.join(d);
    std::os::unix::fs::symlink(&real, w.join("here/link")).expect("HARNESS: scratch");
    if r.chance(0.15) {
        // the input is a link to a file elsewhere, under another name
        std::fs::create_dir_all(w.join("far")).expect("HARNESS: scratch");
        put(&w.join("far/stored.dat"), &input);
        std::os::unix::fs::symlink(w.join("far/stored.dat"), real.join(os(&name))).expect("HARNESS: scratch");
        c.local.count("inputs_that_are_links");
    } else {
        put(&real.join(os(&name)), &input);
    }
    // files of the same names in other places
    for p in [w.join("here"), w.join("in"), w.clone()] {
        for f in [&made, &name] {
            if p != real && !p.join(os(f)).exists() && r.chance(0.5) {
                put(&p.join(os(f)), b"somebody else's");
            }
        }
    }
    if r.chance(0.4) {
        put(&real.join(os(&made)), [b'o'; 3000]);
    }
    // how it is called
    let up = || -> PathBuf { if cwd == w { PathBuf::from(".") } else { PathBuf::from("..") } };
    let way = r.below(6);
    let mut path = match way {
        0 => real.clone(),
        1 => up().join(d),
        2 => up().join(".").join(d).join("."),
        3 => PathBuf::from(format!("{}//{}", up().display(), d)),
        4 => up().join("here/link"),
        _ => up().join("in").join("..").join(d),
    };
    path.push(os(&name));
    let mut at = cwd.clone();
    if r.chance(0.25) {
        // from the very directory
        at = real.clone();
        path = PathBuf::from(os(&name));
        if name.starts_with(b"-") {
            path = Path::new("./").join(path);
        }
    }
    // csv-compressor can be told where to put it
    let mut target = real.join(os(&made));
    let mut all: Vec<OsString> = args.drain(..).map(OsString::from).collect();
    if exe == "csv-compressor" && r.chance(0.5) {
        let e2 = *r.pick(&["", "bro", "csv", "x"]);
        let o = if e2.is_empty() { odd_name(r, "q", false)[..].split(|b| *b == b'.').next().unwrap_or(b"o").to_vec() } else { odd_name(r, e2, false) };
        let o = if o.is_empty() { b"o".to_vec() } else { o };
        let m = replaced(&o, out_ext);
        if m.len() > 250 || w.join("here").join(os(&m)) == real.join(os(&name)) {
            return Ok(());
        }
        target = w.join("here").join(os(&m));
        let mut p = if at == real { w.join("here") } else { up().join("here") };
        p.push(os(&o));
        all.push("-o".into());
        all.push(p.into_os_string());
    }
    let k = r.below(2) * all.len();
    all.insert(k, path.clone().into_os_string());
    let around = surroundings(r, n);
    let mut before = BTreeMap::new();
    tree(&w, b"", &mut before);
    // the output of the run goes where it can't be mistaken for one of its own
    let logs = w.parent().expect("HARNESS: scratch").to_path_buf();
    let res = crate::cli::run_out(&tool(&c.ctx.bin, exe), &all, &at, Limits::default(), &around, Some(&logs));
    let what = format!("{exe} {all:?} in {:?}", at.strip_prefix(&w).unwrap_or(Path::new("?")));
    if !res.ok() {
        return fail(format!("{what}: {}", res.how()), dump(&v));
    }
    let mut after = BTreeMap::new();
    tree(&w, b"", &mut after);
    let mut key = b"/".to_vec();
    key.extend_from_slice(target.strip_prefix(&w).expect("HARNESS: target").as_os_str().as_bytes());
    let mut want = before.clone();
    want.insert(key.clone(), output);
    if after != want {
        let d: Vec<String> = after.iter().filter(|(k, x)| want.get(*k) != Some(*x)).map(|x| String::from_utf8_lossy(x.0).into_owned()).chain(want.keys().filter(|k| !after.contains_key(*k)).map(|k| format!("{} (missing)", String::from_utf8_lossy(k)))).collect();
        return fail(format!("{what}: should change {:?} only; differs in {d:?}", OsStr::from_bytes(&key)), dump(&v));
    }
    c.local.count(&format!("runs_{exe}"));
    c.local.count(&format!("way_{way}"));
    c.local.hit(hash_bytes(hash_bytes(mode, &name), path.as_os_str().as_bytes()));
    c.local.sample(|| what.clone());
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C42
/// The index file as documented: minimum, maximum, then rate, first sample, first second, samples of each stretch
fn index_text(stretches: &[(i32, i32, i32)]) -> (String, Vec<i32>) {
    let mut t = vec![];
    let mut lines = String::new();
    for (rate, first, n) in stretches {
        lines += &format!("{rate},{},{first},{n}\n", t.len());
        t.extend((0..*n).map(|i| first + rate * i));
    }
    (format!("{}\n{}\n{lines}", t[0], t[t.len() - 1]), t)
}
/// Reads an index file by the documentation alone
fn read_index(text: &str) -> Result<Vec<i32>, String> {
    if !text.ends_with('\n') {
        return Err("no newline at the end".into());
    }
    let mut lines = text.lines();
    let mut one = || lines.next().ok_or("too few lines".to_string()).and_then(|l| l.parse::<i32>().map_err(|_| format!("line {l:?}")));
    let (min, max) = (one()?, one()?);
    let mut t: Vec<i32> = vec![];
    for l in lines {
        let f: Vec<i32> = l.split(',').map(|x| x.parse::<i32>()).collect::<Result<_, _>>().map_err(|_| format!("line {l:?}"))?;
        let [rate, x, y, n] = f[..] else { return Err(format!("line {l:?}")) };
        if x as usize != t.len() || n < 1 || rate < 0 || (rate == 0) != (n == 1) {
            return Err(format!("stretch {l:?} after {} samples", t.len()));
        }
        t.extend((0..n).map(|i| y + rate * i));
    }
    if t.first() != Some(&min) || t.last() != Some(&max) {
        return Err(format!("minimum {min} and maximum {max} of {:?}..{:?}", t.first(), t.last()));
    }
    Ok(t)
}
fn c42_index(c: &mut Case) -> Res {
    let d = crate::p_wbro::scratch(c);
    let r = &mut c.rng;
    let (p, q) = (d.0.join("a.vsri"), d.0.join("b.vsri"));
    let mut stretches: Vec<(i32, i32, i32)> = vec![];
    if c.idx == 0 {
        // the example of the documentation
        stretches = vec![(15, 55745, 166), (15, 58505, 63)];
    } else {
        let most = *r.pick(&[1, 100, 50_000]);
        let mut at = r.range(0, most) as i32;
        for _ in 0..1 + r.below(8) {
            let long = *r.pick(&[2, 10, 300]);
            let n = if r.chance(0.25) { 1 } else { 2 + r.below(long) as i32 };
            let rate = if n == 1 { 0 } else { *r.pick(&[1, 1, 5, 15, 60, 7, 600]) };
            if at as i64 + rate as i64 * n as i64 > 86_399 {
                break;
            }
            stretches.push((rate, at, n));
            at += rate * (n - 1) + 1 + r.range(0, 700) as i32;
        }
        if stretches.is_empty() {
            stretches.push((0, at.min(86_399), 1));
        }
    }
    let (text, times) = index_text(&stretches);
    let say = |what: String| fail::<()>(what, text.clone());
    std::fs::write(&p, &text).expect("HARNESS: scratch");
    let next = times[times.len() - 1] + 1 + r.range(0, 900) as i32;
    let got = guard(|| -> Result<(), String> {
        let mut ix = vsri::Vsri::load(p.to_str().unwrap_or("")).map_err(|e| format!("the file is refused: {e}"))?;
        let n = times.len() as i32;
        if ix.min() != times[0] || ix.max() != times[times.len() - 1] || ix.get_sample_count() != n {
            return Err(format!("read as {}..{} of {} samples", ix.min(), ix.max(), ix.get_sample_count()));
        }
        if ix.get_all_timestamps() != times {
            return Err("other timestamps are read from the file".into());
        }
        for (i, t) in times.iter().enumerate() {
            if ix.get_time(i as i32) != Some(*t) || ix.get_sample(*t) != Some(i as i32) {
                return Err(format!("sample {i} at second {t} is read as {:?}, {:?}", ix.get_time(i as i32), ix.get_sample(*t)));
            }
        }
        ix.flush_to(&q).map_err(|e| format!("{e}"))?;
        let back = read_index(&std::fs::read_to_string(&q).map_err(|e| format!("{e}"))?).map_err(|e| format!("written again: {e}"))?;
        if back != times {
            return Err("written again with other timestamps".into());
        }
        // continued
        ix.update_for_point(next).map_err(|_| format!("{next} is refused"))?;
        ix.flush_to(&q).map_err(|e| format!("{e}"))?;
        let back = read_index(&std::fs::read_to_string(&q).map_err(|e| format!("{e}"))?).map_err(|e| format!("continued by {next}: {e}"))?;
        if back[..back.len() - 1] != times[..] || back.last() != Some(&next) {
            return Err(format!("continued by {next} with other timestamps"));
        }
        // from nothing, through both ways to write it
        let name = q.with_extension("");
        let mut ix = vsri::Vsri::new(name.to_str().unwrap_or(""));
        for t in &times {
            ix.update_for_point(*t).map_err(|_| format!("{t} is refused"))?;
        }
        ix.flush().map_err(|e| format!("{e}"))?;
        let a = std::fs::read_to_string(&q).map_err(|e| format!("{e}"))?;
        ix.flush_to(&p).map_err(|e| format!("{e}"))?;
        if std::fs::read_to_string(&p).ok().as_deref() != Some(&a[..]) {
            return Err("flush and flush_to write different files".into());
        }
        if read_index(&a).map_err(|e| format!("written: {e}"))? != times {
            return Err("written with other timestamps".into());
        }
        Ok(())
    });
    match got {
        Err(m) => return say(format!("panic {m}")),
        Ok(Err(m)) => return say(m),
        Ok(Ok(())) => {}
    }
    // the executable, given such an index and a stream of as many samples
    if c.idx % 8 == 0 && times.len() <= 400 {
        let r = &mut c.rng;
        let v: Vec<f64> = (0..times.len()).map(|_| r.range(-500, 500) as f64).collect();
        let b = guard(|| library(&v, Compressor::Noop, 3, 0)).or_else(|p| fail(format!("library: {p}"), dump(&v)))?;
        put(&d.0.join("s.bro"), b);
        put(&d.0.join("s.vsri"), &text);
        let around = surroundings(r, times.len());
        let res = run(&tool(&c.ctx.bin, "csv-compressor"), &["-u".to_string(), "s.bro".into()], &d.0, Limits::default(), &around);
        let rows: Option<Vec<(i64, f64)>> = std::fs::read_to_string(d.0.join("s.csv")).ok().and_then(|t| {
            t.lines().skip(1).map(|l| l.split_once(',').and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?)))).collect()
        });
        let want: Vec<(i64, f64)> = times.iter().map(|t| *t as i64).zip(v).collect();
        if !res.ok() || rows.as_ref() != Some(&want) {
            return say(format!("csv-compressor -u with this index: {}, rows {:?}", res.how(), rows.map(|x| x.into_iter().take(20).collect::<Vec<_>>())));
        }
        c.local.count("decompressed_with_it");
    }
    c.local.add("timestamps_compared", times.len() as u64);
    c.local.count(&format!("stretches_{}", stretches.len()));
    c.local.hit(hash_str(&text));
    c.local.sample(|| text.replace('\n', " ").chars().take(120).collect());
    Ok(())
}
/// The WBRO file as it has always been: marker, chunks of 2048 samples, table of chunks, root
fn wbro_file(v: &[f64]) -> Vec<u8> {
    let mut f: Vec<u8> = b"WBRO0000WBRO".to_vec();
    v.iter().for_each(|x| f.extend_from_slice(&x.to_le_bytes()));
    let chunks = v.chunks(2048).map(|x| x.len()).collect::<Vec<_>>();
    let (mut data, table) = (0i64, 8 * v.len() as i64);
    for (i, n) in chunks.iter().enumerate() {
        f.extend_from_slice(&((data - (table + 8 * i as i64)) as i32).to_le_bytes());
        f.extend_from_slice(&(*n as u32).to_le_bytes());
        data += 8 * *n as i64;
    }
    f.extend_from_slice(&(-8 * chunks.len() as i32).to_le_bytes());
    f.extend_from_slice(&(chunks.len() as u32).to_le_bytes());
    f.extend_from_slice(&(v.len() as u32).to_le_bytes());
    f.extend_from_slice(&[5, 0, 0, 0]);
    f
}
fn c42_wbro(c: &mut Case) -> Res {
    use wavbrro::wavbrro::WavBrro;
    let d = crate::p_wbro::scratch(c);
    let r = &mut c.rng;
    let n = match r.below(8) {
        0 => 2048 * (1 + r.below(6)) + r.below(3) - 1,
        1 => 1 + r.below(30_000),
        _ => 1 + r.below(300),
    };
    let v = crate::p_wbro::bits(r, n);
    let want = wbro_file(&v);
    let p = d.0.join("x.wbro");
    let got = guard(|| -> Result<(), String> {
        std::fs::write(&p, &want).expect("HARNESS: scratch");
        let back = WavBrro::from_file(&p).map_err(|e| format!("a file of the documented layout is refused: {e}"))?;
        if !same_bits(&back, &v) {
            return Err("a file of the documented layout is read as other samples".into());
        }
        // all but the three bytes of padding at the end
        let cmp = |how: &str| -> Result<(), String> {
            let f = std::fs::read(&p).map_err(|e| format!("{e}"))?;
            match f.len() == want.len() && f[..f.len() - 3] == want[..want.len() - 3] {
                true => Ok(()),
                false => Err(format!("{how} writes another layout: {} bytes, not {}", f.len(), want.len())),
            }
        };
        WavBrro::to_file_with_data(&p, &v);
        cmp("to_file_with_data")?;
        let mut w = WavBrro::new();
        v.iter().for_each(|x| w.add_sample(*x));
        std::fs::remove_file(&p).map_err(|e| format!("{e}"))?;
        w.to_file(&p);
        cmp("to_file")
    });
    match got {
        Err(m) => return fail(format!("WBRO of {n} samples: panic {m}"), dump(&v)),
        Ok(Err(m)) => return fail(format!("WBRO of {n} samples: {m}"), dump(&v)),
        Ok(Ok(())) => {}
    }
    c.local.count("wbro_files_compared");
    c.local.hit(hash_f64s(3, &v));
    c.local.sample(|| format!("WBRO of {n} samples"));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C43
fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}
fn timed<T>(f: impl FnOnce() -> T) -> (T, f64) {
    let t = cpu();
    let r = f();
    (r, cpu() - t)
}
/// What sorting as many numbers takes here and now
fn yardstick(n: usize) -> f64 {
    let mut x = 88172645463325252u64;
    let mut v: Vec<f64> = (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x as f64
        })
        .collect();
    let (_, t) = timed(|| v.sort_by(|a, b| a.total_cmp(b)));
    std::hint::black_box(&v);
    t
}
/// Sorts of n numbers that one job on n samples may take
fn budget(what: &str) -> f64 {
    // about a dozen times the most that was ever seen, and never less than ten sorts
    match what {
        "compressing auto" => 1200.0,
        "compressing fft" => 600.0,
        "compressing polynomial" => 220.0,
        "compressing rle" => 220.0,
        "compressing plain fft" => 26.0,
        "decompressing auto" | "decompressing polynomial" | "decompressing plain polynomial" => 36.0,
        "decompressing fft" | "decompressing plain fft" => 22.0,
        "decompressing rle" | "reading csv" => 62.0,
        "reading an index" => 24.0,
        "writing wbro" | "writing an index" => 14.0,
        _ => 10.0,
    }
}
fn c43_case(c: &mut Case) -> Res {
    use wavbrro::wavbrro::WavBrro;
    let d = crate::p_wbro::scratch(c);
    let r = &mut c.rng;
    let n = *r.pick(&[131072usize, 131072, 131071, 100_000, 65536, 80_000]);
    let shape = r.below(8);
    let v: Vec<f64> = match shape {
        0 => (0..n).map(|i| (i % 2) as f64).collect(),
        1 => (0..n).map(|i| i as f64 * 0.37).collect(),
        2 => (0..n).map(|_| r.gauss()).collect(),
        3 => (0..n).map(|i| 100.0 + 50.0 * (i as f64 / 300.0).sin()).collect(),
        4 => (0..n).map(|i| (i / 100) as f64).collect(),
        5 => (0..n).map(|_| r.below(300) as f64 * 0.25).collect(),
        6 => (0..n).rev().map(|i| (i as f64).powi(2)).collect(),
        _ => series(r, n, Wild::No).v,
    };
    let v: Vec<f64> = v.into_iter().map(|x| if x.abs() >= 1e29 { 1e29f64.copysign(x) } else { x }).collect();
    let n = v.len();
    let e = *r.pick(&[0.0f32, 0.001, 0.01, 0.03, 0.05, 0.5]);
    let jobs = ["noop", "fft", "constant", "polynomial", "rle", "auto", "plain polynomial", "plain fft", "wbro", "index", "csv"];
    let job = jobs[(c.idx % jobs.len() as u64) as usize];
    let level = r.below(7);
    let path = d.0.join("f");
    let mut best: Vec<(String, f64)> = vec![];
    for attempt in 0..4 {
        let y = (0..2).map(|_| yardstick(n)).fold(f64::MAX, f64::min);
        let got = guard(|| -> Vec<(String, f64)> {
            let frame = |comp: Compressor, e: Option<f32>| {
                let (b, up) = timed(|| c37_work(&v, comp, e, level));
                let (o, down) = timed(|| CompressedStream::from_bytes(&b).decompress());
                assert_eq!(o.len(), n);
                vec![(format!("compressing {job}"), up), (format!("decompressing {job}"), down)]
            };
            match job {
                "noop" => frame(Compressor::Noop, Some(e)),
                "fft" => frame(Compressor::FFT, Some(e)),
                "constant" => frame(Compressor::Constant, Some(e)),
                "polynomial" => frame(Compressor::Polynomial, Some(e)),
                "rle" => frame(Compressor::RLE, Some(e)),
                "auto" => frame(Compressor::Auto, Some(e)),
                "plain polynomial" => frame(Compressor::Polynomial, None),
                "plain fft" => frame(Compressor::FFT, None),
                "wbro" => {
                    let (_, a) = timed(|| {
                        let mut w = WavBrro::new();
                        v.iter().for_each(|x| w.add_sample(*x));
                        w.to_file(&path)
                    });
                    let (_, b) = timed(|| WavBrro::from_file(&path).map(|x| x.len()));
                    vec![("writing wbro".into(), a), ("reading wbro".into(), b)]
                }
                "index" => {
                    // a day of points in stretches
                    let mut ix = vsri::Vsri::new("f");
                    let pts: Vec<i32> = (0..86_400).filter(|t| shape % 3 == 0 || t % [97, 5, 3][(shape % 3) as usize] != 2).collect();
                    let (_, a) = timed(|| pts.iter().for_each(|t| assert!(ix.update_for_point(*t).is_ok())));
                    let (_, b) = timed(|| ix.flush_to(&path).is_ok());
                    let (l, f) = timed(|| vsri::Vsri::load(path.to_str().unwrap_or("")).map(|x| x.get_all_timestamps().len()).unwrap_or(0));
                    assert_eq!(l, pts.len());
                    vec![("filling an index".into(), a), ("writing an index".into(), b), ("reading an index".into(), f)]
                }
                _ => {
                    let mut t = "time,value\n".to_string();
                    v.iter().enumerate().for_each(|(i, x)| t += &format!("{i},{x}\n"));
                    std::fs::write(&path, t).expect("HARNESS: scratch");
                    let (l, a) = timed(|| atsc::csv::read_samples_with_headers(&path, "time", "value").map(|x| x.len()).unwrap_or(0));
                    assert_eq!(l, n);
                    let (l, b) = timed(|| {
                        let mut p = atsc::optimizer::OptimizerPlan::plan(&v);
                        p.set_compressor(Compressor::Noop);
                        p.get_execution().len()
                    });
                    assert!(l >= 1);
                    vec![("reading csv".into(), a), ("planning".into(), b)]
                }
            }
        });
        let got = got.or_else(|p| fail(format!("{job} {n} samples: panic {p}"), dump(&v)))?;
        for (k, (w, t)) in got.into_iter().enumerate() {
            let x = t / y;
            if attempt == 0 {
                best.push((w, x));
            } else {
                best[k].1 = best[k].1.min(x);
            }
        }
        if best.iter().all(|(w, x)| *x <= budget(w)) {
            break;
        }
    }
    for (w, x) in &best {
        if *x > budget(w) {
            return fail(format!("{w} of {n} samples (shape {shape}, e={e}, level {level}) takes as long as {x:.0} sorts of as many numbers"), dump(&v[..v.len().min(2000)]));
        }
        c.local.max(&format!("hundredths_of_a_sort_{}", w.replace(' ', "_")), (x * 100.0) as u64);
    }
    c.local.count(&format!("jobs_{}", job.replace(' ', "_")));
    c.local.hit(hash_f64s(c.idx % 11, &v));
    c.local.sample(|| format!("{job} {n} samples, shape {shape}"));
    Ok(())
}

pub fn phases(id: &str) -> Option<(Vec<Phase>, Meta)> {
    let p = |name, quick, thorough, f| Phase { name, quick, thorough, threads: 0, f };
    let m = |level, rule| Meta { level, rule, assumptions: &[] };
    Some(match id {
        "C37" => (
            vec![p("memory", 20000, 300000, c37_case as fn(&mut Case) -> Res), p("history", 1200, 18000, c37_history), p("files", 1500, 22500, c37_files)],
            m("exploration", "frames of every compressor compressed and decompressed repeatedly while an allocator counts the bytes held, asked for and left; distinct by numbers and setting, more than one sample"),
        ),
        "C38" => (
            vec![p("outputs", 2500, 37500, c38_case as fn(&mut Case) -> Res)],
            m("exploration", "csv-compressor runs with every combination of output options among older files, runs on files it must refuse, and decompression with and without index; snapshots of all files; distinct by command line and numbers"),
        ),
        "C39" => (
            vec![p("names", 9000, 135000, c39_case as fn(&mut Case) -> Res)],
            m("exploration", "runs of all executables on inputs of odd names in odd directories, called in several ways among files of the same names; distinct by name and path"),
        ),
        "C42" => (
            vec![p("index", 30000, 450000, c42_index as fn(&mut Case) -> Res), p("wbro", 6000, 90000, c42_wbro)],
            m("exploration", "index and WBRO files written by hand after the documentation and read by the code, files written by the code and read by an independent reader; distinct by content"),
        ),
        "C43" => (
            vec![p("time", 1500, 22500, c43_case as fn(&mut Case) -> Res)],
            m("exploration", "maximal frames, WBRO files, indexes and CSV files; CPU time of the thread, in sorts of as many numbers measured at the same moment; distinct by numbers and job"),
        ),
        _ => return None,
    })
}
