//! Whole-program monitors over command lines, schedules and kills: C29-C36.
use crate::cli::{env_of, io_calls, io_env, run, run_out, surroundings, tool, Io, Limits};
use crate::ctx::*;
use crate::gen::*;
use crate::oracle::*;
use crate::p_cli::{get, library, put, snapshot, wav, wbro_bytes, work, KINDS};
use crate::p_format::hex;
use crate::p_series::{chunk_bytes, unpack};
use crate::p_wbro::bits;
use crate::rng::*;
use atsc::compressor::Compressor;
use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn csv_text(r: &mut Rng, v: &[f64]) -> Vec<u8> {
    let mut t = "timestamp,value\n".to_string();
    let mut s = r.range(0, 3000);
    let step = *r.pick(&[1, 5, 15, 20]);
    for x in v {
        t += &format!("{},{x}\n", s * 1000);
        s += if r.chance(0.9) { step } else { r.range(0, 40) };
    }
    t.into_bytes()
}

// ---------------------------------------------------------------------------------------------- C29
const BAD_ERROR: &[&str] = &["51", "52", "60", "99", "100", "127", "128", "200", "255", "256", "257", "306", "512", "65536", "4294967296", "-1", "-5", "3.5", "1e1", "x", "", "0x5", "5%", "nan"];
const BAD_LEVEL: &[&str] = &["7", "8", "9", "10", "64", "128", "255", "256", "257", "262", "-1", "1.5", "x", "", "fast"];
fn c29_case(c: &mut Case) -> Res {
    let (_d, w) = work(c);
    let r = &mut c.rng;
    // a directory with everything a run could use and everything it could write
    let n = 1 + r.below(40);
    let v = series(r, n, Wild::No).v;
    put(&w.join("a.wbro"), wbro_bytes(&v));
    put(&w.join("b.csv"), csv_text(r, &v));
    put(&w.join("d.wav"), wav(&v, false));
    let lib = guard(|| library(&v, Compressor::Auto, 3, 0)).or_else(|p| fail(format!("library: {p}"), dump(&v)))?;
    put(&w.join("c.bro"), &lib);
    put(&w.join("c.vsri"), format!("0\n{}\n1,0,0,{n}\n", n - 1));
    let old = r.chance(0.6);
    if old {
        for f in ["a.bro", "b.bro", "b.vsri", "b.wavbro", "c.wbro", "c.csv", "d.wbro"] {
            put(&w.join(f), b"an older output, which a refused command line has no business with");
        }
    }
    std::fs::create_dir_all(w.join("sub")).expect("HARNESS: scratch");
    put(&w.join("sub/e.wbro"), wbro_bytes(&v));
    put(&w.join("sub/e.csv"), csv_text(r, &v));
    // accepted: every documented value, in turn
    let exe = ["atsc", "csv-compressor"][c.idx as usize % 2];
    let e = (c.idx / 2 % 51).to_string();
    let level = (c.idx / 2 % 7).to_string();
    let kind = KINDS[(c.idx / 2 % 6) as usize].0; // rle is last: csv-compressor has none
    let accepted = |r: &mut Rng| -> Vec<String> {
        let mut a: Vec<String> = vec![];
        a.extend(match r.below(3) {
            0 => vec!["-e".to_string(), e.clone()],
            1 => vec![format!("--error={e}")],
            _ => vec!["--error".to_string(), e.clone()],
        });
        a.extend(match r.below(3) {
            0 => vec!["-c".to_string(), level.clone()],
            1 => vec![format!("-c{level}")],
            _ => vec![format!("--compression-selection-sample-level={level}")],
        });
        a.extend(["--compressor".to_string(), kind.to_string()]);
        a
    };
    let input: Vec<String> = if exe == "atsc" {
        match r.below(4) {
            0 => vec!["a.wbro".into()],
            1 => vec!["--csv".into(), "b.csv".into(), "--fields=timestamp,value".into()],
            2 => vec!["sub".into()],
            _ => vec!["--csv".into(), "--fields".into(), "timestamp,value".into(), "sub".into()],
        }
    } else {
        match r.below(2) {
            0 => vec!["b.csv".into()],
            _ => vec!["b.csv".into(), "--output-vsri".into(), "--output-wavbrro".into()],
        }
    };
    // refused
    let atsc = tool(&c.ctx.bin, exe);
    let (exe_name, bad, why): (PathBuf, Vec<String>, &str) = {
        let mut a = input.clone();
        let k = r.below(10);
        match k {
            0..=2 => {
                let x = *r.pick(BAD_ERROR);
                let opt = if r.chance(0.5) { vec![format!("--error={x}")] } else { vec!["-e".into(), x.to_string()] };
                let at = r.below(a.len() + 1);
                // not between an option and its value
                let at = if at > 0 && a[at - 1] == "--fields" { at - 1 } else { at };
                a.splice(at..at, opt);
                (atsc.clone(), a, "an error out of range")
            }
            3..=4 => {
                let x = *r.pick(BAD_LEVEL);
                a.extend(if r.chance(0.5) { vec![format!("-c{x}"), "--verbose".into()][..if exe == "atsc" { 2 } else { 1 }].to_vec() } else { vec![format!("--compression-selection-sample-level={x}")] });
                if x.is_empty() && a.last().map(|s| s.as_str()) != Some("--compression-selection-sample-level=") {
                    a = input.clone();
                    a.push("--compression-selection-sample-level=".into());
                }
                (atsc.clone(), a, "a sampling level out of range")
            }
            5 => {
                a.extend(["--compressor".to_string(), r.pick(&["zip", "", "auto2", "fftt", "best", "0", "wavelet", "poly nomial"]).to_string()]);
                (atsc.clone(), a, "an unknown compressor")
            }
            6 => {
                a.push(r.pick(&["--frobnicate", "--in-place", "-x", "--errors=3", "--delete"]).to_string());
                (atsc.clone(), a, "an unknown option")
            }
            7 => {
                let p = *r.pick(&["nothing.wbro", "nothing/a.wbro", "sub/nothing", "a.wbro/x", "\u{fc}.bro"]);
                match r.below(4) {
                    0 => (tool(&c.ctx.bin, "wav2wbro"), vec![p.to_string()], "an input that does not exist"),
                    1 => (atsc.clone(), vec!["-u".into(), p.into()], "an input that does not exist"),
                    2 if exe == "atsc" => (atsc.clone(), vec!["--csv".into(), p.into()], "an input that does not exist"),
                    _ => (atsc.clone(), vec![p.into()], "an input that does not exist"),
                }
            }
            8 => match r.below(3) {
                0 => (tool(&c.ctx.bin, "wav2wbro"), vec![], "no input"),
                1 => (atsc.clone(), vec!["-u".into()], "no input"),
                _ => (atsc.clone(), vec![], "no input"),
            },
            _ => match r.below(3) {
                0 => (tool(&c.ctx.bin, "csv-compressor"), vec!["sub".into(), "--output-vsri".into()], "a directory instead of a file"),
                1 => (tool(&c.ctx.bin, "atsc"), vec!["--csv".into(), "b.csv".into(), format!("--fields={}", r.pick(&["timestamp", "value", "", "timestamp;value", "timestamp value"]))], "fields without a comma"),
                _ => (tool(&c.ctx.bin, "atsc"), vec!["a.wbro".into(), "c.bro".into()], "two inputs"),
            },
        }
    };
    let around = surroundings(r, n);
    let before = snapshot(&w);
    let res = run(&exe_name, &bad, &w, Limits::default(), &around);
    let tell = || format!("{} {bad:?}", exe_name.file_name().unwrap().to_string_lossy());
    if res.ok() {
        return fail(format!("{why} is accepted: {}", tell()), "");
    }
    if res.signal.is_some() {
        return fail(format!("{why}: {} ends with {}", tell(), res.how()), "");
    }
    let after = snapshot(&w);
    if after != before {
        let d = after.iter().find(|(k, x)| before.get(*k) != Some(*x)).map(|x| x.0.clone()).or_else(|| before.keys().find(|k| !after.contains_key(*k)).cloned());
        return fail(format!("{why} is refused, but {d:?} is changed: {}", tell()), "");
    }
    c.local.count(&format!("refused_{}", why.replace(' ', "_")));
    // and the accepted one
    let mut good = accepted(&mut c.rng);
    let at = c.rng.below(2) * good.len();
    good.splice(at..at, input.clone());
    let res = run(&atsc, &good, &w, Limits::default(), &around);
    if !res.ok() {
        return fail(format!("a documented command line is refused: {exe} {good:?}: {}", res.how()), dump(&v));
    }
    c.local.count(&format!("accepted_{exe}"));
    c.local.hit(hash_str(&format!("{} {good:?} {n}", tell())));
    c.local.sample(|| format!("refused: {}; accepted: {exe} {good:?}", tell()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C30
/// The lists of numbers in some text: everything between a bracket and the next closing one.
fn lists(t: &str) -> Result<Vec<Vec<f64>>, String> {
    let mut v = vec![];
    let mut rest = t;
    while let Some(i) = rest.find('[') {
        let j = rest[i..].find(']').ok_or("a list without an end")? + i;
        let mut one = vec![];
        for f in rest[i + 1..j].split(',').map(|f| f.trim()).filter(|f| !f.is_empty()) {
            one.push(f.parse::<f64>().map_err(|_| format!("'{f}' among the numbers"))?);
        }
        v.push(one);
        rest = &rest[j + 1..];
    }
    Ok(v)
}
fn same_list(a: &[f64], b: &[f64]) -> bool {
    same_values(a, b)
}
fn c30_case(c: &mut Case) -> Res {
    c30_run(c, false)
}
/// listings of many megabytes
fn c30_long(c: &mut Case) -> Res {
    c30_run(c, true)
}
fn c30_run(c: &mut Case, long: bool) -> Res {
    let (_d, w) = work(c);
    let r = &mut c.rng;
    let files = if r.chance(0.3) { 2 + r.below(3) } else { 1 };
    let k = r.below(7);
    let (name, comp) = KINDS[k];
    let (name, comp) = match comp {
        Compressor::Idw | Compressor::RLE | Compressor::Auto if long => KINDS[1 + r.below(4)],
        _ => (name, comp),
    };
    let e = crate::p_series::pick_err(r);
    let mode = r.below(3);
    let mut want: Vec<Vec<f64>> = vec![];
    let dir = w.join("in");
    std::fs::create_dir_all(&dir).expect("HARNESS: scratch");
    let mut outs = vec![];
    let mut desc = String::new();
    for i in 0..files {
        let n = match r.below(12) {
            0 => 1,
            1 => 2000 + r.below(4000),
            2 => *r.pick(&[99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1024]),
            _ => 1 + r.below(300),
        };
        let n = if matches!(comp, Compressor::Idw | Compressor::RLE) { n.min(200) } else { n };
        let n = if long && i == 0 { 10_000 + r.below(300_000) } else { n };
        let wild = if r.chance(0.3) { Wild::Some } else { Wild::No };
        let s = series(r, n, wild);
        let mut v = s.v;
        if comp == Compressor::FFT {
            v.iter_mut().filter(|x| x.abs() >= 1e30).for_each(|x| *x = x.signum() * 1e29);
        }
        if r.chance(0.3) && mode == 0 {
            for _ in 0..1 + r.below(3) {
                let k = r.below(n);
                v[k] = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 5e-324]);
            }
        }
        desc = s.desc;
        match mode {
            0 => {
                put(&dir.join(format!("m{i}.wbro")), wbro_bytes(&v));
                want.push(v);
                outs.push(format!("m{i}.bro"));
            }
            1 => {
                let mut t = "time,value\n".to_string();
                for (i, x) in v.iter().enumerate() {
                    t += &format!("{i},{x:?}\n");
                }
                put(&dir.join(format!("m{i}.csv")), t);
                want.push(v);
                outs.push(format!("m{i}.bro"));
            }
            _ => {
                let b = guard(|| library(&v, comp, e, 0)).or_else(|p| fail(format!("library: {p}"), dump(&v)))?;
                want.push(guard(|| unpack(&b)).or_else(|p| fail(format!("library: {p}"), dump(&v)))?);
                put(&dir.join(format!("m{i}.bro")), b);
                outs.push(format!("m{i}.wbro"));
            }
        }
    }
    let mut a: Vec<String> = match mode {
        0 => vec![],
        1 => vec!["--csv".into()],
        _ => vec!["-u".into()],
    };
    if mode < 2 {
        a.extend(["--compressor".into(), name.into(), "-e".into(), e.to_string()]);
    }
    let target = if files == 1 {
        let f = std::fs::read_dir(&dir).expect("HARNESS: scratch").next().unwrap().unwrap().file_name();
        format!("in/{}", f.to_string_lossy())
    } else {
        "in".into()
    };
    a.push(target);
    let what = format!("atsc {a:?} on {files} file(s), the last {desc}");
    let atsc = tool(&c.ctx.bin, "atsc");
    let read = |dir: &Path| -> Vec<Option<Vec<u8>>> { outs.iter().map(|o| get(&dir.join(o))).collect() };
    // quietly
    let res = run(&atsc, &a, &w, Limits::default(), &[]);
    if !res.ok() {
        return fail(format!("{what}: {}", res.how()), "");
    }
    if !res.out.is_empty() {
        return fail(format!("{what} prints without --verbose"), res.out.chars().take(5000).collect::<String>());
    }
    let quiet = read(&dir);
    for o in &outs {
        let _ = std::fs::remove_file(dir.join(o));
    }
    let loud_args = {
        let mut b = a.clone();
        let at = if c.rng.chance(0.5) { 0 } else { b.len() };
        b.insert(at, "--verbose".into());
        b
    };
    let env: &[(&str, &str)] = if c.rng.chance(0.2) { &[("RUST_LOG", "info")] } else { &[] };
    let res = run(&atsc, &loud_args, &w, Limits::default(), env);
    if !res.ok() {
        return fail(format!("{what} --verbose: {}", res.how()), "");
    }
    if read(&dir) != quiet {
        return fail(format!("{what} writes something else with --verbose"), "");
    }
    let got = lists(&res.out).or_else(|m| fail(format!("{what} --verbose prints {m}"), res.out.chars().take(5000).collect::<String>()))?;
    if got.len() != want.len() {
        return fail(format!("{what} --verbose prints {} lists for {} files", got.len(), want.len()), res.out.chars().take(5000).collect::<String>());
    }
    // a directory comes in any order
    let mut left = want.clone();
    for g in &got {
        match left.iter().position(|x| same_list(x, g)) {
            Some(i) => {
                left.swap_remove(i);
            }
            None => {
                let d = left.iter().find(|x| x.len() == g.len()).map(|x| first_diff(x, g)).unwrap_or_else(|| format!("{} numbers", g.len()));
                return fail(format!("{what} --verbose prints other numbers than the file holds: {d}"), res.out.chars().take(5000).collect::<String>());
            }
        }
    }
    c.local.add("numbers_compared", want.iter().map(|x| x.len() as u64).sum());
    c.local.count(["verbose_wbro_runs", "verbose_csv_runs", "verbose_decompressions"][mode]);
    for v in &want {
        if v.len() > 1 {
            c.local.hit(hash_f64s(mode as u64, v));
        }
    }
    c.local.sample(|| what.clone());
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C31
struct Task {
    exe: PathBuf,
    args: Vec<String>,
    inputs: Vec<(String, Vec<u8>)>,
    outputs: Vec<String>,
}
/// One run on files of its own; `shared` is a CSV that any number of runs may read.
fn task(c: &mut Case, i: usize, long: bool, shared: &str, kind: Option<usize>) -> Result<Task, Fail> {
    let r = &mut c.rng;
    let n = if long { 2000 + r.below(6000) } else { 1 + r.below(600) };
    let v = series(r, n, Wild::No).v;
    let kinds = ["noop", "rle", "auto", "polynomial", "fft", "constant"];
    let name = if long { kinds[[0, 2, 3, 4][r.below(4)]] } else { kinds[r.below(6)] };
    let stem = match r.below(4) {
        0 => format!("m{i}"),
        1 => format!("host.{i}"),
        2 => format!("m {i}"),
        _ => format!("{i}"),
    };
    let bin = c.ctx.bin.clone();
    let e = crate::p_series::pick_err(r).to_string();
    Ok(match kind.unwrap_or_else(|| r.below(7)) {
        0 | 1 => Task {
            exe: tool(&bin, "atsc"),
            args: vec!["--compressor".into(), name.into(), "-e".into(), e, format!("{stem}.wbro")],
            inputs: vec![(format!("{stem}.wbro"), wbro_bytes(&v))],
            outputs: vec![format!("{stem}.bro")],
        },
        2 => {
            let b = guard(|| library(&v, Compressor::Polynomial, 1, 0)).or_else(|p| fail(format!("library: {p}"), dump(&v)))?;
            Task { exe: tool(&bin, "atsc"), args: vec!["-u".into(), format!("{stem}.bro")], inputs: vec![(format!("{stem}.bro"), b)], outputs: vec![format!("{stem}.wbro")] }
        }
        3 => Task {
            exe: tool(&bin, "atsc"),
            args: vec!["--csv".into(), "--fields=timestamp,value".into(), "--compressor".into(), name.into(), "-e".into(), e, format!("{stem}.csv")],
            inputs: vec![(format!("{stem}.csv"), csv_text(r, &v))],
            outputs: vec![format!("{stem}.bro")],
        },
        4 => Task {
            exe: tool(&bin, "wav2wbro"),
            args: vec![format!("{stem}.wav")],
            inputs: vec![(format!("{stem}.wav"), wav(&v, false))],
            outputs: vec![format!("{stem}.wbro")],
        },
        5 => Task {
            exe: tool(&bin, "csv-compressor"),
            args: vec![shared.to_string(), "-o".into(), format!("{i}out"), "--output-vsri".into(), "--output-wavbrro".into(), "-e".into(), e],
            inputs: vec![],
            outputs: vec![format!("{i}out.bro"), format!("{i}out.vsri"), format!("{i}out.wavbro")],
        },
        _ => {
            let b = guard(|| library(&v, Compressor::RLE, 0, 0)).or_else(|p| fail(format!("library: {p}"), dump(&v)))?;
            Task {
                exe: tool(&bin, "csv-compressor"),
                args: vec!["-u".into(), format!("{stem}.bro")],
                inputs: vec![(format!("{stem}.bro"), b), (format!("{stem}.vsri"), format!("0\n{}\n2,0,0,{n}\n", 2 * (n - 1)).into_bytes())],
                outputs: vec![format!("{stem}.wbro"), format!("{stem}.csv")],
            }
        }
    })
}
fn c31_case(c: &mut Case) -> Res {
    let (_d, w) = work(c);
    let solo = w.join("solo");
    let both = w.join("both");
    for d in [&solo, &both] {
        std::fs::create_dir_all(d).expect("HARNESS: scratch");
    }
    let long = c.rng.chance(0.15);
    let k = if long { 2 + c.rng.below(3) } else { 2 + c.rng.below(9) };
    let n = 1 + c.rng.below(500);
    let v = series(&mut c.rng, n, Wild::No).v;
    let shared_csv = csv_text(&mut c.rng, &v);
    // all of one kind, or of any
    let alike = c.rng.chance(0.4).then(|| c.rng.below(7));
    let mut tasks = vec![];
    for i in 0..k {
        tasks.push(task(c, i, long, "shared.csv", alike)?);
    }
    // alone, one after the other
    let mut expect: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    put(&solo.join("shared.csv"), &shared_csv);
    put(&both.join("shared.csv"), &shared_csv);
    expect.insert("shared.csv".into(), shared_csv);
    for t in &tasks {
        for (f, b) in &t.inputs {
            put(&solo.join(f), b);
            put(&both.join(f), b);
            expect.insert(f.clone(), b.clone());
        }
        let res = run_out(&t.exe, &t.args, &solo, Limits::default(), &[], Some(&w));
        if !res.ok() {
            return fail(format!("alone: {:?} {:?}: {}", t.exe.file_name(), t.args, res.how()), "");
        }
        for o in &t.outputs {
            match get(&solo.join(o)) {
                Some(b) => expect.insert(o.clone(), b),
                None => return fail(format!("alone: {:?} {:?} writes no {o}", t.exe.file_name(), t.args), ""),
            };
        }
    }
    // all at once, with random starts and pauses
    let rounds = 2;
    let other = c.rng.chance(0.3);
    for round in 0..rounds {
        let slow = c.rng.chance(0.6);
        let mut kids = vec![];
        let order = {
            let mut o: Vec<usize> = (0..k).collect();
            for i in (1..k).rev() {
                o.swap(i, c.rng.below(i + 1));
            }
            o
        };
        for i in order {
            let t = &tasks[i];
            let mut cmd = Command::new(&t.exe);
            // some runs name their files from elsewhere
            cmd.args(&t.args).current_dir(&both).env_clear().env("PATH", "/usr/bin:/bin").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
            if slow {
                // every call on a file takes a random while, so that the runs meet in the middle of their work
                if let Some(e) = io_env(Io::Delay { seed: c.rng.below(1 << 30) as u64, max_us: 1500 }, &w) {
                    cmd.envs(e);
                    c.local.count("runs_with_delayed_calls");
                }
            }
            unsafe {
                cmd.pre_exec(|| {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    libc::alarm(400);
                    let x = libc::rlimit { rlim_cur: 60, rlim_max: 70 };
                    libc::setrlimit(libc::RLIMIT_CPU, &x);
                    Ok(())
                });
            }
            let at = Instant::now();
            kids.push((i, at, cmd.spawn().expect("HARNESS: spawn"), None::<(std::process::ExitStatus, Instant)>));
            match c.rng.below(4) {
                0 => std::thread::sleep(Duration::from_micros(c.rng.below(1500) as u64)),
                1 => {
                    // hold one of them for a moment
                    let (_, _, kid, done) = &kids[c.rng.below(kids.len())];
                    if done.is_none() {
                        let pid = kid.id() as i32;
                        unsafe { libc::kill(pid, libc::SIGSTOP) };
                        std::thread::sleep(Duration::from_micros(c.rng.below(1000) as u64));
                        unsafe { libc::kill(pid, libc::SIGCONT) };
                        c.local.count("pauses");
                    }
                }
                _ => {}
            }
        }
        while kids.iter().any(|x| x.3.is_none()) {
            for x in kids.iter_mut().filter(|x| x.3.is_none()) {
                if let Some(st) = x.2.try_wait().expect("HARNESS: wait") {
                    x.3 = Some((st, Instant::now()));
                }
            }
            std::thread::sleep(Duration::from_micros(100));
        }
        for (i, _, _, done) in &kids {
            let st = done.unwrap().0;
            if st.signal() == Some(libc::SIGALRM) {
                panic!("HARNESS: a run sat idle");
            }
            if st.code() != Some(0) {
                return fail(format!("next to {} other runs, {:?} {:?} ends with {st}, alone it succeeds", k - 1, tasks[*i].exe.file_name(), tasks[*i].args), "");
            }
        }
        let mut overlaps = 0;
        for a in 0..k {
            for b in 0..a {
                let (x, y) = (&kids[a], &kids[b]);
                if x.1 < y.3.unwrap().1 && y.1 < x.3.unwrap().1 {
                    overlaps += 1;
                }
            }
        }
        c.local.add("overlapping_pairs", overlaps);
        let after = snapshot(&both);
        let all: Vec<String> = tasks.iter().map(|t| format!("{} {}", t.exe.file_name().unwrap().to_string_lossy(), t.args.join(" "))).collect();
        for (f, b) in &expect {
            match after.get(f) {
                None => return fail(format!("{k} runs at once: {f} is missing; {all:?}"), ""),
                Some(x) if x != b => return fail(format!("{k} runs at once: {f} holds {} bytes that differ from the {} of a run alone; {all:?}", x.len(), b.len()), ""),
                _ => {}
            }
        }
        if let Some(f) = after.keys().find(|f| !expect.contains_key(*f)) {
            return fail(format!("{k} runs at once leave {f} behind; {all:?}"), "");
        }
        c.local.add("runs_compared", k as u64);
        c.local.hit(hash_str(&format!("{all:?}")) ^ mix(overlaps * 10 + round));
        if other && round == 0 {
            // the next round finds other outputs in place
            for t in &tasks {
                for o in &t.outputs {
                    put(&both.join(o), b"old");
                }
            }
        }
    }
    c.local.sample(|| format!("{k} runs at once, e.g. {:?}", tasks[0].args));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C32
/// What is left of a killed run, judged by the programs that read it.
fn leftovers(c: &mut Case, w: &Path, kind: u64, base: &str, full: &BTreeMap<String, Vec<u8>>, old: Option<&BTreeMap<String, Vec<u8>>>, csv_full: &[u8], how: &str) -> Res {
    let atsc = tool(&c.ctx.bin, "atsc");
    let cc = tool(&c.ctx.bin, "csv-compressor");
    let look = w.join("look");
    let _ = std::fs::remove_dir_all(&look);
    std::fs::create_dir_all(&look).expect("HARNESS: scratch");
    for (f, b) in full {
        let Some(x) = get(&w.join(f)) else {
            c.local.count("killed_before_the_output_existed");
            continue;
        };
        if x == *b {
            c.local.count("killed_after_the_output_was_complete");
            continue;
        }
        if old.and_then(|o| o.get(f)) == Some(&x) {
            c.local.count("killed_before_the_older_output_was_touched");
            continue;
        }
        c.local.count("partial_outputs");
        if f.ends_with(".bro") {
            put(&look.join("x.bro"), &x);
            let res = run(&atsc, &["-u", "x.bro"], &look, Limits::default(), &[]);
            if res.crash() || res.hang() {
                return fail(format!("{how}: atsc -u on the {} of {} bytes left of {f}: {}", x.len(), b.len(), res.how()), hex(&x));
            }
            if res.ok() && look.join("x.wbro").exists() {
                return fail(format!("{how}: the {} of {} bytes left of {f} are decompressed as if they were the whole", x.len(), b.len()), hex(&x));
            }
        } else if f.ends_with(".wbro") || f.ends_with(".wavbro") {
            put(&look.join("x.wbro"), &x);
            let res = run(&atsc, &["--compressor", "noop", "x.wbro"], &look, Limits::default(), &[]);
            if res.crash() || res.hang() {
                return fail(format!("{how}: atsc on the {} of {} bytes left of {f}: {}", x.len(), b.len(), res.how()), hex(&x));
            }
            if res.ok() && look.join("x.bro").exists() {
                return fail(format!("{how}: the {} of {} bytes left of {f} are compressed as if they were the whole", x.len(), b.len()), hex(&x));
            }
        }
    }
    // (a stream and its index are two files that can't be replaced at once)
    if kind == 3 && old.is_none() {
        // the pair of stream and index as csv-compressor reads it
        let res = run(&cc, &["-u", &format!("{base}.bro"), "-o", "look/y"], w, Limits::default(), &[]);
        if res.crash() || res.hang() {
            return fail(format!("{how}: csv-compressor -u on what is left: {}", res.how()), "");
        }
        if res.ok() && get(&look.join("y.csv")).as_deref() != Some(csv_full) {
            return fail(format!("{how}: csv-compressor -u succeeds on what is left and gives another CSV than the whole"), get(&look.join("y.csv")).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default());
        }
        c.local.count(if res.ok() { "pairs_read_completely" } else { "pairs_refused" });
    }
    let _ = std::fs::remove_dir_all(&look);
    Ok(())
}
fn c32_case(c: &mut Case) -> Res {
    let (_d, w) = work(c);
    let kind = c.idx % 5;
    let r = &mut c.rng;
    let n = match r.below(4) {
        0 => 1 + r.below(6),
        1 | 2 => 1 + r.below(80),
        _ => 500 + r.below(3000),
    };
    // random numbers, so that no part of a file is a file by itself
    let v: Vec<f64> = if r.chance(0.5) { (0..n).map(|_| r.gauss() * 1e3 + 0.1).collect() } else { series(r, n, Wild::No).v.iter().map(|x| if *x == 0.0 { 0.7 } else { *x }).collect() };
    let name = ["noop", "rle", "auto", "polynomial"][r.below(if n > 1000 { 1 } else { 4 })];
    let (exe, args, inputs, outputs): (&str, Vec<String>, Vec<(String, Vec<u8>)>, Vec<&str>) = match kind {
        0 => ("atsc", vec!["--compressor".into(), name.into(), "a.wbro".into()], vec![("a.wbro".into(), wbro_bytes(&v))], vec!["a.bro"]),
        1 => {
            let b = guard(|| library(&v, Compressor::RLE, 0, 0)).or_else(|p| fail(format!("library: {p}"), dump(&v)))?;
            ("atsc", vec!["-u".into(), "a.bro".into()], vec![("a.bro".into(), b)], vec!["a.wbro"])
        }
        2 => ("wav2wbro", vec!["a.wav".into()], vec![("a.wav".into(), wav(&v, false))], vec!["a.wbro"]),
        3 => {
            let mut a: Vec<String> = vec!["a.csv".into(), "--output-vsri".into(), "--compressor".into(), if name == "rle" { "auto" } else { name }.into(), "-e".into(), "0".into()];
            let mut o = vec!["a.bro", "a.vsri"];
            if r.chance(0.3) {
                a.push("--output-wavbrro".into());
                o.push("a.wavbro");
            }
            ("csv-compressor", a, vec![("a.csv".into(), csv_text(r, &v))], o)
        }
        _ => ("atsc", vec!["--csv".into(), "--fields=timestamp,value".into(), "--compressor".into(), name.into(), "a.csv".into()], vec![("a.csv".into(), csv_text(r, &v))], vec!["a.bro"]),
    };
    let exe = tool(&c.ctx.bin, exe);
    let what = format!("{} {}", exe.file_name().unwrap().to_string_lossy(), args.join(" "));
    // what the same command made of other numbers before
    let mut old = BTreeMap::new();
    if c.rng.chance(0.6) {
        let m = if c.rng.chance(0.5) { n } else { 1 + c.rng.below(2 * n) };
        let v2: Vec<f64> = (0..m).map(|_| c.rng.gauss() * 1e3 + 0.3).collect();
        let b = match kind {
            0 => wbro_bytes(&v2),
            1 => guard(|| library(&v2, Compressor::RLE, 0, 0)).or_else(|p| fail(format!("library: {p}"), dump(&v2)))?,
            2 => wav(&v2, false),
            _ => csv_text(&mut c.rng, &v2),
        };
        put(&w.join(&inputs[0].0), b);
        let res = run(&exe, &args, &w, Limits::default(), &[]);
        if !res.ok() {
            return fail(format!("{what}: {}", res.how()), dump(&v2));
        }
        for o in &outputs {
            match get(&w.join(o)) {
                Some(b) => old.insert(o.to_string(), b),
                None => return fail(format!("{what}: no {o}"), dump(&v2)),
            };
        }
    }
    for (f, b) in &inputs {
        put(&w.join(f), b);
    }
    let res = run(&exe, &args, &w, Limits::default(), &[]);
    if !res.ok() {
        return fail(format!("{what}: {}", res.how()), dump(&v));
    }
    let mut full = BTreeMap::new();
    for o in &outputs {
        match get(&w.join(o)) {
            Some(b) => full.insert(o.to_string(), b),
            None => return fail(format!("{what}: no {o}"), dump(&v)),
        };
    }
    let mut csv_full = vec![];
    if kind == 3 {
        let res = run(&tool(&c.ctx.bin, "csv-compressor"), &["-u", "a.bro", "-o", "whole"], &w, Limits::default(), &[]);
        if !res.ok() {
            return fail(format!("csv-compressor -u after {what}: {}", res.how()), dump(&v));
        }
        csv_full = get(&w.join("whole.csv")).unwrap_or_default();
        for f in ["whole.csv", "whole.wbro"] {
            let _ = std::fs::remove_file(w.join(f));
        }
    }
    let max = full.values().map(|b| b.len()).max().unwrap();
    #[derive(Clone, Copy)]
    enum Kill {
        Byte(usize),
        Call(usize),
        Moment,
    }
    let mut points: Vec<Kill> = vec![];
    if max <= 90 {
        points.extend((0..=max).map(Kill::Byte));
        c.local.count("jobs_killed_at_every_byte");
    } else {
        points.extend([0, 1, 4, 8, 9, 12, 13, max - 1].map(Kill::Byte));
        points.extend(full.values().map(|b| Kill::Byte(b.len() - 1)));
        points.extend((0..10).map(|_| Kill::Byte(c.rng.below(max))));
    }
    points.extend((0..6).map(|_| Kill::Moment));
    // before every call on a file, from the first that opens one to write, and in the middle of every write
    if let Some((res, calls)) = io_calls(&exe, &args, &w) {
        if !res.ok() {
            return fail(format!("{what} with its calls counted: {}", res.how()), dump(&v));
        }
        let from = calls.iter().position(|k| !b"rokL".contains(k)).unwrap_or(0);
        points.extend((from + 1..=calls.len()).rev().take(30).map(Kill::Call));
        points.extend((from + 1..=calls.len()).rev().take(30).filter(|i| calls[i - 1] == b'w').map(Kill::Call));
    }
    for p in points {
        for o in &outputs {
            let _ = std::fs::remove_file(w.join(o));
        }
        let over = c.rng.chance(0.5);
        for (f, b) in old.iter().filter(|_| over) {
            put(&w.join(f), b);
        }
        let (how, killed) = match p {
            Kill::Call(at) => {
                let half = c.rng.chance(0.5);
                let mut cmd = Command::new(&exe);
                cmd.args(&args).current_dir(&w).env_clear().env("PATH", "/usr/bin:/bin").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
                cmd.envs(io_env(Io::Kill { at, half }, &w).unwrap());
                let st = cmd.status().expect("HARNESS: spawn");
                (format!("{what} killed {} its {at}. call on a file", if half { "in" } else { "before" }), st.signal() == Some(libc::SIGKILL))
            }
            Kill::Byte(lim) => {
                // the write that crosses the limit is cut there, the next one kills
                let mut cmd = Command::new(&exe);
                cmd.args(&args).current_dir(&w).env_clear().env("PATH", "/usr/bin:/bin").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
                unsafe {
                    cmd.pre_exec(move || {
                        let x = libc::rlimit { rlim_cur: lim as u64, rlim_max: lim as u64 };
                        libc::setrlimit(libc::RLIMIT_FSIZE, &x);
                        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                        libc::setrlimit(libc::RLIMIT_CORE, &z);
                        libc::signal(libc::SIGXFSZ, libc::SIG_DFL);
                        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                        Ok(())
                    });
                }
                let st = cmd.status().expect("HARNESS: spawn");
                (format!("{what} killed after {lim} bytes"), st.signal() == Some(libc::SIGXFSZ))
            }
            Kill::Moment => {
                let mut cmd = Command::new(&exe);
                cmd.args(&args).current_dir(&w).env_clear().env("PATH", "/usr/bin:/bin").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
                let mut kid = cmd.spawn().expect("HARNESS: spawn");
                let us = c.rng.below(2500) as u64;
                std::thread::sleep(Duration::from_micros(us));
                let _ = kid.kill();
                let st = kid.wait().expect("HARNESS: wait");
                (format!("{what} killed at some moment"), st.signal() == Some(libc::SIGKILL))
            }
        };
        c.local.count(match (killed, p) {
            (true, Kill::Byte(_)) => "kills_by_offset",
            (true, Kill::Call(_)) => "kills_by_call",
            (true, Kill::Moment) => "kills_by_time",
            _ => "finished_before_the_kill",
        });
        for (f, b) in &inputs {
            if get(&w.join(f)).as_deref() != Some(&b[..]) {
                return fail(format!("{how}: input {f} was changed"), hex(b));
            }
        }
        let how = if over && !old.is_empty() { format!("{how} over an older output") } else { how };
        leftovers(c, &w, kind, "a", &full, (over && !old.is_empty()).then_some(&old), &csv_full, &how)?;
        if c.rng.chance(0.4) {
            let res = run(&exe, &args, &w, Limits::default(), &[]);
            if !res.ok() {
                return fail(format!("{how}: running it again: {}", res.how()), dump(&v));
            }
            for (o, b) in &full {
                if get(&w.join(o)).as_deref() != Some(&b[..]) {
                    return fail(format!("{how}: running it again gives another {o}"), dump(&v));
                }
            }
            c.local.count("repeated_after_a_kill");
        }
        match p {
            Kill::Byte(l) => c.local.hit(mix(hash_bytes(l as u64, &inputs[0].1) ^ kind)),
            Kill::Call(l) => c.local.hit(mix(hash_bytes(l as u64, &inputs[0].1) ^ kind ^ 77)),
            Kill::Moment => {}
        }
    }
    c.local.sample(|| format!("{what}: outputs of {:?} bytes", full.values().map(|b| b.len()).collect::<Vec<_>>()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C33
fn c33_case(c: &mut Case) -> Res {
    let (_d, w) = work(c);
    let r = &mut c.rng;
    let n = match r.below(4) {
        0 => 1,
        1 => 1 + r.below(5),
        2 => 1 + r.below(60),
        _ => 2040 + r.below(20),
    };
    let v: Vec<f64> = bits(r, n);
    let list = r.chance(0.3);
    let b = wav(&v, list);
    let exe = tool(&c.ctx.bin, "wav2wbro");
    let mut bad: Vec<(Vec<u8>, String)> = vec![];
    let cuts: Vec<usize> = if b.len() <= 70 {
        (0..b.len()).collect()
    } else {
        let mut k: Vec<usize> = (0..8).map(|_| r.below(b.len())).collect();
        k.extend([0, 1, 3, 4, 8, 11, 12, 13, 16, 20, 24, 35, 36, 40, 43, 44, 45, b.len() - 8, b.len() - 2, b.len() - 1]);
        k
    };
    for k in cuts {
        bad.push((b[..k].to_vec(), format!("cut to {k} of {} bytes", b.len())));
    }
    let mut put_at = |at: usize, x: &[u8], what: &str| {
        let mut d = b.clone();
        d[at..at + x.len()].copy_from_slice(x);
        bad.push((d, what.to_string()));
    };
    put_at(0, b"XIFF", "with a damaged RIFF marker");
    put_at(0, b"WBRO", "with the marker of another format");
    put_at(8, b"WAVX", "with a damaged WAVE marker");
    put_at(12, b"fmx ", "without a format chunk");
    put_at(16, &[8, 0, 0, 0], "with a format chunk that is too short");
    put_at(20, &[0x34, 0x12], "in an unknown encoding");
    put_at(36 + if list { 18 } else { 0 }, b"dat_", "without a data chunk");
    put_at(34, &[0, 0], "with samples of no bits");
    bad.push((b"RIFF".to_vec(), "of a marker only".into()));
    bad.push(((0..200).map(|_| r.u64() as u8 | 1).collect(), "of random bytes".into()));
    let old = r.chance(0.5);
    for (d, what) in bad {
        let inp = w.join("a.wav");
        let out = w.join("a.wbro");
        put(&inp, &d);
        let _ = std::fs::remove_file(&out);
        if old {
            put(&out, b"keep this");
        }
        let res = run(&exe, &["a.wav"], &w, Limits::default(), &[]);
        if res.ok() {
            return fail(format!("wav2wbro succeeds on a WAV of {n} samples {what}; it writes {:?} bytes", get(&out).map(|x| x.len())), hex(&d));
        }
        if res.crash() || res.hang() {
            return fail(format!("wav2wbro on a WAV {what}: {}", res.how()), hex(&d));
        }
        if get(&out).as_deref() != if old { Some(&b"keep this"[..]) } else { None } {
            return fail(format!("wav2wbro fails on a WAV {what}, but changes the output"), hex(&d));
        }
        if get(&inp).as_deref() != Some(&d[..]) {
            return fail(format!("wav2wbro changes a WAV {what}"), hex(&d));
        }
        c.local.count(if what.starts_with("cut") { "cut_short" } else { "otherwise_damaged" });
        c.local.hit(hash_bytes(33, &d));
    }
    c.local.sample(|| format!("{n} samples, LIST chunk {list}"));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C34
fn payload(b: &[u8]) -> Result<(usize, usize), Fail> {
    let s = crate::refdec::parse(b).or_else(|m| fail(format!("the stream does not parse: {m}"), hex(b)))?;
    Ok((s.frames.len(), s.frames.iter().map(|f| f.data.len()).sum()))
}
fn c34_case(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let kind = c.idx % 6;
    let n = if c.idx % 3 == 0 {
        1 + (c.idx / 3 % 700) as usize
    } else {
        let s = pick_size(r, 0.003);
        pick_len(r, s)
    };
    // what makes streams long: nothing repeats, nothing interpolates, nothing is periodic
    let mut ends = None;
    let (v, per): (Vec<f64>, usize) = match kind {
        0 => (series(r, n, Wild::Some).v, 8),
        1 => ((0..n).map(|_| f64::from_bits((r.u64() & 0x800f_ffff_ffff_ffff) | ((1023 + r.range(-60, 60)) as u64) << 52)).collect(), 8),
        2 => {
            let top = *r.pick(&[1, 2, 10, 128, 255]);
            ends = Some((0, top));
            ((0..n).map(|_| r.range(0, top) as f64).collect(), 1)
        }
        3 => {
            let (lo, hi) = *r.pick(&[(-1, 1), (-128, 127), (0, 256), (-1, 255), (i16::MIN as i64, i16::MAX as i64), (-32768, 0), (0, 32767)]);
            ends = Some((lo, hi));
            ((0..n).map(|_| r.range(lo, hi) as f64).collect(), 3)
        }
        4 => {
            let (lo, hi) = *r.pick(&[(0, 40_000), (-40_000, 0), (i32::MIN as i64, i32::MAX as i64), (-2147483648, 0), (0, 2147483647), (32767, 32768)]);
            ends = Some((lo, hi));
            ((0..n).map(|_| r.range(lo, hi) as f64).collect(), 5)
        }
        _ => {
            let a = series(r, n, Wild::No).v;
            let k = 1 + r.below(4);
            ((0..n).map(|i| if i % (k + 1) == 0 { r.gauss() * 10f64.powi(r.range(-8, 12) as i32) } else { a[i] }).collect(), 8)
        }
    };
    let mut v = v;
    if let (Some((lo, hi)), true) = (ends, n > 1 && r.chance(0.5)) {
        // the limits of the type themselves
        let (i, j) = (r.below(n), r.below(n));
        v[i] = lo as f64;
        if i != j {
            v[j] = hi as f64;
        }
    }
    let e = if r.chance(0.5) { 0 } else { crate::p_series::pick_err(r) };
    let b = guard(|| chunk_bytes(&v, Compressor::Auto, Some(e as f32 / 100.0), 0)).or_else(|p| fail(format!("compressing panics: {p}"), dump(&v)))?;
    let (frames, bytes) = payload(&b)?;
    let allowed = per * n + 64;
    if frames != 1 || bytes > allowed {
        return fail(format!("{n} samples (kind {kind}) at {e}% take {bytes} bytes in {frames} frame(s), more than {allowed}: {}", brief(&v)), dump(&v));
    }
    if b.len() > bytes + 64 {
        return fail(format!("a stream of one frame with {bytes} bytes takes {} bytes", b.len()), dump(&v));
    }
    c.local.max("permille_of_the_allowed_size", (bytes * 1000 / allowed) as u64);
    c.local.count(["mixed_series", "random_mantissas", "bytes", "16_bit_integers", "32_bit_integers", "spiked_series"][kind as usize]);
    if !all_equal(&v) {
        c.local.hit(hash_f64s(e as u64, &v));
    }
    c.local.sample(|| format!("kind {kind}: {n} samples in {bytes} bytes"));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C35
fn c35_case(c: &mut Case) -> Res {
    let r = &mut c.rng;
    // what a timestamp can be: some 262,000 years to either side
    const FAR: i64 = 8_200_000_000_000;
    for _ in 0..200 {
        let t = match r.below(8) {
            0 => r.range(-FAR, FAR),
            1 => r.range(-100_000, 100_000),
            2 => r.range(-FAR / 86_400, FAR / 86_400) * 86_400 + r.range(-2, 2),
            3 => r.range(0, 4_102_444_800),
            4 => r.range(-4_000_000_000, 0),
            5 => r.range(0, 50_000) * 86_400 + *r.pick(&[0, 59, 60, 61, 3599, 3600, 3601, 43_199, 43_200, 86_398, 86_399]),
            6 => (c.idx as i64 * 7919 + r.range(0, 600)) % 86_400,
            _ => *r.pick(&[951_782_400, 951_868_799, 1_709_164_800, 1_483_228_799, 68_169_600, -2_203_891_200, 0, -1]) + r.range(-86_400, 86_400),
        };
        let day = t.div_euclid(86_400);
        let s = t - day * 86_400;
        let got = guard(|| vsri::day_elapsed_seconds(t)).or_else(|p| fail(format!("day_elapsed_seconds({t}) panics: {p}"), ""))?;
        if got as i64 != s {
            return fail(format!("second {s} of its day, {t}, is taken for second {got}"), "");
        }
        let mut nanos = if r.chance(0.5) { 0 } else { r.below(1_000_000_000) as u32 };
        if s % 60 == 59 && r.chance(0.3) {
            // within a leap second
            nanos += 1_000_000_000;
        }
        if let Some(dt) = chrono::DateTime::<chrono::Utc>::from_timestamp(t, nanos) {
            let got = guard(|| vsri::start_day_ts(dt)).or_else(|p| fail(format!("start_day_ts({t}) panics: {p}"), ""))?;
            if got != day * 86_400 {
                return fail(format!("the day of {t}.{nanos:09} starts at {}, not at {got}", day * 86_400), "");
            }
            c.local.count("starts_of_day_compared");
        }
        c.local.count(if t < 0 { "timestamps_before_1970" } else { "timestamps_since_1970" });
        c.local.hit(t as u64);
    }
    Ok(())
}
/// every second of a day, of a few days
fn c35_day(c: &mut Case) -> Res {
    let day = [0i64, -1, 1, 11_016, 19_782, -25_509, 24_855, 24_856][c.idx as usize % 8] * 86_400;
    for s in 0..86_400 {
        let got = guard(|| vsri::day_elapsed_seconds(day + s)).or_else(|p| fail(format!("day_elapsed_seconds({}) panics: {p}", day + s), ""))?;
        if got as i64 != s {
            return fail(format!("second {s} of the day {day} is taken for second {got}"), "");
        }
    }
    c.count("whole_days");
    c.local.hit(day as u64);
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C36
fn c36_case(c: &mut Case) -> Res {
    let (_d, w) = work(c);
    let r = &mut c.rng;
    let n = match r.below(4) {
        0 => 1,
        1 => 1 + r.below(4),
        2 => 1 + r.below(30),
        _ => 1 + r.below(400),
    };
    let v = series(r, n, Wild::No).v;
    let csv = if r.chance(0.5) {
        csv_text(r, &v)
    } else {
        // anywhere in the day, with hundreds of stretches
        let mut t = "timestamp,value\n".to_string();
        let mut s: Vec<i64> = (0..n).map(|_| r.range(0, 86_399)).collect();
        s.sort();
        for (s, x) in s.iter().zip(&v) {
            t += &format!("{},{x}\n", s * 1000);
        }
        t.into_bytes()
    };
    put(&w.join("a.csv"), &csv);
    let exe = tool(&c.ctx.bin, "csv-compressor");
    let res = run(&exe, &["a.csv", "--output-vsri", "-o", "b", "-e", "0"], &w, Limits::default(), &[]);
    if !res.ok() {
        return fail(format!("csv-compressor: {}", res.how()), String::from_utf8_lossy(&csv));
    }
    let res = run(&exe, &["-u", "b.bro", "-o", "whole"], &w, Limits::default(), &[]);
    let whole = get(&w.join("whole.csv")).unwrap_or_default();
    if !res.ok() || whole.is_empty() {
        return fail(format!("csv-compressor -u: {}", res.how()), String::from_utf8_lossy(&csv));
    }
    let idx = get(&w.join("b.vsri")).unwrap_or_default();
    let want: Vec<i64> = String::from_utf8_lossy(&whole).lines().skip(1).filter_map(|l| l.split(',').next().and_then(|t| t.parse().ok())).collect();
    let shown = || String::from_utf8_lossy(&idx).into_owned();
    if want.len() != n {
        return fail(format!("{n} rows come back as {}", want.len()), shown());
    }
    let mut cuts: Vec<usize> = if idx.len() <= 400 { (0..idx.len()).collect() } else { (0..120).map(|_| r.below(idx.len())).collect() };
    if c.tier == Tier::Thorough {
        cuts = (0..idx.len()).collect();
    }
    let cli: Vec<usize> = (0..8).map(|_| r.below(idx.len())).chain(0..3.min(idx.len())).collect();
    for k in cuts {
        // the way csv-compressor uses an index, in process
        let p = w.join("cut.vsri");
        put(&p, &idx[..k]);
        let times = guard(|| {
            let v = vsri::Vsri::load(p.to_str().unwrap()).map_err(|e| e.to_string())?;
            (0..n as i32).map(|i| v.get_time(i).map(|t| t as i64).ok_or("no time".to_string())).collect::<Result<Vec<_>, _>>()
        });
        match times {
            Ok(Ok(t)) if t != want => {
                let i = t.iter().zip(&want).position(|(a, b)| a != b).unwrap();
                return fail(format!("the index of {n} samples cut to {k} of {} bytes is taken for the whole: sample {i} of second {} gets second {}", idx.len(), want[i], t[i]), shown());
            }
            Ok(Ok(_)) => c.local.count("cuts_that_lose_nothing"),
            Ok(Err(_)) => c.local.count("cuts_refused_with_an_error"),
            Err(_) => c.local.count("cuts_refused_with_a_panic"),
        }
        c.local.hit(hash_bytes(k as u64, &idx));
    }
    for k in cli {
        put(&w.join("b.vsri"), &idx[..k]);
        let _ = std::fs::remove_file(w.join("part.csv"));
        let res = run(&exe, &["-u", "b.bro", "-o", "part"], &w, Limits::default(), &[]);
        if res.crash() || res.hang() {
            return fail(format!("csv-compressor -u with an index cut to {k} bytes: {}", res.how()), shown());
        }
        if res.ok() && get(&w.join("part.csv")).as_deref() != Some(&whole[..]) {
            return fail(format!("csv-compressor -u with an index cut to {k} of {} bytes succeeds with other rows", idx.len()), shown());
        }
        c.local.count(if res.ok() { "runs_that_lose_nothing" } else { "runs_that_fail" });
    }
    c.local.sample(|| format!("{n} rows, index of {} bytes", idx.len()));
    Ok(())
}

pub fn phases(id: &str) -> Option<(Vec<Phase>, Meta)> {
    let p = |name, quick, thorough, f| Phase { name, quick, thorough, threads: 0, f };
    let m = |level, rule| Meta { level, rule, assumptions: &[] };
    Some(match id {
        "C29" => (
            vec![p("lines", 9000, 135000, c29_case as fn(&mut Case) -> Res)],
            m("exploration", "one refused and one accepted command line per case, next to valid inputs and older outputs; every documented error, level and compressor in turn; distinct by command lines"),
        ),
        "C30" => (
            vec![p("long", 40, 1200, c30_long as fn(&mut Case) -> Res), p("verbose", 8000, 120000, c30_case)],
            m("exploration", "runs with and without --verbose on WBRO, CSV and .bro files, single and in directories; the printed lists parsed back; distinct by numbers, more than one"),
        ),
        "C31" => (
            vec![Phase { name: "together", quick: 900, thorough: 13500, threads: 4, f: c31_case as fn(&mut Case) -> Res }],
            m("exploration", "2 to 10 runs of all executables in one directory, alone and at the same time with random starts and pauses; distinct by the runs and how many pairs overlapped"),
        ),
        "C32" => (
            vec![p("kills", 500, 7500, c32_case as fn(&mut Case) -> Res)],
            m("fault_enumeration", "runs killed at every byte (short outputs), sampled bytes and random moments; what is left is read by the executables, and the run repeated; distinct by input and offset"),
        ),
        "C33" => (
            vec![p("wav", 900, 13500, c33_case as fn(&mut Case) -> Res)],
            m("fault_enumeration", "WAV files cut at every byte (small ones) or sampled ones, and damaged in each part of their header; distinct by content"),
        ),
        "C34" => (
            vec![p("size", 150000, 2250000, c34_case as fn(&mut Case) -> Res)],
            m("exploration", "payload sizes of automatic compression of incompressible doubles, bytes, 16 and 32 bit integers, and generated series, against the raw size; non-trivial: samples not all equal"),
        ),
        "C35" => (
            vec![p("days", 8, 8, c35_day as fn(&mut Case) -> Res), p("timestamps", 40000, 600000, c35_case)],
            m("exploration", "every second of eight days, and timestamps over all the years chrono knows; distinct timestamps"),
        ),
        "C36" => (
            vec![p("cuts", 1500, 22500, c36_case as fn(&mut Case) -> Res)],
            m("fault_enumeration", "index files cut at every byte (short ones, all in the thorough tier) or sampled ones; in process, some through csv-compressor; distinct by index and cut"),
        ),
        _ => return None,
    })
}
