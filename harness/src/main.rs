//! harness <property>          run a check (supervising parent + monitored child)
//! harness replay <file.json>  run the one case recorded in a replay file again
//! harness digest SEED FROM N MODE   print digests of deterministic work items
mod alloc;
mod cli;
mod ctx;
mod gen;
mod oracle;
mod p_cli;
mod p_format;
mod p_meta;
mod p_more;
#[cfg(feature = "api")]
mod p_api;
#[cfg(not(feature = "api"))]
mod p_api {
    pub fn phases(_: &str) -> Option<(Vec<crate::ctx::Phase>, crate::ctx::Meta)> {
        None
    }
}
mod p_res;
mod p_series;
mod p_ub;
mod p_vsri;
mod p_wbro;
mod refdec;
mod rng;

use ctx::*;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

use std::os::unix::process::ExitStatusExt;
use std::time::Instant;

fn phases_of(id: &str) -> Option<(Vec<Phase>, Meta)> {
    p_ub::phases(id).or_else(|| p_meta::phases(id)).or_else(|| p_more::phases(id)).or_else(|| p_res::phases(id)).or_else(|| p_api::phases(id)).or_else(|| p_cli::phases(id)).or_else(|| p_format::phases(id)).or_else(|| p_series::phases(id)).or_else(|| p_vsri::phases(id)).or_else(|| p_wbro::phases(id))
}

fn env(k: &str, d: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| d.to_string())
}

fn read_known(verif: &str) -> Vec<(String, String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{verif}/known_findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("finding: property=") {
                let mut it = r.splitn(3, ' ');
                let (p, k, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if let Some(k) = k.strip_prefix("key=") {
                    v.push((p.to_string(), k.to_string(), d.to_string()));
                }
            }
        }
    }
    v
}

fn make_ctx(id: &str) -> Ctx {
    let tier = if env("VERIF_TIER", "quick") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let verif = env("VERIF_DIR", "/verif");
    Ctx {
        id: id.to_string(),
        seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
        tier,
        known: read_known(&verif),
        bin: env("ATSC_BIN", ""),
        scratch: env("SCRATCH", "/tmp"),
        verif,
        started: Instant::now(),
    }
}

fn threads() -> usize {
    env("HARNESS_THREADS", "8").parse().unwrap_or(8)
}
fn budget(t: Tier) -> f64 {
    env("HARNESS_BUDGET", if t == Tier::Quick { "420" } else { "3000" }).parse().unwrap_or(420.0)
}

fn map_journal(path: &str) -> bool {
    use std::os::fd::AsRawFd;
    let f = match std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path) {
        Ok(f) => f,
        Err(_) => return false,
    };
    if f.set_len(4096).is_err() {
        return false;
    }
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        if p == libc::MAP_FAILED {
            return false;
        }
        JOURNAL = p as *mut _;
    }
    true
}

fn limit_memory() {
    if env("HARNESS_NO_AS", "") == "1" {
        return;
    }
    let l = libc::rlimit { rlim_cur: 20 << 30, rlim_max: libc::RLIM_INFINITY };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
}

fn child(id: &str) -> i32 {
    install_hook();
    let ctx = make_ctx(id);
    map_journal(&env("HARNESS_JOURNAL", "/dev/null"));
    limit_memory();
    let (mut ph, meta) = match phases_of(id) {
        Some(x) => x,
        None => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    let only = env("HARNESS_PHASE", "");
    if !only.is_empty() {
        ph.retain(|p| p.name == only);
    }
    let o = run_phases(&ctx, &ph, threads(), budget(ctx.tier));
    for (k, m) in &o.local.known {
        let d = ctx.known.iter().find(|(p, kk, _)| p == id && kk == k).map(|x| x.2.clone()).unwrap_or_default();
        println!("KNOWN-FINDING: property={id} {k}: {d} [{m}]");
    }
    let mut extra = vec![];
    if let Ok(x) = std::fs::read_to_string(env("HARNESS_EXTRA", "/dev/null")) {
        for l in x.lines() {
            if let Some((k, v)) = l.split_once('=') {
                extra.push((k.to_string(), v.to_string()));
            }
        }
    }
    write_evidence(&ctx, &meta, &o, &extra);
    println!(
        "{id} seed={} tier={:?}: {} cases, {} distinct non-trivial, {:.1}s{}",
        ctx.seed,
        ctx.tier,
        o.local.evals,
        o.local.nontrivial.len(),
        ctx.started.elapsed().as_secs_f64(),
        if o.truncated { " (stopped at the time budget)" } else { "" }
    );
    if o.violations.is_empty() {
        return 0;
    }
    for (k, v) in o.violations.iter().enumerate() {
        let r = write_replay(&ctx, k, v);
        if k < 5 {
            println!("  {} case {}: {}", v.phase, v.idx, v.msg.chars().take(600).collect::<String>());
            println!("VIOLATION property={id} replay={r}");
        }
    }
    1
}

fn supervise(id: &str) -> i32 {
    let ctx = make_ctx(id);
    let jp = format!("{}/journal.{}", ctx.scratch, std::process::id());
    let exe = std::env::current_exe().unwrap();
    if !map_journal(&jp) {
        eprintln!("cannot map {jp}");
        return 2;
    }
    let st = std::process::Command::new(exe).arg("--child").arg(id).env("HARNESS_JOURNAL", &jp).status();
    let _ = std::fs::remove_file(&jp);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("spawn: {e}");
            return 2;
        }
    };
    if let Some(c) = st.code() {
        if c != 77 {
            return c;
        }
    }
    let (ph, meta) = phases_of(id).unwrap();
    let what = match (st.code(), st.signal()) {
        (Some(77), _) => format!("a case used more than {CASE_CPU_LIMIT} s of CPU without finishing"),
        (_, Some(s)) if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&s) => {
            format!("the process was ended by signal {s}")
        }
        _ => {
            eprintln!("harness ended abnormally: {st:?}");
            return 2;
        }
    };
    let slots: Vec<u64> = if st.code() == Some(77) { vec![journal_get(SLOTS - 1)] } else { (0..SLOTS).map(journal_get).filter(|x| *x != 0).collect() };
    let cases: Vec<String> = slots
        .iter()
        .map(|s| format!("{} case {}", ph.get((s >> 48) as usize - 1).map(|p| p.name).unwrap_or("?"), s & 0xffff_ffff_ffff))
        .collect();
    let first = slots.first().copied().unwrap_or(1 << 48);
    let v = Violation {
        phase: ph.get(((first >> 48) as usize).saturating_sub(1)).map(|p| p.name.to_string()).unwrap_or_default(),
        idx: first & 0xffff_ffff_ffff,
        msg: format!("{what}; in flight: {}", cases.join(", ")),
        input: String::new(),
    };
    let o = Outcome { local: Local { evals: slots.len() as u64, ..Default::default() }, violations: vec![], truncated: true };
    write_evidence(&ctx, &meta, &o, &[]);
    let r = write_replay(&ctx, 0, &v);
    println!("  {}", v.msg);
    println!("VIOLATION property={id} replay={r}");
    1
}

fn field(t: &str, k: &str) -> Option<String> {
    let i = t.find(&format!("\"{k}\":"))? + k.len() + 3;
    let r = &t[i..];
    if let Some(s) = r.strip_prefix('"') {
        Some(s.split('"').next()?.to_string())
    } else {
        Some(r.chars().take_while(|c| c.is_ascii_digit()).collect())
    }
}

fn replay(path: &str) -> i32 {
    install_hook();
    let t = std::fs::read_to_string(path).expect("replay file");
    let id = field(&t, "property").unwrap();
    let mut ctx = make_ctx(&id);
    ctx.seed = field(&t, "seed").unwrap().parse().unwrap();
    ctx.tier = if field(&t, "tier").unwrap() == "thorough" { Tier::Thorough } else { Tier::Quick };
    let name = field(&t, "phase").unwrap();
    let idx: u64 = field(&t, "case").unwrap().parse().unwrap();
    let (ph, _) = phases_of(&id).unwrap();
    let ph = ph.into_iter().find(|p| p.name == name).expect("phase");
    let mut l = Local::default();
    let n = if ctx.tier == Tier::Quick { ph.quick } else { ph.thorough };
    match run_one(&ctx, &ph, n, idx, &mut l) {
        Some(v) => {
            println!("{}", v.msg);
            println!("VIOLATION property={id} replay={path}");
            1
        }
        None => {
            println!("{id} {name} case {idx}: holds {:?} {:?}", l.counters, l.samples);
            0
        }
    }
}

fn digest(a: &[String]) -> i32 {
    install_hook();
    let (seed, from, n, mode): (u64, u64, u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let item = |i: u64| match mode {
        0 => i,
        1 => n - 1 - i,
        _ => (i * 7919 + 3) % n,
    };
    let next = std::sync::atomic::AtomicU64::new(0);
    let nt = if mode == 0 { 8 } else { 4 };
    let out = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..nt {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= n {
                    break;
                }
                let k = from + item(i);
                let h = p_series::work_digest(seed, k);
                out.lock().unwrap().push((k, h));
            });
        }
    });
    for (k, h) in out.into_inner().unwrap() {
        println!("{k} {h:x}");
    }
    0
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let r = match a.first().map(|s| s.as_str()) {
        Some("--child") => child(&a[1]),
        Some("replay") => replay(&a[1]),
        Some("digest") => digest(&a[1..]),
        Some("races") => p_ub::races(&a[1..]),
        Some("ubwork") => p_ub::ubwork(&a[1..]),
        Some(id) => supervise(id),
        None => 2,
    };
    std::process::exit(r);
}
