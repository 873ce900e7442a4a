//! Running the executables under limits, as monitored child processes.
use std::ffi::OsStr;
use std::fs::File;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

#[derive(Clone, Copy)]
pub struct Limits {
    pub cpu_s: u64,
    pub mem: u64,
    pub fsize: u64,
    /// report a write beyond fsize as an error instead of a signal
    pub ignore_xfsz: bool,
}
impl Default for Limits {
    fn default() -> Self {
        Limits { cpu_s: 60, mem: 4 << 30, fsize: 256 << 20, ignore_xfsz: false }
    }
}

pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
}
impl Run {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn hang(&self) -> bool {
        self.signal == Some(libc::SIGXCPU) || self.signal == Some(libc::SIGKILL)
    }
    pub fn crash(&self) -> bool {
        matches!(self.signal, Some(libc::SIGSEGV) | Some(libc::SIGBUS) | Some(libc::SIGILL) | Some(libc::SIGFPE))
    }
    pub fn how(&self) -> String {
        let e: String = self.err.chars().rev().take(300).collect::<Vec<_>>().into_iter().rev().collect();
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit status {c} [{}]", e.trim().replace('\n', " | ")),
            (_, Some(s)) => format!("signal {s} [{}]", e.trim().replace('\n', " | ")),
            _ => "?".into(),
        }
    }
}

pub fn tool(bin: &str, name: &str) -> PathBuf {
    let p = Path::new(bin).join(name);
    if bin.is_empty() || !p.exists() {
        panic!("HARNESS: executable {name} is missing in '{bin}'");
    }
    p
}

/// Surroundings that must not change what a run does: time zone, locale, log level, terminal settings.
pub fn surroundings(r: &mut crate::rng::Rng, n: usize) -> Vec<(&'static str, &'static str)> {
    let mut e = vec![];
    if r.chance(0.5) {
        return e;
    }
    if r.chance(0.6) {
        e.push(("TZ", *r.pick(&["UTC", "Asia/Tokyo", "America/New_York", "Asia/Kathmandu", "JST-9", "EST5EDT,M3.2.0,M11.1.0", "<+1345>-13:45", "", ":bad"])));
    }
    if r.chance(0.5) {
        let logs = ["off", "error", "warn", "info", "debug", "atsc=debug", "vsri=trace", "trace"];
        // the highest levels print every sample, over and over
        e.push(("RUST_LOG", logs[r.below(if n <= 400 { 8 } else if n <= 3000 { 7 } else { 4 })]));
    }
    if r.chance(0.3) {
        e.push(("LC_ALL", *r.pick(&["de_DE.UTF-8", "C.UTF-8", "tr_TR.UTF-8", "POSIX"])));
        e.push(("LANG", "de_DE.UTF-8"));
    }
    if r.chance(0.2) {
        e.push(("RUST_BACKTRACE", *r.pick(&["1", "full"])));
    }
    if r.chance(0.2) {
        e.push(("HOME", "/nonexistent"));
    }
    if r.chance(0.2) {
        e.push(("TMPDIR", "/nonexistent"));
    }
    if r.chance(0.1) {
        e.push(("RUST_LOG_STYLE", "always"));
    }
    e
}

/// Surroundings that reach into an executable's calls on its own files (see tools/ioshim.c).
#[derive(Clone, Copy)]
pub enum Io<'a> {
    Count(&'a Path),
    Delay { seed: u64, max_us: u64 },
    Short { seed: u64 },
    /// `writes`: only the calls that could change something are counted
    Fail { at: usize, errno: i32, writes: bool },
    Kill { at: usize, half: bool },
}
/// The environment for it, or none where the shim could not be built.
pub fn io_env(io: Io, root: &Path) -> Option<Vec<(String, String)>> {
    let so = std::env::var("IOSHIM").ok().filter(|s| !s.is_empty())?;
    let mut e = vec![("LD_PRELOAD".to_string(), so), ("IOSHIM_ROOT".into(), root.to_string_lossy().into_owned())];
    let mut put = |k: &str, v: String| e.push((format!("IOSHIM_{k}"), v));
    match io {
        Io::Count(log) => {
            put("MODE", "count".into());
            put("LOG", log.to_string_lossy().into_owned());
        }
        Io::Delay { seed, max_us } => {
            put("MODE", "delay".into());
            put("SEED", seed.to_string());
            put("MAX", max_us.to_string());
        }
        Io::Short { seed } => {
            put("MODE", "short".into());
            put("SEED", seed.to_string());
        }
        Io::Fail { at, errno, writes } => {
            if writes {
                put("ONLY", "w".into());
            }
            put("MODE", "fail".into());
            put("AT", at.to_string());
            put("ERRNO", errno.to_string());
        }
        Io::Kill { at, half } => {
            put("MODE", "kill".into());
            put("AT", at.to_string());
            put("SEED", (half as u64).to_string());
        }
    }
    Some(e)
}
pub fn env_of(e: &[(String, String)]) -> Vec<(&str, &str)> {
    e.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect()
}
/// The kinds of calls on its own files that a run makes, one letter each, in order.
pub fn io_calls<A: AsRef<OsStr>>(exe: &Path, args: &[A], dir: &Path) -> Option<(Run, Vec<u8>)> {
    let base = dir.parent().expect("HARNESS: scratch parent");
    let log = base.join(format!(".io-{}", std::thread::current().id().as_u64_()));
    let _ = std::fs::remove_file(&log);
    let e = io_env(Io::Count(&log), base)?;
    let r = run(exe, args, dir, Limits::default(), &env_of(&e));
    let b = std::fs::read(&log).unwrap_or_default();
    let _ = std::fs::remove_file(&log);
    Some((r, b))
}

pub fn run<A: AsRef<OsStr>>(exe: &Path, args: &[A], dir: &Path, l: Limits, env: &[(&str, &str)]) -> Run {
    run_out(exe, args, dir, l, env, None)
}

pub fn run_out<A: AsRef<OsStr>>(exe: &Path, args: &[A], dir: &Path, l: Limits, env: &[(&str, &str)], logs: Option<&Path>) -> Run {
    // output to files next to, not in, the working directory
    let base = logs.unwrap_or_else(|| dir.parent().expect("HARNESS: scratch parent"));
    let tag = format!("{}", std::thread::current().id().as_u64_());
    let (po, pe) = (base.join(format!(".out-{tag}")), base.join(format!(".err-{tag}")));
    let mut c = Command::new(exe);
    c.args(args).current_dir(dir).env_clear().env("PATH", "/usr/bin:/bin").env("LC_ALL", "C");
    for (k, v) in env {
        c.env(k, v);
    }
    c.stdin(Stdio::null());
    if l.ignore_xfsz {
        // the limit would hit the logs too
        c.stdout(Stdio::null());
        c.stderr(Stdio::null());
    } else {
        c.stdout(File::create(&po).expect("HARNESS: stdout file"));
        c.stderr(File::create(&pe).expect("HARNESS: stderr file"));
    }
    unsafe {
        c.pre_exec(move || {
            let set = |r, v: u64| {
                let x = libc::rlimit { rlim_cur: v, rlim_max: v };
                libc::setrlimit(r, &x);
            };
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let x = libc::rlimit { rlim_cur: l.cpu_s, rlim_max: l.cpu_s + 10 };
            libc::setrlimit(libc::RLIMIT_CPU, &x);
            set(libc::RLIMIT_CORE, 0);
            set(libc::RLIMIT_AS, if l.mem > 0 { l.mem } else { libc::RLIM_INFINITY });
            set(libc::RLIMIT_FSIZE, l.fsize);
            libc::signal(libc::SIGXFSZ, if l.ignore_xfsz { libc::SIG_IGN } else { libc::SIG_DFL });
            // a run that sits idle is inconclusive, not a verdict
            libc::alarm(400);
            Ok(())
        });
    }
    let st = c.status().expect("HARNESS: cannot start the executable");
    let rd = |p: &Path| {
        if l.ignore_xfsz {
            return String::new();
        }
        let b = std::fs::read(p).unwrap_or_default();
        let k = b.len().min(1 << 26);
        String::from_utf8_lossy(&b[..k]).into_owned()
    };
    let r = Run { code: st.code(), signal: st.signal(), out: rd(&po), err: rd(&pe) };
    if r.signal == Some(libc::SIGALRM) {
        panic!("HARNESS: {exe:?} sat idle until the wall-clock watchdog");
    }
    r
}

trait IdNum {
    fn as_u64_(&self) -> u64;
}
impl IdNum for std::thread::ThreadId {
    fn as_u64_(&self) -> u64 {
        let s = format!("{self:?}");
        s.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0)
    }
}
