//! Monitors of the time index (C14-C17). The oracle is the plain list of accepted timestamps and, for the
//! stretches, the rule documented in vsri: two points give a rate, further points belong while they keep it.
use crate::ctx::*;
use crate::rng::{hash_bytes, Rng};
use std::path::PathBuf;
use vsri::Vsri;

const DAY: i32 = 86400;

/// (first sample position, first timestamp, last timestamp, samples)
pub fn stretches(t: &[i32]) -> Vec<(usize, i32, i32, usize)> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        let mut j = i + 1;
        if j < t.len() && t[j] > t[i] {
            let m = t[j] - t[i];
            while j < t.len() && t[j] - t[j - 1] == m {
                j += 1;
            }
        }
        out.push((i, t[i], t[j - 1], j - i));
        i = j;
    }
    out
}

fn show(t: &[i32]) -> String {
    if t.len() <= 60 {
        format!("{t:?}")
    } else {
        format!("{:?}..{:?} ({} timestamps)", &t[..30], &t[t.len() - 20..], t.len())
    }
}
fn dump(t: &[i32]) -> String {
    t.iter().take(200_000).map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

/// A non-decreasing sequence of seconds of a day.
pub fn sequence(r: &mut Rng, heavy: bool) -> (Vec<i32>, &'static str) {
    let kind = r.below(12);
    let mut t: Vec<i32> = vec![];
    let mut y = match r.below(5) {
        0 => 0,
        1 => r.below(3) as i32,
        2 => r.below(60) as i32,
        3 => r.below(86000) as i32,
        _ => r.below(40000) as i32,
    };
    let n = match r.below(10) {
        0 => 1 + r.below(3),
        1..=4 => 2 + r.below(20),
        5..=8 => 10 + r.below(200),
        _ => 200 + r.below(if heavy { 20000 } else { 3000 }),
    };
    let rates: Vec<i32> = match r.below(4) {
        0 => vec![1],
        1 => vec![1, 2, 3],
        2 => vec![10, 15, 20, 30, 60],
        _ => vec![1, 5, 10, 60, 300, 3600],
    };
    let mut m = *r.pick(&rates);
    let name = match kind {
        0 => "regular",
        1 => "regular with gaps",
        2 => "off the grid by one now and then",
        3 => "jitter",
        4 => "duplicates",
        5 => "pairs and lone points",
        6 => "rate changes",
        7 => "gap of a whole number of intervals",
        8 => "runs of the same second",
        9 => "gap shorter than the interval",
        10 => "many samples, then long intervals",
        _ => "mixed",
    };
    t.push(y.min(DAY - 1));
    let burst = if kind == 10 { 500 + r.below(if heavy { 90000 } else { 3000 }) } else { 0 };
    for i in 0..n + burst {
        let k = if kind == 11 { r.below(10) } else { kind };
        let step = match k {
            0 => m,
            1 => {
                if r.chance(0.05) {
                    m + 1 + r.below(500) as i32
                } else {
                    m
                }
            }
            2 => {
                if r.chance(0.15) {
                    m + 1
                } else if r.chance(0.1) {
                    (m - 1).max(1)
                } else {
                    m
                }
            }
            3 => (m + r.below(5) as i32 - 2).max(0),
            4 => {
                if r.chance(0.25) {
                    0
                } else {
                    m
                }
            }
            5 => [m, m * 7 + 1, m * 3 + 2, 1, 2][r.below(5)],
            6 => {
                if r.chance(0.15) {
                    m = *r.pick(&rates);
                }
                m
            }
            7 => {
                if r.chance(0.12) {
                    m * (2 + r.below(4) as i32)
                } else {
                    m
                }
            }
            8 => {
                if r.chance(0.7) {
                    0
                } else {
                    1 + r.below(4) as i32
                }
            }
            9 => {
                if r.chance(0.2) && m > 1 {
                    1 + r.below(m as usize - 1) as i32
                } else {
                    m
                }
            }
            _ => {
                if i < burst {
                    (r.below(40) == 0) as i32
                } else {
                    1000 + r.below(30000) as i32
                }
            }
        };
        if y as i64 + step as i64 >= DAY as i64 {
            if r.chance(0.3) {
                t.push(DAY - 1);
            }
            break;
        }
        y += step;
        t.push(y);
    }
    (t, name)
}

/// every non-decreasing sequence of a start, and steps from a small set, numbered
fn enumerated(mut k: u64) -> Vec<i32> {
    const STEPS: [i32; 5] = [0, 1, 2, 3, 6];
    const STARTS: [i32; 3] = [0, 1, 7];
    let mut y = STARTS[(k % 3) as usize];
    k /= 3;
    let len = (k % 7) as usize;
    k /= 7;
    let mut t = vec![y];
    for _ in 0..len {
        y += STEPS[(k % 5) as usize];
        k /= 5;
        t.push(y);
    }
    t
}
const ENUM_FULL: u64 = 3 * 7 * 15625;

fn build(t: &[i32]) -> Result<Vsri, Fail> {
    let r = guard(|| {
        let mut v = Vsri::new("unused");
        for (i, y) in t.iter().enumerate() {
            if v.update_for_point(*y).is_err() {
                return Err(i);
            }
        }
        Ok(v)
    });
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(i)) => fail(format!("timestamp {} (position {i}) was refused though none before is larger: {}", t[i], show(t)), dump(t)),
        Err(p) => fail(format!("indexing panicked: {p}: {}", show(t)), dump(t)),
    }
}

fn safely<T>(t: &[i32], what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    guard(f).or_else(|p| fail(format!("{what} panicked: {p}; index of {}", show(t)), dump(t)))
}

// ---------------------------------------------------------------------------------------------- C14
fn c14_check(c: &mut Case, v: &Vsri, t: &[i32]) -> Res {
    let n = t.len() as i32;
    let got = safely(t, "get_sample_count", || v.get_sample_count())?;
    if got != n {
        return fail(format!("{n} timestamps were accepted, the index counts {got}: {}", show(t)), dump(t));
    }
    if v.min() != t[0] || v.max() != t[t.len() - 1] {
        return fail(format!("range {}..{} for {}", v.min(), v.max(), show(t)), dump(t));
    }
    let all = safely(t, "get_all_timestamps", || v.get_all_timestamps())?;
    if all != t {
        let i = all.iter().zip(t).position(|(a, b)| a != b).unwrap_or(all.len().min(t.len()));
        return fail(
            format!("the list of timestamps differs at position {i} ({:?} instead of {:?}; {} instead of {}): {}", all.get(i), t.get(i), all.len(), t.len(), show(t)),
            dump(t),
        );
    }
    for i in 0..n {
        let g = safely(t, "get_time", || v.get_time(i))?;
        if g != Some(t[i as usize]) {
            return fail(format!("sample {i} has time {g:?}, it was recorded at {}: {}", t[i as usize], show(t)), dump(t));
        }
    }
    if safely(t, "get_time", || v.get_time(n + 1))?.is_some() || safely(t, "get_time", || v.get_time(-1))?.is_some() {
        return fail(format!("a sample position outside 0..{n} has a time: {}", show(t)), dump(t));
    }
    c.local.add("positions_compared", n as u64);
    Ok(())
}
fn observe(c: &mut Case, t: &[i32]) {
    let s = stretches(t);
    c.local.max("stretches", s.len() as u64);
    if s.len() > 1 {
        c.count("sequences_with_gaps");
    }
    if s.iter().any(|x| x.3 == 1) {
        c.count("sequences_with_lone_samples");
    }
    if t.windows(2).any(|w| w[0] == w[1]) {
        c.count("sequences_with_duplicates");
    }
    if t.len() > 2 {
        let b: Vec<u8> = t.iter().flat_map(|x| x.to_le_bytes()).collect();
        c.local.hit(hash_bytes(14, &b));
    }
}
fn c14_random(c: &mut Case) -> Res {
    let heavy = c.rng.chance(0.02);
    let (t, d) = sequence(&mut c.rng, heavy);
    let v = build(&t)?;
    c14_check(c, &v, &t)?;
    observe(c, &t);
    c.local.count(&format!("shape_{}", d.replace(' ', "_")));
    c.local.sample(|| format!("{d}: {}", show(&t)));
    Ok(())
}
fn c14_enum(c: &mut Case) -> Res {
    let t = enumerated(if c.n >= ENUM_FULL { c.idx } else { c.rng.u64() % ENUM_FULL });
    // every prefix is a history of its own
    let mut v = Vsri::new("unused");
    for i in 0..t.len() {
        match safely(&t, "update_for_point", || v.update_for_point(t[i]).is_ok()) {
            Ok(true) => {}
            Ok(false) => return fail(format!("timestamp {} refused: {}", t[i], show(&t)), dump(&t)),
            Err(f) => return Err(f),
        }
        c14_check(c, &v, &t[..=i])?;
    }
    observe(c, &t);
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C15
fn c15_check(c: &mut Case, v: &Vsri, t: &[i32]) -> Res {
    let s = stretches(t);
    let (lo, hi) = (t[0], t[t.len() - 1]);
    // positions by timestamp, for those recorded once
    for (i, y) in t.iter().enumerate() {
        let once = (i == 0 || t[i - 1] != *y) && (i + 1 == t.len() || t[i + 1] != *y);
        let g = safely(t, "get_sample", || v.get_sample(*y))?;
        let same = safely(t, "get_this_or_next", || (v.get_this_or_next(*y), v.get_this_or_previous(*y)))?;
        if once {
            if g != Some(i as i32) || same.0 != g || same.1 != g {
                return fail(format!("timestamp {y} was recorded as sample {i}, looking it up gives {g:?}, this-or-next {:?}, this-or-previous {:?}: {}", same.0, same.1, show(t)), dump(t));
            }
            c.count("lookups_of_recorded_samples");
        } else {
            let first = t.partition_point(|x| x < y) as i32;
            if g != Some(first) || same.0 != g || same.1 != g {
                return fail(format!("timestamp {y} was recorded several times, first as sample {first}, looking it up gives {g:?}, this-or-next {:?}, this-or-previous {:?}: {}", same.0, same.1, show(t)), dump(t));
            }
            c.count("lookups_of_samples_recorded_several_times");
        }
    }
    // gaps
    for w in s.windows(2) {
        let (a, b) = (w[0].2, w[1].1);
        let mut ys: Vec<i32> = vec![a + 1, b - 1, a + (b - a) / 2, a + 2, b - 2];
        if s.len() > 400 && c.rng.chance(0.9) {
            ys.truncate(1);
        }
        ys.retain(|y| *y > a && *y < b);
        for y in ys {
            let (g, nx, pv) = safely(t, "a lookup in a gap", || (v.get_sample(y), v.get_this_or_next(y), v.get_this_or_previous(y)))?;
            if g.is_some() {
                return fail(format!("timestamp {y} lies in the gap {a}..{b} but has sample {g:?}: {}", show(t)), dump(t));
            }
            if nx != Some(w[1].0 as i32) {
                return fail(format!("the next sample after {y} (gap {a}..{b}) is {}, not {nx:?}: {}", w[1].0, show(t)), dump(t));
            }
            if pv != Some(w[1].0 as i32 - 1) {
                return fail(format!("the last sample before {y} (gap {a}..{b}) is {}, not {pv:?}: {}", w[1].0 - 1, show(t)), dump(t));
            }
            c.count("lookups_in_gaps");
        }
    }
    // outside
    for y in [lo - 1, lo - 40, hi + 1, hi + 1000] {
        let (g, nx, pv) = safely(t, "a lookup outside", || (v.get_sample(y), v.get_this_or_next(y), v.get_this_or_previous(y)))?;
        if g.is_some() {
            return fail(format!("timestamp {y} lies outside but has sample {g:?}: {}", show(t)), dump(t));
        }
        if y < lo && (nx != Some(0) || pv.is_some()) {
            return fail(format!("before the first timestamp ({y}): next {nx:?}, previous {pv:?}: {}", show(t)), dump(t));
        }
        if y > hi && nx.is_some() {
            return fail(format!("past the last timestamp ({y}): next {nx:?}: {}", show(t)), dump(t));
        }
    }
    // the same lookups in the file an index was written to
    if c.rng.chance(if t.len() > 300 { 0.02 } else { 0.08 }) {
        let dir = scratch(c);
        let file = dir.0.join("lookup.vsri");
        let name = file.to_str().unwrap().to_string();
        v.flush_to(&file).expect("HARNESS: flush");
        let mut ask: Vec<(i32, Option<i32>)> = vec![(lo - 1, None), (hi + 1, None), (lo - 77, None), (hi + 4000, None)];
        for k in 0..12 {
            let i = [0, t.len() - 1, c.rng.below(t.len())][if k < 2 { k } else { 2 }];
            if (i == 0 || t[i - 1] != t[i]) && (i + 1 == t.len() || t[i + 1] != t[i]) {
                ask.push((t[i], Some(i as i32)));
            }
        }
        for w in s.windows(2).take(5) {
            if w[0].2 + 1 < w[1].1 {
                ask.push((w[0].2 + 1, None));
                ask.push((w[1].1 - 1, None));
            }
        }
        for (y, want) in ask {
            let got = safely(t, "get_sample_location", || Vsri::get_sample_location(&name, y))?;
            if got != want {
                return fail(format!("looking timestamp {y} up in the index file gives {got:?} instead of {want:?}: {}", show(t)), dump(t));
            }
            c.count("lookups_in_files");
        }
    }
    // off the grid inside a stretch: only that nothing breaks
    for _ in 0..4 {
        let y = lo + c.rng.below((hi - lo + 1) as usize) as i32;
        safely(t, "a lookup", || (v.get_sample(y), v.get_this_or_next(y), v.get_this_or_previous(y)))?;
    }
    // intervals
    let mut marks: Vec<i32> = vec![lo - 3, lo - 1, lo, hi, hi + 1, hi + 5];
    for _ in 0..4 {
        let x = s[c.rng.below(s.len())];
        marks.extend([x.1 - 1, x.1, x.1 + 1, x.2 - 1, x.2, x.2 + 1]);
    }
    for _ in 0..3 {
        marks.push(lo + c.rng.below((hi - lo + 1) as usize) as i32);
    }
    for a in &marks {
        for b in &marks {
            if a > b {
                continue;
            }
            let want = !s.iter().any(|x| *a <= x.2 && *b >= x.1);
            let got = safely(t, "is_empty", || v.is_empty([*a, *b]))?;
            if got != want {
                return fail(format!("interval {a}..={b} is reported {}empty: {} (stretches {:?})", if got { "" } else { "not " }, show(t), s.iter().take(8).collect::<Vec<_>>()), dump(t));
            }
            c.local.count(if want { "empty_intervals" } else { "overlapping_intervals" });
        }
    }
    Ok(())
}
fn c15_random(c: &mut Case) -> Res {
    let (t, d) = sequence(&mut c.rng, false);
    let v = build(&t)?;
    c15_check(c, &v, &t)?;
    observe(c, &t);
    c.local.sample(|| format!("{d}: {}", show(&t)));
    Ok(())
}
fn c15_enum(c: &mut Case) -> Res {
    let t = enumerated(if c.n >= ENUM_FULL { c.idx } else { c.rng.u64() % ENUM_FULL });
    let v = build(&t)?;
    c15_check(c, &v, &t)?;
    observe(c, &t);
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C16
struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch(c: &Case) -> Dir {
    let p = PathBuf::from(&c.ctx.scratch).join(format!("{}-{}-{}", c.ctx.id, std::process::id(), c.idx));
    std::fs::create_dir_all(&p).expect("HARNESS: scratch");
    Dir(p)
}
pub fn answers(v: &Vsri, t: &[i32], r: &Rng) -> Vec<String> {
    let mut r = r.clone();
    let mut o = vec![format!("{} {} {} {:?}", v.min(), v.max(), v.get_sample_count(), v.get_all_timestamps())];
    let n = t.len() as i32;
    let (lo, hi) = (t.first().copied().unwrap_or(0), t.last().copied().unwrap_or(0));
    for i in -1..=n + 1 {
        if n > 300 && i > 40 && i < n - 40 && r.chance(0.9) {
            continue;
        }
        o.push(format!("time {i} {:?}", v.get_time(i)));
    }
    let step = ((hi - lo) / 150).max(1);
    let mut y = lo - 2;
    while y <= hi + 2 {
        o.push(format!("{y} {:?} {:?} {:?} {:?} {:?}", v.get_sample(y), v.get_this_or_next(y), v.get_this_or_previous(y), v.get_next_sample(y), v.get_previous_sample(y)));
        let e = y + r.below(60) as i32;
        o.push(format!("{y}..{e} {}", v.is_empty([y, e])));
        y += 1 + r.below(step as usize) as i32;
    }
    o
}
fn differ(a: &[String], b: &[String]) -> Option<String> {
    if a == b {
        return None;
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(0);
    let cut = |s: Option<&String>| s.map(|s| s.chars().take(200).collect::<String>()).unwrap_or_default();
    Some(format!("'{}' in memory, '{}' after loading", cut(a.get(i)), cut(b.get(i))))
}
fn c16_random(c: &mut Case) -> Res {
    let (mut t, d) = if c.rng.chance(0.3) { (enumerated(c.rng.u64() % ENUM_FULL), "small") } else { sequence(&mut c.rng, false) };
    t.truncate(2500);
    let dir = scratch(c);
    let base = dir.0.join(["metric", "a b", "m-1"][c.rng.below(3)]);
    let file = base.with_extension("vsri");
    let fs = file.to_str().unwrap().to_string();
    let reload_p = [0.05, 0.3, 1.0][c.rng.below(3)];
    let reload_p = if t.len() > 300 { 0.02 } else { reload_p };
    let io = |e: std::io::Error| Fail { msg: format!("saving or loading an index failed: {e}; {}", show(&t)), input: dump(&t) };
    let mut mem = Vsri::new(base.to_str().unwrap());
    let mut per = Vsri::new(base.to_str().unwrap());
    let mut reloads = 0;
    for (i, y) in t.iter().enumerate() {
        // now and then offer one from the past as well
        if i > 0 && t[i - 1] > 0 && c.rng.chance(0.1) {
            let past = c.rng.below(t[i - 1] as usize) as i32;
            let (a, b) = safely(&t, "update_for_point", || (mem.update_for_point(past).is_ok(), per.update_for_point(past).is_ok()))?;
            if a != b {
                return fail(format!("after reloading, offering {past} gives ok={b} instead of {a}: {}", show(&t[..i])), dump(&t));
            }
        }
        let (a, b) = safely(&t, "update_for_point", || (mem.update_for_point(*y).is_ok(), per.update_for_point(*y).is_ok()))?;
        if a != b {
            return fail(format!("after reloading, adding {y} gives ok={b} instead of {a}: {}", show(&t[..=i])), dump(&t));
        }
        if c.rng.chance(reload_p) {
            reloads += 1;
            if c.rng.chance(0.5) {
                safely(&t, "flush", || per.flush())?.map_err(io)?;
            } else {
                safely(&t, "flush_to", || per.flush_to(&file))?.map_err(io)?;
            }
            per = safely(&t, "load", || Vsri::load(&fs))?.map_err(io)?;
        }
    }
    // the final files
    let other = dir.0.join("other.vsri");
    safely(&t, "flush", || per.flush())?.map_err(io)?;
    safely(&t, "flush_to", || mem.flush_to(&other))?.map_err(io)?;
    let (f1, f2) = (std::fs::read(&file).map_err(io)?, std::fs::read(&other).map_err(io)?);
    if f1 != f2 {
        return fail(
            format!("with {reloads} reloads in between the index file is\n{}\ninstead of\n{}\n{}", String::from_utf8_lossy(&f1), String::from_utf8_lossy(&f2), show(&t)).chars().take(1500).collect::<String>(),
            dump(&t),
        );
    }
    safely(&t, "flush_to", || mem.flush_to(&other))?.map_err(io)?;
    if std::fs::read(&other).map_err(io)? != f2 {
        return fail(format!("flushing twice gives different files: {}", show(&t)), dump(&t));
    }
    // a shorter index must not leave anything of a longer file behind
    if t.len() > 3 {
        let short = build(&t[..t.len() / 2])?;
        safely(&t, "flush_to", || short.flush_to(&other))?.map_err(io)?;
        let back = safely(&t, "load", || Vsri::load(other.to_str().unwrap()))?.map_err(io)?;
        if back.get_all_timestamps() != short.get_all_timestamps() {
            return fail(format!("flushing over a longer index file keeps old content: {}", show(&t)), dump(&t));
        }
    }
    let lo = safely(&t, "load", || Vsri::load(&fs))?.map_err(io)?;
    let q = c.rng.clone();
    let (a, b, p) = safely(&t, "a query", || (answers(&mem, &t, &q), answers(&lo, &t, &q), answers(&per, &t, &q)))?;
    if let Some(m) = differ(&a, &b).or_else(|| differ(&a, &p)) {
        return fail(format!("{m} ({reloads} reloads): {}", show(&t)), dump(&t));
    }
    // the static lookup reads the same file
    for _ in 0..5 {
        let y = t[c.rng.below(t.len())] + c.rng.below(3) as i32 - 1;
        let (st, me) = safely(&t, "get_sample_location", || (Vsri::get_sample_location(&fs, y), mem.get_sample(y)))?;
        if st != me {
            return fail(format!("looking {y} up in the file gives {st:?}, in memory {me:?}: {}", show(&t)), dump(&t));
        }
    }
    c.local.add("reloads", reloads);
    c.local.add("answers_compared", a.len() as u64 * 2);
    observe(c, &t);
    c.local.sample(|| format!("{d}: {reloads} reloads, {}", show(&t)));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C17
fn c17_random(c: &mut Case) -> Res {
    let (mut t, d) = if c.rng.chance(0.4) { (enumerated(c.rng.u64() % ENUM_FULL), "small") } else { sequence(&mut c.rng, false) };
    t.truncate(800);
    let dir = scratch(c);
    let file = dir.0.join("i.vsri");
    let io = |e: std::io::Error| Fail { msg: format!("saving an index failed: {e}"), input: String::new() };
    let mut v = Vsri::new("unused");
    let mut past_offers = 0u64;
    for (i, y) in t.iter().enumerate() {
        if !safely(&t, "update_for_point", || v.update_for_point(*y).is_ok())? {
            return fail(format!("timestamp {y} refused after {}", show(&t[..i])), dump(&t));
        }
        let small = t.len() < 40;
        if *y > 0 && (small || c.rng.chance(0.06)) {
            let mut offers = vec![*y - 1, 0, c.rng.below(*y as usize) as i32, t[0], t[0] - 1, -1, i32::MIN, t[c.rng.below(i + 1)]];
            if small && i > 2 {
                offers.truncate(3);
            }
            offers.retain(|o| o < y);
            let q = c.rng.clone();
            let deep = small || c.rng.chance(0.2);
            let before = if deep { safely(&t, "a query", || answers(&v, &t[..=i], &q))? } else { vec![] };
            let f0 = if deep {
                v.flush_to(&file).map_err(io)?;
                std::fs::read(&file).map_err(io)?
            } else {
                vec![]
            };
            for o in offers {
                past_offers += 1;
                if safely(&t, "update_for_point", || v.update_for_point(o).is_ok())? {
                    return fail(format!("timestamp {o} is in the past of {y} and was accepted: {}", show(&t[..=i])), dump(&t));
                }
            }
            if deep {
                let after = safely(&t, "a query", || answers(&v, &t[..=i], &q))?;
                if let Some(m) = differ(&before, &after) {
                    return fail(format!("refusing a timestamp changed the index: {}: {}", m.replace("in memory", "before").replace("after loading", "after"), show(&t[..=i])), dump(&t));
                }
                v.flush_to(&file).map_err(io)?;
                if std::fs::read(&file).map_err(io)? != f0 {
                    return fail(format!("refusing a timestamp changed the index file: {}", show(&t[..=i])), dump(&t));
                }
                c.count("states_compared_around_refusals");
            }
        }
    }
    // and the refusals left no trace at the end either
    let want = build(&t)?;
    let q = c.rng.clone();
    let (a, b) = safely(&t, "a query", || (answers(&want, &t, &q), answers(&v, &t, &q)))?;
    if let Some(m) = differ(&a, &b) {
        return fail(format!("refused timestamps left a trace: {}: {}", m.replace("in memory", "without them").replace("after loading", "with them"), show(&t)), dump(&t));
    }
    c.local.add("past_timestamps_offered", past_offers);
    observe(c, &t);
    c.local.sample(|| format!("{d}: {past_offers} refused offers, {}", show(&t)));
    Ok(())
}

/// A day of more samples than 16 bits count, in one stretch or in very many
fn long_day(r: &mut Rng) -> (Vec<i32>, &'static str) {
    let odd = 1 + r.below(4000) as i32;
    let (t, name): (Vec<i32>, _) = match r.below(6) {
        0 => ((0..DAY).collect(), "every second"),
        1 => ((0..DAY).filter(|y| y % odd != odd / 2 || *y == 0).collect(), "every second but some"),
        2 => ((0..DAY).flat_map(|y| std::iter::repeat(y).take(1 + (y % odd == 0) as usize)).collect(), "every second, some of them twice"),
        3 => ((0..DAY).filter(|y| y % 3 != 1).collect(), "two seconds of three"),
        4 => ((0..DAY / 8).flat_map(|y| std::iter::repeat(8 * y).take(8)).collect(), "eight times every eighth second"),
        _ => (std::iter::repeat(odd).take(66_000 + r.below(80_000)).chain([odd + 1, odd + 2, odd + 9]).collect(), "the same second over and over"),
    };
    let from = if r.chance(0.5) { 0 } else { r.below(t.len() / 8) };
    (t[from..].to_vec(), name)
}
/// positions around powers of two, the ends and some others
fn marks_of(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (3..18).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).collect();
    p.extend([0, 1, n - 2, n - 1]);
    p.extend((0..60).map(|_| r.below(n)));
    p.retain(|i| *i < n);
    p
}
fn c14_long(c: &mut Case) -> Res {
    let (t, d) = long_day(&mut c.rng);
    let v = build(&t)?;
    let n = t.len() as i32;
    let got = safely(&t, "get_sample_count", || v.get_sample_count())?;
    if got != n || v.min() != t[0] || v.max() != t[t.len() - 1] {
        return fail(format!("{n} timestamps were accepted, the index counts {got}, from {} to {}: {}", v.min(), v.max(), show(&t)), dump(&t));
    }
    if safely(&t, "get_all_timestamps", || v.get_all_timestamps())? != t {
        return fail(format!("the list of timestamps differs: {d}: {}", show(&t)), dump(&t));
    }
    for i in marks_of(&mut c.rng, t.len()) {
        let g = safely(&t, "get_time", || v.get_time(i as i32))?;
        if g != Some(t[i]) {
            return fail(format!("sample {i} has time {g:?}, it was recorded at {}: {}", t[i], show(&t)), dump(&t));
        }
    }
    c.local.max("samples_in_one_index", n as u64);
    observe(c, &t);
    c.local.sample(|| format!("{d}: {}", show(&t)));
    Ok(())
}
fn c15_long(c: &mut Case) -> Res {
    let (t, d) = long_day(&mut c.rng);
    let v = build(&t)?;
    for i in marks_of(&mut c.rng, t.len()) {
        let y = t[i];
        let first = t.partition_point(|x| *x < y) as i32;
        let g = safely(&t, "a lookup", || (v.get_sample(y), v.get_this_or_next(y), v.get_this_or_previous(y)))?;
        if g != (Some(first), Some(first), Some(first)) {
            return fail(format!("timestamp {y} was first recorded as sample {first}, looking it up gives {g:?} ({d}): {}", show(&t)), dump(&t));
        }
        c.count("lookups_of_recorded_samples");
    }
    let s = stretches(&t);
    for _ in 0..60 {
        let w = s.len().checked_sub(1).filter(|k| *k > 0).map(|k| c.rng.below(k));
        let Some(w) = w.map(|k| (s[k], s[k + 1])) else { break };
        let y = w.0 .2 + 1;
        if y >= w.1 .1 {
            continue;
        }
        let g = safely(&t, "a lookup", || (v.get_sample(y), v.get_this_or_next(y), v.get_this_or_previous(y)))?;
        if g != (None, Some(w.1 .0 as i32), Some(w.1 .0 as i32 - 1)) {
            return fail(format!("timestamp {y} lies between the samples {} and {}, looking it up gives {g:?} ({d}): {}", w.1 .0 - 1, w.1 .0, show(&t)), dump(&t));
        }
        c.count("lookups_in_gaps");
    }
    observe(c, &t);
    c.local.sample(|| format!("{d}: {}", show(&t)));
    Ok(())
}
fn c16_long(c: &mut Case) -> Res {
    let (t, d) = long_day(&mut c.rng);
    let dir = scratch(c);
    let (one, two) = (dir.0.join("one.vsri"), dir.0.join("two.vsri"));
    let io = |e: std::io::Error| Fail { msg: format!("saving or loading an index failed: {e}; {}", show(&t)), input: dump(&t) };
    let mem = build(&t)?;
    // stored in the middle of the day, and the rest added after loading
    let cut = 1 + c.rng.below(t.len() - 1);
    let part = build(&t[..cut])?;
    safely(&t, "flush_to", || part.flush_to(&one))?.map_err(io)?;
    let mut per = safely(&t, "load", || Vsri::load(one.to_str().unwrap()))?.map_err(io)?;
    for y in &t[cut..] {
        if !safely(&t, "update_for_point", || per.update_for_point(*y).is_ok())? {
            return fail(format!("after reloading at {cut}, {y} is refused: {}", show(&t)), dump(&t));
        }
    }
    safely(&t, "flush_to", || mem.flush_to(&one))?.map_err(io)?;
    safely(&t, "flush_to", || per.flush_to(&two))?.map_err(io)?;
    if std::fs::read(&one).map_err(io)? != std::fs::read(&two).map_err(io)? {
        return fail(format!("reloaded at {cut}, the index file differs ({d}): {}", show(&t)), dump(&t));
    }
    let back = safely(&t, "load", || Vsri::load(one.to_str().unwrap()))?.map_err(io)?;
    if safely(&t, "get_all_timestamps", || back.get_all_timestamps())? != t {
        return fail(format!("the timestamps of the loaded index differ ({d}): {}", show(&t)), dump(&t));
    }
    for i in marks_of(&mut c.rng, t.len()) {
        let y = t[i];
        let ask = |v: &Vsri| (v.get_time(i as i32), v.get_sample(y), v.get_this_or_next(y + 1), v.get_this_or_previous(y - 1), v.is_empty([y + 1, y + 1]));
        let (a, b) = safely(&t, "a lookup", || (ask(&mem), ask(&back)))?;
        if a != b {
            return fail(format!("asked about sample {i} at {y}, the index says {a:?}, and {b:?} after loading ({d}): {}", show(&t)), dump(&t));
        }
        c.local.add("answers_compared", 5);
    }
    observe(c, &t);
    c.local.sample(|| format!("{d}: {}", show(&t)));
    Ok(())
}

pub fn phases(id: &str) -> Option<(Vec<Phase>, Meta)> {
    let p = |name, quick, thorough, f| Phase { name, quick, thorough, threads: 0, f };
    let m = |rule| Meta { level: "exploration", rule, assumptions: &["timestamps are seconds of a day (0..86399)"] };
    Some(match id {
        "C14" => (
            vec![p("enumerated", ENUM_FULL, ENUM_FULL, c14_enum as fn(&mut Case) -> Res), p("random", 60000, 900000, c14_random), p("long", 160, 2400, c14_long)],
            m("all sequences of up to 7 timestamps from 3 starts and 5 step sizes with every prefix checked, then random days of 12 shapes; non-trivial: more than two timestamps; distinct by sequence"),
        ),
        "C15" => (
            vec![p("enumerated", ENUM_FULL, ENUM_FULL, c15_enum as fn(&mut Case) -> Res), p("random", 80000, 1200000, c15_random), p("long", 160, 2400, c15_long)],
            m("lookups of every recorded timestamp, in and around every gap and outside, and intervals around stretch limits, on the sequences of C14; non-trivial: more than two timestamps; distinct by sequence"),
        ),
        "C16" => (
            vec![p("random", 32000, 480000, c16_random as fn(&mut Case) -> Res), p("long", 80, 1200, c16_long)],
            m("twin indexes, one persisted and reloaded at random points; files and answers compared; non-trivial: more than two timestamps; distinct by sequence"),
        ),
        "C17" => (
            vec![p("random", 45000, 675000, c17_random as fn(&mut Case) -> Res)],
            m("past timestamps offered between accepted ones, answers and index file compared around each refusal; non-trivial: more than two timestamps; distinct by sequence"),
        ),
        _ => return None,
    })
}
