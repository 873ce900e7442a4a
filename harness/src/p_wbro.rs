//! WBRO containers: C12 (bit-exact storage) and C13 (damaged data).
use crate::ctx::*;
use crate::gen::{series, Wild};
use crate::rng::{hash_f64s, Rng};
use std::path::PathBuf;
use wavbrro::wavbrro::WavBrro;

const CHUNK: usize = 2048;

pub struct Dir(pub PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub fn scratch(c: &Case) -> Dir {
    let p = PathBuf::from(&c.ctx.scratch).join(format!("{}-{}-{}", c.ctx.id, std::process::id(), c.idx));
    std::fs::create_dir_all(&p).expect("HARNESS: scratch");
    Dir(p)
}

/// Bit patterns of every class of number.
pub fn bits(r: &mut Rng, n: usize) -> Vec<f64> {
    let kind = r.below(6);
    (0..n)
        .map(|i| match kind {
            0 => f64::from_bits(r.u64()),
            1 => f64::from_bits(match r.below(12) {
                0 => 0x7ff8_0000_0000_0000,
                1 => 0x7ff0_0000_0000_0001 | (r.u64() >> 13),
                2 => 0xfff8_0000_0000_0000 | (r.u64() >> 14),
                3 => 0x7ff0_0000_0000_0000,
                4 => 0xfff0_0000_0000_0000,
                5 => 0x8000_0000_0000_0000,
                6 => 0,
                7 => 1 + (r.u64() >> 20),
                8 => 0x8000_0000_0000_0001,
                9 => 0x7fef_ffff_ffff_ffff,
                10 => 0x0010_0000_0000_0000,
                _ => r.u64(),
            }),
            2 => i as f64,
            3 => (i as f64 * 0.1).sin() * 1e3,
            4 => f64::from_bits(r.u64() & 0xffff),
            _ => [0.0, 1.0, -0.0, f64::NAN][r.below(4)],
        })
        .collect()
}
fn same(a: &[f64], b: &[f64]) -> Option<usize> {
    if a.len() != b.len() {
        return Some(a.len().min(b.len()));
    }
    a.iter().zip(b).position(|(x, y)| x.to_bits() != y.to_bits())
}
fn dump(v: &[f64]) -> String {
    v.iter().take(20000).map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(" ")
}
fn hexf(x: Option<&f64>) -> String {
    x.map(|x| format!("{x:e} ({:016x})", x.to_bits())).unwrap_or("nothing".into())
}

fn c12_one(c: &mut Case, v: &[f64]) -> Res {
    let n = v.len();
    let dir = scratch(c);
    let (pa, pb) = (dir.0.join("a.wbro"), dir.0.join("b.wbro"));
    if c.rng.chance(0.3) {
        // the file is there already and longer
        std::fs::write(&pa, vec![0x5a; 12 + 8 * n + 300]).expect("HARNESS: scratch");
    }
    // where building sample by sample is interrupted: stored and read back, copied or looked at
    let mut stops: Vec<usize> = (0..c.rng.below(4)).map(|_| if c.rng.chance(0.3) { CHUNK * c.rng.below(2 + n / CHUNK) } else { c.rng.below(n + 1) }).filter(|p| *p <= n).collect();
    if n <= 5000 && c.rng.chance(0.05) {
        stops.extend((0..n).step_by(1 + n / 20));
    }
    let way = c.rng.below(4);
    let r = guard(|| {
        WavBrro::to_file_with_data(&pa, v);
        let mut w = WavBrro::default();
        for i in 0..=n {
            if stops.contains(&i) {
                match way {
                    0 => w = WavBrro::from_bytes(&w.to_bytes()),
                    1 => w = w.clone(),
                    2 => w.to_file(&pb),
                    _ => {
                        // a copy goes its own way
                        let mut o = w.clone();
                        o.add_sample(1.0);
                        w = WavBrro::from_bytes(&w.to_bytes());
                    }
                }
            }
            if i < n {
                w.add_sample(v[i]);
            }
        }
        w
    });
    let resumed = r.or_else(|p| fail(format!("building {n} samples with interruptions at {stops:?} (way {way}) panicked: {p}"), dump(v)))?;
    if !stops.is_empty() {
        c.local.count("interrupted_builds");
    }
    let r = guard(|| {
        WavBrro::to_file_with_data(&pa, v);
        let mut w = WavBrro::new();
        for x in v {
            w.add_sample(*x);
        }
        w.to_file(&pb);
        let a = WavBrro::from_file(&pa);
        let b = WavBrro::from_file(&pb);
        let bytes = w.to_bytes();
        let w2 = WavBrro::from_bytes(&bytes);
        (a, b, w, w2)
    });
    let (a, b, w, w2) = r.or_else(|p| fail(format!("writing or reading {n} samples panicked: {p}"), dump(v)))?;
    let (fa, fb) = (std::fs::read(&pa).unwrap_or_default(), std::fs::read(&pb).unwrap_or_default());
    for (what, o) in [("the whole sequence", a), ("sample by sample", b)] {
        let o = match o {
            Ok(o) => o,
            Err(e) => return fail(format!("the file written from {n} samples ({what}) is not readable: {e}"), dump(v)),
        };
        if let Some(i) = same(v, &o) {
            return fail(format!("written as {what}: {n} samples came back as {}; sample {i} was {} and is {}", o.len(), hexf(v.get(i)), hexf(o.get(i))), dump(v));
        }
    }
    let flat = |w: &WavBrro| w.chunks.iter().flatten().copied().collect::<Vec<f64>>();
    let resumed_what = format!("built sample by sample, {} at {stops:?}", ["stored and read back", "copied", "written out", "copied, stored and read back"][way]);
    for (what, w) in [("built sample by sample", &w), ("read back from bytes", &w2), (resumed_what.as_str(), &resumed)] {
        if w.sample_count as usize != n {
            return fail(format!("{what}: sample count {} for {n} samples", w.sample_count), dump(v));
        }
        let l: Vec<usize> = w.chunks.iter().map(|c| c.len()).collect();
        let want: Vec<usize> = v.chunks(CHUNK).map(|c| c.len()).collect();
        if l != want {
            return fail(format!("{what}: chunk lengths {l:?} for {n} samples"), dump(v));
        }
        if let Some(i) = same(v, &flat(w)) {
            return fail(format!("{what}: sample {i} is {} instead of {}", hexf(flat(w).get(i)), hexf(v.get(i))), dump(v));
        }
    }
    // the two ways of building, as stored
    let r = guard(|| (WavBrro::from_bytes(&fa[12..]), WavBrro::from_bytes(&fb[12..])));
    let (sa, sb) = r.or_else(|p| fail(format!("the stored archive is not readable: {p}"), dump(v)))?;
    if sa.sample_count != sb.sample_count || sa.bitdepth != sb.bitdepth || sa.chunks.len() != sb.chunks.len() || sa.chunks.iter().zip(&sb.chunks).any(|(x, y)| same(x, y).is_some()) {
        return fail(format!("{n} samples stored at once and one by one are different WBRO objects"), dump(v));
    }
    c.local.add("samples_compared", 4 * n as u64);
    if n > 0 {
        c.local.hit(hash_f64s(12, v));
    }
    c.local.max("chunks", n.div_ceil(CHUNK) as u64);
    for x in v {
        if x.is_nan() {
            c.local.add("nan_payloads", 1);
        }
    }
    Ok(())
}
fn c12_lengths(c: &mut Case) -> Res {
    // every short length, then those around chunk boundaries
    let n = if c.idx < 300 {
        c.idx as usize
    } else {
        let k = (c.idx - 300) as usize;
        (CHUNK * (1 + k / 9) + k % 9).saturating_sub(4)
    };
    let v = bits(&mut c.rng, n);
    c12_one(c, &v)?;
    c.count("lengths_enumerated");
    Ok(())
}
fn c12_long(c: &mut Case) -> Res {
    // counts of samples or of chunks that don't fit 8 or 16 bits
    let at = [1usize << 16, 1 << 17, 255 * CHUNK, 256 * CHUNK, 1 << 15, 1 << 20][c.idx as usize % 6];
    let n = match c.rng.below(4) {
        0 => at - 1,
        1 => at,
        2 => at + 1,
        _ => at + c.rng.below(3 * CHUNK),
    };
    let v = bits(&mut c.rng, n);
    c12_one(c, &v)?;
    c.local.max("longest", n as u64);
    c.local.sample(|| format!("{n} samples"));
    Ok(())
}
fn c12_random(c: &mut Case) -> Res {
    let n = match c.rng.below(20) {
        0..=12 => c.rng.below(400),
        13..=17 => c.rng.below(3 * CHUNK),
        18 => CHUNK * c.rng.below(6) + c.rng.below(3),
        _ => c.rng.below(if c.tier == Tier::Quick { 20000 } else { 200_000 }),
    };
    let v = if c.rng.chance(0.2) && n > 0 { series(&mut c.rng, n, Wild::Some).v } else { bits(&mut c.rng, n) };
    c12_one(c, &v)?;
    c.local.sample(|| format!("{n} samples: {}", v.iter().take(4).map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(" ")));
    Ok(())
}

// ---------------------------------------------------------------------------------------------- C13
/// Independent reader of the archive layout: 16 bytes at the end (relative pointer, chunks, samples, depth), each
/// chunk a relative pointer and a length. None when the bytes are no complete archive.
pub fn ref_archive(b: &[u8]) -> Option<Vec<f64>> {
    let le = |p: usize| -> Option<i64> { Some(i32::from_le_bytes(b.get(p..p + 4)?.try_into().ok()?) as i64) };
    let root = b.len().checked_sub(16)?;
    let (ptr, nch, count, depth) = (le(root)?, le(root + 4)? as u32 as u64, le(root + 8)? as u32 as u64, b[root + 12]);
    if depth != 5 {
        return None;
    }
    let mut out = vec![];
    let base = root as i64 + ptr;
    for i in 0..nch {
        let at = usize::try_from(base + 8 * i as i64).ok()?;
        let (p, n) = (le(at)?, le(at + 4)? as u32 as usize);
        let from = usize::try_from(at as i64 + p).ok()?;
        let s = b.get(from..from.checked_add(n.checked_mul(8)?)?)?;
        out.extend(s.chunks(8).map(|x| f64::from_le_bytes(x.try_into().unwrap())));
        if out.len() as u64 > count {
            return None;
        }
    }
    (out.len() as u64 == count).then_some(out)
}

fn file_of(v: &[f64]) -> Vec<u8> {
    let mut w = WavBrro::new();
    for x in v {
        w.add_sample(*x);
    }
    let mut f = b"WBRO0000WBRO".to_vec();
    f.extend_from_slice(&w.to_bytes());
    f
}

fn read_file(p: &std::path::Path) -> Result<Vec<f64>, String> {
    match guard(|| WavBrro::from_file(p)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("error: {e}")),
        Err(p) => Err(format!("panic: {p}")),
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().take(6000).map(|x| format!("{x:02x}")).collect()
}

fn c13_cut(c: &mut Case) -> Res {
    let n = match c.rng.below(8) {
        0 => 1,
        1..=5 => 1 + c.rng.below(12),
        6 => 10 + c.rng.below(80),
        _ => CHUNK - 2 + c.rng.below(5),
    };
    let mut v = bits(&mut c.rng, n);
    if c.rng.chance(0.4) {
        v = vec![[0.0, 1.0, -0.0, 5e-324][c.rng.below(4)]; n];
    }
    let f = file_of(&v);
    let dir = scratch(c);
    let p = dir.0.join("cut.wbro");
    std::fs::write(&p, &f).expect("HARNESS: scratch");
    match read_file(&p) {
        Ok(o) if same(&o, &v).is_none() => {}
        r => return fail(format!("the complete file of {n} samples is not read back: {:?}", r.map(|o| o.len())), dump(&v)),
    }
    let cuts: Vec<usize> = if f.len() < 400 { (0..f.len()).collect() } else { (0..60).map(|_| c.rng.below(f.len())).chain((f.len() - 40)..f.len()).chain(0..30).collect() };
    for k in cuts {
        std::fs::write(&p, &f[..k]).expect("HARNESS: scratch");
        match read_file(&p) {
            Err(e) => {
                c.local.count(if e.starts_with("error") { "cut_files_refused_with_error" } else { "cut_files_refused_with_panic" });
            }
            Ok(o) => {
                // what is left may happen to be a complete archive of its own
                let r = ref_archive(f.get(12..k).unwrap_or(&[]));
                if r.as_ref().map(|r| same(r, &o).is_none()) != Some(true) {
                    return fail(format!("a file of {n} samples cut to {k} of {} bytes is read as a valid series of {} samples", f.len(), o.len()), hex(&f[..k]));
                }
                c.count("cuts_that_are_complete_archives");
            }
        }
    }
    c.local.hit(hash_f64s(131, &v));
    c.local.sample(|| format!("{n} samples cut at every byte"));
    Ok(())
}

fn c13_marker(c: &mut Case) -> Res {
    let v = { let n = c.rng.below(5); bits(&mut c.rng, n) };
    let mut f = file_of(&v);
    let dir = scratch(c);
    let p = dir.0.join("m.wbro");
    let kind = c.rng.below(5);
    match kind {
        0 => {
            // one bit of a marker
            let i = [0, 1, 2, 3, 8, 9, 10, 11][c.rng.below(8)];
            f[i] ^= 1 << c.rng.below(8);
        }
        1 => {
            let i = [0usize, 8][c.rng.below(2)];
            let w = [*b"BRRO", *b"RIFF", *b"wbro", *b"WBR0", [0; 4]][c.rng.below(5)];
            f[i..i + 4].copy_from_slice(&w);
        }
        2 => f = b"BRRO\x01\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0".to_vec(),
        3 => {
            f = (0..12 + c.rng.below(60)).map(|_| c.rng.u64() as u8).collect();
            f[0] = b'X';
        }
        _ => f.truncate(c.rng.below(12)),
    }
    std::fs::write(&p, &f).expect("HARNESS: scratch");
    match guard(|| WavBrro::from_file(&p)) {
        Ok(Err(_)) => {}
        Ok(Ok(o)) => return fail(format!("a file without the WBRO markers ({:02x?}) is read as {} samples", &f[..f.len().min(12)], o.len()), hex(&f)),
        Err(m) => return fail(format!("reading a file without the WBRO markers ({:02x?}) panicked instead of returning an error: {m}", &f[..f.len().min(12)]), hex(&f)),
    }
    c.local.count(&format!("foreign_kind_{kind}"));
    c.local.hit(crate::rng::hash_bytes(132, &f));
    Ok(())
}

/// outcome of decoding bytes placed at a given offset, with an unreadable page right behind them
struct Guarded {
    map: *mut u8,
    len: usize,
}
impl Guarded {
    fn new(cap: usize) -> Self {
        unsafe {
            let len = cap.div_ceil(4096) * 4096;
            let p = libc::mmap(std::ptr::null_mut(), len + 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED, "HARNESS: mmap");
            libc::mprotect((p as *mut u8).add(len) as *mut _, 4096, libc::PROT_NONE);
            Guarded { map: p as *mut u8, len }
        }
    }
    /// the bytes so that they end `back` bytes before the unreadable page
    fn place(&self, b: &[u8], back: usize) -> &[u8] {
        unsafe {
            let at = self.map.add(self.len - back - b.len());
            std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
            std::slice::from_raw_parts(at, b.len())
        }
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.map as *mut _, self.len + 4096);
        }
    }
}

fn c13_damage(c: &mut Case) -> Res {
    let n = match c.rng.below(6) {
        0 => 0,
        1..=4 => 1 + c.rng.below(20),
        _ => CHUNK - 1 + c.rng.below(3),
    };
    let v = bits(&mut c.rng, n);
    let mut b = file_of(&v)[12..].to_vec();
    let kind = c.rng.below(8);
    match kind {
        0 => {}
        1 => {
            let i = c.rng.below(b.len());
            b[i] ^= 1 << c.rng.below(8);
        }
        2 | 3 => {
            // pointers and lengths live in the last bytes
            let span = (16 + 8 * n.div_ceil(CHUNK)).min(b.len());
            for _ in 0..1 + c.rng.below(3) {
                let i = b.len() - 1 - c.rng.below(span);
                b[i] = match c.rng.below(4) {
                    0 => 0,
                    1 => 0xff,
                    2 => 0x7f,
                    _ => c.rng.u64() as u8,
                };
            }
        }
        4 => {
            let w = c.rng.u64() as u32;
            let span = (16 + 8 * n.div_ceil(CHUNK)).min(b.len());
            let i = b.len() - span + 4 * c.rng.below(span / 4);
            let d = [w, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 1 << 29, b.len() as u32, (b.len() as u32).wrapping_neg(), 0, 8, 0xffff_fff0][c.rng.below(10)];
            b[i..i + 4].copy_from_slice(&d.to_le_bytes());
        }
        5 => b.truncate(c.rng.below(b.len() + 1)),
        6 => {
            let k = 1 + c.rng.below(40);
            b.extend((0..k).map(|_| c.rng.u64() as u8));
        }
        _ => b = (0..c.rng.below(120)).map(|_| if c.rng.chance(0.6) { 0 } else { c.rng.u64() as u8 }).collect(),
    }
    let g = Guarded::new(b.len() + 64);
    let mut first: Option<Result<Vec<f64>, ()>> = None;
    let offs: Vec<usize> = if n < 100 { (0..16).collect() } else { vec![0, 1, 2, 4, 7, 8, 9] };
    for back in offs {
        let r = guard(|| WavBrro::from_bytes(g.place(&b, back)).get_samples()).map_err(|_| ());
        match &first {
            None => first = Some(r),
            Some(f) => {
                let eq = match (f, &r) {
                    (Ok(a), Ok(b)) => same(a, b).is_none(),
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                if !eq {
                    let s = |r: &Result<Vec<f64>, ()>| match r {
                        Ok(v) => format!("{} samples", v.len()),
                        Err(_) => "refused".into(),
                    };
                    return fail(format!("the same {} bytes (damage kind {kind}, {n} samples) give '{}' at one address and '{}' {back} bytes away", b.len(), s(f), s(&r)), hex(&b));
                }
            }
        }
        c.count("placements");
    }
    if kind == 0 && !matches!(&first, Some(Ok(o)) if same(o, &v).is_none()) {
        return fail(format!("undamaged bytes of {n} samples are not read back"), hex(&b));
    }
    c.local.count(match &first {
        Some(Ok(_)) => "accepted",
        _ => "refused",
    });
    c.local.count(&format!("damage_kind_{kind}"));
    c.local.hit(crate::rng::hash_bytes(133, &b));
    // through the file as well
    if c.rng.chance(0.1) {
        let dir = scratch(c);
        let p = dir.0.join("d.wbro");
        let mut f = b"WBRO0000WBRO".to_vec();
        f.extend_from_slice(&b);
        std::fs::write(&p, &f).expect("HARNESS: scratch");
        let _ = read_file(&p);
        c.count("damaged_files_read");
    }
    Ok(())
}

pub fn phases(id: &str) -> Option<(Vec<Phase>, Meta)> {
    let p = |name, quick, thorough, f| Phase { name, quick, thorough, threads: 0, f };
    Some(match id {
        "C12" => (
            vec![p("lengths", 390, 600, c12_lengths as fn(&mut Case) -> Res), p("random", 90000, 1350000, c12_random), p("long", 24, 480, c12_long)],
            Meta { level: "exploration", rule: "every length below 300 and around chunk limits, random lengths; bit patterns of all classes; non-trivial: at least one sample; distinct by bit patterns", assumptions: &["fewer than 2^32 samples"] },
        ),
        "C13" => (
            vec![p("cut", 4800, 72000, c13_cut as fn(&mut Case) -> Res), p("marker", 20000, 300000, c13_marker), p("damage", 96000, 1440000, c13_damage)],
            Meta {
                level: "exploration",
                rule: "complete archives cut at every byte, markers altered, archives damaged and decoded at 16 addresses in front of an unreadable page; distinct by bytes",
                assumptions: &["a cut file whose remaining bytes are themselves a complete archive is one"],
            },
        ),
        _ => return None,
    })
}
