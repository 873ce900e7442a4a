//! Relations between several runs on related inputs: C44 (looser targets cost no more).
use crate::ctx::*;
use crate::gen::*;
use crate::oracle::*;
use crate::p_series::*;
use crate::refdec;
use crate::rng::*;
use atsc::compressor::Compressor;

/// How many points or frequencies a frame holds, and whether that is all it could
fn stored(b: &[u8]) -> Result<(usize, usize), String> {
    let s = refdec::parse(b)?;
    let f = match &s.frames[..] {
        [f] => f,
        f => return Err(format!("{} frames", f.len())),
    };
    let mut r = refdec::Rd::new(&f.data);
    match f.tag {
        refdec::FFT => {
            r.u8()?;
            Ok((r.len(9)?, f.data.len()))
        }
        refdec::POLYNOMIAL | refdec::IDW => {
            r.uint()?;
            r.uint()?;
            Ok((r.len(1)?, f.data.len()))
        }
        t => Err(format!("compressor {t}")),
    }
}
fn c44_case(c: &mut Case) -> Res {
    let comp = [Compressor::FFT, Compressor::Polynomial, Compressor::Polynomial, Compressor::FFT, Compressor::Idw][(c.idx % 5) as usize];
    let r = &mut c.rng;
    let n = match r.below(30) {
        0 => pick_len(r, Size::Medium),
        1..=6 => 700 + r.below(3500),
        _ => 1 + r.below(700),
    };
    let n = if comp == Compressor::Idw { n.min(1 + r.below(400)) } else { n };
    let noise = r.chance(0.15);
    let mut v = if noise { (0..n).map(|_| 100.0 + 10.0 * r.gauss()).collect() } else { series(r, n, Wild::No).v };
    if r.chance(0.35) {
        // something that few points or frequencies describe, plus a little noise
        let (p, q, a, z) = (r.f() * 6.0, 0.3 + r.f() * r.below(9) as f64, 1.0 + 50.0 * r.f(), if r.chance(0.4) { 0.0 } else { r.f() * 4.0 });
        v = (0..n).map(|i| 100.0 + a * (p + q * 6.3 * i as f64 / n as f64).sin() + z * r.gauss()).collect();
        if r.chance(0.3) {
            v.iter_mut().for_each(|x| *x = x.round());
        }
    }
    v.iter_mut().filter(|x| x.abs() >= 1e29).for_each(|x| *x = 1e29f64.copysign(*x));
    let n = v.len();
    let name = cname(comp);
    let one = |e: Option<f32>| -> Result<(usize, usize, f64), Fail> {
        let (o, b) = trip(&v, comp, e, 0)?;
        let (k, bytes) = stored(&b).or_else(|m| fail(format!("{name} e={e:?} n={n}: {m}"), dump(&v)))?;
        Ok((k, bytes, mape(&v, &o)))
    };
    let plain = one(None)?;
    let mut es: Vec<f32> = vec![0.0, efrac(pick_err(r)), *r.pick(&[0.001f32, 0.005, 0.03, 0.1, 0.5]), (r.f() * 0.5) as f32];
    // right at, and close to, what the plain frame gives
    if plain.2 < 0.5 {
        es.push((plain.2 * 1.000001) as f32);
        es.push((plain.2 * (0.2 + 0.8 * r.f())) as f32);
        es.push((plain.2 * (1.0 + r.f())) as f32);
    }
    es.retain(|e| *e >= 0.0 && *e <= 0.5);
    es.sort_by(|a, b| a.total_cmp(b));
    let mut before: Option<(f32, usize)> = None;
    let mut most = 0;
    for e in &es {
        let (k, bytes, err) = one(Some(*e))?;
        let what = format!("{name} e={e} n={n}");
        if let Some((e0, k0)) = before {
            if k > k0 {
                return fail(format!("{what}: holds {k} where {k0} do for the stricter target {e0}"), dump(&v));
            }
            if k < k0 {
                c.local.count("looser_and_smaller");
            }
        } else {
            most = k;
        }
        before = Some((*e, k));
        if plain.2 < *e as f64 * (1.0 - 1e-9) || (plain.2 == 0.0 && *e > 0.0) {
            if bytes > plain.1 {
                return fail(format!("{what}: {bytes} bytes, where the plain frame has {} and an error of {:e}", plain.1, plain.2), dump(&v));
            }
            c.local.count(&format!("{name}_plain_frame_suffices"));
        }
        if comp == Compressor::FFT {
            // it goes in rounds and compares thousandths, up to a tenth of the samples
            let met = err < ((*e as f64 * 1000.0).floor() + 1.0) / 1000.0 + 1e-9;
            if !met && k < most {
                return fail(format!("{what}: gives up at an error of {err:e} with {k} frequencies, though it has {most} for target 0"), dump(&v));
            }
            if !met && noise && n >= 8 && k < (n / 20).min(25) {
                return fail(format!("{what}: gives up at an error of {err:e} with {k} frequencies"), dump(&v));
            }
            if k > n / 10 + 30 {
                return fail(format!("{what}: holds {k} frequencies"), dump(&v));
            }
            c.local.count(if met { "fft_met" } else { "fft_gave_up" });
        }
        c.local.count(&format!("{name}_frames"));
    }
    if n > 2 && most > 0 {
        c.local.hit(hash_f64s(c.idx % 5, &v));
    }
    c.local.sample(|| format!("{name} n={n} plain {plain:?} targets {es:?}"));
    Ok(())
}

pub fn phases(id: &str) -> Option<(Vec<Phase>, Meta)> {
    let p = |name, quick, thorough, f| Phase { name, quick, thorough, threads: 0, f };
    let m = |level, rule| Meta { level, rule, assumptions: &[] };
    Some(match id {
        "C44" => (
            vec![p("targets", 60000, 900000, c44_case as fn(&mut Case) -> Res)],
            m("exploration", "a series through one lossy compressor without a target and with four to seven targets; the stored points or frequencies are counted by an independent parser; distinct by numbers, more than two samples, not constant"),
        ),
        _ => return None,
    })
}
