//! Panning (C22), decibels (C26), clippers (C27), interpolation (C29), time (C30).
use crate::core::*;
use embedded_audio_tools::convert::Decibels;
use embedded_audio_tools::dynamics::*;
use embedded_audio_tools::errors::{InterpolationError, PanningError};
use embedded_audio_tools::float::{lerp, lerp_unchecked, DSPUtility};
use embedded_audio_tools::stereo::*;

pub struct Level {
    sus: bool,
}
impl Level {
    pub fn new() -> Level {
        Level { sus: false }
    }
}
fn bits(t: &str) -> f32 {
    f32::from_bits(int(t) as i32 as u32)
}
fn b(x: f32) -> i64 {
    x.to_bits() as i32 as i64
}
fn cat(e: core::num::FpCategory) -> &'static str {
    match e {
        core::num::FpCategory::Nan => "Nan",
        core::num::FpCategory::Infinite => "Infinite",
        core::num::FpCategory::Zero => "Zero",
        core::num::FpCategory::Subnormal => "Subnormal",
        core::num::FpCategory::Normal => "Normal",
    }
}
fn pan_err(e: PanningError) -> &'static str {
    match e {
        PanningError::TooLeft => "TooLeft",
        PanningError::TooRight => "TooRight",
    }
}
fn pairs(ev: &mut Ev, k: &str, v: (f32, f32), sc: i32) {
    let (a, b) = (enc(v.0, sc), enc(v.1, sc));
    ev.s.push_str(&format!(",\"{}\":[[{},{}],[{},{}]]", k, a.0, a.1, b.0, b.1));
}
fn split(x: f32) -> [i64; 3] {
    if x == 0.0 || !x.is_finite() {
        return [1, 0, 0];
    }
    let w = x.to_bits();
    let (mut m, mut e) = ((w & 0x7f_ffff) as i64, ((w >> 23) & 255) as i64);
    if e == 0 {
        e = 1;
    } else {
        m |= 0x80_0000;
    }
    while m < 0x80_0000 {
        m *= 2;
        e -= 1;
    }
    [if x < 0.0 { -1 } else { 1 }, m, e - 150]
}
impl Dom for Level {
    fn suspect(&self) -> bool {
        self.sus
    }
    fn exec(&mut self, op: &str, a: &[&str], ev: &mut Ev) {
        match op {
            // amount bits, samples n/2^15 scaled by 2^sc
            "mp" | "sp" | "xf" => {
                let am = bits(a[0]);
                let sc = int(a[3]) as i32;
                let s = |t: &str| (int(t) as f64 * 2f64.powi(sc - 15)) as f32;
                let (x, y) = (s(a[1]), s(a[2]));
                let k = 15 - sc;
                let ad = am as f64;
                match op {
                    "mp" => {
                        ev.val("a", am, 24).int("s", int(a[1]));
                        match mono_pan(am, x) {
                            Ok(v) => {
                                ev.ok().str("e", "");
                                pairs(ev, "v", v, k);
                                let u = mono_pan_unchecked(am, x);
                                pairs(ev, "u", u, k);
                                let t = x.abs() as f64 * 3e-7;
                                self.sus |= ad.abs() > 1.0
                                    || (u.0 as f64 - x as f64 * (1.0 - ad) / 2.0).abs() > t
                                    || (u.1 as f64 - x as f64 * (1.0 + ad) / 2.0).abs() > t
                                    || u != v;
                            }
                            Err(e) => {
                                ev.err(pan_err(e)).int("v", 0).int("u", 0);
                                self.sus |= ad.abs() <= 1.0;
                            }
                        }
                    }
                    "sp" => {
                        ev.val("a", am, 24).ints("s", &[int(a[1]), int(a[2])]);
                        match stereo_pan(am, (x, y)) {
                            Ok(v) => {
                                ev.ok().str("e", "");
                                pairs(ev, "v", v, k);
                                let u = stereo_pan_unchecked(am, (x, y));
                                pairs(ev, "u", u, k);
                                let l = x as f64 * ((1.0 - ad) / 2.0).sqrt();
                                let r = y as f64 * ((1.0 + ad) / 2.0).sqrt();
                                self.sus |= ad.abs() > 1.0
                                    || (u.0 as f64 - l).abs() > 0.07 * l.abs() + 1e-4 * x.abs() as f64
                                    || (u.1 as f64 - r).abs() > 0.07 * r.abs() + 1e-4 * y.abs() as f64
                                    || u != v;
                            }
                            Err(e) => {
                                ev.err(pan_err(e)).int("v", 0).int("u", 0);
                                self.sus |= ad.abs() <= 1.0;
                            }
                        }
                    }
                    _ => {
                        let v = crossfade_correlated_unchecked(am, (x, y));
                        ev.ok().val("a", am, 24).ints("s", &[int(a[1]), int(a[2])]).val("v", v, k);
                        let w = x as f64 * (1.0 - ad) / 2.0 + y as f64 * (1.0 + ad) / 2.0;
                        self.sus |= (v as f64 - w).abs() > 4e-7 * (x.abs() + y.abs()) as f64;
                    }
                }
            }
            // which function, amount, two samples: infinities and NaN
            "pc" => {
                let am = bits(a[1]);
                let (x, y) = (bits(a[2]), bits(a[3]));
                ev.str("f", a[0]).val("a", am, 24).val("s1", x, 0).val("s2", y, 0);
                let r = match a[0] {
                    "m" => mono_pan(am, x),
                    "s" => stereo_pan(am, (x, y)),
                    _ => Ok((crossfade_correlated_unchecked(am, (x, y)), 0.0)),
                };
                match r {
                    Ok(v) => {
                        let u = match a[0] {
                            "m" => mono_pan_unchecked(am, x),
                            "s" => stereo_pan_unchecked(am, (x, y)),
                            _ => v,
                        };
                        ev.ok().str("e", "");
                        pairs(ev, "v", v, 0);
                        pairs(ev, "u", u, 0);
                    }
                    Err(e) => {
                        ev.err(pan_err(e)).int("v", 0).int("u", 0);
                    }
                }
            }
            "db" => {
                let x = bits(a[0]);
                let mut put = |p: &str, r: Result<f32, core::num::FpCategory>| {
                    let (k, e, v) = match r {
                        Ok(v) => ("ok", "", v),
                        Err(e) => ("err", cat(e), 0.0),
                    };
                    ev.str(&format!("{}k", p), k).str(&format!("{}e", p), e).val(&format!("{}v", p), v, 16);
                    if x.is_normal() && x > 0.0 && !((v as f64 - 20.0 * (x as f64).log10()).abs() <= 0.02) {
                        self.sus = true;
                    }
                    self.sus |= (x < 0.0 || x.is_nan()) && (k, e) != ("err", "Nan");
                };
                put("p", x.to_decibels());
                put("s", x.to_decibels_checked());
                let u = if x.is_normal() && x > 0.0 { x.to_decibels_unchecked() } else { 0.0 };
                ev.ok().word("w", x.to_bits()).val("u", u, 16);
            }
            "rt" => {
                let x = bits(a[0]);
                let v = x.to_decibels_unchecked().to_volt_ratio();
                self.sus |= !((v / x - 1.0).abs() <= 0.0099);
                ev.ok().word("w", x.to_bits()).word("v", v.to_bits());
            }
            "vr" => {
                let d = bits(a[0]);
                let v = d.to_volt_ratio();
                if d.abs() <= 700.0 {
                    self.sus |= !((v as f64 / 10f64.powf(d as f64 / 20.0) - 1.0).abs() <= 0.01);
                }
                ev.ok().val("d", d, 16).word("v", v.to_bits());
            }
            "cd" | "ctanh" | "cpoly" | "csig" => {
                // k/2^23, or a bit pattern
                let x = if a[0] == "w" { bits(a[1]) } else { (int(a[0]) as f64 / 8388608.0) as f32 };
                let p = |i: usize| if a.len() > i { bits(a[i]) } else { 1.0 };
                let i = if a[0] == "w" { 2 } else { 1 };
                let v = match op {
                    "cd" => digital_clip(x),
                    "ctanh" => tanh_clip(x),
                    "cpoly" => poly_clip(x, p(i)),
                    _ => sigmoid_clip(x, p(i)),
                };
                self.sus |= !(v.abs() <= 1.0) || (x.abs() > 1.0 && v != x.signum()) || (op == "cd" && x.abs() <= 1.0 && v != x);
                ev.ok().word("w", x.to_bits()).word("v", v.to_bits());
            }
            // words of a, b, t; exponent of the ends
            "lp" => {
                let (x, y, t) = (bits(a[0]), bits(a[1]), bits(a[2]));
                // scale: the larger end just fills the grid
                let m = if x.is_nan() || (x.abs() < y.abs() && y.is_finite()) || x.is_infinite() { y } else { x };
                let sc = ((m.to_bits() >> 23 & 255) as i32 - 127 - 8).clamp(-124, 119);
                match lerp(x, y, t) {
                    Ok(v) => {
                        ev.ok().str("e", "").word("v", v.to_bits()).val("vn", v, 20 - sc);
                        ev.word("u", lerp_unchecked(x, y, t).to_bits());
                        let r = x as f64 * (1.0 - t as f64) + y as f64 * t as f64;
                        let m = x.abs().max(y.abs()) as f64;
                        self.sus |= !(t >= 0.0 && t <= 1.0) || !x.is_finite() || !y.is_finite() || !((v as f64 - r).abs() <= m * 4e-7 + 1e-44);
                    }
                    Err(e) => {
                        ev.err(match e {
                            InterpolationError::InputNaN => "InputNaN",
                            InterpolationError::InputInfinite => "InputInfinite",
                            InterpolationError::InterpolationRange => "InterpolationRange",
                        });
                        ev.ints("v", &[0, 0]).ints("u", &[0, 0]).ints("vn", &[0, 2]);
                    }
                }
                ev.word("a", x.to_bits()).word("b", y.to_bits()).word("t", t.to_bits());
                ev.val("an", x, 8 - sc).val("bn", y, 8 - sc).val("tn", t, 12);
            }
            "tm" => {
                let (x, sr) = (bits(a[0]), bits(a[1]));
                let (sec, ms) = (x.samples_to_seconds(sr), x.samples_to_millis(sr));
                let (smp, msmp) = (x.seconds_to_samples(sr), x.millis_to_samples(sr));
                let back = [sec.seconds_to_samples(sr), ms.millis_to_samples(sr), smp.samples_to_seconds(sr), msmp.samples_to_millis(sr)];
                ev.ok();
                for (k, v) in [("x", x), ("sr", sr), ("sec", sec), ("ms", ms), ("smp", smp), ("msmp", msmp)] {
                    ev.ints(k, &split(v));
                }
                for i in 0..4 {
                    ev.ints(&format!("b{}", i + 1), &split(back[i]));
                }
                let (xd, sd) = (x as f64, sr as f64);
                let off = |v: f32, w: f64| (v as f64 - w).abs() > w.abs() * 1e-6;
                self.sus |= off(sec, xd / sd) || off(ms, xd / sd * 1e3) || off(smp, xd * sd) || off(msmp, xd * sd / 1e3);
                self.sus |= back.iter().any(|v| off(*v, xd));
            }
            _ => panic!("HARNESS unknown op {}", op),
        }
    }
}
fn amount(r: &mut Rng) -> f32 {
    let u = 8388608.0f64;
    let n = match r.below(8) {
        0 => r.pick(&[-8388608, 8388608, 0, 4194304, -4194304]),
        1 => 8388608 - r.range(0, 5),
        2 => -8388608 + r.range(0, 5),
        3 => r.pick(&[8388609, -8388609, 8388610, -8388610, 16777216, -16777216, 9000000]),
        4 => r.pick(&[1i64, -1, 2, -2, 100, -100]),
        _ => r.range(-8388608, 8388608),
    };
    if r.chance(1, 30) {
        return r.pick(&[f32::INFINITY, f32::NEG_INFINITY, 1e30, -1e30, 2.0, -2.0, f32::MAX, f32::MIN]);
    }
    (n as f64 / u) as f32
}
fn smp(r: &mut Rng) -> i64 {
    match r.below(5) {
        0 => r.pick(&[0, 32768, -32768, 1, -1]),
        1 => r.range(-4194304, 4194304),
        _ => r.range(-32768, 32768),
    }
}
fn histories(run: &mut Run, total: u64, kept: u64, len: u64, f: fn(&mut Rng) -> String) {
    let m = if run.thorough { 12 } else { 1 };
    for i in 0..total * m {
        let mut h = run.begin(Box::new(Level::new()));
        for _ in 0..len {
            let l = f(&mut h.run.rng);
            h.op(&l);
        }
        h.end(i < kept * if m > 1 { 6 } else { 1 });
    }
}
pub fn c22(run: &mut Run) {
    histories(run, 20000, 2000, 25, |r| {
        let op = r.pick(&["mp", "sp", "xf"]);
        let a = loop {
            let a = amount(r);
            if op != "xf" || a.abs() <= 1.0 {
                break a;
            }
        };
        // up to a factor of two below the largest float
        let sc = if r.chance(1, 4) { if r.chance(1, 2) { r.range(-100, 100) } else { r.range(100, 119) } } else { 0 };
        if r.chance(1, 10) {
            let f = r.pick(&["m", "s", "x"]);
            let w = [f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 0.0, -0.0, 1.0, -3.5, 1e30, 1e-30];
            let (x, y) = (r.pick(&w), r.pick(&w));
            let a = if f == "x" { a.clamp(-1.0, 1.0) } else { a };
            return format!("pc {} {} {} {}", f, b(a), b(x), b(y));
        }
        format!("{} {} {} {} {}", op, b(a), smp(r), smp(r), sc)
    });
}
fn ratio(r: &mut Rng) -> f32 {
    match r.below(8) {
        0 => f32::from_bits(rnd_bits(r) as u32),
        1 => r.pick(&[0.0, -0.0, 1.0, 2.0, 0.5, 10.0, 0.1, f32::MIN_POSITIVE, f32::MAX, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -1.0, 1e-45, -1e-45, -1e-38, 0.99999994, 1.0000001]),
        2 => f32::from_bits((r.range(1, 254) as u32) << 23 | r.pick(&[0, 1, 0x7f_ffff, 0x40_0000])),
        3 => (r.f01() * 4.0) as f32,
        4 => -(r.f01() * 4.0) as f32,
        _ => ((r.f01() * 250.0 - 125.0).exp2()) as f32,
    }
}
pub fn c26(run: &mut Run) {
    histories(run, 20000, 2500, 20, |r| match r.below(6) {
        0..=2 => format!("db {}", b(ratio(r))),
        3 => loop {
            let x = ratio(r);
            // outside, the intermediate of micromath's exponential overflows
            if x.is_normal() && x > 1e-37 && x < 1e37 {
                break format!("rt {}", b(x));
            }
        },
        _ => {
            let d = match r.below(6) {
                0 => r.pick(&[0.0, -0.0, f32::NEG_INFINITY, 6.0206, -6.0206, 20.0, -20.0, 700.0, -700.0]),
                1 => r.range(-140, 140) as f32 * 5.0,
                2 => r.range(-116, 116) as f32 * 6.0206,
                3 => ((r.f01() * 2.0 - 1.0) * 20.0) as f32,
                4 => ((r.f01() * 2.0 - 1.0) * 1e-3) as f32,
                _ => ((r.f01() * 2.0 - 1.0) * 700.0) as f32,
            };
            format!("vr {}", b(d.clamp(f32::NEG_INFINITY, 700.0)))
        }
    });
}
fn clipped(r: &mut Rng, shaped: bool) -> String {
    let out = |r: &mut Rng| {
        let x = match r.below(5) {
            0 => r.pick(&[1.0000001f32, -1.0000001, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, 2.0, -2.0]),
            1 => 1.0 + (r.f01() as f32) + 1e-6,
            2 => -1.0 - (r.f01() as f32) - 1e-6,
            _ => loop {
                let x = f32::from_bits(r.next() as u32);
                if x.abs() > 1.0 {
                    break x;
                }
            },
        };
        format!("w {}", b(x))
    };
    let shape = match r.below(4) {
        0 => r.pick(&[0.0, -0.0, 1.0, -1.0, f32::NAN, f32::INFINITY, 2.0, 3.0, 0.5, f32::MAX]),
        1 => f32::from_bits(r.next() as u32),
        _ => (r.f01() * 20.0 - 10.0) as f32,
    };
    if shaped {
        let op = r.pick(&["ctanh", "cpoly", "csig"]);
        return format!("{} {} {}", op, out(r), b(shape));
    }
    match r.below(3) {
        0 => format!("cd {}", out(r)),
        1 => {
            let x = loop {
                let x = f32::from_bits(rnd_bits(r) as u32);
                if !x.is_nan() {
                    break x;
                }
            };
            format!("cd w {}", b(x))
        }
        _ => format!("cd {}", match r.below(3) {
            0 => r.pick(&[8388608, -8388608, 0, 8388609, -8388609, 8388607, -8388607, 1, -1]),
            _ => r.range(-9000000, 9000000),
        }),
    }
}
pub fn c27(run: &mut Run) {
    histories(run, 20000, 2000, 25, |r| {
        let s = r.chance(1, 2);
        clipped(r, s)
    });
    // inside [-1, 1] the shaped clippers are not implemented: one call per
    // history, these are listed findings as long as they panic
    for op in ["ctanh", "cpoly", "csig"] {
        for k in [0, 1, -1, 8388608, -8388608, 4194304, -4194304, 12345, 8388607] {
            for p in [1.0f32, 2.0, 0.0, -3.5] {
                let mut h = run.begin(Box::new(Level::new()));
                h.op(&format!("{} {} {}", op, k, b(p)));
                h.end(true);
            }
        }
        for _ in 0..40 {
            let k = run.rng.range(-8388608, 8388608);
            let p = (run.rng.f01() * 20.0 - 10.0) as f32;
            let mut h = run.begin(Box::new(Level::new()));
            h.op(&format!("{} {} {}", op, k, b(p)));
            h.end(true);
        }
    }
}
pub fn c29(run: &mut Run) {
    histories(run, 20000, 2500, 25, |r| {
        let mode = r.below(4);
        let sc = if mode == 1 { r.range(-120, 100) } else { 0 };
        let end = |r: &mut Rng| match mode {
            0 => f32::from_bits(rnd_bits(r) as u32),
            3 if r.chance(1, 4) => r.pick(&[f32::MAX, f32::MIN, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, f32::from_bits(1), f32::from_bits(0x8000_0001), f32::from_bits(0x7f7f_fffe), 1.0, -0.0]),
            _ => ((if r.chance(1, 5) { r.pick(&[0, 1, -1, 256, -256, 131072, -131072]) } else { r.range(-131072, 131072) }) as f64 * 2f64.powi(sc as i32 - 8)) as f32,
        };
        let t = match r.below(8) {
            0 => r.pick(&[0.0, -0.0, 1.0, 1.0000001, -1e-45, -1e-30, f32::INFINITY, f32::NEG_INFINITY, 2.0, -1.0, 0.5, 1e30]),
            1 => r.pick(&[1e-45f32, 1e-38, 0.99999994, 0.3333, 1e-7]),
            2 => r.range(-5000, 9000) as f32 / 4096.0,
            _ => r.range(0, 4096) as f32 / 4096.0,
        };
        let special = |r: &mut Rng, x: f32| if r.chance(1, 12) { r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -f32::NAN, f32::from_bits(0x7f80_0001)]) } else { x };
        let (x, y) = (end(r), end(r));
        let (x, y) = (special(r, x), special(r, y));
        format!("lp {} {} {} {}", b(x), b(y), b(t), sc)
    });
}
pub fn c30(run: &mut Run) {
    histories(run, 20000, 2500, 20, |r| {
        let x = match r.below(6) {
            0 => r.range(-100000, 100000) as f32,
            1 => r.range(-4000, 4000) as f32 / 1000.0,
            2 => f32::from_bits(((127 + r.range(-50, 50)) as u32) << 23 | (r.next() as u32 & 0x807f_ffff)),
            3 => r.pick(&[0.0, 1.0, -1.0, 48000.0, 1000.0, 0.001]),
            _ => (r.f01() * 1e6) as f32,
        };
        let sr = match r.below(4) {
            0 => r.pick(&[44100.0, 48000.0, 96000.0, 8000.0, 192000.0, 1.0, 11025.0]),
            1 => (r.f01() * 200000.0 + 1.0) as f32,
            2 => f32::from_bits(((127 + r.range(-20, 40)) as u32) << 23 | (r.next() as u32 & 0x7f_ffff)),
            _ => r.range(1, 400000) as f32,
        };
        format!("tm {} {}", b(x), b(sr))
    });
}
