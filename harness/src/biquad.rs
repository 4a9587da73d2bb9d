//! Biquad recursion (C11) and Butterworth designs (C12, C13).
use crate::core::*;
use embedded_audio_tools::filter::{Biquad, BiquadCoeffs, Butterworth};

pub struct Bq {
    f: Vec<Biquad<Butterworth>>,
    des: BiquadCoeffs<Butterworth>,
    e: i32,
    // reference for selection only: coefficients, z1, z2
    r: [([f64; 5], f64, f64); 2],
    small: bool,
    sus: bool,
}
impl Bq {
    pub fn new() -> Bq {
        Bq {
            f: (0..2).map(|_| Biquad::new(BiquadCoeffs::new())).collect(),
            des: BiquadCoeffs::new(),
            e: 0,
            r: [([0.0; 5], 0.0, 0.0); 2],
            small: true,
            sus: false,
        }
    }
}
fn fbits(t: &str) -> f32 {
    f32::from_bits(int(t) as i32 as u32)
}
fn design(c: &mut BiquadCoeffs<Butterworth>, t: &str, fc: f32, q: f32, g: f32, sr: f32) {
    match t {
        "lowpass" => c.lowpass(fc, q, sr),
        "highpass" => c.highpass(fc, q, sr),
        "allpass" => c.allpass(fc, q, sr),
        "notch" => c.notch(fc, q, sr),
        "bell" => c.bell(fc, q, g, sr),
        "shelf" => c.low_shelf(fc, q, g, sr),
        // the one-sided forms that the two above choose from
        "bell1" if g >= 0.0 => c.bell_boost_only(fc, q, g, sr),
        "bell1" => c.bell_cut_only(fc, q, g, sr),
        "shelf1" if g >= 0.0 => c.low_shelf_boost_only(fc, q, g, sr),
        "shelf1" => c.low_shelf_cut_only(fc, q, g, sr),
        _ => panic!("HARNESS type {}", t),
    }
}
/// time constant in samples of the ideal design's slowest pole
fn tau(t: &str, fc: f32, q: f32, g: f32, sr: f32) -> f64 {
    let k = (std::f64::consts::PI * fc as f64 / sr as f64).tan();
    let ag = g.abs() as f64;
    // s^2 + d1 s + d0
    let (d1, d0) = if g < 0.0 && t.starts_with("bell") {
        (ag * k / q as f64, k * k)
    } else if g < 0.0 && t.starts_with("shelf") {
        ((2.0 * ag).sqrt() * k, ag * k * k)
    } else {
        (k / q as f64, k * k)
    };
    let disc = d1 * d1 - 4.0 * d0;
    let r = if disc < 0.0 {
        let (re, im) = (-d1 / 2.0, (-disc).sqrt() / 2.0);
        (((1.0 + re).powi(2) + im * im) / ((1.0 - re).powi(2) + im * im)).sqrt()
    } else {
        let s1 = (-d1 + disc.sqrt()) / 2.0;
        let s2 = (-d1 - disc.sqrt()) / 2.0;
        let z = |s: f64| ((1.0 + s) / (1.0 - s)).abs();
        z(s1).max(z(s2))
    };
    (-1.0 / r.max(1e-6).ln()).max(1.0)
}

impl Dom for Bq {
    fn suspect(&self) -> bool {
        self.sus
    }
    fn in_range(&self) -> bool {
        self.small
    }
    fn exec(&mut self, op: &str, a: &[&str], ev: &mut Ev) {
        match op {
            "sc" => {
                self.e = int(a[0]) as i32;
                ev.ok();
            }
            "nf" => {
                let f = us(a[0]);
                self.f[f] = Biquad::new(BiquadCoeffs::new());
                self.r[f] = ([0.0; 5], 0.0, 0.0);
                ev.ok().int("f", f as i64);
            }
            "set" => {
                let f = us(a[0]);
                let k: Vec<i64> = a[1..6].iter().map(|t| int(t)).collect();
                let c = &mut self.f[f].coeffs;
                c.b0 = k[0] as f32 / 64.0;
                c.b1 = k[1] as f32 / 64.0;
                c.b2 = k[2] as f32 / 64.0;
                c.a1 = k[3] as f32 / 64.0;
                c.a2 = k[4] as f32 / 64.0;
                for i in 0..5 {
                    self.r[f].0[i] = k[i] as f64 / 64.0;
                }
                ev.ok().int("f", f as i64).ints("c", &k);
            }
            "x" => {
                let f = us(a[0]);
                let n = int(a[1]);
                let x = (n as f64 * 2f64.powi(self.e - 16)) as f32;
                let v = self.f[f].process(x);
                let (c, z1, z2) = self.r[f];
                let xx = n as f64 / 65536.0;
                let y = c[0] * xx + z1;
                self.r[f].1 = c[1] * xx + z2 - c[3] * y;
                self.r[f].2 = c[2] * xx - c[4] * y;
                if self.r[f].1.abs() > 200.0 || self.r[f].2.abs() > 200.0 {
                    self.small = false;
                }
                if self.small && (v as f64 * 2f64.powi(-self.e) - y).abs() > 5e-4 {
                    self.sus = true;
                }
                ev.ok().int("f", f as i64).int("x", n).val("v", v, 16 - self.e);
            }
            "xn" => {
                // the same sample n times
                let f = us(a[0]);
                let (k, n) = (int(a[1]), us(a[2]));
                let x = (k as f64 * 2f64.powi(self.e - 16)) as f32;
                let mut last = [0f32; 4];
                let mut first = vec![];
                let mut df = 0i64;
                for j in 0..n {
                    if j % 1_000_000 == 0 {
                        arm(30);
                    }
                    let v = self.f[f].process(x);
                    if j < 4 {
                        first.push(v);
                    } else if !(last[j % 4] == v) {
                        df += 1;
                    }
                    last[j % 4] = v;
                }
                self.sus |= df != 0;
                let xx = k as f64 / 65536.0;
                for _ in 0..n % 4 {
                    let (c, z1, z2) = self.r[f];
                    let y = c[0] * xx + z1;
                    self.r[f].1 = c[1] * xx + z2 - c[3] * y;
                    self.r[f].2 = c[2] * xx - c[4] * y;
                }
                let s: Vec<String> = first
                    .iter()
                    .map(|v| {
                        let (n, c) = enc64(*v as f64 * 2f64.powi(-self.e), 16);
                        format!("[{},{}]", n, c)
                    })
                    .collect();
                ev.ok().int("f", f as i64).int("x", k).int("n", n as i64).int("df", df);
                ev.s.push_str(&format!(",\"v\":[{}]", s.join(",")));
            }
            "des" | "stab" => {
                // type fc q g sr (f32 bits) reuse
                let t = a[0];
                let (fc, q, g, sr) = (fbits(a[1]), fbits(a[2]), fbits(a[3]), fbits(a[4]));
                let mut fresh = BiquadCoeffs::new();
                if a[5] == "2" {
                    // whatever the public fields hold
                    let x = if t.len() % 2 == 0 { f32::NAN } else { 0.0 };
                    let c = &mut self.des;
                    (c.b0, c.b1, c.b2, c.a1, c.a2) = (x, x, x, x, x);
                }
                let c = if a[5] != "0" { &mut self.des } else { &mut fresh };
                design(c, t, fc, q, g, sr);
                let v = [c.b0, c.b1, c.b2, c.a1, c.a2];
                let u = fc as f64 / sr as f64 * 1024.0;
                let names = ["lowpass", "highpass", "allpass", "notch", "bell", "shelf"];
                let base = t.trim_end_matches('1');
                let id = names.iter().position(|n| *n == base).unwrap() as i64;
                let gg = if id >= 4 { g } else { 1.0 };
                ev.ok().str("t", base).int("j", u.floor() as i64).int("r", ((u - u.floor()) * 4096.0) as i64);
                ev.int("q", (q as f64 * 1024.0).round() as i64).int("g", (gg as f64 * 256.0).round() as i64);
                ev.ints("p", &[id, int(a[1]), int(a[2]), if id >= 4 { int(a[3]) } else { 0 }, int(a[4])]);
                let s: Vec<String> = v
                    .iter()
                    .map(|x| {
                        let (n, k) = enc(*x, 24);
                        format!("[{},{}]", n, k)
                    })
                    .collect();
                ev.s.push_str(&format!(",\"v\":[{}]", s.join(",")));
                ev.ints("raw", &v.iter().map(|x| x.to_bits() as i32 as i64).collect::<Vec<_>>());
                // selection: Jury conditions
                let (a1, a2) = (v[3] as f64, v[4] as f64);
                if !(1.0 + a1 + a2 > 0.0 && 1.0 - a1 + a2 > 0.0 && a2 < 1.0) {
                    self.sus = true;
                }
            }
            "burst" => {
                // type fc q g sr seed
                let t = a[0];
                let (fc, q, g, sr) = (fbits(a[1]), fbits(a[2]), fbits(a[3]), fbits(a[4]));
                let mut b: Biquad<Butterworth> = Biquad::new(BiquadCoeffs::new());
                design(&mut b.coeffs, t, fc, q, g, sr);
                let len = (6.0 * tau(t, fc, q, g, sr)).ceil() as usize + 64;
                let mut r = Rng::new(us(a[5]) as u64);
                let mut m = [0f32; 4];
                for s in 0..4 {
                    for i in 0..len {
                        let x = if s == 0 && i < 64 { (r.f01() * 2.0 - 1.0) as f32 } else { 0.0 };
                        let y = b.process(x).abs();
                        if !(y <= m[s]) {
                            m[s] = y;
                        }
                    }
                }
                let s: Vec<String> = m
                    .iter()
                    .map(|x| {
                        let (n, k) = enc(*x, 16);
                        format!("[{},{}]", n, k)
                    })
                    .collect();
                ev.ok();
                ev.s.push_str(&format!(",\"m\":[{}]", s.join(",")));
                if !(m[1] <= m[0] && m[3] <= 0.5) {
                    self.sus = true;
                }
            }
            _ => panic!("HARNESS unknown op {}", op),
        }
    }
}

fn coefs(r: &mut Rng, coarse: bool) -> [i64; 5] {
    if coarse {
        let b = [0i64, 64, -64, 128, 32, -32];
        let a = [0i64, 64, -64, 32, -32];
        [r.pick(&b), r.pick(&b), r.pick(&b), r.pick(&a), r.pick(&a)]
    } else {
        let a1 = r.range(-48, 48);
        let a2 = r.range(-(48 - a1.abs()), 48 - a1.abs());
        [r.range(-128, 128), r.range(-128, 128), r.range(-128, 128), a1, a2]
    }
}

/// filters that run for very long and come back to their state
fn long_runs(run: &mut Run) {
    let total = if run.thorough { 200 } else { 30 };
    for i in 0..total {
        let mut h = run.begin(Box::new(Bq::new()));
        let e = h.run.rng.pick(&[0i64, 0, -12, 4]);
        h.op(&format!("sc {}", e));
        let kind = i % 3;
        let mut c = coefs(&mut h.run.rng, true);
        if kind > 0 {
            // an undamped resonance; no recursion
            c[3] = 0;
            c[4] = if kind == 1 { 64 } else { 0 };
        }
        let set = format!("set 0 {} {} {} {} {}", c[0], c[1], c[2], c[3], c[4]);
        h.op(&set);
        for _ in 0..2 {
            let mut x = 0;
            match kind {
                1 => {
                    for _ in 0..h.run.rng.range(1, 4) {
                        let l = format!("x 0 {}", 65536 * h.run.rng.range(-2, 2));
                        h.op(&l);
                    }
                }
                2 => {
                    x = 65536 * h.run.rng.range(-2, 2);
                    h.op(&format!("x 0 {}", x));
                    h.op(&format!("x 0 {}", x));
                }
                _ => (),
            }
            let n = h.run.rng.pick(&[1i64, 5, 255, 256, 257, 65535, 65536, 65537, 70_002, 200_003, 1_000_000, 16_777_218]);
            h.op(&format!("xn 0 {} {}", x, n));
            if kind == 0 {
                continue;
            }
            h.op(&format!("x 0 {}", x));
            h.op("x 0 65536");
            h.op("x 0 0");
            h.op("x 0 -65536");
        }
        h.op("x 0 65536");
        h.op("x 0 0");
        h.op("x 0 0");
        h.end(true);
    }
}

pub fn c11(run: &mut Run) {
    long_runs(run);
    let (total, kept) = if run.thorough { (150000, 10000) } else { (15000, 2500) };
    for i in 0..total {
        let mut h = run.begin(Box::new(Bq::new()));
        let coarse = i % 3 != 0;
        let e = match h.run.rng.below(6) {
            0 => h.run.rng.range(-95, 60),
            1 => 4,
            2 => -12,
            _ => 0,
        };
        h.op(&format!("sc {}", e));
        let two = h.run.rng.chance(1, 3);
        let len = if coarse { 12 } else { 50 };
        let change = h.run.rng.chance(1, 2);
        for f in 0..2 {
            if f == 0 || two {
                if h.run.rng.chance(1, 8) {
                    h.op(&format!("x {} 65536", f));
                }
                let c = coefs(&mut h.run.rng, coarse);
                h.op(&format!("set {} {} {} {} {} {}", f, c[0], c[1], c[2], c[3], c[4]));
            }
        }
        let impulse = h.run.rng.chance(1, 4);
        for k in 0..len {
            if h.ended {
                break;
            }
            let r = &mut h.run.rng;
            let f = if two { r.below(2) } else { 0 };
            if change && r.chance(1, 6) {
                let c = coefs(r, coarse);
                h.op(&format!("set {} {} {} {} {} {}", f, c[0], c[1], c[2], c[3], c[4]));
            } else if r.chance(1, 40) {
                h.op(&format!("nf {}", f));
                let c = coefs(&mut h.run.rng, coarse);
                h.op(&format!("set {} {} {} {} {} {}", f, c[0], c[1], c[2], c[3], c[4]));
            } else {
                let x = if impulse {
                    if k < 2 { 65536 } else { 0 }
                } else if coarse {
                    r.range(-2, 2) * 65536
                } else {
                    r.range(-4 * 64, 4 * 64) * 1024
                };
                h.op(&format!("x {} {}", f, x));
                if coarse && !h.run_small() {
                    break;
                }
            }
        }
        h.end(i < kept);
    }
}

const TYPES: [&str; 6] = ["lowpass", "highpass", "allpass", "notch", "bell", "shelf"];
const SRS: [f32; 8] = [8000.0, 22050.0, 44100.0, 48000.0, 96000.0, 192000.0, 1.0, 11025.0];
fn b(x: f32) -> i32 {
    x.to_bits() as i32
}
fn params(r: &mut Rng, top: f64, gain: bool) -> (f32, f32, f32, f32) {
    let sr = r.pick(&SRS);
    let lo = (1.0f64 / 499.0).ln();
    let hi = top.ln();
    let x = match r.below(5) {
        0 => lo,
        1 => hi,
        _ => lo + (hi - lo) * r.f01(),
    };
    let fc = (x.exp() * sr as f64 * 0.9999) as f32;
    let q = match r.below(6) {
        0 => 0.109375,
        1 => 20.0,
        2 => 0.703125,
        _ => ((0.11f64.ln() + (20.0f64 / 0.11).ln() * r.f01()).exp() * 64.0).round() as f32 / 64.0,
    }
    .clamp(0.109375, 20.0);
    let g = if gain {
        let m = match r.below(5) {
            0 => 0.25,
            1 => 4.0,
            2 => 1.0,
            _ => r.range(64, 1024) as f32 / 256.0,
        };
        // a boost by less than 1/4, down to nothing at all
        match r.below(12) {
            0 => 0.0,
            1 => r.range(1, 63) as f32 / 256.0,
            2..=6 => -m,
            _ => m,
        }
    } else {
        0.0
    };
    (fc, q, g, sr)
}

/// A design after one that is almost the same, against one of its own.
fn nearby(h: &mut Hist, op: &str, top: f64) {
    let r = &mut h.run.rng;
    let t = r.pick(&TYPES);
    let (fc, q, g, sr) = params(r, top * 0.98, true);
    let line = format!("{} {} {} {} {} {} ", op, t, b(fc), b(q), b(g), b(sr));
    for _ in 0..r.range(1, 3) {
        let r = &mut h.run.rng;
        let e = 1.0 + 10f64.powi(r.range(-7, -2) as i32) * r.pick(&[1.0, -1.0]);
        let by = |x: f32| (x as f64 * e) as f32;
        let (f2, q2, g2, s2) = match r.below(5) {
            0 => (by(fc), q, g, sr),
            1 => (fc, by(q).clamp(0.101, 20.0), g, sr),
            2 => (fc, q, by(g).clamp(-4.0, 4.0), sr),
            3 => (by(fc), by(q).clamp(0.101, 20.0), g, sr),
            _ => (fc, q, -g, sr),
        };
        let g2 = if g2.is_sign_negative() && g2 > -0.25 { g } else { g2 };
        // only to be written over: its own accuracy is judged elsewhere
        let s2 = if r.chance(1, 6) { s2 * 1.001 } else { s2 };
        h.op(&format!("stab {} {} {} {} {} 1", t, b(f2.max(sr / 499.0)), b(q2), b(g2), b(s2)));
        let how = h.run.rng.pick(&[1, 1, 1, 2]);
        h.op(&format!("{}{}", line, how));
    }
    h.op(&format!("{}0", line));
}

pub fn c12(run: &mut Run) {
    let (total, kept) = if run.thorough { (100000, 8000) } else { (8000, 1200) };
    for i in 0..total {
        let mut h = run.begin(Box::new(Bq::new()));
        for _ in 0..12 {
            let r = &mut h.run.rng;
            let t = if r.chance(1, 5) { r.pick(&["bell1", "shelf1"]) } else { r.pick(&TYPES) };
            let (fc, q, g, sr) = params(r, 0.25, true);
            let reuse = r.below(2);
            let line = format!("des {} {} {} {} {} ", t, b(fc), b(q), b(g), b(sr));
            h.op(&format!("{}{}", line, reuse));
            if h.run.rng.chance(1, 4) {
                h.op(&format!("{}{}", line, 1 - reuse));
            }
        }
        nearby(&mut h, "des", 0.25);
        h.end(i < kept);
    }
}

pub fn c13(run: &mut Run) {
    let (total, kept) = if run.thorough { (60000, 8000) } else { (5000, 1200) };
    for i in 0..total {
        let mut h = run.begin(Box::new(Bq::new()));
        for _ in 0..12 {
            let r = &mut h.run.rng;
            let t = if r.chance(1, 5) { r.pick(&["bell1", "shelf1"]) } else { r.pick(&TYPES) };
            let (fc, q, g, sr) = params(r, 0.45, true);
            let reuse = r.below(2);
            let line = format!("stab {} {} {} {} {} ", t, b(fc), b(q), b(g), b(sr));
            h.op(&format!("{}{}", line, reuse));
            if h.run.rng.chance(1, 4) {
                h.op(&format!("{}{}", line, 1 - reuse));
            }
        }
        nearby(&mut h, "stab", 0.45);
        let r = &mut h.run.rng;
        let t = r.pick(&TYPES);
        let (fc, q, g, sr) = params(r, 0.45, true);
        let s = r.below(100000);
        h.op(&format!("burst {} {} {} {} {} {}", t, b(fc), b(q), b(g), b(sr), s));
        h.end(i < kept);
    }
}
