//! Bit conversions (C23) and bit reductions (C24, C25) on one float register.
use crate::core::*;
use embedded_audio_tools::convert::*;
use embedded_audio_tools::errors::BitReductionError;
use embedded_audio_tools::float::{
    bit_reduce, bit_reduce_exp, bit_reduce_exp_unchecked, bit_reduce_unchecked, F32Components,
};

pub struct Bits {
    r: f32,
    sus: bool,
}
impl Bits {
    pub fn new() -> Bits {
        Bits { r: 0.0, sus: false }
    }
}
fn comps(c: &F32Components) -> [i64; 3] {
    [c.sign as i64, c.exponent as i64, c.mantissa as i64]
}
fn err(e: BitReductionError) -> &'static str {
    match e {
        BitReductionError::OverBitReduction => "OverBitReduction",
        BitReductionError::InputExceedsRange => "InputExceedsRange",
    }
}
// references, for selection only
fn cv_ok(w: u32) -> bool {
    let x = f32::from_bits(w);
    let c = x.to_f32_components();
    let u = w.to_f32_components();
    let want = ((w >> 31) as i64, ((w >> 23) & 255) as i64, (w & 0x7f_ffff) as i64);
    let t = |c: &F32Components| (c.sign as i64, c.exponent as i64, c.mantissa as i64);
    x.to_raw_word() == w
        && <f32 as FromRawBytes>::from_raw_word(w).to_bits() == w
        && t(&c) == want
        && t(&u) == want
        && <f32 as FromF32Components>::from_f32_components(c).to_bits() == w
        && <u32 as FromF32Components>::from_f32_components(u) == w
}
fn lin_ref(w: u32, d: u8) -> Result<f32, ()> {
    let x = f32::from_bits(w);
    if d > 30 || !(x.abs() <= 1.0) {
        return Err(());
    }
    if d == 0 {
        return Ok(x);
    }
    let s = (x.abs() as f64 * 2147483648.0) as u64;
    let y = ((s >> d) << d) as f64 / 2147483648.0;
    Ok(if x < 0.0 { -(y as f32) } else { y as f32 })
}
fn lin_ok(w: u32, d: u8) -> bool {
    let x = f32::from_bits(w);
    if x.is_nan() {
        return true;
    }
    match (bit_reduce(x, d), lin_ref(w, d)) {
        (Ok(a), Ok(b)) => {
            let u = bit_reduce_unchecked(x, d);
            a == b && u == b && (d > 0 || (a.to_bits() == w && u.to_bits() == w))
        }
        (Err(e), Err(())) => err(e) == if d > 30 { "OverBitReduction" } else { "InputExceedsRange" },
        _ => false,
    }
}
fn exp_ok(w: u32, d: u8) -> bool {
    match bit_reduce_exp(f32::from_bits(w), d) {
        Ok(v) => {
            let want = if d > 23 { !w } else { w & !((1u32 << d) - 1) };
            v.to_bits() == want && bit_reduce_exp_unchecked(f32::from_bits(w), d).to_bits() == want
        }
        Err(e) => d > 23 && err(e) == "OverBitReduction",
    }
}

impl Dom for Bits {
    fn suspect(&self) -> bool {
        self.sus
    }
    fn exec(&mut self, op: &str, a: &[&str], ev: &mut Ev) {
        match op {
            "ld" => {
                let w = int(a[0]) as u32;
                self.r = f32::from_bits(w);
                ev.ok().word("w", w);
            }
            "cv" => {
                let w = self.r.to_bits();
                let (raw, dec) = (self.r.to_raw_word(), <f32 as FromRawBytes>::from_raw_word(w));
                let (f, u) = (self.r.to_f32_components(), w.to_f32_components());
                ev.ok().word("raw", raw).word("dec", dec.to_bits());
                ev.ints("f", &comps(&f)).ints("u", &comps(&u));
                ev.word("jf", <f32 as FromF32Components>::from_f32_components(f).to_bits());
                ev.word("ju", <u32 as FromF32Components>::from_f32_components(u));
                self.sus |= !cv_ok(w);
            }
            "jn" => {
                let (s, x, m) = (int(a[0]), int(a[1]), int(a[2]));
                let c = || F32Components { sign: s != 0, exponent: x as u8, mantissa: m as u32 };
                self.r = <f32 as FromF32Components>::from_f32_components(c());
                let u = <u32 as FromF32Components>::from_f32_components(c());
                ev.ok().int("s", s).int("x", x).int("m", m);
                ev.word("jf", self.r.to_bits()).word("ju", u);
            }
            "lin" => {
                let d = int(a[0]) as u8;
                let x = self.r;
                ev.int("d", d as i64);
                match bit_reduce(x, d) {
                    Ok(v) => {
                        ev.ok().str("e", "").word("v", v.to_bits());
                        // the unchecked form is specified on this range only
                        let u = if d <= 30 && x.abs() <= 1.0 { bit_reduce_unchecked(x, d) } else { v };
                        ev.word("u", u.to_bits());
                        self.r = v;
                    }
                    Err(e) => {
                        ev.err(err(e)).word("v", 0).word("u", 0);
                    }
                }
                self.sus |= !lin_ok(x.to_bits(), d);
            }
            "exp" => {
                let d = int(a[0]) as u8;
                let x = self.r;
                ev.int("d", d as i64);
                match bit_reduce_exp(x, d) {
                    Ok(v) => {
                        ev.ok().str("e", "").word("v", v.to_bits());
                        let u = if d <= 23 { bit_reduce_exp_unchecked(x, d) } else { v };
                        ev.word("u", u.to_bits());
                        self.r = v;
                    }
                    Err(e) => {
                        ev.err(err(e)).word("v", 0).word("u", 0);
                    }
                }
                self.sus |= !exp_ok(x.to_bits(), d);
            }
            _ => panic!("HARNESS unknown op {}", op),
        }
    }
}

fn word(r: &mut Rng) -> u32 {
    match r.below(10) {
        0 => rnd_bits(r) as u32,
        1 => (r.below(2) << 31) as u32 | (r.below(256) << 23) as u32 | r.pick(&[0, 1, 0x7f_ffff, 0x40_0000, 0x3f_ffff]),
        2 => r.below(300) as u32 | (r.below(2) << 31) as u32,
        // in [-1, 1]
        3..=6 => (r.below(2) << 31) as u32 | (127 - r.below(40).min(r.below(40))) as u32 * 0x80_0000 - r.below(0x80_0000) as u32,
        7 => ((r.f01() * 2.0 - 1.0) as f32).to_bits(),
        8 => (r.range(-4096, 4096) as f32 / 4096.0).to_bits(),
        _ => r.next() as u32,
    }
}
/// Screen every n-th bit pattern; disagreements become histories for TLC.
fn sweep(run: &mut Run, op: &'static str, ds: &[u8], step: u64, off: u64, ok: fn(u32, u8) -> bool) {
    use std::sync::Mutex;
    let found: Mutex<Vec<(u32, u8)>> = Mutex::new(vec![]);
    arm(0);
    let nt = 8u64;
    std::thread::scope(|s| {
        for t in 0..nt {
            let found = &found;
            s.spawn(move || {
                let mut w = off + t * step;
                while w < 1 << 32 {
                    for &d in ds {
                        let good = std::panic::catch_unwind(|| ok(w as u32, d)).unwrap_or(false);
                        if !good {
                            let mut f = found.lock().unwrap();
                            if f.len() < 30 {
                                f.push((w as u32, d));
                            } else {
                                return;
                            }
                        }
                    }
                    w += nt * step;
                }
            });
        }
    });
    run.swept += (1u64 << 32) / step * ds.len() as u64;
    let mut f = found.into_inner().unwrap();
    f.sort();
    for (w, d) in f {
        let mut h = run.begin(Box::new(Bits::new()));
        h.op(&format!("ld {}", w as i32));
        h.op(&if op == "cv" { "cv".to_string() } else { format!("{} {}", op, d) });
        h.end(true);
    }
}
pub fn c23(run: &mut Run) {
    let off = run.rng.below(100);
    let step = if run.thorough { 1 } else { 97 };
    sweep(run, "cv", &[0], step, if run.thorough { 0 } else { off.min(96) }, |w, _| cv_ok(w));
    let (total, kept) = if run.thorough { (40000, 20000) } else { (4000, 4000) };
    for i in 0..total {
        let mut h = run.begin(Box::new(Bits::new()));
        for _ in 0..8 {
            let r = &mut h.run.rng;
            let l = if r.chance(1, 3) {
                let m = match r.below(3) {
                    0 => r.pick(&[0, 1, 0x7f_ffff, 0x40_0000]),
                    _ => r.below(0x80_0000) as i64,
                };
                format!("jn {} {} {}", r.below(2), r.below(256), m)
            } else {
                format!("ld {}", word(r) as i32)
            };
            h.op(&l);
            h.op("cv");
        }
        h.end(i < kept);
    }
}
fn reduce(run: &mut Run, op: &'static str, max: u64) {
    let (total, kept) = if run.thorough { (40000, 20000) } else { (5000, 5000) };
    for i in 0..total {
        let mut h = run.begin(Box::new(Bits::new()));
        for _ in 0..5 {
            let r = &mut h.run.rng;
            let mut w = word(r);
            if op == "lin" && f32::from_bits(w).is_nan() {
                w &= 0xff80_0000;
            }
            let l = format!("ld {}", w as i32);
            h.op(&l);
            let r = &mut h.run.rng;
            let d = if r.chance(1, 8) { r.pick(&[max as u64, max + 1, 31, 32, 64, 128, 255, 254]) } else { r.below(max + 1) };
            let l = format!("{} {}", op, d);
            h.op(&l);
            h.op(&l);
            let r = &mut h.run.rng;
            let l = format!("{} {}", op, r.below(max + 2));
            h.op(&l);
        }
        h.end(i < kept);
    }
}
pub fn c24(run: &mut Run) {
    let ds: Vec<u8> = (0..=31).chain([255]).collect();
    let off = run.rng.below(1000);
    let step = if run.thorough { 61 } else { 9973 };
    sweep(run, "lin", &ds, step, off % step, lin_ok);
    reduce(run, "lin", 30);
}
pub fn c25(run: &mut Run) {
    let ds: Vec<u8> = (0..=25).chain([32, 255]).collect();
    let off = run.rng.below(1000);
    let step = if run.thorough { 31 } else { 9973 };
    sweep(run, "exp", &ds, step, off % step, exp_ok);
    reduce(run, "exp", 23);
}
