//! Fixed-point sine (C28), periodic approximations and lookups (C31), sinc and
//! sine integral (C33), hyperbolics and tangent (C34).
use crate::core::*;
use embedded_audio_tools::fixed_point::math::{sin_i16, sin_i16_unchecked};
use embedded_audio_tools::float::AdditionalF32Ext as A;

pub struct Approx {
    sus: bool,
}
impl Approx {
    pub fn new() -> Approx {
        Approx { sus: false }
    }
}
fn arg(t: &str) -> f32 {
    f32::from_bits(int(t) as i32 as u32)
}
fn near(a: f32, b: f64, t: f64) -> bool {
    (a as f64 - b).abs() <= t
}
impl Dom for Approx {
    fn suspect(&self) -> bool {
        self.sus
    }
    fn exec(&mut self, op: &str, a: &[&str], ev: &mut Ev) {
        match op {
            "fix" => {
                let (d, z) = (int(a[0]), int(a[1]));
                let n = int(a[2]);
                let mut v = vec![];
                let mut u = vec![];
                for i in z..z + n {
                    let x = sin_i16(i as i16, d as u8);
                    v.push(x as i64);
                    u.push(if d <= 4 { unsafe { sin_i16_unchecked(i as i16, d as u8) as i64 } } else { x as i64 });
                }
                ev.ok().int("d", d).int("z", z).ints("v", &v).ints("u", &u);
            }
            "fs" | "fc" => {
                let x = arg(a[0]);
                let v = if op == "fs" { A::fixed_point_sin(&x) } else { A::fixed_point_cos(&x) };
                let r = if op == "fs" { (x as f64).sin() } else { (x as f64).cos() };
                self.sus |= !near(v, r, 1e-3);
                ev.ok().val("x", x, 16).val("v", v, 24);
            }
            "rg" => {
                let x = arg(a[0]);
                let v = match a[1] {
                    "s" => A::fixed_point_sin(&x),
                    "c" => A::fixed_point_cos(&x),
                    _ => A::lookup_sin(&x),
                };
                self.sus |= !(v.abs() <= 1.0001);
                ev.ok().str("f", a[1]).val("v", v, 24);
            }
            "ls" => {
                let (x, k) = (arg(a[0]), int(a[1]));
                let y = (x as f64 + k as f64 * std::f64::consts::TAU) as f32;
                let (v, w) = (A::lookup_sin(&x), A::lookup_sin(&y));
                self.sus |= !(v.abs() <= 1.0001 && w.abs() <= 1.0001 && (v - w).abs() <= 1e-4);
                ev.ok().val("x", x, 16).int("p", k).val("v", v, 24).val("w", w, 24);
            }
            "br" => {
                let x = arg(a[0]);
                let v = A::lookup_bl_rect(&x);
                ev.ok().val("x", x, 24).val("v", v, 24);
            }
            "sc" => {
                let x = arg(a[0]);
                let (v, w) = (A::sinc(&x), A::sinc(&-x));
                let (xd, s) = (x as f64, (x as f64).sin());
                self.sus |= x != 0.0 && !((xd * v as f64 - s).abs() <= 2e-3 && (xd * w as f64 - s).abs() <= 2e-3);
                ev.ok().val("x", x, 16).val("v", v, 24).val("w", w, 24);
            }
            "si" => {
                let x = arg(a[0]);
                let (v, w) = (A::si(&x), A::si(&-x));
                ev.ok().val("x", x, 16).val("v", v, 24).val("w", w, 24);
            }
            "ch" | "sh" => {
                let x = arg(a[0]);
                let v = if op == "ch" { A::cosh(&x) } else { A::sinh(&x) };
                let xd = x as f64;
                let r = if op == "ch" { xd.cosh() } else { xd.sinh() };
                self.sus |= !near(v, r, xd.cosh() * 0.0025);
                ev.ok().val("x", x, 16).val("v", v, 16);
            }
            "th" => {
                let k = int(a[0]);
                let x = k as f32 / 4096.0;
                let v = A::tanh(&x);
                let xd = x as f64;
                self.sus |= !near(v, xd / (1.0 + xd * xd / 2.0), 1e-5);
                ev.ok().int("x", k).val("v", v, 24);
            }
            "ft" => {
                let k = int(a[0]);
                let x = k as f32 / 1048576.0;
                let v = A::fast_tan(&x);
                self.sus |= !near(v, (x as f64).tan(), if x.abs() <= 0.5 { 1e-6 } else { 1.05e-3 });
                ev.ok().int("x", k).val("v", v, 24);
            }
            _ => panic!("HARNESS unknown op {}", op),
        }
    }
}
fn b(x: f32) -> i64 {
    x.to_bits() as i32 as i64
}
/// every phase, every degree
pub fn c28(run: &mut Run) {
    for d in [0i64, 1, 2, 3, 4, 5, 8, 64, 128, 255] {
        if d > 5 && !run.thorough {
            // spot checks of the remaining degrees
            let mut h = run.begin(Box::new(Approx::new()));
            for _ in 0..16 {
                let z = h.run.rng.range(-32768, 32767 - 64);
                h.op(&format!("fix {} {} 64", d, z));
            }
            h.op(&format!("fix {} -32768 64", d));
            h.op(&format!("fix {} 32704 64", d));
            h.end(true);
            continue;
        }
        for z in 0..64 {
            let mut h = run.begin(Box::new(Approx::new()));
            for i in 0..8 {
                h.op(&format!("fix {} {} 128", d, -32768 + z * 1024 + i * 128));
            }
            h.end(true);
        }
    }
    run.swept += 65536 * 6;
}
fn angle(r: &mut Rng) -> f32 {
    match r.below(6) {
        0 => ((r.range(-127, 127) as f64 / 4.0 * std::f64::consts::PI) as f32) + r.range(-3, 3) as f32 * 1e-6,
        1 => r.range(-100, 100) as f32,
        2 => (r.f01() * 1e-3) as f32,
        3 => ((r.f01() * 2.0 - 1.0) * 7.0) as f32,
        _ => ((r.f01() * 2.0 - 1.0) * 100.0) as f32,
    }
    .clamp(-100.0, 100.0)
}
fn any(r: &mut Rng) -> f32 {
    loop {
        let x = f32::from_bits(rnd_bits(r) as u32);
        if x.is_finite() {
            return x;
        }
    }
}
fn unit(r: &mut Rng) -> f32 {
    let top = 16777216;
    let k = match r.below(6) {
        0 => r.pick(&[0, top / 4, top / 2, 3 * top / 4, top]) + r.range(-4, 4),
        // around cells of the quarter table
        1 => (r.range(0, 4 * 5074) as f64 * top as f64 / 20296.0).round() as i64 + r.range(-1, 1),
        2 => r.range(0, 2000),
        3 => top - r.range(0, 2000),
        _ => r.range(0, top),
    };
    if r.chance(1, 20) {
        return r.pick(&[-1.0f32, 2.0, 1.0000001, -0.0, f32::INFINITY, f32::NEG_INFINITY, 1e30, -1e-30, 1.5, -0.25]);
    }
    k as f32 / top as f32
}
/// The floats around multiples of a quarter of pi, however they are computed.
fn corner(r: &mut Rng) -> f32 {
    use std::f32::consts::FRAC_PI_4;
    let k = if r.chance(1, 2) { r.range(-9, 9) } else { r.range(-130, 130) };
    let x = match r.below(3) {
        0 => (k as f64 * std::f64::consts::FRAC_PI_4) as f32,
        _ => k as f32 * FRAC_PI_4,
    };
    let d = if r.chance(1, 2) { 0 } else { r.range(-3, 3) };
    if x == 0.0 {
        return x;
    }
    f32::from_bits((x.to_bits() as i64 + d) as u32)
}
pub fn c31(run: &mut Run) {
    let (total, kept) = if run.thorough { (60000, 15000) } else { (6000, 1500) };
    for i in 0..total {
        let mut h = run.begin(Box::new(Approx::new()));
        for _ in 0..40 {
            let r = &mut h.run.rng;
            let l = match r.below(8) {
                0 | 1 => format!("fs {}", b(angle(r))),
                2 => format!("fc {}", b(angle(r))),
                3 => {
                    let x = if r.chance(1, 3) { corner(r) } else { any(r) };
                    format!("rg {} {}", b(x), r.pick(&["s", "c", "l", "l"]))
                }
                4 => {
                    let x = if r.chance(1, 3) { corner(r).clamp(-7.0, 7.0) } else { ((r.f01() * 2.0 - 1.0) * 7.0) as f32 };
                    format!("ls {} {}", b(x), r.range(-10, 10))
                }
                _ => format!("br {}", b(unit(r))),
            };
            h.op(&l);
        }
        h.end(i < kept);
    }
    // every quarter-table cell
    let mut k = 0i64;
    while k < 4 * 5074 {
        let mut h = run.begin(Box::new(Approx::new()));
        for _ in 0..64 {
            let x = ((k as f64 + 0.5) * 16777216.0 / 20296.0).round() as f32 / 16777216.0;
            h.op(&format!("br {}", b(x)));
            k += 1;
        }
        h.end(true);
    }
}
fn sample(r: &mut Rng) -> f32 {
    let x = match r.below(6) {
        0 => 0.0,
        1 => r.range(-20, 20) as f32,
        2 => (r.f01() * 0.5 + 0.004) as f32,
        3 => -(r.f01() * 0.5 + 0.004) as f32,
        _ => ((r.f01() * 2.0 - 1.0) * 20.0) as f32,
    };
    // on the 2^-16 grid
    (x * 65536.0).round() / 65536.0
}
pub fn c33(run: &mut Run) {
    let (total, kept) = if run.thorough { (20000, 8000) } else { (1500, 1500) };
    for i in 0..total {
        let mut h = run.begin(Box::new(Approx::new()));
        for _ in 0..20 {
            let r = &mut h.run.rng;
            let l = format!("{} {}", r.pick(&["sc", "si"]), b(sample(r)));
            h.op(&l);
        }
        h.end(i < kept);
    }
}
pub fn c34(run: &mut Run) {
    let (total, kept) = if run.thorough { (20000, 8000) } else { (2000, 2000) };
    for i in 0..total {
        let mut h = run.begin(Box::new(Approx::new()));
        for _ in 0..30 {
            let r = &mut h.run.rng;
            let x = r.range(-8 * 65536, 8 * 65536) as f32 / 65536.0;
            let x = if r.chance(1, 5) { x / 16.0 } else { x };
            let l = match r.below(4) {
                0 => format!("ch {}", b((x * 65536.0).round() / 65536.0)),
                1 => format!("sh {}", b((x * 65536.0).round() / 65536.0)),
                2 => format!("th {}", r.range(-8 * 4096, 8 * 4096)),
                _ => format!("ft {}", if r.chance(1, 8) { r.pick(&[0, 1048576, -1048576, 524288, -524288, 1, -1]) } else { r.range(-1048576, 1048576) }),
            };
            h.op(&l);
        }
        h.end(i < kept);
    }
}
