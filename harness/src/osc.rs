//! Phase accumulator (C18, C21), functional (C19) and wavetable (C20) oscillators.
use crate::core::*;
use embedded_audio_tools::errors::FrequencyError;
use embedded_audio_tools::memory_access::from_slice;
use embedded_audio_tools::oscillator::Waveform;
use embedded_audio_tools::{FunctionalOscillator, PhaseAccumulator, SoftPhaseAccumulator, WavetableOscillator};
use std::cell::Cell;
use std::rc::Rc;

/// An accumulator that plays a scripted phase and counts how it is used.
struct Scripted {
    p: Rc<Cell<f32>>,
    calls: Rc<Cell<i64>>,
}
impl PhaseAccumulator for Scripted {
    type Object = Scripted;
    fn new(_f: f32, _sr: f32) -> Scripted {
        Scripted { p: Rc::new(Cell::new(0.0)), calls: Rc::new(Cell::new(0)) }
    }
    fn set_sr_unchecked(&mut self, _sr: f32) {}
    fn set_freq_unchecked(&mut self, _f: f32) {}
    fn set_phase_shift(&mut self, _s: u32) {}
    fn next_value(&mut self) -> u32 {
        self.calls.set(self.calls.get() + 1);
        (self.p.get() as f64 * 4294967296.0) as u32
    }
    fn next_value_normalized(&mut self) -> f32 {
        self.calls.set(self.calls.get() + 1);
        self.p.get()
    }
}

/// An accumulator that belongs to the user: it plays any phases and can be
/// looked at (and tampered with) from outside.
struct Own {
    s: Rc<OwnState>,
}
#[derive(Default)]
struct OwnState {
    f: Cell<Option<f32>>,
    r: Cell<Option<f32>>,
    sh: Cell<u32>,
    told: Cell<i64>,
    reads: Cell<i64>,
    // the phases of the coming readings
    now: Cell<f32>,
    later: Cell<f32>,
}
impl OwnState {
    fn read(&self) -> f32 {
        let p = self.now.get();
        self.now.set(self.later.get());
        self.reads.set(self.reads.get() + 1);
        p
    }
    fn log(&self, ev: &mut Ev) {
        let t = |x: Option<f32>| x.map_or("-".to_string(), |x| format!("{:08x}", x.to_bits()));
        ev.str("af", &t(self.f.get())).str("ar", &t(self.r.get()));
        ev.word("as", self.sh.get()).int("ak", self.told.get()).int("an", self.reads.get());
    }
}
impl PhaseAccumulator for Own {
    type Object = Own;
    fn new(f: f32, sr: f32) -> Own {
        let s = OwnState::default();
        s.f.set(Some(f));
        s.r.set(Some(sr));
        Own { s: Rc::new(s) }
    }
    fn set_sr_unchecked(&mut self, sr: f32) {
        self.s.r.set(Some(sr));
        self.s.told.set(self.s.told.get() + 1);
    }
    fn set_freq_unchecked(&mut self, f: f32) {
        self.s.f.set(Some(f));
        self.s.told.set(self.s.told.get() + 1);
    }
    fn set_phase_shift(&mut self, s: u32) {
        self.s.sh.set(s);
        self.s.told.set(self.s.told.get() + 1);
    }
    fn next_value(&mut self) -> u32 {
        (self.s.read() as f64 * 4294967296.0) as u32
    }
    fn next_value_normalized(&mut self) -> f32 {
        self.s.read()
    }
}

enum Dev {
    Gs(FunctionalOscillator<Own>),
    Gt(WavetableOscillator<Own>),
    None,
    Pa(SoftPhaseAccumulator),
    Os(FunctionalOscillator<SoftPhaseAccumulator>),
    Ot(WavetableOscillator<SoftPhaseAccumulator>),
    Ss(FunctionalOscillator<Scripted>),
    St(WavetableOscillator<Scripted>),
}
pub struct Osc {
    d: Dev,
    arena: Option<Arena>,
    p: Rc<Cell<f32>>,
    calls: Rc<Cell<i64>>,
    cells: Vec<f64>,
    own: Rc<OwnState>,
    // reference, for selection only
    cnt: u32,
    sh: u32,
    f: f64,
    sr: f64,
    exact: bool,
    wave: String,
    sus: bool,
}
fn wave(w: &str) -> Waveform {
    match w {
        "sine" => Waveform::Sine,
        "rect" => Waveform::Rectangle,
        "saw" => Waveform::Sawtooth,
        "tri" => Waveform::Triangle,
        _ => panic!("HARNESS wave {}", w),
    }
}
fn bits(t: &str) -> f32 {
    f32::from_bits(int(t) as i32 as u32)
}
/// sign, 24-bit mantissa, exponent
fn split(x: f32) -> (i64, i64, i64) {
    if x == 0.0 {
        return (1, 0, 0);
    }
    let a = (x as f64).abs();
    let mut e = 0;
    let mut m = a;
    while m >= 16777216.0 {
        m /= 2.0;
        e += 1;
    }
    while m < 8388608.0 {
        m *= 2.0;
        e -= 1;
    }
    (if x < 0.0 { -1 } else { 1 }, m as i64, e)
}
fn fq(ev: &mut Ev, x: f32) {
    let (s, m, e) = split(x);
    ev.ints("f", &[s, m, e]);
}
fn rate(ev: &mut Ev, x: f32) {
    let (_, m, e) = split(x);
    ev.ints("sr", &[m, e]);
}
impl Osc {
    pub fn new() -> Osc {
        Osc {
            d: Dev::None,
            arena: None,
            p: Rc::new(Cell::new(0.0)),
            calls: Rc::new(Cell::new(0)),
            cells: vec![],
            own: Rc::new(OwnState::default()),
            cnt: 0,
            sh: 0,
            f: 0.0,
            sr: 1.0,
            exact: true,
            wave: String::new(),
            sus: false,
        }
    }
    fn table(&mut self, a: &[&str], ev: &mut Ev) -> &'static [f32] {
        let (n, ka, kb, m) = (us(a[0]), int(a[1]), int(a[2]), int(a[3]));
        ev.int("n", n as i64).int("a", ka).int("b", kb).int("m", m);
        let mut ar = Arena::new(n);
        self.cells.clear();
        for i in 0..n {
            let c = (i as i64 * ka + kb) % m - m / 2;
            ar.set(i, c as f32);
            self.cells.push(c as f64);
        }
        let s = ar.slice_mut(0, n);
        self.arena = Some(ar);
        s
    }
    fn set(&mut self, f: f32, sr: f32) {
        self.f = f as f64;
        self.sr = sr as f64;
        self.cnt = 0;
        self.sh = 0;
        self.exact = split(sr).1 == 8388608;
    }
    fn step(&mut self) -> u32 {
        let s = (self.f * 4294967296.0 / self.sr) as u32;
        self.cnt = self.cnt.wrapping_add(s);
        self.cnt.wrapping_add(self.sh)
    }
    fn check(&mut self, p: f64, v: f32, tol: f64) {
        let v = v as f64;
        let bad = match self.wave.as_str() {
            "saw" => (v - (2.0 * p - 1.0)).abs() > 1e-6 + tol,
            "tri" => (v - (1.0 - 4.0 * (p - 0.5).abs())).abs() > 1e-6 + tol,
            "sine" => (v - (std::f64::consts::TAU * p).sin()).abs() > 1e-3 + tol,
            "rect" => v.abs() != 1.0 || ((v > 0.0) != (p >= 0.5) && (p - 0.5).abs() > 1e-6 + tol),
            _ => {
                let n = self.cells.len();
                let x = p * n as f64;
                let i = x.floor() as usize % n;
                let a = self.cells[i];
                let b = self.cells[(i + 1) % n];
                !((v - (a + (b - a) * (x - x.floor()))).abs() < 1e-3 + 200.0 * n as f64 * (1e-7 + tol))
            }
        };
        if !(bad == false) {
            self.sus = true;
        }
    }
}

impl Dom for Osc {
    fn suspect(&self) -> bool {
        self.sus
    }
    fn exec(&mut self, op: &str, a: &[&str], ev: &mut Ev) {
        match op {
            "pa" => {
                let (f, sr) = (bits(a[0]), bits(a[1]));
                self.d = Dev::Pa(SoftPhaseAccumulator::new(f, sr));
                self.set(f, sr);
                ev.ok();
                fq(ev, f);
                rate(ev, sr);
            }
            "os" => {
                let (f, sr) = (bits(a[1]), bits(a[2]));
                let mut o = FunctionalOscillator::new(SoftPhaseAccumulator::new(f, sr));
                o.set_wave(wave(a[0]));
                self.d = Dev::Os(o);
                self.set(f, sr);
                self.wave = a[0].to_string();
                ev.ok().str("w", a[0]);
                fq(ev, f);
                rate(ev, sr);
            }
            "ot" => {
                let (f, sr) = (bits(a[4]), bits(a[5]));
                let s = self.table(a, ev);
                self.d = Dev::Ot(WavetableOscillator::new(from_slice(s), SoftPhaseAccumulator::new(f, sr)));
                self.set(f, sr);
                self.wave = "table".to_string();
                ev.ok();
                fq(ev, f);
                rate(ev, sr);
            }
            "ss" => {
                let s = Scripted { p: self.p.clone(), calls: self.calls.clone() };
                let mut o = FunctionalOscillator::new(s);
                o.set_wave(wave(a[0]));
                self.d = Dev::Ss(o);
                self.wave = a[0].to_string();
                ev.ok().str("w", a[0]);
            }
            "st" => {
                let t = self.table(a, ev);
                let s = Scripted { p: self.p.clone(), calls: self.calls.clone() };
                self.d = Dev::St(WavetableOscillator::new(from_slice(t), s));
                self.wave = "table".to_string();
                ev.ok();
            }
            "f" => {
                let f = bits(a[0]);
                match &mut self.d {
                    Dev::Pa(p) => p.set_freq_unchecked(f),
                    Dev::Os(o) => o.set_freq_unchecked(f),
                    Dev::Ot(o) => o.set_freq_unchecked(f),
                    _ => panic!("HARNESS f"),
                }
                self.f = f as f64;
                ev.ok();
                fq(ev, f);
            }
            "cf" => {
                let f = bits(a[0]);
                let p = match &mut self.d {
                    Dev::Pa(p) => p,
                    _ => panic!("HARNESS cf"),
                };
                match p.set_freq(f) {
                    Ok(()) => {
                        ev.ok().str("e", "");
                        self.f = f as f64;
                    }
                    Err(FrequencyError::Zero) => {
                        ev.err("Zero");
                    }
                    Err(FrequencyError::Negative) => {
                        ev.err("Negative");
                    }
                    Err(FrequencyError::BiggerThanNyquist) => {
                        ev.err("BiggerThanNyquist");
                    }
                }
                let (f, n) = (f as f64, self.sr / 2.0);
                let good = f > 0.0 && f <= n;
                if (self.f == f) != good && !(f > n && f < n * 1.000001) {
                    self.sus = true;
                }
                fq(ev, f as f32);
            }
            "sr" => {
                let sr = bits(a[0]);
                match &mut self.d {
                    Dev::Pa(p) => p.set_sr_unchecked(sr),
                    Dev::Os(o) => o.set_sr_unchecked(sr),
                    Dev::Ot(o) => o.set_sr_unchecked(sr),
                    _ => panic!("HARNESS sr"),
                }
                self.sr = sr as f64;
                self.exact = self.exact && split(sr).1 == 8388608;
                ev.ok();
                rate(ev, sr);
            }
            "sh" => {
                let w = int(a[0]) as u32;
                match &mut self.d {
                    Dev::Pa(p) => p.set_phase_shift(w),
                    _ => panic!("HARNESS sh"),
                }
                self.sh = w;
                ev.ok().word("x", w);
            }
            "osh" => {
                let k = int(a[0]);
                let s = k as f32 / 65536.0;
                match &mut self.d {
                    Dev::Os(o) => o.set_phase_shift_unchecked(s),
                    Dev::Ot(o) => o.set_phase_shift_unchecked(s),
                    _ => panic!("HARNESS osh"),
                }
                self.sh = (k << 16) as u32;
                ev.ok().int("x", k);
            }
            "w" => {
                match &mut self.d {
                    Dev::Os(o) => o.set_wave(wave(a[0])),
                    Dev::Ss(o) => o.set_wave(wave(a[0])),
                    _ => panic!("HARNESS w"),
                }
                self.wave = a[0].to_string();
                ev.ok().str("w", a[0]);
            }
            "rd" => {
                let w = match &mut self.d {
                    Dev::Pa(p) => p.next_value(),
                    _ => panic!("HARNESS rd"),
                };
                let r = self.step();
                if self.exact && r != w {
                    self.sus = true;
                }
                ev.ok().word("v", w);
            }
            "nm" => {
                let v = match &mut self.d {
                    Dev::Pa(p) => p.next_value_normalized(),
                    _ => panic!("HARNESS nm"),
                };
                let r = self.step() as f64 / 4294967296.0;
                if !(v >= 0.0 && v < 1.0) || (self.exact && (v as f64 - r).abs() > 6e-8) {
                    self.sus = true;
                }
                ev.ok().val("v", v, 24);
            }
            "nx" => {
                let v = match &mut self.d {
                    Dev::Os(o) => o.next(),
                    Dev::Ot(o) => o.next(),
                    _ => panic!("HARNESS nx"),
                };
                let r = self.step() as f64 / 4294967296.0;
                let t = if self.exact { 1e-9 } else { 1e-3 };
                if r > t && r < 1.0 - t {
                    self.check(r, v, t);
                }
                let k = if self.wave == "table" { 12 } else { 24 };
                ev.ok().val("v", v, k);
            }
            "rdn" => {
                let n = us(a[0]);
                let (mut first, mut last, mut d, mut ex) = (0u32, 0u32, 0u32, 0i64);
                for i in 0..n {
                    if i % 1_000_000 == 0 {
                        arm(30);
                    }
                    let w = match &mut self.d {
                        Dev::Pa(p) => p.next_value(),
                        _ => panic!("HARNESS rdn"),
                    };
                    if i == 0 {
                        first = w;
                    } else if i == 1 {
                        d = w.wrapping_sub(last);
                    } else if w.wrapping_sub(last) != d {
                        ex += 1;
                    }
                    last = w;
                }
                let s = (self.f * 4294967296.0 / self.sr) as u32;
                self.cnt = self.cnt.wrapping_add(s.wrapping_mul(n as u32));
                self.sus |= ex != 0 || (self.exact && last != self.cnt.wrapping_add(self.sh));
                ev.ok().int("n", n as i64).word("v", first).word("w", last).word("d", d).int("ex", ex);
            }
            "nmn" | "nxn" => {
                let n = us(a[0]);
                let (mut last, mut ex) = (0f32, 0i64);
                for i in 0..n {
                    if i % 1_000_000 == 0 {
                        arm(30);
                    }
                    last = match &mut self.d {
                        Dev::Pa(p) => p.next_value_normalized(),
                        Dev::Os(o) => o.next(),
                        Dev::Ot(o) => o.next(),
                        _ => panic!("HARNESS nmn"),
                    };
                    ex += !(last >= 0.0 && last < 1.0) as i64;
                }
                let s = (self.f * 4294967296.0 / self.sr) as u32;
                self.cnt = self.cnt.wrapping_add(s.wrapping_mul(n as u32));
                let r = self.cnt.wrapping_add(self.sh) as f64 / 4294967296.0;
                if op == "nmn" {
                    self.sus |= ex != 0 || (self.exact && (last as f64 - r).abs() > 6e-8);
                } else if r > 1e-6 && r < 1.0 - 1e-6 {
                    self.check(r, last, 1e-9);
                }
                let k = if op == "nmn" || self.wave != "table" { 24 } else { 12 };
                ev.ok().int("n", n as i64).int("ex", ex).val("v", last, k);
            }
            "nxs" => {
                let p = int(a[0]);
                self.p.set((p as f64 / 16777216.0) as f32);
                self.calls.set(0);
                let v = match &mut self.d {
                    Dev::Ss(o) => o.next(),
                    Dev::St(o) => o.next(),
                    _ => panic!("HARNESS nxs"),
                };
                let k = if self.wave == "table" { 12 } else { 24 };
                self.check(p as f64 / 16777216.0, v, 0.0);
                if self.calls.get() != 1 {
                    self.sus = true;
                }
                ev.ok().int("p", p).int("c", self.calls.get()).val("v", v, k);
            }
            "gs" => {
                let mut o = FunctionalOscillator::new(Own { s: self.own.clone() });
                o.set_wave(wave(a[0]));
                self.d = Dev::Gs(o);
                self.wave = a[0].to_string();
                ev.ok().str("w", a[0]);
                self.own.log(ev);
            }
            "gt" => {
                let t = self.table(a, ev);
                self.d = Dev::Gt(WavetableOscillator::new(from_slice(t), Own { s: self.own.clone() }));
                self.wave = "table".to_string();
                ev.ok();
                self.own.log(ev);
            }
            "gf" | "gr" => {
                let x = bits(a[0]);
                match (&mut self.d, op) {
                    (Dev::Gs(o), "gf") => o.set_freq_unchecked(x),
                    (Dev::Gt(o), "gf") => o.set_freq_unchecked(x),
                    (Dev::Gs(o), _) => o.set_sr_unchecked(x),
                    (Dev::Gt(o), _) => o.set_sr_unchecked(x),
                    _ => panic!("HARNESS gf"),
                }
                let got = if op == "gf" { self.own.f.get() } else { self.own.r.get() };
                self.sus |= got.map(|y| y.to_bits()) != Some(x.to_bits());
                ev.ok().str(if op == "gf" { "f" } else { "r" }, &format!("{:08x}", x.to_bits()));
                self.own.log(ev);
            }
            "gh" => {
                let m = int(a[0]);
                let x = m as f32 / 16777216.0;
                match &mut self.d {
                    Dev::Gs(o) => o.set_phase_shift_unchecked(x),
                    Dev::Gt(o) => o.set_phase_shift_unchecked(x),
                    _ => panic!("HARNESS gh"),
                }
                self.sus |= (self.own.sh.get().wrapping_sub((m << 8) as u32) as i32).abs() > 256;
                ev.ok().int("x", m);
                self.own.log(ev);
            }
            "gw" => {
                match &mut self.d {
                    Dev::Gs(o) => o.set_wave(wave(a[0])),
                    _ => panic!("HARNESS gw"),
                }
                self.wave = a[0].to_string();
                ev.ok().str("w", a[0]);
                self.own.log(ev);
            }
            "gx" => {
                self.own.f.set(None);
                self.own.r.set(None);
                self.own.sh.set(int(a[0]) as u32);
                ev.ok();
                self.own.log(ev);
            }
            "gn" => {
                let (p, q) = (bits(a[0]), bits(a[1]));
                self.own.now.set(p);
                self.own.later.set(q);
                let before = self.own.reads.get();
                let v = match &mut self.d {
                    Dev::Gs(o) => o.next(),
                    Dev::Gt(o) => o.next(),
                    _ => panic!("HARNESS gn"),
                };
                let k = if self.wave == "table" { 12 } else { 24 };
                self.check(p as f64, v, 0.0);
                self.sus |= self.own.reads.get() != before + 1;
                ev.ok().int("p", (p as f64 * 16777216.0) as i64).val("v", v, k);
                self.own.log(ev);
            }
            "guard" => {
                let g = self.arena.as_ref().map(|a| {
                    let same = (0..a.n).all(|i| a.get(i) as f64 == self.cells[i]);
                    a.guards_ok() && same
                });
                ev.ok().int("g", g.unwrap_or(true) as i64);
            }
            _ => panic!("HARNESS unknown op {}", op),
        }
    }
}

fn b(x: f32) -> i64 {
    x.to_bits() as i32 as i64
}
fn pow2rate(r: &mut Rng) -> f32 {
    2f32.powi(r.range(8, 18) as i32)
}
fn anyrate(r: &mut Rng) -> f32 {
    match r.below(6) {
        0..=2 => pow2rate(r),
        3 => r.pick(&[44100.0, 48000.0, 96000.0, 192000.0, 22050.0, 8000.0, 1.0]),
        4 => r.range(1, 400000) as f32,
        _ => (r.f01() * 20.0 - 5.0).exp2() as f32,
    }
}
fn freq(r: &mut Rng, sr: f32) -> f32 {
    match r.below(14) {
        0 => 0.0,
        1 => -1.0 * r.f01() as f32 * sr,
        2 => sr * r.pick(&[0.25, 0.5, 1.0, 1.5, 2.0, 0.75, 0.125, 0.99999, 1e6, 3.4e30]),
        3 => sr * r.range(1, 255) as f32 / 256.0,
        4 => sr * (1.0 - r.range(1, 40) as f32 / 16777216.0),
        5 => r.pick(&[440.0, 1000.0, 261.63, 0.1, 20000.0]),
        6 => sr / 4294967296.0 * r.range(0, 40) as f32 / 8.0,
        7 => r.pick(&[f32::MAX, f32::MIN, 1e-45, 1e-38, -0.0, 3e38, 4294967296.0]),
        8 => sr * 0.5 * (1.0 - r.range(-5, 5) as f32 / 8388608.0),
        9 => f32::from_bits((r.next() as u32) & 0x7f7f_ffff),
        _ => (r.f01() as f32) * sr * 0.5,
    }
}
pub fn c18(run: &mut Run) {
    long_runs(run, 18);
    let (total, kept) = if run.thorough { (200000, 15000) } else { (20000, 2500) };
    for i in 0..total {
        let mut h = run.begin(Box::new(Osc::new()));
        let r = &mut h.run.rng;
        let mut sr = anyrate(r);
        let l = format!("pa {} {}", b(freq(r, sr)), b(sr));
        h.op(&l);
        let mut fresh = true;
        let len = h.run.rng.range(4, 60);
        let busy = h.run.rng.pick(&[1, 3, 6]);
        for _ in 0..len {
            if h.ended {
                break;
            }
            let r = &mut h.run.rng;
            let line = if r.below(20) < busy {
                match r.below(5) {
                    0 | 1 => {
                        fresh = true;
                        format!("f {}", b(freq(r, sr)))
                    }
                    2 => {
                        fresh = true;
                        sr = anyrate(r);
                        format!("sr {}", b(sr))
                    }
                    _ => format!("sh {}", if r.chance(1, 3) { r.pick(&[0u32, 1, 0x8000_0000, 0xffff_ffff, 0x7fff_ffff]) } else { r.next() as u32 }),
                }
            } else if fresh && r.chance(9, 10) || r.chance(1, 2) {
                fresh = false;
                "rd".to_string()
            } else {
                "nm".to_string()
            };
            h.op(&line);
        }
        h.op("rd");
        h.op("rd");
        h.op("nm");
        h.op("rd");
        h.end(i < kept);
    }
}
pub fn c21(run: &mut Run) {
    let (total, kept) = if run.thorough { (200000, 15000) } else { (20000, 2500) };
    for i in 0..total {
        let mut h = run.begin(Box::new(Osc::new()));
        let r = &mut h.run.rng;
        let mut sr = anyrate(r);
        let l = format!("pa {} {}", b(freq(r, sr)), b(sr));
        h.op(&l);
        for _ in 0..h.run.rng.range(2, 10) {
            let r = &mut h.run.rng;
            if r.chance(1, 5) {
                sr = anyrate(r);
                let l = format!("sr {}", b(sr));
                h.op(&l);
            }
            let r = &mut h.run.rng;
            if r.chance(1, 6) {
                let l = format!("f {}", b(freq(r, sr)));
                h.op(&l);
                h.op("rd");
            }
            let r = &mut h.run.rng;
            if r.chance(1, 6) {
                let l = format!("sh {}", r.next() as u32);
                h.op(&l);
            }
            let r = &mut h.run.rng;
            let l = format!("cf {}", b(freq(r, sr)));
            h.op(&l);
            h.op("rd");
            h.op("rd");
            if h.run.rng.chance(1, 2) {
                h.op("nm");
            }
        }
        h.end(i < kept);
    }
}
fn lap(r: &mut Rng) -> i64 {
    match r.below(8) {
        0 | 1 => r.range(250, 300),
        2 | 3 => r.range(65530, 70000),
        4 => r.range(300, 60000),
        5 => r.range(1, 8) * 65536 + r.range(-1, 1),
        6 => 16_777_216 + r.range(-3, 3),
        _ => r.range(100_000, 3_000_000),
    }
}
/// long runs: what is read after very many readings
fn long_runs(run: &mut Run, what: u32) {
    let total = if run.thorough { 300 } else { 25 };
    for i in 0..total {
        let mut h = run.begin(Box::new(Osc::new()));
        let r = &mut h.run.rng;
        let sr = if what == 18 && r.chance(1, 2) { anyrate(r) } else { pow2rate(r) };
        let f = match r.below(4) {
            0 => 0.25 * sr,
            1 => sr / 4294967296.0 * r.range(1, 40) as f32,
            2 => 440.0,
            _ => r.f01() as f32 * 0.5 * sr,
        };
        let n = r.pick(&[1i64, 2, 7, 100, 1000]);
        let line = match what {
            18 => format!("pa {} {}", b(f), b(sr)),
            19 => format!("os {} {} {}", r.pick(&WAVES), b(f), b(sr)),
            _ => format!("ot {} {} {} {} {} {}", n, r.range(1, 300), r.range(0, 200), r.range(2, 200), b(f), b(sr)),
        };
        h.op(&line);
        for _ in 0..h.run.rng.range(2, 5) {
            let r = &mut h.run.rng;
            match r.below(4) {
                0 if what == 18 => {
                    let l = format!("sh {}", r.next() as u32);
                    h.op(&l);
                }
                0 => {
                    let l = format!("osh {}", r.pick(&[0, 1, 32768, 16384, 49152, 65535, 12345]));
                    h.op(&l);
                }
                1 => {
                    let l = format!("f {}", b(r.f01() as f32 * 0.5 * sr));
                    h.op(&l);
                }
                _ => (),
            }
            let k = lap(&mut h.run.rng);
            if what == 18 {
                h.op("rd");
                let l = format!("{} {}", if h.run.rng.chance(2, 3) { "rdn" } else { "nmn" }, k);
                h.op(&l);
                h.op("rd");
                h.op("nm");
            } else {
                h.op("nx");
                h.op(&format!("nxn {}", k));
                h.op("nx");
            }
        }
        if what == 20 {
            h.op("guard");
        }
        h.end(i < total);
    }
}
const WAVES: [&str; 4] = ["sine", "rect", "saw", "tri"];
fn scripted_phase(r: &mut Rng, n: i64) -> i64 {
    let top = 16777216;
    match r.below(8) {
        0 => r.range(0, 3),
        1 => top - r.range(1, 40),
        2 => r.pick(&[top / 2, top / 4, 3 * top / 4]) + r.range(-2, 2),
        // last cell of a table
        3 => top - 1 - r.range(0, top - 1) / n.max(1),
        // near a cell boundary
        4 => ((r.range(0, n.max(1) - 1) as f64) * top as f64 / n as f64).round() as i64,
        _ => r.range(0, top - 1),
    }
    .clamp(0, top - 1)
}
pub fn c19(run: &mut Run) {
    long_runs(run, 19);
    let (total, kept) = if run.thorough { (100000, 12000) } else { (12000, 2000) };
    for i in 0..total {
        let mut h = run.begin(Box::new(Osc::new()));
        let r = &mut h.run.rng;
        if r.chance(1, 3) {
            let l = format!("ss {}", r.pick(&WAVES));
            h.op(&l);
            for _ in 0..50 {
                let r = &mut h.run.rng;
                let l = if r.chance(1, 8) { format!("w {}", r.pick(&WAVES)) } else { format!("nxs {}", scripted_phase(r, 4)) };
                h.op(&l);
            }
        } else {
            let pow2 = !r.chance(1, 4);
            let mut sr = if pow2 { pow2rate(r) } else { 48000.0 };
            let l = format!("os {} {} {}", r.pick(&WAVES), b(freq(r, sr)), b(sr));
            h.op(&l);
            let busy = h.run.rng.pick(&[1, 3, 6]);
            for _ in 0..50 {
                let r = &mut h.run.rng;
                let l = if r.below(20) < busy {
                    match r.below(6) {
                        0 | 1 => format!("f {}", b(freq(r, sr))),
                        2 => {
                            sr = if pow2 { pow2rate(r) } else { 44100.0 };
                            format!("sr {}", b(sr))
                        }
                        3 => format!("osh {}", r.pick(&[0, 1, 65536, 32768, 16384, 49152, 65535, 12345])),
                        _ => format!("w {}", r.pick(&WAVES)),
                    }
                } else {
                    "nx".to_string()
                };
                h.op(&l);
            }
        }
        h.end(i < kept);
    }
}
pub fn c20(run: &mut Run) {
    long_runs(run, 20);
    let (total, kept) = if run.thorough { (100000, 12000) } else { (12000, 2000) };
    for i in 0..total {
        let mut h = run.begin(Box::new(Osc::new()));
        let r = &mut h.run.rng;
        let n = match if i % 40 == 7 { 9 } else { r.below(6) } {
            // longer than 16 bits count
            9 => r.pick(&[32768, 40000, 65535, 65536, 65537, 70000, 131072, 262145]),
            0 => 1,
            1 => 2,
            2 => r.range(3, 9),
            3 => r.range(10, 100),
            4 => r.pick(&[64, 256, 1024, 2048, 4096]),
            _ => r.range(100, 3000),
        };
        let t = if n > 30000 {
            format!("{} {} {} {}", n, r.range(1, 50), r.range(0, 50), r.range(2, 32))
        } else {
            format!("{} {} {} {}", n, r.range(1, 300), r.range(0, 200), r.range(2, 200))
        };
        if r.chance(1, 2) {
            h.op(&format!("st {}", t));
            for _ in 0..40 {
                let l = format!("nxs {}", scripted_phase(&mut h.run.rng, n));
                h.op(&l);
            }
        } else {
            let pow2 = !r.chance(1, 4);
            let mut sr = if pow2 { pow2rate(r) } else { 48000.0 };
            let l = format!("ot {} {} {}", t, b(freq(r, sr)), b(sr));
            h.op(&l);
            let busy = h.run.rng.pick(&[1, 3, 6]);
            for _ in 0..40 {
                let r = &mut h.run.rng;
                let l = if r.below(20) < busy {
                    match r.below(4) {
                        0 | 1 => format!("f {}", b(freq(r, sr))),
                        2 => {
                            sr = if pow2 { pow2rate(r) } else { 44100.0 };
                            format!("sr {}", b(sr))
                        }
                        _ => format!("osh {}", r.pick(&[0, 1, 65536, 32768, 16384, 49152, 65535, 12345])),
                    }
                } else {
                    "nx".to_string()
                };
                h.op(&l);
            }
        }
        h.op("guard");
        h.end(i < kept);
    }
}

fn any_phase(r: &mut Rng, n: i64) -> f32 {
    match r.below(10) {
        // far finer than the counter
        0 => r.pick(&[1e-10, 1e-20, 1e-38, 1e-45, 2.3e-10, 3e-8]),
        1 => 1.0 - r.range(1, 4) as f32 / 16777216.0,
        2 => 0.0,
        _ => scripted_phase(r, n) as f32 / 16777216.0,
    }
}
/// C38: oscillators over an accumulator of the user's own
pub fn c38(run: &mut Run) {
    let (total, kept) = if run.thorough { (100000, 12000) } else { (15000, 2000) };
    for i in 0..total {
        let mut h = run.begin(Box::new(Osc::new()));
        let r = &mut h.run.rng;
        let table = r.chance(1, 3);
        let n = r.pick(&[1i64, 2, 3, 7, 64, 100, 1000]);
        let l = if table {
            format!("gt {} {} {} {}", n, r.range(1, 300), r.range(0, 200), r.range(2, 200))
        } else {
            format!("gs {}", r.pick(&WAVES))
        };
        h.op(&l);
        let busy = h.run.rng.pick(&[1, 4, 10]);
        // readings may go up, down, stand still or jump
        let style = h.run.rng.below(4);
        let mut p = any_phase(&mut h.run.rng, n);
        let mut last = h.run.rng.next() as u32;
        for _ in 0..45 {
            if h.ended {
                break;
            }
            let r = &mut h.run.rng;
            let l = if r.chance(1, 40) {
                l.clone()
            } else if r.below(20) < busy {
                let x = if r.chance(1, 3) {
                    last
                } else {
                    r.pick(&[0u32, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 1, 0x43dc_0000, 0xc3dc_0000, 0x473b_8000])
                };
                let x = if r.chance(1, 4) { r.next() as u32 & 0xbfff_ffff } else { x };
                match r.below(6) {
                    0 | 1 => {
                        last = x;
                        format!("{} {}", r.pick(&["gf", "gr"]), x as i32)
                    }
                    2 => format!("gh {}", r.pick(&[0, 16777216, 8388608, 4194304, 1, 255, 16777215, 12582912])),
                    3 => format!("gh {}", r.range(0, 16777216)),
                    4 => format!("gx {}", r.next() as u32 as i32),
                    _ if table => format!("{} {}", r.pick(&["gf", "gr"]), last as i32),
                    _ => format!("gw {}", r.pick(&WAVES)),
                }
            } else {
                p = match style {
                    0 => p,
                    1 => {
                        let d = p - 0.0137;
                        if d < 0.0 {
                            0.98
                        } else {
                            d
                        }
                    }
                    _ => any_phase(r, n),
                };
                let q = any_phase(r, n);
                format!("gn {} {}", b(p), b(q))
            };
            h.op(&l);
        }
        if table {
            h.op("guard");
        }
        h.end(i < kept);
    }
}
