//! ADSR envelope (C14-C17).
use crate::core::*;
use embedded_audio_tools::envelopes::{AudioRateADSR, EnvelopeState};

pub struct Adsr {
    e: AudioRateADSR,
    // reference for selection only
    last: f32,
    lev: f32,
    sus: f32,
    sus_flag: bool,
    fresh: bool,
    slope: f64,
    t: f64,
    known: bool,
    inc: [f64; 3],
    sr: f64,
}
fn stage(s: EnvelopeState) -> &'static str {
    match s {
        EnvelopeState::Idle => "idle",
        EnvelopeState::Attack => "attack",
        EnvelopeState::Decay => "decay",
        EnvelopeState::Sustain => "sustain",
        EnvelopeState::Release => "release",
    }
}
fn secs(m: i64) -> f32 {
    m as f32 / 65536.0
}
/// the next outputs of both agree
fn alike(a: std::mem::ManuallyDrop<AudioRateADSR>, b: std::mem::ManuallyDrop<AudioRateADSR>) -> bool {
    let (mut a, mut b) = (a, b);
    (0..40).all(|_| a.tick().to_bits() == b.tick().to_bits() && a.get_state() == b.get_state())
}
impl Adsr {
    pub fn new() -> Adsr {
        Adsr {
            e: AudioRateADSR::new(0.1, 0.1, 0.5, 0.1, 1.0, 1000.0),
            last: 0.0,
            lev: 0.0,
            sus: 0.5,
            sus_flag: false,
            fresh: false,
            slope: 1.0,
            t: 0.0,
            known: true,
            inc: [0.0; 3],
            sr: 1000.0,
        }
    }
    /// a copy, bit by bit
    fn twin(&self) -> std::mem::ManuallyDrop<AudioRateADSR> {
        std::mem::ManuallyDrop::new(unsafe { std::ptr::read(&self.e) })
    }
    fn inc_of(&self, m: i64) -> f64 {
        let n = (m as f64 / 65536.0 * self.sr).min(2.0 * self.sr);
        1.0 / n.max(1.0)
    }
}
impl Dom for Adsr {
    fn suspect(&self) -> bool {
        self.sus_flag
    }
    fn exec(&mut self, op: &str, a: &[&str], ev: &mut Ev) {
        match op {
            "new" => {
                // ma md sus-bits mr sl-num sl-den sr
                let u = f32::from_bits(int(a[2]) as i32 as u32);
                let (ma, md, mr) = (int(a[0]), int(a[1]), int(a[3]));
                let (n, d) = (int(a[4]), int(a[5]));
                let sr = int(a[6]);
                self.e = AudioRateADSR::new(secs(ma), secs(md), u, secs(mr), n as f32 / d as f32, sr as f32);
                self.sr = sr as f64;
                self.inc = [self.inc_of(ma), self.inc_of(md), self.inc_of(mr)];
                self.sus = u.clamp(0.0, 1.0);
                self.slope = n as f64 / d as f64;
                self.last = 0.0;
                ev.ok().int("a", ma).int("d", md).val("u", u, 24).int("r", mr).ints("sl", &[n, d]).int("sr", sr);
            }
            "a" | "d" | "r" => {
                let m = int(a[0]);
                match op {
                    "a" => self.e.set_attack(secs(m)),
                    "d" => self.e.set_decay(secs(m)),
                    _ => self.e.set_release(secs(m)),
                }
                self.inc[if op == "a" { 0 } else if op == "d" { 1 } else { 2 }] = self.inc_of(m);
                ev.ok().int("m", m);
            }
            "u" => {
                let u = f32::from_bits(int(a[0]) as i32 as u32);
                self.e.set_sustain(u);
                self.sus = u.clamp(0.0, 1.0);
                ev.ok().val("u", u, 24);
            }
            "sl" => {
                let (n, d) = (int(a[0]), int(a[1]));
                self.e.set_slope(n as f32 / d as f32);
                self.slope = (n as f64 / d as f64).clamp(0.05, 20.0);
                ev.ok().ints("sl", &[n, d]);
            }
            "sr" => {
                self.e.set_sr(int(a[0]) as f32);
                self.sr = int(a[0]) as f64;
                ev.ok().int("sr", int(a[0]));
            }
            "on" => {
                let s0 = self.e.get_state();
                self.e.trigger_on();
                self.known = s0 == EnvelopeState::Idle || s0 == EnvelopeState::Attack;
                self.t = 0.0;
                if self.e.get_state() != EnvelopeState::Attack {
                    self.sus_flag = true;
                }
                ev.ok();
            }
            "off" => {
                let s0 = self.e.get_state();
                let without = self.twin();
                self.e.trigger_off();
                let s1 = self.e.get_state();
                let same = alike(without, self.twin());
                if (s0 == EnvelopeState::Idle || s0 == EnvelopeState::Release) && !same {
                    self.sus_flag = true;
                }
                ev.int("same", same as i64);
                if s1 == EnvelopeState::Release && s0 != s1 {
                    self.lev = self.last;
                    self.t = 0.0;
                    self.known = true;
                    self.fresh = true;
                }
                ev.ok();
            }
            "rst" => {
                self.e.reset();
                self.last = 0.0;
                if self.e.get_state() != EnvelopeState::Idle {
                    self.sus_flag = true;
                }
                ev.ok();
            }
            "tk" => {
                let mut want = int(a[0]);
                let s0 = self.e.get_state();
                if s0 == EnvelopeState::Idle || s0 == EnvelopeState::Sustain {
                    want = if want == 400_000 { 3000 } else { want };
                }
                let (mut first, mut last) = (0f32, 0f32);
                let (mut mx, mut mn) = (f32::NEG_INFINITY, f32::INFINITY);
                let (mut up, mut dn) = (0f32, 0f32);
                let mut n = 0;
                let inc = match s0 {
                    EnvelopeState::Attack => self.inc[0],
                    EnvelopeState::Decay => self.inc[1],
                    EnvelopeState::Release => self.inc[2],
                    _ => 0.0,
                };
                while n < want {
                    if n % 100_000 == 0 {
                        arm(30);
                    }
                    let v = self.e.tick();
                    if n == 0 {
                        first = v;
                    } else {
                        // NaN shows up in the extremes
                        if !(last <= mx) {
                            mx = last;
                        }
                        if !(last >= mn) {
                            mn = last;
                        }
                        if !(v - last <= up) {
                            up = v - last;
                        }
                        if !(last - v <= dn) {
                            dn = last - v;
                        }
                    }
                    last = v;
                    n += 1;
                    self.t += inc;
                    if self.e.get_state() != s0 {
                        break;
                    }
                }
                let s1 = self.e.get_state();
                if n == 1 {
                    mx = last;
                    mn = last;
                }
                // selection
                let p = self.t.min(1.0);
                let bad = !(last >= 0.0 && last <= 1.0) || match s0 {
                    EnvelopeState::Idle => last != 0.0 || s1 != s0,
                    EnvelopeState::Sustain => last != self.sus || s1 != s0,
                    EnvelopeState::Attack => {
                        dn > 1e-3 || (s1 == s0) != (last < 1.0) || self.t > 1.02 + 3.0 * inc
                            || (self.known && s1 == s0 && {
                                let (lo, hi) = ((p * 8.0 / 9.0).powf(1.0 / self.slope), p.powf(1.0 / self.slope));
                                (last as f64) < lo - 0.015 || last as f64 > hi + 0.015
                            })
                            || (self.known && s1 != s0 && self.t < 0.98 - 3.0 * inc)
                    }
                    EnvelopeState::Decay => {
                        up > 1e-3 || last < self.sus || (s1 == s0) != (last > self.sus) || self.t > 1.02 + 3.0 * inc
                    }
                    EnvelopeState::Release => {
                        up > 1e-3 || last > self.lev || first > self.lev || self.t > 1.02 + 3.0 * inc
                            || (self.fresh && first as f64 > 0.0
                                && (first as f64) < self.lev as f64 * (0.97 - (self.inc[2]).powf(self.slope)))
                    }
                };
                if bad {
                    self.sus_flag = true;
                }
                if s1 != s0 {
                    self.t = 0.0;
                    self.known = true;
                }
                self.fresh = false;
                self.last = last;
                ev.ok().int("n", n).val("f", first, 24).val("v", last, 24).val("up", up, 24).val("dn", dn, 24);
                ev.val("mx", mx, 24).val("mn", mn, 24);
            }
            _ => panic!("HARNESS unknown op {}", op),
        }
        ev.str("s", stage(self.e.get_state()));
    }
}

const SLOPES: [(i64, i64); 14] = [
    (1, 20), (1, 8), (1, 4), (1, 3), (1, 2), (2, 3), (1, 1), (3, 2), (2, 1), (3, 1), (4, 1), (8, 1), (20, 1), (1, 1),
];
const RATES: [i64; 7] = [1000, 8000, 44100, 48000, 96000, 192000, 22050];
fn time(r: &mut Rng, sr: i64, long: bool) -> i64 {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2..=5 => r.range(1, 60) * 65536 / sr + r.range(0, 2),
        6 | 7 => r.range(50, 600) * 65536 / sr,
        8 => r.range(0, 3000),
        _ => {
            if long {
                r.range(0, 4 * 65536)
            } else {
                r.range(0, 9000)
            }
        }
    }
}
fn sus(r: &mut Rng) -> i64 {
    let v: f32 = match r.below(16) {
        0 => 0.0,
        1 => 1.0,
        2 => -0.5,
        3 => 7.0,
        4 => f32::INFINITY,
        5 => f32::NEG_INFINITY,
        6 => 1e30,
        7 => -0.001,
        8 => r.f01() as f32 * 0.01,
        9 => 1.0 - r.f01() as f32 * 0.05,
        10 => r.f01() as f32,
        _ => r.range(0, 64) as f32 / 64.0,
    };
    v.to_bits() as i32 as i64
}
fn slope(r: &mut Rng, wide: bool) -> (i64, i64) {
    if wide && r.chance(1, 8) {
        return r.pick(&[(50, 1), (1, 50), (21, 1), (1, 21), (0, 1), (-1, 2), (-3, 1), (-20, 1), (-1, 50)]);
    }
    r.pick(&SLOPES)
}
fn chunk(r: &mut Rng) -> i64 {
    match r.below(8) {
        0..=2 => 1,
        3 | 4 => r.range(2, 12),
        5 => r.range(10, 200),
        6 => r.range(100, 3000),
        _ => 400_000,
    }
}
/// a stage held for very long
fn hold(r: &mut Rng) -> i64 {
    r.pick(&[256, 257, 65535, 65536, 65537, 70_000, 131_073, 1_000_000, 16_777_217])
}

/// Into the middle of a stage, a parameter or two moved there, a gate before
/// the next tick.
fn midstage(h: &mut Hist, sr: i64) {
    let r = &mut h.run.rng;
    let tm = |r: &mut Rng| r.range(20, 400) * 65536 / sr + 1;
    let to = r.below(4);
    let mut ls = vec![
        "rst".to_string(),
        format!("a {}", tm(r)),
        format!("d {}", tm(r)),
        format!("r {}", tm(r)),
        format!("u {}", sus(r)),
        "on".to_string(),
    ];
    for _ in 0..to.min(2) {
        ls.push("tk 400000".to_string());
    }
    if to == 3 {
        ls.push("off".to_string());
    }
    ls.push(format!("tk {}", r.range(1, 30)));
    for _ in 0..r.range(1, 2) {
        ls.push(match r.below(7) {
            0 => format!("a {}", tm(r)),
            1 => format!("d {}", tm(r)),
            2 => format!("r {}", tm(r)),
            3 => {
                let (n, d) = slope(r, true);
                format!("sl {} {}", n, d)
            }
            _ => format!("u {}", sus(r)),
        });
    }
    ls.push(r.pick(&["off", "off", "off", "on"]).to_string());
    ls.push("tk 1".to_string());
    ls.push(format!("tk {}", chunk(r)));
    for l in ls {
        if h.ended {
            return;
        }
        h.op(&l);
    }
}

/// what: property number
pub fn run(run: &mut Run, what: u32) {
    let (total, kept) = if run.thorough { (30000, 12000) } else { (3000, 1500) };
    for i in 0..total {
        let mut h = run.begin(Box::new(Adsr::new()));
        let long = i % 40 == 0;
        let r = &mut h.run.rng;
        let mut sr = r.pick(&RATES);
        let (n, d) = slope(r, false);
        let l = format!("new {} {} {} {} {} {} {}", time(r, sr, long), time(r, sr, long), sus(r), time(r, sr, long), n, d, sr);
        h.op(&l);
        if h.run.rng.chance(1, 10) {
            h.op("tk 3");
        }
        let len = h.run.rng.range(6, 40);
        // how often parameters and gates move in this history
        let pset = match what {
            16 => h.run.rng.pick(&[0, 1, 3, 5]),
            15 => h.run.rng.pick(&[0, 0, 2, 4]),
            _ => h.run.rng.pick(&[0, 2, 4, 6]),
        };
        let hold_on = i % 20 == 3;
        let pgate = h.run.rng.pick(&[2, 3, 5]);
        h.op("on");
        for _ in 0..len {
            if h.ended {
                break;
            }
            if h.run.rng.chance(1, 24) {
                midstage(&mut h, sr);
                continue;
            }
            let r = &mut h.run.rng;
            let x = r.below(20) as i64;
            let line = if x < pset {
                match r.below(7) {
                    0 => format!("a {}", time(r, sr, long)),
                    1 => format!("d {}", time(r, sr, long)),
                    2 => format!("r {}", time(r, sr, long)),
                    3 | 4 => format!("u {}", sus(r)),
                    5 => {
                        let (n, d) = slope(r, true);
                        format!("sl {} {}", n, d)
                    }
                    _ => {
                        sr = r.pick(&RATES);
                        format!("sr {}", sr)
                    }
                }
            } else if x < pset + pgate {
                match r.below(8) {
                    0 => "rst".to_string(),
                    1..=4 => "off".to_string(),
                    _ => "on".to_string(),
                }
            } else {
                format!("tk {}", if hold_on && r.chance(1, 4) { hold(r) } else { chunk(r) })
            };
            h.op(&line);
        }
        // play the note out
        h.op("tk 400000");
        h.op("off");
        h.op("tk 1");
        h.op("tk 400000");
        h.op("tk 5");
        h.end(i < kept);
    }
}
