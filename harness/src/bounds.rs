//! Calls with hostile arguments (C40).  Sample memory lies between two wide
//! inaccessible ranges; the slice under test touches one of them.
use crate::core::*;
use embedded_audio_tools::float::{lagrange, AdditionalF32Ext};
use embedded_audio_tools::errors::MemSliceError;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::*;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

const FENCE: usize = 64 << 20;
const PAGE: usize = 4096;
const POISON: u32 = 0x7fc5_1234;

/// Cells that begin (side 0) or end (side 1) at an inaccessible range.
struct Fenced {
    map: *mut u8,
    len: usize,
    body: *mut f32,
    words: usize,
    base: *mut f32,
    n: usize,
}
impl Fenced {
    fn new(n: usize, side: usize) -> Fenced {
        let body = (4 * (n + 64)).div_ceil(PAGE) * PAGE;
        let len = body + 2 * FENCE;
        unsafe {
            // PROT_NONE; MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
            let map = mmap(core::ptr::null_mut(), len, 0, 0x4022, -1, 0);
            if map as isize == -1 || mprotect(map.add(FENCE), body, 3) != 0 {
                panic!("HARNESS mmap");
            }
            let first = map.add(FENCE) as *mut f32;
            let words = body / 4;
            for i in 0..words {
                first.add(i).write_volatile(f32::from_bits(POISON));
            }
            let base = if side == 0 { first } else { first.add(words - n) };
            Fenced { map, len, body: first, words, base, n }
        }
    }
    fn bits(&self) -> Vec<i64> {
        (0..self.n).map(|i| unsafe { self.base.add(i).read_volatile() }.to_bits() as i32 as i64).collect()
    }
    fn slice(&self, b: usize, n: usize) -> &'static mut [f32] {
        if b + n > self.n {
            panic!("HARNESS slice outside");
        }
        unsafe { std::slice::from_raw_parts_mut(self.base.add(b), n) }
    }
    fn poison_ok(&self) -> bool {
        (0..self.words).all(|i| unsafe {
            let p = self.body.add(i);
            let inside = p >= self.base && p < self.base.add(self.n);
            inside || p.read_volatile().to_bits() == POISON
        })
    }
}
impl Drop for Fenced {
    fn drop(&mut self) {
        unsafe {
            munmap(self.map, self.len);
        }
    }
}

/// An accumulator that plays whatever phase it was last given.
struct Any(Rc<Cell<f32>>);
impl oscillator::PhaseAccumulator for Any {
    type Object = Any;
    fn new(_f: f32, _sr: f32) -> Any {
        Any(Default::default())
    }
    fn set_sr_unchecked(&mut self, _sr: f32) {}
    fn set_freq_unchecked(&mut self, _f: f32) {}
    fn set_phase_shift(&mut self, _s: u32) {}
    fn next_value(&mut self) -> u32 {
        self.0.get() as u32
    }
    fn next_value_normalized(&mut self) -> f32 {
        self.0.get()
    }
}

enum D {
    None,
    Dl(DelayLine),
    Comb(Comb),
    Ap(AllPass),
}

pub struct Bounds {
    mem: Option<Fenced>,
    s: MemorySlice<Mutable>,
    r: MemorySlice<NonMutable>,
    wt: Option<(oscillator::WavetableOscillator<Any>, Rc<Cell<f32>>)>,
    d: D,
}

fn fl(s: &str) -> f32 {
    f32::from_bits(int(s) as i32 as u32)
}
fn tok(v: f32) -> i64 {
    v.to_bits() as i32 as i64
}
fn ename(e: &MemSliceError) -> &'static str {
    match e {
        MemSliceError::IndexOutOfBound => "Index",
        MemSliceError::LengthOutOfBound => "Length",
    }
}

impl Bounds {
    pub fn new() -> Bounds {
        Bounds { mem: None, s: null_mut(), r: null(), wt: None, d: D::None }
    }
    fn view(&mut self, b: usize, n: usize) {
        let m = self.mem.as_ref().expect("HARNESS no memory");
        self.s = from_slice_mut(m.slice(b, n));
        self.r = from_slice(m.slice(b, n));
        let c: Rc<Cell<f32>> = Default::default();
        self.wt = Some((oscillator::WavetableOscillator::new(from_slice(m.slice(b, n)), Any(c.clone())), c));
    }
    /// A read at a hostile position: only where it goes and what it leaves
    /// behind counts.
    fn hostile(&mut self, a: &[&str]) -> &'static str {
        let p = fl(a[1]);
        let (s, r) = (&self.s, &self.r);
        let sink = std::hint::black_box::<f32>;
        match a[0] {
            "lerp" => {
                let (x, y) = (s.lerp(p), r.lerp(p));
                return match (x, y) {
                    (Ok(v), Ok(_)) => {
                        sink(v);
                        "ok"
                    }
                    (Err(_), Err(_)) => "err",
                    _ => "ok",
                };
            }
            "lerpw" => {
                sink(s.lerp_wrapped(p));
                sink(r.lerp_wrapped(p));
            }
            "lagw" => {
                sink(s.lagrange_wrapped(p, us(a[2])));
                sink(r.lagrange_wrapped(p, us(a[2])));
            }
            "lag4" => {
                sink(s.lagrange_four_points_wrapped(p));
                sink(r.lagrange_four_points_wrapped(p));
            }
            "lag" => {
                let z = s.as_slice();
                sink(lagrange(unsafe { &*z }, p));
            }
            "tlerp" | "tlag" => match &self.d {
                D::Dl(d) => {
                    sink(if a[0] == "tlerp" { d.read_lerp_wrapped_at(p) } else { d.read_lagrange_wrapped_at(p) });
                }
                _ => panic!("HARNESS no line"),
            },
            "wt" => {
                let (o, c) = self.wt.as_mut().unwrap();
                c.set(p);
                sink(o.next());
            }
            "ls" => {
                sink(p.lookup_sin());
            }
            "lr" => {
                sink(p.lookup_bl_rect());
            }
            o => panic!("HARNESS {}", o),
        }
        "ok"
    }
}

impl Dom for Bounds {
    fn exec(&mut self, op: &str, a: &[&str], ev: &mut Ev) {
        match op {
            "init" => {
                self.d = D::None;
                let n = a.len() - 1;
                let m = Fenced::new(n, us(a[0]));
                for i in 0..n {
                    unsafe { m.base.add(i).write_volatile(fl(a[i + 1])) };
                }
                ev.ok().ints("m", &m.bits());
                self.mem = Some(m);
            }
            "mk" => {
                let (b, n) = (us(a[1]), us(a[2]));
                self.view(b, n);
                let s = self.s;
                self.d = match a[0] {
                    "dl" => D::Dl(DelayLine::new(s)),
                    "comb" => D::Comb(Comb::new(s)),
                    _ => D::Ap(AllPass::new(s)),
                };
                ev.ok().str("kind", a[0]).int("b", b as i64).int("n", n as i64);
            }
            "swap" => {
                let (b, n) = (us(a[0]), us(a[1]));
                self.view(b, n);
                let s = self.s;
                match &mut self.d {
                    D::Dl(d) => d.change_buffer(s),
                    D::Comb(d) => d.change_buffer(s),
                    D::Ap(d) => d.change_buffer(s),
                    D::None => panic!("HARNESS swap"),
                }
                ev.ok().int("b", b as i64).int("n", n as i64);
            }
            "x" => {
                let k = catch_unwind(AssertUnwindSafe(|| self.hostile(a)));
                let k = match k {
                    Ok(k) => k,
                    Err(e) => {
                        if e.downcast_ref::<String>().is_some_and(|m| m.contains("HARNESS")) {
                            std::panic::resume_unwind(e);
                        }
                        "panic"
                    }
                };
                let w = if a[0] == "lagw" { us(a[2]) } else { 2 };
                ev.str("k", k).str("c", a[0]).int("p", tok(fl(a[1]))).int("w", clampu(w));
            }
            "get" => {
                let i = us(a[0]);
                ev.int("i", clampu(i));
                let (x, y) = (self.s.get(i), self.r.get(i));
                match if i % 2 == 0 { x } else { y } {
                    Ok(v) => ev.ok().int("v", tok(v)),
                    Err(e) => ev.err(ename(&e)),
                };
            }
            "set" => {
                let i = us(a[0]);
                let v = fl(a[1]);
                ev.int("i", clampu(i)).int("x", tok(v));
                match self.s.assign(i, v) {
                    Ok(()) => ev.ok().str("e", ""),
                    Err(e) => ev.err(ename(&e)),
                };
            }
            "sub" => {
                let (off, n) = (us(a[0]), us(a[1]));
                ev.int("off", clampu(off)).int("n", clampu(n));
                match self.s.get_sub_slice(off, n) {
                    Ok(mut c) => {
                        let z = c.as_slice_mut() as *mut f32;
                        let m = self.mem.as_ref().unwrap();
                        let sb = (z as isize).wrapping_sub(m.base as isize);
                        let sb = if sb % 4 == 0 { (sb / 4).clamp(-(1 << 30), 1 << 30) } else { -(1 << 30) };
                        ev.ok().str("e", "").int("sb", sb as i64).int("sn", clampu(c.len()));
                    }
                    Err(e) => {
                        ev.err(ename(&e)).int("sb", 0).int("sn", 0);
                    }
                }
            }
            "wr" | "wru" => {
                let i = int(a[0]);
                let v = if op == "wr" {
                    self.s.get_wrapped(i as isize)
                } else {
                    unsafe { self.r.get_wrapped_unchecked(i as isize) }
                };
                ev.s = ev.s.replace("wru", "wr");
                ev.ok().ints("i", &limbs(i)).int("v", tok(v));
            }
            "four" => {
                let i = int(a[0]);
                let v = self.s.get_slice_of_four_wrapped(i as isize);
                let t: Vec<i64> = v.iter().map(|x| tok(*x)).collect();
                ev.ok().ints("i", &limbs(i)).ints("vs", &t);
            }
            "tap" => {
                let i = int(a[0]);
                let D::Dl(d) = &self.d else { panic!("HARNESS tap") };
                ev.ok().ints("i", &limbs(i)).int("v", tok(d.read_wrapped_at(i as isize)));
            }
            "rd" => {
                let D::Dl(d) = &self.d else { panic!("HARNESS rd") };
                ev.ok().int("v", tok(d.read()));
            }
            "dw" => {
                let D::Dl(d) = &mut self.d else { panic!("HARNESS dw") };
                let v = fl(a[0]);
                d.write_and_advance(v);
                ev.ok().int("x", tok(v));
            }
            "adv" => {
                let D::Dl(d) = &mut self.d else { panic!("HARNESS adv") };
                d.advance();
                ev.ok();
            }
            "tick" => {
                let v = fl(a[0]);
                std::hint::black_box(match &mut self.d {
                    D::Comb(d) => d.tick(v),
                    D::Ap(d) => d.tick(v),
                    _ => panic!("HARNESS tick"),
                });
                ev.ok().ints("m", &self.mem.as_ref().unwrap().bits());
            }
            "fb" => {
                let D::Comb(d) = &mut self.d else { panic!("HARNESS fb") };
                if a[0] == "f" {
                    d.set_feedback(fl(a[1]));
                } else {
                    d.set_dampening(fl(a[1]));
                }
                ev.ok();
            }
            "snap" => {
                let m = self.mem.as_ref().unwrap();
                ev.ok().ints("m", &m.bits()).int("g", m.poison_ok() as i64);
            }
            o => panic!("HARNESS bad op {}", o),
        }
    }
}

const ODD: [u32; 28] = [
    0x7fc0_0000, 0xffc0_0000, 0x7f80_0000, 0xff80_0000, 0x7f7f_ffff, 0xff7f_ffff, 0x5f00_0000, 0x5eff_ffff, 0xdf00_0000,
    0xdf00_0001, 0x5f80_0000, 0xdf80_0000, 0x4f00_0000, 0x4eff_ffff, 0xcf00_0000, 0xcf00_0001, 0x4b80_0000, 0xcb80_0000, 1, 0x8000_0001, 0x8000_0000,
    0xbf80_0000, 0x3f7f_ffff, 0xb300_0000, 0x7f80_0001, 0x5e80_0000, 0xde80_0000, 0x4f80_0000,
];
fn odd(r: &mut Rng, n: i64) -> i64 {
    let w = match r.below(4) {
        0 => r.pick(&ODD),
        1 => {
            // beside a whole position around the ends
            let x = (r.range(-1, 1) * n + r.range(-3, 3)) as f32;
            let d = r.range(-1, 1) as i32;
            (x.to_bits() as i32).wrapping_add(d) as u32
        }
        2 => r.next() as u32,
        _ => 0x4a00_0000 + (r.next() as u32 & 0x35ff_ffff) | (r.below(2) as u32) << 31,
    };
    w as i32 as i64
}
fn far(r: &mut Rng, n: i64) -> i64 {
    match r.below(5) {
        0 => i64::MAX - r.below(12) as i64,
        1 => i64::MIN + r.below(12) as i64,
        2 => (r.next() as i64) >> r.below(63),
        3 => (1i64 << r.range(30, 62)) * r.pick(&[1i64, -1]) + r.range(-4, 4),
        _ => n * r.range(-3, 3) + r.range(-4, 4),
    }
}
fn large(r: &mut Rng, n: i64) -> u64 {
    match r.below(6) {
        0 => u64::MAX - r.below(12),
        1 => (1u64 << r.range(30, 63)) + r.below(8),
        2 => (1u64 << r.range(30, 63)) - r.below(8),
        3 => r.next() >> r.below(64),
        4 => u64::MAX - r.below(2 * n as u64),
        _ => (n + r.range(-3, 3)).max(0) as u64,
    }
}

pub fn c40(run: &mut Run) {
    let (total, kept) = if run.thorough { (60000, 30000) } else { (6000, 6000) };
    for k in 0..total {
        let mut h = run.begin(Box::new(Bounds::new()));
        let r = &mut h.run.rng;
        let side = r.below(2) as i64;
        let cells = match r.below(6) {
            0 => r.range(100, 140),
            1 => r.range(1, 3),
            _ => r.range(1, 20),
        };
        let plain = r.chance(1, 2);
        let mut s = format!("init {}", side);
        for i in 0..cells {
            let v = if plain { 1000 * (i + 1) } else { rnd_bits(r) };
            s.push_str(&format!(" {}", v));
        }
        let place = |r: &mut Rng| {
            let n = if r.chance(1, 2) { cells } else { r.range(1, cells) };
            (if side == 0 { 0 } else { cells - n }, n)
        };
        let kind = r.below(4);
        let (b, mut n) = place(r);
        h.op(&s);
        h.op(&format!("mk {} {} {}", ["dl", "dl", "comb", "ap"][kind as usize], b, n));
        for _ in 0..h.run.rng.range(10, 40) {
            let r = &mut h.run.rng;
            let c = r.below(20);
            let line = if c == 0 && r.chance(1, 2) {
                let (b, m) = place(r);
                n = m;
                format!("swap {} {}", b, m)
            } else if c < 6 && kind < 2 {
                match r.below(4) {
                    0 => "rd".to_string(),
                    1 => "adv".to_string(),
                    _ => format!("dw {}", odd(r, n)),
                }
            } else if c < 6 {
                if kind == 2 && r.chance(1, 4) {
                    format!("fb {} {}", r.pick(&["f", "d"]), odd(r, n))
                } else {
                    format!("tick {}", odd(r, n))
                }
            } else if c < 10 {
                let o = r.pick(&["wr", "wru", "four", "tap"]);
                let o = if o == "tap" && kind >= 2 { "four" } else { o };
                format!("{} {}", o, far(r, n))
            } else if c < 12 {
                match r.below(3) {
                    0 => format!("get {}", large(r, n)),
                    1 => format!("set {} {}", large(r, n), odd(r, n)),
                    _ => format!("sub {} {}", large(r, n), large(r, n)),
                }
            } else {
                let o = r.pick(&["lerp", "lerpw", "lagw", "lag4", "lag", "tlerp", "tlag", "wt", "ls", "lr"]);
                let o = if o.starts_with('t') && kind >= 2 { "lerpw" } else { o };
                let p = odd(r, n);
                if o == "lagw" {
                    let w = match r.below(5) {
                        0 | 1 => r.below(8),
                        2 => r.below(400),
                        3 => (1u64 << r.range(8, 63)) + r.below(360),
                        _ => large(r, 100),
                    };
                    format!("x lagw {} {}", p, w)
                } else {
                    format!("x {} {}", o, p)
                }
            };
            h.op(&line);
        }
        if kind < 2 {
            h.op("rd");
        }
        h.op("snap");
        h.end(k < kept);
    }
}
