//! Machine instructions per call (C36), counted with the trap flag, and the
//! memory a call takes: deepest stack and heap blocks (C39).
use crate::conc::{SigAction, Trap};
use crate::core::*;
use embedded_audio_tools::convert::*;
use embedded_audio_tools::dynamics::digital_clip;
use embedded_audio_tools::envelopes::*;
use embedded_audio_tools::filter::*;
use embedded_audio_tools::fixed_point::math::*;
use embedded_audio_tools::float::*;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::oscillator::Waveform;
use embedded_audio_tools::stereo::*;
use embedded_audio_tools::*;
use std::hint::black_box;

static mut J: i64 = 0;
/// far beyond anything a call may need
const LIMIT: i64 = 3_000_000;
/// lowest stack pointer seen, and the one at the start
static mut LOW: usize = usize::MAX;
static mut TOP: usize = 0;
static mut SPACE: (i64, i64) = (0, 0);
const DEEP: usize = 2 << 20;
extern "C" fn on_trap(_s: i32, _i: *mut u8, c: *mut u64) {
    unsafe {
        J += 1;
        if J > LIMIT {
            raise(14);
        }
        // ucontext: flags, link, stack (3 words), registers; 15 is rsp
        let sp = *c.add(5 + 15) as usize;
        if J == 1 {
            TOP = sp;
            LOW = sp;
        }
        if sp < LOW {
            LOW = sp;
            if TOP - sp > DEEP {
                raise(11);
            }
        }
    }
}
/// The heap, counted while a call runs.
pub struct Heap;
static mut COUNTING: bool = false;
static mut BLOCKS: i64 = 0;
unsafe impl std::alloc::GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if COUNTING {
            BLOCKS += 1;
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if COUNTING {
            BLOCKS += 1;
        }
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if COUNTING {
            BLOCKS += 1;
        }
        std::alloc::System.alloc_zeroed(l)
    }
}
extern "C" {
    fn sigaction(s: i32, a: *const SigAction, o: *mut SigAction) -> i32;
    fn raise(s: i32) -> i32;
}
#[inline(never)]
fn count(f: &mut dyn FnMut()) -> i64 {
    unsafe {
        let sa = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        sigaction(5, &sa, std::ptr::null_mut());
        J = 0;
        let t = Trap::on();
        f();
        drop(t);
        COUNTING = false;
        SPACE = (LOW.wrapping_neg().wrapping_sub(TOP.wrapping_neg()) as i64, BLOCKS);
        J
    }
}

/// op, buffer length, calls before it, choice of the other arguments (0: the
/// smallest), -> instructions
fn cost(op: &str, n: usize, before: usize, m: &mut A) -> i64 {
    let mut mem = vec![0.25f32; n];
    let mut mem2 = vec![0.5f32; n];
    let s = from_slice_mut(unsafe { std::slice::from_raw_parts_mut(mem.as_mut_ptr(), n) });
    let s2 = from_slice_mut(unsafe { std::slice::from_raw_parts_mut(mem2.as_mut_ptr(), n) });
    let mut s = black_box(s);
    let s2 = black_box(s2);
    macro_rules! c {
        ($e:expr) => {
            count(&mut || {
                let _ = black_box($e);
            })
        };
    }
    let i = m.index(n);
    let p = m.pos(n);
    // blocks count from here on, in all the calls
    unsafe {
        BLOCKS = 0;
        COUNTING = true;
    }
    match op {
        "get" => c!(s.get(i)),
        "assign" => c!(s.assign(i, 1.0)),
        "sub" => c!(s.get_sub_slice(i, i)),
        "chs" => c!(unsafe { s.change_mut_slice_unchecked(mem2.as_mut_ptr(), n) }),
        "wrap" => c!(s.get_wrapped(i as isize)),
        "wrapu" => c!(unsafe { s.get_wrapped_unchecked(i as isize) }),
        "four" => c!(s.get_slice_of_four_wrapped(i as isize)),
        "lerp" => c!(s.lerp(p)),
        "lerpw" => c!(s.lerp_wrapped(p)),
        "lagw" => c!(s.lagrange_wrapped(p, 9)),
        "lagf" => {
            let v = &mem[..n.min(m.pick(&[16, 50, 200]))];
            let x = m.pick(&[0.4f32, 0.0, 1.0, 0.99]);
            match m.pick(&[0, 1]) {
                0 => c!(lagrange(v, x * (v.len() - 1) as f32)),
                _ => c!(unsafe { lagrange_only_4_elements(&[0.1, 0.2, 0.3, 0.4], x) }),
            }
        }
        "lagww" => {
            let w = m.pick(&[2, 3, 100, 8, 50, 101, 1000, usize::MAX]);
            c!(s.lagrange_wrapped(p, w))
        }
        "lag4" => c!(s.lagrange_four_points_wrapped(p)),
        "dlread" | "dltap" | "dllerp" | "dllag" | "dlwrite" | "dladv" | "dlch" => {
            let mut d = black_box(DelayLine::new(s));
            for _ in 0..before {
                d.write_and_advance(0.5);
            }
            // taps lie within reach of single precision
            let p = p.clamp(-4e6, 4e6);
            match op {
                "dlread" => c!(d.read()),
                "dltap" => c!(d.read_wrapped_at(i as isize)),
                "dllerp" => c!(d.read_lerp_wrapped_at(p)),
                "dllag" => c!(d.read_lagrange_wrapped_at(p)),
                "dlwrite" => c!(d.write_and_advance(1.0)),
                "dladv" => c!(d.advance()),
                _ => c!(d.change_buffer(s2)),
            }
        }
        "comb" | "combch" => {
            let mut d = black_box(Comb::new(s));
            for _ in 0..before {
                d.tick(0.5);
            }
            if op == "comb" {
                c!(d.tick(0.5))
            } else {
                c!(d.change_buffer(s2))
            }
        }
        "ap" | "apch" => {
            let mut d = black_box(AllPass::new(s));
            for _ in 0..before {
                d.tick(0.5);
            }
            if op == "ap" {
                c!(d.tick(0.5))
            } else {
                c!(d.change_buffer(s2))
            }
        }
        "bqp" | "bqd" => {
            let mut b = black_box(Biquad::<Butterworth>::new(BiquadCoeffs::new()));
            let sr = m.pick(&[48000.0, 8000.0, 192000.0]);
            let fc = sr * m.pick(&[0.1, 0.002, 0.25]);
            let (q, g) = (m.pick(&[1.0, 0.1, 20.0]), m.pick(&[1.0, 4.0, -4.0, -0.25]));
            let w = m.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
            let co = &mut b.coeffs;
            let x = c!(match w {
                0 => co.lowpass(fc, q, sr),
                1 => co.highpass(fc, q, sr),
                2 => co.allpass(fc, q, sr),
                3 => co.notch(fc, q, sr),
                4 => co.bell(fc, q, g, sr),
                5 => co.low_shelf(fc, q, g, sr),
                6 => co.bell_boost_only(fc, q, g.abs(), sr),
                7 => co.bell_cut_only(fc, q, g.abs(), sr),
                8 => co.low_shelf_boost_only(fc, q, g.abs(), sr),
                _ => co.low_shelf_cut_only(fc, q, g.abs(), sr),
            });
            if op == "bqd" {
                return x;
            }
            for _ in 0..before {
                b.process(0.5);
            }
            c!(b.process(0.5))
        }
        "env" => {
            let sr = m.pick(&[48000.0, 8000.0, 192000.0]);
            // how long the stages last, in seconds or in calls
            let d = before as f32 / sr;
            let mut time = || m.pick(&[0.001, 0.0, 1.0, 1e9, d, 0.4 * d, 2.0 * d]);
            let (at, de, re) = (time(), time(), time());
            let mut e = black_box(AudioRateADSR::new(at, de, m.pick(&[0.5, 0.0, 1.0]), re, m.pick(&[1.0, 0.1, 10.0]), sr));
            // what happens halfway: nothing, on, off, off and on; early on
            let (x, y) = (m.pick(&[2, 0, 0, 1, 2, 3]), m.pick(&[0, 0, 0, 1, 2, 3]));
            let turn = |e: &mut AudioRateADSR, x| match x {
                1 => e.trigger_on(),
                2 => e.trigger_off(),
                3 => {
                    e.trigger_off();
                    e.trigger_on()
                }
                _ => (),
            };
            e.trigger_on();
            for k in 0..before {
                e.tick();
                if k == before / 2 {
                    turn(&mut e, x);
                }
                if k == before / 9 {
                    turn(&mut e, y);
                }
            }
            let w = m.pick(&[0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
            c!(match w {
                0 => drop(e.tick()),
                1 => e.trigger_on(),
                2 => e.trigger_off(),
                3 => e.reset(),
                4 => e.set_attack(1e9),
                5 => e.set_sustain(0.1),
                8 => e.set_decay(1e-9),
                9 => e.set_release(1e9),
                6 => e.set_slope(1e9),
                _ => e.set_sr(96000.0),
            })
        }
        "acc" | "osc" | "wt" => {
            let sr = m.pick(&[48000.0, 1.0, 192000.0, 1e-9]);
            let f = m.pick(&[440.0, 0.0, -5.0, 1e9, 1e30, f32::INFINITY]);
            let a = SoftPhaseAccumulator::new(f, sr);
            let sh = m.pick(&[0.0, 0.5, 1.0]);
            let w = m.pick(&[0, 1, 2, 3]);
            match op {
                "acc" => {
                    let mut a = black_box(a);
                    for _ in 0..before {
                        a.next_value();
                    }
                    a.set_phase_shift((sh * 4e9) as u32);
                    match w {
                        0 => c!(a.next_value()),
                        1 => c!(a.next_value_normalized()),
                        2 => c!(a.set_freq(f).is_ok()),
                        _ => c!(a.set_sr_unchecked(1e-30)),
                    }
                }
                "osc" => {
                    let mut o = black_box(FunctionalOscillator::new(a));
                    o.set_wave(match w {
                        0 => Waveform::Sine,
                        1 => Waveform::Rectangle,
                        2 => Waveform::Sawtooth,
                        _ => Waveform::Triangle,
                    });
                    for _ in 0..before {
                        o.next();
                    }
                    o.set_phase_shift_unchecked(sh);
                    c!(o.next())
                }
                _ => {
                    let mut o = black_box(WavetableOscillator::new(from_slice(&mem2[..]), a));
                    for _ in 0..before {
                        o.next();
                    }
                    o.set_phase_shift_unchecked(sh);
                    c!(o.next())
                }
            }
        }
        "sin" => {
            let x = black_box(m.pick(&[0.5f32, 0.0, -3.0, 100.0, -100.0]));
            match m.pick(&[0, 1, 2]) {
                0 => c!(x.fixed_point_sin()),
                1 => c!(x.fixed_point_cos()),
                _ => c!(x.lookup_sin()),
            }
        }
        "blrect" => {
            let x = black_box(m.pick(&[0.5f32, 0.0, -3.0, 1e30, 0.2, 0.6, 0.9]));
            c!(x.lookup_bl_rect())
        }
        "sinc" => {
            let x = black_box(m.pick(&[0.5f32, 0.0, -3.0, 20.0, -20.0]));
            c!(x.sinc())
        }
        "si" => {
            let x = black_box(m.pick(&[0.5f32, 20.0, -20.0]));
            c!(x.si())
        }
        "hyp" => {
            let x = black_box(m.pick(&[0.5f32, 0.0, -8.0, 8.0]));
            match m.pick(&[0, 1, 2, 3]) {
                0 => c!(AdditionalF32Ext::sinh(&x)),
                1 => c!(AdditionalF32Ext::cosh(&x)),
                2 => c!(AdditionalF32Ext::tanh(&x)),
                _ => c!(x.fast_tan()),
            }
        }
        "q15" => {
            let (z, d) = (black_box(m.pick(&[0i16, 32767, -32768])), black_box(m.pick(&[4u8, 0, 5, 255])));
            c!(sin_i16(z, d))
        }
        "db" => {
            let x = black_box(m.pick(&[0.5f32, 0.0, -1.0, 1e30, 1e-38, f32::INFINITY]));
            match m.pick(&[0, 1, 2]) {
                0 => c!(x.to_decibels()),
                1 => c!(x.to_decibels_checked()),
                _ => {
                    let y = x.clamp(-140.0, 140.0);
                    c!(y.to_volt_ratio())
                }
            }
        }
        "bits" => {
            let x = black_box(m.pick(&[0.5f32, 0.0, -1.0, 1e30, 1e-38]));
            let d = black_box(m.pick(&[3u8, 0, 23, 30, 255]));
            match m.pick(&[0, 1, 2, 3, 4, 5, 6, 7]) {
                4 => c!(bit_reduce_unchecked(x, d.min(23))),
                5 => c!(bit_reduce_exp_unchecked(x, d.min(23))),
                6 => c!(f32::from_raw_word(x.to_bits())),
                7 => c!(x.seconds_to_samples(48000.0) + x.samples_to_seconds(48000.0)),
                0 => c!(bit_reduce(x, d)),
                1 => c!(bit_reduce_exp(x, d)),
                2 => c!(x.to_raw_word()),
                _ => c!(f32::from_f32_components(x.to_f32_components())),
            }
        }
        "level" => {
            let x = black_box(m.pick(&[0.5f32, 0.0, -1.0, 1e30, 1e-38]));
            let p = black_box(m.pick(&[0.25f32, 0.0, -1.0, 1.0, 1e30]));
            match m.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8]) {
                6 => c!(mono_pan_unchecked(p, x)),
                7 => c!(stereo_pan_unchecked(p, (x, x))),
                8 => c!(lerp_unchecked(x, p, p)),
                0 => c!(stereo_pan(p, (x, x))),
                1 => c!(mono_pan(p, x)),
                2 => c!(crossfade_correlated_unchecked(p, (x, x))),
                3 => c!(digital_clip(x)),
                4 => c!(lerp(x, p, 0.5)),
                _ => c!(x.samples_to_millis(48000.0) + x.millis_to_samples(48000.0)),
            }
        }
        _ => panic!("HARNESS op {}", op),
    }
}
const OPS: [(&str, bool); 38] = [
    ("get", true), ("assign", true), ("sub", true), ("chs", true), ("wrap", true), ("wrapu", true), ("four", true),
    ("lerp", true), ("lerpw", true), ("lagw", true), ("lag4", true), ("dlread", true), ("dltap", true),
    ("dllerp", true), ("dllag", true), ("dlwrite", true), ("dladv", true), ("dlch", true), ("comb", true),
    ("combch", true), ("ap", true), ("apch", true), ("bqp", false), ("bqd", false), ("env", false), ("acc", false),
    ("osc", false), ("wt", true), ("sin", false), ("blrect", false), ("sinc", false), ("si", false), ("hyp", false),
    ("q15", false), ("db", false), ("bits", false), ("level", false), ("get", true),
];
fn sized(op: &str) -> bool {
    op == "lagww" || op == "lagf" || OPS.iter().any(|o| o.0 == op && o.1)
}
/// arguments: the plainest, or any
struct A {
    r: Option<Rng>,
}
impl A {
    fn pick<T: Copy>(&mut self, x: &[T]) -> T {
        match &mut self.r {
            None => x[0],
            Some(r) => r.pick(x),
        }
    }
    fn index(&mut self, n: usize) -> usize {
        let r = match &mut self.r {
            None => return n / 2,
            Some(r) => r,
        };
        match r.below(6) {
            0 => r.below(n as u64) as usize,
            1 => n - 1,
            2 => r.next() as usize,
            3 => r.range(-(1 << 40), 1 << 40) as usize,
            4 => r.pick(&[usize::MAX, isize::MIN as usize, isize::MAX as usize, 0]),
            _ => r.range(-4 * n as i64, 4 * n as i64) as usize,
        }
    }
    fn pos(&mut self, n: usize) -> f32 {
        let r = match &mut self.r {
            None => return n as f32 * 0.5 + 0.25,
            Some(r) => r,
        };
        let u = (2.0 * r.f01() - 1.0) as f32;
        match r.below(4) {
            0 => u * n as f32,
            1 => u * 8.0 * n as f32,
            2 => u * r.pick(&[1e6, 1e9, 1e12, 1e18]),
            _ => r.pick(&[0.0, -0.5, 4e18, -4e18, 1e9]),
        }
    }
}
pub struct Work;
impl Dom for Work {
    fn exec(&mut self, op: &str, a: &[&str], ev: &mut Ev) {
        // every instruction costs a trap or two
        arm(60);
        // ref OP MODE SEED | call OP N BEFORE SEED
        match op {
            "ref" => {
                let mut c = 0;
                for n in [1usize, 5, 16] {
                    for before in [0, 3] {
                        c = c.max(one(a[0], n, before, 0));
                        for s in 1..4 {
                            // the choice of operation may matter, sizes stay small
                            if !sized(a[0]) {
                                c = c.max(one(a[0], n, before, s));
                            }
                        }
                    }
                }
                ev.ok().str("w", a[0]).int("c", c);
            }
            "call" => {
                let c = one(a[0], us(a[1]), us(a[2]), us(a[3]) as u64);
                ev.ok().str("w", a[0]).int("c", c);
            }
            "room" | "plain" => {
                let (mut st, mut al) = (0, 0);
                let mut see = |n, before, s| {
                    one(a[0], n, before, s);
                    unsafe {
                        st = st.max(SPACE.0);
                        al += SPACE.1;
                    }
                };
                if op == "room" {
                    see(us(a[1]), us(a[2]), us(a[3]) as u64);
                } else {
                    // as for "ref"
                    let slow = a[0] == "si";
                    let sized = sized(a[0]);
                    for n in if slow { &[4usize][..] } else { &[1usize, 5, 16] } {
                        for before in if slow { &[1usize][..] } else { &[0, 3] } {
                            for s in 0..(if sized { 1 } else { 4 }) {
                                see(*n, *before, s);
                            }
                        }
                    }
                }
                ev.ok().str("w", a[0]).int("st", st).int("al", al);
            }
            "size" => {
                use std::mem::size_of;
                let b = match a[0] {
                    "ro" => size_of::<MemorySlice<NonMutable>>(),
                    "rw" => size_of::<MemorySlice<Mutable>>(),
                    "dl" => size_of::<DelayLine>(),
                    "comb" => size_of::<Comb>(),
                    "ap" => size_of::<AllPass>(),
                    "co" => size_of::<BiquadCoeffs<Butterworth>>(),
                    "bq" => size_of::<Biquad<Butterworth>>(),
                    "env" => size_of::<AudioRateADSR>(),
                    "acc" => size_of::<SoftPhaseAccumulator>(),
                    "osc" => size_of::<FunctionalOscillator<SoftPhaseAccumulator>>(),
                    "wt" => size_of::<WavetableOscillator<SoftPhaseAccumulator>>(),
                    _ => panic!("HARNESS size {}", a[0]),
                };
                ev.ok().str("w", a[0]).int("b", b as i64);
            }
            _ => panic!("HARNESS op {}", op),
        }
    }
}
fn one(op: &str, n: usize, before: usize, seed: u64) -> i64 {
    let mut m = A { r: if seed == 0 { None } else { Some(Rng::new(seed)) } };
    cost(op, n, before, &mut m)
}
pub fn c36(run: &mut Run) {
    let t = run.thorough;
    for (op, sized) in OPS {
        let reps = match op {
            "si" => 1,
            // stages to be deep in
            "env" => 5,
            _ => 1,
        };
        for _ in 0..(if op == "si" { 1 } else { reps * if t { 60 } else { 6 } }) {
            let mut h = run.begin(Box::new(Work));
            h.op(&format!("ref {}", op));
            for _ in 0..(if op == "si" { 3 } else { 12 }) {
                let r = &mut h.run.rng;
                let n = if !sized { 4 } else { r.pick(&[1, 7, 1000, 65536, 65537, 200000, 262144]) };
                let before = r.pick(&[0, 1, 20, 1000, 65536, 70000]);
                let s = 1 + r.below(1 << 30);
                h.op(&format!("call {} {} {} {}", op, n, before, s));
            }
            h.end(true);
        }
    }
}

pub fn c39(run: &mut Run) {
    let t = run.thorough;
    let mut h = run.begin(Box::new(Work));
    for w in ["ro", "rw", "dl", "comb", "ap", "co", "bq", "env", "acc", "osc", "wt"] {
        h.op(&format!("size {}", w));
    }
    h.end(true);
    for (op, sized) in OPS.into_iter().chain([("lagww", true), ("lagf", true)]) {
        let reps = if op == "si" { 1 } else if t { 40 } else { 4 };
        for _ in 0..reps {
            let mut h = run.begin(Box::new(Work));
            h.op(&format!("plain {}", op));
            for _ in 0..(if op == "si" { 3 } else { 12 }) {
                let r = &mut h.run.rng;
                let n = if !sized { 4 } else { r.pick(&[1, 2, 7, 64, 1000, 65536, 65537, 200000, 262144]) };
                let before = r.pick(&[0, 1, 2, 20, 1000, 65536, 70000]);
                let s = r.below(1 << 30);
                h.op(&format!("room {} {} {} {}", op, n, before, s));
            }
            h.end(true);
        }
    }
}
