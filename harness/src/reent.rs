//! Objects of every kind used side by side, preempting each other at machine
//! instructions and on real threads (C35).
//!
//! An *object* is one piece of the library (a delay line over its own memory,
//! a filter, an oscillator, ... or a free function with its own sequence of
//! arguments); its making (kind and seed) determines the calls it gets.  Every
//! history runs in a forked child that has never called the library before, so
//! state hidden in the library shows as an answer that depends on what else
//! went on.
use crate::conc::{Moved, SigAction, Trap};
use crate::core::*;
use embedded_audio_tools::convert::*;
use embedded_audio_tools::dynamics::digital_clip;
use embedded_audio_tools::envelopes::*;
use embedded_audio_tools::filter::*;
use embedded_audio_tools::fixed_point::math::*;
use embedded_audio_tools::float::*;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::oscillator::Waveform;
use embedded_audio_tools::stereo::*;
use embedded_audio_tools::*;

pub const KINDS: usize = 22;
const CELLS: usize = 64;

fn mix(seed: u64, i: u64) -> u64 {
    let mut z = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
/// Makings from here on draw the arguments of their steps from the same few,
/// so that what one object asks for another has asked for before.
const FEW: u64 = 1 << 30;
/// arguments of one step
struct A(u64);
impl A {
    fn n(&mut self, m: u64) -> usize {
        let x = (self.0 % m) as usize;
        self.0 = mix(self.0, 7);
        x
    }
    /// in [-1, 1)
    fn s(&mut self) -> f32 {
        self.n(1 << 20) as f32 / 524288.0 - 1.0
    }
    fn u(&mut self) -> f32 {
        self.n(1 << 20) as f32 / 1048576.0
    }
}
enum T {
    Dl(DelayLine),
    Cb(Comb),
    Ap(AllPass),
    Sl(MemorySlice<Mutable>),
    Bq(Biquad<Butterworth>),
    En(AudioRateADSR),
    Pa(SoftPhaseAccumulator),
    Os(FunctionalOscillator<SoftPhaseAccumulator>),
    Ot(WavetableOscillator<SoftPhaseAccumulator>),
    Free,
}
pub struct Obj {
    kind: usize,
    seed: u64,
    i: u64,
    mem: Vec<f32>,
    t: T,
}
fn rb<T2>(r: Result<f32, T2>) -> u32 {
    r.map(|x| x.to_bits()).unwrap_or(0x7fff_ffff)
}
impl Obj {
    pub fn new(kind: usize, seed: u64) -> Box<Obj> {
        let mut o = Box::new(Obj { kind, seed, i: 0, mem: vec![0.0; CELLS], t: T::Free });
        let mut a = A(mix(seed, 1 << 40));
        for k in 0..CELLS {
            o.mem[k] = a.s();
        }
        let n = 1 + a.n(CELLS as u64 - 1);
        let all = unsafe { std::slice::from_raw_parts_mut(o.mem.as_mut_ptr(), CELLS) };
        let s = from_slice_mut(&mut all[..n]);
        let (f, sr) = (20.0 + 8000.0 * a.u(), a_rate(&mut a));
        o.t = match kind {
            0 => T::Dl(DelayLine::new(s)),
            1 => T::Cb(Comb::new(s)),
            2 => T::Ap(AllPass::new(s)),
            3 | 4 => T::Sl(s),
            5 => T::Bq(Biquad::new(BiquadCoeffs::new())),
            7 => T::En(AudioRateADSR::new(
                0.002 * a.u(),
                0.002 * a.u(),
                a.u(),
                0.002 * a.u(),
                0.25 + 3.0 * a.u(),
                sr,
            )),
            8 => T::Pa(SoftPhaseAccumulator::new(f, sr)),
            9 => T::Os(FunctionalOscillator::new(SoftPhaseAccumulator::new(f, sr))),
            10 => T::Ot(WavetableOscillator::new(from_slice(&all[..n]), SoftPhaseAccumulator::new(f, sr))),
            _ => T::Free,
        };
        o
    }
    /// One step: one or a few calls of the library.
    #[inline(never)]
    pub fn step(&mut self) -> [u32; 4] {
        let mut a = A(mix(self.seed, self.i));
        if self.seed >= FEW {
            a = A(mix(99, a.0 % (2 + self.seed % 2)));
        }
        let i = self.i;
        self.i += 1;
        let mut o = [0u32; 4];
        let kind = self.kind;
        match &mut self.t {
            T::Dl(d) => {
                o[0] = d.read().to_bits();
                o[1] = d.read_wrapped_at(a.n(400) as isize - 200).to_bits();
                if i % 2 == 0 {
                    o[2] = d.read_lerp_wrapped_at(100.0 * a.s()).to_bits();
                } else {
                    o[2] = d.read_lagrange_wrapped_at(100.0 * a.s()).to_bits();
                }
                if a.n(4) == 0 {
                    d.advance()
                } else {
                    d.write_and_advance(a.s())
                }
            }
            T::Cb(c) => {
                match a.n(6) {
                    0 => c.set_feedback(a.s()),
                    1 => c.set_dampening(a.u()),
                    _ => (),
                }
                o[0] = c.tick(a.s()).to_bits();
            }
            T::Ap(c) => o[0] = c.tick(a.s()).to_bits(),
            T::Sl(s) if kind == 3 => {
                let n = s.len() as u64;
                let k = a.n(2 * n);
                let _ = s.assign(k, a.s());
                o[0] = rb(s.get(a.n(2 * n)));
                o[1] = s.get_wrapped(a.n(400) as isize - 200).to_bits();
                let q = s.get_slice_of_four_wrapped(a.n(400) as isize - 200);
                o[2] = q[0].to_bits() ^ q[1].to_bits().rotate_left(5) ^ q[2].to_bits().rotate_left(11) ^ q[3].to_bits().rotate_left(19);
                let sub = s.get_sub_slice(a.n(n), a.n(n));
                o[3] = sub.map(|x| rb(x.get(0)) ^ (x.len() as u32) << 3).unwrap_or(1);
            }
            T::Sl(s) => {
                let n = s.len() as f32;
                o[0] = rb(s.lerp(n * a.u() * 1.2));
                o[1] = s.lerp_wrapped(3.0 * n * a.s()).to_bits();
                o[2] = s.lagrange_wrapped(3.0 * n * a.s(), 2 + a.n(14)).to_bits();
                o[3] = s.lagrange_four_points_wrapped(3.0 * n * a.s()).to_bits();
            }
            T::Bq(b) => {
                if a.n(5) == 0 || i == 0 {
                    design(&mut b.coeffs, &mut a);
                }
                o[0] = b.process(a.s()).to_bits();
            }
            T::En(e) => {
                match a.n(40) {
                    0 => e.set_attack(0.003 * a.u()),
                    1 => e.set_decay(0.003 * a.u()),
                    2 => e.set_sustain(a.u()),
                    3 => e.set_release(0.003 * a.u()),
                    4 => e.set_slope(0.2 + 4.0 * a.u()),
                    5 | 6 | 7 => e.trigger_on(),
                    8 | 9 => e.trigger_off(),
                    10 => e.reset(),
                    11 => e.set_sr(a_rate(&mut a)),
                    _ => (),
                }
                if i == 0 {
                    e.trigger_on();
                }
                o[0] = e.tick().to_bits();
                o[1] = e.get_state() as u32;
            }
            T::Pa(p) => {
                match a.n(10) {
                    0 => p.set_freq_unchecked(5000.0 * a.u()),
                    1 => o[3] = p.set_freq(40000.0 * a.s()).is_ok() as u32,
                    2 => p.set_phase_shift(mix(self.seed, i + 9) as u32),
                    3 => p.set_sr_unchecked(a_rate(&mut a)),
                    _ => (),
                }
                o[0] = p.next_value();
                o[1] = p.next_value_normalized().to_bits();
            }
            T::Os(p) => {
                match a.n(8) {
                    0 => p.set_wave(match a.n(4) {
                        0 => Waveform::Sine,
                        1 => Waveform::Rectangle,
                        2 => Waveform::Sawtooth,
                        _ => Waveform::Triangle,
                    }),
                    1 => p.set_freq_unchecked(5000.0 * a.u()),
                    2 => p.set_phase_shift_unchecked(a.u()),
                    3 => p.set_sr_unchecked(a_rate(&mut a)),
                    _ => (),
                }
                o[0] = p.next().to_bits();
            }
            T::Ot(p) => {
                match a.n(8) {
                    1 => p.set_freq_unchecked(5000.0 * a.u()),
                    2 => p.set_phase_shift_unchecked(a.u()),
                    3 => p.set_sr_unchecked(a_rate(&mut a)),
                    _ => (),
                }
                o[0] = p.next().to_bits();
            }
            T::Free => match kind {
                6 => {
                    let mut c = BiquadCoeffs::<Butterworth>::new();
                    design(&mut c, &mut a);
                    o = [c.b0.to_bits(), c.b1.to_bits() ^ c.b2.to_bits().rotate_left(7), c.a1.to_bits(), c.a2.to_bits()];
                }
                11 => {
                    let p = stereo_pan(a.s(), (a.s(), a.s())).unwrap_or((9.0, 9.0));
                    let q = mono_pan(2.0 * a.s(), a.s()).unwrap_or((9.0, 9.0));
                    o = [p.0.to_bits(), p.1.to_bits(), q.0.to_bits() ^ q.1.to_bits().rotate_left(9), 0];
                    o[3] = crossfade_correlated_unchecked(a.s(), (a.s(), a.s())).to_bits();
                }
                12 => {
                    let x = a.s();
                    o[0] = x.to_decibels().map(|v| v.to_bits()).unwrap_or(1);
                    o[1] = (x + 0.5).to_decibels_checked().map(|v| v.to_bits()).unwrap_or(1);
                    o[2] = (a.s() * 100.0).to_volt_ratio().to_bits();
                }
                13 => {
                    let x = a.s();
                    let d = a.n(32) as u8;
                    o[0] = bit_reduce(x * 1.1, d).map(|v| v.to_bits()).unwrap_or(1);
                    o[1] = bit_reduce_exp(x * 77.0, d).map(|v| v.to_bits()).unwrap_or(1);
                    let w = mix(self.seed, i + 5) as u32;
                    o[2] = f32::from_raw_word(w).to_raw_word();
                    o[3] = u32::from_f32_components(w.to_f32_components());
                }
                14 => {
                    o[0] = digital_clip(3.0 * a.s()).to_bits();
                    o[1] = lerp(a.s(), a.s(), 1.5 * a.u()).map(|v| v.to_bits()).unwrap_or(1);
                    o[2] = lerp_unchecked(a.s(), a.s(), a.u()).to_bits();
                }
                15 => {
                    let z = a.n(65536) as u32 as u16 as i16;
                    o[0] = sin_i16(z, a.n(8) as u8) as u16 as u32;
                    o[1] = unsafe { sin_i16_unchecked(z, 4) } as u16 as u32;
                }
                16 => {
                    o[0] = (50.0 * a.s()).fixed_point_sin().to_bits();
                    o[1] = (50.0 * a.s()).fixed_point_cos().to_bits();
                    o[2] = (50.0 * a.s()).lookup_sin().to_bits();
                    o[3] = (1.2 * a.u() - 0.1).lookup_bl_rect().to_bits();
                }
                17 => o[0] = (10.0 * a.s()).sinc().to_bits(),
                18 => {
                    let x = 6.0 * a.s();
                    o[0] = AdditionalF32Ext::sinh(&x).to_bits();
                    o[1] = AdditionalF32Ext::cosh(&x).to_bits();
                    o[2] = AdditionalF32Ext::tanh(&x).to_bits();
                    o[3] = a.s().fast_tan().to_bits();
                }
                19 => {
                    let (x, sr) = (1000.0 * a.u(), a_rate(&mut a));
                    o = [
                        x.samples_to_seconds(sr).to_bits(),
                        x.samples_to_millis(sr).to_bits(),
                        x.seconds_to_samples(sr).to_bits(),
                        x.millis_to_samples(sr).to_bits(),
                    ];
                }
                20 => {
                    let d = [a.s(), a.s(), a.s(), a.s(), a.s(), a.s()];
                    o[0] = lagrange(&d[..2 + a.n(5)], a.u()).to_bits();
                    o[1] = unsafe { lagrange_only_4_elements(&d[..4], 3.0 * a.u()) }.to_bits();
                }
                _ => o[0] = (10.0 * a.s()).si().to_bits(),
            },
        }
        o
    }
}
fn a_rate(a: &mut A) -> f32 {
    [8000.0, 22050.0, 44100.0, 48000.0, 96000.0][a.n(5)]
}
fn design(c: &mut BiquadCoeffs<Butterworth>, a: &mut A) {
    let sr = a_rate(a);
    let (fc, q, g) = (sr * (0.002 + 0.2 * a.u()), 0.3 + 3.0 * a.u(), 4.0 * a.s());
    match a.n(6) {
        0 => c.lowpass(fc, q, sr),
        1 => c.highpass(fc, q, sr),
        2 => c.allpass(fc, q, sr),
        3 => c.notch(fc, q, sr),
        4 => c.bell(fc, q, g, sr),
        _ => c.low_shelf(fc, q, g, sr),
    }
}

// -------------------------------------------------------------- preemption
#[derive(Clone, Copy)]
enum L {
    B(usize),
    E(usize, [u32; 4]),
}
struct St {
    on: bool,
    count: bool, // every instruction of the call
    j: u64,
    pts: [(u64, usize, usize); 8], // instruction, object, steps
    npts: usize,
    next: usize,
    objs: [*mut Obj; 8],
    log: [L; 256],
    nlog: usize,
}
static mut ST: St = St {
    on: false,
    count: false,
    j: 0,
    pts: [(0, 0, 0); 8],
    npts: 0,
    next: 0,
    objs: [std::ptr::null_mut(); 8],
    log: [L::B(0); 256],
    nlog: 0,
};
#[allow(static_mut_refs)]
fn lg(e: L) {
    unsafe {
        if ST.nlog == 256 {
            panic!("HARNESS log full");
        }
        ST.log[ST.nlog] = e;
        ST.nlog += 1;
    }
}
#[allow(static_mut_refs)]
fn burst(upto: u64) {
    unsafe {
        while ST.next < ST.npts && ST.pts[ST.next].0 <= upto {
            let (_, k, b) = ST.pts[ST.next];
            ST.next += 1;
            for _ in 0..b {
                lg(L::B(k));
                let v = (*ST.objs[k]).step();
                lg(L::E(k, v));
            }
        }
    }
}
#[allow(static_mut_refs)]
extern "C" fn on_trap(_s: i32, _i: *mut u8, ctx: *mut u64) {
    unsafe {
        if ST.on {
            ST.j += 1;
            burst(ST.j);
            if ST.next == ST.npts && !ST.count {
                // nothing more to come: on at full speed
                *ctx.add(5 + 17) &= !0x100;
            }
        }
    }
}
extern "C" {
    fn sigaction(s: i32, a: *const SigAction, o: *mut SigAction) -> i32;
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn pipe(f: *mut i32) -> i32;
    fn read(fd: i32, p: *mut core::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, p: *const core::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn _exit(c: i32) -> !;
}
#[allow(static_mut_refs)]
fn stepped(o: &mut Obj) -> [u32; 4] {
    unsafe {
        let sa = SigAction { handler: on_trap as *const () as usize, mask: [0; 16], flags: 4, restorer: 0 };
        sigaction(5, &sa, std::ptr::null_mut());
        ST.j = 0;
        ST.on = true;
        let t = Trap::on();
        let v = o.step();
        drop(t);
        ST.on = false;
        v
    }
}
/// Runs f in a process of its own; what it returns comes back.
pub fn isolated(f: &mut dyn FnMut() -> String) -> String {
    unsafe {
        let mut fd = [0i32; 2];
        if pipe(fd.as_mut_ptr()) != 0 {
            panic!("HARNESS pipe");
        }
        let pid = fork();
        if pid < 0 {
            panic!("HARNESS fork");
        }
        if pid == 0 {
            close(fd[0]);
            arm(30);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
            let (s, c) = match r {
                Ok(s) => (s, 0),
                Err(p) => (
                    p.downcast_ref::<String>()
                        .cloned()
                        .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default(),
                    78,
                ),
            };
            let mut b = s.as_bytes();
            while !b.is_empty() {
                let n = write(fd[1], b.as_ptr().cast(), b.len());
                if n <= 0 {
                    _exit(79)
                }
                b = &b[n as usize..];
            }
            _exit(c)
        }
        close(fd[1]);
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = read(fd[0], buf.as_mut_ptr().cast(), buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        close(fd[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let s = String::from_utf8_lossy(&out).to_string();
        match st {
            0 => s,
            // crashed or hung: the child has written the history
            st if st >> 8 & 0xff == 77 => _exit(77),
            st if st >> 8 & 0xff == 78 => panic!("{}", s),
            st => panic!("HARNESS child {}", st),
        }
    }
}

// ----------------------------------------------------------------- histories
#[derive(Clone, Copy)]
enum P {
    Obj(usize, u64),
    St(usize),
    At(u64, usize, usize),
    Pre(usize),
    Par(usize, usize, usize),
    Crowd(usize, usize, usize),
}
static mut LENS: [u64; KINDS] = [0; KINDS];
/// instructions of one step of each kind, found in a process of their own
#[allow(static_mut_refs)]
fn lens() -> &'static [u64; KINDS] {
    unsafe {
        if LENS[0] == 0 {
            let s = isolated(&mut || {
                (0..KINDS)
                    .map(|k| {
                        let mut m = 0;
                        for seed in 0..3 {
                            let mut o = Obj::new(k, seed);
                            for _ in 0..3 {
                                ST.npts = 0;
                                ST.count = true;
                                stepped(&mut o);
                                m = m.max(ST.j);
                            }
                        }
                        m.to_string()
                    })
                    .collect::<Vec<_>>()
                    .join(" ")
            });
            for (k, t) in s.split(' ').enumerate() {
                LENS[k] = t.parse().unwrap();
            }
        }
        &LENS
    }
}
pub struct Reent {
    p: Vec<P>,
}
impl Reent {
    pub fn new() -> Reent {
        Reent { p: vec![] }
    }
}
fn put(s: &mut String, op: &str) {
    s.push_str("},{\"o\":\"");
    s.push_str(op);
    s.push_str("\",\"k\":\"ok\"");
}
fn halves(s: &mut String, v: &[u32; 4]) {
    s.push_str(",\"v\":[");
    for (i, x) in v.iter().enumerate() {
        s.push_str(&format!("{}{},{}", if i > 0 { "," } else { "" }, x >> 16, x & 0xffff));
    }
    s.push(']');
}
#[allow(static_mut_refs)]
fn play(p: &[P], ln: &[u64; KINDS]) -> String {
    let mut s = String::new();
    let mut objs: Vec<Box<Obj>> = vec![];
    let flush = |s: &mut String| unsafe {
        for i in 0..ST.nlog {
            match ST.log[i] {
                L::B(k) => {
                    put(s, "beg");
                    s.push_str(&format!(",\"i\":{}", k + 1));
                }
                L::E(k, v) => {
                    put(s, "end");
                    s.push_str(&format!(",\"i\":{}", k + 1));
                    halves(s, &v);
                }
            }
        }
        ST.nlog = 0;
    };
    unsafe {
        ST.npts = 0;
        ST.next = 0;
        ST.nlog = 0;
    }
    for x in p {
        if !matches!(*x, P::At(..)) {
            flush(&mut s);
        }
        match *x {
            P::Crowd(k, n, m) => {
                // objects nobody looks at
                for j in 0..n {
                    let mut o = Obj::new(k, 1 << 20 | j as u64);
                    for _ in 0..m {
                        o.step();
                    }
                }
                put(&mut s, "crowd");
            }
            P::Obj(k, seed) => {
                let o = Obj::new(k, seed);
                put(&mut s, "new");
                s.push_str(&format!(",\"d\":\"{} {}\"", k, seed));
                objs.push(o);
            }
            P::St(i) => {
                lg(L::B(i));
                let v = objs[i].step();
                lg(L::E(i, v));
            }
            P::At(pm, k, b) => unsafe {
                ST.pts[ST.npts] = (pm, k, b);
                ST.npts += 1;
            },
            P::Pre(i) => unsafe {
                for k in 0..objs.len() {
                    ST.objs[k] = &mut *objs[k];
                }
                let len = ln[objs[i].kind];
                for q in 0..ST.npts {
                    // below 1000 a share of the call, from there on a count
                    let pm = ST.pts[q].0;
                    ST.pts[q].0 = if pm < 1000 { pm * len / 1000 } else { pm - 1000 };
                }
                ST.pts[..ST.npts].sort();
                ST.next = 0;
                lg(L::B(i));
                let v = stepped(&mut objs[i]);
                lg(L::E(i, v));
                burst(u64::MAX);
                ST.npts = 0;
                ST.next = 0;
            },
            P::Par(i, k, n) => {
                flush(&mut s);
                let mut hs = vec![];
                for q in [i, k] {
                    put(&mut s, "beg");
                    s.push_str(&format!(",\"i\":{},\"n\":{}", q + 1, n));
                    let o = Moved(&mut *objs[q] as *mut Obj);
                    hs.push((
                        q,
                        std::thread::spawn(move || {
                            let o = unsafe { &mut *o.get() };
                            (0..n).map(|_| o.step()).collect::<Vec<_>>()
                        }),
                    ));
                }
                for (q, h) in hs {
                    for v in h.join().unwrap_or_else(|_| panic!("a thread panicked")) {
                        put(&mut s, "end");
                        s.push_str(&format!(",\"i\":{}", q + 1));
                        halves(&mut s, &v);
                    }
                }
            }
        }
        flush(&mut s);
    }
    for (i, o) in objs.iter().enumerate() {
        put(&mut s, "mem");
        let mut h = [0u32; 4];
        for (k, x) in o.mem.iter().enumerate() {
            h[k % 4] = h[k % 4].rotate_left(5) ^ x.to_bits().wrapping_mul(0x9E37_79B1);
        }
        s.push_str(&format!(",\"i\":{}", i + 1));
        halves(&mut s, &h);
    }
    s
}
impl Dom for Reent {
    fn exec(&mut self, op: &str, a: &[&str], ev: &mut Ev) {
        ev.s = "{\"o\":\"prog\"".into();
        ev.ok();
        match op {
            "obj" => self.p.push(P::Obj(us(a[0]), us(a[1]) as u64)),
            "st" => {
                for _ in 0..a.get(1).map(|x| us(x)).unwrap_or(1) {
                    self.p.push(P::St(us(a[0])))
                }
            }
            "at" => self.p.push(P::At(us(a[0]) as u64, us(a[1]), us(a[2]))),
            "pre" => self.p.push(P::Pre(us(a[0]))),
            "par" => self.p.push(P::Par(us(a[0]), us(a[1]), us(a[2]))),
            "crowd" => self.p.push(P::Crowd(us(a[0]), us(a[1]), us(a[2]))),
            "go" => {
                let ln = *lens();
                let p = self.p.clone();
                let s = isolated(&mut || play(&p, &ln));
                ev.s.push_str(&s);
            }
            _ => panic!("HARNESS op {}", op),
        }
    }
}

/// the same makings again, alone, one after the other
fn alone(h: &mut Hist, objs: &[(u64, u64, usize)], first: usize) {
    for (q, (k, s, n)) in objs.iter().enumerate() {
        h.op(&format!("obj {} {}", k, s));
        if *n > 0 {
            h.op(&format!("st {} {}", first + q, n));
        }
    }
}
pub fn c35(run: &mut Run) {
    lens();
    let t = run.thorough;
    let free = |r: &mut Rng| if r.chance(1, 60) { 21 } else { r.below(KINDS as u64 - 1) };

    // one preemption, every pair of kinds several times; the same kind oftener
    for rep in 0..(if t { 30 } else { 2 }) {
        for ka in 0..KINDS as u64 {
            for kb in 0..KINDS as u64 {
                // a step of the sine integral is very long
                let reps = match (ka, kb) {
                    (21, 17 | 21) => 1 + 2 * t as u64,
                    (21, _) => 0,
                    (_, 21) => 1,
                    _ if ka == kb => 8,
                    _ => 1,
                };
                for _ in 0..reps {
                    let r = &mut run.rng;
                    let (sa, sb) = (r.below(1 << 30), r.below(1 << 30));
                    let warm = r.below(3) as usize;
                    let warmb = r.below(2) as usize;
                    let pm: Vec<i64> = (0..r.range(1, 3)).map(|_| if r.chance(1, 4) { 1000 + r.range(0, 120) } else { r.range(0, 999) }).collect();
                    let b = r.range(1, 3) as usize;
                    let late = (rep + r.below(2)) % 2 == 0;
                    let mut h = run.begin(Box::new(Reent::new()));
                    let made = [(ka, sa, warm + 2), (kb, sb, warmb + b * pm.len())];
                    let off = if late { 0 } else { alone(&mut h, &made, 0); 2 };
                    h.op(&format!("obj {} {}", ka, sa));
                    h.op(&format!("obj {} {}", kb, sb));
                    if warm > 0 {
                        h.op(&format!("st {} {}", off, warm));
                    }
                    if warmb > 0 {
                        h.op(&format!("st {} {}", off + 1, warmb));
                    }
                    for p in &pm {
                        h.op(&format!("at {} {} {}", p, off + 1, b));
                    }
                    h.op(&format!("pre {}", off));
                    h.op(&format!("st {}", off));
                    if late {
                        alone(&mut h, &made, 2);
                    }
                    h.op("go");
                    h.end(true);
                }
            }
        }
    }
    // the same few requests by both, one preemption at every instruction in turn
    for k in 0..KINDS as u64 - 1 {
        let len = lens()[k as usize] as i64;
        for _ in 0..(if t { 40 } else { 4 }) {
            let r = &mut run.rng;
            let step = (len / 400).max(1);
            let mut p = r.range(0, step - 1);
            while p < len {
                let r = &mut run.rng;
                let (sa, sb) = (FEW + r.below(1 << 20), FEW + r.below(1 << 20));
                let (b, n) = (r.range(1, 2) as usize, 50);
                let mut h = run.begin(Box::new(Reent::new()));
                h.op(&format!("obj {} {}", k, sa));
                h.op(&format!("obj {} {}", k, sb));
                h.op("st 0");
                for _ in 0..n {
                    h.op(&format!("at {} 1 {}", 1000 + p, b));
                    h.op("pre 0");
                    p += step;
                }
                alone(&mut h, &[(k, sa, n + 1), (k, sb, n * b)], 2);
                h.op("go");
                h.end(true);
            }
        }
    }
    // after a crowd
    for k in 0..KINDS as u64 - 1 {
        for n in [50, 300, 3000, 70000] {
            let r = &mut run.rng;
            let made = [(k, r.below(1 << 30), 12), (k, r.below(1 << 30), 4)];
            let (c, m) = (if r.chance(1, 3) { free(r).min(20) } else { k }, r.pick(&[1, 2, 9]));
            let mut h = run.begin(Box::new(Reent::new()));
            alone(&mut h, &made, 0);
            h.op(&format!("crowd {} {} {}", c, n, m));
            alone(&mut h, &made, 2);
            if t {
                h.op(&format!("crowd {} {} 1", k, 20 * n));
                alone(&mut h, &made, 4);
            }
            h.op("go");
            h.end(true);
        }
    }
    // three objects, several preemptions, interleavings
    for _ in 0..(if t { 8000 } else { 500 }) {
        let r = &mut run.rng;
        let k0 = free(r);
        let ks: Vec<u64> = (0..3).map(|_| if r.chance(1, 3) { k0 } else { free(r) }).collect();
        let mut made: Vec<(u64, u64, usize)> = ks.iter().map(|k| (*k, r.below(1 << 30), 0)).collect();
        let mut ops = vec![];
        for _ in 0..r.range(2, 6) {
            let i = r.below(3) as usize;
            if r.chance(1, 2) {
                for _ in 0..r.range(1, 2) {
                    let k = (i + r.range(1, 2) as usize) % 3;
                    ops.push(format!("at {} {} 1", r.range(0, 999), k));
                    made[k].2 += 1;
                }
                ops.push(format!("pre {}", i));
                made[i].2 += 1;
            } else {
                let n = r.range(1, 3) as usize;
                ops.push(format!("st {} {}", i, n));
                made[i].2 += n;
            }
        }
        let mut h = run.begin(Box::new(Reent::new()));
        for (k, s, _) in &made {
            h.op(&format!("obj {} {}", k, s));
        }
        for o in ops {
            h.op(&o);
        }
        alone(&mut h, &made, 3);
        h.op("go");
        h.end(true);
    }
    // real threads
    for _ in 0..(if t { 6000 } else { 400 }) {
        let r = &mut run.rng;
        let ka = free(r);
        let kb = if r.chance(1, 2) { ka } else { free(r) };
        let n = if ka == 21 || kb == 21 { 2 } else { r.range(8, 40) as usize };
        let made = [(ka, r.below(1 << 30), n), (kb, r.below(1 << 30), n)];
        let mut h = run.begin(Box::new(Reent::new()));
        for (k, s, _) in &made {
            h.op(&format!("obj {} {}", k, s));
        }
        h.op(&format!("par 0 1 {}", n));
        alone(&mut h, &made, 2);
        h.op("go");
        h.end(true);
    }
}
