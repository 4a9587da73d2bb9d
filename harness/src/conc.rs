//! Several threads on one buffer (C32).
//!
//! Two ways of running them:
//! * `prog` / `at` / `go`: a compiled program of two or three accesses runs
//!   with the processor's trap flag set, so that a signal handler gets control
//!   after every single machine instruction and plays the other thread at the
//!   chosen instructions.  This is deterministic and reaches every preemption
//!   point, also inside an access, and runs code the compiler optimised as a
//!   whole (accesses that are not really performed show).
//! * `par`: real threads, events ordered by time stamps taken outside each
//!   burst of accesses.
use crate::core::*;
use embedded_audio_tools::memory_access::*;
use std::arch::asm;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};

const N: usize = 4;
/// Values some code might treat apart from others.
const ODD: [u32; 24] = [
    0x7f80_0000, 0x7fc0_0000, 0x8000_0000, 1, 0xff80_0000, 0x0000_0000, 0x3f80_0000, 0x7f7f_ffff, 0xff80_0001, 0x7f80_0001, 0xbf80_0000, 0x0080_0000,
    0x8000_0001, 0xff7f_ffff, 0xffc0_0000, 0x007f_ffff, 0x3f7f_ffff, 0x4000_0000, 0x3f00_0000, 0x4b00_0000, 0xbf7f_ffff, 0x0001_0000, 0x0000_ffff, 0xffff_0000,
];
/// Odd values from which on (0: none); set before the threads begin.
static STYLE: AtomicUsize = AtomicUsize::new(0);
/// Bit pattern of version k: in style 0 all four bytes differ between any two
/// versions, else the first versions are odd values.
fn pat(k: u32) -> u32 {
    let s = STYLE.load(Relaxed) as u32;
    if s > 0 && k > 0 && k <= 24 {
        return ODD[((k + s - 2) % 24) as usize];
    }
    ((k & 0x7f) << 24) | ((k ^ 0xff) & 0xff) << 16 | ((k ^ 0x5a) & 0xff) << 8 | (k + 0x33) & 0xff
}
fn ver(w: u32) -> i64 {
    let s = STYLE.load(Relaxed) as i64;
    if let (true, Some(i)) = (s > 0, ODD.iter().position(|x| *x == w)) {
        return (i as i64 - s + 1).rem_euclid(24) + 1;
    }
    let k = w >> 24;
    if k <= 120 && pat(k) == w {
        k as i64
    } else {
        -1
    }
}
fn f(k: u32) -> f32 {
    f32::from_bits(pat(k))
}

// ------------------------------------------------------------ single stepping
#[repr(C)]
pub struct SigAction {
    pub handler: usize,
    pub mask: [u64; 16],
    pub flags: i32,
    pub restorer: usize,
}
extern "C" {
    pub fn sigaction(s: i32, a: *const SigAction, o: *mut SigAction) -> i32;
}
const BEGIN: u32 = 0x1000_0001;
const END: u32 = 0x1000_0002;
macro_rules! mark {
    ($i:expr) => {
        // nopl imm32(%rax): recognised by the handler; no effect on memory
        unsafe {
            asm!(".byte 0x0f,0x1f,0x80", ".long {}", const $i, options(nomem, nostack, preserves_flags))
        }
    };
}

#[derive(Clone, Copy, PartialEq)]
enum L {
    Wb(i64, usize, u32), // thread, cell, version
    We(i64),             // thread
    Rb(i64, usize, i64), // thread, first cell, number of cells (wrapped)
    Re2(usize),          // T2 read ended; index into VALS
    Re1(usize),          // T1's read number i ended
}
struct Step {
    on: bool,
    phase: usize,
    j: usize,
    pts: [(usize, usize, usize); 8],
    npts: usize,
    next: usize,
    log: [L; 512],
    nlog: usize,
    vals: [[u32; 4]; 128],
    nvals: usize,
    t1: [(u8, usize); 8], // kind and cell of T1's accesses
    t1v: [u32; 8],        // and the versions written
    own2: [bool; N],
    v2: [u32; N],
    w: Option<MemorySlice<Mutable>>,
    r: Option<MemorySlice<NonMutable>>,
    lens: [usize; 20],
    trapped: u64,
}
static mut ST: Step = Step {
    on: false,
    phase: 0,
    j: 0,
    pts: [(0, 0, 0); 8],
    npts: 0,
    next: 0,
    log: [L::We(0); 512],
    nlog: 0,
    vals: [[0; 4]; 128],
    nvals: 0,
    t1: [(0, 0); 8],
    t1v: [0; 8],
    own2: [false; N],
    v2: [0; N],
    w: None,
    r: None,
    lens: [0; 20],
    trapped: 0,
};

#[allow(static_mut_refs)]
fn lg(e: L) {
    unsafe {
        if ST.nlog < 512 {
            ST.log[ST.nlog] = e;
            ST.nlog += 1;
        }
    }
}
fn is_write(k: u8) -> bool {
    k >= 5
}

/// The other thread: a burst of whole accesses.
#[allow(static_mut_refs)]
fn burst(kind: usize) {
    unsafe {
        let (mut w, r) = (ST.w.unwrap(), ST.r.unwrap());
        // reads before (and, as for 2, after) the writes
        if kind == 5 {
            for c in 0..N {
                lg(L::Rb(2, c, 1));
                let v = r.get_wrapped(c as isize);
                ST.vals[ST.nvals] = [v.to_bits(), 0, 0, 0];
                lg(L::Re2(ST.nvals));
                ST.nvals += 1;
            }
        }
        if kind == 2 || kind == 3 || kind == 4 || kind == 5 {
            for rep in 0..(if kind == 4 { 2 } else { 1 }) {
                for c in 0..N {
                    if ST.own2[c] {
                        ST.v2[c] += 1;
                        lg(L::Wb(2, c, ST.v2[c]));
                        if (c + rep) & 1 == 0 {
                            let _ = w.assign(c, f(ST.v2[c]));
                        } else {
                            w.assign_unchecked(c, f(ST.v2[c]));
                        }
                        lg(L::We(2));
                    }
                }
            }
        }
        if kind == 1 || kind == 2 || kind == 4 || kind == 5 {
            for c in 0..N {
                lg(L::Rb(2, c, 1));
                let v = r.get(c).map(|x| x.to_bits()).unwrap_or(u32::MAX);
                ST.vals[ST.nvals] = [v, 0, 0, 0];
                lg(L::Re2(ST.nvals));
                ST.nvals += 1;
            }
        }
        if kind == 3 {
            lg(L::Rb(2, 2, 4));
            let v = r.get_slice_of_four_wrapped(2 - 4);
            ST.vals[ST.nvals] = [v[0].to_bits(), v[1].to_bits(), v[2].to_bits(), v[3].to_bits()];
            lg(L::Re2(ST.nvals));
            ST.nvals += 1;
        }
    }
}

#[allow(static_mut_refs)]
fn due(all_of_phase: bool) {
    unsafe {
        while ST.next < ST.npts {
            let (p, j, b) = ST.pts[ST.next];
            if p < ST.phase || p == ST.phase && (j <= ST.j || all_of_phase) {
                ST.next += 1;
                burst(b);
            } else {
                break;
            }
        }
    }
}

#[allow(static_mut_refs)]
extern "C" fn on_trap(_s: i32, _i: *mut u8, ctx: *mut u64) {
    unsafe {
        if !ST.on {
            return;
        }
        ST.trapped += 1;
        let rip = *ctx.add(5 + 16) as *const u8;
        ST.j += 1;
        if *rip == 0x0f && *rip.add(1) == 0x1f && *rip.add(2) == 0x80 {
            let id = (rip.add(3) as *const u32).read_unaligned();
            if id == BEGIN || id == END {
                due(true);
                let i = ST.phase / 2;
                if i < 8 {
                    let (k, c) = ST.t1[i];
                    if id == BEGIN {
                        if is_write(k) {
                            lg(L::Wb(1, c, ST.t1v[i]))
                        } else {
                            lg(L::Rb(1, c, if k == 4 { 4 } else { 1 }))
                        }
                    } else if is_write(k) {
                        lg(L::We(1))
                    } else {
                        lg(L::Re1(i))
                    }
                }
                if ST.phase < 20 {
                    ST.lens[ST.phase] = ST.j;
                }
                ST.phase += 1;
                ST.j = 0;
            }
        }
        due(false);
    }
}
pub struct Trap;
impl Trap {
    #[inline(always)]
    pub fn on() -> Trap {
        unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
        Trap
    }
}
impl Drop for Trap {
    #[inline(always)]
    fn drop(&mut self) {
        unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
    }
}

// ------------------------------------------------------------------ programs
type Out = [[f32; 4]; 8];
#[inline(always)]
fn access<const K: u8>(s: &mut MemorySlice<Mutable>, c: usize, x: f32) -> [f32; 4] {
    let nan = f32::from_bits(u32::MAX);
    match K {
        0 => [s.get(c).unwrap_or(nan), 0.0, 0.0, 0.0],
        1 => [unsafe { s.get_unchecked(c) }, 0.0, 0.0, 0.0],
        2 => [s.get_wrapped(c as isize), 0.0, 0.0, 0.0],
        3 => [s.get_wrapped(c as isize - 3 * N as isize), 0.0, 0.0, 0.0],
        4 => s.get_slice_of_four_wrapped(c as isize),
        5 => {
            let _ = s.assign(c, x);
            [0.0; 4]
        }
        _ => {
            unsafe { s.assign_unchecked(c, x) };
            [0.0; 4]
        }
    }
}
#[inline(never)]
fn prog<const A: u8, const B: u8, const C: u8, const D: usize>(
    mut s: MemorySlice<Mutable>,
    c: usize,
    w: &[f32; 8],
    out: &mut Out,
) {
    let d = (c + D % 2) % N;
    if D == 2 {
        // what a caller with a buffer of fixed size lets the compiler know
        unsafe { std::hint::assert_unchecked(c < N && s.len() == N) };
    }
    mark!(BEGIN);
    let a = access::<A>(&mut s, c, w[0]);
    mark!(END);
    mark!(BEGIN);
    let b = access::<B>(&mut s, d, w[1]);
    mark!(END);
    if C != 7 {
        mark!(BEGIN);
        out[2] = access::<C>(&mut s, c, w[2]);
        mark!(END);
    }
    out[0] = a;
    out[1] = b;
}
/// The same access in a loop; every read waits for a value or three rounds.
#[inline(never)]
fn looped<const A: u8, const D: usize>(mut s: MemorySlice<Mutable>, c: usize, w: &[f32; 8], out: &mut Out) {
    if D == 2 {
        unsafe { std::hint::assert_unchecked(c < N && s.len() == N) };
    }
    for i in 0..3 {
        mark!(BEGIN);
        let a = access::<A>(&mut s, c, w[i]);
        mark!(END);
        out[i] = a;
    }
}
type P = fn(MemorySlice<Mutable>, usize, &[f32; 8], &mut Out);
macro_rules! row {
    ($a:literal, $b:expr, $c:expr, $d:expr; $($l:literal)*) => {
        match ($b, $c, $d) {
            (9, _, 2) => looped::<$a, 2> as P,
            (9, _, _) => looped::<$a, 0> as P,
            $(($l, 7, 0) => prog::<$a, $l, 7, 0> as P,
              ($l, 7, 1) => prog::<$a, $l, 7, 1> as P,
              ($l, 7, _) => prog::<$a, $l, 7, 2> as P,
              ($l, 0, _) => prog::<$a, $l, 0, 0> as P,
              ($l, _, _) => prog::<$a, $l, 5, 0> as P,)*
            _ => panic!("HARNESS no such program"),
        }
    };
}
fn table(a: u8, b: u8, c: u8, d: usize) -> P {
    match a {
        0 => row!(0, b, c, d; 0 1 2 3 4 5 6),
        1 => row!(1, b, c, d; 0 1 2 3 4 5 6),
        2 => row!(2, b, c, d; 0 1 2 3 4 5 6),
        3 => row!(3, b, c, d; 0 1 2 3 4 5 6),
        4 => row!(4, b, c, d; 0 1 2 3 4 5 6),
        5 => row!(5, b, c, d; 0 1 2 3 4 5 6),
        _ => row!(6, b, c, d; 0 1 2 3 4 5 6),
    }
}

/// May values of the type be moved to (shared with) other threads?
struct Caps<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T> No for Caps<T> {}
#[allow(dead_code)]
impl<T: Send> Caps<T> {
    const SEND: bool = true;
}
#[allow(dead_code)]
impl<T: Sync> Caps<T> {
    const SYNC: bool = true;
}
/// The threads run (and are judged by what they read) whatever the answer.
#[derive(Clone, Copy)]
pub struct Moved<T>(pub T);
unsafe impl<T> Send for Moved<T> {}
impl<T: Copy> Moved<T> {
    pub fn get(&self) -> T {
        self.0
    }
}

pub struct Conc {
    ar: Arena,
    prog: (usize, u8, u8, u8, usize, usize),
    pts: Vec<(usize, usize, usize)>,
}
impl Conc {
    pub fn new() -> Conc {
        Conc {
            ar: Arena::new(N + 2),
            prog: (0, 0, 0, 7, 0, 0),
            pts: vec![],
        }
    }
    fn slices(&mut self, view: usize) -> MemorySlice<Mutable> {
        for i in 0..N + 2 {
            self.ar.set(i, f(if i == 0 || i == N + 1 { 99 } else { 0 }));
        }
        let whole = self.ar.slice_mut(0, N + 2);
        let part = self.ar.slice_mut(1, N);
        match view {
            0 => from_slice_mut(part),
            _ => from_slice_mut(whole).get_sub_slice(1, N).ok().expect("HARNESS sub"),
        }
    }
    fn quiet(&self, ev: &mut Ev, both: bool) {
        let m: Vec<i64> = (1..=N).map(|i| ver(self.ar.get(i).to_bits())).collect();
        let g = self.ar.guards_ok()
            && ver(self.ar.get(0).to_bits()) == 99
            && ver(self.ar.get(N + 1).to_bits()) == 99;
        put(ev, if both { "squiet" } else { "quiet" });
        ev.ok().ints("m", &m).int("g", g as i64);
    }
}
/// close the current event and begin the next
fn put(ev: &mut Ev, op: &str) {
    ev.s.push_str("},{\"o\":\"");
    ev.s.push_str(op);
    ev.s.push('"');
}
fn cells(c: usize, n: i64) -> Vec<i64> {
    (0..n as usize).map(|i| ((c + i) % N) as i64 + 1).collect()
}

impl Dom for Conc {
    #[allow(static_mut_refs)]
    fn exec(&mut self, op: &str, a: &[&str], ev: &mut Ev) {
        match op {
            // prog view A B C d cell (view: whole or part, + 2 * style, + 64: shared cells)
            "prog" => {
                let v: Vec<usize> = a.iter().map(|x| us(x)).collect();
                self.prog = (v[0], v[1] as u8, v[2] as u8, v[3] as u8, v[4], v[5]);
                ev.ok();
            }
            "caps" => {
                let b = [
                    Caps::<MemorySlice<Mutable>>::SEND,
                    Caps::<MemorySlice<Mutable>>::SYNC,
                    Caps::<MemorySlice<NonMutable>>::SEND,
                    Caps::<MemorySlice<NonMutable>>::SYNC,
                ];
                ev.ok().ints("b", &b.map(|x| x as i64));
            }
            "at" => {
                self.pts.push((us(a[0]), us(a[1]), us(a[2])));
                ev.s = "{\"o\":\"prog\"".into();
                ev.ok();
            }
            "go" => {
                let (view, ka, kb, kc, d, c) = self.prog;
                // from 64 on both threads write every cell
                let (both, view) = (view >= 64, view % 64);
                let s_ = if both { "s" } else { "" };
                STYLE.store(view / 2, Relaxed);
                let s = self.slices(view % 2);
                let mut ks: Vec<(u8, usize)> = if kb == 9 {
                    vec![(ka, c), (ka, c), (ka, c)]
                } else {
                    vec![(ka, c), (kb, (c + d % 2) % N)]
                };
                if kc != 7 {
                    ks.push((kc, c));
                }
                let mut own2 = [true; N];
                let mut v1 = [0u32; N];
                let mut w = [0f32; 8];
                unsafe {
                    ST.t1 = [(0, 0); 8];
                    for (i, &(k, x)) in ks.iter().enumerate() {
                        ST.t1[i] = (k, x);
                        if is_write(k) {
                            own2[x] = both;
                            v1[x] += 1;
                            ST.t1v[i] = v1[x];
                            w[i] = f(v1[x]);
                        }
                    }
                    ST.own2 = own2;
                    ST.v2 = [if both { 9 } else { 0 }; N];
                    ST.phase = 0;
                    ST.j = 0;
                    ST.npts = self.pts.len().min(8);
                    for i in 0..ST.npts {
                        ST.pts[i] = self.pts[i];
                    }
                    ST.next = 0;
                    ST.nlog = 0;
                    ST.nvals = 0;
                    ST.lens = [0; 20];
                    ST.w = Some(s);
                    ST.r = Some(from_slice(self.ar.slice_mut(1, N)));
                    let sa = SigAction {
                        handler: on_trap as *const () as usize,
                        mask: [0; 16],
                        flags: 4,
                        restorer: 0,
                    };
                    sigaction(5, &sa, std::ptr::null_mut());
                    ST.on = true;
                }
                let p = table(ka, kb, kc, d);
                let mut out: Out = [[0.0; 4]; 8];
                {
                    let t = Trap::on();
                    p(std::hint::black_box(s), std::hint::black_box(c), &w, &mut out);
                    drop(t);
                }
                unsafe {
                    ST.on = false;
                    if ST.phase != 2 * ks.len() {
                        panic!("HARNESS single stepping saw {} markers of {}", ST.phase, 2 * ks.len());
                    }
                    due(true);
                    ST.phase = 99;
                    due(true);
                    ev.s = "{\"o\":\"prog\"".into();
                    ev.ok();
                    for i in 0..ST.nlog {
                        match ST.log[i] {
                            L::Wb(t, x, v) => {
                                put(ev, &format!("{}wb", s_));
                                ev.ok().int("t", t).int("c", x as i64 + 1).int("n", if both { v as i64 } else { 1 });
                            }
                            L::We(t) => {
                                put(ev, &format!("{}we", s_));
                                ev.ok().int("t", t);
                            }
                            L::Rb(t, x, n) => {
                                put(ev, &format!("{}rb", s_));
                                ev.ok().int("t", t).ints("c", &cells(x, n));
                            }
                            L::Re1(x) => {
                                put(ev, &format!("{}re", s_));
                                let n = if ks[x].0 == 4 { 4 } else { 1 };
                                let v: Vec<i64> = out[x][..n].iter().map(|y| ver(y.to_bits())).collect();
                                ev.ok().int("t", 1).ints("v", &v);
                            }
                            L::Re2(x) => {
                                put(ev, &format!("{}re", s_));
                                let v = ST.vals[x];
                                // a burst of four is logged by its begin event
                                let n = match ST.log[i - 1] {
                                    L::Rb(_, _, n) => n as usize,
                                    _ => 1,
                                };
                                let v: Vec<i64> = v[..n].iter().map(|y| ver(*y)).collect();
                                ev.ok().int("t", 2).ints("v", &v);
                            }
                        }
                    }
                }
                self.quiet(ev, both);
            }
            // par seed threads bursts
            "par" => {
                let (seed, nt, nb) = (us(a[0]) as u64, us(a[1]), us(a[2]));
                STYLE.store(if seed & 8 == 0 { 0 } else { 1 + seed as usize % 24 }, Relaxed);
                let s = self.slices(seed as usize & 1);
                let evs = par(s, seed, nt, nb);
                ev.s = "{\"o\":\"prog\"".into();
                ev.ok();
                for (_, e) in evs {
                    ev.s.push_str("},");
                    ev.s.push_str(&e[..e.len() - 1]);
                }
                self.quiet(ev, false);
            }
            _ => panic!("HARNESS op {}", op),
        }
    }
}

/// Real threads: thread t < 3 writes cells c with c % 2 == t - 1 (when nt > 2,
/// the others only read); bursts of accesses between time stamps.
fn par(s: MemorySlice<Mutable>, seed: u64, nt: usize, nb: usize) -> Vec<(u64, String)> {
    static CLOCK: AtomicU64 = AtomicU64::new(0);
    static READY: AtomicUsize = AtomicUsize::new(0);
    CLOCK.store(0, SeqCst);
    READY.store(0, SeqCst);
    let mut hs = vec![];
    for t in 1..=nt {
        let moved = Moved(s);
        hs.push(std::thread::spawn(move || {
            let mut s = moved.get();
            let mut r = Rng::new(seed * 16 + t as u64);
            let mut ver_ = [0u32; N];
            let mut raw: Vec<(u64, u64, usize, bool, Vec<u32>, Vec<usize>)> = Vec::with_capacity(nb);
            READY.fetch_add(1, SeqCst);
            while READY.load(SeqCst) < nt {
                std::hint::spin_loop();
            }
            for _ in 0..nb {
                let own: Vec<usize> = (0..N).filter(|c| t <= 2 && c % 2 == t - 1).collect();
                if t <= 2 && r.chance(1, 2) {
                    let c = r.pick(&own);
                    let n = r.range(1, 6) as u32;
                    let unchecked = r.chance(1, 2);
                    let v0 = ver_[c];
                    let b = CLOCK.fetch_add(1, SeqCst);
                    for k in 1..=n {
                        if unchecked {
                            unsafe { s.assign_unchecked(c, f(v0 + k)) };
                        } else {
                            let _ = s.assign(c, f(v0 + k));
                        }
                    }
                    let e = CLOCK.fetch_add(1, SeqCst);
                    ver_[c] += n;
                    raw.push((b, e, c, true, vec![n], vec![]));
                } else {
                    let c = r.below(N as u64) as usize;
                    let kind = r.below(4);
                    let n = r.range(1, 24) as usize;
                    let mut vs = vec![0u32; if kind == 3 { 4 * n } else { n }];
                    let b = CLOCK.fetch_add(1, SeqCst);
                    match kind {
                        0 => vs.iter_mut().for_each(|v| *v = s.get(c).map(|x| x.to_bits()).unwrap_or(u32::MAX)),
                        1 => vs.iter_mut().for_each(|v| *v = unsafe { s.get_unchecked(c) }.to_bits()),
                        2 => vs.iter_mut().for_each(|v| *v = s.get_wrapped(c as isize - 8).to_bits()),
                        _ => {
                            for v in vs.chunks_mut(4) {
                                let q = s.get_slice_of_four_wrapped(c as isize);
                                for i in 0..4 {
                                    v[i] = q[i].to_bits();
                                }
                            }
                        }
                    }
                    let e = CLOCK.fetch_add(1, SeqCst);
                    let cs = if kind == 3 { (0..4 * n).map(|i| (c + i % 4) % N).collect() } else { vec![c; n] };
                    raw.push((b, e, 0, false, vs, cs));
                }
            }
            (t, raw)
        }));
    }
    let mut evs = vec![];
    for h in hs {
        let (t, raw) = h.join().unwrap_or_else(|_| panic!("a thread panicked"));
        for (b, e, c, wr, vs, cs) in raw {
            if wr {
                let mut x = Ev::new("wb");
                x.ok().int("t", t as i64).int("c", c as i64 + 1).int("n", vs[0] as i64);
                evs.push((b, x.done()));
                let mut x = Ev::new("we");
                x.ok().int("t", t as i64);
                evs.push((e, x.done()));
            } else {
                let mut x = Ev::new("rb");
                x.ok().int("t", t as i64).ints("c", &cs.iter().map(|c| *c as i64 + 1).collect::<Vec<_>>());
                evs.push((b, x.done()));
                let mut x = Ev::new("re");
                x.ok().int("t", t as i64).ints("v", &vs.iter().map(|v| ver(*v)).collect::<Vec<_>>());
                evs.push((e, x.done()));
            }
        }
    }
    evs.sort_by_key(|e| e.0);
    evs
}

pub fn c32(run: &mut Run) {
    let mut h = run.begin(Box::new(Conc::new()));
    h.op("caps");
    h.end(true);
    // every instruction of randomly chosen programs, one preemption
    let n = if run.thorough { 150 } else { 12 };
    for _ in 0..n {
        let r = &mut run.rng;
        let odd = r.below(2) * r.range(1, 24) as u64;
        let (view, a, b) = (r.below(2) + 2 * odd, r.below(7), r.pick(&[0, 1, 2, 3, 4, 5, 6, 9]));
        let c = if b == 9 { 7 } else { r.pick(&[7, 7, 0, 5]) };
        let d = if b == 9 { 2 * r.below(2) } else if c != 7 { 0 } else { r.below(3) };
        let cell = r.below(4);
        let both = r.chance(1, 3);
        let u = if both { r.pick(&[5, 5, 4]) } else { r.pick(&[2, 2, 3, 4]) };
        let head = format!("prog {} {} {} {} {} {}", view + if both { 64 } else { 0 }, a, b, c, d, cell);
        let np = if b == 9 || c != 7 { 6 } else { 4 };
        for p in 0..=np {
            let mut j = 0;
            loop {
                let mut h = run.begin(Box::new(Conc::new()));
                h.op(&head);
                h.op(&format!("at {} {} {}", p, j, u));
                h.op("go");
                h.end(true);
                let len = unsafe { ST.lens[p] };
                j += 1;
                if j > len.min(60) || p == np {
                    break;
                }
            }
        }
    }
    // random programs, several preemptions
    for _ in 0..(if run.thorough { 6000 } else { 500 }) {
        let r = &mut run.rng;
        let odd = r.below(2) * r.range(1, 24) as u64;
        let (view, a, b) = (r.below(2) + 2 * odd, r.below(7), r.pick(&[0, 1, 2, 3, 4, 5, 6, 9]));
        let c = if b == 9 { 7 } else { r.pick(&[7, 0, 5]) };
        let d = if b == 9 { 2 * r.below(2) } else if c != 7 { 0 } else { r.below(3) };
        let mut pts: Vec<(i64, i64, i64)> =
            (0..r.range(1, 6)).map(|_| (r.range(0, 6), r.range(0, 14), r.range(1, 5))).collect();
        pts.sort();
        let view = view + if r.chance(1, 3) { 64 } else { 0 };
        let head = format!("prog {} {} {} {} {} {}", view, a, b, c, d, r.below(4));
        let mut h = run.begin(Box::new(Conc::new()));
        h.op(&head);
        for (p, j, u) in pts {
            h.op(&format!("at {} {} {}", p, j, u));
        }
        h.op("go");
        h.end(true);
    }
    // real threads
    for i in 0..(if run.thorough { 4000 } else { 300 }) {
        let s = run.rng.below(1 << 40);
        let mut h = run.begin(Box::new(Conc::new()));
        h.op(&format!("par {} {} {}", s, 2 + i % 3, 14));
        h.end(true);
    }
}
