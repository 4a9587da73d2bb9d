//! Infrastructure shared by all drivers: event encoding, histories, crash
//! capture, deterministic random numbers.
//!
//! A *history* is a list of events, one JSON object each; every event is one
//! call into the code under test with its arguments and everything it
//! returned.  Histories are written one per line (a JSON array) and judged by
//! TLC against the TLA+ specification; nothing in this crate decides whether
//! an event is right.  `suspect()` only selects which of very many executed
//! histories are handed to TLC in addition to the sampled ones.

use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    /// a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
    pub fn f01(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

/// Scaled-integer encoding of a float: `[n, c]` with
/// c = 0: value is exactly n / 2^k;  1: n is the nearest integer;
/// 2: NaN;  3: +inf;  4: -inf;  5: magnitude too large (n saturated).
pub fn enc(v: f32, k: i32) -> (i64, i32) {
    enc64(v as f64, k)
}
/// The same for a value already rescaled by a power of two.
pub fn enc64(v: f64, k: i32) -> (i64, i32) {
    if v.is_nan() {
        return (0, 2);
    }
    if v.is_infinite() {
        return (0, if v > 0.0 { 3 } else { 4 });
    }
    let x = v * (2f64).powi(k);
    if x.abs() >= 1073741824.0 {
        return (if x > 0.0 { 1073741824 } else { -1073741824 }, 5);
    }
    let r = x.round();
    (r as i64, if r == x { 0 } else { 1 })
}

#[derive(Default)]
pub struct Ev {
    pub s: String,
}
impl Ev {
    pub fn new(op: &str) -> Ev {
        Ev {
            s: format!("{{\"o\":\"{}\"", op),
        }
    }
    pub fn int(&mut self, k: &str, v: i64) -> &mut Self {
        self.s.push_str(&format!(",\"{}\":{}", k, v));
        self
    }
    pub fn str(&mut self, k: &str, v: &str) -> &mut Self {
        let clean: String = v
            .chars()
            .map(|c| {
                if c == '"' || c == '\\' || (c as u32) < 32 {
                    ' '
                } else {
                    c
                }
            })
            .collect();
        self.s.push_str(&format!(",\"{}\":\"{}\"", k, clean));
        self
    }
    pub fn val(&mut self, k: &str, v: f32, scale: i32) -> &mut Self {
        let (n, c) = enc(v, scale);
        self.s.push_str(&format!(",\"{}\":[{},{}]", k, n, c));
        self
    }
    pub fn val64(&mut self, k: &str, v: f64, scale: i32) -> &mut Self {
        let (n, c) = enc64(v, scale);
        self.s.push_str(&format!(",\"{}\":[{},{}]", k, n, c));
        self
    }
    pub fn ints(&mut self, k: &str, v: &[i64]) -> &mut Self {
        let j: Vec<String> = v.iter().map(|x| x.to_string()).collect();
        self.s.push_str(&format!(",\"{}\":[{}]", k, j.join(",")));
        self
    }
    pub fn ok(&mut self) -> &mut Self {
        self.str("k", "ok")
    }
    pub fn err(&mut self, e: &str) -> &mut Self {
        self.str("k", "err").str("e", e)
    }
    /// 32-bit pattern as two 16-bit limbs [hi, lo]
    pub fn word(&mut self, k: &str, w: u32) -> &mut Self {
        self.ints(k, &[(w >> 16) as i64, (w & 0xffff) as i64])
    }
    pub fn done(mut self) -> String {
        self.s.push('}');
        self.s
    }
}

pub trait Dom {
    /// Execute one operation on the code under test and describe it.
    fn exec(&mut self, op: &str, a: &[&str], ev: &mut Ev);
    /// True once a cheap reference computation disagreed (selection only).
    fn suspect(&self) -> bool {
        false
    }
    /// False once the history left the range the driver wants to stay in.
    fn in_range(&self) -> bool {
        true
    }
}

// ---------------------------------------------------------------- crash dump
extern "C" {
    fn signal(sig: i32, h: usize) -> usize;
    fn alarm(s: u32) -> u32;
    fn setitimer(which: i32, new: *const i64, old: *mut i64) -> i32;
    fn write(fd: i32, p: *const core::ffi::c_void, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}
pub static mut HIST: String = String::new();
pub static mut PENDING: String = String::new();
static mut CRASH_FD: i32 = -1;

#[allow(static_mut_refs)]
extern "C" fn on_signal(sig: i32) {
    unsafe {
        let what: &[u8] = if sig == 14 || sig == 27 { b"hang" } else { b"crash" };
        let w = |b: &[u8]| {
            write(CRASH_FD, b.as_ptr().cast(), b.len());
        };
        w(b"[");
        w(HIST.as_bytes());
        if !HIST.is_empty() {
            w(b",");
        }
        w(b"{\"o\":\"");
        let op = PENDING.split(' ').next().unwrap_or("?");
        w(op.as_bytes());
        w(b"\",\"k\":\"");
        w(what);
        w(b"\",\"e\":\"");
        w(PENDING.as_bytes());
        w(b"\"}]\n");
        _exit(77)
    }
}

/// So much processor time until the call counts as hanging (a busy machine
/// does not: ten times that on the clock), 0: none.
pub fn arm(secs: u32) {
    unsafe {
        let t = [0i64, 0, secs as i64, 0];
        setitimer(2, t.as_ptr(), std::ptr::null_mut());
        alarm(secs * 10);
    }
}

pub struct Run {
    pub out: BufWriter<File>,
    pub ops: Option<BufWriter<File>>,
    pub rng: Rng,
    pub thorough: bool,
    pub kept: u64,
    pub kept_events: u64,
    pub executed: u64,
    pub events: u64,
    pub suspects: u64,
    pub swept: u64,
    pub oplog: String,
}

pub struct Hist<'a> {
    pub run: &'a mut Run,
    dom: Box<dyn Dom>,
    pub ended: bool,
    n: u64,
    pub bad: bool,
}

impl Run {
    pub fn new(path: &str, seed: u64, thorough: bool) -> Run {
        std::panic::set_hook(Box::new(|_| {}));
        let crash = File::create(format!("{}.crash", path)).unwrap();
        unsafe {
            use std::os::fd::IntoRawFd;
            CRASH_FD = crash.into_raw_fd();
            for s in [4, 6, 7, 8, 11, 14, 27] {
                signal(s, on_signal as *const () as usize);
            }
            // a stack that overflowed cannot run the handler: use the one the
            // runtime keeps for that
            for s in [7, 11] {
                let sa = crate::conc::SigAction {
                    handler: on_signal as *const () as usize,
                    mask: [0; 16],
                    flags: 0x0800_0000,
                    restorer: 0,
                };
                crate::conc::sigaction(s, &sa, std::ptr::null_mut());
            }
        }
        Run {
            out: BufWriter::new(File::create(path).unwrap()),
            ops: Some(BufWriter::new(File::create(format!("{}.ops", path)).unwrap())),
            rng: Rng::new(seed),
            thorough,
            kept: 0,
            kept_events: 0,
            executed: 0,
            events: 0,
            suspects: 0,
            swept: 0,
            oplog: String::new(),
        }
    }
    #[allow(static_mut_refs)]
    pub fn begin(&mut self, dom: Box<dyn Dom>) -> Hist<'_> {
        unsafe {
            HIST.clear();
        }
        self.oplog.clear();
        arm(30);
        Hist {
            run: self,
            dom,
            ended: false,
            n: 0,
            bad: false,
        }
    }
    pub fn finish(mut self) {
        arm(0);
        self.out.flush().unwrap();
        if let Some(o) = self.ops.as_mut() {
            o.flush().unwrap();
        }
        println!(
            "{{\"histories\":{},\"kept\":{},\"events\":{},\"kept_events\":{},\"suspects\":{},\"swept\":{}}}",
            self.executed, self.kept, self.events, self.kept_events, self.suspects, self.swept
        );
    }
}

impl<'a> Hist<'a> {
    /// Run one operation; returns the event text.
    #[allow(static_mut_refs)]
    pub fn op(&mut self, line: &str) -> String {
        if self.ended {
            return String::new();
        }
        unsafe {
            PENDING.clear();
            PENDING.push_str(line);
        }
        self.run.oplog.push_str(line);
        self.run.oplog.push(';');
        let toks: Vec<&str> = line.split(' ').filter(|t| !t.is_empty()).collect();
        let mut ev = Ev::new(toks[0]);
        let dom = &mut self.dom;
        let r = catch_unwind(AssertUnwindSafe(|| dom.exec(toks[0], &toks[1..], &mut ev)));
        let text = match r {
            Ok(()) => ev.done(),
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                let mut e = Ev::new(toks[0]);
                e.str("k", "panic").str("e", &m).str("call", line);
                let n: Vec<i64> = toks[1..].iter().filter_map(|t| t.parse().ok()).collect();
                e.ints("a", &n);
                self.ended = true;
                self.bad = true;
                e.done()
            }
        };
        unsafe {
            if !HIST.is_empty() {
                HIST.push(',');
            }
            HIST.push_str(&text);
        }
        self.n += 1;
        if self.dom.suspect() {
            self.ended = true;
            self.bad = true;
        }
        text
    }
    pub fn run_small(&self) -> bool {
        self.dom.in_range()
    }
    /// Close the history; it goes to TLC if `keep` or if it looked suspicious.
    #[allow(static_mut_refs)]
    pub fn end(self, keep: bool) {
        let r = self.run;
        r.executed += 1;
        r.events += self.n;
        if self.bad {
            r.suspects += 1;
        }
        // a flood of suspects adds nothing: the first 200 are enough
        if keep || (self.bad && r.suspects <= 200) {
            r.kept += 1;
            r.kept_events += self.n;
            unsafe {
                writeln!(r.out, "[{}]", HIST).unwrap();
            }
            if let Some(o) = r.ops.as_mut() {
                writeln!(o, "{}", r.oplog).unwrap();
            }
        }
    }
}

/// Sample memory between an inaccessible page on one side and poison - NaNs
/// with recognisable payloads - on the other.  Which side is which depends on
/// the size only, so that a history replays alike.
pub struct Arena {
    map: *mut u8,
    len: usize,
    base: *mut f32,
    pub n: usize,
    end: bool, // cells end at the inaccessible page (else: begin at it)
}
pub const G: usize = 256;
const PAGE: usize = 4096;
fn poison(i: usize) -> u32 {
    0x7fc5_0000 | (i as u32 & 0xffff)
}
extern "C" {
    pub fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn munmap(a: *mut u8, n: usize) -> i32;
    pub fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}
impl Arena {
    pub fn new(n: usize) -> Arena {
        if n > 1 << 24 {
            panic!("HARNESS arena of {}", n);
        }
        let end = n % 3 != 0;
        let body = ((n + G) * 4).div_ceil(PAGE) * PAGE;
        let len = body + 2 * PAGE;
        unsafe {
            // PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS
            let map = mmap(core::ptr::null_mut(), len, 0, 0x22, -1, 0);
            if map as isize == -1 || mprotect(map.add(PAGE), body, 3) != 0 {
                panic!("HARNESS mmap");
            }
            let base = if end { map.add(PAGE + body - 4 * n) } else { map.add(PAGE) } as *mut f32;
            let a = Arena { map, len, base, n, end };
            for i in 0..G {
                a.guard(i).write_volatile(f32::from_bits(poison(i)));
            }
            a
        }
    }
    fn guard(&self, i: usize) -> *mut f32 {
        if self.end {
            self.base.wrapping_sub(i + 1)
        } else {
            self.base.wrapping_add(self.n + i)
        }
    }
    pub fn base(&self) -> *mut f32 {
        self.base
    }
    pub fn get(&self, i: usize) -> f32 {
        unsafe { self.base().add(i).read_volatile() }
    }
    pub fn set(&mut self, i: usize, x: f32) {
        unsafe { self.base().add(i).write_volatile(x) }
    }
    pub fn slice_mut(&self, b: usize, n: usize) -> &'static mut [f32] {
        unsafe { std::slice::from_raw_parts_mut(self.base().add(b), n) }
    }
    pub fn guards_ok(&self) -> bool {
        (0..G).all(|i| unsafe { self.guard(i).read_volatile().to_bits() == poison(i) })
    }
}
impl Drop for Arena {
    fn drop(&mut self) {
        unsafe {
            munmap(self.map, self.len);
        }
    }
}

pub fn int(s: &str) -> i64 {
    s.parse::<i64>().unwrap_or_else(|_| panic!("HARNESS bad int {}", s))
}

pub fn us(s: &str) -> usize {
    s.parse::<u64>().unwrap_or_else(|_| panic!("HARNESS bad uint {}", s)) as usize
}
pub fn clampu(i: usize) -> i64 {
    i.min(1 << 30) as i64
}
/// Signed 64-bit integer as [neg, l2, l1, l0] in base 2^22.
pub fn limbs(i: i64) -> [i64; 4] {
    let m = i.unsigned_abs();
    let b = (1u64 << 22) - 1;
    [
        (i < 0) as i64,
        (m >> 44) as i64,
        ((m >> 22) & b) as i64,
        (m & b) as i64,
    ]
}
/// An index or length of 64 bits as [l2, l1, l0].
pub fn ulimbs(m: usize) -> [i64; 3] {
    let b = (1usize << 22) - 1;
    [(m >> 44) as i64, ((m >> 22) & b) as i64, (m & b) as i64]
}
/// Memory that is only touched where it is written.
pub struct Sparse {
    map: *mut u8,
    pub n: usize,
}
extern "C" {
    fn madvise(a: *mut u8, n: usize, advice: i32) -> i32;
}
impl Sparse {
    pub fn new(n: usize) -> Option<Sparse> {
        unsafe {
            // MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, no huge pages
            let map = mmap(core::ptr::null_mut(), 4 * n + PAGE, 3, 0x4022, -1, 0);
            if map as isize == -1 {
                return None;
            }
            madvise(map, 4 * n + PAGE, 15);
            Some(Sparse { map, n })
        }
    }
    pub fn slice(&self, b: usize, n: usize) -> &'static mut [f32] {
        assert!(b + n <= self.n);
        unsafe { std::slice::from_raw_parts_mut((self.map as *mut f32).add(b), n) }
    }
}
impl Drop for Sparse {
    fn drop(&mut self) {
        unsafe {
            munmap(self.map, 4 * self.n + PAGE);
        }
    }
}
/// Position as floor and fraction at scale 4096 (x = 1 if exact).
pub fn frac(ev: &mut Ev, p: f32) -> (i64, i64, i64) {
    let fl = (p as f64).floor();
    let fr = (p as f64 - fl) * 4096.0;
    let frf = fr.floor();
    let x = (fr == frf) as i64;
    ev.ints("fl", &limbs(fl as i64)).int("fr", frf as i64).int("x", x);
    (fl as i64, frf as i64, x)
}
/// Lagrange polynomial through d at 0..len evaluated at x.
pub fn lag_ref(d: &[f64], x: f64) -> f64 {
    let mut y = 0.0;
    for i in 0..d.len() {
        let mut t = d[i];
        for j in 0..d.len() {
            if i != j {
                t *= (x - j as f64) / (i as f64 - j as f64);
            }
        }
        y += t;
    }
    y
}
pub const BITS: [u32; 16] = [
    0,
    0x8000_0000,
    0x3f80_0000,
    0xbf80_0000,
    1,
    0x8000_0001,
    0x7f80_0000,
    0xff80_0000,
    0x7fc0_0001,
    0x7f80_0001,
    0xffff_ffff,
    0x7f7f_ffff,
    0x0080_0000,
    0x007f_ffff,
    0x4b00_0000,
    0xdead_beef,
];
pub fn rnd_bits(r: &mut Rng) -> i64 {
    let w = if r.chance(1, 3) { r.pick(&BITS) } else { r.next() as u32 };
    w as i32 as i64
}
/// A binary exponent: half the histories plain, the rest across the range.
pub fn scale_exp(h: &mut Hist, lo: i64, hi: i64) -> i64 {
    match h.run.rng.below(8) {
        0..=3 => 0,
        4 => hi,
        5 => -lo,
        _ => h.run.rng.range(-lo, hi),
    }
}
/// the basis polynomials ys at position p/s, and the interpolant v of d
pub fn log_basis(ev: &mut Ev, p: i64, s: i64, ys: &[f64], d: &[i64], v: f32) {
    let y: Vec<String> = ys
        .iter()
        .map(|y| {
            let (mut q, mut e) = (y.abs(), 0);
            while q >= 16384.0 && q.is_finite() {
                q /= 2.0;
                e += 1;
            }
            while q < 8192.0 && q > 0.0 {
                q *= 2.0;
                e -= 1;
            }
            let m = if q.is_finite() { q as i64 } else { 0 };
            format!("[{},{},{}]", (*y < 0.0) as i64, m, e)
        })
        .collect();
    ev.ok().int("w", ys.len() as i64).int("p", p).int("s", s);
    ev.s.push_str(&format!(",\"y\":[{}]", y.join(",")));
    if ys.iter().all(|y| y.abs() < 4.0) {
        ev.s = format!("{}}},{{\"o\":\"mix\"", ev.s);
        ev.ok().ints("d", d).val("v", v, 16);
        ev.ints("z", &ys.iter().map(|y| (y * 65536.0).round() as i64).collect::<Vec<_>>());
    }
}
