//! Memory slices: C01 (element access), C02 (sub-slices), C03 (wrapped
//! access), C04 (linear interpolation), C05 (Lagrange interpolation).
use crate::core::*;
use embedded_audio_tools::errors::MemSliceError;
use embedded_audio_tools::float::{lagrange, lagrange_only_4_elements};
use embedded_audio_tools::memory_access::*;

#[derive(Clone, Copy)]
enum S {
    Ro(MemorySlice<NonMutable>),
    Rw(MemorySlice<Mutable>),
}
macro_rules! on {
    ($s:expr, $x:ident => $e:expr) => {
        match $s {
            S::Ro($x) => $e,
            S::Rw($x) => $e,
        }
    };
}
fn ename(e: &MemSliceError) -> &'static str {
    match e {
        MemSliceError::IndexOutOfBound => "Index",
        MemSliceError::LengthOutOfBound => "Length",
    }
}

pub struct Mem {
    ar: Arena,
    ints: bool,
    // integer samples are stored times 2^e: the laws do not depend on it
    e: i32,
    sl: [S; 6],
    // reference used for selecting histories only
    m: Vec<u32>,
    r: [(usize, usize); 6],
    copies: usize,
    sus: bool,
    gs: Option<Giant>,
}
impl Mem {
    pub fn new() -> Mem {
        Mem {
            ar: Arena::new(0),
            ints: false,
            e: 0,
            sl: [S::Ro(null()); 6],
            m: vec![],
            r: [(0, 0); 6],
            copies: 0,
            sus: false,
            gs: None,
        }
    }
    fn un(&self, v: f32) -> f64 {
        v as f64 * 2f64.powi(-self.e)
    }
    fn sc(&self, n: i64) -> f32 {
        (n as f64 * 2f64.powi(self.e)) as f32
    }
    fn tok(&self, v: f32) -> i64 {
        if self.ints {
            let (n, c) = enc64(self.un(v), 0);
            if c == 0 {
                n
            } else {
                2147483647
            }
        } else {
            v.to_bits() as i32 as i64
        }
    }
    fn val(&self, t: &str) -> f32 {
        if self.ints {
            self.sc(int(t))
        } else {
            f32::from_bits(int(t) as i32 as u32)
        }
    }
    fn snap(&self) -> Vec<i64> {
        (0..self.ar.n).map(|i| self.tok(self.ar.get(i))).collect()
    }
    fn chk(&mut self, ok: bool) {
        if !ok {
            self.sus = true
        }
    }
    fn rc(&self, h: usize, i: i64) -> f32 {
        let (b, n) = self.r[h];
        if n == 0 {
            return 0.0;
        }
        f32::from_bits(self.m[b + i.rem_euclid(n as i64) as usize])
    }
}
/// Slices of sparse memory: more cells than fit 16, 24 or 32 bits.
struct Giant {
    mem: Sparse,
    m: std::collections::HashMap<usize, f32>,
    sl: [S; 3],
    r: [(usize, usize); 3],
}
impl Mem {
    fn giant(&mut self, op: &str, a: &[&str], ev: &mut Ev) {
        if op == "Gi" {
            let n = us(a[0]);
            self.ints = a[1] == "i";
            self.gs = None;
            self.gs = Some(Giant {
                mem: Sparse::new(n).expect("HARNESS mmap"),
                m: Default::default(),
                sl: [S::Ro(null()); 3],
                r: [(0, 0); 3],
            });
            ev.ok().ints("n", &ulimbs(n));
            return;
        }
        let mut g = self.gs.take().expect("HARNESS no giant memory");
        let h = us(a[0]);
        let (gb, gn) = g.r[h];
        let cell = |g: &Giant, i: i128| g.m.get(&(gb + i.rem_euclid(gn.max(1) as i128) as usize)).copied().unwrap_or(0.0);
        // the quotient and remainder of a signed index
        let wit = |ev: &mut Ev, i: i128| {
            let n = gn.max(1) as i128;
            ev.int("q", i.div_euclid(n).clamp(-1000, 1000) as i64).ints("r", &ulimbs(i.rem_euclid(n) as usize));
        };
        let pos = |ev: &mut Ev, p: f32| -> i128 {
            frac(ev, p);
            (p as f64).floor() as i128
        };
        let lin = |g: &Giant, p: f32| {
            let f = (p as f64).floor();
            let t = p as f64 - f;
            let x = cell(g, f as i128) as f64;
            if t == 0.0 { x } else { x * (1.0 - t) + cell(g, f as i128 + 1) as f64 * t }
        };
        ev.int("h", h as i64);
        let mut sus = false;
        match op {
            "Gm" => {
                let (b, n) = (us(a[1]), us(a[2]));
                match a[3] {
                    "ro" => g.sl[h] = S::Ro(from_slice(g.mem.slice(b, n))),
                    "rw" => g.sl[h] = S::Rw(from_slice_mut(g.mem.slice(b, n))),
                    "chg" => {
                        let p = g.mem.slice(b, n).as_ptr();
                        let mut s = null();
                        unsafe { s.change_slice_unchecked(p, n) };
                        g.sl[h] = S::Ro(s);
                    }
                    _ => {
                        let p = g.mem.slice(b, n).as_mut_ptr();
                        let mut s = null_mut();
                        unsafe { s.change_mut_slice_unchecked(p, n) };
                        g.sl[h] = S::Rw(s);
                    }
                }
                g.r[h] = (b, n);
                ev.ok().ints("b", &ulimbs(b)).ints("n", &ulimbs(n));
            }
            "Glen" => {
                let n = if a[1] == "raw" { on!(&g.sl[h], s => s.as_slice()).len() } else { on!(&g.sl[h], s => s.len()) };
                sus = n != gn;
                ev.ok().ints("n", &ulimbs(n));
            }
            "Gsub" => {
                let (d, off, n) = (us(a[1]), us(a[2]), us(a[3]));
                ev.int("d", d as i64).ints("off", &ulimbs(off)).ints("n", &ulimbs(n));
                let r = match &g.sl[h] {
                    S::Ro(s) => s.get_sub_slice(off, n).map(S::Ro),
                    S::Rw(s) => s.get_sub_slice(off, n).map(S::Rw),
                };
                match r {
                    Ok(s) => {
                        sus = off >= gn || n > gn - off;
                        g.sl[d] = s;
                        g.r[d] = (gb.wrapping_add(off), n);
                        ev.ok().str("e", "");
                    }
                    Err(e) => {
                        sus = off < gn && n < gn - off;
                        ev.err(ename(&e));
                    }
                }
            }
            "Gget" => {
                let i = us(a[1]);
                ev.ints("i", &ulimbs(i));
                match on!(&g.sl[h], s => s.get(i)) {
                    Ok(v) => {
                        sus = i >= gn || v.to_bits() != cell(&g, i as i128).to_bits();
                        ev.ok().int("v", self.tok(v));
                    }
                    Err(e) => {
                        sus = i < gn;
                        ev.err(ename(&e));
                    }
                }
            }
            "Gset" => {
                let (i, v) = (us(a[1]), self.val(a[2]));
                ev.ints("i", &ulimbs(i)).int("x", self.tok(v));
                let S::Rw(s) = &mut g.sl[h] else { panic!("HARNESS Gset on ro") };
                match s.assign(i, v) {
                    Ok(()) => {
                        sus = i >= gn;
                        g.m.insert(gb + i, v);
                        ev.ok().str("e", "");
                    }
                    Err(e) => {
                        sus = i < gn;
                        ev.err(ename(&e));
                    }
                }
            }
            "Gwr" => {
                let i = int(a[1]);
                let v = if a[2] == "u" {
                    unsafe { on!(&g.sl[h], s => s.get_wrapped_unchecked(i as isize)) }
                } else {
                    on!(&g.sl[h], s => s.get_wrapped(i as isize))
                };
                wit(ev, i as i128);
                sus = v.to_bits() != cell(&g, i as i128).to_bits();
                ev.ok().ints("i", &limbs(i)).int("v", self.tok(v));
            }
            "G4" => {
                let i = int(a[1]);
                let v = on!(&g.sl[h], s => s.get_slice_of_four_wrapped(i as isize));
                wit(ev, i as i128);
                sus = (0..4).any(|j| v[j].to_bits() != cell(&g, i as i128 + j as i128).to_bits());
                let t: Vec<i64> = v.iter().map(|x| self.tok(*x)).collect();
                ev.ok().ints("i", &limbs(i)).ints("vs", &t);
            }
            "Gl" => {
                let p = f32::from_bits(int(a[1]) as i32 as u32);
                let f = pos(ev, p);
                let inside = f >= 0 && f < gn as i128 && (f + 1 < gn as i128 || p as f64 == f as f64);
                match on!(&g.sl[h], s => s.lerp(p)) {
                    Ok(v) => {
                        sus = !inside || (v as f64 - lin(&g, p)).abs() > 1e-3;
                        ev.ok().str("e", "").val("v", v, 12);
                    }
                    Err(e) => {
                        sus = inside;
                        ev.err(ename(&e)).ints("v", &[0, 0]);
                    }
                }
            }
            "Glw" => {
                let p = f32::from_bits(int(a[1]) as i32 as u32);
                let f = pos(ev, p);
                wit(ev, f);
                let v = if a[2] == "u" {
                    unsafe { on!(&g.sl[h], s => s.lerp_unchecked(p)) }
                } else {
                    on!(&g.sl[h], s => s.lerp_wrapped(p))
                };
                sus = (v as f64 - lin(&g, p)).abs() > 1e-3;
                ev.ok().val("v", v, 12);
            }
            // at a sample: window of w points, 0 for the four-point form
            "Gat" | "Gwin" => {
                let w = us(a[2]);
                let p = f32::from_bits(int(a[1]) as i32 as u32);
                let v = if w == 0 {
                    on!(&g.sl[h], s => s.lagrange_four_points_wrapped(p))
                } else {
                    on!(&g.sl[h], s => s.lagrange_wrapped(p, w))
                };
                let f = (p as f64).floor();
                if op == "Gat" {
                    pos(ev, p);
                    wit(ev, f as i128);
                    sus = v != cell(&g, f as i128);
                } else {
                    let (ww, st) = if w == 0 { (4, 0) } else { (w, (w as i128 - 1) / 2) };
                    let first = f as i128 - st;
                    ev.ints("first", &limbs(first as i64));
                    wit(ev, first);
                    let t = ((p as f64 - f) * 8.0) as i64;
                    let d: Vec<f64> = (0..ww).map(|j| cell(&g, first + j as i128) as f64).collect();
                    sus = (v as f64 - lag_ref(&d, st as f64 + t as f64 / 8.0)).abs() > 0.02;
                    ev.int("w", ww as i64).int("p", t + 8 * st as i64).int("s", 8);
                }
                ev.ok().val("v", v, 8);
            }
            _ => panic!("HARNESS unknown op {}", op),
        }
        self.sus |= sus;
        self.gs = Some(g);
    }
}
impl Dom for Mem {
    fn suspect(&self) -> bool {
        self.sus
    }
    fn exec(&mut self, op: &str, a: &[&str], ev: &mut Ev) {
        if op.starts_with('G') {
            return self.giant(op, a, ev);
        }
        match op {
            "init" => {
                self.ints = a[0].starts_with('i');
                self.e = a[0][1..].parse().unwrap_or(0);
                let n = us(a[1]);
                self.ar = Arena::new(n);
                for i in 0..n {
                    let v = self.val(a[2 + i]);
                    self.ar.set(i, v);
                }
                self.m = (0..n).map(|i| self.ar.get(i).to_bits()).collect();
                ev.ok().ints("m", &self.snap());
            }
            "ro" | "rw" | "chg" | "chgm" => {
                let (h, b, n) = (us(a[0]), us(a[1]), us(a[2]));
                match op {
                    "ro" => self.sl[h] = S::Ro(from_slice(self.ar.slice_mut(b, n))),
                    "rw" => self.sl[h] = S::Rw(from_slice_mut(self.ar.slice_mut(b, n))),
                    "chg" => unsafe {
                        let p = self.ar.base().add(b);
                        on!(&mut self.sl[h], s => s.change_slice_unchecked(p, n))
                    },
                    _ => unsafe {
                        let p = self.ar.base().add(b);
                        match &mut self.sl[h] {
                            S::Rw(s) => s.change_mut_slice_unchecked(p, n),
                            S::Ro(_) => panic!("HARNESS chgm on ro"),
                        }
                    },
                }
                self.r[h] = (b, n);
                ev.ok().int("h", h as i64).int("b", b as i64).int("n", n as i64);
            }
            "chgz" | "chgmz" => {
                // point a slice at nothing
                let h = us(a[0]);
                match (op, &mut self.sl[h]) {
                    ("chgz", S::Ro(s)) => unsafe { s.change_slice_unchecked(core::ptr::null(), 0) },
                    ("chgz", S::Rw(s)) => unsafe { s.change_slice_unchecked(core::ptr::null(), 0) },
                    (_, S::Rw(s)) => unsafe { s.change_mut_slice_unchecked(core::ptr::null_mut(), 0) },
                    _ => panic!("HARNESS chgmz on ro"),
                }
                self.r[h] = (0, 0);
                ev.ok().int("h", h as i64);
            }
            "null" | "nullm" => {
                let h = us(a[0]);
                self.sl[h] = if op == "null" { S::Ro(null()) } else { S::Rw(null_mut()) };
                self.r[h] = (0, 0);
                ev.ok().int("h", h as i64);
            }
            "cp" => {
                let (d, h) = (us(a[0]), us(a[1]));
                // every way to make a copy of a value, in turn
                self.copies += 1;
                let mut old = self.sl[d];
                self.sl[d] = match (&self.sl[h], (self.copies + self.m.len()) % 4) {
                    (S::Ro(x), 1) => S::Ro(Clone::clone(x)),
                    (S::Rw(x), 1) => S::Rw(Clone::clone(x)),
                    (S::Ro(x), 2) => match &mut old {
                        S::Ro(y) => {
                            y.clone_from(x);
                            S::Ro(*y)
                        }
                        _ => S::Ro(Some(x).cloned().unwrap()),
                    },
                    (S::Rw(x), 2) => match &mut old {
                        S::Rw(y) => {
                            y.clone_from(x);
                            S::Rw(*y)
                        }
                        _ => S::Rw(Some(x).cloned().unwrap()),
                    },
                    (S::Ro(x), 3) => S::Ro(vec![*x; 3].remove(1)),
                    (S::Rw(x), 3) => S::Rw(vec![*x; 3].remove(1)),
                    (x, _) => *x,
                };
                self.r[d] = self.r[h];
                ev.ok().int("d", d as i64).int("h", h as i64);
            }
            "len" => {
                let h = us(a[0]);
                let r = on!(&self.sl[h], s => s.len());
                self.chk(r == self.r[h].1);
                ev.ok().int("h", h as i64).int("r", clampu(r));
            }
            "raw" | "rawm" => {
                let h = us(a[0]);
                let (p, n) = if op == "raw" {
                    let s = on!(&self.sl[h], s => s.as_slice());
                    (s as *const f32, s.len())
                } else {
                    match &mut self.sl[h] {
                        S::Rw(s) => {
                            let s = s.as_slice_mut();
                            (s as *const f32, s.len())
                        }
                        S::Ro(_) => panic!("HARNESS rawm on ro"),
                    }
                };
                let b = if p.is_null() {
                    -1
                } else {
                    (p as isize).wrapping_sub(self.ar.base() as isize) / 4
                };
                self.chk(n == self.r[h].1);
                ev.ok()
                    .int("h", h as i64)
                    .int("b", (b as i64).clamp(-1000000, 1000000))
                    .int("n", clampu(n));
            }
            "get" => {
                let (h, i) = (us(a[0]), us(a[1]));
                let r = on!(&self.sl[h], s => s.get(i));
                ev.int("h", h as i64).int("i", clampu(i));
                let (b, n) = self.r[h];
                match r {
                    Ok(v) => {
                        let t = self.tok(v);
                        self.chk(i < n && self.m[b + i] == v.to_bits());
                        ev.ok().int("v", t);
                    }
                    Err(e) => {
                        self.chk(i >= n);
                        ev.err(ename(&e));
                    }
                }
            }
            "set" => {
                let (h, i) = (us(a[0]), us(a[1]));
                let v = self.val(a[2]);
                ev.int("h", h as i64).int("i", clampu(i)).int("x", self.tok(v));
                let r = match &mut self.sl[h] {
                    S::Rw(s) => s.assign(i, v),
                    S::Ro(_) => panic!("HARNESS set on ro"),
                };
                let (b, n) = self.r[h];
                match r {
                    Ok(()) => {
                        self.chk(i < n);
                        if i < n {
                            self.m[b + i] = v.to_bits();
                        }
                        ev.ok().str("e", "");
                    }
                    Err(e) => {
                        self.chk(i >= n);
                        ev.err(ename(&e));
                    }
                }
            }
            "getu" => {
                let (h, i) = (us(a[0]), us(a[1]));
                let v = unsafe { on!(&self.sl[h], s => s.get_unchecked(i)) };
                self.chk(self.m[self.r[h].0 + i] == v.to_bits());
                ev.ok().int("h", h as i64).int("i", clampu(i)).int("v", self.tok(v));
            }
            "setu" => {
                let (h, i) = (us(a[0]), us(a[1]));
                let v = self.val(a[2]);
                match &mut self.sl[h] {
                    S::Rw(s) => unsafe { s.assign_unchecked(i, v) },
                    S::Ro(_) => panic!("HARNESS setu on ro"),
                }
                let j = self.r[h].0 + i;
                self.m[j] = v.to_bits();
                ev.ok().int("h", h as i64).int("i", clampu(i)).int("x", self.tok(v));
            }
            "sub" => {
                let (d, h, off, n) = (us(a[0]), us(a[1]), us(a[2]), us(a[3]));
                ev.int("d", d as i64)
                    .int("h", h as i64)
                    .int("off", clampu(off))
                    .int("n", clampu(n));
                let r = match &self.sl[h] {
                    S::Ro(s) => s.get_sub_slice(off, n).map(S::Ro),
                    S::Rw(s) => s.get_sub_slice(off, n).map(S::Rw),
                };
                let (pb, pn) = self.r[h];
                match r {
                    Ok(s) => {
                        self.chk(off < pn && n <= pn - off);
                        self.sl[d] = s;
                        self.r[d] = (pb.wrapping_add(off), n);
                        ev.ok().str("e", "");
                    }
                    Err(e) => {
                        self.chk(if off >= pn {
                            ename(&e) == "Index"
                        } else {
                            n >= pn - off && ename(&e) == "Length"
                        });
                        ev.err(ename(&e));
                    }
                }
            }
            "wr" | "wru" => {
                let (h, i) = (us(a[0]), int(a[1]));
                let v = if op == "wr" {
                    on!(&self.sl[h], s => s.get_wrapped(i as isize))
                } else {
                    unsafe { on!(&self.sl[h], s => s.get_wrapped_unchecked(i as isize)) }
                };
                self.chk(self.rc(h, i).to_bits() == v.to_bits());
                ev.ok().int("h", h as i64).ints("i", &limbs(i)).int("v", self.tok(v));
            }
            "four" => {
                let (h, i) = (us(a[0]), int(a[1]));
                let v = on!(&self.sl[h], s => s.get_slice_of_four_wrapped(i as isize));
                for j in 0..4 {
                    self.chk(self.rc(h, i.rem_euclid(self.r[h].1.max(1) as i64) + j as i64).to_bits() == v[j].to_bits());
                }
                let t: Vec<i64> = v.iter().map(|x| self.tok(*x)).collect();
                ev.ok().int("h", h as i64).ints("i", &limbs(i)).ints("vs", &t);
            }
            "lerpw" | "lerpu" | "lerp" => {
                // position given as f32 bits
                let h = us(a[0]);
                let p = f32::from_bits(int(a[1]) as i32 as u32);
                ev.int("h", h as i64);
                if p.is_infinite() {
                    ev.str("cls", if p > 0.0 { "inf" } else { "-inf" });
                    ev.ints("fl", &limbs(0)).int("fr", 0).int("x", 0);
                } else {
                    ev.str("cls", "fin");
                    frac(ev, p);
                }
                let f = (p as f64).floor();
                let t = p as f64 - f;
                let (x, y) = (self.un(self.rc(h, f as i64)), self.un(self.rc(h, (f as i64).saturating_add(1))));
                let want = if t == 0.0 { x } else { x * (1.0 - t) + y * t };
                let n = self.r[h].1;
                match op {
                    "lerp" => {
                        let inside = n > 0 && p >= 0.0 && p <= (n - 1) as f32;
                        match on!(&self.sl[h], s => s.lerp(p)) {
                            Ok(v) => {
                                self.chk(inside && (self.un(v) - want).abs() < 1e-3);
                                ev.ok().str("e", "").val64("v", self.un(v), 12);
                            }
                            Err(e) => {
                                self.chk(!inside);
                                ev.err(ename(&e)).ints("v", &[0, 0]);
                            }
                        }
                    }
                    _ => {
                        let v = if op == "lerpw" {
                            on!(&self.sl[h], s => s.lerp_wrapped(p))
                        } else {
                            unsafe { on!(&self.sl[h], s => s.lerp_unchecked(p)) }
                        };
                        self.chk((self.un(v) - want).abs() < 1e-3);
                        ev.ok().val64("v", self.un(v), 12);
                    }
                }
            }
            "lag" | "lagf" => {
                // lag p s d0 d1 ...   position p/s over given samples
                let (p, s) = (int(a[0]), int(a[1]));
                let d: Vec<f32> = a[2..].iter().map(|t| self.sc(int(t))).collect();
                let x = p as f32 / s as f32;
                let v = if op == "lag" {
                    lagrange(&d, x)
                } else {
                    unsafe { lagrange_only_4_elements(&d, x) }
                };
                self.chk((self.un(v) - lag_ref(&d.iter().map(|x| self.un(*x)).collect::<Vec<_>>(), x as f64)).abs() < 0.02);
                ev.ok().int("p", p).int("s", s).val64("v", self.un(v), 8);
                ev.ints("d", &d.iter().map(|x| self.un(*x) as i64).collect::<Vec<_>>());
            }
            "fine" => {
                // fine how i a b p k e: cells a 2^e, b 2^e at i, i + 1; position i + p/2^k
                let (i, p, k) = (int(a[1]), int(a[4]), int(a[5]) as i32);
                let (x, y) = (int(a[2]), int(a[3]));
                let s2 = 2f64.powi(int(a[6]) as i32);
                let mut c = vec![0f32; 9];
                let w = |j: i64| j.rem_euclid(9) as usize;
                c[w(i)] = (x as f64 * s2) as f32;
                c[w(i + 1)] = (y as f64 * s2) as f32;
                let pos = (i as f64 + p as f64 / 2f64.powi(k)) as f32;
                let s = from_slice_mut(&mut c[..]);
                let s = &s;
                let v = match a[0] {
                    "lerpw" => s.lerp_wrapped(pos),
                    "lerpu" => unsafe { s.lerp_unchecked(pos) },
                    "lerp" => s.lerp(pos).unwrap_or(f32::NAN),
                    _ => {
                        let mut d = embedded_audio_tools::DelayLine::new(*s);
                        d.advance();
                        d.read_lerp_wrapped_at((i as f64 - 1.0 + p as f64 / 2f64.powi(k)) as f32)
                    }
                };
                let (t, q) = (2f64.powi(k), v as f64 / s2);
                let want = if x == 0 { y as f64 * p as f64 } else { x as f64 * (t - p as f64) + y as f64 * p as f64 };
                self.chk((q * t - want).abs() <= 0.4 + want.abs() / 1e5 + (x as f64 * t).abs() / 1e6);
                ev.ok().int("a", x).int("b", y).int("p", p).int("kk", k as i64).val64("v", q, k);
            }
            "basis" => {
                // basis how w p s e d0 d1 ...: position p/s in the window
                let (w, p, s) = (us(a[1]), int(a[2]), int(a[3]));
                let sc = 2f32.powi(int(a[4]) as i32);
                let d: Vec<i64> = a[5..].iter().map(|t| int(t)).collect();
                let read = |c: &[f32]| -> f32 {
                    let x = (p as f64 / s as f64) as f32;
                    match a[0] {
                        "lag" => lagrange(c, x),
                        "lagf" => unsafe { lagrange_only_4_elements(c, x) },
                        how => {
                            // the window within longer memory, around its end
                            let n = w + 3;
                            let mut m = vec![0f32; n];
                            for (j, v) in c.iter().enumerate() {
                                m[(n - 2 + j) % n] = *v;
                            }
                            let sl = from_slice_mut(&mut m[..]);
                            let x = (n - 2) as f32 + x;
                            if how == "lagw" {
                                sl.lagrange_wrapped(x, if w == 100 { 100 + d[0].unsigned_abs() as usize } else { w })
                            } else {
                                sl.lagrange_four_points_wrapped(x - n as f32)
                            }
                        }
                    }
                };
                let ys: Vec<f64> = (0..w)
                    .map(|i| {
                        let mut c = vec![0f32; w];
                        c[i] = sc;
                        (read(&c) / sc) as f64
                    })
                    .collect();
                let v = read(&d.iter().map(|x| *x as f32 * sc).collect::<Vec<_>>()) / sc;
                log_basis(ev, p, s, &ys, &d, v);
            }
            "lagw" | "lag4" => {
                // lagw h fl p s w   position fl + p/s
                let (h, fl, p, s) = (us(a[0]), int(a[1]), int(a[2]), int(a[3]));
                let x = (fl as f64 + p as f64 / s as f64) as f32;
                let (v, w, st) = if op == "lagw" {
                    let w = us(a[4]);
                    ev.int("w", clampu(w));
                    let ww = w.min(100);
                    (
                        on!(&self.sl[h], q => q.lagrange_wrapped(x, w)),
                        ww,
                        (ww as i64 - 1) / 2,
                    )
                } else {
                    (on!(&self.sl[h], q => q.lagrange_four_points_wrapped(x)), 4, 0)
                };
                if p != 0 {
                    let d: Vec<f32> = (0..w as i64).map(|j| self.rc(h, fl - st + j)).collect();
                    let want = lag_ref(&d.iter().map(|x| self.un(*x)).collect::<Vec<_>>(), st as f64 + p as f64 / s as f64);
                    self.chk((self.un(v) - want).abs() < 0.02);
                } else {
                    self.chk(v == self.rc(h, fl));
                }
                ev.ok()
                    .int("h", h as i64)
                    .ints("fl", &limbs(fl))
                    .int("p", p)
                    .int("s", s)
                    .val64("v", self.un(v), 8);
            }
            "snap" => {
                let g = self.ar.guards_ok();
                for i in 0..self.m.len() {
                    let same = self.ar.get(i).to_bits() == self.m[i];
                    self.chk(same);
                }
                self.chk(g);
                ev.ok().ints("m", &self.snap()).int("g", g as i64);
            }
            _ => panic!("HARNESS unknown op {}", op),
        }
    }
}

const HUGE: [u64; 9] = [
    u64::MAX,
    u64::MAX - 1,
    i64::MAX as u64,
    i64::MAX as u64 + 1,
    1 << 63,
    1 << 32,
    (1 << 32) - 1,
    (1 << 32) + 1,
    1 << 31,
];
fn rnd_index(r: &mut Rng, n: usize) -> u64 {
    match r.below(10) {
        0 => r.pick(&HUGE),
        1 => n as u64,
        2 => n as u64 + r.below(4),
        3 => (n as u64).saturating_sub(1),
        4 => 0,
        _ => r.below(n as u64 + 1),
    }
}

fn init_bits(h: &mut Hist, n: usize) {
    let mut s = format!("init b {}", n);
    for _ in 0..n {
        let v = rnd_bits(&mut h.run.rng);
        s.push_str(&format!(" {}", v));
    }
    h.op(&s);
}

/// Random histories over a small arena with several aliasing slices.
fn random_history(run: &mut Run, subs: bool, ops: usize, keep: bool) {
    let n = match run.rng.below(10) {
        0 => 1,
        1 => 2,
        2..=7 => run.rng.range(3, 9) as usize,
        _ => run.rng.range(10, 40) as usize,
    };
    let mut h = run.begin(Box::new(Mem::new()));
    init_bits(&mut h, n);
    // which handles exist and are mutable, with their extents (generator side)
    let mut rw = [false; 6];
    let mut ext = [(0usize, 0usize); 6];
    let mut nul = [true; 6];
    for i in 0..ops {
        if h.ended {
            break;
        }
        let r = &mut h.run.rng;
        let x = r.below(6) as usize;
        let (b, m) = ext[x];
        let choice = if i < 4 { r.below(3) } else { r.below(if subs { 36 } else { 28 }) };
        let line = match choice {
            0 | 1 | 2 => {
                let b = r.below(n as u64 + 1) as usize;
                let m = if r.chance(1, 3) { n - b } else { r.below((n - b) as u64 + 1) as usize };
                ext[x] = (b, m);
                nul[x] = false;
                match r.below(4) {
                    0 => {
                        rw[x] = false;
                        format!("ro {} {} {}", x, b, m)
                    }
                    1 => {
                        rw[x] = true;
                        format!("rw {} {} {}", x, b, m)
                    }
                    2 => format!("chg {} {} {}", x, b, m),
                    _ if rw[x] => format!("chgm {} {} {}", x, b, m),
                    _ => {
                        rw[x] = true;
                        format!("rw {} {} {}", x, b, m)
                    }
                }
            }
            3 => {
                ext[x] = (0, 0);
                nul[x] = true;
                if r.chance(1, 2) {
                    format!("{} {}", if rw[x] && r.chance(2, 3) { "chgmz" } else { "chgz" }, x)
                } else {
                    rw[x] = r.chance(1, 2);
                    format!("{} {}", if rw[x] { "nullm" } else { "null" }, x)
                }
            }
            4 => {
                let d = r.below(6) as usize;
                ext[d] = ext[x];
                rw[d] = rw[x];
                nul[d] = nul[x];
                format!("cp {} {}", d, x)
            }
            5 => format!("len {}", x),
            6 => format!("raw {}", x),
            7 if rw[x] => format!("rawm {}", x),
            8..=15 => format!("get {} {}", x, rnd_index(r, m)),
            16..=22 if rw[x] => format!("set {} {} {}", x, rnd_index(r, m), rnd_bits(r)),
            23 if m > 0 => format!("getu {} {}", x, r.below(m as u64)),
            24 if m > 0 && rw[x] => format!("setu {} {} {}", x, r.below(m as u64), rnd_bits(r)),
            28..=35 => {
                let d = r.below(6) as usize;
                let off = rnd_index(r, m);
                let len = match r.below(8) {
                    0 => r.pick(&HUGE),
                    1 => 0,
                    2 => (m as u64).saturating_sub(off),
                    3 => (m as u64).saturating_sub(off) + 1,
                    4 => (m as u64).saturating_sub(off).saturating_sub(1),
                    5 => 0u64.wrapping_sub(off).wrapping_add(r.below(3)),
                    _ => r.below(m as u64 + 2),
                };
                let text = h.op(&format!("sub {} {} {} {}", d, x, off, len));
                if text.contains("\"k\":\"ok\"") {
                    ext[d] = (b.wrapping_add(off as usize), len as usize);
                    rw[d] = rw[x];
                    nul[d] = false;
                    let r = format!("raw {}", d);
                    h.op(&r);
                }
                continue;
            }
            _ => format!("get {} {}", x, rnd_index(r, m)),
        };
        let mutating = line.starts_with("set");
        h.op(&line);
        if mutating {
            h.op("snap");
        }
    }
    h.op("snap");
    h.end(keep);
}

/// A memory of more than 2^16 cells.
fn long_history(run: &mut Run, what: u32) {
    let n = 66000 + run.rng.below(3000) as usize;
    let mut h = run.begin(Box::new(Mem::new()));
    if what <= 3 {
        init_bits(&mut h, n + 4)
    } else {
        init_ints(&mut h, n + 4, if what == 5 { 60 } else { 1000 })
    }
    h.op(&format!("rw 0 2 {}", n));
    h.op("cp 1 0");
    let e = n as i64;
    let marks = [0i64, 1, 255, 256, 32767, 32768, 65534, 65535, 65536, 65537, e - 2, e - 1];
    match what {
        1 => {
            h.op("len 0");
            for i in marks.iter().chain(&[e, e + 65536, 1 << 32, (1 << 32) + 65537]) {
                h.op(&format!("get 0 {}", i));
                let v = rnd_bits(&mut h.run.rng);
                h.op(&format!("set 1 {} {}", i, v));
                h.op(&format!("get 0 {}", i));
            }
        }
        2 => {
            for off in marks {
                for len in [0, 1, 2, 3, e - off - 1, e - off, e - off + 1, 65536, 65537] {
                    let t = h.op(&format!("sub 2 0 {} {}", off, len));
                    if t.contains("\"k\":\"ok\"") {
                        h.op("raw 2");
                        h.op("get 2 0");
                        h.op(&format!("get 2 {}", (len - 1).max(0)));
                        h.op(&format!("get 2 {}", len));
                        // and once more, from inside
                        if len > 1 {
                            h.op(&format!("sub 3 2 {} {}", len - 2, 1));
                            h.op("raw 3");
                            h.op("set 3 0 77");
                        }
                    }
                }
            }
        }
        3 => {
            for m in marks {
                for t in [-2i64, -1, 0, 1, 300, 32768] {
                    h.op(&format!("wr 0 {}", m + t * e));
                    h.op(&format!("wru 0 {}", m + t * e));
                    h.op(&format!("four 0 {}", m + t * e));
                }
            }
        }
        4 => {
            for m in marks {
                for q in [0i64, 1, 2] {
                    let p = (m as f32 + q as f32 / 4.0).to_bits() as i32;
                    let p2 = ((m - e) as f32 + q as f32 / 4.0).to_bits() as i32;
                    h.op(&format!("lerp 0 {}", p));
                    h.op(&format!("lerpw 0 {}", p));
                    h.op(&format!("lerpw 0 {}", p2));
                    if m < e - 1 {
                        h.op(&format!("lerpu 0 {}", p));
                    }
                }
            }
        }
        _ => {
            for m in marks {
                for t in [-1i64, 0, 1] {
                    for q in [0, 1] {
                        for w in [2, 3, 4, 5] {
                            h.op(&format!("lagw 0 {} {} 2 {}", m + t * e, q, w));
                        }
                        h.op(&format!("lag4 0 {} {} 2", m + t * e, q));
                    }
                }
            }
        }
    }
    h.op("snap");
    h.end(true);
}

pub fn c01(run: &mut Run) {
    long_history(run, 1);
    giants(run, 1, 60);
    // exhaustive small slices: every base, length and index around the bounds
    for n in 1..=5usize {
        for b in 0..=n {
            for m in 0..=(n - b) {
                let mut h = run.begin(Box::new(Mem::new()));
                init_bits(&mut h, n);
                h.op(&format!("rw 0 {} {}", b, m));
                h.op("len 0");
                h.op("raw 0");
                h.op("rawm 0");
                h.op("cp 1 0");
                h.op(&format!("ro 2 {} {}", b, m));
                for i in 0..(m as u64 + 3) {
                    h.op(&format!("get 0 {}", i));
                    let v = rnd_bits(&mut h.run.rng);
                    h.op(&format!("set 1 {} {}", i, v));
                    h.op("snap");
                    h.op(&format!("get 2 {}", i));
                }
                for i in HUGE {
                    h.op(&format!("get 0 {}", i));
                    h.op(&format!("set 0 {} 7", i));
                    h.op(&format!("get 2 {}", i));
                }
                h.op("snap");
                for (z, x) in [("chgmz", 0), ("chgz", 1), ("chgz", 2)] {
                    h.op(&format!("{} {}", z, x));
                    h.op(&format!("len {}", x));
                    h.op(&format!("raw {}", x));
                    h.op(&format!("get {} 0", x));
                }
                h.op("rawm 0");
                h.op(&format!("chgm 0 {} {}", b, m));
                h.op("rawm 0");
                h.op("nullm 0");
                h.op("null 2");
                for i in [0, 1, u64::MAX] {
                    h.op(&format!("get 0 {}", i));
                    h.op(&format!("set 0 {} 7", i));
                    h.op(&format!("get 2 {}", i));
                }
                for x in [0, 2] {
                    h.op(&format!("len {}", x));
                    h.op(&format!("raw {}", x));
                }
                h.op("snap");
                h.end(true);
            }
        }
    }
    let (total, kept) = if run.thorough { (120000, 8000) } else { (12000, 1500) };
    for i in 0..total {
        random_history(run, false, 45, i < kept);
    }
}

pub fn c02(run: &mut Run) {
    long_history(run, 2);
    giants(run, 2, 60);
    for n in 1..=5usize {
        for b in 0..n {
            for m in 0..=(n - b) {
                let mut h = run.begin(Box::new(Mem::new()));
                init_bits(&mut h, n);
                h.op(&format!("rw 0 {} {}", b, m));
                for off in (0..m as u64 + 2).chain(HUGE) {
                    for len in (0..m as u64 + 2).chain(HUGE).chain([0u64.wrapping_sub(off)]) {
                        let t = h.op(&format!("sub 1 0 {} {}", off, len));
                        if t.contains("\"k\":\"ok\"") {
                            h.op("raw 1");
                            h.op("len 1");
                            for i in 0..len.min(m as u64) + 2 {
                                h.op(&format!("get 1 {}", i));
                                let v = rnd_bits(&mut h.run.rng);
                                h.op(&format!("set 1 {} {}", i, v));
                            }
                            h.op("snap");
                        }
                    }
                }
                h.op("nullm 3");
                for (o, l) in [(0u64, 0u64), (0, 1), (1, 0), (u64::MAX, 1), (0, u64::MAX)] {
                    h.op(&format!("sub 1 3 {} {}", o, l));
                }
                h.end(true);
            }
        }
    }
    let (total, kept) = if run.thorough { (120000, 8000) } else { (12000, 1500) };
    for i in 0..total {
        random_history(run, true, 45, i < kept);
    }
}

pub fn c03(run: &mut Run) {
    long_history(run, 3);
    giants(run, 3, 60);
    let ext: [i64; 12] = [
        i64::MIN,
        i64::MIN + 1,
        i64::MAX - 3,
        i64::MAX - 4,
        -(1 << 31),
        (1 << 31) - 1,
        1 << 31,
        -(1 << 31) - 1,
        1 << 32,
        -(1 << 32),
        (1 << 53) + 1,
        -(1 << 62),
    ];
    let maxn = if run.thorough { 40 } else { 18 };
    for n in 1..=maxn {
        for sub in 0..2 {
            let mut h = run.begin(Box::new(Mem::new()));
            let (b, m) = if sub == 0 { (0, n) } else { (2, n) };
            let total = m + 2 * b;
            init_bits(&mut h, total);
            h.op(&format!("{} 0 {} {}", if n % 2 == 0 { "ro" } else { "rw" }, b, m));
            let s = 4 * n as i64 + 5;
            for i in -s..=s {
                h.op(&format!("wr 0 {}", i));
                h.op(&format!("wru 0 {}", i));
                h.op(&format!("four 0 {}", i));
            }
            for i in ext {
                h.op(&format!("wr 0 {}", i));
                h.op(&format!("wru 0 {}", i));
                h.op(&format!("four 0 {}", i));
            }
            for i in [i64::MAX, i64::MAX - 1, i64::MAX - 2] {
                h.op(&format!("wr 0 {}", i));
                h.op(&format!("wru 0 {}", i));
                h.op(&format!("four 0 {}", i));
            }
            h.op("snap");
            h.end(true);
        }
    }
    let (total, kept) = if run.thorough { (200000, 3000) } else { (20000, 400) };
    for k in 0..total {
        let n = run.rng.range(1, 200) as usize;
        let mut h = run.begin(Box::new(Mem::new()));
        init_bits(&mut h, n);
        let b = h.run.rng.below(n as u64) as usize;
        let m = h.run.rng.range(1, (n - b) as i64);
        h.op(&format!("ro 0 {} {}", b, m));
        for _ in 0..30 {
            let r = &mut h.run.rng;
            let i = match r.below(5) {
                0 => r.range(-3 * m, 3 * m),
                1 => r.next() as i64 >> r.below(63),
                2 => m * r.range(-5, 5) + r.range(-4, 4),
                3 => (r.next() as i64 >> r.below(40)) / m * m,
                _ => (if r.chance(1, 2) { i64::MAX } else { i64::MIN }) ^ r.below(12) as i64,
            };
            let o = h.run.rng.pick(&["wr", "wru", "four"]);
            h.op(&format!("{} 0 {}", o, i));
        }
        h.end(k < kept);
    }
}

fn init_ints(h: &mut Hist, n: usize, amp: i64) {
    init_scaled(h, n, amp, 0)
}
fn init_scaled(h: &mut Hist, n: usize, amp: i64, e: i64) {
    let mut s = format!("init i{} {}", e, n);
    for _ in 0..n {
        let v = h.run.rng.range(-amp, amp);
        s.push_str(&format!(" {}", v));
    }
    h.op(&s);
}

/// An integer of any magnitude up to 2^62 that single precision represents.
fn far(r: &mut Rng) -> i64 {
    let m = r.range(1 << 23, (1 << 24) - 1) << r.range(0, 38);
    if r.chance(1, 2) {
        m
    } else {
        -m
    }
}
pub fn c04(run: &mut Run) {
    long_history(run, 4);
    giants(run, 4, 60);
    let pos = |p: f32| p.to_bits() as i32;
    // exhaustive quarter positions on small slices
    for n in 0..=12usize {
        let mut h = run.begin(Box::new(Mem::new()));
        init_ints(&mut h, n + 2, 1000);
        if n == 0 {
            h.op("null 0");
        } else {
            h.op(&format!("ro 0 1 {}", n));
        }
        for q in -(8 * n as i64 + 9)..=(8 * n as i64 + 9) {
            let p = q as f32 / 4.0;
            h.op(&format!("lerp 0 {}", pos(p)));
            if n > 0 {
                h.op(&format!("lerpw 0 {}", pos(p)));
            }
            if q >= 0 && (q / 4) + 1 < n as i64 {
                h.op(&format!("lerpu 0 {}", pos(p)));
            }
        }
        for p in [f32::INFINITY, f32::NEG_INFINITY, -0.0, 1e-40, -1e-40, -f32::MIN_POSITIVE] {
            h.op(&format!("lerp 0 {}", pos(p)));
        }
        for p in [4194303.0f32, -4194303.0, -8388607.5, 3e9, -3e9, 1e18, -1e18, 4.6e18, -4.6e18, 2147483648.0, -2147483904.0, 4294967296.0] {
            if n > 0 {
                h.op(&format!("lerpw 0 {}", pos(p)));
            }
            h.op(&format!("lerp 0 {}", pos(p)));
        }
        // neighbours of every integer position
        for i in 0..=n {
            let f = i as f32;
            for p in [
                f32::from_bits(f.to_bits().wrapping_add(1)),
                if i > 0 { f32::from_bits(f.to_bits() - 1) } else { -1e-7 },
            ] {
                h.op(&format!("lerp 0 {}", pos(p)));
                if n > 0 {
                    h.op(&format!("lerpw 0 {}", pos(p)));
                }
            }
        }
        h.op("snap");
        h.end(true);
    }
    // one long slice
    let mut h = run.begin(Box::new(Mem::new()));
    init_ints(&mut h, 3000, 2000);
    h.op("rw 0 0 3000");
    for _ in 0..150 {
        let r = &mut h.run.rng;
        let p = r.range(-6000, 9000) as f32 + r.range(0, 255) as f32 / 256.0;
        h.op(&format!("lerpw 0 {}", pos(p)));
        h.op(&format!("lerp 0 {}", pos(p)));
    }
    h.end(true);
    // close to the samples
    for _ in 0..(if run.thorough { 3000 } else { 250 }) {
        let mut h = run.begin(Box::new(Mem::new()));
        for _ in 0..30 {
            let r = &mut h.run.rng;
            let i = if r.chance(1, 2) { 0 } else { r.range(0, 7) };
            let zero = r.chance(2, 3);
            let x = if zero { 0 } else { r.range(-31, 31) };
            let k = if zero && i == 0 { r.range(4, 60) } else { r.range(4, 20) };
            let p = r.range(0, 15);
            let how = r.pick(&["lerp", "lerpw", "lerpu", "tap"]);
            let (y, e) = (r.range(-31, 31), r.range(-20, 60));
            h.op(&format!("fine {} {} {} {} {} {} {}", how, i, x, y, p, if how == "tap" { k.min(20) } else { k }, e));
        }
        h.end(true);
    }
    let (total, kept) = if run.thorough { (200000, 6000) } else { (25000, 1500) };
    for k in 0..total {
        let mut h = run.begin(Box::new(Mem::new()));
        let n = if h.run.rng.chance(1, 4) { h.run.rng.range(1, 3) } else { h.run.rng.range(1, 60) };
        let e = scale_exp(&mut h, 110, 117);
        init_scaled(&mut h, n as usize + 1, 2000, e);
        let b = h.run.rng.below(2);
        h.op(&format!("{} 0 {} {}", if k % 2 == 0 { "ro" } else { "rw" }, b, n));
        for _ in 0..40 {
            if h.ended {
                break;
            }
            let r = &mut h.run.rng;
            let p = match r.below(9) {
                8 => far(r) as f32,
                0 => r.range(-3 * n, 3 * n) as f32,
                1 => (n - 1) as f32 + r.range(-2, 2) as f32 / 4096.0,
                2 => r.range(-40 * n, 40 * n) as f32 / 16.0,
                3 => ((r.f01() - 0.5) * 4.0 * n as f64) as f32,
                4 => (r.f01() * (n - 1) as f64) as f32,
                5 => ((r.f01() - 0.5) * 8e6) as f32,
                6 => r.range(-4000000, 4000000) as f32,
                _ => r.range(0, 4096 * (n - 1).max(1)) as f32 / 4096.0,
            };
            h.op(&format!("lerpw 0 {}", pos(p)));
            h.op(&format!("lerp 0 {}", pos(p)));
            if p >= 0.0 && (p.floor() as i64) + 1 < n {
                h.op(&format!("lerpu 0 {}", pos(p)));
            }
        }
        h.end(k < kept);
    }
}

pub fn c05(run: &mut Run) {
    long_history(run, 5);
    giants(run, 5, 60);
    let amp = |w: usize| if w <= 6 { 64 } else { 16 };
    // free function: every quarter/half position, every window 1..8
    for rep in 0..(if run.thorough { 60 } else { 12 }) {
        for w in 1..=8usize {
            let s = if w <= 6 { 4 } else { 2 };
            let mut h = run.begin(Box::new(Mem::new()));
            h.op("init i 1 0");
            let d: Vec<String> = (0..w)
                .map(|i| {
                    if rep == 0 {
                        (i as i64).to_string()
                    } else {
                        h.run.rng.range(-amp(w), amp(w)).to_string()
                    }
                })
                .collect();
            for p in 0..=(s * (w as i64 - 1)) {
                h.op(&format!("lag {} {} {}", p, s, d.join(" ")));
                if w == 4 {
                    h.op(&format!("lagf {} {} {}", p, s, d.join(" ")));
                }
            }
            if w == 4 {
                for p in 0..=48 {
                    h.op(&format!("lag {} 16 {}", p, d.join(" ")));
                    h.op(&format!("lagf {} 16 {}", p, d.join(" ")));
                }
            }
            h.end(true);
        }
    }
    // windows over wrapped slices
    for n in 1..=9i64 {
        for w in 2..=8i64 {
            let s = if w <= 6 { 4 } else { 2 };
            let mut h = run.begin(Box::new(Mem::new()));
            init_ints(&mut h, n as usize + 2, amp(w as usize));
            h.op(&format!("rw 0 1 {}", n));
            for fl in -(n + 3)..=(2 * n + 3) {
                for p in 0..s {
                    h.op(&format!("lagw 0 {} {} {} {}", fl, p, s, w));
                    if w == 4 {
                        h.op(&format!("lag4 0 {} {} {}", fl, p, s));
                    }
                }
            }
            h.op("snap");
            h.end(true);
        }
        let mut h = run.begin(Box::new(Mem::new()));
        init_ints(&mut h, n as usize, 2000);
        h.op(&format!("ro 0 0 {}", n));
        for w in [9u64, 10, 16, 31, 64, 99, 100, 101, 102, 200, 257, 300, 357, 1000, 65538, 65637, (1 << 32) + 5, u64::MAX] {
            for fl in -2 * n..=2 * n {
                h.op(&format!("lagw 0 {} 0 1 {}", fl, w));
            }
        }
        for fl in [4000000i64, -4000000, 1 << 20, -(1 << 20), 1 << 31, -(1 << 31), (1 << 31) + 256, 3 << 30, -(5 << 29), 1 << 61, -(1 << 62)] {
            for w in 2..=6 {
                h.op(&format!("lagw 0 {} 0 1 {}", fl, w));
            }
            h.op(&format!("lag4 0 {} 0 1", fl));
        }
        h.end(true);
    }
    // wide windows between samples: a quadratic inside the window (which every
    // interpolant of three or more of its points equals), noise outside it
    for w in 9..=103i64 {
        let ww = w.min(100);
        for rep in 0..(if run.thorough { 12 } else { 2 }) {
            let mut h = run.begin(Box::new(Mem::new()));
            let r = &mut h.run.rng;
            let q = if ww <= 40 { r.range(-1, 1) } else { 0 };
            let lin = r.range(-3, 3);
            let (pad, e) = (r.range(1, 4), if rep == 0 { 0 } else { r.range(-15, 15) });
            let n = ww + 2 * pad;
            let st = (ww - 1) / 2;
            let rot = r.range(0, n - 1);
            // cell (rot + j) mod n holds the j-th sample of [pad | window | pad]
            let mut c = vec![0i64; n as usize];
            for j in 0..n {
                let t = j - pad - st;
                let v = if j < pad || j >= pad + ww {
                    r.range(-2000, 2000)
                } else {
                    q * t * t + lin * t + 7
                };
                c[((rot + j) % n) as usize] = v;
            }
            let s: Vec<String> = c.iter().map(|x| x.to_string()).collect();
            h.op(&format!("init i{} {} {}", e, n, s.join(" ")));
            h.op(&format!("{} 0 0 {}", if w % 2 == 0 { "ro" } else { "rw" }, n));
            for turn in [-2i64, -1, 0, 1] {
                let fl = rot + pad + st + turn * n;
                for p in 0..4 {
                    h.op(&format!("lagw 0 {} {} 4 {}", fl, p, w));
                }
            }
            // the free function over the same window
            let d: Vec<String> =
                (0..ww).map(|j| c[((rot + pad + j) % n) as usize].to_string()).collect();
            for p in [4 * st - 3, 4 * st, 4 * st + 1, 4 * st + 2, 4 * st + 5] {
                h.op(&format!("lag {} 4 {}", p, d.join(" ")));
            }
            h.end(true);
        }
    }
    // the basis polynomials of every window, any samples
    for w in 2..=100i64 {
        for rep in 0..(if run.thorough { 40 } else if w <= 8 { 12 } else { 4 }) {
            let mut h = run.begin(Box::new(Mem::new()));
            let r = &mut h.run.rng;
            // also close to a sample
            let mut s = r.pick(&[2, 4, 8, 128, 1024, 8192, 65536]);
            while w * w * s > 1 << 23 {
                s /= 2;
            }
            let st = (w - 1) / 2;
            let how = match rep % 4 {
                0 => "lag",
                1 if w == 4 => "lagf",
                2 if w == 4 => "lag4",
                _ => "lagw",
            };
            let near = if r.chance(1, 2) { r.pick(&[1, s - 1]) } else { r.range(1, s - 1) };
            let p = match how {
                "lagw" => near,
                "lag4" => near,
                // anywhere, or in the middle
                _ if w <= 60 && r.chance(1, 2) => s * r.range(0, w - 2) + near,
                _ => s * st.min(w - 2) + near,
            };
            let p = if how == "lagw" { p + s * st } else { p };
            // the products on the way to the widest ones span 10^70
            let e = if w > 60 { 27 } else if w > 30 { r.range(0, 10) } else { r.range(-20, 20) };
            let d: Vec<String> = (0..w).map(|_| r.range(-16, 16).to_string()).collect();
            h.op(&format!("basis {} {} {} {} {} {}", how, w, p, s, e, d.join(" ")));
            h.end(true);
        }
    }
    let (total, kept) = if run.thorough { (100000, 5000) } else { (12000, 1000) };
    for k in 0..total {
        let mut h = run.begin(Box::new(Mem::new()));
        let n = h.run.rng.range(1, 24);
        let e = scale_exp(&mut h, 95, 95);
        init_scaled(&mut h, n as usize, 16, e);
        h.op(&format!("{} 0 0 {}", if k % 2 == 0 { "ro" } else { "rw" }, n));
        for _ in 0..25 {
            let r = &mut h.run.rng;
            let w = r.range(2, 8);
            let s = if w <= 4 { r.pick(&[2, 4, 8, 16]) } else if w <= 6 { r.pick(&[2, 4]) } else { 2 };
            let fl = match r.below(3) {
                0 => r.range(-3 * n, 3 * n),
                1 => r.range(-100000, 100000),
                _ => r.range(0, n),
            };
            let mut p = r.below(s as u64);
            let fl = if r.chance(1, 12) {
                p = 0;
                far(r)
            } else {
                fl
            };
            let four = r.chance(1, 4);
            if four {
                h.op(&format!("lag4 0 {} {} {}", fl, p.min(3), 4));
            } else {
                h.op(&format!("lagw 0 {} {} {} {}", fl, p, s, w));
            }
        }
        h.end(k < kept);
    }
}

/// Slices longer than 16, 20, 24, 31 and 32 bits: what = 1 element access,
/// 2 sub-slices, 3 wrapped, 4 linear, 5 Lagrange.
fn giants(run: &mut Run, what: u8, total: u64) {
    // the longest the machine grants
    let top = [33, 32, 31, 30, 28, 26].iter().copied().find(|k| Sparse::new((1usize << k) + 16).is_some()).unwrap_or(24);
    for t in 0..total * if run.thorough { 20 } else { 1 } {
        let r = &mut run.rng;
        let ks = [16, 17, 18, 20, 21, 22, 23, 24, 25, 26, 28, 30, 31, 32, 33];
        let k = if r.chance(1, 3) { r.pick(&[20, 24, 32]) } else { r.pick(&ks) }.min(top);
        let n = match r.below(4) {
            0 => (1usize << k) - 2 + r.below(14) as usize,
            1 => (1usize << (k - 1)) + 1 + r.below(1 << (k - 1)) as usize,
            _ => (1usize << k) + r.range(1, 12) as usize,
        };
        let mem = n + r.below(8) as usize;
        let mut h = run.begin(Box::new(Mem::new()));
        h.op(&format!("Gi {} {}", mem, if what >= 4 { "i" } else { "b" }));
        let b = h.run.rng.below((mem - n + 1) as u64) as usize;
        let how = h.run.rng.pick(&["rw", "chgm"]);
        h.op(&format!("Gm 0 {} {} {}", b, n, how));
        // where something may break, as far as the slice reaches
        let mut at: Vec<usize> = vec![0, 1, n - 1, n - 2, n - 3, n / 2];
        for k in [16, 20, 22, 23, 24, 31, 32] {
            at.extend([1usize << k, (1 << k) - 1, (1 << k) + 1, n.wrapping_sub(1 << k), (n - 1) % (1 << k)]);
        }
        at.push((n - 1) as f32 as usize);
        at.push((n - 2) as f32 as usize);
        for _ in 0..3 {
            let i = h.run.rng.below(n as u64) as usize;
            at.extend([i, i + 1, i + 2, i % (1 << 16), i % (1 << 20), i % (1 << 32), i as f32 as usize]);
        }
        at.retain(|i| *i < n);
        let len = at.len() as u64;
        let some = |r: &mut Rng| at[r.below(len) as usize];
        for _ in 0..10 {
            let r = &mut h.run.rng;
            let m = if what == 5 { 60 } else { 300 };
            let v = if what >= 4 { r.range(-m, m) } else { rnd_bits(r) };
            let i = some(r);
            h.op(&format!("Gset 0 {} {}", i, v));
            if what >= 3 {
                for j in 1..4 {
                    let v = if what >= 4 { h.run.rng.range(-m, m) } else { rnd_bits(&mut h.run.rng) };
                    if h.run.rng.chance(1, 2) {
                        h.op(&format!("Gset 0 {} {}", (i + j) % n, v));
                    }
                }
            }
        }
        if h.run.rng.chance(1, 3) {
            let how = h.run.rng.pick(&["ro", "chg"]);
            h.op(&format!("Gm 1 {} {} {}", b, n, how));
        } else {
            h.op(&format!("Gm 1 {} {} rw", b, n));
        }
        for _ in 0..18 {
            let r = &mut h.run.rng;
            let v = r.below(2);
            let i = some(r);
            let laps = if r.chance(1, 2) { 0 } else { r.range(-20, 20) };
            let w = i as i64 + laps * n as i64;
            let line = match what {
                1 => match r.below(10) {
                    0 => format!("Glen {} {}", v, r.pick(&["len", "raw"])),
                    1 => format!("Gget {} {}", v, r.pick(&[n as u64, n as u64 + 1, u64::MAX, 1 << 63, (n as u64).max(1 << 32) + 5, 1 << 40])),
                    2 => format!("Gset 0 {} {}", r.pick(&[n as u64, n as u64 + 1, u64::MAX, (n as u64).max(1 << 32) + 5]), rnd_bits(r)),
                    3 => format!("Gset 0 {} {}", i, rnd_bits(r)),
                    _ => format!("Gget {} {}", v, i),
                },
                2 => {
                    let room = n - i;
                    let m = match r.below(8) {
                        0 => room,
                        1 => room + 1,
                        2 => room.saturating_sub(2),
                        3 => r.pick(&[usize::MAX, 1 << 63, usize::MAX - i, (usize::MAX - i).wrapping_add(1), (1 << 32) + room / 2]),
                        4 => room / 2,
                        5 => 0,
                        _ => room.saturating_sub(1),
                    };
                    let off = if r.chance(1, 8) { r.pick(&[n, n + 1, usize::MAX, 1 << 40]) } else { i };
                    h.op(&format!("Gsub {} 2 {} {}", v, off, m));
                    let e = h.op("Glen 2 len");
                    // a child of known length: read it
                    if e.contains("\"k\":\"ok\"") && m > 0 && off < n && m < n - off {
                        let j = h.run.rng.pick(&[0, m - 1, m / 2]);
                        h.op(&format!("Gget 2 {}", j));
                        h.op(&format!("Gget 2 {}", m));
                    }
                    "Glen 0 raw".to_string()
                }
                3 => {
                    if r.chance(1, 2) {
                        format!("G4 {} {}", v, w - r.range(0, 3))
                    } else {
                        format!("Gwr {} {} {}", v, w, r.pick(&["c", "u"]))
                    }
                }
                _ => {
                    // positions: as fine as a float of that size allows
                    let f = if r.chance(1, 2) { 0.0 } else { r.range(0, 7) as f64 / 8.0 };
                    let p = (w as f64 + f) as f32;
                    let pb = p.to_bits() as i32;
                    let t = p as f64 - (p as f64).floor();
                    if what == 4 {
                        let inside = (p as f64) < (n - 1) as f64;
                        match r.below(3) {
                            0 => format!("Gl {} {}", v, pb),
                            1 if laps == 0 && p >= 0.0 && inside => format!("Glw {} {} u", v, pb),
                            _ => format!("Glw {} {} c", v, pb),
                        }
                    } else {
                        let wd = r.pick(&[0, 2, 3, 4, 5, 8, 12]);
                        if t == 0.0 {
                            format!("Gat {} {} {}", v, pb, wd)
                        } else {
                            format!("Gwin {} {} {}", v, pb, wd.min(5))
                        }
                    }
                }
            };
            h.op(&line);
        }
        h.end(t < 4000);
    }
}
