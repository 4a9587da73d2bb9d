//! Ring-buffer devices: C06 (delay line), C07 (taps), C08 (buffer swaps),
//! C09 (comb filter), C10 (all-pass filter).
use crate::core::*;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::{AllPass, Comb, DelayLine};

#[derive(Clone, Copy)]
enum D {
    No,
    Dl(DelayLine),
    Cb(Comb),
    Ap(AllPass),
}
#[derive(Clone, Copy, Default)]
struct R {
    b: usize,
    n: usize,
    i: usize,
    s: f64,
    fb: f64,
    dm: f64,
}
pub struct Dev {
    ar: Arena,
    mode: char,
    // samples of the modes i and x are stored times 2^e: the laws are linear
    e: i32,
    d: [D; 3],
    // reference for selection only
    r: [R; 3],
    m: Vec<f32>,
    sus: bool,
    long: Option<crate::lines::Lines>,
}
const X: f64 = 65536.0;
impl Dev {
    pub fn new() -> Dev {
        Dev {
            ar: Arena::new(0),
            mode: 'b',
            e: 0,
            d: [D::No; 3],
            r: [R::default(); 3],
            m: vec![],
            sus: false,
            long: None,
        }
    }
    fn val(&self, t: &str) -> f32 {
        match self.mode {
            _ if t == "-0" => -0.0,
            'b' => f32::from_bits(int(t) as i32 as u32),
            'i' => (int(t) as f64 * 2f64.powi(self.e)) as f32,
            _ => (int(t) as f64 / X * 2f64.powi(self.e)) as f32,
        }
    }
    fn un(&self, v: f32) -> f64 {
        v as f64 * 2f64.powi(-self.e)
    }
    fn tok(&self, v: f32) -> i64 {
        match self.mode {
            'b' => v.to_bits() as i32 as i64,
            _ => {
                let (n, c) = enc64(self.un(v), if self.mode == 'i' { 0 } else { 16 });
                if c == 0 || (c == 1 && self.mode == 'x') {
                    n
                } else {
                    2147483647
                }
            }
        }
    }
    fn snap(&self, ev: &mut Ev) {
        if self.mode == 'x' {
            let mut c = 0;
            let v: Vec<i64> = (0..self.ar.n)
                .map(|i| {
                    let (n, k) = enc64(self.un(self.ar.get(i)), 16);
                    c = c.max(k);
                    n
                })
                .collect();
            ev.ints("m", &v).int("me", c as i64);
        } else {
            let v: Vec<i64> = (0..self.ar.n).map(|i| self.tok(self.ar.get(i))).collect();
            ev.ints("m", &v).int("me", 0);
        }
    }
    fn cell(&self, d: usize, k: i64) -> f32 {
        let r = &self.r[d];
        self.m[r.b + (r.i as i64).wrapping_add(k).rem_euclid(r.n as i64) as usize]
    }
    fn same(&mut self, a: f32, b: f32) {
        let ok = match self.mode {
            'x' => self.un(a - b).abs() < 1e-4,
            _ => a.to_bits() == b.to_bits(),
        };
        if !ok {
            self.sus = true;
        }
    }
    fn put(&mut self, d: usize, v: f32) {
        let r = &mut self.r[d];
        self.m[r.b + r.i] = v;
        r.i = (r.i + 1) % r.n;
    }
    fn dl(&mut self, d: usize) -> &mut DelayLine {
        match &mut self.d[d] {
            D::Dl(x) => x,
            _ => panic!("HARNESS not a delay line"),
        }
    }
}

/// a copy of x, made in one of the ways there are (old: what it replaces)
fn copy(x: D, way: usize, old: D) -> D {
    match (&x, way, old) {
        (D::Dl(x), 1, _) => D::Dl(Clone::clone(x)),
        (D::Cb(x), 1, _) => D::Cb(Clone::clone(x)),
        (D::Ap(x), 1, _) => D::Ap(Clone::clone(x)),
        (D::Dl(x), 2, D::Dl(mut y)) => {
            y.clone_from(x);
            D::Dl(y)
        }
        (D::Cb(x), 2, D::Cb(mut y)) => {
            y.clone_from(x);
            D::Cb(y)
        }
        (D::Ap(x), 2, D::Ap(mut y)) => {
            y.clone_from(x);
            D::Ap(y)
        }
        (D::Dl(x), 3, _) => D::Dl(vec![*x; 3].remove(1)),
        (D::Cb(x), 3, _) => D::Cb(vec![*x; 3].remove(1)),
        (D::Ap(x), 3, _) => D::Ap(vec![*x; 3].remove(1)),
        (D::Dl(x), 4, _) => D::Dl(*Box::new([*x, *x]).last().unwrap()),
        (D::Cb(x), 4, _) => D::Cb(*Box::new([*x, *x]).last().unwrap()),
        (D::Ap(x), 4, _) => D::Ap(*Box::new([*x, *x]).last().unwrap()),
        (D::Dl(x), 5, _) => D::Dl(Some(x).cloned().unwrap()),
        (D::Cb(x), 5, _) => D::Cb(Some(x).cloned().unwrap()),
        (D::Ap(x), 5, _) => D::Ap(Some(x).cloned().unwrap()),
        _ => x,
    }
}
/// any settings and uses of a value, what it answers
fn turn(x: &mut D, r: &mut Rng, n: usize) -> Vec<u32> {
    let mut o: Vec<f32> = vec![];
    for _ in 0..2 * n + 4 {
        let v = r.pick(&[1.0, 1e8, 0.1, 1e-8, -1e-30, 0.0, 0.0]) * (r.f01() as f32);
        let odd = r.pick(&[0.1, 1e-9, -1e-9, 0.7, 0.999999, 1.0, 0.0, -0.3, 1e-20, 0.5]);
        let k = r.range(-3, n as i64 + 3) as isize;
        match (r.below(6), &mut *x) {
            (0, D::Cb(c)) => c.set_feedback(odd),
            (1, D::Cb(c)) => c.set_dampening(odd),
            (_, D::Cb(c)) => o.push(c.tick(v)),
            (_, D::Ap(c)) => o.push(c.tick(v)),
            (0, D::Dl(c)) => c.advance(),
            (1, D::Dl(c)) => o.push(c.read_wrapped_at(k)),
            (2, D::Dl(c)) => o.push(c.read_lerp_wrapped_at(k as f32 + 0.3)),
            (3, D::Dl(c)) => o.push(c.len() as f32),
            (4, D::Dl(c)) => o.push(c.read()),
            (_, D::Dl(c)) => c.write_and_advance(v),
            (_, D::No) => {}
        }
    }
    o.iter().map(|x| if x.is_nan() { 1 } else { x.to_bits() }).collect()
}

impl Dom for Dev {
    fn suspect(&self) -> bool {
        self.sus
    }
    fn exec(&mut self, op: &str, a: &[&str], ev: &mut Ev) {
        if op == "Linit" {
            self.long = None;
            self.long = Some(crate::lines::Lines::new(us(a[0])));
            ev.ok().ints("n", &ulimbs(us(a[0])));
            return;
        }
        if op.starts_with('L') {
            return self.long.as_mut().expect("HARNESS no lines").exec(op, a, ev);
        }
        if op == "init" {
            self.mode = a[0].chars().next().unwrap();
            self.e = a[0][1..].parse().unwrap_or(0);
            let n = us(a[1]);
            self.ar = Arena::new(n);
            for i in 0..n {
                let v = self.val(a[2 + i]);
                self.ar.set(i, v);
            }
            self.m = (0..n).map(|i| self.ar.get(i)).collect();
            ev.ok().str("mode", &a[0][..1]);
            self.snap(ev);
            return;
        }
        if op == "snap" {
            let g = self.ar.guards_ok();
            for i in 0..self.m.len() {
                let (x, y) = (self.ar.get(i), self.m[i]);
                self.same(x, y);
            }
            if !g {
                self.sus = true;
            }
            ev.ok();
            self.snap(ev);
            ev.int("g", g as i64);
            return;
        }
        if op == "poke" {
            // a sample put there by someone else, in some way
            let (c, v, way, d) = (us(a[0]), self.val(a[1]), us(a[2]), us(a[3]));
            let n = self.ar.n;
            let r = self.r[d];
            let raw = match &mut self.d[d] {
                D::Dl(x) => Some(x.get_ptr_slice_mut()),
                D::Cb(x) => Some(x.get_ptr_slice_mut()),
                D::Ap(x) => Some(x.get_ptr_slice_mut()),
                D::No => None,
            };
            match (way, raw) {
                (1, _) => from_slice_mut(self.ar.slice_mut(0, n)).assign(c, v).unwrap_or(()),
                (2, _) => unsafe { (&mut *from_slice_mut(self.ar.slice_mut(0, n)).as_slice_mut())[c] = v },
                (3, Some(p)) if c >= r.b && c < r.b + r.n && p.len() == r.n => unsafe { (*p)[c - r.b] = v },
                _ => self.ar.set(c, v),
            }
            self.m[c] = v;
            ev.ok().int("c", c as i64).int("x", self.tok(v));
            return;
        }
        let d = us(a[0]);
        match op {
            "new" => {
                let (b, n) = (us(a[2]), us(a[3]));
                let s = from_slice_mut(self.ar.slice_mut(b, n));
                self.d[d] = match a[1] {
                    "dl" => D::Dl(DelayLine::new(s)),
                    "comb" => D::Cb(Comb::new(s)),
                    "ap" => D::Ap(AllPass::new(s)),
                    _ => panic!("HARNESS type"),
                };
                self.r[d] = R { b, n, i: 0, s: 0.0, fb: 0.5, dm: 0.5 };
                ev.ok().int("d", d as i64).str("t", a[1]).int("b", b as i64).int("n", n as i64);
            }
            "cpd" => {
                // every way to make a copy of a value
                let (s, way) = (us(a[1]), a.get(2).map_or(0, |x| us(x)));
                let old = std::mem::replace(&mut self.d[d], D::No);
                let src = if d == s { old } else { self.d[s] };
                self.d[d] = copy(src, way, old);
                self.r[d] = self.r[s];
                ev.ok().int("d", d as i64).int("s", s as i64);
            }
            "scp" => {
                // a copy of a slice (first argument: of which kind; empty ones
                // may be null), made over another one
                let (b, n, way, c, m) = (us(a[1]), us(a[2]), us(a[3]), us(a[4]), us(a[5]));
                macro_rules! go {
                    ($mk:expr, $null:expr) => {{
                        let mk = |b: usize, n: usize| if n == 0 && b == 0 { $null } else { $mk(b, n) };
                        let (x, mut y) = (mk(b, n), mk(c, m));
                        match way {
                            0 => y = x,
                            1 => y = Clone::clone(&x),
                            2 => y.clone_from(&x),
                            3 => y = vec![x; 3].remove(1),
                            4 => y = [x, x].last().copied().unwrap(),
                            _ => y = Some(&x).cloned().unwrap(),
                        }
                        let base = self.ar.base() as usize;
                        let at = |p: *const [f32]| {
                            let p = p as *const f32 as usize;
                            if p == 0 { -1 } else { (p.wrapping_sub(base) as i64) / 4 }
                        };
                        ev.ok().int("p", if n == 0 && b == 0 { -1 } else { b as i64 }).int("n", n as i64);
                        let v = [at(y.as_slice()), y.len() as i64, at(x.as_slice()), x.len() as i64];
                        self.sus |= v[1] != n as i64 || v[0] != v[2];
                        ev.ints("c", &v);
                    }};
                }
                if a[0] == "0" {
                    go!(|b, n| from_slice(self.ar.slice_mut(b, n)), null());
                } else {
                    go!(|b, n| from_slice_mut(self.ar.slice_mut(b, n)), null_mut());
                }
            }
            "twn" => {
                // d as it is, once more after any settings; its copy made in
                // that state and d itself then have to do the same
                let mut r = Rng::new(us(a[1]) as u64);
                let (way, n) = (us(a[2]), self.r[d].n);
                let keep: Vec<f32> = (0..self.ar.n).map(|i| self.ar.get(i)).collect();
                let old = self.d[us(a[3])];
                let mut x = self.d[d];
                turn(&mut x, &mut r, n);
                let y = copy(x, way, old);
                let cells: Vec<f32> = (0..self.ar.n).map(|i| self.ar.get(i)).collect();
                let mut out = vec![];
                for mut v in [x, y] {
                    for (i, c) in cells.iter().enumerate() {
                        self.ar.set(i, *c);
                    }
                    let mut o = turn(&mut v, &mut r.clone(), n);
                    o.extend((0..self.ar.n).map(|i| self.ar.get(i).to_bits()));
                    out.push(o);
                }
                for (i, c) in keep.iter().enumerate() {
                    self.ar.set(i, *c);
                }
                let eq = out[0] == out[1];
                self.sus |= !eq;
                ev.ok().int("d", d as i64).int("eq", eq as i64);
            }
            "swp" => {
                // two values change places
                let s = us(a[1]);
                self.d.swap(d, s);
                self.r.swap(d, s);
                ev.ok().int("d", d as i64).int("s", s as i64);
            }
            "rd" => {
                let v = self.dl(d).read();
                let w = self.cell(d, 0);
                self.same(v, w);
                ev.ok().int("d", d as i64).int("v", self.tok(v));
            }
            "wa" => {
                let v = self.val(a[1]);
                self.dl(d).write_and_advance(v);
                self.put(d, v);
                ev.ok().int("d", d as i64).int("x", self.tok(v));
            }
            "rwn" => {
                // k times: read, then write the next number and advance
                let (x, k) = (int(a[1]), us(a[2]));
                let mut vs = vec![];
                for j in 0..k as i64 {
                    let v = self.dl(d).read();
                    let w = self.cell(d, 0);
                    self.same(v, w);
                    vs.push(self.tok(v));
                    let y = ((x + j) as f64 * 2f64.powi(self.e)) as f32;
                    self.dl(d).write_and_advance(y);
                    self.put(d, y);
                }
                ev.ok().int("d", d as i64).int("x", x).int("n", k as i64).ints("vs", &vs);
            }
            "adv" => {
                self.dl(d).advance();
                self.r[d].i = (self.r[d].i + 1) % self.r[d].n;
                ev.ok().int("d", d as i64);
            }
            "tap" => {
                let k = int(a[1]);
                let v = self.dl(d).read_wrapped_at(k as isize);
                let w = self.cell(d, k % self.r[d].n as i64);
                self.same(v, w);
                ev.ok().int("d", d as i64).ints("i", &limbs(k)).int("v", self.tok(v));
            }
            "ltap" => {
                let p = f32::from_bits(int(a[1]) as i32 as u32);
                ev.int("d", d as i64);
                frac(ev, p);
                let f = (p as f64).floor();
                let t = p as f64 - f;
                let (x, y) = (self.un(self.cell(d, f as i64)), self.un(self.cell(d, f as i64 + 1)));
                let v = self.dl(d).read_lerp_wrapped_at(p);
                if (self.un(v) - x * (1.0 - t) - y * t).abs() > 1e-2 {
                    self.sus = true;
                }
                ev.ok().val64("v", self.un(v), 12);
            }
            "btap" => {
                // btap d fl p s d0 .. d4: the tap's five weights at fl + p/s,
                // from samples that are 1 in one cell only; any five samples
                let (fl, p, s) = (int(a[1]), int(a[2]), int(a[3]));
                let w: Vec<i64> = a[4..9].iter().map(|t| int(t)).collect();
                let x = (fl as f64 + p as f64 / s as f64) as f32;
                let keep: Vec<f32> = (0..self.ar.n).map(|i| self.ar.get(i)).collect();
                let r = self.r[d];
                let at = |j: i64| r.b + (r.i as i64 + fl + j - 2).rem_euclid(r.n as i64) as usize;
                let mut ys = vec![];
                for k in 0..6 {
                    for i in 0..keep.len() {
                        self.ar.set(i, 0.0);
                    }
                    for j in 0..5i64 {
                        let c = if k == 5 { w[j as usize] } else { (j == k) as i64 };
                        self.ar.set(at(j), c as f32);
                    }
                    ys.push(self.dl(d).read_lagrange_wrapped_at(x) as f64);
                }
                for (i, c) in keep.iter().enumerate() {
                    self.ar.set(i, *c);
                }
                let v = ys.pop().unwrap() as f32;
                log_basis(ev, 2 * s + p, s, &ys, &w, v);
            }
            "gtap" => {
                let (fl, p, s) = (int(a[1]), int(a[2]), int(a[3]));
                let x = (fl as f64 + p as f64 / s as f64) as f32;
                let w: Vec<f64> = (0..5).map(|j| self.un(self.cell(d, fl + j - 2))).collect();
                let v = self.dl(d).read_lagrange_wrapped_at(x);
                if (self.un(v) - lag_ref(&w, 2.0 + p as f64 / s as f64)).abs() > 0.02 {
                    self.sus = true;
                }
                ev.ok().int("d", d as i64).ints("fl", &limbs(fl)).int("p", p).int("s", s).val64("v", self.un(v), 8);
            }
            "len" => {
                let n = self.dl(d).len();
                if n != self.r[d].n {
                    self.sus = true;
                }
                ev.ok().int("d", d as i64).int("r", clampu(n));
            }
            "ptr" => {
                let p = match &mut self.d[d] {
                    D::Dl(x) => x.get_ptr_slice_mut(),
                    D::Cb(x) => x.get_ptr_slice_mut(),
                    D::Ap(x) => x.get_ptr_slice_mut(),
                    D::No => panic!("HARNESS no device"),
                };
                let b = (p as *const f32 as isize).wrapping_sub(self.ar.base() as isize) / 4;
                if b != self.r[d].b as isize || p.len() != self.r[d].n {
                    self.sus = true;
                }
                ev.ok()
                    .int("d", d as i64)
                    .int("b", (b as i64).clamp(-1000000, 1000000))
                    .int("n", clampu(p.len()));
            }
            "wipe" => {
                // the whole buffer cleared by its raw pointer
                let p = match &mut self.d[d] {
                    D::Dl(x) => x.get_ptr_slice_mut(),
                    D::Cb(x) => x.get_ptr_slice_mut(),
                    D::Ap(x) => x.get_ptr_slice_mut(),
                    D::No => panic!("HARNESS no device"),
                };
                let r = self.r[d];
                let at = (p as *const f32 as isize).wrapping_sub(self.ar.base() as isize) / 4;
                if at == r.b as isize && p.len() == r.n {
                    unsafe { (*p).fill(0.0) };
                } else {
                    self.sus = true;
                }
                for j in 0..r.n {
                    self.m[r.b + j] = 0.0;
                }
                ev.ok().int("d", d as i64);
            }
            "chg" => {
                let (b, n) = (us(a[1]), us(a[2]));
                let s = from_slice_mut(self.ar.slice_mut(b, n));
                match &mut self.d[d] {
                    D::Dl(x) => x.change_buffer(s),
                    D::Cb(x) => x.change_buffer(s),
                    D::Ap(x) => x.change_buffer(s),
                    D::No => panic!("HARNESS no device"),
                }
                let r = &mut self.r[d];
                r.b = b;
                r.n = n;
                if r.i >= n {
                    r.i = 0;
                }
                ev.ok().int("d", d as i64).int("b", b as i64).int("n", n as i64);
            }
            "advn" => {
                let k = us(a[1]);
                for _ in 0..k {
                    self.dl(d).advance();
                }
                self.r[d].i = (self.r[d].i + k) % self.r[d].n;
                ev.ok().int("d", d as i64).int("n", k as i64);
            }
            "hold" => {
                // k ticks without input
                let k = us(a[1]);
                let n = self.r[d].n;
                let mut lap = vec![0f32; n];
                let mut df = 0i64;
                let mut first = vec![];
                for j in 0..k {
                    if j % 1_000_000 == 0 {
                        arm(30);
                    }
                    let v = match &mut self.d[d] {
                        D::Cb(c) => c.tick(0.0),
                        D::Ap(c) => c.tick(0.0),
                        _ => panic!("HARNESS no tick"),
                    };
                    if j < n {
                        first.push(v);
                    } else if !(lap[j % n] == v) {
                        df += 1;
                    }
                    lap[j % n] = v;
                }
                for (j, v) in first.iter().enumerate() {
                    let w = self.cell(d, j as i64);
                    self.same(*v, w);
                }
                self.sus |= df != 0;
                self.r[d].s = self.cell(d, k as i64 - 1) as f64;
                self.r[d].i = (self.r[d].i + k) % n;
                let vs: Vec<String> = first
                    .iter()
                    .map(|v| {
                        let (n, c) = enc64(self.un(*v), 16);
                        format!("[{},{}]", n, c)
                    })
                    .collect();
                ev.ok().int("d", d as i64).int("n", k as i64).int("df", df);
                ev.s.push_str(&format!(",\"vs\":[{}]", vs.join(",")));
            }
            "fb" | "dm" => {
                // in 1/256, or in 1/32768
                let k = int(a[1]) * if a.len() > 2 { 1 } else { 128 };
                let x = k as f32 / 32768.0;
                match &mut self.d[d] {
                    D::Cb(c) if op == "fb" => {
                        c.set_feedback(x);
                        self.r[d].fb = x as f64;
                    }
                    D::Cb(c) => {
                        c.set_dampening(x);
                        self.r[d].dm = x as f64;
                    }
                    _ => panic!("HARNESS not a comb"),
                }
                ev.ok().int("d", d as i64).int("x", k);
            }
            "tick" => {
                let x = self.val(a[1]);
                let o = self.cell(d, 0) as f64;
                let (v, w, st) = match &mut self.d[d] {
                    D::Cb(c) => {
                        let r = &mut self.r[d];
                        r.s = o * (1.0 - r.dm) + r.s * r.dm;
                        let st = x as f64 + r.s * r.fb;
                        (c.tick(x), o, st)
                    }
                    D::Ap(c) => (c.tick(x), o - x as f64, x as f64 + 0.5 * o),
                    _ => panic!("HARNESS no tick"),
                };
                self.put(d, st as f32);
                self.same(v, w as f32);
                ev.ok().int("d", d as i64).int("x", int(a[1])).val64("v", self.un(v), 16);
            }
            _ => panic!("HARNESS unknown op {}", op),
        }
    }
}

fn init(h: &mut Hist, mode: char, n: usize, amp: i64) {
    init_e(h, mode, n, amp, 0)
}
fn init_e(h: &mut Hist, mode: char, n: usize, amp: i64, e: i64) {
    let mut s = format!("init {}{} {}", mode, e, n);
    for _ in 0..n {
        let r = &mut h.run.rng;
        let v = match mode {
            'b' => rnd_bits(r),
            'i' => r.range(-amp, amp),
            _ => r.range(-amp, amp) * 65536,
        };
        s.push_str(&format!(" {}", v));
    }
    h.op(&s);
}
fn val(r: &mut Rng, mode: char, amp: i64) -> i64 {
    match mode {
        'b' => rnd_bits(r),
        'i' => r.range(-amp, amp),
        _ => match r.below(4) {
            0 => 0,
            1 => r.range(-amp, amp) * 65536,
            2 => r.range(-amp * 16, amp * 16) * 4096,
            _ => r.range(-amp, amp) * 65536,
        },
    }
}

/// Lines longer than 2^16 cells, run round by `rwn`.
fn long_history(run: &mut Run, what: u32) {
    let n = 66000 + run.rng.below(3000) as usize;
    let mut h = run.begin(Box::new(Dev::new()));
    init(&mut h, 'i', n + 3, if what == 1 { 60 } else { 2000 });
    h.op(&format!("new 0 dl 2 {}", n));
    let first = h.run.rng.range(65530, n as i64 - 2);
    // small numbers where interpolation follows
    let x0 = if what == 1 { -40000 } else { 1000000 };
    h.op(&format!("rwn 0 {} {}", x0, first));
    for _ in 0..2 {
        for k in [0i64, -1, -2, 1, 65535, 65536, 65537, -65535, -65536, -65537, -(n as i64), n as i64 + 1] {
            h.op(&format!("tap 0 {}", k));
            if what == 1 {
                for q in [0, 2] {
                    h.op(&format!("ltap 0 {}", (k as f32 + q as f32 / 4.0).to_bits() as i32));
                }
            }
        }
        h.op("rd 0");
        h.op("len 0");
        if what == 2 {
            let m = h.run.rng.range(first + 1, n as i64);
            h.op(&format!("chg 0 1 {}", m));
            h.op("rd 0");
            h.op("wa 0 5");
            h.op("rd 0");
            h.op(&format!("chg 0 1 {}", n));
            h.op("rd 0");
        }
        h.op("adv 0");
        let k = h.run.rng.range(3, 3_000_000);
        h.op(&format!("advn 0 {}", k));
        h.op("rd 0");
        let k = h.run.rng.range(3, 200);
        h.op(&format!("rwn 0 {} {}", x0 + 100000, k));
    }
    if what == 0 {
        h.op(&format!("rwn 0 2000000 {}", n + 7));
    }
    h.op("snap");
    h.end(true);
}

/// Random delay-line history. what: 0 plain, 1 taps, 2 swaps
fn delay_history(run: &mut Run, mode: char, what: u32, ops: usize, keep: bool) {
    let mut h = run.begin(Box::new(Dev::new()));
    let amp = if what == 1 { 60 } else { 2000 };
    let n = if h.run.rng.chance(1, 3) {
        h.run.rng.range(1, 4)
    } else {
        h.run.rng.range(1, 30)
    } as usize;
    let e = scale_exp(&mut h, 95, 95);
    init_e(&mut h, mode, n, amp, e);
    let nd = h.run.rng.range(1, 3) as usize;
    let mut lens = vec![];
    for d in 0..nd {
        let r = &mut h.run.rng;
        let b = r.below(n as u64) as usize;
        let m = r.range(1, (n - b) as i64);
        lens.push(m);
        h.op(&format!("new {} dl {} {}", d, b, m));
    }
    for _ in 0..ops {
        if h.ended {
            break;
        }
        let r = &mut h.run.rng;
        let d = r.below(nd as u64) as usize;
        let c = r.below(match what {
            0 => 20,
            _ => 36,
        });
        let line = match c {
            0..=6 => format!("wa {} {}", d, val(r, mode, amp)),
            7..=8 => format!("adv {}", d),
            9..=14 => format!("rd {}", d),
            15 => format!("len {}", d),
            16 => format!("ptr {}", d),
            17 => "snap".to_string(),
            18 if nd > 1 => {
                let e = (d + 1) % nd;
                lens[e] = lens[d];
                format!("cpd {} {}", e, d)
            }
            18 => format!("poke {} {} {} {}", r.below(n as u64), val(r, mode, amp), r.below(4), d),
            19 if mode != 'b' && r.chance(1, 4) => format!("wipe {}", d),
            19 => format!("wa {} {}", d, val(r, mode, amp)),
            _ if what == 1 => {
                let far = r.chance(1, 6);
                let k = if far { r.range(-100000, 100000) } else { r.range(-2 * n as i64 - 3, 2 * n as i64 + 3) };
                match c % 3 {
                    0 => format!("tap {} {}", d, if far { (r.next() as i64) >> r.pick(&[0, 3, 20, 31]) } else { k }),
                    1 if mode == 'i' => {
                        let f = if far { r.below(16) as f32 / 16.0 } else { r.below(256) as f32 / 256.0 };
                        format!("ltap {} {}", d, (k as f32 + f).to_bits() as i32)
                    }
                    2 if mode == 'i' && !far && lens[d] >= 5 && r.chance(1, 2) => {
                        let (mut s, j) = (r.pick(&[8i64, 16, 64, 256, 1024, 8192, 65536]), r.below(3));
                        while s * (4 * n as i64 + 8) > 1 << 23 {
                            s /= 2;
                        }
                        let k = match r.below(4) {
                            0 => r.range(-4, 1),
                            _ if j == 0 => r.range(-1, 0),
                            _ => k,
                        };
                        let p = if j == 1 || r.chance(1, 3) { r.pick(&[1, s - 1]) } else { r.range(1, s - 1) };
                        let v: Vec<String> = (0..5).map(|_| r.range(-60, 60).to_string()).collect();
                        format!("btap {} {} {} {} {}", d, k, p, s, v.join(" "))
                    }
                    2 if mode == 'i' => {
                        format!("gtap {} {} {} 4", d, k, r.below(4))
                    }
                    _ => format!("tap {} {}", d, k),
                }
            }
            _ if c < 27 => {
                let b = r.below(n as u64) as usize;
                let m = r.range(1, (n - b) as i64);
                format!("chg {} {} {}", d, b, m)
            }
            _ => format!("rd {}", d),
        };
        h.op(&line);
    }
    h.op("snap");
    h.end(keep);
}

pub fn c06(run: &mut Run) {
    crate::lines::lines(run, 6, 80);
    // every length 1..24: three full turns, reads before and after each write
    for n in 1..=24usize {
        for b in [0usize, 2] {
            let mut h = run.begin(Box::new(Dev::new()));
            init(&mut h, 'b', n + 2 * b, 0);
            h.op(&format!("new 0 dl {} {}", b, n));
            for i in 0..3 * n + 2 {
                h.op("rd 0");
                h.op("rd 0");
                if i % 5 == 3 {
                    h.op("adv 0");
                } else {
                    let v = rnd_bits(&mut h.run.rng);
                    h.op(&format!("wa 0 {}", v));
                }
                if n <= 6 {
                    h.op("snap");
                }
            }
            h.op("len 0");
            h.op("ptr 0");
            h.op("snap");
            h.end(true);
        }
    }
    long_history(run, 0);
    for n in 1..=9i64 {
        let mut h = run.begin(Box::new(Dev::new()));
        init(&mut h, 'i', n as usize + 2, 2000);
        h.op(&format!("new 0 dl 1 {}", n));
        for k in [1, n - 1, n, n + 1, 3 * n + 2, 1] {
            h.op(&format!("rwn 0 {} {}", 100 * k, k));
            h.op("snap");
            h.op("rd 0");
        }
        h.end(true);
    }
    // one long line
    let mut h = run.begin(Box::new(Dev::new()));
    init(&mut h, 'i', 700, 2000);
    h.op("new 0 dl 100 600");
    for i in 0..1300 {
        h.op("rd 0");
        h.op(&format!("wa 0 {}", i));
    }
    h.op("snap");
    h.end(true);
    let (total, kept) = if run.thorough { (150000, 8000) } else { (15000, 1200) };
    for i in 0..total {
        delay_history(run, if i % 2 == 0 { 'b' } else { 'i' }, 0, 60, i < kept);
    }
}

pub fn c07(run: &mut Run) {
    crate::lines::lines(run, 7, 80);
    long_history(run, 1);
    for n in 1..=12i64 {
        for pos in [0, 1, n / 2, n - 1] {
            let mut h = run.begin(Box::new(Dev::new()));
            init(&mut h, 'i', n as usize + 2, 60);
            h.op(&format!("new 0 dl 1 {}", n));
            for _ in 0..pos {
                let v = h.run.rng.range(-60, 60);
                h.op(&format!("wa 0 {}", v));
            }
            for k in -(2 * n + 2)..=(2 * n + 2) {
                h.op(&format!("tap 0 {}", k));
                for q in 0..4 {
                    h.op(&format!("ltap 0 {}", (k as f32 + q as f32 / 4.0).to_bits() as i32));
                    h.op(&format!("gtap 0 {} {} 4", k, q));
                }
            }
            for k in [i64::MAX, i64::MIN, i64::MAX - 1, i64::MAX - 40, i64::MIN + 40, 1 << 32, -(1 << 32), (1 << 53) + 1] {
                h.op(&format!("tap 0 {}", k));
            }
            h.op("rd 0");
            h.op("snap");
            h.end(true);
        }
    }
    let (total, kept) = if run.thorough { (150000, 8000) } else { (15000, 1200) };
    for i in 0..total {
        delay_history(run, if i % 4 == 0 { 'b' } else { 'i' }, 1, 60, i < kept);
    }
}

fn fb_history(run: &mut Run, t: &str, swaps: bool, keep: bool) {
    let mut h = run.begin(Box::new(Dev::new()));
    let n = if h.run.rng.chance(1, 2) {
        h.run.rng.range(1, 5)
    } else {
        h.run.rng.range(1, 20)
    } as usize;
    let amp = h.run.rng.pick(&[1i64, 4, 7]);
    let e = scale_exp(&mut h, 110, 100);
    init_e(&mut h, 'x', n + 2, amp, e);
    let nd = if t == "mix" { 3 } else { h.run.rng.range(1, 2) as usize };
    let mut ty = vec![];
    for d in 0..nd {
        let r = &mut h.run.rng;
        let b = r.below(n as u64) as usize;
        let m = r.range(1, (n - b) as i64);
        let k = if t == "mix" { ["dl", "comb", "ap"][d] } else { t };
        ty.push(k.to_string());
        h.op(&format!("new {} {} {} {}", d, k, b, m));
    }
    // coarse: powers of two keep everything exact for a while
    let coarse = h.run.rng.chance(2, 3);
    let len = if coarse { 14 } else { 60 };
    // settings outside 0..1 (few ticks: they may grow)
    let wild = if coarse { h.run.rng.below(8) } else { 0 };
    for _ in 0..len {
        if h.ended {
            break;
        }
        let r = &mut h.run.rng;
        let d = r.below(nd as u64) as usize;
        let c = r.below(if swaps { 24 } else { 20 });
        let k = if wild == 1 {
            r.pick(&[-64i64, -128, 320, 384, 0])
        } else if coarse {
            r.pick(&[0i64, 128, 256, 128])
        } else {
            r.range(0, 192)
        };
        let kf = if wild == 2 {
            r.pick(&[320i64, -320, 256, -256])
        } else if coarse {
            r.pick(&[0i64, 128, -128, 64])
        } else {
            r.range(-192, 192)
        };
        let line = match c {
            0 if ty[d] == "comb" => format!("fb {} {}", d, kf),
            1 if ty[d] == "comb" => format!("dm {} {}", d, k),
            2 => "snap".to_string(),
            3 => format!("ptr {}", d),
            4 if nd == 2 => format!("cpd {} {}", (d + 1) % 2, d),
            4 => format!("poke {} {} {} {}", r.below(n as u64), r.range(-amp, amp) * 65536, r.below(4), d),
            6 if r.chance(1, 3) => format!("wipe {}", d),
            20..=23 => {
                let b = r.below(n as u64) as usize;
                let m = r.range(1, (n - b) as i64);
                format!("chg {} {} {}", d, b, m)
            }
            _ if ty[d] == "dl" => {
                if c % 2 == 0 {
                    format!("rd {}", d)
                } else {
                    format!("wa {} {}", d, val(r, 'i', amp) * 65536)
                }
            }
            5 => format!("tick {} -0", d),
            _ => format!("tick {} {}", d, val(r, 'x', amp)),
        };
        h.op(&line);
    }
    h.op("snap");
    h.end(keep);
}

pub fn c08(run: &mut Run) {
    crate::lines::lines(run, 8, 80);
    long_history(run, 2);
    // every (old length, position, new length) up to 6, every device type
    for t in ["dl", "comb", "ap"] {
        for n in 1..=6usize {
            for pos in 0..n {
                for m in 1..=6usize {
                    let mut h = run.begin(Box::new(Dev::new()));
                    init(&mut h, 'x', 14, 7);
                    h.op(&format!("new 0 {} 1 {}", t, n));
                    for i in 0..pos {
                        h.op(&(if t == "dl" {
                            format!("wa 0 {}", (i + 1) * 65536)
                        } else {
                            format!("tick 0 {}", (i + 1) * 65536)
                        }));
                    }
                    h.op(&format!("chg 0 7 {}", m));
                    h.op("ptr 0");
                    for i in 0..2 * m {
                        if t == "dl" {
                            h.op("rd 0");
                            h.op("tap 0 -1");
                            h.op(&format!("wa 0 {}", (i + 9) * 65536));
                        } else {
                            h.op(&format!("tick 0 {}", (i as i64 % 3) * 65536));
                        }
                        h.op("snap");
                    }
                    // and back to the first buffer
                    h.op(&format!("chg 0 1 {}", n));
                    for i in 0..n {
                        if t == "dl" {
                            h.op("rd 0");
                            if i % 2 == 0 {
                                h.op("adv 0");
                            } else {
                                h.op("wa 0 65536");
                            }
                        } else {
                            h.op("tick 0 65536");
                        }
                    }
                    h.op("snap");
                    h.end(true);
                }
            }
        }
    }
    let (total, kept) = if run.thorough { (150000, 8000) } else { (12000, 1000) };
    for i in 0..total {
        match i % 5 {
            0 | 1 => delay_history(run, if i % 2 == 0 { 'b' } else { 'i' }, 2, 60, i < kept),
            2 => fb_history(run, "comb", true, i < kept),
            3 => fb_history(run, "ap", true, i < kept),
            _ => fb_history(run, "mix", true, i < kept),
        }
    }
}

fn impulse(run: &mut Run, t: &str) {
    for n in 1..=12usize {
        for (fb, dm) in [(128, 128), (128, 0), (-128, 128), (256, 0), (0, 128), (128, 256), (64, 64)] {
            let mut h = run.begin(Box::new(Dev::new()));
            h.op(&format!("init x {}{}", n + 2, " 0".repeat(n + 2)));
            h.op(&format!("new 0 {} 1 {}", t, n));
            if t == "comb" && (fb, dm) != (128, 128) {
                h.op(&format!("fb 0 {}", fb));
                h.op(&format!("dm 0 {}", dm));
            }
            for i in 0..4 * n + 3 {
                h.op(&format!("tick 0 {}", if i == 0 { 65536 } else { 0 }));
            }
            h.op("snap");
            h.end(true);
            if t == "ap" {
                break;
            }
        }
    }
}

/// filters left alone for very long, then used again
fn held(run: &mut Run, t: &str) {
    let total = if run.thorough { 150 } else { 24 };
    for i in 0..total {
        let mut h = run.begin(Box::new(Dev::new()));
        let n = if i % 8 == 7 { 1000 } else { h.run.rng.range(1, 9) };
        if t == "comb" {
            init(&mut h, 'x', n as usize + 2, 7);
        } else {
            h.op(&format!("init x {}{}", n + 2, " 0".repeat(n as usize + 2)));
        }
        h.op(&format!("new 0 {} 1 {}", t, n));
        if t == "comb" {
            h.op("dm 0 0");
            h.op("fb 0 256");
            for _ in 0..h.run.rng.below(5) {
                let l = format!("tick 0 {}", val(&mut h.run.rng, 'x', 7));
                h.op(&l);
            }
        }
        for j in 0..2 {
            let k = h.run.rng.pick(&[1i64, 255, 256, 257, 65535, 65536, 65537, 70_001, 200_003, 1_000_000, 16_777_217]);
            h.op(&format!("hold 0 {}", k));
            for x in [0, 0, 65536, -131072, 0] {
                if x != 0 && j == 0 && t == "ap" {
                    continue;
                }
                h.op(&format!("tick 0 {}", x));
            }
            h.op("snap");
        }
        h.end(true);
    }
}

pub fn c09(run: &mut Run) {
    crate::lines::lines(run, 9, 50);
    held(run, "comb");
    impulse(run, "comb");
    // settings take effect from the next tick on, in every order
    for (dm, fb) in [(-128i64, 128i64), (-64, 128), (320, 64), (384, 128), (512, 64), (-256, 64), (0, 320), (128, -320), (64, 512)] {
        for n in 1..=2 {
            let mut h = run.begin(Box::new(Dev::new()));
            init(&mut h, 'x', 4, 3);
            h.op(&format!("new 0 comb 1 {}", n));
            h.op(&format!("dm 0 {}", dm));
            h.op(&format!("fb 0 {}", fb));
            for i in 0..6i64 {
                h.op(&format!("tick 0 {}", (i % 3) * 65536));
                h.op("snap");
            }
            h.end(true);
        }
    }
    // settings close to nothing, to everything, and to a half
    for i in 0..(if run.thorough { 6000 } else { 700 }) {
        let mut h = run.begin(Box::new(Dev::new()));
        let n = h.run.rng.range(1, 3);
        init(&mut h, 'x', n as usize + 2, 200);
        h.op(&format!("new 0 comb 1 {}", n));
        let fine = |r: &mut Rng, sign: bool| {
            let d = (1i64 << r.below(14)) + r.pick(&[-1, 0, 0, 1]);
            let k = r.pick(&[d, d, 32768 - d, 16384 + d, 16384 - d]);
            if sign && r.chance(1, 3) { -k } else { k }
        };
        let r = &mut h.run.rng;
        let (fb, dm) = match i % 4 {
            0 => (fine(r, true), 128 * r.pick(&[0, 64, 128, 192])),
            1 => (128 * r.pick(&[-128, 64, 128, 256]), fine(r, false)),
            2 => (fine(r, true), 0),
            _ => (fine(r, true), fine(r, false)),
        };
        let late = r.chance(1, 2);
        if late {
            let l = format!("tick 0 {}", val(r, 'x', 200));
            h.op(&l);
        }
        h.op(&format!("fb 0 {} f", fb));
        h.op(&format!("dm 0 {} f", dm));
        for j in 0..8 {
            let r = &mut h.run.rng;
            let x = if j > n && r.chance(1, 2) { 0 } else { val(r, 'x', 200) };
            h.op(&format!("tick 0 {}", x));
            if j % 3 == 2 {
                h.op("snap");
            }
        }
        h.op("snap");
        h.end(true);
    }
    for order in 0..8 {
        for n in 1..=4 {
            let mut h = run.begin(Box::new(Dev::new()));
            init(&mut h, 'x', 6, 7);
            h.op(&format!("new 0 comb 1 {}", n));
            for i in 0..10i64 {
                if i == 2 {
                    if order & 1 == 0 {
                        h.op("fb 0 64");
                        h.op("dm 0 192");
                    } else {
                        h.op("dm 0 192");
                        h.op("fb 0 64");
                    }
                }
                if i == 4 && order & 2 != 0 {
                    h.op("dm 0 64");
                }
                if i == 5 && order & 4 != 0 {
                    h.op("fb 0 -64");
                }
                h.op(&format!("tick 0 {}", (i % 3) * 65536));
                h.op("snap");
            }
            h.end(true);
        }
    }
    let (total, kept) = if run.thorough { (150000, 8000) } else { (20000, 1500) };
    for i in 0..total {
        fb_history(run, "comb", false, i < kept);
    }
}

pub fn c10(run: &mut Run) {
    crate::lines::lines(run, 10, 50);
    held(run, "ap");
    impulse(run, "ap");
    let (total, kept) = if run.thorough { (150000, 8000) } else { (20000, 1500) };
    for i in 0..total {
        fb_history(run, "ap", false, i < kept);
    }
}

/// one operation of device d, whatever it is
fn use_one(h: &mut Hist, t: &str, d: usize, mode: char, amp: i64) {
    let r = &mut h.run.rng;
    let line = match t {
        "dl" => match r.below(6) {
            0..=2 => format!("wa {} {}", d, val(r, 'i', amp) * if mode == 'x' { 65536 } else { 1 }),
            3 => format!("adv {}", d),
            4 => format!("tap {} {}", d, r.range(-9, 9)),
            _ => format!("rd {}", d),
        },
        "comb" => match r.below(12) {
            0 => format!("fb {} {}", d, r.pick(&[0i64, 128, -128, 64])),
            1 => format!("dm {} {}", d, r.pick(&[0i64, 128, 256, 128])),
            _ => format!("tick {} {}", d, val(r, 'x', amp)),
        },
        _ => format!("tick {} {}", d, val(r, 'x', amp)),
    };
    h.op(&line);
}

/// C37: a value, used for a while, is copied in some way; original and copy go on
pub fn c37(run: &mut Run) {
    for t in ["dl", "comb", "ap"] {
        for way in 0..6 {
            for n in 1..=5usize {
                for pos in 0..=n {
                    for first in 0..2usize {
                        let mut h = run.begin(Box::new(Dev::new()));
                        let mode = if t == "dl" { 'i' } else { 'x' };
                        init(&mut h, mode, n + 6, 7);
                        h.op(&format!("new 0 {} 2 {}", t, n));
                        // where clone_from finds something else
                        h.op(&format!("new 1 {} 0 {}", t, n + 3));
                        h.op(&format!("new 2 {} 3 {}", t, n + 2));
                        if t == "comb" {
                            h.op("fb 0 64");
                            h.op("dm 0 64");
                            h.op("fb 1 -64");
                            h.op("dm 1 192");
                        }
                        use_one(&mut h, t, 1, mode, 7);
                        for i in 0..pos {
                            if t == "dl" {
                                h.op(&format!("wa 0 {}", 11 + i));
                            } else {
                                h.op(&format!("tick 0 {}", (1 + i as i64 % 3) * 65536));
                            }
                        }
                        h.op(&format!("twn 0 {} {} 1", 1 + 7 * pos + n, way));
                        h.op(&format!("cpd 1 0 {}", way));
                        // one, then the other, and in turns
                        for (a, b) in [(first, 1 - first), (1 - first, first)] {
                            h.op(&format!("ptr {}", a));
                            for i in 0..n + 1 {
                                for d in [a, b] {
                                    if d == b && i % 2 == 0 {
                                        continue;
                                    }
                                    if t == "dl" {
                                        h.op(&format!("rd {}", d));
                                        h.op(&format!("tap {} {}", d, -1 - i as i64));
                                        h.op(&format!("wa {} {}", d, 100 * d + i));
                                    } else {
                                        h.op(&format!("tick {} {}", d, (i as i64 % 2) * 65536));
                                    }
                                }
                            }
                            h.op("snap");
                        }
                        if t == "dl" {
                            h.op("len 1");
                        }
                        // changing one leaves the other
                        h.op(&format!("chg {} 1 {}", first, n + 1));
                        if t == "comb" {
                            h.op(&format!("fb {} -128", first));
                            h.op(&format!("dm {} 0", 1 - first));
                        }
                        h.op("swp 0 2");
                        for d in [1, 2, 0, 2, 1] {
                            h.op(&format!("ptr {}", d));
                            use_one(&mut h, t, d, mode, 7);
                        }
                        h.op("snap");
                        h.end(true);
                    }
                }
            }
        }
    }
    // slices themselves
    for kind in 0..2 {
        for way in 0..6 {
            let mut h = run.begin(Box::new(Dev::new()));
            init(&mut h, 'i', 6, 5);
            for x in [(0, 0), (0, 1), (2, 0), (2, 3), (0, 6), (5, 1), (6, 0), (1, 3)] {
                for y in [(0, 0), (0, 1), (3, 3), (2, 3), (0, 6), (2, 2)] {
                    h.op(&format!("scp {} {} {} {} {} {}", kind, x.0, x.1, way, y.0, y.1));
                }
            }
            h.op("snap");
            h.end(true);
        }
    }
    // histories with many copies of everything
    let (total, kept) = if run.thorough { (150000, 8000) } else { (15000, 1000) };
    for i in 0..total {
        let mut h = run.begin(Box::new(Dev::new()));
        let n = h.run.rng.range(1, 12) as usize;
        let mode = if h.run.rng.chance(1, 3) { 'i' } else { 'x' };
        init(&mut h, mode, n + 2, 4);
        let mut ty = vec![];
        for d in 0..3 {
            let r = &mut h.run.rng;
            let b = r.below(n as u64) as usize;
            let m = r.range(1, (n - b) as i64);
            let t = if mode == 'i' { "dl" } else { r.pick(&["comb", "comb", "ap", "dl"]) };
            ty.push(t.to_string());
            h.op(&format!("new {} {} {} {}", d, t, b, m));
        }
        for _ in 0..20 {
            if h.ended {
                break;
            }
            let r = &mut h.run.rng;
            let d = r.below(3) as usize;
            match r.below(12) {
                0 | 1 => {
                    let s = r.below(3) as usize;
                    let w = r.below(6);
                    ty[d] = ty[s].clone();
                    let seed = h.run.rng.below(1 << 30);
                    h.op(&format!("twn {} {} {} {}", s, seed, w, d));
                    h.op(&format!("cpd {} {} {}", d, s, w));
                }
                2 => {
                    let s = r.below(3) as usize;
                    ty.swap(d, s);
                    h.op(&format!("swp {} {}", d, s));
                }
                3 => {
                    let b = r.below(n as u64) as usize;
                    let m = r.range(1, (n - b) as i64);
                    h.op(&format!("chg {} {} {}", d, b, m));
                }
                4 => {
                    h.op(&format!("ptr {}", d));
                }
                5 if i % 3 == 0 => {
                    h.op("snap");
                }
                _ => {
                    let t = ty[d].clone();
                    use_one(&mut h, &t, d, mode, 4)
                }
            }
        }
        h.op("snap");
        h.end(i < kept);
    }
}
