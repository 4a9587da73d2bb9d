//! Ring-buffer devices over long lines (C06 - C10): a run of many steps is
//! one operation, memory is only touched where it is used.
use crate::core::*;
use embedded_audio_tools::memory_access::*;
use embedded_audio_tools::*;

enum D {
    No,
    Dl(DelayLine),
    Comb(Comb),
    Ap(AllPass),
}
/// Lives inside the domain "dev".
pub struct Lines {
    mem: Sparse,
    d: D,
    // view and position, to aim taps and to divide
    b: usize,
    n: usize,
    i: usize,
}

fn whole(v: f32) -> i64 {
    if v.fract() == 0.0 && v.abs() < 1e9 {
        v as i64
    } else {
        1_999_999_999
    }
}
impl Lines {
    pub fn new(n: usize) -> Lines {
        Lines {
            mem: Sparse::new(n).expect("HARNESS mmap"),
            d: D::No,
            b: 0,
            n: 0,
            i: 0,
        }
    }
    fn step(&mut self, x: f32) -> f32 {
        match &mut self.d {
            D::Dl(d) => {
                let v = d.read();
                d.write_and_advance(x);
                v
            }
            D::Comb(d) => d.tick(x),
            D::Ap(d) => d.tick(x),
            D::No => panic!("HARNESS no device"),
        }
    }
    fn dl(&mut self) -> &mut DelayLine {
        match &mut self.d {
            D::Dl(d) => d,
            _ => panic!("HARNESS no line"),
        }
    }
    /// The distance, the sum with the position and its Euclidean division.
    fn reach(&self, ev: &mut Ev, ix: i64) {
        let s = self.i as i64 + ix;
        let n = self.n as i64;
        ev.ints("i", &limbs(ix))
            .ints("sum", &limbs(s))
            .int("q", s.div_euclid(n).clamp(-1000, 1000))
            .ints("r", &ulimbs(s.rem_euclid(n) as usize));
    }
    pub fn exec(&mut self, op: &str, a: &[&str], ev: &mut Ev) {
        match op {
            "Lput" => {
                let p = us(a[0]);
                let v = int(a[1]);
                self.mem.slice(p, 1)[0] = v as f32;
                ev.ok().ints("p", &ulimbs(p)).int("v", v);
            }
            "Lnew" => {
                let (b, n) = (us(a[1]), us(a[2]));
                let s = from_slice_mut(self.mem.slice(b, n));
                self.d = match a[0] {
                    "dl" => D::Dl(DelayLine::new(s)),
                    "comb" => {
                        let mut c = Comb::new(s);
                        c.set_dampening(0.0);
                        c.set_feedback(0.5);
                        D::Comb(c)
                    }
                    _ => D::Ap(AllPass::new(s)),
                };
                (self.b, self.n, self.i) = (b, n, 0);
                ev.ok().str("t", a[0]).ints("b", &ulimbs(b)).ints("n", &ulimbs(n));
            }
            "Lchg" => {
                let (b, n) = (us(a[0]), us(a[1]));
                let s = from_slice_mut(self.mem.slice(b, n));
                match &mut self.d {
                    D::Dl(d) => d.change_buffer(s),
                    D::Comb(d) => d.change_buffer(s),
                    D::Ap(d) => d.change_buffer(s),
                    D::No => panic!("HARNESS no device"),
                }
                (self.b, self.n) = (b, n);
                if self.i >= n {
                    self.i = 0;
                }
                ev.ok().ints("b", &ulimbs(b)).ints("n", &ulimbs(n));
            }
            "Lsz" => {
                let base = self.mem.slice(0, 0).as_ptr() as usize;
                let d = self.dl();
                let n = d.len();
                let p = d.get_ptr_slice_mut();
                let (b, k) = ((p as *mut f32 as usize).wrapping_sub(base) / 4, p.len());
                ev.ok().ints("n", &ulimbs(n)).ints("b", &ulimbs(b)).ints("m", &ulimbs(k));
            }
            "Lrd" => {
                let v = self.dl().read();
                ev.ok().int("v", whole(v));
            }
            "Ladv" => {
                self.dl().advance();
                self.i = (self.i + 1) % self.n;
                ev.ok();
            }
            "Lst" => {
                let x = int(a[0]);
                let v = self.step(x as f32);
                self.i = (self.i + 1) % self.n;
                ev.ok().int("x", x).int("v", whole(v));
            }
            "Lrun" => {
                let k = us(a[0]);
                let mut out = vec![];
                for j in 0..k {
                    let v = self.step(0.0);
                    if v != 0.0 && out.len() < 100 {
                        let l = ulimbs(j);
                        out.push(format!("[{},{},{},{}]", l[0], l[1], l[2], whole(v)));
                    }
                }
                self.i = (self.i + k) % self.n;
                ev.ok().ints("n", &ulimbs(k));
                ev.s.push_str(&format!(",\"vs\":[{}]", out.join(",")));
            }
            "Lgo" => {
                let k = us(a[0]);
                let d = self.dl();
                for _ in 0..k {
                    d.advance();
                }
                let s = self.i + k;
                self.i = s % self.n;
                ev.ok()
                    .ints("n", &ulimbs(k))
                    .int("q", (s / self.n) as i64)
                    .ints("r", &ulimbs(self.i));
            }
            "Ltap" => {
                let k = int(a[0]);
                self.reach(ev, k);
                let v = self.dl().read_wrapped_at(k as isize);
                ev.ok().int("v", whole(v));
            }
            "Lltap" => {
                // at k + f/4
                let (k, f) = (int(a[0]), int(a[1]));
                self.reach(ev, k);
                let v = self.dl().read_lerp_wrapped_at((k as f64 + f as f64 / 4.0) as f32);
                ev.ok().int("fr", 1024 * f).val64("v", v as f64, 12);
            }
            "Lgtap" => {
                let (k, f) = (int(a[0]), int(a[1]));
                self.reach(ev, k);
                let v = self.dl().read_lagrange_wrapped_at((k as f64 + f as f64 / 4.0) as f32);
                ev.ok().int("p", f).int("s", 4).val64("v", v as f64, 8);
            }
            "Lsnap" => {
                let mut out = vec![];
                for (p, v) in self.mem.slice(0, self.mem.n).iter().enumerate() {
                    if *v != 0.0 && out.len() < 200 {
                        let l = ulimbs(p);
                        out.push(format!("[{},{},{},{}]", l[0], l[1], l[2], whole(*v)));
                    }
                }
                ev.ok();
                ev.s.push_str(&format!(",\"m\":[{}]", out.join(",")));
            }
            o => panic!("HARNESS bad op {}", o),
        }
    }
}

/// what: the property; total: histories.
pub fn lines(run: &mut Run, what: u32, total: u64) {
    for t in 0..total * if run.thorough { 8 } else { 1 } {
        let kind = match what {
            6 | 7 => "dl",
            9 => "comb",
            10 => "ap",
            _ => run.rng.pick(&["dl", "comb", "ap"]),
        };
        let r = &mut run.rng;
        // a tap's float position is exact below 2^22
        let ks: &[i64] = if what == 7 {
            &[16, 17, 18, 19, 20, 20, 22, 24]
        } else if kind == "dl" {
            &[16, 17, 18, 19, 20, 21, 22, 23, 24, 24, 25]
        } else {
            &[16, 17, 18, 19, 20, 20, 21, 22]
        };
        let k = r.pick(ks);
        let n = match r.below(4) {
            0 => (1usize << k) - r.below(4) as usize,
            1 => (1usize << k) + r.below(1 << k) as usize,
            _ => (1usize << k) + r.range(1, 12) as usize,
        };
        let cells = n + r.below(8) as usize;
        let b = r.below((cells - n + 1) as u64) as usize;
        let float = n < 1 << 20;
        let mut h = run.begin(Box::new(crate::dev::Dev::new()));
        h.op(&format!("Linit {}", cells));
        h.op(&format!("Lnew {} {} {}", kind, b, n));
        // whatever fits small numbers, halved at most twelve times
        let val = |r: &mut Rng| {
            if kind == "dl" {
                r.range(-300, 300)
            } else {
                4096 * r.range(-15, 15)
            }
        };
        let edges = [16, 18, 20, 22, 24].map(|e| 1usize << e);
        let place = |r: &mut Rng, n: usize| -> usize {
            match r.below(4) {
                0 => r.below(n as u64) as usize,
                1 => r.below(4) as usize % n,
                2 => n - 1 - r.below(4) as usize % n,
                _ => (r.pick(&edges) as i64 + r.range(-3, 3)) as usize % n,
            }
        };
        for _ in 0..8 {
            let p = b + place(&mut h.run.rng, n);
            let run_of = h.run.rng.below(4) as usize;
            for j in 0..=run_of {
                let v = val(&mut h.run.rng);
                h.op(&format!("Lput {} {}", b + (p - b + j) % n, v));
            }
        }
        let (mut i, mut m) = (0usize, n);
        let mut runs = 0;
        for _ in 0..h.run.rng.range(10, 20) {
            let r = &mut h.run.rng;
            // to or just past somewhere that may matter
            let far = (place(r, m) + m - i) % m;
            let far = if r.chance(1, 4) { r.range(0, 40) as usize % m } else { far };
            let c = r.below(12);
            match c {
                0..=2 if runs < 9 => {
                    runs += 1;
                    let k = if r.chance(1, 6) { m } else { far };
                    h.op(&format!("Lrun {}", k));
                    i = (i + k) % m;
                }
                3 if kind == "dl" => {
                    let k = far + m * r.below(if m < 1 << 22 { 4 } else { 2 }) as usize;
                    h.op(&format!("Lgo {}", k));
                    i = (i + k) % m;
                }
                4 | 5 => {
                    let v = val(r);
                    h.op(&format!("Lst {}", v));
                    i = (i + 1) % m;
                }
                6 if what == 8 => {
                    let lo = r.below(cells as u64 / 2) as usize;
                    let room = cells - lo;
                    m = match r.below(4) {
                        0 => (i + r.below(3) as usize).clamp(1, room),
                        1 => room,
                        2 => n.min(room),
                        _ => 1 + r.below(room as u64) as usize,
                    };
                    h.op(&format!("Lchg {} {}", lo, m));
                    if i >= m {
                        i = 0;
                    }
                }
                _ if kind != "dl" => {
                    let v = val(r);
                    h.op(&format!("Lst {}", v));
                    i = (i + 1) % m;
                }
                6 => {
                    h.op("Ladv");
                    i = (i + 1) % m;
                }
                7 => {
                    h.op("Lsz");
                }
                8 => {
                    h.op("Lrd");
                }
                _ => {
                    let laps = if r.chance(1, 2) { 0 } else { r.range(-20, 20) };
                    let d = place(r, m) as i64 - r.pick(&[0, i as i64]) + laps * m as i64;
                    match r.below(3) {
                        1 if what == 7 && float && d.abs() < 1 << 20 => {
                            let q = h.run.rng.below(4);
                            h.op(&format!("Lltap {} {}", d, q));
                        }
                        2 if what == 7 && float && d.abs() < 1 << 20 && m >= 5 => {
                            let q = h.run.rng.below(4);
                            h.op(&format!("Lgtap {} {}", d, q));
                        }
                        _ => {
                            h.op(&format!("Ltap {}", d));
                        }
                    }
                }
            }
        }
        if kind == "dl" {
            h.op("Lrd");
        }
        h.op("Lst 4096");
        h.op("Lsnap");
        let _ = t;
        h.end(true);
    }
}
