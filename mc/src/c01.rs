//! C01: dynamic tree against brute force.
use crate::ensure;
use crate::fw::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_common::*;
use box2d_rs::b2_dynamic_tree::*;
use box2d_rs::b2_math::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Bx {
    pub lx: f32,
    pub ly: f32,
    pub ux: f32,
    pub uy: f32,
}

impl Bx {
    pub const fn new(cx: f32, cy: f32, hx: f32, hy: f32) -> Bx {
        Bx { lx: cx - hx, ly: cy - hy, ux: cx + hx, uy: cy + hy }
    }
    pub fn from(a: B2AABB) -> Bx {
        Bx { lx: a.lower_bound.x, ly: a.lower_bound.y, ux: a.upper_bound.x, uy: a.upper_bound.y }
    }
    pub fn aabb(&self) -> B2AABB {
        B2AABB { lower_bound: B2vec2 { x: self.lx, y: self.ly }, upper_bound: B2vec2 { x: self.ux, y: self.uy } }
    }
    pub fn overlaps(&self, o: &Bx) -> bool {
        self.lx <= o.ux && o.lx <= self.ux && self.ly <= o.uy && o.ly <= self.uy
    }
    pub fn contains(&self, o: &Bx) -> bool {
        self.lx <= o.lx && self.ly <= o.ly && o.ux <= self.ux && o.uy <= self.uy
    }
    pub fn grow(&self, e: f32) -> Bx {
        Bx { lx: self.lx - e, ly: self.ly - e, ux: self.ux + e, uy: self.uy + e }
    }
    pub fn shift(&self, x: f32, y: f32) -> Bx {
        Bx { lx: self.lx - x, ly: self.ly - y, ux: self.ux - x, uy: self.uy - y }
    }
    pub fn near(&self, o: &Bx, e: f32) -> bool {
        (self.lx - o.lx).abs() <= e && (self.ly - o.ly).abs() <= e && (self.ux - o.ux).abs() <= e && (self.uy - o.uy).abs() <= e
    }
    /// Signed closeness of the segment p + t d, t in [0, m], to the box: Some(entry t) on hit.
    pub fn seg(&self, p: (f64, f64), d: (f64, f64), m: f64, e: f64) -> Option<f64> {
        let (mut t0, mut t1) = (0.0f64, m);
        for (p, d, l, u) in [(p.0, d.0, self.lx as f64 - e, self.ux as f64 + e), (p.1, d.1, self.ly as f64 - e, self.uy as f64 + e)] {
            if l > u {
                return None;
            }
            if d == 0.0 {
                if p < l || p > u {
                    return None;
                }
            } else {
                let (mut a, mut b) = ((l - p) / d, (u - p) / d);
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
                t0 = t0.max(a);
                t1 = t1.min(b);
            }
        }
        if t0 <= t1 {
            Some(t0)
        } else {
            None
        }
    }
}

struct Obj {
    id: i32,
    ud: u32,
    tight: Bx,
    fat: Bx,
    moved: bool,
}

pub struct Sim {
    t: B2dynamicTree<u32>,
    live: Vec<Obj>,
    next_ud: u32,
    peak: usize,
    org: (f32, f32),
    loose: bool,
    degenerate: bool,
}

impl Sim {
    pub fn new() -> Sim {
        Sim { t: B2dynamicTree::new(), live: vec![], next_ud: 1, peak: 0, org: (0.0, 0.0), loose: false, degenerate: false }
    }
    fn eps(&self) -> f32 {
        if self.loose {
            2e-3
        } else {
            0.0
        }
    }
    pub fn create(&mut self, b: Bx) -> R {
        let ud = self.next_ud;
        self.next_ud += 1;
        let id = self.t.create_proxy(b.aabb(), &ud);
        ensure!(self.live.iter().all(|o| o.id != id), "create returned id {} of a live object", id);
        ensure!(id >= 0, "negative id");
        let fat = Bx::from(self.t.get_fat_aabb(id));
        ensure!(fat.contains(&b), "stored box {:?} does not enclose {:?}", fat, b);
        ensure!(fat.near(&b.grow(B2_AABB_EXTENSION), 1e-4 * (1.0 + size(&b))), "stored box {:?} is not {:?} plus margin", fat, b);
        self.live.push(Obj { id, ud, tight: b, fat, moved: true });
        self.peak = self.peak.max(self.live.len());
        ensure!((id as usize) < 4 * self.peak + 16, "id {} not reused with peak {}", id, self.peak);
        Ok(())
    }
    pub fn destroy(&mut self, k: usize) -> R {
        let o = self.live.remove(k);
        self.t.destroy_proxy(o.id);
        Ok(())
    }
    pub fn mv(&mut self, k: usize, b: Bx, dx: f32, dy: f32) -> R {
        let e = 1e-4 * (1.0 + size(&b) + dx.abs() + dy.abs());
        let o = &mut self.live[k];
        let r = self.t.move_proxy(o.id, b.aabb(), B2vec2 { x: dx, y: dy });
        let fat = Bx::from(self.t.get_fat_aabb(o.id));
        let mut want = b.grow(B2_AABB_EXTENSION);
        let (sx, sy) = (B2_AABB_MULTIPLIER * dx, B2_AABB_MULTIPLIER * dy);
        if sx < 0.0 {
            want.lx += sx
        } else {
            want.ux += sx
        }
        if sy < 0.0 {
            want.ly += sy
        } else {
            want.uy += sy
        }
        if r {
            ensure!(fat.near(&want, e), "re-inserted box {:?} is not {:?} with margin and displacement ({},{})", fat, b, dx, dy);
            let inside = o.fat.contains(&b) && want.grow(4.0 * B2_AABB_EXTENSION - 2.0 * e).contains(&o.fat);
            ensure!(!inside, "move within the stored box {:?} to {:?} reported as re-insertion", o.fat, b);
            o.moved = true;
        } else {
            ensure!(fat == o.fat, "stored box changed although move returned false");
            ensure!(want.grow(4.0 * B2_AABB_EXTENSION + 2.0 * e).contains(&fat), "oversized stored box kept");
        }
        ensure!(fat.contains(&b), "stored box {:?} does not enclose moved box {:?}", fat, b);
        o.fat = fat;
        o.tight = b;
        Ok(())
    }
    pub fn rebuild(&mut self) {
        self.t.rebuild_bottom_up();
        self.degenerate = true;
    }
    pub fn shift(&mut self, x: f32, y: f32) {
        self.t.shift_origin(B2vec2 { x, y });
        self.org = (self.org.0 + x, self.org.1 + y);
        for o in &mut self.live {
            o.tight = o.tight.shift(x, y);
            o.fat = o.fat.shift(x, y);
        }
    }
    pub fn clear_moved(&mut self, k: usize) {
        self.t.clear_moved(self.live[k].id);
        self.live[k].moved = false;
    }
    /// Compare everything observable with the model.
    pub fn verify(&self, queries: &[Bx], rays: &[((f32, f32), (f32, f32), f32)], c: &mut Ctx) -> R {
        self.t.validate();
        let n = self.live.len();
        let h = self.t.get_height();
        let bal = self.t.get_max_balance();
        if n <= 1 {
            ensure!(h == 0, "height {} with {} objects", h, n);
        } else {
            ensure!((1u64 << h.min(62)) >= n as u64, "height {} too small for {} objects", h, n);
            ensure!(h <= n as i32 - 1, "height {} too large for {} objects", h, n);
            if !self.degenerate {
                let cap = 2.0 * (n as f64).log2() + 2.0;
                ensure!((h as f64) <= cap, "height {} not logarithmic for {} objects", h, n);
            }
            ensure!(bal >= 0 && bal < h.max(1), "balance {} with height {}", bal, h);
            let ar = self.t.get_area_ration() as f64;
            let all = self.live.iter().fold(self.live[0].fat, |a, o| Bx { lx: a.lx.min(o.fat.lx), ly: a.ly.min(o.fat.ly), ux: a.ux.max(o.fat.ux), uy: a.uy.max(o.fat.uy) });
            let per = |b: &Bx| 2.0 * ((b.ux - b.lx) as f64 + (b.uy - b.ly) as f64);
            let leaf: f64 = self.live.iter().map(|o| per(&o.fat)).sum();
            let root = per(&all);
            ensure!(ar * root >= (leaf + root) * 0.999 && ar <= (2 * n - 1) as f64 * 1.001, "area ratio {} inconsistent", ar);
        }
        let mut hs = Fnv::new();
        hs.u(n as u64).u(h as u64).u(bal as u64);
        for o in &self.live {
            ensure!(self.t.get_user_data(o.id) == Some(o.ud), "user data of {} is {:?} not {}", o.id, self.t.get_user_data(o.id), o.ud);
            ensure!(self.t.was_moved(o.id) == o.moved, "moved flag of {} is {}", o.id, !o.moved);
            let f = Bx::from(self.t.get_fat_aabb(o.id));
            ensure!(f == o.fat || (self.loose && f.near(&o.fat, self.eps())), "stored box of {} is {:?}, expected {:?}", o.id, f, o.fat);
            hs.b(o.moved).f(f.lx).f(f.ly).f(f.ux).f(f.uy);
            ensure!(f.grow(self.eps()).contains(&o.tight), "stored box no longer encloses the object");
        }
        let mut out: Vec<i32> = Vec::new();
        for (qi, q) in queries.iter().enumerate() {
            out.clear();
            self.t.query(|id: i32| { out.push(id); true }, q.aabb());
            c.step(1);
            let mut want: Vec<i32> = self.live.iter().filter(|o| o.fat.overlaps(q)).map(|o| o.id).collect();
            if qi == 0 {
                for id in &out {
                    hs.u(*id as u64);
                }
            }
            let mut got = out.clone();
            got.sort();
            want.sort();
            ensure!(got == want, "query {:?} reported {:?}, expected {:?}", q, got, want);
            c.eval(1);
            // stopping
            if want.len() > 1 && qi < 3 {
                for stop in [1, want.len() - 1] {
                    let mut calls = 0;
                    self.t.query(|_id: i32| { calls += 1; calls < stop }, q.aabb());
                    ensure!(calls == stop, "query made {} calls after being stopped at {}", calls, stop);
                    c.eval(1);
                }
            }
        }
        for (ri, r) in rays.iter().enumerate() {
            let inp = B2rayCastInput { p1: B2vec2 { x: r.0 .0, y: r.0 .1 }, p2: B2vec2 { x: r.1 .0, y: r.1 .1 }, max_fraction: r.2 };
            let p = (r.0 .0 as f64, r.0 .1 as f64);
            let d = (r.1 .0 as f64 - p.0, r.1 .1 as f64 - p.1);
            let len = (d.0 * d.0 + d.1 * d.1).sqrt();
            let e = 1e-4 * (1.0 + len);
            for mode in 0..4 {
                let mut offered: Vec<i32> = vec![];
                let mut clip = r.2;
                let mut err: Option<String> = None;
                let mut stopped = false;
                let mut calls = 0;
                self.t.ray_cast(
                    |si: &B2rayCastInput, id: i32| -> f32 {
                        calls += 1;
                        if stopped {
                            err = Some("callback called after it stopped the ray cast".into());
                        }
                        if si.max_fraction != clip || si.p1.x != r.0 .0 || si.p1.y != r.0 .1 || si.p2.x != r.1 .0 || si.p2.y != r.1 .1 {
                            err = Some(format!("callback input {:?} but clip is {}", si, clip));
                        }
                        let o = match self.live.iter().find(|o| o.id == id) {
                            Some(o) => o,
                            None => {
                                err = Some(format!("dead id {} offered", id));
                                return 0.0;
                            }
                        };
                        if offered.contains(&id) {
                            err = Some(format!("{} offered twice", id));
                        }
                        offered.push(id);
                        let hit = o.fat.seg(p, d, clip as f64, e);
                        if hit.is_none() {
                            err = Some(format!("{} offered but box {:?} is missed by {:?} clipped at {}", id, o.fat, r, clip));
                        }
                        match mode {
                            0 => si.max_fraction,
                            1 => -1.0,
                            2 => {
                                // clip to the entry into the box
                                let f = hit.unwrap_or(0.0).max(1e-3) as f32;
                                if f < clip {
                                    clip = f;
                                }
                                clip
                            }
                            _ => {
                                if calls == 2 {
                                    stopped = true;
                                    0.0
                                } else {
                                    si.max_fraction
                                }
                            }
                        }
                    },
                    &inp,
                );
                c.step(1);
                if let Some(e) = err {
                    return Err(format!("ray {} mode {}: {}", ri, mode, e));
                }
                if !stopped {
                    for o in &self.live {
                        if !offered.contains(&o.id) && o.fat.seg(p, d, clip as f64, -e).is_some() {
                            return Err(format!("ray {:?} mode {} clipped at {} did not offer box {:?}", r, mode, clip, o.fat));
                        }
                    }
                }
                c.eval(1);
            }
        }
        c.state(hs.done());
        Ok(())
    }
}

fn size(b: &Bx) -> f32 {
    b.lx.abs().max(b.ly.abs()).max(b.ux.abs()).max(b.uy.abs())
}

const BOXES: [Bx; 6] = [
    Bx::new(0.0, 0.0, 0.5, 0.5),
    Bx::new(1.0, 0.5, 1.5, 0.25),
    Bx::new(-3.0, 2.0, 0.25, 2.0),
    Bx::new(0.1, 0.05, 0.45, 0.5),
    Bx::new(6.0, -4.0, 1.0, 1.0),
    Bx::new(0.0, 0.0, 8.0, 6.0),
];

fn queries() -> Vec<Bx> {
    vec![
        Bx::new(0.0, 0.0, 100.0, 100.0),
        Bx::new(0.0, 0.0, 2.0, 1.0),
        Bx::new(-3.0, 2.0, 0.1, 0.1),
        Bx::new(6.0, -4.0, 0.0, 0.0),
        Bx::new(2.6, 0.5, 0.0, 3.0),
        Bx::new(50.0, 50.0, 1.0, 1.0),
        Bx::new(0.0, 4.0, 3.0, 1.0),
    ]
}

fn rays() -> Vec<((f32, f32), (f32, f32), f32)> {
    vec![
        ((-10.0, 0.1), (10.0, 0.3), 1.0),
        ((7.0, -9.0), (5.5, 8.0), 0.6),
        ((0.0, 10.0), (0.0, -10.0), 1.0),
        ((-6.0, 5.0), (7.0, -5.0), 1.0),
        ((0.2, 0.1), (3.0, 3.0), 0.25),
        ((-8.0, -8.0), (-2.0, 7.0), 1.5),
    ]
}

/// Starting histories of growing size.
fn start(k: usize) -> Result<Sim, String> {
    let mut s = Sim::new();
    let n = [0usize, 2, 5, 9, 17][k];
    for i in 0..n {
        let f = i as f32;
        s.create(Bx::new((f * 2.3) % 7.0 - 3.0, (f * 3.7) % 5.0 - 2.0, 0.2 + (i % 3) as f32 * 0.3, 0.3 + (i % 2) as f32 * 0.4))?;
    }
    if n > 4 {
        s.destroy(1)?;
        s.clear_moved(0);
    }
    Ok(s)
}

/// Operation alphabet.
const NOPS: usize = 24;
fn op(s: &mut Sim, o: usize) -> Result<bool, String> {
    let pick = |s: &Sim, j: usize| -> Option<usize> {
        let n = s.live.len();
        match j {
            _ if n == 0 => None,
            0 => Some(n - 1),
            1 => Some(0),
            _ => Some(n / 2),
        }
    };
    match o {
        0..=5 => {
            s.create(BOXES[o])?;
        }
        6..=8 => match pick(s, o - 6) {
            Some(k) => s.destroy(k)?,
            None => return Ok(false),
        },
        9..=20 => {
            let m = o - 9;
            let k = match pick(s, m % 3) {
                Some(k) => k,
                None => return Ok(false),
            };
            let t = s.live[k].tight;
            match m / 3 {
                0 => s.mv(k, t.shift(-0.05, 0.03), 0.05, -0.03)?, // small
                1 => s.mv(k, t.shift(-1.0, -1.5), 1.0, 1.5)?,     // moderate, predicted
                2 => s.mv(k, BOXES[4].shift(8.0, -6.0), -3.0, -0.2)?, // teleport
                _ => s.mv(k, Bx::new((t.lx + t.ux) * 0.5, (t.ly + t.uy) * 0.5, 0.125, 0.125), 0.0, 0.0)?, // shrink
            }
        }
        21 => {
            s.rebuild();
        }
        22 => s.shift(2.0, -1.0),
        _ => match pick(s, 1) {
            Some(k) => s.clear_moved(k),
            None => return Ok(false),
        },
    }
    Ok(true)
}

fn opname(o: usize) -> String {
    match o {
        0..=5 => format!("create {:?}", BOXES[o]),
        6 => "destroy newest".into(),
        7 => "destroy oldest".into(),
        8 => "destroy middle".into(),
        9..=20 => format!(
            "move {} {}",
            ["newest", "oldest", "middle"][(o - 9) % 3],
            ["by (0.05,-0.03)", "by (1,1.5)", "to (-2,2)", "shrunk to 0.25"][(o - 9) / 3]
        ),
        21 => "rebuild".into(),
        22 => "shift origin by (2,-1)".into(),
        _ => "clear moved flag of oldest".into(),
    }
}

fn perm(mut i: u64, n: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    let mut v = vec![];
    for k in (1..=n).rev() {
        v.push(pool.remove((i % k as u64) as usize));
        i /= k as u64;
    }
    v
}

fn fact(n: usize) -> u64 {
    (1..=n as u64).product()
}

fn layout(l: usize, i: usize) -> Bx {
    let f = i as f32;
    match l {
        0 => Bx::new(2.0 * f, 0.0, 0.5, 0.5),
        1 => Bx::new((i % 3) as f32 * 1.5, (i / 3) as f32 * 1.5, 0.6, 0.4),
        2 => Bx::new(0.1 * f, -0.05 * f, 0.5 + f, 0.5 + 0.5 * f),
        _ => Bx::new((f * f * 1.7) % 9.0, (f * 5.3) % 7.0, 0.1 + 0.2 * f, 1.0),
    }
}

pub fn check() -> Check {
    let th = thorough();
    let mut phases = vec![];
    // every operation sequence from several starting trees
    let depth = if th { 6 } else { 5 };
    let starts = if th { 5 } else { 5 };
    for st in 0..starts {
        let d = if st >= 3 || (th && st == 2) { depth - 1 } else { depth };
        phases.push(phase(
            &format!("seq{}", st),
            seq_count(NOPS, d),
            move |i| format!("start {} then {}", st, decode_seq(i, NOPS, d).iter().map(|o| opname(*o)).collect::<Vec<_>>().join("; ")),
            move |i, c| {
                let seq = decode_seq(i, NOPS, d);
                let mut s = start(st)?;
                let (q, r) = (queries(), rays());
                for (k, o) in seq.iter().enumerate() {
                    if !op(&mut s, *o)? {
                        return Ok(());
                    }
                    c.step(1);
                    // earlier prefixes are the ends of other sequences with the same prefix
                    if k + 1 == seq.len() || seq[k + 1..].iter().all(|x| *x == 0) {
                        s.verify(&q, &r, c)?;
                    }
                }
                Ok(())
            },
        ));
    }
    // every insertion order followed by every removal order
    let n = if th { 7 } else { 6 };
    for l in 0..4 {
        let rem = if th { 120 } else { fact(n) / 4 };
        phases.push(phase(
            &format!("perm{}", l),
            fact(n) * if l < 2 { rem } else { 24 },
            move |i| format!("layout {} insert order {:?} removal order {:?}", l, perm(i % fact(n), n), perm(i / fact(n), n)),
            move |i, c| {
                let ins = perm(i % fact(n), n);
                let del = perm(i / fact(n), n);
                let mut s = Sim::new();
                for k in &ins {
                    s.create(layout(l, *k))?;
                    c.step(1);
                }
                let q = [Bx::new(0.0, 0.0, 100.0, 100.0), layout(l, 1), layout(l, 4).shift(0.3, 0.2), Bx::new(3.3, 0.7, 0.4, 0.4)];
                let r = [((-1.0f32, 0.2f32), (12.0f32, 1.0f32), 1.0f32), ((4.0, 5.0), (2.0, -3.0), 0.8)];
                if i / fact(n) == 0 {
                    s.verify(&q, &r, c)?;
                }
                let mut order: Vec<usize> = ins.clone();
                for k in &del {
                    if order.len() == 1 {
                        break;
                    }
                    let p = order.iter().position(|x| x == k).unwrap();
                    order.remove(p);
                    s.destroy(p)?;
                    c.step(1);
                    s.verify(&q[..3], &r[..1], c)?;
                }
                Ok(())
            },
        ));
    }
    // growth: sizes up to 300, several insertion patterns, deletions of every k-th
    let nmax = if th { 400 } else { 140 };
    let pat = |p: usize, i: usize, n: usize| -> Bx {
        let f = i as f32;
        match p {
            0 => Bx::new(f, 0.0, 0.3, 0.3),
            1 => Bx::new(-f, f * 0.5, 0.3, 0.6),
            2 => {
                let k = if i % 2 == 0 { i } else { n - i };
                Bx::new(k as f32, 0.0, 0.3, 0.3)
            }
            3 => Bx::new((i % 16) as f32, (i / 16) as f32, 0.6, 0.6),
            _ => Bx::new(1.0, 1.0, 0.5, 0.5),
        }
    };
    phases.push(phase(
        "grow",
        nmax as u64 * 5 * 4,
        move |i| format!("insert {} objects in pattern {}, then removal pattern {}", (i / 20) + 1, i % 5, (i / 5) % 4),
        move |i, c| {
            let n = (i / 20) as usize + 1;
            let p = (i % 5) as usize;
            let rm = ((i / 5) % 4) as usize;
            let mut s = Sim::new();
            for k in 0..n {
                s.create(pat(p, k, n))?;
                c.step(1);
            }
            let q = [Bx::new(0.0, 0.0, 1000.0, 1000.0), Bx::new(n as f32 * 0.5, 0.0, 3.0, 3.0), Bx::new(1.0, 1.0, 0.2, 0.2)];
            let r = [((-1.0f32, 0.2f32), (n as f32, 1.0f32), 1.0f32), ((4.0, 5.0), (2.0, -3.0), 0.8)];
            s.verify(&q, &r, c)?;
            match rm {
                0 => {
                    // from the oldest
                    while s.live.len() > n / 3 + 1 {
                        s.destroy(0)?;
                        c.step(1);
                    }
                }
                1 => {
                    let mut k = 0;
                    while k < s.live.len() && s.live.len() > 1 {
                        s.destroy(k)?;
                        k += 1;
                        c.step(1);
                    }
                }
                2 => {
                    while s.live.len() > 1 && s.live.len() > n / 4 {
                        let k = s.live.len() - 1;
                        s.destroy(k)?;
                        c.step(1);
                    }
                    // and grow again
                    for k in 0..n / 2 {
                        s.create(pat((p + 1) % 5, k, n))?;
                    }
                }
                _ => {
                    for k in 0..s.live.len() {
                        let t = s.live[k].tight;
                        s.mv(k, t.shift(-3.0, if k % 2 == 0 { 2.0 } else { -2.0 }), 0.5, 0.25)?;
                        c.step(1);
                    }
                }
            }
            s.verify(&q, &r, c)
        },
    ));
    // bottom-up rebuilds, including nests that make the tree as deep as it can be
    let deep: Vec<usize> = vec![1, 2, 3, 5, 8, 17, 40, 100, 200, 255, 256, 257, 258, 259, 270, 300];
    let nd = if th { deep.len() } else { deep.len() };
    phases.push(phase(
        "rebuild",
        (nd * 4) as u64,
        {
            let deep = deep.clone();
            move |i| format!("{} objects, layout {}, rebuild, query", deep[i as usize / 4], i % 4)
        },
        move |i, c| {
            let n = deep[i as usize / 4];
            let l = i % 4;
            let mut s = Sim::new();
            for k in 0..n {
                let b = match l {
                    0 => {
                        let g = 1.15f32.powi(k as i32);
                        Bx::new(0.0, 0.0, g, g)
                    }
                    1 => {
                        let g = 1.15f32.powi((n - k) as i32);
                        Bx::new(0.0, 0.0, g, g)
                    }
                    2 => pat(3, k, n),
                    _ => pat(0, k, n),
                };
                s.create(b)?;
            }
            s.rebuild();
            c.step(n as u64 + 1);
            let q = [Bx::new(0.0, 0.0, 1e6, 1e6), Bx::new(0.0, 0.0, 0.1, 0.1), Bx::new(3.0, 1.0, 1.0, 1.0)];
            let r = [((0.1f32, 0.2f32), (1.0f32, 0.7f32), 1.0f32)];
            s.verify(&q, &r, c)?;
            s.create(Bx::new(2.0, 2.0, 0.5, 0.5))?;
            s.destroy(0)?;
            s.verify(&q, &r, c)
        },
    ));
    // a rebuild of an emptied or never filled tree
    phases.push(phase(
        "empty",
        4,
        |i| format!("create {} objects, destroy all, validate, rebuild, query, create again", i),
        |i, c| {
            let mut s = Sim::new();
            for k in 0..i {
                s.create(BOXES[k as usize])?;
            }
            for _ in 0..i {
                s.destroy(0)?;
            }
            let (q, r) = (queries(), rays());
            s.verify(&q, &r, c)?;
            s.rebuild();
            s.verify(&q, &r, c)?;
            s.create(BOXES[0])?;
            s.create(BOXES[1])?;
            c.step(2 * i + 3);
            s.verify(&q, &r, c)
        },
    ));
    Check {
        id: "C01",
        bounds: format!("all operation sequences of length {} over {} operations from 5 starting trees (one shorter for the largest ones), all insertion x removal orders of {} boxes in 4 layouts, sizes 1..{} in 5 insertion patterns x 4 removal patterns, rebuilds to depth 300", depth, NOPS, n, nmax),
        assumptions: vec!["coordinates of moderate size; ray rejection judged outside a 1e-4 band".into()],
        phases,
    }
}
