//! C26: ropes.
//!
//! Ropes are observed through their drawing. The reference states each tuning as constraint
//! functions with their gradients and projects them in f64; consequences (centre of mass,
//! fixed vertices, lengths, straightening, reset) are checked separately.
use crate::draw::*;
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::kit::v;
use box2d_rs::b2_math::*;
use box2d_rs::b2_rope::*;

type Tune = B2ropeTuning;

const SM: [B2stretchingModel; 2] = [B2stretchingModel::B2PbdStretchingModel, B2stretchingModel::B2XpbdStretchingModel];
const BM: [B2bendingModel; 6] = [
    B2bendingModel::B2SpringAngleBendingModel,
    B2bendingModel::B2PbdAngleBendingModel,
    B2bendingModel::B2XpbdAngleBendingModel,
    B2bendingModel::B2PbdDistanceBendingModel,
    B2bendingModel::B2PbdHeightBendingModel,
    B2bendingModel::B2PbdTriangleBendingModel,
];

fn at(r: &B2rope) -> Result<Vec<P>, String> {
    let mut d = Dr::default();
    r.draw(&mut d);
    let mut pts = vec![];
    let mut segs = vec![];
    for f in d.fig {
        match f {
            Fig::Point(q, ..) => pts.push(q),
            Fig::Seg(a, b, _) => segs.push((a, b)),
            o => return Err(format!("a rope draws {:?}", o)),
        }
    }
    ensure!(segs.len() + 1 == pts.len(), "rope of {} points drawn with {} segments", pts.len(), segs.len());
    for (k, s) in segs.iter().enumerate() {
        ensure!(s.0 == pts[k] && s.1 == pts[k + 1] || !s.0.finite() || !s.1.finite(), "segment {} drawn from {:?} to {:?}, points {:?}", k, s.0, s.1, pts);
    }
    Ok(pts)
}

fn bits(q: &[P]) -> u64 {
    let mut h = Fnv::new();
    for a in q {
        h.f(a.x as f32).f(a.y as f32);
    }
    h.done()
}

fn shapes() -> Vec<(&'static str, Vec<(f32, f32)>)> {
    vec![
        ("straight, 3 even", vec![(0.0, 0.0), (0.5, 0.0), (1.0, 0.0)]),
        ("straight down, 6 uneven", vec![(0.0, 0.0), (0.0, -0.25), (0.0, -0.75), (0.0, -1.0), (0.0, -2.0), (0.0, -2.5)]),
        ("corner, 3", vec![(0.0, 0.0), (0.5, 0.0), (0.7, 0.45)]),
        ("zigzag, 6", vec![(0.0, 0.0), (0.4, 0.1), (0.8, -0.1), (1.1, 0.2), (1.6, 0.1), (1.8, -0.2)]),
        ("slanted, 4", vec![(1.0, 2.0), (1.5, 2.25), (2.0, 2.5), (2.5, 2.75)]),
    ]
}
const STRAIGHT: [usize; 3] = [0, 1, 4];

fn masses(k: usize, n: usize) -> Vec<f32> {
    (0..n)
        .map(|i| match k {
            0 => if i == 0 { 0.0 } else { 1.0 },
            1 => if i == 0 || i == n - 1 { 0.0 } else { 0.5 },
            2 => 1.0,
            3 => if i == n / 2 { 0.0 } else { 1.0 },
            4 => 0.5 + i as f32,
            5 => if i < 3 { 0.0 } else { 1.0 },
            6 => if i == 0 { 0.0 } else { 0.05 },
            _ => if i < 2 { 0.0 } else { 1.0 },
        })
        .collect()
}
const NM: usize = 8;

fn def(shape: usize, mass: usize, g: B2vec2, pos: B2vec2, t: &Tune) -> B2ropeDef {
    let q = &shapes()[shape].1;
    let m = masses(mass, q.len());
    let mut d = B2ropeDef::default();
    d.position = pos;
    d.gravity = g;
    d.tuning = *t;
    d.vertices = q.iter().zip(m).map(|(a, m)| B2ropeDefVertices { position: v(a.0, a.1), mass: m }).collect();
    d
}

fn rope(d: &B2ropeDef) -> B2rope {
    let mut r = B2rope::default();
    r.create(d);
    r
}

/// Reference rope.
struct Ref {
    bind: Vec<P>,
    w: Vec<f64>,
    q: Vec<P>,
    q0: Vec<P>,
    u: Vec<P>,
    rest: Vec<f64>,
    g: P,
    /// last relative rounding scale of the constraint solution
    wild: bool,
}

impl Ref {
    fn new(d: &B2ropeDef) -> Ref {
        let bind: Vec<P> = d.vertices.iter().map(|x| pv(x.position)).collect();
        let q: Vec<P> = bind.iter().map(|b| *b + pv(d.position)).collect();
        Ref {
            w: d.vertices.iter().map(|x| if x.mass > 0.0 { 1.0 / x.mass as f64 } else { 0.0 }).collect(),
            rest: (1..q.len()).map(|i| (q[i] - q[i - 1]).len()).collect(),
            u: vec![p(0.0, 0.0); q.len()],
            q0: q.clone(),
            q,
            bind,
            g: pv(d.gravity),
            wild: false,
        }
    }
    /// Bend angle at vertex i+1 and its gradient.
    fn angle(&mut self, t: &Tune, i: usize) -> Option<(f64, [P; 3], f64)> {
        let d1 = self.q[i + 1] - self.q[i];
        let d2 = self.q[i + 2] - self.q[i + 1];
        let (l1, l2) = if t.isometric { (self.rest[i], self.rest[i + 1]) } else { (d1.len(), d2.len()) };
        if l1 * l2 == 0.0 {
            return None;
        }
        let a = f64::atan2(d1.cross(d2), d1.dot(d2));
        if a.abs() > 2.9 || d1.len().min(d2.len()) < 0.02 {
            self.wild = true;
        }
        // turning d1 by one radian lowers the angle, turning d2 raises it
        let g1 = d1.spin(-1.0) * (1.0 / (l1 * l1));
        let g2 = d2.spin(1.0) * (1.0 / (l2 * l2));
        let g = [p(0.0, 0.0) - g1, g1 - g2, g2];
        let b1 = self.bind[i + 1] - self.bind[i];
        let b2 = self.bind[i + 2] - self.bind[i + 1];
        let k = |g: &[P; 3], w: &[f64]| (0..3).map(|n| w[i + n] * g[n].dot(g[n])).sum::<f64>();
        let sum = if t.fixed_effective_mass {
            let h1 = b1.spin(-1.0) * (1.0 / b1.dot(b1));
            let h2 = b2.spin(1.0) * (1.0 / b2.dot(b2));
            k(&[p(0.0, 0.0) - h1, h1 - h2, h2], &self.w)
        } else {
            k(&g, &self.w)
        };
        Some((a, g, sum))
    }
    fn push(&mut self, i: &[usize], g: &[P], imp: f64) {
        for (n, &k) in i.iter().enumerate() {
            self.q[k] = self.q[k] + g[n] * (self.w[k] * imp);
        }
    }
    fn step(&mut self, t: &Tune, h: f64, it: usize, pos: P) {
        let n = self.q.len();
        for i in 0..n {
            if self.w[i] > 0.0 {
                self.u[i] = self.u[i] * f64::exp(-h * t.damping as f64) + self.g * h;
            } else {
                self.u[i] = (self.bind[i] + pos - self.q0[i]) * (1.0 / h);
            }
        }
        let om = 2.0 * PI * t.bend_hertz as f64;
        if t.bending_model == BM[0] {
            for i in 0..n - 2 {
                if let Some((a, g, sum)) = self.angle(t, i) {
                    if sum == 0.0 {
                        continue;
                    }
                    let rate: f64 = (0..3).map(|k| g[k].dot(self.u[i + k])).sum();
                    let imp = -h / sum * (om * om * a + 2.0 * t.bend_damping as f64 * om * rate);
                    for k in 0..3 {
                        self.u[i + k] = self.u[i + k] + g[k] * (self.w[i + k] * imp);
                    }
                }
            }
        }
        for i in 0..n {
            self.q[i] = self.q[i] + self.u[i] * h;
        }
        let mut lb = vec![0.0; n];
        let mut ls = vec![0.0; n];
        // compliance solve: x = -(C + a*lambda + s*rate) / ((1 + s) K + a)
        let soft = |c: f64, rate: f64, k: f64, ke: f64, hz: f64, zeta: f64, lam: &mut f64| {
            let om = 2.0 * PI * hz;
            if om == 0.0 || ke == 0.0 {
                return 0.0;
            }
            let (kk, cc) = (om * om / ke, 2.0 * zeta * om / ke);
            let a = 1.0 / (kk * h * h);
            let s = a * cc * h;
            let x = -(c + a * *lam + s * rate) / ((1.0 + s) * k + a);
            *lam += x;
            x
        };
        for _ in 0..it {
            for i in 0..n - 2 {
                let kb = t.bend_stiffness as f64;
                let j = [i, i + 1, i + 2];
                let w = [self.w[i], self.w[i + 1], self.w[i + 2]];
                if t.bending_model == BM[1] || t.bending_model == BM[2] {
                    if let Some((a, g, sum)) = self.angle(t, i) {
                        if sum == 0.0 {
                            continue;
                        }
                        let imp = if t.bending_model == BM[1] {
                            -kb * a / sum
                        } else {
                            let rate = (0..3).map(|k| g[k].dot(self.q[i + k] - self.q0[i + k])).sum();
                            let (l1, l2) = (self.rest[i], self.rest[i + 1]);
                            let flat = w[0] / (l1 * l1) + w[1] * (1.0 / l1 + 1.0 / l2).powi(2) + w[2] / (l2 * l2);
                            soft(a, rate, sum, flat, t.bend_hertz as f64, t.bend_damping as f64, &mut lb[i])
                        };
                        self.push(&j, &g, imp);
                    }
                } else if t.bending_model == BM[3] {
                    let d = self.q[i + 2] - self.q[i];
                    let sum = w[0] + w[2];
                    if sum > 0.0 {
                        self.wild |= d.len() < 0.02;
                        let u = d.unit();
                        let c = d.len() - self.rest[i] - self.rest[i + 1];
                        self.push(&[i, i + 2], &[p(0.0, 0.0) - u, u], -kb * c / sum);
                    }
                } else if t.bending_model == BM[4] {
                    let r = self.bind[i + 2] - self.bind[i];
                    let a1 = (self.bind[i + 2] - self.bind[i + 1]).dot(r) / r.dot(r);
                    let a2 = (self.bind[i + 1] - self.bind[i]).dot(r) / r.dot(r);
                    let d = self.q[i] * a1 + self.q[i + 2] * a2 - self.q[i + 1];
                    let sum = w[0] * a1 * a1 + w[1] + w[2] * a2 * a2;
                    if sum > 0.0 {
                        // the full vector is removed
                        let imp = -kb / sum;
                        self.push(&j, &[d * a1, d * -1.0, d * a2], imp);
                    }
                } else if t.bending_model == BM[5] {
                    let sum = w[0] + w[2] + 2.0 * w[1];
                    if sum > 0.0 {
                        let d = self.q[i + 1] - (self.q[i] + self.q[i + 1] + self.q[i + 2]) * (1.0 / 3.0);
                        self.push(&j, &[d * 2.0, d * -4.0, d * 2.0], kb / sum);
                    }
                }
            }
            for i in 0..n - 1 {
                let d = self.q[i + 1] - self.q[i];
                let sum = self.w[i] + self.w[i + 1];
                if sum == 0.0 {
                    continue;
                }
                self.wild |= d.len() < 0.02;
                let u = d.unit();
                let c = d.len() - self.rest[i];
                let g = [p(0.0, 0.0) - u, u];
                let imp = if t.stretching_model == SM[0] {
                    -(t.stretch_stiffness as f64) * c / sum
                } else {
                    let rate = (self.q[i + 1] - self.q0[i + 1] - self.q[i] + self.q0[i]).dot(u);
                    soft(c, rate, sum, sum, t.stretch_hertz as f64, t.stretch_damping as f64, &mut ls[i])
                };
                self.push(&[i, i + 1], &g, imp);
            }
        }
        for i in 0..n {
            self.u[i] = (self.q[i] - self.q0[i]) * (1.0 / h);
            self.q0[i] = self.q[i];
        }
    }
}

fn tune(d: &mut Dec) -> Tune {
    let mut t = Tune::default();
    t.stretching_model = SM[d.d(2)];
    t.bending_model = BM[d.d(6)];
    t.stretch_stiffness = d.p(&[1.0, 0.4]);
    t.stretch_hertz = d.p(&[30.0, 0.0, 8.0]);
    t.bend_hertz = d.p(&[2.0, 0.0, 10.0]);
    t.bend_stiffness = d.p(&[0.5, 0.0, 1.0]);
    let z = d.d(3);
    t.damping = [0.0, 0.3, 3.0][z];
    t.stretch_damping = [0.0, 1.0, 0.5][z];
    t.bend_damping = [0.0, 0.7, 1.0][z];
    t.isometric = d.b();
    t.fixed_effective_mass = d.b();
    t
}
const TUNES: u64 = 2 * 6 * 2 * 3 * 3 * 3 * 3 * 2 * 2;

/// Nothing holds the segments together.
fn loose(t: &Tune) -> bool {
    t.stretching_model == SM[1] && t.stretch_hertz == 0.0
}

fn say_tune(t: &Tune) -> String {
    format!(
        "stretching model {} stiffness {} hertz {} damping {}, bending model {} stiffness {} hertz {} damping {}, damping {}, isometric {}, fixed mass {}",
        t.stretching_model as i32, t.stretch_stiffness, t.stretch_hertz, t.stretch_damping, t.bending_model as i32, t.bend_stiffness, t.bend_hertz, t.bend_damping, t.damping, t.isometric, t.fixed_effective_mass
    )
}

const GR: [(f32, f32); 2] = [(0.0, 0.0), (1.0, -10.0)];

fn conform(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let t = tune(&mut d);
    let shape = d.d(5);
    let mass = d.d(NM);
    let g = GR[d.d(2)];
    let (h, it) = d.p(&[(1.0f32 / 60.0, 1), (1.0 / 120.0, 4), (1.0 / 60.0, 8)]);
    let s = if say { format!("{}, masses {}, gravity {:?}, step {} with {} iterations, {}", shapes()[shape].0, mass, g, h, it, say_tune(&t)) } else { String::new() };
    (s, move |cx: &mut Ctx| {
        let df = def(shape, mass, v(g.0, g.1), v(0.5, -0.25), &t);
        let mut r = rope(&df);
        let mut q = Ref::new(&df);
        let start = at(&r)?;
        ensure!(start.iter().zip(&q.q).all(|(a, b)| pclose(*a, *b, 1e-5)), "created at {:?}", start);
        // a zero step changes nothing
        r.step(0.0, it, v(3.0, 3.0));
        ensure!(at(&r)? == start, "a step of zero length moved the rope");
        for k in 0..5 {
            // the anchor drifts for moving ropes
            let pos = p(0.5 + 0.02 * k as f64, -0.25 - 0.01 * k as f64);
            let pos = pv(vp(pos));
            r.step(h, it, vp(pos));
            q.step(&t, h as f64, it as usize, pos);
            cx.step(1);
            let a = at(&r)?;
            cx.state(bits(&a));
            for (n, z) in a.iter().enumerate() {
                ensure!(z.finite(), "step {}: vertex {} is not finite", k, n);
                if q.w[n] == 0.0 {
                    cx.eval(1);
                    ensure!(pclose(*z, q.bind[n] + pos, 1e-5), "step {}: fixed vertex {} at {:?} instead of {:?}", k, n, z, q.bind[n] + pos);
                }
            }
            if q.wild || q.q.iter().any(|z| z.len() > 50.0) {
                break;
            }
            let sc = q.u.iter().map(|z| z.len()).fold(1.0, f64::max);
            for (n, z) in a.iter().enumerate() {
                cx.eval(1);
                ensure!(pclose(*z, q.q[n], 2e-4 * sc * (k + 1) as f64), "step {}: vertex {} at {:?}, the constraints put it at {:?}", k, n, z, q.q[n]);
            }
        }
        // reset: from here on the same rope as a new one
        let np = v(-1.0, 2.0);
        r.reset(np);
        let mut f = rope(&def(shape, mass, v(g.0, g.1), np, &t));
        for k in 0..3 {
            let (a, b) = (at(&r)?, at(&f)?);
            let big = b.iter().map(|z| z.len()).fold(1.0, f64::max);
            cx.eval(1);
            ensure!(a == b || a.iter().zip(&b).all(|(x, y)| pclose(*x, *y, 2e-4 * big)), "{} steps after a reset: {:?}, a new rope {:?}", k, a, b);
            r.step(h, it, np);
            f.step(h, it, np);
            cx.step(2);
        }
        Ok(())
    })
}

pub fn check() -> Check {
    let deep = thorough();
    let mut ph = vec![];
    let rest: u64 = 5 * NM as u64 * 2 * 3;
    let stride: u64 = 1;
    let n = TUNES * rest / stride;
    let pick = move |i: u64| {
        let (t, r) = (i % TUNES, i / TUNES);
        t + TUNES * ((r * stride + t % stride) % rest)
    };
    ph.push(phase("constraints", n, move |i| conform(pick(i), true).0, move |i, cx| conform(pick(i), false).1(cx)));

    // a straight rope at rest stays as it is
    ph.push(phase(
        "straight at rest",
        TUNES * 3 * NM as u64 * 2,
        |i| {
            let mut d = Dec::new(i);
            let t = tune(&mut d);
            format!("{}, masses {}, {}", shapes()[STRAIGHT[d.d(3)]].0, d.d(NM), say_tune(&t))
        },
        |i, cx| {
            let mut d = Dec::new(i);
            let t = tune(&mut d);
            let (s, m, pos) = (STRAIGHT[d.d(3)], d.d(NM), [v(0.0, 0.0), v(4.0, -8.0)][d.d(2)]);
            if s == 1 && t.bending_model == BM[5] {
                // the triangle model also evens out the spacing
                return Ok(());
            }
            let mut r = rope(&def(s, m, v(0.0, 0.0), pos, &t));
            let a = at(&r)?;
            for k in 0..4 {
                r.step(1.0 / 60.0, 3, pos);
                cx.step(1);
                let b = at(&r)?;
                cx.eval(1);
                ensure!(a.iter().zip(&b).all(|(x, y)| pclose(*x, *y, 1e-5)), "step {}: moved from {:?} to {:?}", k, a, b);
                cx.state(bits(&b));
            }
            Ok(())
        },
    ));

    // free ropes: the centre of mass only feels gravity and damping
    ph.push(phase(
        "centre of mass",
        TUNES * 5 * 2 * 2,
        |i| {
            let mut d = Dec::new(i);
            let t = tune(&mut d);
            format!("{}, {}", shapes()[d.d(5)].0, say_tune(&t))
        },
        |i, cx| {
            let mut d = Dec::new(i);
            let t = tune(&mut d);
            let (s, m, g) = (d.d(5), [2, 4][d.d(2)], GR[d.d(2)]);
            if loose(&t) {
                return Ok(());
            }
            let df = def(s, m, v(g.0, g.1), v(0.0, 0.0), &t);
            let mut r = rope(&df);
            let ms: Vec<f64> = df.vertices.iter().map(|x| x.mass as f64).collect();
            let tot: f64 = ms.iter().sum();
            let com = |q: &[P]| q.iter().zip(&ms).fold(p(0.0, 0.0), |a, (x, m)| a + *x * (*m / tot));
            let (mut c, mut u) = (com(&at(&r)?), p(0.0, 0.0));
            let h = 1.0 / 60.0f32;
            for k in 0..6 {
                r.step(h, 3, v(0.0, 0.0));
                cx.step(1);
                let q = at(&r)?;
                ensure!(q.iter().all(|z| z.finite()), "step {}: not finite", k);
                // a wildly stiff explicit spring may blow rounding up, its momentum still balances
                let big = q.iter().map(|z| z.len()).fold(1.0, f64::max);
                u = u * f64::exp(-(h as f64) * t.damping as f64) + pv(df.gravity) * h as f64;
                c = c + u * h as f64;
                cx.eval(1);
                ensure!(pclose(com(&q), c, 2e-4 * big), "step {}: centre of mass {:?}, expected {:?}", k, com(&q), c);
                cx.state(bits(&q));
            }
            Ok(())
        },
    ));

    // long runs: finite, anchored, and stiff ropes keep their lengths
    let steps = if deep { 600 } else { 90 };
    ph.push(phase(
        "long run",
        TUNES * 5 * 3,
        |i| {
            let mut d = Dec::new(i);
            let t = tune(&mut d);
            format!("{}, masses {}, {}", shapes()[d.d(5)].0, [0, 1, 5][d.d(3)], say_tune(&t))
        },
        move |i, cx| {
            let mut d = Dec::new(i);
            let t = tune(&mut d);
            let (s, m) = (d.d(5), [0, 1, 5][d.d(3)]);
            // rest-length gradients on a rope that stretches freely overshoot and feed on themselves
            if t.stretching_model == SM[1] && t.stretch_hertz < 20.0 && (t.isometric || t.fixed_effective_mass) {
                return Ok(());
            }
            // an explicit spring is stable for omega * dt well below one only
            if loose(&t) || t.bending_model == BM[0] && t.bend_hertz > 5.0 {
                return Ok(());
            }
            let df = def(s, m, v(0.0, -10.0), v(0.0, 0.0), &t);
            let q = Ref::new(&df);
            let mut r = rope(&df);
            for k in 0..steps {
                let pos = v(0.3 * (k as f32 * 0.05).sin(), 0.0);
                r.step(1.0 / 60.0, 8, pos);
                cx.step(1);
                let a = at(&r)?;
                for (n, z) in a.iter().enumerate() {
                    ensure!(z.finite(), "step {}: vertex {} is not finite", k, n);
                    if q.w[n] == 0.0 {
                        ensure!(pclose(*z, q.bind[n] + pv(pos), 1e-4), "step {}: fixed vertex {} at {:?}", k, n, z);
                    }
                }
                let stiff = t.stretching_model == SM[0] && t.stretch_stiffness == 1.0;
                let calm = t.bending_model == BM[1] && m != 1 && !t.isometric && !t.fixed_effective_mass || t.bend_stiffness == 0.0 && t.bending_model != BM[0] && t.bending_model != BM[2];
                if stiff && calm && k > 60 {
                    for e in 0..q.rest.len() {
                        if q.w[e] + q.w[e + 1] > 0.0 {
                            let l = (a[e + 1] - a[e]).len();
                            cx.eval(1);
                            ensure!((l - q.rest[e]).abs() < 0.15 * q.rest[e] + 0.05, "step {}: segment {} is {} long, made {}", k, e, l, q.rest[e]);
                        }
                    }
                }
                cx.state(bits(&a));
            }
            Ok(())
        },
    ));

    // bent free ropes straighten without gravity
    ph.push(phase(
        "straightening",
        6 * 2 * 2 * 2 * 3 * 2 * 2,
        |i| format!("case {}", i),
        |i, cx| {
            let mut d = Dec::new(i);
            let mut t = Tune::default();
            t.bending_model = BM[d.d(6)];
            t.stretching_model = SM[d.d(2)];
            t.isometric = d.b();
            t.fixed_effective_mass = d.b();
            t.bend_stiffness = d.p(&[0.3, 0.8, 1.0]);
            t.stretch_hertz = 30.0;
            t.stretch_damping = 1.0;
            t.bend_hertz = 5.0;
            t.bend_damping = 1.0;
            t.damping = 8.0;
            let m = [2usize, 7][d.d(2)];
            let flip = d.b();
            let mut df = def(0, m, v(0.0, 0.0), v(0.0, 0.0), &t);
            let turn: f32 = if flip { -0.9 } else { 0.9 };
            df.vertices = vec![
                B2ropeDefVertices { position: v(0.0, 0.0), mass: df.vertices[0].mass },
                B2ropeDefVertices { position: v(0.5, 0.0), mass: df.vertices[1].mass },
                B2ropeDefVertices { position: v(0.5 + 0.5 * turn.cos(), 0.5 * turn.sin()), mass: 1.0 },
            ];
            let ang = |q: &[P]| f64::atan2((q[1] - q[0]).cross(q[2] - q[1]), (q[1] - q[0]).dot(q[2] - q[1]));
            let mut r = rope(&df);
            let a0 = ang(&at(&r)?);
            for _ in 0..240 {
                r.step(1.0 / 60.0, 6, v(0.0, 0.0));
                cx.step(1);
            }
            let q = at(&r)?;
            cx.state(bits(&q));
            cx.eval(1);
            ensure!(ang(&q).abs() < 0.2 * a0.abs(), "bend angle {} after four seconds, started at {}", ang(&q), a0);
            Ok(())
        },
    ));

    // switching the tuning while the rope moves
    ph.push(phase(
        "retuning",
        72 * 72 * 2,
        |i| format!("case {}", i),
        |i, cx| {
            let mut d = Dec::new(i);
            let pick = |d: &mut Dec| {
                let mut t = Tune::default();
                t.stretching_model = SM[d.d(2)];
                t.bending_model = BM[d.d(6)];
                let k = d.d(3);
                t.stretch_hertz = [30.0, 10.0, 0.0][k];
                t.bend_hertz = [3.0, 0.0, 6.0][k];
                t.bend_damping = [0.0, 0.5, 1.0][k];
                t.stretch_damping = [0.5, 0.0, 1.0][k];
                let b = d.b();
                t.damping = if b { 0.5 } else { 0.0 };
                t.isometric = b;
                t
            };
            let (a, b) = (pick(&mut d), pick(&mut d));
            let df = def(3, [0, 2][d.d(2)], v(0.0, -10.0), v(0.0, 0.0), &a);
            let mut r = rope(&df);
            let mut q = Ref::new(&df);
            for k in 0..6 {
                let t = if k < 2 { &a } else { &b };
                if k == 2 {
                    r.set_tuning(&b);
                }
                r.step(1.0 / 60.0, 2, v(0.0, 0.0));
                q.step(t, (1.0f32 / 60.0) as f64, 2, p(0.0, 0.0));
                cx.step(1);
                if q.wild {
                    break;
                }
                let z = at(&r)?;
                cx.eval(1);
                let sc = q.u.iter().map(|z| z.len()).fold(1.0, f64::max);
                ensure!(z.iter().zip(&q.q).all(|(x, y)| pclose(*x, *y, 3e-4 * sc * (k + 1) as f64)), "step {}: {:?}, the constraints give {:?}", k, z, q.q);
                cx.state(bits(&z));
            }
            Ok(())
        },
    ));

    Check {
        id: "C26",
        bounds: format!("{} tunings x 5 bind shapes x {} mass patterns x 2 gravities x 3 step settings ({} combinations), runs of {} steps, all pairs of 72 tunings for retuning", TUNES, NM, n, steps),
        assumptions: vec!["positions observed through drawing".into(), "no comparison with the reference once segments fold up or collapse".into()],
        phases: ph,
    }
}
