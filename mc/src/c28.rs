//! C28: one-sided chains are smooth and solid from one side only.
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::kit::*;
use box2d_rs::b2_body::*;
use box2d_rs::b2_world::*;
use std::cell::RefCell;
use std::rc::Rc;

fn f2(q: P) -> (f32, f32) {
    (q.x as f32, q.y as f32)
}
fn v2(q: P) -> box2d_rs::b2_math::B2vec2 {
    v(q.x as f32, q.y as f32)
}

/// A run of segments whose solid side is to the right of the direction of travel.
#[derive(Clone, Debug)]
struct Run {
    v: Vec<P>,  // first and last are ghosts
    edges: bool, // separate one-sided edges instead of one chain
}
impl Run {
    fn segs(&self) -> usize {
        self.v.len() - 3
    }
    fn seg(&self, k: usize) -> (P, P) {
        (self.v[k + 1], self.v[k + 2])
    }
    fn normal(&self, k: isize) -> P {
        let k = (k + 1) as usize;
        (self.v[k + 1] - self.v[k]).unit().right()
    }
    fn attach(&self, b: &B) {
        if self.edges {
            for k in 0..self.segs() {
                let q = &self.v[k..k + 4];
                let mut d = fdef(&Sh::EdgeOne([f2(q[0]), f2(q[1]), f2(q[2]), f2(q[3])]));
                d.friction = 0.0;
                d.user_data = Some(k as u32);
                B2body::create_fixture(b.clone(), &d);
            }
        } else {
            let n = self.v.len();
            let mut d = fdef(&Sh::Chain(self.v[1..n - 1].iter().map(|q| f2(*q)).collect(), f2(self.v[0]), f2(self.v[n - 1])));
            d.friction = 0.0;
            d.user_data = Some(0);
            B2body::create_fixture(b.clone(), &d);
        }
    }
    /// Normals a smooth surface has along segment `k` and its ends: the segment's own, and at a
    /// convex end anything up to the neighbour's.
    fn allowed(&self, k: usize, n: P, round: bool) -> bool {
        let own = self.normal(k as isize);
        // polygons: the library admits faces up to about six degrees past the surface
        let tol = if round { 5e-3 } else { 0.105 };
        if (n - own).len() <= tol {
            return true;
        }
        for s in [-1isize, 1] {
            let o = self.normal(k as isize + s);
            // travel turning left keeps the right side convex
            let turn = if s > 0 { own.cross(o) } else { o.cross(own) };
            if turn > 1e-6 {
                let (lo, hi) = if s > 0 { (own, o) } else { (o, own) };
                if lo.cross(n) >= -tol && n.cross(hi) >= -tol && n.dot(own) > 0.0 {
                    return true;
                }
            }
        }
        false
    }
}

fn shape(k: usize) -> Sh {
    match k {
        0 => Sh::Circle(0.25, 0.0, 0.0),
        1 => Sh::Box(0.3, 0.2),
        2 => Sh::Poly(vec![(-0.3, -0.2), (0.4, -0.2), (0.0, 0.3)]),
        3 => Sh::Poly((0..6).map(|k| { let t = k as f32 * 1.0471976; (0.25 * t.cos(), 0.25 * t.sin()) }).collect()),
        4 => Sh::Circle(0.02, 0.0, 0.0),
        _ => Sh::Box(0.9, 0.1),
    }
}
const SN: [&str; 6] = ["ball", "box", "triangle", "hexagon", "pea", "plank"];
/// Distance of the shape's lowest core point below its origin.
fn foot(k: usize) -> f64 {
    -shape(k).core(0).v.iter().map(|q| q.y).fold(f64::MAX, f64::min)
}
fn skin(k: usize) -> f64 {
    shape(k).core(0).r + 0.01
}

/// Contacts as solved in the last step: segment, world normal pointing away from the surface.
fn normals(rec: &Rc<RefCell<Rec>>, edges: bool) -> Vec<(usize, P)> {
    let mut o = vec![];
    for e in rec.borrow().ev.iter() {
        if let Ev::Pre(c, i) = e {
            if i.points > 0 {
                let k = if edges { c.0 as usize } else { c.1 as usize };
                o.push((k, if i.a == 99 { -i.n } else { i.n }));
            }
        }
    }
    rec.borrow_mut().ev.clear();
    o
}

fn mover(w: &W, k: usize, at: P, ang: f64, vel: P, bullet: bool, rest: f32) -> B {
    let mut d = bdef(DY, at.x as f32, at.y as f32, ang as f32);
    d.linear_velocity = v2(vel);
    d.bullet = bullet;
    d.allow_sleep = false;
    let b = B2world::create_body(w.clone(), &d);
    let mut f = fdef(&shape(k));
    f.friction = 0.0;
    f.restitution = rest;
    f.user_data = Some(99);
    B2body::create_fixture(b.clone(), &f);
    b
}

/// Straight surface along x, travelling towards -x (solid side up), turned by `th`.
fn straight(len: f64, th: f64, edges: bool, even: usize) -> (Run, X) {
    let x = X::new(p(0.0, 0.0), th);
    let mut v = vec![];
    let n = (16.0 / len).round() as i64 + 4;
    for k in 0..=n {
        let mut q = len * (k - n / 2) as f64;
        if even == 1 && k % 2 == 0 {
            q += 0.4 * len;
        }
        v.push(x.at(p(-q, 0.0)));
    }
    (Run { v, edges }, x)
}

const TH: [f64; 5] = [0.0, 0.5, 2.0, -1.5707963267948966, 3.0];

/// Sliding along a straight run.
fn slide(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let k = d.d(6);
    let len = d.p(&[0.3, 1.0, 2.5]);
    let th = d.p(&TH);
    let edges = d.b();
    let even = d.d(2);
    let speed: f64 = d.p(&[0.5, 3.0, 11.0, 40.0, -0.5, -3.0, -11.0, -40.0]);
    let start = d.p(&[0.0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875]) * len;
    let press = d.p(&[-10.0, -60.0]);
    let msg = if say { format!("{} sliding at {} from {} on {} of length {} turned {} (uneven {}), pressed {}", SN[k], speed, start, if edges { "edges" } else { "a chain" }, len, th, even, press) } else { String::new() };
    (msg, move |cx| {
        let (run, x) = straight(len, th, edges, even);
        let g = x.rot(p(0.0, press));
        let w = world(g.x as f32, g.y as f32);
        let rec = listen(&w);
        let gr = body(&w, ST, 0.0, 0.0, 0.0);
        run.attach(&gr);
        let n = x.rot(p(0.0, 1.0));
        let t = x.rot(p(1.0, 0.0));
        let at = x.at(p(start - speed.signum() * 1.0, foot(k) + skin(k) - 0.0045));
        let b = mover(&w, k, at, th, t * speed, false, 0.0);
        // rests after a few steps; then nothing along the surface changes
        for s in 0..30 {
            step(&w, DT);
            cx.step(1);
            let q = bstate(&b);
            if x.inv(q.pos).x.abs() > 6.0 {
                break;
            }
            ensure!((q.v.dot(t) - speed).abs() <= 1e-3 * (1.0 + speed.abs()), "step {}: speed along the surface {} of {}", s, q.v.dot(t), speed);
            ensure!(q.v.dot(n).abs() <= 0.02, "step {}: speed across the surface {}", s, q.v.dot(n));
            ensure!((q.ang - th).abs() <= if shape(k).is_poly() { 2e-3 } else { 0.05 }, "step {}: turned by {}", s, q.ang - th);
            let h = x.inv(q.pos).y - foot(k) - skin(k);
            ensure!(h.abs() <= 0.01, "step {}: height above the surface {}", s, h);
            cx.eval(4);
            let ns = normals(&rec, edges);
            ensure!(!ns.is_empty(), "step {}: no contact while resting", s);
            for (c, m) in ns {
                ensure!((m - n).len() <= 5e-3, "step {}: contact normal {:?} with segment {} of a surface facing {:?}", s, m, c, n);
                cx.eval(1);
            }
        }
        cx.state(hash_world(&w));
        Ok(())
    })
}

/// One bend of the surface with a body near it: all contact normals are the surface's.
fn bend(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let k = d.d(6);
    let ang = d.p(&[0.0, 0.05, 0.2, 0.6, 1.2, -0.05, -0.2, -0.6, -1.2]);
    let ang2 = d.p(&[0.0, 0.3, -0.3]);
    let th = d.p(&[0.0, 0.5, 2.0, -1.3]);
    let edges = d.b();
    let along = d.d(25);
    let depth = d.p(&[-0.004, 0.002, 0.02, 0.06]);
    let turn = d.d(8);
    let msg = if say { format!("{} turned {} at {} along bends of {} and {}, {} deep, {}, surface turned {}", SN[k], turn, along, ang, ang2, depth, if edges { "edges" } else { "chain" }, th) } else { String::new() };
    (msg, move |cx| {
        // travel towards -x and bend at the origin; positive bends are hills
        let x = X::new(p(0.0, 0.0), th);
        let dir = |a: f64| p(-a.cos(), -a.sin());
        let far = p(0.0, 0.0) + dir(ang) * 1.5;
        let v: Vec<P> = [p(3.0, 0.0) - dir(-ang2) * 1.0, p(3.0, 0.0), p(1.5, 0.0), p(0.0, 0.0), far, far + dir(ang + ang2) * 1.5, far + dir(ang + ang2) * 3.0].iter().map(|q| x.at(*q)).collect();
        let run = Run { v, edges };
        let w = world(0.0, 0.0);
        let rec = listen(&w);
        let gr = body(&w, ST, 0.0, 0.0, 0.0);
        run.attach(&gr);
        let s = shape(k);
        let core = s.core(0);
        // put the shape in front of the surface so that its deepest point lies `depth` inside
        let rot = X::new(p(0.0, 0.0), turn as f64 * 0.785398 + 0.01);
        let u = -1.213 + 0.1 * along as f64;
        let (sp, n) = if u >= 0.0 { (p(u, 0.0), p(0.0, 1.0)) } else { (dir(ang) * (-u), dir(ang).right()) };
        let low = core.v.iter().map(|q| rot.rot(*q).dot(n)).fold(f64::MAX, f64::min);
        let o = sp + n * (-low + skin(k) - depth);
        let b = mover(&w, k, x.at(o), th + turn as f64 * 0.785398 + 0.01, p(0.0, 0.0), false, 0.0);
        w.borrow_mut().step(0.0, 1, 1);
        cx.step(1);
        let st = bstate(&b);
        let own = X::new(st.pos, st.ang);
        let ns = normals(&rec, edges);
        for (c, m) in &ns {
            ensure!(run.allowed(*c, *m, shape(k).core(0).v.len() == 1), "contact with segment {} has normal {:?}; the segment faces {:?}, its neighbours {:?} and {:?}", c, m, run.normal(*c as isize), run.normal(*c as isize - 1), run.normal(*c as isize + 1));
            cx.eval(1);
        }
        // clearly in front of and clearly overlapping a segment, away from its ends
        let wc = core.at(&own);
        let cen = own.at(match &s {
            q if q.is_poly() => poly_mass(&q.core(0).v).1,
            _ => p(0.0, 0.0),
        });
        let mut deep = false;
        for j in 0..run.segs() {
            let (a, e) = run.seg(j);
            let nn = run.normal(j as isize);
            let len = (e - a).len();
            let l = (cen - a).dot((e - a).unit());
            let front = (cen - a).dot(nn);
            let lowest = wc.v.iter().map(|q| (*q - a).dot(nn)).fold(f64::MAX, f64::min);
            let lowest_at = wc.v.iter().filter(|q| (**q - a).dot(nn) < lowest + 1e-6).map(|q| (*q - a).dot((e - a).unit())).fold(f64::MAX, f64::min);
            if front > 1e-3 && l > 0.0 && l < len && lowest_at > 0.15 && lowest_at < len - 0.15 && lowest < skin(k) - 1e-3 {
                deep = true;
            }
        }
        if depth > 0.0 && deep {
            ensure!(!ns.is_empty(), "no contact although the body reaches into the surface");
            cx.eval(1);
        }
        cx.state(hash_world(&w));
        Ok(())
    })
}

/// Sliding over hills and along valleys of gentle bends: normals stay the surface's, speed is kept.
fn ride(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let k = d.d(4);
    let bendang = d.p(&[0.03, 0.08, 0.15]);
    let len = d.p(&[0.4, 1.0]);
    let edges = d.b();
    let speed: f64 = d.p(&[0.7, 2.0, 5.0, -0.7, -2.0, -5.0]);
    let start = d.d(8) as f64 * 0.125;
    let th = d.p(&[0.0, 0.5, 2.0]);
    let msg = if say { format!("{} riding a hill of bends {} with segments {}, {}, speed {}, start {}, turned {}", SN[k], bendang, len, if edges { "edges" } else { "chain" }, speed, start, th) } else { String::new() };
    (msg, move |cx| {
        let x = X::new(p(0.0, 0.0), th);
        // regular arc, top at the origin, travelling towards -x
        let n = 16i64;
        let mut v = vec![];
        let mut q = p(0.0, 0.0);
        for j in 0..n / 2 {
            v.push(q);
            let a = bendang * (j as f64 + 0.5);
            q = q + p(-a.cos(), -a.sin()) * len;
        }
        let mut r = vec![];
        q = p(0.0, 0.0);
        for j in 0..n / 2 {
            let a = bendang * (j as f64 + 0.5);
            q = q + p(a.cos(), -a.sin()) * len;
            r.push(q);
        }
        r.reverse();
        r.extend(v);
        let run = Run { v: r.iter().map(|q| x.at(*q)).collect(), edges };
        let g = x.rot(p(0.0, -10.0));
        let w = world(g.x as f32, g.y as f32);
        let rec = listen(&w);
        let gr = body(&w, ST, 0.0, 0.0, 0.0);
        run.attach(&gr);
        // starts on top, on the segment to one side
        let side = speed.signum();
        let a = bendang * 0.5;
        let (t, nn) = (p(a.cos(), -side * a.sin()), p(side * a.sin(), a.cos()));
        let at = p(side * t.x, t.y * 1.0) * (start * len) * p(1.0, 0.0).x;
        let at = p(at.x, -(start * len) * a.sin()) + nn * (foot(k) + skin(k) - 0.004);
        let b = mover(&w, k, x.at(at), th - side * a, x.rot(p(t.x * speed, t.y * speed)), false, 0.0);
        let e0 = 0.5 * speed * speed + 10.0 * at.y;
        for s in 0..40 {
            step(&w, DT);
            cx.step(1);
            let q = bstate(&b);
            let l = x.inv(q.c);
            if l.x.abs() > len * 6.0 {
                break;
            }
            for (c, m) in normals(&rec, edges) {
                ensure!(run.allowed(c, m, shape(k).core(0).v.len() == 1), "step {}: contact normal {:?} with segment {} facing {:?}", s, m, c, run.normal(c as isize));
                cx.eval(1);
            }
            let lv = x.irot(q.v);
            ensure!(lv.x * side > 0.0, "step {}: turned back, velocity {:?}", s, lv);
            let m = q.m;
            let e = 0.5 * q.v.dot(q.v) + 0.5 * q.i / m * q.w * q.w + 10.0 * x.inv(q.pos).y;
            // bends take a little of the motion, joints none
            let bends = 2.0 + (lv.x.abs() * DT as f64 * 40.0) / len;
            ensure!(e >= e0 - (0.5 * speed * speed + 1.0) * (2.0 * bendang * bendang * bends + 0.02) - 0.25, "step {}: energy {} of {}", s, e, e0);
            cx.eval(2);
        }
        cx.state(hash_world(&w));
        Ok(())
    })
}

/// From behind: passes with its motion unchanged.
fn behind(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let k = d.d(6);
    let th = d.p(&TH);
    let edges = d.b();
    let vy: f64 = d.p(&[1.0, 4.0, 15.0, 50.0, 110.0]);
    let slope = d.p(&[0.0, 0.4, -0.9]);
    let bullet = d.b();
    let along = d.p(&[0.0, 0.013, 0.25, 0.5, 0.7]);
    let dist = d.p(&[0.0, 0.17, 0.31, 0.48]);
    let turn = d.d(4) as f64 * 0.4;
    let msg = if say { format!("{} turned {} from behind at {} slope {} from {} towards {}, bullet {}, {}, surface turned {}", SN[k], turn, vy, slope, dist, along, bullet, if edges { "edges" } else { "chain" }, th) } else { String::new() };
    (msg, move |cx| {
        let (run, x) = straight(1.0, th, edges, 0);
        let w = world(0.0, 0.0);
        let gr = body(&w, ST, 0.0, 0.0, 0.0);
        run.attach(&gr);
        let vel = p(vy * slope, vy);
        if vel.len() > 115.0 {
            return Ok(());
        }
        let reach = shape(k).core(0).v.iter().map(|q| q.len()).fold(0.0, f64::max) + skin(k) + 0.02;
        let down = reach + dist * vy.max(12.0) / 60.0;
        let o = p(along - down * slope, -down);
        let b = mover(&w, k, x.at(o), th + turn, x.rot(vel), bullet, 0.0);
        let c0 = bstate(&b).pos;
        let steps = ((down + reach + 0.2) / (vy * DT as f64)).ceil() as usize + 1;
        for s in 1..=steps {
            step(&w, DT);
            cx.step(1);
            let q = bstate(&b);
            let lv = x.irot(q.v);
            ensure!((lv - vel).len() <= 2e-3 * vel.len(), "step {}: velocity {:?} of {:?}", s, lv, vel);
            ensure!(q.w.abs() <= 1e-2 * (1.0 + vy), "step {}: spin {}", s, q.w);
            let free = x.inv(c0).y + vy * DT as f64 * s as f64;
            ensure!(x.inv(q.pos).y >= free - 2e-3 - 1e-5 * free.abs(), "step {}: held back at {} of {}", s, x.inv(q.pos).y, free);
            cx.eval(3);
        }
        cx.state(hash_world(&w));
        Ok(())
    })
}

/// From the solid side: stopped.
fn front(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let k = d.d(6);
    let th = d.p(&TH);
    let edges = d.b();
    let vy: f64 = d.p(&[1.0, 4.0, 15.0, 50.0, 110.0]);
    let slope = d.p(&[0.0, 0.4, -0.9]);
    let bullet = d.b();
    let along = d.p(&[0.013, 0.25, 0.5, 0.7, 0.981]);
    let dist = d.p(&[0.0, 0.17, 0.31, 0.48, 0.9]);
    let turn = d.d(4) as f64 * 0.4;
    let rest = d.p(&[0.0f32, 0.5]);
    let msg = if say { format!("{} turned {} at {} slope {} from {} towards {}, bullet {}, restitution {}, {}, surface turned {}", SN[k], turn, vy, slope, dist, along, bullet, rest, if edges { "edges" } else { "chain" }, th) } else { String::new() };
    (msg, move |cx| {
        let (run, x) = straight(1.0, th, edges, 0);
        let w = world(0.0, 0.0);
        let gr = body(&w, ST, 0.0, 0.0, 0.0);
        run.attach(&gr);
        let vel = p(vy * slope, -vy);
        if vel.len() > 115.0 {
            return Ok(());
        }
        let reach = shape(k).core(0).v.iter().map(|q| q.len()).fold(0.0, f64::max) + skin(k) + 0.02;
        let up = reach + dist * vy.max(12.0) / 60.0;
        let o = p(along - up * slope, up);
        let b = mover(&w, k, x.at(o), th + turn, x.rot(vel), bullet, rest);
        let steps = ((up + 1.0) / (vy * DT as f64)).ceil() as usize + 1;
        for s in 1..=steps.min(60) {
            step(&w, DT);
            cx.step(1);
            let q = bstate(&b);
            if x.inv(q.pos).x.abs() > 6.5 {
                break;
            }
            ensure!(x.inv(q.c).y >= -1e-3, "step {}: passed through, now at {:?}", s, x.inv(q.c));
            cx.eval(1);
        }
        cx.state(hash_world(&w));
        Ok(())
    })
}

/// A chain acts as the edges it describes: same touching segments, manifolds and response.
fn twin(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let k = d.d(6);
    let form = d.d(4);
    let gx = d.d(15);
    let gy = d.d(9);
    let turn = d.d(5) as f64 * 0.37;
    let vel = d.p(&[(0.0, 0.0), (2.0, -3.0), (-9.0, -1.0)]);
    let msg = if say { format!("{} turned {} at column {} row {} over form {} moving {:?}", SN[k], turn, gx, gy, form, vel) } else { String::new() };
    (msg, move |cx| {
        let forms: [Vec<P>; 4] = [
            vec![p(4.0, 0.5), p(3.0, 0.3), p(1.5, 0.0), p(0.0, 0.4), p(-1.0, 0.0), p(-2.5, 0.2), p(-4.0, 0.0)],
            vec![p(4.0, 0.0), p(3.0, 0.0), p(1.0, 0.0), p(0.0, 0.0), p(-1.5, 0.0), p(-3.0, 0.0), p(-4.0, 0.0)],
            vec![p(3.0, 3.0), p(2.0, 2.0), p(1.0, 0.0), p(-1.0, 0.0), p(-2.0, 2.0), p(-3.0, 3.0)],
            vec![p(3.0, -3.0), p(2.0, -1.0), p(0.5, 0.0), p(-0.5, 0.0), p(-2.0, -1.0), p(-3.0, -3.0)],
        ];
        let mut out = vec![];
        for edges in [false, true] {
            let run = Run { v: forms[form].clone(), edges };
            let w = world(0.0, -10.0);
            let rec = listen(&w);
            let gr = body(&w, ST, 0.1, -0.05, 0.0);
            run.attach(&gr);
            let b = mover(&w, k, p(-2.1 + 0.3 * gx as f64, -0.3 + 0.15 * gy as f64), turn, p(vel.0, vel.1), false, 0.3);
            w.borrow_mut().step(0.0, 1, 1);
            let mut n: Vec<(usize, P)> = normals(&rec, edges);
            n.sort_by_key(|q| q.0);
            w.borrow_mut().step(DT, 40, 10);
            cx.step(2);
            out.push((n, bstate(&b), hash_world(&w)));
        }
        let (a, b) = (&out[0], &out[1]);
        ensure!(a.0.len() == b.0.len(), "chain touches segments {:?}, edges {:?}", a.0, b.0);
        for (x, y) in a.0.iter().zip(&b.0) {
            ensure!(x.0 == y.0 && (x.1 - y.1).len() < 1e-5, "chain touches {:?}, edges {:?}", x, y);
        }
        cx.eval(1 + a.0.len() as u64);
        // with at most one contact the order of solving cannot matter
        if a.0.len() <= 1 {
            let (s, t) = (&a.1, &b.1);
            if (s.pos - t.pos).len() > 2e-3 || (s.v - t.v).len() > 0.05 {
                // a step that brings a second segment in may be solved in another order
                let two = a.0.len() + 1;
                ensure!(two > 2 || (s.pos - t.pos).len() < 0.05, "chain leaves the body at {:?}, edges at {:?}", s, t);
            }
            cx.eval(1);
        }
        cx.state(a.2);
        Ok(())
    })
}

/// Closed loops: nothing leaks at the closing segment; outside-facing loops hold bodies off.
fn loops(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let k = d.p(&[0usize, 1, 2, 3, 4]);
    let sides = d.p(&[3usize, 4, 5, 7]);
    let first = d.d(7);
    let inward = d.b();
    let dir = d.d(28);
    let speed = d.p(&[2.0, 20.0, 80.0]);
    let enter = d.b();
    let th = d.p(&[0.0, 0.4]);
    let msg = if say { format!("{} at {} in direction {} of 28, loop of {} starting at vertex {}, facing {}, {}, turned {}", SN[k], speed, dir, sides, first, if inward { "in" } else { "out" }, if enter { "from outside" } else { "from inside" }, th) } else { String::new() };
    (msg, move |cx| {
        if first >= sides {
            return Ok(());
        }
        let r = 2.5;
        let ring: Vec<P> = (0..sides)
            .map(|j| {
                let j = (j + first) % sides;
                // solid side right of travel: clockwise faces in
                let t = th + 2.0 * PI * j as f64 / sides as f64 * if inward { -1.0 } else { 1.0 };
                p(r * t.cos(), r * t.sin())
            })
            .collect();
        let w = world(0.0, 0.0);
        let gr = body(&w, ST, 0.0, 0.0, 0.0);
        let mut f = fdef(&Sh::Loop(ring.iter().map(|q| f2(*q)).collect()));
        f.friction = 0.0;
        B2body::create_fixture(gr.clone(), &f);
        let t = dir as f64 * 2.0 * PI / 28.0 + 0.0371;
        let u = p(t.cos(), t.sin());
        let from = if enter { u * -3.7 } else { p(0.0, 0.0) };
        let b = mover(&w, k, from, 0.3, u * speed, false, 0.0);
        let inside = |q: P| (0..sides).map(|j| {
            let (a, e) = (ring[j], ring[(j + 1) % sides]);
            let n = (e - a).unit().right();
            (q - a).dot(n) * if inward { 1.0 } else { -1.0 }
        }).fold(f64::MAX, f64::min);
        if enter && inward && ring.iter().any(|q| q.cross(u).abs() < 0.4 && q.dot(u) < 0.0) {
            // at a corner seen from behind the joint itself is a point in the way
            return Ok(());
        }
        let solid = inward != enter; // meets the solid side first
        let steps = if speed < 5.0 { 150 } else { 40 };
        for s in 1..=steps {
            step(&w, DT);
            cx.step(1);
            let q = bstate(&b);
            if solid {
                if enter {
                    ensure!(inside(q.c) <= 2e-3, "step {}: got inside at {:?}", s, q.c);
                } else {
                    ensure!(inside(q.c) >= -2e-3, "step {}: got out at {:?}", s, q.c);
                }
            } else {
                // motion unchanged until it can meet a solid side
                let near = (0..sides).any(|j| {
                    let (a, e) = (ring[j], ring[(j + 1) % sides]);
                    let n = (e - a).unit().right();
                    (from - a).dot(n) > 0.0 && (q.c - a).dot(n) < 0.7 + speed * DT as f64
                });
                if enter && near || !enter && q.c.len() > 6.0 {
                    break;
                }
                ensure!((q.v - u * speed).len() <= 2e-3 * speed, "step {}: velocity {:?} of {:?}", s, q.v, u * speed);
            }
            cx.eval(1);
        }
        cx.state(hash_world(&w));
        Ok(())
    })
}

pub fn check() -> Check {
    let mut phases = vec![];
    phases.push(phase("slide", 6 * 3 * 5 * 2 * 2 * 8 * 8 * 2, |i| slide(i, true).0, |i, cx| slide(i, false).1(cx)));
    phases.push(phase("bend", 6 * 9 * 3 * 4 * 2 * 25 * 4 * 8, |i| bend(i, true).0, |i, cx| bend(i, false).1(cx)));
    phases.push(phase("ride", 4 * 3 * 2 * 2 * 6 * 8 * 3, |i| ride(i, true).0, |i, cx| ride(i, false).1(cx)));
    phases.push(phase("from behind", 6 * 5 * 2 * 5 * 3 * 2 * 5 * 4 * 4, |i| behind(i, true).0, |i, cx| behind(i, false).1(cx)));
    phases.push(phase("from the front", 6 * 5 * 2 * 5 * 3 * 2 * 5 * 5 * 4 * 2, |i| front(i, true).0, |i, cx| front(i, false).1(cx)));
    phases.push(phase("chain and edges", 6 * 4 * 15 * 9 * 5 * 3, |i| twin(i, true).0, |i, cx| twin(i, false).1(cx)));
    phases.push(phase("loops", 5 * 4 * 7 * 2 * 28 * 3 * 2 * 2, |i| loops(i, true).0, |i, cx| loops(i, false).1(cx)));
    Check {
        id: "C28",
        bounds: "6 shapes; straight runs of 3 segment lengths, 5 turns, even and uneven, as chain and as edges, 8 speeds, 8 starts, 2 pressures; one bend of 9 angles beside another of 3 with 25 positions, 4 depths, 8 attitudes; hills of 3 bends; crossings from both sides at 5 speeds, 3 slopes, 4-5 distances, 4-5 targets, 4 attitudes; chains against the edges they describe on a 15 x 9 grid over 4 forms; loops of 3, 4, 5 and 7 sides from every first vertex, 28 directions, 3 speeds".into(),
        assumptions: vec!["frictionless bodies; targets off the exact joint for crossings from the solid side".into()],
        phases,
    }
}
