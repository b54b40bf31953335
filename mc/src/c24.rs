//! C24: motion of free bodies.
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::kit::*;
use box2d_rs::b2_body::*;
use box2d_rs::b2_world::*;

#[derive(Clone, Debug)]
struct M {
    ty: B2bodyType,
    c: P,
    a: f64,
    v: P,
    w: f64,
    f: P,
    t: f64,
    lc: P,
    im: f64,
    i0: f64, // inverse inertia when rotation is free
    fixed: bool,
    ld: f64,
    ad: f64,
    gs: f64,
    awake: bool,
    enabled: bool,
    sleepy: bool,
    timer: f64,
    full: (f64, f64, P), // inverse mass, inverse inertia and centre while dynamic
}
impl M {
    fn retype(&mut self, ty: B2bodyType) {
        if ty == self.ty {
            return;
        }
        self.ty = ty;
        let (o, old) = (self.origin(), self.c);
        let (im, i0, lc) = if ty == DY { self.full } else { (0.0, 0.0, p(0.0, 0.0)) };
        self.im = im;
        self.i0 = i0;
        self.lc = lc;
        self.c = X::new(o, self.a).at(lc);
        match ty {
            ST => {
                self.v = p(0.0, 0.0);
                self.w = 0.0;
            }
            // the material keeps moving as it did, seen at the new centre
            DY => self.v += (self.c - old).spin(self.w),
            _ => {}
        }
        self.wake(true);
        self.f = p(0.0, 0.0);
        self.t = 0.0;
    }
    fn ii(&self) -> f64 {
        if self.fixed {
            0.0
        } else {
            self.i0
        }
    }
    fn wake(&mut self, on: bool) {
        if self.ty == ST {
            return;
        }
        self.awake = on;
        self.timer = 0.0;
        if !on {
            self.v = p(0.0, 0.0);
            self.w = 0.0;
            self.f = p(0.0, 0.0);
            self.t = 0.0;
        }
    }
    fn origin(&self) -> P {
        self.c - X::new(p(0.0, 0.0), self.a).rot(self.lc)
    }
    /// Does a force or impulse act on the body, having woken it if asked to?
    fn acts(&mut self, wake: bool) -> bool {
        if self.ty != DY {
            return false;
        }
        if wake && !self.awake {
            self.wake(true);
        }
        self.awake
    }
    fn step(&mut self, h: f64, g: P, allow_sleep: bool) {
        if !self.awake || !self.enabled || self.ty == ST {
            return;
        }
        if self.ty == DY {
            if self.im > 0.0 {
                self.v += (g * self.gs + self.f * self.im) * h;
            }
            self.w += h * self.ii() * self.t;
            self.v = self.v * (1.0 / (1.0 + h * self.ld));
            self.w /= 1.0 + h * self.ad;
        }
        let d = self.v.len() * h;
        if d > 2.0 {
            self.v = self.v * (2.0 / d);
        }
        let r = (self.w * h).abs();
        if r > 0.5 * PI {
            self.w *= 0.5 * PI / r;
        }
        self.c += self.v * h;
        self.a += self.w * h;
        if allow_sleep {
            if !self.sleepy || self.w.abs() > 2.0 / 180.0 * PI || self.v.len() > 0.01 {
                self.timer = 0.0;
            } else {
                self.timer += h;
                if self.timer >= 0.5 {
                    self.wake(false);
                }
            }
        }
    }
}

struct Sim {
    w: W,
    b: Vec<B>,
    m: Vec<M>,
    g: P,
    auto: bool,
    allow: bool,
}

fn tol(x: f64) -> f64 {
    2e-5 * (1.0 + x.abs())
}
impl Sim {
    fn add(&mut self, ty: B2bodyType, x: f32, y: f32, a: f32, sh: Option<Sh>, set: impl Fn(&mut B2bodyDef<U>)) {
        let mut d = bdef(ty, x, y, a);
        set(&mut d);
        let b = B2world::create_body(self.w.clone(), &d);
        let (mut im, mut i0, mut lc) = (0.0, 0.0, p(0.0, 0.0));
        let mut full = (im, i0, lc);
        if let Some(s) = sh {
            fix(&b, &s, 0.5);
            let (mass, ctr, inert) = s.mass(0.5);
            full = (1.0 / mass, 1.0 / (inert - mass * ctr.dot(ctr)), ctr);
            if ty == DY {
                (im, i0, lc) = full;
            }
        }
        let q = X::new(p(x as f64, y as f64), a as f64);
        let w0 = d.angular_velocity as f64;
        self.m.push(M {
            ty,
            c: q.at(lc),
            a: a as f64,
            v: pv(d.linear_velocity) + q.rot(lc).spin(w0),
            w: w0,
            f: p(0.0, 0.0),
            t: 0.0,
            lc,
            im,
            i0,
            fixed: d.fixed_rotation,
            ld: d.linear_damping as f64,
            ad: d.angular_damping as f64,
            gs: d.gravity_scale as f64,
            awake: d.awake,
            enabled: true,
            sleepy: d.allow_sleep,
            timer: 0.0,
            full,
        });
        self.b.push(b);
    }
    fn step(&mut self, h: f32) {
        self.w.borrow_mut().step(h, 4, 2);
        for m in self.m.iter_mut() {
            if h > 0.0 {
                m.step(h as f64, self.g, self.allow);
            }
            if self.auto {
                m.f = p(0.0, 0.0);
                m.t = 0.0;
            }
        }
    }
    fn op(&mut self, o: usize) {
        let b = self.b[0].clone();
        match o {
            0 => self.step(1.0 / 60.0),
            1 => self.step(0.25),
            2 => self.step(1.0),
            3 => self.step(0.0),
            4 | 5 => {
                let (f, at) = (v(3.0, -2.0), self.m[0].c + p(0.5, 1.0));
                b.borrow_mut().apply_force(f, vp(at), o == 4);
                let m = &mut self.m[0];
                if m.acts(o == 4) {
                    m.f += p(3.0, -2.0);
                    m.t += p(0.5, 1.0).cross(p(3.0, -2.0));
                }
            }
            6 | 26 => {
                b.borrow_mut().apply_force_to_center(v(-1.0, 4.0), o == 6);
                let m = &mut self.m[0];
                if m.acts(o == 6) {
                    m.f += p(-1.0, 4.0);
                }
            }
            7 | 8 => {
                b.borrow_mut().apply_torque(0.75, o == 7);
                let m = &mut self.m[0];
                if m.acts(o == 7) {
                    m.t += 0.75;
                }
            }
            9 | 10 => {
                let at = self.m[0].c + p(-0.5, 0.25);
                b.borrow_mut().apply_linear_impulse(v(0.5, 1.0), vp(at), o == 9);
                let m = &mut self.m[0];
                if m.acts(o == 9) {
                    m.v += p(0.5, 1.0) * m.im;
                    m.w += m.ii() * p(-0.5, 0.25).cross(p(0.5, 1.0));
                }
            }
            11 | 27 => {
                b.borrow_mut().apply_linear_impulse_to_center(v(0.0, -2.0), o == 11);
                let m = &mut self.m[0];
                if m.acts(o == 11) {
                    m.v += p(0.0, -2.0) * m.im;
                }
            }
            12 | 28 => {
                b.borrow_mut().apply_angular_impulse(-0.5, o == 12);
                let m = &mut self.m[0];
                if m.acts(o == 12) {
                    m.w -= 0.5 * m.ii();
                }
            }
            13 | 14 => {
                let q = if o == 14 { v(0.0, 0.0) } else if self.m[0].awake { v(1.5, 0.5) } else { v(0.0, -0.4) };
                b.borrow_mut().set_linear_velocity(q);
                let m = &mut self.m[0];
                if m.ty != ST {
                    if o == 13 {
                        m.wake(true);
                    }
                    m.v = pv(q);
                }
            }
            15 => {
                b.borrow_mut().set_angular_velocity(-2.5);
                let m = &mut self.m[0];
                if m.ty != ST {
                    m.wake(true);
                    m.w = -2.5;
                }
            }
            16 => {
                b.borrow_mut().set_transform(v(-2.0, 1.5), 2.0);
                let m = &mut self.m[0];
                m.a = 2.0;
                m.c = X::new(p(-2.0, 1.5), 2.0).at(m.lc);
            }
            17 | 18 => {
                b.borrow_mut().set_awake(o == 18);
                self.m[0].wake(o == 18);
            }
            19 => {
                let e = !self.m[0].enabled;
                B2body::set_enabled(b.clone(), e);
                self.m[0].enabled = e;
            }
            20 => {
                let e = !self.m[0].fixed;
                b.borrow_mut().set_fixed_rotation(e);
                self.m[0].fixed = e;
                self.m[0].w = 0.0;
            }
            21 => {
                self.w.borrow_mut().clear_forces();
                for m in self.m.iter_mut() {
                    m.f = p(0.0, 0.0);
                    m.t = 0.0;
                }
            }
            22 => {
                self.auto = !self.auto;
                self.w.borrow_mut().set_auto_clear_forces(self.auto);
            }
            23 => {
                self.g = p(2.0, 3.0);
                self.w.borrow_mut().set_gravity(v(2.0, 3.0));
            }
            24 => {
                let mut q = b.borrow_mut();
                q.set_gravity_scale(2.0);
                q.set_linear_damping(0.5);
                q.set_angular_damping(3.0);
                let m = &mut self.m[0];
                m.gs = 2.0;
                m.ld = 0.5;
                m.ad = 3.0;
            }
            25 => {
                let e = !self.m[0].sleepy;
                b.borrow_mut().set_sleeping_allowed(e);
                self.m[0].sleepy = e;
                if !e {
                    self.m[0].wake(true);
                }
            }
            30..=32 => {
                let ty = [ST, KI, DY][o - 30];
                B2body::set_type(b.clone(), ty);
                self.m[0].retype(ty);
            }
            _ => {
                self.allow = !self.allow;
                self.w.borrow_mut().set_allow_sleeping(self.allow);
                if !self.allow {
                    for m in self.m.iter_mut() {
                        m.wake(true);
                    }
                }
            }
        }
    }
    fn compare(&self, c: &mut Ctx) -> R {
        let mut h = Fnv::new();
        for (b, m) in self.b.iter().zip(&self.m) {
            let b = b.borrow();
            ensure!(pclose(pv(b.get_world_center()), m.c, tol(m.c.x.abs() + m.c.y.abs())), "centre {:?} expected {:?}", b.get_world_center(), m);
            let o = m.origin();
            ensure!(pclose(pv(b.get_position()), o, tol(o.x.abs() + o.y.abs())), "position {:?} expected {:?} for {:?}", b.get_position(), o, m);
            ensure!((b.get_angle() as f64 - m.a).abs() <= tol(m.a), "angle {} expected {:?}", b.get_angle(), m);
            ensure!(pclose(pv(b.get_linear_velocity()), m.v, tol(m.v.len())), "velocity {:?} expected {:?}", b.get_linear_velocity(), m);
            ensure!((b.get_angular_velocity() as f64 - m.w).abs() <= tol(m.w), "angular velocity {} expected {:?}", b.get_angular_velocity(), m);
            ensure!(b.is_awake() == m.awake || m.ty == ST, "awake {} expected {:?}", b.is_awake(), m);
            ensure!(b.is_enabled() == m.enabled, "enabled flag");
            let q = b.get_transform();
            let (s, k) = (m.a.sin(), m.a.cos());
            ensure!((q.q.s as f64 - s).abs() < 1e-5 * (1.0 + m.a.abs()) && (q.q.c as f64 - k).abs() < 1e-5 * (1.0 + m.a.abs()), "rotation {:?} at angle {}", q.q, m.a);
            h.f(q.p.x).f(q.p.y).f(b.get_angle()).f(b.get_linear_velocity().x).f(b.get_linear_velocity().y).f(b.get_angular_velocity()).b(b.is_awake());
            c.eval(8);
        }
        c.state(h.done());
        Ok(())
    }
    fn frames(&self, c: &mut Ctx) -> R {
        for (b, m) in self.b.iter().zip(&self.m) {
            let b = b.borrow();
            let x = X::new(m.origin(), m.a);
            for q in [p(0.0, 0.0), p(1.0, 0.0), p(-0.5, 2.0)] {
                let wpt = x.at(q);
                let t = 1e-4 * (1.0 + wpt.len() + m.w.abs());
                ensure!(pclose(pv(b.get_world_point(vp(q))), wpt, t), "world point {:?}", q);
                ensure!(pclose(pv(b.get_world_vector(vp(q))), x.rot(q), t), "world vector {:?}", q);
                ensure!(pclose(pv(b.get_local_point(vp(wpt))), q, t), "local point {:?}", q);
                ensure!(pclose(pv(b.get_local_vector(vp(x.rot(q)))), q, t), "local vector {:?}", q);
                let vel = m.v + (wpt - m.c).spin(m.w);
                ensure!(pclose(pv(b.get_linear_velocity_from_world_point(vp(wpt))), vel, t * (1.0 + m.w.abs())), "velocity of world point {:?}", wpt);
                ensure!(pclose(pv(b.get_linear_velocity_from_local_point(vp(q))), vel, t * (1.0 + m.w.abs())), "velocity of local point {:?}", q);
                c.eval(6);
            }
        }
        Ok(())
    }
}

const NOPS: usize = 30;
const NCFG: u64 = 3 * 3 * 2 * 2 * 2 * 2;
fn build(cfg: u64) -> Sim {
    let mut d = Dec::new(cfg);
    let ty = d.p(&[DY, KI, ST]);
    let sh = d.p(&[1usize, 0, 2]);
    let fixed = d.b();
    let damped = d.b();
    let still = d.b(); // starts at rest with no gravity, so sleep is within reach
    let order = d.b();
    let g = if still { (0.0, 0.0) } else { (0.5, -4.0) };
    let w = world(g.0, g.1);
    let mut s = Sim { w, b: vec![], m: vec![], g: p(g.0 as f64, g.1 as f64), auto: true, allow: true };
    let shape = match sh {
        0 => Some(Sh::Circle(1.0, 0.0, 0.0)),
        1 => Some(Sh::BoxAt(0.5, 1.0, 0.25, -0.5, 0.3)),
        _ => None,
    };
    let set = move |q: &mut B2bodyDef<U>| {
        q.fixed_rotation = fixed;
        if damped {
            q.linear_damping = 1.0;
            q.angular_damping = 0.5;
            q.gravity_scale = -0.5;
        }
        if !still && ty != ST {
            q.linear_velocity = v(-0.5, 0.75);
            q.angular_velocity = if fixed { 0.0 } else { 1.25 };
        }
    };
    let by = |q: &mut B2bodyDef<U>| {
        q.linear_velocity = v(0.25, 0.0);
        q.angular_velocity = -0.5;
    };
    if order {
        s.add(ty, 0.25, -0.5, 0.6, shape, set);
        s.add(DY, 500.0, 3.0, 0.0, Some(Sh::Circle(0.5, 0.5, 0.0)), by);
    } else {
        s.add(DY, 500.0, 3.0, 0.0, Some(Sh::Circle(0.5, 0.5, 0.0)), by);
        s.add(ty, 0.25, -0.5, 0.6, shape, set);
        s.b.swap(0, 1);
        s.m.swap(0, 1);
    }
    s
}
fn seqs(i: u64, depth: usize, cfgs: u64, c: &mut Ctx) -> R {
    let n = seq_count(NOPS, depth);
    let stride = NCFG / cfgs;
    let mut s = build((i / n) * stride % NCFG + (i / n) * stride / NCFG);
    for o in decode_seq(i % n, NOPS, depth) {
        s.op(o);
        c.step(1);
        s.compare(c)?;
    }
    // what is left over shows in the next step
    s.step(1.0 / 60.0);
    c.step(1);
    s.compare(c)?;
    s.frames(c)
}
/// Bodies that change type along the way.
const TURN: [usize; 18] = [0, 1, 4, 6, 7, 9, 12, 13, 15, 16, 17, 19, 20, 22, 24, 30, 31, 32];
fn turns(i: u64, depth: usize, cfgs: u64, c: &mut Ctx) -> R {
    let n = seq_count(TURN.len(), depth);
    let mut s = build((i / n) * (NCFG / cfgs) % NCFG);
    for o in decode_seq(i % n, TURN.len(), depth) {
        s.op(TURN[o]);
        c.step(1);
        s.compare(c)?;
    }
    s.step(1.0 / 60.0);
    c.step(1);
    s.compare(c)?;
    s.frames(c)
}

fn turn_name(i: u64, depth: usize) -> String {
    let n = seq_count(TURN.len(), depth);
    format!("config {} ops {:?}", i / n, decode_seq(i % n, TURN.len(), depth).iter().map(|o| TURN[*o]).collect::<Vec<_>>())
}

/// One step over a grid of velocities and step sizes, around the motion limits.
fn grid(i: u64, c: &mut Ctx) -> R {
    let mut d = Dec::new(i);
    let h = d.p(&[1.0 / 240.0, 1.0 / 60.0, 0.1, 0.5, 1.0, 4.0]);
    let vx = d.p(&[0.0, 0.3, 1.9, 2.1, 19.0, 119.0, 121.0, 400.0, -30.0]);
    let vy = d.p(&[0.0, -0.7, 3.9, 150.0]);
    let om = d.p(&[0.0, 0.2, 1.5, 1.7, -3.0, 90.0, 100.0, -400.0]);
    let ld = d.p(&[0.0, 0.1, 10.0]);
    let ad = d.p(&[0.0, 0.3, 20.0]);
    let gs = d.p(&[1.0, 0.0, -2.0]);
    let ty = d.p(&[DY, KI]);
    let (lx, ly) = d.p(&[(0.0, 0.0), (0.5, -0.25)]);
    let w = world(1.0, -10.0);
    let mut s = Sim { w, b: vec![], m: vec![], g: p(1.0, -10.0), auto: true, allow: true };
    s.add(ty, 1.0, 2.0, -0.4, Some(Sh::Circle(0.5, lx, ly)), |q| {
        q.linear_velocity = v(vx, vy);
        q.angular_velocity = om;
        q.linear_damping = ld;
        q.angular_damping = ad;
        q.gravity_scale = gs;
    });
    // the last velocity is the model's, so the body's may differ by rounding from the definition
    for _ in 0..2 {
        s.step(h);
        c.step(1);
        s.compare(c)?;
    }
    s.frames(c)
}

pub fn check() -> Check {
    let t = thorough();
    let (deep, dc) = if t { (4, NCFG) } else { (4, 6) };
    let tc = if t { NCFG } else { 9 };
    Check {
        id: "C24",
        bounds: format!(
            "every sequence of 3 operations out of {} on {} bodies (type, shape with and without offset centre, massless, fixed rotation, damping, sleep within reach, creation order) and of {} operations on {} of them, \
             with an uninvolved body alongside; sequences of 3 and 4 operations out of {} that include changing the body's type; grid of 6 step lengths x 36 velocities x 8 spins x damping, gravity scale, type and centre offset for two steps",
            NOPS, NCFG, deep, dc, TURN.len()
        ),
        assumptions: vec!["positions and velocities are compared with the double precision model to 2e-5 relative".into()],
        phases: vec![
            phase("sequences", NCFG * seq_count(NOPS, 3), |i| format!("config {} ops {:?}", i / seq_count(NOPS, 3), decode_seq(i % seq_count(NOPS, 3), NOPS, 3)), |i, c| seqs(i, 3, NCFG, c)),
            phase(
                "long sequences",
                dc * seq_count(NOPS, deep),
                move |i| format!("config {} ops {:?}", i / seq_count(NOPS, deep), decode_seq(i % seq_count(NOPS, deep), NOPS, deep)),
                move |i, c| seqs(i, deep, dc, c),
            ),
            phase("changing type", NCFG * seq_count(TURN.len(), 3), |i| turn_name(i, 3), |i, c| turns(i, 3, NCFG, c)),
            phase("changing type more", tc * seq_count(TURN.len(), 4), |i| turn_name(i, 4), move |i, c| turns(i, 4, tc, c)),
            phase("grid", 6 * 9 * 4 * 8 * 3 * 3 * 3 * 2 * 2, |i| format!("grid {}", i), |i, c| grid(i, c)),
        ],
    }
}
