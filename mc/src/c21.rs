//! C21: bodies sleep and wake only when they should.
//!
//! A sleep automaton (awake flag and an interval for the quiet time of every body) runs next to
//! the real world through every enumerated history. Groups are recomputed after every step from
//! the touching solid contacts and the joints.
use crate::ensure;
use crate::fw::*;
use crate::jk;
use crate::kit::*;
use box2d_rs::b2_body::*;
use box2d_rs::b2_common::*;
use box2d_rs::b2_world::*;
use std::cell::RefCell;
use std::rc::Rc;

struct Slot {
    b: B,
    alive: bool,
    fx: Vec<F>,
    awake: bool,
    // quiet time, at least / at most
    lo: f64,
    hi: f64,
    late: f64,
}

struct JSlot {
    j: J,
    a: usize,
    b: usize,
    alive: bool,
}

struct Sim {
    w: W,
    rec: Rc<RefCell<Rec>>,
    s: Vec<Slot>,
    j: Vec<JSlot>,
    allow: bool,
    slow: f64,
}

fn body_of(c: u32) -> usize {
    (c / 10) as usize
}

impl Sim {
    fn new(g: f32) -> Sim {
        let w = world(0.0, g);
        w.borrow_mut().set_continuous_physics(false);
        let rec = listen(&w);
        Sim { w, rec, s: vec![], j: vec![], allow: true, slow: 1.0 }
    }
    fn add(&mut self, d: &B2bodyDef<U>, sh: &[(Sh, bool)]) -> usize {
        let b = B2world::create_body(self.w.clone(), d);
        let i = self.s.len();
        let mut fx = vec![];
        for (k, (s, sensor)) in sh.iter().enumerate() {
            let mut f = fdef(s);
            f.user_data = Some((i * 10 + k + 1) as u32);
            f.is_sensor = *sensor;
            fx.push(B2body::create_fixture(b.clone(), &f));
        }
        self.s.push(Slot { b, alive: true, fx, awake: d.awake, lo: 0.0, hi: 0.0, late: 0.0 });
        i
    }
    fn solid(&mut self, t: B2bodyType, x: f32, y: f32, s: Sh) -> usize {
        self.add(&bdef(t, x, y, 0.0), &[(s, false)])
    }
    fn join(&mut self, kind: usize, a: usize, b: usize, collide: bool) {
        let j = jk::mk(&self.w, kind, &self.s[a].b.clone(), &self.s[b].b.clone(), collide, 1);
        self.j.push(JSlot { j, a, b, alive: true });
    }
    fn ty(&self, i: usize) -> B2bodyType {
        self.s[i].b.borrow().get_type()
    }
    fn wake(&mut self, i: usize) {
        if self.ty(i) != ST {
            let s = &mut self.s[i];
            s.awake = true;
            s.lo = 0.0;
            s.hi = 0.0;
            s.late = 0.0;
        }
    }
    fn rest(&mut self, i: usize) {
        self.wake(i);
        if self.ty(i) != ST {
            self.s[i].awake = false;
        }
    }
    /// Bodies pressed against each other by solid contacts: (fixture ids, bodies).
    fn solid_contacts(&self, enabled: bool) -> Vec<(Cid, usize, usize)> {
        self.w
            .borrow()
            .get_contact_list()
            .iter()
            .filter_map(|c| {
                let c = c.borrow();
                let b = c.get_base();
                let sens = b.get_fixture_a().borrow().is_sensor() || b.get_fixture_b().borrow().is_sensor();
                if sens || b.get_manifold().point_count == 0 || enabled && !(b.is_touching() && b.is_enabled()) {
                    return None;
                }
                let id = cid(b);
                Some((id, body_of(id.0), body_of(id.2)))
            })
            .collect()
    }
    /// Contacts of the body (or of one of its fixtures) are about to be destroyed.
    fn lose(&mut self, i: usize, only: Option<u32>) {
        for (id, a, b) in self.solid_contacts(false) {
            let hit = match only {
                Some(f) => id.0 == f || id.2 == f,
                None => a == i || b == i,
            };
            if hit {
                self.wake(a);
                self.wake(b);
            }
        }
    }
    fn moving(&self, i: usize) -> bool {
        self.s[i].alive && self.ty(i) != ST && self.s[i].b.borrow().is_enabled()
    }
    fn groups(&self) -> Vec<Vec<usize>> {
        let n = self.s.len();
        let mut g: Vec<usize> = (0..n).collect();
        fn root(g: &[usize], mut i: usize) -> usize {
            while g[i] != i {
                i = g[i];
            }
            i
        }
        let mut link: Vec<(usize, usize)> = self.solid_contacts(true).iter().map(|c| (c.1, c.2)).collect();
        for j in self.j.iter().filter(|j| j.alive) {
            link.push((j.a, j.b));
        }
        for (a, b) in link {
            if self.moving(a) && self.moving(b) {
                let (x, y) = (root(&g, a), root(&g, b));
                g[x] = y;
            }
        }
        (0..n)
            .filter(|&r| g[r] == r && self.moving(r))
            .map(|r| (0..n).filter(|&i| root(&g, i) == r).collect())
            .collect()
    }
    fn hash(&self, i: usize) -> u64 {
        let mut h = Fnv::new();
        hash_body(&mut h, &self.s[i].b);
        h.done()
    }
    fn flags(&self, what: &str) -> R {
        for (i, s) in self.s.iter().enumerate() {
            if s.alive && self.ty(i) != ST {
                ensure!(s.b.borrow().is_awake() == s.awake, "{}: body {} is {}", what, i, if s.awake { "asleep, expected awake" } else { "awake, expected asleep" });
            }
        }
        Ok(())
    }
    fn step(&mut self, h: f32, cx: &mut Ctx) -> R {
        let before: Vec<u64> = (0..self.s.len()).map(|i| self.hash(i)).collect();
        let pressed: Vec<Cid> = self.solid_contacts(false).iter().map(|c| c.0).collect();
        self.rec.borrow_mut().ev.clear();
        step(&self.w, h);
        cx.step(1);
        let kept: Vec<Cid> = contacts(&self.w).iter().map(|c| c.0).collect();
        let ev = std::mem::take(&mut self.rec.borrow_mut().ev);
        let sensor = |me: &Sim, f: u32| me.s[body_of(f)].fx.iter().any(|x| x.borrow().get_user_data() == Some(f) && x.borrow().is_sensor());
        let mut active: Vec<bool> = self.s.iter().map(|s| s.awake).collect();
        for e in &ev {
            let id = match e {
                Ev::Begin(id, _) | Ev::End(id, _) => id,
                _ => continue,
            };
            let (a, b) = (body_of(id.0), body_of(id.2));
            // something has to be going on for a contact to change
            ensure!(
                active[a] && self.ty(a) != ST || active[b] && self.ty(b) != ST,
                "contact event {:?} between bodies that are not awake", e
            );
            // a former sensor's contact that simply goes away never carried anything
            let real = kept.contains(id) || pressed.contains(id);
            if real && !sensor(self, id.0) && !sensor(self, id.2) {
                self.wake(a);
                self.wake(b);
                active[a] = true;
                active[b] = true;
            }
        }
        for i in 0..self.s.len() {
            active[i] |= self.s[i].awake;
        }
        let h = h as f64;
        let grouped = self.groups();
        let mut in_group = vec![false; self.s.len()];
        for g in &grouped {
            let any = g.iter().any(|&i| self.s[i].awake);
            for &i in g {
                in_group[i] = true;
            }
            if !any {
                for &i in g {
                    ensure!(self.hash(i) == before[i], "sleeping body {} changed in a step", i);
                }
                continue;
            }
            if h == 0.0 {
                continue;
            }
            let asleep = g.iter().filter(|&&i| !self.s[i].b.borrow().is_awake()).count();
            ensure!(asleep == 0 || asleep == g.len(), "group {:?}: only {} members asleep", g, asleep);
            let lazy = g.iter().all(|&i| self.s[i].b.borrow().is_sleeping_allowed());
            if asleep > 0 {
                ensure!(self.allow, "group {:?} fell asleep with sleeping switched off", g);
                ensure!(lazy, "group {:?} fell asleep although a member may not", g);
                for &i in g {
                    ensure!(self.s[i].hi + h >= B2_TIME_TO_SLEEP as f64 - 1e-4, "group {:?} fell asleep: body {} was quiet for {} s only", g, i, self.s[i].hi + h);
                    let t = bstate(&self.s[i].b);
                    ensure!(t.v.len() == 0.0 && t.w == 0.0, "body {} asleep with velocity {:?} {}", i, t.v, t.w);
                    self.rest(i);
                }
                continue;
            }
            let (mut lo, mut late) = (f64::MAX, f64::MAX);
            for &i in g {
                let t = bstate(&self.s[i].b);
                let q = (t.v.len() / B2_LINEAR_SLEEP_TOLERANCE as f64).max(t.w.abs() / B2_ANGULAR_SLEEP_TOLERANCE as f64);
                let may = t.awake && self.s[i].b.borrow().is_sleeping_allowed() && self.allow;
                let s = &mut self.s[i];
                s.awake = true;
                let add = |x: f64, ok: bool| if ok { x + h } else { 0.0 };
                if self.allow {
                    s.lo = add(s.lo, may && q < 0.999);
                    s.hi = add(s.hi, may && q < 1.001);
                    s.late = if s.lo > B2_TIME_TO_SLEEP as f64 + 1e-4 { s.late + h } else { 0.0 };
                }
                lo = lo.min(s.lo);
                late = late.min(s.late);
            }
            // unsettled position errors may hold a quiet group back for a while
            ensure!(!(self.allow && lo > B2_TIME_TO_SLEEP as f64 + 1e-4 && late > self.slow), "group {:?} quiet for {} s does not sleep", g, lo);
        }
        for i in 0..self.s.len() {
            if !self.s[i].alive {
                continue;
            }
            if self.ty(i) == ST || !in_group[i] {
                let t = bstate(&self.s[i].b);
                ensure!(self.hash(i) == before[i] || active[i], "body {} that takes no part changed in a step", i);
                if self.ty(i) == ST {
                    ensure!(t.v.len() == 0.0 && t.w == 0.0, "static body {} moves {:?}", i, t.v);
                    ensure!(self.hash(i) == before[i], "static body {} changed in a step", i);
                }
            }
        }
        self.flags("after the step")?;
        let mut hs = Fnv::new();
        for i in 0..self.s.len() {
            hs.u(self.hash(i)).u((self.s[i].hi * 240.0).round() as u64);
        }
        cx.state(hs.done());
        cx.eval(self.s.iter().filter(|s| s.alive).count() as u64);
        Ok(())
    }
    fn run(&mut self, n: usize, h: f32, cx: &mut Ctx) -> R {
        for k in 0..n {
            self.step(h, cx).map_err(|e| format!("step {}: {}", k, e))?;
        }
        Ok(())
    }
    fn all_asleep(&self) -> bool {
        (0..self.s.len()).all(|i| !self.moving(i) || !self.s[i].awake)
    }
}

const SCENES: [&str; 12] = [
    "box on ground",
    "stack of three",
    "two piles on one ground",
    "two bodies on a distance joint, no gravity",
    "pendulum of two links at rest under a static pivot",
    "box on a still kinematic platform with another box",
    "boxes touching a sensor body",
    "circles in a valley",
    "box bridging two static ledges",
    "two jointed boxes on the ground, another in contact",
    "body held by a mouse joint",
    "motor joint pair on the ground",
];

fn scene(k: usize, order: bool) -> Sim {
    let g = if matches!(k, 3 | 6) { 0.0 } else { -10.0 };
    let mut s = Sim::new(g);
    let bx = Sh::Box(0.5, 0.5);
    let ground = Sh::Box(20.0, 1.0);
    let gnd = |s: &mut Sim| s.solid(ST, 0.0, -1.0, Sh::Box(20.0, 1.0));
    match k {
        0 => {
            gnd(&mut s);
            s.solid(DY, 0.0, 0.51, bx);
        }
        1 => {
            gnd(&mut s);
            let ys = if order { [0.51, 1.52, 2.53] } else { [2.53, 1.52, 0.51] };
            for y in ys {
                s.solid(DY, 0.0, y, bx.clone());
            }
        }
        2 => {
            gnd(&mut s);
            let xs = if order { [-3.0, 3.0] } else { [3.0, -3.0] };
            for x in xs {
                s.solid(DY, x, 0.51, bx.clone());
                s.solid(DY, x, 1.52, bx.clone());
            }
        }
        3 => {
            let a = s.solid(DY, -1.0, 0.0, bx.clone());
            let b = s.solid(DY, 1.0, 0.0, bx.clone());
            s.solid(DY, 5.0, 0.0, bx);
            if order {
                s.join(jk::DIST, a, b, true);
            } else {
                s.join(jk::DIST, b, a, true);
            }
        }
        4 => {
            let c = s.solid(ST, 0.0, 4.0, Sh::Circle(0.1, 0.0, 0.0));
            let mut v: Vec<usize> = vec![];
            for i in 0..2 {
                v.push(s.solid(DY, 0.0, 3.0 - 1.5 * i as f32, Sh::Box(0.2, 0.5)));
            }
            s.join(jk::REV, c, v[0], false);
            s.join(jk::REV, v[0], v[1], false);
            let d = s.solid(DY, 3.0, 3.0, Sh::Box(0.2, 0.5));
            s.join(jk::WELD, c, d, false);
        }
        5 => {
            s.solid(KI, 0.0, -1.0, ground);
            s.solid(DY, -2.0, 0.51, bx.clone());
            s.solid(DY, 2.0, 0.51, bx);
        }
        6 => {
            s.add(&bdef(DY, 0.0, 0.0, 0.0), &[(Sh::Circle(1.0, 0.0, 0.0), true)]);
            s.solid(DY, 0.5, 0.0, Sh::Box(0.2, 0.2));
            s.add(&bdef(ST, 0.0, 1.0, 0.0), &[(Sh::Circle(0.6, 0.0, 0.0), true)]);
            s.solid(DY, -0.5, 0.0, Sh::Box(0.2, 0.2));
        }
        7 => {
            s.add(&bdef(ST, 0.0, 0.0, 0.0), &[(Sh::Edge((-4.0, 2.0), (0.0, 0.0)), false), (Sh::Edge((0.0, 0.0), (4.0, 2.0)), false)]);
            let mut d = bdef(DY, -0.45, 0.8, 0.0);
            d.angular_damping = 5.0;
            s.add(&d, &[(Sh::Circle(0.4, 0.0, 0.0), false)]);
            d.position = v(0.45, 0.8);
            s.add(&d, &[(Sh::Circle(0.4, 0.0, 0.0), false)]);
        }
        8 => {
            s.solid(ST, -1.5, -0.5, Sh::Box(0.7, 0.5));
            s.solid(ST, 1.5, -0.5, Sh::Box(0.7, 0.5));
            s.solid(DY, 0.0, 0.21, Sh::Box(1.2, 0.2));
            s.solid(DY, 1.8, 0.51, Sh::Box(0.3, 0.5));
        }
        9 => {
            gnd(&mut s);
            let a = s.solid(DY, -2.0, 0.51, bx.clone());
            let b = s.solid(DY, 2.0, 0.51, bx.clone());
            s.join(jk::DIST, a, b, true);
            s.solid(DY, 2.0, 1.52, bx.clone());
            s.solid(DY, 7.0, 0.51, bx);
        }
        10 => {
            let a = gnd(&mut s);
            let b = s.solid(DY, 0.0, 3.0, bx.clone());
            s.join(jk::MOUSE, a, b, true);
            s.solid(DY, 4.0, 0.51, bx);
        }
        _ => {
            let a = gnd(&mut s);
            let b = s.solid(DY, 0.0, 0.51, bx.clone());
            s.join(jk::MOTOR, a, b, true);
            let c = s.solid(DY, 4.0, 0.51, bx);
            s.join(jk::FRIC, b, c, true);
        }
    }
    s
}

/// Operations per body, then per joint, then of the world.
const BODY_OPS: usize = 33;
const JOINT_OPS: usize = 1;
const WORLD_OPS: usize = 7;

fn op_name(o: usize) -> &'static str {
    [
        "force at a point, waking", "force at a point, not waking", "force to centre, waking", "force to centre, not waking",
        "torque, waking", "torque, not waking", "impulse at a point, waking", "impulse at a point, not waking",
        "impulse to centre, waking", "impulse to centre, not waking", "angular impulse, waking", "angular impulse, not waking",
        "set linear velocity", "set zero linear velocity", "set angular velocity", "set zero angular velocity",
        "set_awake(true)", "set_awake(false)", "sleeping disallowed", "sleeping allowed", "made static", "made kinematic", "made dynamic",
        "disabled", "enabled", "fixture destroyed", "body destroyed", "made a sensor", "made solid", "moved aside", "gravity scale 0", "hit by a ball", "ball laid beside",
    ][o]
}

fn ops(s: &Sim) -> usize {
    s.s.len() * BODY_OPS + s.j.len() * JOINT_OPS + WORLD_OPS
}

fn describe(nb: usize, nj: usize, o: usize) -> String {
    if o < nb * BODY_OPS {
        return format!("body {} {}", o / BODY_OPS, op_name(o % BODY_OPS));
    }
    let o = o - nb * BODY_OPS;
    if o < nj {
        return format!("joint {} destroyed", o);
    }
    ["sleeping off", "sleeping on", "gravity turned", "forces cleared", "warm starting off", "step of 0", "step of 1/30"][o - nj].to_string()
}

fn apply(s: &mut Sim, o: usize, cx: &mut Ctx) -> R {
    let nb = s.s.len();
    let nj = s.j.len();
    if o < nb * BODY_OPS {
        let (i, k) = (o / BODY_OPS, o % BODY_OPS);
        if !s.s[i].alive {
            return Ok(());
        }
        let b = s.s[i].b.clone();
        let t = s.ty(i);
        let at = b.borrow().get_world_point(v(0.1, 0.2));
        match k {
            0..=11 => {
                let wake = k % 2 == 0;
                {
                    let mut m = b.borrow_mut();
                    match k / 2 {
                        0 => m.apply_force(v(3.0, 20.0), at, wake),
                        1 => m.apply_force_to_center(v(-3.0, 2.0), wake),
                        2 => m.apply_torque(2.0, wake),
                        3 => m.apply_linear_impulse(v(0.0, 2.0), at, wake),
                        4 => m.apply_linear_impulse_to_center(v(1.0, 1.0), wake),
                        _ => m.apply_angular_impulse(0.3, wake),
                    }
                }
                if wake && t == DY && !s.s[i].awake {
                    s.wake(i);
                }
            }
            12..=15 => {
                {
                    let mut m = b.borrow_mut();
                    match k {
                        12 => m.set_linear_velocity([v(0.02, 0.0), v(0.0, -0.02)][i % 2]),
                        13 => m.set_linear_velocity(v(0.0, 0.0)),
                        14 => m.set_angular_velocity([-0.05, 0.05][i % 2]),
                        _ => m.set_angular_velocity(0.0),
                    }
                }
                if k % 2 == 0 {
                    s.wake(i);
                }
            }
            16 => {
                b.borrow_mut().set_awake(true);
                s.wake(i);
            }
            17 => {
                b.borrow_mut().set_awake(false);
                if s.ty(i) != ST {
                    s.rest(i);
                    let q = bstate(&b);
                    ensure!(q.v.len() == 0.0 && q.w == 0.0, "body put to sleep keeps velocity {:?} {}", q.v, q.w);
                }
            }
            18 | 19 => {
                b.borrow_mut().set_sleeping_allowed(k == 19);
                ensure!(b.borrow().is_sleeping_allowed() == (k == 19), "sleeping allowed does not read back");
                if k == 18 {
                    s.wake(i);
                }
            }
            20..=22 => {
                let to = [ST, KI, DY][k - 20];
                if t != to {
                    s.lose(i, None);
                    B2body::set_type(b.clone(), to);
                    s.wake(i);
                    if to == ST {
                        s.s[i].awake = false;
                    }
                }
            }
            23 => {
                s.lose(i, None);
                B2body::set_enabled(b, false);
            }
            24 => B2body::set_enabled(b, true),
            25 => {
                if let Some(f) = s.s[i].fx.pop() {
                    s.lose(i, f.borrow().get_user_data());
                    B2body::destroy_fixture(b, f);
                }
            }
            26 => {
                s.lose(i, None);
                for q in 0..s.j.len() {
                    if s.j[q].alive && (s.j[q].a == i || s.j[q].b == i) {
                        s.j[q].alive = false;
                        let (x, y) = (s.j[q].a, s.j[q].b);
                        s.wake(x);
                        s.wake(y);
                    }
                }
                s.w.borrow_mut().destroy_body(b);
                s.s[i].alive = false;
                s.s[i].awake = false;
            }
            27 | 28 => {
                if let Some(f) = s.s[i].fx.first().cloned() {
                    let was = f.borrow().is_sensor();
                    f.borrow_mut().set_sensor(k == 27);
                    if was != (k == 27) {
                        s.wake(i);
                    }
                }
            }
            29 => {
                let q = b.borrow().get_position();
                b.borrow_mut().set_transform(v(q.x + 0.3, q.y + 9.0), 0.0);
            }
            30 => b.borrow_mut().set_gravity_scale(0.0),
            31 => {
                let c = bstate(&b).c;
                let mut d = bdef(DY, c.x as f32 - 0.9, c.y as f32 + 1.2, 0.0);
                d.linear_velocity = v(3.0, -4.0);
                s.add(&d, &[(Sh::Circle(0.2, 0.0, 0.0), false)]);
            }
            _ => {
                // overlaps nothing, just falls nearby
                let c = bstate(&b).c;
                s.add(&bdef(DY, c.x as f32 + 0.8, c.y as f32 + 0.1, 0.0), &[(Sh::Circle(0.2, 0.0, 0.0), false)]);
            }
        }
    } else if o < nb * BODY_OPS + nj {
        let q = o - nb * BODY_OPS;
        if s.j[q].alive {
            s.w.borrow_mut().destroy_joint(s.j[q].j.clone());
            s.j[q].alive = false;
            let (x, y) = (s.j[q].a, s.j[q].b);
            s.wake(x);
            s.wake(y);
        }
    } else {
        match o - nb * BODY_OPS - nj {
            0 => {
                s.w.borrow_mut().set_allow_sleeping(false);
                if s.allow {
                    for i in 0..nb {
                        if s.s[i].alive {
                            s.wake(i);
                        }
                    }
                }
                s.allow = false;
            }
            1 => {
                s.w.borrow_mut().set_allow_sleeping(true);
                s.allow = true;
            }
            2 => s.w.borrow_mut().set_gravity(v(3.0, -5.0)),
            3 => s.w.borrow_mut().clear_forces(),
            4 => s.w.borrow_mut().set_warm_starting(false),
            5 => s.step(0.0, cx)?,
            _ => s.step(1.0 / 30.0, cx)?,
        }
    }
    s.flags("right after the operation")
}

/// A sequence of waits and operations; the automaton is compared at every step.
fn history(k: usize, order: bool, seq: &[(usize, usize)], tail: usize, cx: &mut Ctx) -> R {
    let mut s = scene(k, order);
    for (n, (wait, o)) in seq.iter().enumerate() {
        s.run(*wait, DT, cx).map_err(|e| format!("before operation {}: {}", n, e))?;
        apply(&mut s, *o, cx).map_err(|e| format!("operation {}: {}", n, e))?;
    }
    s.run(tail, DT, cx).map_err(|e| format!("after the operations: {}", e))
}

pub fn check() -> Check {
    let deep = thorough();
    let info: Vec<(usize, usize, usize)> = (0..SCENES.len()).map(|k| {
        let s = scene(k, true);
        (ops(&s), s.s.len(), s.j.len())
    }).collect();
    let mut ph = vec![];

    // every scene settles, sleeps and then stays as it is, for each step length
    let hs = [1.0 / 120.0, 1.0 / 60.0, 1.0 / 50.0, 1.0 / 30.0];
    ph.push(phase(
        "settle",
        (SCENES.len() * 2 * hs.len()) as u64,
        move |i| {
            let mut d = Dec::new(i);
            format!("{}, order {}, step {}", SCENES[d.d(SCENES.len())], d.d(2), hs[d.d(4)])
        },
        move |i, cx| {
            let mut d = Dec::new(i);
            let (k, o, h) = (d.d(SCENES.len()), d.b(), hs[d.d(4)]);
            let mut s = scene(k, o);
            s.run((6.0 / h) as usize, h, cx)?;
            cx.eval(1);
            ensure!(s.all_asleep(), "not asleep after six seconds");
            s.run(60, h, cx)
        },
    ));

    // one operation at every stage of falling asleep
    let waits: Vec<usize> = if deep { (0..46).map(|x| x * 2).chain([150, 300]).collect() } else { vec![0, 1, 7, 20, 29, 30, 31, 32, 33, 40, 60, 150] };
    let tot: usize = info.iter().map(|x| x.0).sum();
    let pick = {
        let info = info.clone();
        move |mut o: usize| {
            for (k, x) in info.iter().enumerate() {
                if o < x.0 {
                    return (k, o, x.1, x.2);
                }
                o -= x.0;
            }
            panic!("harness: operation index")
        }
    };
    {
        let (w1, w2, p1, p2) = (waits.clone(), waits.clone(), pick.clone(), pick.clone());
        ph.push(phase(
            "one operation",
            (tot * 2 * waits.len()) as u64,
            move |i| {
                let mut d = Dec::new(i);
                let (k, o, nb, nj) = p1(d.d(tot));
                format!("{}, order {}, {} after {} steps", SCENES[k], d.d(2), describe(nb, nj, o), w1[d.d(w1.len())])
            },
            move |i, cx| {
                let mut d = Dec::new(i);
                let (k, o, ..) = p2(d.d(tot));
                let ord = d.b();
                history(k, ord, &[(w2[d.d(w2.len())], o)], 90, cx)
            },
        ));
    }

    // pairs of operations on the sleeping scene, with every gap
    let gaps: Vec<usize> = if deep { vec![0, 1, 5, 25, 33, 60, 120] } else { vec![0, 2, 40] };
    let ks: Vec<usize> = if deep { (0..SCENES.len()).collect() } else { vec![0, 2, 3, 5, 6] };
    for k in ks {
        let (n, nb, nj) = info[k];
        let (g1, g2) = (gaps.clone(), gaps.clone());
        // the second operation acts on the bodies of the scene, not on balls added by the first
        ph.push(phase(
            &format!("two operations: {}", SCENES[k]),
            (n * n * gaps.len()) as u64,
            move |i| {
                let mut d = Dec::new(i);
                let (a, b) = (d.d(n), d.d(n));
                format!("asleep; {}; {} steps; {}", describe(nb, nj, a), g1[d.d(g1.len())], describe(nb, nj, b))
            },
            move |i, cx| {
                let mut d = Dec::new(i);
                let (a, b) = (d.d(n), d.d(n));
                let gap = g2[d.d(g2.len())];
                let mut s = scene(k, false);
                s.run(if k == 3 || k == 6 { 34 } else { 70 }, DT, cx)?;
                apply(&mut s, a, cx).map_err(|e| format!("first operation: {}", e))?;
                s.run(gap, DT, cx).map_err(|e| format!("between: {}", e))?;
                // map to the original numbering
                let b2 = if b < nb * BODY_OPS { b } else { b - nb * BODY_OPS + s.s.len() * BODY_OPS };
                apply(&mut s, b2, cx).map_err(|e| format!("second operation: {}", e))?;
                s.run(40, DT, cx).map_err(|e| format!("after: {}", e))
            },
        ));
    }

    // free bodies around the tolerances: who may sleep, and when exactly
    let vs = [0.0f32, 0.005, 0.00995, 0.01, 0.01005, 0.02, 1.0];
    let wsp = [0.0f32, 0.02, 0.0348, 0.0349, 0.03495, 0.06, 2.0];
    ph.push(phase(
        "tolerances",
        7 * 7 * 4 * 4 * 2 * 2 * 3,
        move |i| format!("case {}", i),
        move |i, cx| {
            let mut d = Dec::new(i);
            let (vi, wi, dir, h) = (vs[d.d(7)], wsp[d.d(7)], d.d(4), hs[d.d(4)]);
            let (kin, lazy, damp) = (d.b(), d.b(), [0.0f32, 0.5, 5.0][d.d(3)]);
            let mut s = Sim::new(0.0);
            let mut b = bdef(if kin { KI } else { DY }, 0.0, 0.0, 0.0);
            let u = [(1.0, 0.0), (0.0, 1.0), (0.6, 0.8), (-0.8, -0.6)][dir];
            b.linear_velocity = v(vi * u.0, vi * u.1);
            b.angular_velocity = if dir % 2 == 0 { wi } else { -wi };
            b.allow_sleep = lazy;
            b.linear_damping = damp;
            b.angular_damping = damp * 0.5;
            s.slow = 1e-3;
            s.add(&b, &[(Sh::Box(0.5, 0.5), false)]);
            s.run((1.5 / h) as usize, h, cx)?;
            if kin || damp == 0.0 {
                cx.eval(1);
                let quiet = vi < 0.009999 && wi < 0.0349;
                let loud = vi > 0.010001 || wi > 0.034908;
                ensure!(!quiet || s.all_asleep() == lazy, "quiet body asleep: {}", s.all_asleep());
                ensure!(!loud || !s.all_asleep(), "moving body asleep");
            }
            Ok(())
        },
    ));

    // a bullet or a plain fast body meets a sleeping one, with continuous physics on
    ph.push(phase(
        "fast arrivals",
        2 * 8 * 6 * 3 * 2 * 2,
        |i| format!("case {}", i),
        |i, cx| {
            let mut d = Dec::new(i);
            let (bullet, at, sp, ty, sensor, ground) = (d.b(), d.d(8), [2.0f32, 10.0, 40.0, 120.0, 333.0, 900.0][d.d(6)], d.d(3), d.b(), d.b());
            let mut s = Sim::new(0.0);
            s.w.borrow_mut().set_continuous_physics(true);
            let mut q = bdef(DY, 0.0, 0.0, 0.0);
            q.awake = false;
            s.add(&q, &[(Sh::Box(0.5, 0.5), sensor)]);
            q.position = v(0.0, 20.0);
            s.add(&q, &[(Sh::Box(0.5, 0.5), false)]);
            if ground {
                s.add(&bdef(ST, 10.6, 0.0, 0.0), &[(Sh::Box(10.0, 30.0), false)]);
            }
            let an = at as f32 * std::f32::consts::FRAC_PI_4;
            let dir = if ground { (-(an * 0.5 - 1.4).cos().abs(), (an * 0.5 - 1.4).sin()) } else { (an.cos(), an.sin()) };
            let mut f = bdef([DY, KI, DY][ty], -dir.0 * -1.0, 0.0, 0.0);
            f.position = v(dir.0 * 6.0, dir.1 * 6.0);
            f.linear_velocity = v(-dir.0 * sp, -dir.1 * sp);
            f.bullet = bullet;
            s.add(&f, &[(if ty == 2 { Sh::Box(0.2, 0.2) } else { Sh::Circle(0.3, 0.0, 0.0) }, false)]);
            let h = hash_at(&s, 1);
            let solid_hit = !sensor && (bullet && ty != 1 || sp <= 10.0 || ty == 1);
            for k in 0..(60 * 6 / sp as usize).max(12) {
                let h0 = hash_at(&s, 0);
                s.rec.borrow_mut().ev.clear();
                step(&s.w, DT);
                cx.step(1);
                let hit = s.rec.borrow().ev.iter().any(|e| matches!(e, Ev::Begin(c, _) if c.0 == 1));
                let aw = s.s[0].b.borrow().is_awake();
                if hit && !sensor {
                    ensure!(aw, "step {}: body hit by an arriving one stays asleep", k);
                }
                if !aw {
                    ensure!(hash_at(&s, 0) == h0, "step {}: sleeping body changed", k);
                }
                if sensor {
                    ensure!(!aw, "step {}: sensor woken by an arriving body", k);
                }
            }
            ensure!(hash_at(&s, 1) == h, "a bystander was woken or moved");
            cx.eval(1);
            // the kinematic pusher and the slow or bullet ball cannot miss
            ensure!(!solid_hit || s.s[0].b.borrow().is_awake(), "body crossed by an arriving one still sleeps");
            cx.state(hash_world(&s.w));
            Ok(())
        },
    ));

    // settings of joints between resting bodies
    ph.push(phase("joint settings", crate::c19::wake_cases(), |i| crate::c19::wakes(i, true).0, |i, cx| crate::c19::wakes(i, false).1(cx)));

    Check {
        id: "C21",
        bounds: format!("12 scenes of up to 5 bodies, every operation at {} stages of falling asleep, every pair of operations with {} gaps, free bodies at 49 speeds around the tolerances, fast arrivals, every pair of joint settings", waits.len(), gaps.len()),
        assumptions: vec!["continuous physics off where the automaton is compared exactly; fast arrivals are judged by their events".into(), "a quiet group may be held awake by unsettled position errors for up to one more second".into()],
        phases: ph,
    }
}

fn hash_at(s: &Sim, i: usize) -> u64 {
    s.hash(i)
}
