//! C25: physics does not depend on where the origin is, nor on the placement of a scene.
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::jk::*;
use crate::kit::*;
use crate::wsim::fat_boxes;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_world::*;
use box2d_rs::joints::b2_distance_joint::*;
use box2d_rs::joints::b2_friction_joint::*;
use box2d_rs::joints::b2_gear_joint::*;
use box2d_rs::joints::b2_motor_joint::*;
use box2d_rs::joints::b2_mouse_joint::*;
use box2d_rs::joints::b2_prismatic_joint::*;
use box2d_rs::joints::b2_pulley_joint::*;
use box2d_rs::joints::b2_revolute_joint::*;
use box2d_rs::joints::b2_weld_joint::*;
use box2d_rs::joints::b2_wheel_joint::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// Placement of a scene: mirrored in x first, then turned, then moved.
#[derive(Clone, Copy, Debug)]
pub struct G {
    m: bool,
    th: f64,
    d: P,
}
const ID: G = G { m: false, th: 0.0, d: P { x: 0.0, y: 0.0 } };
impl G {
    fn loc(&self, q: P) -> P {
        if self.m {
            p(-q.x, q.y)
        } else {
            q
        }
    }
    fn dir(&self, q: P) -> P {
        X::new(p(0.0, 0.0), self.th).rot(self.loc(q))
    }
    fn at(&self, q: P) -> P {
        self.dir(q) + self.d
    }
    fn spin(&self, a: f64) -> f64 {
        if self.m {
            -a
        } else {
            a
        }
    }
    fn ang(&self, a: f64) -> f64 {
        self.th + self.spin(a)
    }
    fn shape(&self, s: &Sh) -> Sh {
        if !self.m {
            return s.clone();
        }
        let f = |q: &(f32, f32)| (-q.0, q.1);
        match s {
            Sh::Circle(r, x, y) => Sh::Circle(*r, -x, *y),
            Sh::Box(a, b) => Sh::Box(*a, *b),
            Sh::BoxAt(a, b, x, y, t) => Sh::BoxAt(*a, *b, -x, *y, -t),
            Sh::Poly(q) => Sh::Poly(q.iter().map(f).collect()),
            Sh::Edge(a, b) => Sh::Edge(f(b), f(a)),
            Sh::EdgeOne(q) => Sh::EdgeOne([f(&q[3]), f(&q[2]), f(&q[1]), f(&q[0])]),
            Sh::Chain(q, a, b) => Sh::Chain(q.iter().rev().map(f).collect(), f(b), f(a)),
            Sh::Loop(q) => Sh::Loop(q.iter().rev().map(f).collect()),
        }
    }
    /// Child index of the corresponding segment.
    fn child(&self, s: &Sh, k: i32) -> i32 {
        if !self.m {
            return k;
        }
        match s {
            Sh::Chain(..) => s.children() as i32 - 1 - k,
            Sh::Loop(q) => {
                let n = q.len() as i32;
                (2 * n - 2 - k) % n
            }
            _ => k,
        }
    }
}
fn v2(q: P) -> B2vec2 {
    v(q.x as f32, q.y as f32)
}

#[derive(Clone, Debug)]
struct Bd {
    t: u8, // 0 static, 1 kinematic, 2 dynamic
    at: (f64, f64, f64),
    vel: (f64, f64, f64),
    sh: Vec<Sh>,
    bullet: bool,
    fric: f32,
    rest: f32,
    sensor: bool,
}
fn bd(t: u8, at: (f64, f64, f64), sh: Sh) -> Bd {
    Bd { t, at, vel: (0.0, 0.0, 0.0), sh: vec![sh], bullet: false, fric: 0.3, rest: 0.0, sensor: false }
}
#[derive(Clone, Debug)]
struct Jd {
    kind: usize,
    a: usize,
    b: usize,
    limit: bool,
    motor: bool,
    soft: bool,
}
#[derive(Clone, Debug)]
struct Scene {
    name: &'static str,
    grav: P,
    bodies: Vec<Bd>,
    joints: Vec<Jd>,
    flat: bool, // rests on two points
    turn: bool, // arbitrary turns keep the order of contacts
    jit: f64,   // disturbance of bodies added later
}

fn scenes(vx: f64, w: f64, fric: f32) -> Vec<Scene> {
    let g = p(0.0, -10.0);
    let ground = || Bd { fric, ..bd(0, (0.0, -0.5, 0.0), Sh::Box(12.0, 0.5)) };
    let chain = || Bd { fric, ..bd(0, (0.25, 0.0, 0.0), Sh::Chain(vec![(8.0, 0.5), (3.0, 0.0), (0.0, 0.0), (-2.0, 0.0), (-8.0, 0.5)], (12.0, 1.0), (-12.0, 1.0))) };
    let mv = |b: Bd| Bd { vel: (vx, 0.0, w), fric, ..b };
    let mut o = vec![
        Scene { name: "ball on floor", grav: g, bodies: vec![ground(), mv(bd(2, (0.3, 0.6, 0.2), Sh::Circle(0.5, 0.0, 0.0)))], joints: vec![], flat: false, turn: true, jit: 0.0 },
        Scene { name: "tilted box on edge", grav: g, bodies: vec![Bd { fric, ..bd(0, (0.0, 0.0, 0.0), Sh::Edge((-9.0, 0.1), (9.0, -0.3))) }, mv(bd(2, (0.2, 0.85, 0.4), Sh::Box(0.5, 0.4)))], joints: vec![], flat: true, turn: true, jit: 0.0 },
        Scene { name: "box on chain", grav: g, bodies: vec![chain(), mv(bd(2, (0.3, 0.413, 0.0), Sh::Poly(vec![(-0.6, -0.4), (0.5, -0.4), (0.4, 0.5), (-0.3, 0.6)])))], joints: vec![], flat: true, turn: false, jit: 0.0 },
        Scene { name: "two boxes stacked", grav: g, bodies: vec![ground(), Bd { fric, ..bd(2, (0.0, 0.503, 0.0), Sh::Box(0.6, 0.49)) }, Bd { fric, ..bd(2, (0.11, 1.487, 0.0), Sh::Box(0.4, 0.48)) }], joints: vec![], flat: true, turn: false, jit: 0.0 },
        Scene { name: "bullet at a wall", grav: p(0.0, 0.0), bodies: vec![bd(0, (6.0, 0.0, 0.1), Sh::Box(0.05, 3.0)), Bd { vel: (90.0 + vx, 3.0, w), bullet: true, fric, rest: 0.5, ..bd(2, (0.0, 0.3, 0.0), Sh::Circle(0.25, 0.0, 0.0)) }], joints: vec![], flat: false, turn: true, jit: 0.0 },
        Scene { name: "kinematic pusher", grav: g, bodies: vec![ground(), Bd { vel: (2.87, 0.0, 0.0), ..bd(1, (-1.495, 0.55, 0.0), Sh::Box(0.3, 0.5)) }, mv(bd(2, (-0.7, 0.5, 0.0), Sh::Circle(0.5, 0.0, 0.0)))], joints: vec![], flat: true, turn: false, jit: 0.0 },
        Scene { name: "balls colliding", grav: p(0.0, 0.0), bodies: vec![Bd { vel: (5.73, 0.5, w), rest: 0.8, fric, ..bd(2, (-1.5, 0.1, 0.0), Sh::Circle(0.4, 0.1, 0.0)) }, mv(bd(2, (0.3, 0.0, 0.3), Sh::Circle(0.5, 0.0, 0.0)))], joints: vec![], flat: false, turn: true, jit: 0.0 },
        Scene { name: "through a sensor", grav: p(0.0, 0.0), bodies: vec![Bd { sensor: true, ..bd(0, (1.2, 0.0, 0.3), Sh::Box(0.3, 0.5)) }, Bd { vel: (5.21 + vx, 0.2, w), ..bd(2, (0.0, 0.1, 0.0), Sh::Box(0.25, 0.35)) }], joints: vec![], flat: false, turn: true, jit: 0.0 },
        Scene { name: "settling", grav: g, bodies: vec![ground(), bd(2, (0.3, 0.495, 0.0), Sh::Box(0.5, 0.49)), bd(2, (3.0, 0.39, 0.0), Sh::Circle(0.39, 0.0, 0.0))], joints: vec![], flat: true, turn: false, jit: 0.0 },
        Scene {
            name: "compound",
            grav: g,
            bodies: vec![ground(), Bd { sh: vec![Sh::Circle(0.4, 0.5, 0.1), Sh::Poly(vec![(-0.7, -0.3), (0.2, -0.3), (0.0, 0.5)])], ..mv(bd(2, (0.0, 0.7, 0.3), Sh::Circle(0.1, 0.0, 0.0))) }],
            joints: vec![],
            flat: true,
            turn: false, jit: 0.0,
        },
    ];
    for k in 0..9 {
        for mode in 0..3 {
            if mode > 0 && !matches!(k, DIST | PRIS | REV | WHEEL | WELD) {
                continue;
            }
            if k == WELD && mode == 2 {
                continue;
            }
            let t = if k == MOUSE || k == REV && mode == 0 { 0 } else { 2 };
            o.push(Scene {
                name: KNAMES[k],
                grav: g,
                bodies: vec![Bd { vel: (0.2, 0.1, -0.2), ..bd(t, (-1.0, 3.0, 0.2), Sh::Box(0.5, 0.3)) }, mv(bd(2, (1.1, 3.3, -0.4), Sh::Poly(vec![(-0.4, -0.3), (0.6, -0.2), (0.1, 0.5)]))), bd(0, (0.0, -8.0, 0.0), Sh::Box(5.0, 1.0))],
                joints: vec![Jd { kind: k, a: 0, b: 1, limit: mode == 1, motor: mode == 2, soft: mode == 2 || (k == WELD && mode == 1) }],
                flat: false,
                turn: true, jit: 0.0,
            });
        }
    }
    for pris in [false, true] {
        o.push(Scene {
            name: if pris { "gear with a slider" } else { "gear" },
            grav: g,
            bodies: vec![bd(0, (0.0, 3.0, 0.0), Sh::Box(0.2, 0.2)), Bd { vel: (0.0, 0.0, w), ..bd(2, (-1.0, 3.2, 0.1), Sh::Circle(0.5, 0.3, 0.0)) }, bd(2, (1.5, 2.8, 0.0), Sh::Box(0.4, 0.3))],
            joints: vec![
                Jd { kind: REV, a: 0, b: 1, limit: false, motor: false, soft: false },
                Jd { kind: if pris { PRIS } else { REV }, a: 0, b: 2, limit: false, motor: false, soft: false },
                Jd { kind: GEAR, a: 1, b: 2, limit: false, motor: false, soft: false },
            ],
            flat: false,
            turn: true, jit: 0.0,
        });
    }
    o
}
fn nscenes() -> usize {
    scenes(0.0, 0.0, 0.3).len()
}

struct Inst {
    w: W,
    g: G,
    b: Vec<B>,
    j: Vec<J>,
    rec: Rc<RefCell<Rec>>,
    sh: BTreeMap<u32, Sh>,
    extra: u32,
    jit: f64,
}

impl Inst {
    fn new(s: &Scene, g: G) -> Inst {
        let gv = g.dir(s.grav);
        let w = world(gv.x as f32, gv.y as f32);
        let rec = listen(&w);
        let mut o = Inst { w, g, b: vec![], j: vec![], rec, sh: BTreeMap::new(), extra: 0, jit: s.jit };
        for d in &s.bodies {
            o.add(d);
        }
        for d in &s.joints {
            o.join(s, d);
        }
        o
    }
    fn add(&mut self, d: &Bd) {
        let g = self.g;
        let q = g.at(p(d.at.0, d.at.1));
        let mut bf = bdef([ST, KI, DY][d.t as usize], q.x as f32, q.y as f32, g.ang(d.at.2) as f32);
        if d.t > 0 {
            bf.linear_velocity = v2(g.dir(p(d.vel.0, d.vel.1)));
            bf.angular_velocity = g.spin(d.vel.2) as f32;
        }
        bf.bullet = d.bullet;
        let b = B2world::create_body(self.w.clone(), &bf);
        for s in &d.sh {
            let ud = self.sh.len() as u32 + 1;
            self.sh.insert(ud, s.clone());
            let mut f = fdef(&g.shape(s));
            f.user_data = Some(ud);
            f.friction = d.fric;
            f.restitution = d.rest;
            f.is_sensor = d.sensor;
            box2d_rs::b2_body::B2body::create_fixture(b.clone(), &f);
        }
        self.b.push(b);
    }
    fn join(&mut self, s: &Scene, d: &Jd) {
        let g = self.g;
        let (a, b) = (self.b[d.a].clone(), self.b[d.b].clone());
        let (ba, bb) = (&s.bodies[d.a], &s.bodies[d.b]);
        let (xa, xb) = (X::new(p(ba.at.0, ba.at.1), ba.at.2), X::new(p(bb.at.0, bb.at.1), bb.at.2));
        let anchor = if s.joints.len() > 1 { xb.at(p(0.1, 0.0)) } else { p(0.1, 3.3) };
        let (la, lb) = (v2(g.loc(xa.inv(anchor))), v2(g.loc(xb.inv(anchor))));
        let ax = v2(g.loc(xa.irot(p(0.8, 0.6))));
        let rf = g.spin(bb.at.2 - ba.at.2) as f32;
        let lims = |lo: f64, hi: f64| if g.m { (-hi as f32, -lo as f32) } else { (lo as f32, hi as f32) };
        let def = match d.kind {
            DIST => {
                let mut q = B2distanceJointDef::<U>::default();
                base(&mut q.base, &a, &b, false, 1);
                q.local_anchor_a = v2(g.loc(p(0.2, 0.1)));
                q.local_anchor_b = v2(g.loc(p(-0.1, 0.2)));
                q.length = 1.9;
                q.min_length = if d.limit || d.soft { 1.4 } else { 1.9 };
                q.max_length = if d.limit { 2.0 } else if d.soft { 4.0 } else { 1.9 };
                if d.soft {
                    q.stiffness = 12.0;
                    q.damping = 0.5;
                }
                B2JointDefEnum::DistanceJoint(q)
            }
            FRIC => {
                let mut q = B2frictionJointDef::<U>::default();
                base(&mut q.base, &a, &b, false, 1);
                q.local_anchor_a = la;
                q.local_anchor_b = lb;
                q.max_force = 1.5;
                q.max_torque = 0.3;
                B2JointDefEnum::FrictionJoint(q)
            }
            MOTOR => {
                let mut q = B2motorJointDef::<U>::default();
                base(&mut q.base, &a, &b, false, 1);
                q.linear_offset = v2(g.loc(p(1.5, 0.5)));
                q.angular_offset = g.spin(-0.4) as f32;
                q.max_force = 20.0;
                q.max_torque = 5.0;
                B2JointDefEnum::MotorJoint(q)
            }
            MOUSE => {
                let mut q = B2mouseJointDef::<U>::default();
                base(&mut q.base, &a, &b, false, 1);
                q.target = v2(g.at(p(1.2, 3.5)));
                q.max_force = 100.0;
                q.stiffness = 30.0;
                q.damping = 2.0;
                B2JointDefEnum::MouseJoint(q)
            }
            PRIS => {
                let mut q = B2prismaticJointDef::<U>::default();
                base(&mut q.base, &a, &b, false, 1);
                q.local_anchor_a = la;
                q.local_anchor_b = lb;
                q.local_axis_a = ax;
                q.reference_angle = rf;
                q.enable_limit = d.limit;
                q.lower_translation = -0.1;
                q.upper_translation = 0.25;
                q.enable_motor = d.motor;
                q.motor_speed = 1.5;
                q.max_motor_force = 30.0;
                B2JointDefEnum::PrismaticJoint(q)
            }
            PULL => {
                let mut q = B2pulleyJointDef::<U>::default();
                let (pa, pb) = (xa.at(p(0.1, 0.1)), xb.at(p(0.0, 0.2)));
                let (ga, gb) = (p(-1.3, 6.0), p(1.4, 6.5));
                q.ground_anchor_a = v2(g.at(ga));
                q.ground_anchor_b = v2(g.at(gb));
                q.local_anchor_a = v2(g.loc(p(0.1, 0.1)));
                q.local_anchor_b = v2(g.loc(p(0.0, 0.2)));
                q.length_a = (pa - ga).len() as f32;
                q.length_b = (pb - gb).len() as f32;
                q.ratio = 1.5;
                base(&mut q.base, &a, &b, true, 1);
                B2JointDefEnum::PulleyJoint(q)
            }
            REV => {
                let mut q = B2revoluteJointDef::<U>::default();
                base(&mut q.base, &a, &b, false, 1);
                q.local_anchor_a = la;
                q.local_anchor_b = lb;
                q.reference_angle = rf;
                q.enable_limit = d.limit;
                let (lo, hi) = lims(-0.1, 0.2);
                q.lower_angle = lo;
                q.upper_angle = hi;
                q.enable_motor = d.motor;
                q.motor_speed = g.spin(2.0) as f32;
                q.max_motor_torque = 5.0;
                B2JointDefEnum::RevoluteJoint(q)
            }
            WELD => {
                let mut q = B2weldJointDef::<U>::default();
                base(&mut q.base, &a, &b, false, 1);
                q.local_anchor_a = la;
                q.local_anchor_b = lb;
                q.reference_angle = rf;
                if d.soft {
                    q.stiffness = 10.0;
                    q.damping = 0.5;
                }
                B2JointDefEnum::WeldJoint(q)
            }
            WHEEL => {
                let mut q = B2wheelJointDef::<U>::default();
                base(&mut q.base, &a, &b, false, 1);
                q.local_anchor_a = la;
                q.local_anchor_b = lb;
                q.local_axis_a = ax;
                q.stiffness = 15.0;
                q.damping = 1.0;
                q.enable_limit = d.limit;
                q.lower_translation = -0.1;
                q.upper_translation = 0.2;
                q.enable_motor = d.motor;
                q.motor_speed = g.spin(3.0) as f32;
                q.max_motor_torque = 2.0;
                B2JointDefEnum::WheelJoint(q)
            }
            _ => {
                let mut q = B2gearJointDef::<U>::default();
                base(&mut q.base, &a, &b, true, 1);
                q.joint1 = Some(self.j[0].clone());
                q.joint2 = Some(self.j[1].clone());
                let mixed = s.joints[1].kind == PRIS;
                q.ratio = if mixed { g.spin(1.5) as f32 } else { 1.5 };
                B2JointDefEnum::GearJoint(q)
            }
        };
        let j = self.w.borrow_mut().create_joint(&def);
        self.j.push(j);
    }
    fn shift(&mut self, s: P) {
        self.w.borrow().shift_origin(v2(s));
        self.g.d = self.g.d - s;
    }
    fn step(&mut self) {
        self.rec.borrow_mut().ev.clear();
        step(&self.w, DT);
    }
    /// Operations other than steps and shifts.
    fn act(&mut self, o: usize) {
        let g = self.g;
        let b = self.b[1].clone();
        match o {
            0 => {
                // push off centre
                let c = bstate(&b).c;
                let m = b.borrow().get_mass() as f64;
                let q = c + g.dir(p(0.2, 0.3));
                b.borrow_mut().apply_force(v2(g.dir(p(15.0, 32.0) * m)), v2(q), true);
            }
            1 => {
                let c = bstate(&b).c;
                let m = b.borrow().get_mass() as f64;
                b.borrow_mut().apply_linear_impulse(v2(g.dir(p(1.0, 1.5) * m)), v2(c + g.dir(p(-0.1, 0.2))), true);
                b.borrow_mut().apply_angular_impulse(g.spin(0.1 * m) as f32, true);
            }
            2 => b.borrow_mut().set_transform(v2(g.at(p(0.7, 3.4))), g.ang(0.3) as f32),
            3 => {
                self.extra += 1;
                let k = self.extra as f64;
                self.add(&Bd { vel: (0.0, -4.0, 0.5), ..bd(2, (-2.0 - 0.2 * k + self.jit, 1.0 + 1.5 * k - self.jit, 0.3), Sh::Box(0.3, 0.2)) });
            }
            4 => {
                for j in &self.j {
                    if let JointAsDerivedMut::EMouseJoint(m) = j.borrow_mut().as_derived_mut() {
                        m.set_target(v2(g.at(p(0.2, 4.0))));
                    }
                }
            }
            5 => {
                b.borrow_mut().set_awake(false);
            }
            9 => {
                let on = b.borrow().is_enabled();
                box2d_rs::b2_body::B2body::set_enabled(b, !on);
            }
            _ => {
                let a = self.b[0].clone();
                let q = p(bstate(&a).pos.x, bstate(&a).pos.y) + g.dir(p(0.13, -0.06));
                let an = a.borrow().get_angle();
                a.borrow_mut().set_transform(v2(q), an);
            }
        }
    }
    /// Contacts keyed by fixture and corresponding child.
    fn contacts(&self) -> BTreeMap<Cid, (bool, f64, Option<(P, Vec<P>)>)> {
        let mut o = BTreeMap::new();
        for c in self.w.borrow().get_contact_list().iter() {
            let c = c.borrow();
            let b = c.get_base();
            let mut wm = box2d_rs::b2_collision::B2worldManifold::default();
            b.get_world_manifold(&mut wm);
            let n = b.get_manifold().point_count;
            let (fa, fb) = (b.get_fixture_a().borrow().get_user_data().unwrap(), b.get_fixture_b().borrow().get_user_data().unwrap());
            let mut ps: Vec<P> = (0..n).map(|k| pv(wm.points[k])).collect();
            let nn = if fa < fb { pv(wm.normal) } else { -pv(wm.normal) };
            ps.truncate(2);
            let geo = if b.is_touching() && n > 0 { Some((nn, ps)) } else { None };
            let deep = (0..n).map(|k| -wm.separations[k] as f64).fold(0.0, f64::max);
            o.insert(self.map_id(cid(b)), (b.is_touching(), deep, geo));
        }
        o
    }
    fn map_id(&self, c: Cid) -> Cid {
        (c.0, self.g.child(&self.sh[&c.0], c.1), c.2, self.g.child(&self.sh[&c.2], c.3))
    }
    fn events(&self) -> BTreeSet<(u8, Cid)> {
        self.rec
            .borrow()
            .ev
            .iter()
            .filter_map(|e| match e {
                Ev::Begin(c, _) => Some((0, self.map_id(*c))),
                Ev::End(c, _) => Some((1, self.map_id(*c))),
                _ => None,
            })
            .collect()
    }
}

#[derive(Clone, Copy)]
struct Tol {
    x: f64,
    v: f64,
    flat: bool,
}

/// `i` is `o` seen in another frame.
fn cmp(o: &Inst, i: &Inst, t: Tol, cx: &mut Ctx) -> Result<bool, String> {
    // relation between the two placements
    let back = |q: P| X::new(i.g.d, i.g.th).inv(q); // to the scene frame, still mirrored
    let bdir = |q: P| X::new(p(0.0, 0.0), i.g.th).irot(q);
    let loc = |q: P| i.g.loc(q);
    ensure!(o.b.len() == i.b.len(), "harness: bodies");
    let (ca, cb) = (o.contacts(), i.contacts());
    let ids: BTreeSet<&Cid> = ca.keys().chain(cb.keys()).collect();
    let none = (false, 0.0, None);
    for id in &ids {
        let (x, y) = (ca.get(id).unwrap_or(&none), cb.get(id).unwrap_or(&none));
        // contact within rounding of just beginning or ending: either may be seen
        if x.0 != y.0 && x.1.max(y.1) <= 10.0 * t.x && (x.2.is_some() || y.2.is_some()) {
            return Ok(false);
        }
    }
    for k in 0..o.b.len() {
        let (a, b) = (bstate(&o.b[k]), bstate(&i.b[k]));
        let q = loc(back(b.pos));
        let c = loc(back(b.c));
        let vel = loc(bdir(b.v));
        ensure!((q - a.pos).len() <= t.x, "body {} is at {:?}, expected {:?}", k, q, a.pos);
        ensure!((c - a.c).len() <= t.x, "centre of body {} is at {:?}, expected {:?}", k, c, a.c);
        let an = i.g.spin(b.ang - i.g.th);
        ensure!((an - a.ang).abs() <= t.x, "angle of body {} is {}, expected {}", k, an, a.ang);
        ensure!((vel - a.v).len() <= t.v, "velocity of body {} is {:?}, expected {:?}", k, vel, a.v);
        ensure!((i.g.spin(b.w) - a.w).abs() <= t.v * 2.0, "spin of body {} is {}, expected {}", k, i.g.spin(b.w), a.w);
        ensure!(a.awake == b.awake, "body {} awake {}, expected {}", k, b.awake, a.awake);
        cx.eval(6);
    }
    for k in 0..o.j.len() {
        let (a, b) = (o.j[k].borrow(), i.j[k].borrow());
        for (q, r) in [(a.get_anchor_a(), b.get_anchor_a()), (a.get_anchor_b(), b.get_anchor_b())] {
            let r = loc(back(pv(r)));
            ensure!((pv(q) - r).len() <= t.x * 2.0, "anchor of joint {} is at {:?}, expected {:?}", k, r, q);
        }
        let pairs = match (a.as_derived(), b.as_derived()) {
            (JointAsDerived::EMouseJoint(a), JointAsDerived::EMouseJoint(b)) => vec![(a.get_target(), b.get_target())],
            (JointAsDerived::EPulleyJoint(a), JointAsDerived::EPulleyJoint(b)) => vec![(a.get_ground_anchor_a(), b.get_ground_anchor_a()), (a.get_ground_anchor_b(), b.get_ground_anchor_b())],
            _ => vec![],
        };
        for (q, r) in pairs {
            let r = loc(back(pv(r)));
            ensure!((pv(q) - r).len() <= t.x * 2.0, "{}fixed point of joint {} is at {:?}, expected {:?}", HARD, k, r, q);
        }
        cx.eval(2);
    }
    for id in ids {
        let (x, y) = (ca.get(id).unwrap_or(&none), cb.get(id).unwrap_or(&none));
        ensure!(x.0 == y.0, "{:?} touching {}, expected {}", id, y.0, x.0);
        if let (Some((n, ps)), Some((m, qs))) = (&x.2, &y.2) {
            if ps.len() != qs.len() {
                ensure!(x.1.min(y.1) <= 0.02 && t.flat, "{:?} has {} points, expected {}", id, qs.len(), ps.len());
                return Ok(false);
            }
            let m = loc(bdir(*m));
            ensure!((*n - m).len() <= 20.0 * t.x, "normal of {:?} is {:?}, expected {:?}", id, m, n);
            for q in ps {
                ensure!(qs.iter().any(|r| (loc(back(*r)) - *q).len() <= 20.0 * t.x), "contact points of {:?} differ", id);
            }
            cx.eval(3);
        }
    }
    let (ea, eb) = (o.events(), i.events());
    ensure!(ea == eb, "events {:?}, expected {:?}", eb, ea);
    cx.eval(2);
    Ok(true)
}

/// What the spatial index answers, in the scene frame.
struct Look {
    boxes: BTreeMap<u32, Vec<[f64; 4]>>,
    queries: Vec<BTreeSet<u32>>,
    rays: Vec<BTreeMap<u32, f64>>,
    side: [Vec<BTreeMap<u32, f64>>; 2], // the same rays a little to either side
}
fn look(z: &Inst) -> Look {
    let d = z.g.d;
    let mut boxes: BTreeMap<u32, Vec<[f64; 4]>> = BTreeMap::new();
    for (f, b) in fat_boxes(&z.w) {
        let e = [b[0] as f64 - d.x, b[1] as f64 - d.y, b[2] as f64 - d.x, b[3] as f64 - d.y];
        boxes.entry(f.borrow().get_user_data().unwrap()).or_default().push(e);
    }
    for l in boxes.values_mut() {
        l.sort_by(|a, b| (a[0] + 0.01 * a[1]).partial_cmp(&(b[0] + 0.01 * b[1])).unwrap());
    }
    let mut queries = vec![];
    for gx in -3..4 {
        for gy in -2..4 {
            let q = p(gx as f64 * 1.3717 + 0.0131, gy as f64 * 1.2173 + 0.0179) + d;
            let mut s = BTreeSet::new();
            z.w.borrow().query_aabb(
                |f: F| {
                    s.insert(f.borrow().get_user_data().unwrap());
                    true
                },
                aabb((q.x - 0.2) as f32, (q.y - 0.2) as f32, (q.x + 0.2) as f32, (q.y + 0.2) as f32),
            );
            queries.push(s);
        }
    }
    Look { boxes, queries, rays: rays(z, 0.0), side: [rays(z, 3e-4), rays(z, -3e-4)] }
}
fn rays(z: &Inst, off: f64) -> Vec<BTreeMap<u32, f64>> {
    (0..12)
        .map(|k| {
            let t = k as f64 * 0.5236 + 0.11;
            let (a, b) = (p(0.2 + 14.0 * t.cos(), 1.3 + 14.0 * t.sin()), p(0.35 - 9.0 * t.cos(), 0.4 + 0.2 * (k % 3) as f64 - 9.0 * t.sin()));
            let o = (b - a).unit();
            let o = p(-o.y, o.x) * off;
            let (a, b) = (a + o, b + o);
            let mut s: BTreeMap<u32, f64> = BTreeMap::new();
            z.w.borrow().ray_cast(
                |f: F, _q: B2vec2, _n: B2vec2, fr: f32| {
                    let e = s.entry(f.borrow().get_user_data().unwrap()).or_insert(2.0);
                    *e = e.min(fr as f64);
                    1.0
                },
                v2(z.g.at(a)),
                v2(z.g.at(b)),
            );
            s
        })
        .collect()
}
fn boxes_close(a: &Look, b: &Look, tol: f64, cx: &mut Ctx) -> R {
    ensure!(a.boxes.keys().eq(b.boxes.keys()), "stored fixtures differ");
    for (k, l) in &a.boxes {
        let m = &b.boxes[k];
        ensure!(l.len() == m.len(), "stored children differ");
        for (x, y) in l.iter().zip(m) {
            ensure!((0..4).all(|n| (x[n] - y[n]).abs() <= tol), "stored box of fixture {} is {:?}, expected {:?}", k, y, x);
        }
        cx.eval(1);
    }
    Ok(())
}
/// Nothing but the origin moved.
fn same_look(a: &Look, b: &Look, tol: f64, cx: &mut Ctx) -> R {
    boxes_close(a, b, tol, cx)?;
    for k in 0..a.queries.len() {
        ensure!(a.queries[k] == b.queries[k], "query {} gives {:?}, expected {:?}", k, b.queries[k], a.queries[k]);
        cx.eval(1);
    }
    for k in 0..a.rays.len() {
        let (x, y) = (&a.rays[k], &b.rays[k]);
        // grazing rays are settled by rounding
        if !a.side.iter().all(|q| q[k].keys().eq(x.keys()) && x.iter().zip(&q[k]).all(|(a, b)| (a.1 - b.1).abs() <= 5e-4)) {
            continue;
        }
        ensure!(x.keys().eq(y.keys()) && x.iter().zip(y).all(|(a, b)| (a.1 - b.1).abs() <= 1e-4 + tol), "ray {} hits {:?}, expected {:?}", k, y, x);
        cx.eval(1);
    }
    Ok(())
}

const SH: [(f64, f64); 4] = [(8.0, -4.0), (-3.25, 50.5), (-64.0, 32.0), (0.1, 0.3)];
const NOPS: usize = 12;
const ON: [&str; NOPS] = ["step", "five steps", "push", "impulse", "place", "new body", "retarget", "sleep", "nudge first", "shift A", "shift B", "enable or disable"];

fn tol_for(s: f64, steps: usize) -> Tol {
    let u = (s.abs() + 16.0) * 1.2e-7;
    let x = 8.0 * u * (1.0 + steps as f64) + 2e-5;
    Tol { x, v: x * 60.0, flat: false }
}

fn shifts(i: u64, len: usize, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let sc = d.d(nscenes());
    let which = d.d(SH.len());
    let pre = d.p(&[0usize, 12]);
    let seq: Vec<usize> = (0..len).map(|_| d.d(NOPS)).collect();
    let name = scenes(1.13, 0.7, 0.3)[sc].name;
    let msg = if say { format!("{} after {} steps, shift A {:?}: {}", name, pre, SH[which], seq.iter().map(|o| ON[*o]).collect::<Vec<_>>().join(", ")) } else { String::new() };
    (msg, move |cx| {
        if !seq.iter().any(|o| *o == 9 || *o == 10) {
            return Ok(());
        }
        let s = &scenes(1.13, 0.7, 0.3)[sc];
        let far = SH[which].0.hypot(SH[which].1);
        settle(s, far, |twin, m, cx| shift_run(s, twin.unwrap_or(s), which, pre, &seq, twin.is_none(), m, cx), cx)
    })
}
/// Marks what does not depend on how the scene develops, so that no sensitivity explains it.
const HARD: &str = "at once: ";
/// A mismatch counts unless disturbing the scene by rounding, with nothing moved, leads to one of
/// similar size. `run(None, m)` is the comparison itself with tolerances `m` times as wide, `run(Some(twin), m)`
/// compares with the disturbed scene.
fn settle(s: &Scene, far: f64, run: impl Fn(Option<&Scene>, f64, &mut Ctx) -> R, cx: &mut Ctx) -> R {
    let r = run(None, 1.0, cx);
    match &r {
        Ok(()) => return r,
        Err(e) if e.starts_with(HARD) => return r,
        _ => {}
    }
    let mut m = 1.0;
    while m < 4096.0 && run(None, 4.0 * m, cx).is_err() {
        m *= 4.0;
    }
    for k in 0..64 {
        let size = tol_for(far, 0).x * 0.25 * 0.5f64.powi(k as i32 / 8);
        let mut twin = s.clone();
        twin.jit = size * [1.0, -1.0][k % 2];
        for (n, b) in twin.bodies.iter_mut().enumerate() {
            if b.t == 2 {
                let e = size * if (n + k / 4 % 2) % 2 == 0 { 1.0 } else { -1.0 };
                match k % 4 {
                    3 => {}
                    0 => b.at.0 += e,
                    1 => b.at.1 += e,
                    _ => b.at.2 += e,
                }
            }
        }
        if run(Some(&twin), (m / 4.0).max(1.0), cx).is_err() {
            return Ok(());
        }
    }
    r
}
fn shift_run(s: &Scene, s2: &Scene, which: usize, pre: usize, seq: &[usize], really: bool, mul: f64, cx: &mut Ctx) -> R {
    {
        let mut a = Inst::new(s, ID);
        let mut b = Inst::new(s2, ID);
        for _ in 0..pre {
            a.step();
            b.step();
        }
        let mut far: f64 = if really { 0.0 } else { SH[which].0.hypot(SH[which].1) };
        let mut n = 0;
        let tol = |far: f64, n: usize| {
            let mut t = tol_for(far, n);
            t.flat = s.flat;
            if s.bodies.iter().any(|b| b.bullet) {
                t.x += 2e-3 + 1e-3 * n as f64;
                t.v += 0.05;
            } else if s.joints.is_empty() {
                t.x += 1e-3;
                t.v += 0.02;
            }
            t.x *= mul;
            t.v *= mul;
            t
        };
        for o in seq.iter().chain(&[1]) {
            match o {
                0 | 1 => {
                    for _ in 0..(if *o == 0 { 1 } else { 5 }) {
                        a.step();
                        b.step();
                        n += 1;
                        cx.step(2);
                        if !cmp(&a, &b, tol(far, n), cx)? {
                            return if really { Ok(()) } else { Err("touching or not".into()) };
                        }
                    }
                    if !really {
                        continue;
                    }
                    boxes_close(&look(&a), &look(&b), 0.25 + 0.15 * a.b.iter().map(|b| bstate(b).v.len()).fold(0.0, f64::max), cx)?;
                }
                9 | 10 if !really => {}
                9 | 10 => {
                    let q = if *o == 9 { SH[which] } else { (-6.5, 2.75) };
                    let before: Vec<Bs> = b.b.iter().map(bstate).collect();
                    let (l0, c0) = (look(&b), b.contacts());
                    b.shift(p(q.0, q.1));
                    cx.step(1);
                    far = far.max(b.g.d.len());
                    for (k, s) in before.iter().enumerate() {
                        let t = bstate(&b.b[k]);
                        ensure!(t.v == s.v && t.w == s.w && t.ang == s.ang && t.awake == s.awake, "{}shifting the origin changed the motion of body {}", HARD, k);
                    }
                    let c1 = b.contacts();
                    ensure!(c0.len() == c1.len() && c0.iter().zip(&c1).all(|(a, b)| a.0 == b.0 && a.1 .0 == b.1 .0), "{}shifting the origin changed the contacts", HARD);
                    let eps = 1e-5 + 4e-7 * far.max(l0_far(&before, q));
                    same_look(&l0, &look(&b), eps, cx).map_err(|e| format!("{}{}", HARD, e))?;
                    a.rec.borrow_mut().ev.clear();
                    b.rec.borrow_mut().ev.clear();
                    if !cmp(&a, &b, tol(far, n), cx)? {
                        return if really { Ok(()) } else { Err("touching or not".into()) };
                    }
                }
                o => {
                    a.act(o - 2);
                    b.act(o - 2);
                    cx.step(2);
                }
            }
        }
        cx.state(hash_world(&b.w));
        Ok(())
    }
}
fn l0_far(b: &[Bs], q: (f64, f64)) -> f64 {
    b.iter().map(|s| s.pos.len()).fold(p(q.0, q.1).len(), f64::max)
}

const PL: [(f64, f64); 4] = [(0.0, 0.0), (8.0, -4.0), (30.25, 20.5), (-80.0, 40.0)];
const TH: [f64; 7] = [0.0, PI / 2.0, PI, -PI / 2.0, 0.7, 2.1, -1.3];

fn places(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let sc = d.d(nscenes());
    let th = d.d(TH.len());
    let m = d.b();
    let at = d.p(&PL);
    let vx = d.p(&[0.0, 1.37, -3.9]);
    let w = d.p(&[0.0, 0.7, -6.0]);
    let fr = d.p(&[0.0f32, 0.3, 0.9]);
    let op = d.d(8);
    let s = scenes(vx, w, fr).swap_remove(sc);
    let g = G { m, th: TH[th], d: p(at.0, at.1) };
    let msg = if say { format!("{} (vx {}, spin {}, friction {}), {:?}, after 8 steps: {}", s.name, vx, w, fr, g, ON[2 + op.min(6)]) } else { String::new() };
    (msg, move |cx| {
        if th > 3 && !s.turn {
            return Ok(());
        }
        settle(&s, g.d.len(), |twin, m, cx| place_run(&s, twin.unwrap_or(&s), if twin.is_none() { g } else { ID }, g, op, m, cx), cx)
    })
}
/// The second scene at `g`, with the tolerances for `like`.
fn place_run(s: &Scene, s2: &Scene, g: G, like: G, op: usize, mul: f64, cx: &mut Ctx) -> R {
    let m = like.m;
    {
        let mut a = Inst::new(s, ID);
        let mut b = Inst::new(s2, g);
        for n in 0..24 {
            if n == 8 && op < 7 {
                a.act(op);
                b.act(op);
            }
            a.step();
            b.step();
            cx.step(2);
            let mut t = tol_for(like.d.len(), n);
            t.x += 1e-4;
            t.v += 5e-3;
            t.flat = s.flat;
            if s.bodies.iter().any(|b| b.bullet) {
                // the impact is found to a quarter of the slop
                t.x += 2e-3 + 1e-3 * n as f64;
                t.v += 0.05;
            } else if s.joints.is_empty() {
                t.x += 1e-3;
                t.v += 0.02;
            }
            if m && s.flat {
                // the two points of a manifold are corrected one after the other
                t.x += if n >= 8 { 0.02 } else { 3e-3 };
                t.v += if n >= 8 { 0.4 } else { 0.1 };
            }
            t.x *= mul;
            t.v *= mul;
            if !cmp(&a, &b, t, cx)? {
                return if std::ptr::eq(s, s2) { Ok(()) } else { Err("touching or not".into()) };
            }
        }
        cx.state(hash_world(&b.w));
        Ok(())
    }
}

pub fn check() -> Check {
    let t = thorough();
    let n = nscenes() as u64;
    let len = if t { 4 } else { 3 };
    let mut phases = vec![];
    phases.push(phase("shifts", n * SH.len() as u64 * 2 * (NOPS as u64).pow(len as u32), move |i| shifts(i, len, true).0, move |i, cx| shifts(i, len, false).1(cx)));
    phases.push(phase("placements", n * TH.len() as u64 * 2 * 4 * 27 * 8, |i| places(i, true).0, |i, cx| places(i, false).1(cx)));
    Check {
        id: "C25",
        bounds: format!("{} scenes (contacts of every kind, every joint kind, sensors, bullets, sleeping); all sequences of {} operations out of {} containing a shift, 4 shift vectors, started fresh and after 12 steps; every scene mirrored or not at 7 turns and 4 places with 27 motions and 8 interventions over 24 steps", n, len, NOPS),
        assumptions: vec!["agreement within rounding grown by the number of steps and the distance from the origin; arbitrary turns only for scenes whose solving order does not depend on the boxes".into()],
        phases,
    }
}
