//! C06: determinism, independence of worlds, harmless observers.
use crate::cnt::Count;
use crate::draw::Dr;
use crate::ensure;
use crate::fw::*;
use crate::jk::*;
use crate::kit::*;
use box2d_rs::b2_body::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_distance::*;
use box2d_rs::b2_draw::*;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_shape::*;
use box2d_rs::b2_rope::*;
use box2d_rs::b2_time_of_impact::*;
use box2d_rs::b2_world::*;
use box2d_rs::b2_world_callbacks::*;
use box2d_rs::serialize::serialize_b2_world::*;
use serde::Serialize;
use std::cell::RefCell;
use std::rc::Rc;

pub const SCENES: [&str; 5] = ["pile", "linkage", "terrain", "asleep", "wheels"];
pub const OPS: [&str; 18] = [
    "step", "five long steps", "drop a ball", "destroy the oldest body", "pin two bodies", "destroy the newest joint", "move a body", "hit a body", "retype a body", "toggle a body",
    "add a fixture", "remove a fixture", "refilter", "shift origin", "flip switches", "turn gravity", "shoot a bullet", "sensor toggle",
];
const OBS: [&str; 13] = [
    "box queries", "ray casts", "body getters", "fixture getters", "contact getters", "joint getters", "drawing", "writing", "reading back elsewhere", "world getters", "narrow-phase calls", "rope", "another world",
];

/// How a history is listened to. Everything here is read-only.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ears {
    Rec,
    Nosy,
    None,
}

pub struct Sim {
    pub w: W,
    pub rec: Rc<RefCell<Rec>>,
    pub bs: Vec<B>,
    pub js: Vec<J>,
    n: u32,
    dr: Rc<RefCell<Dr>>,
}

/// Listener reading everything reachable from a contact.
struct Nosy(u64);
impl Nosy {
    fn look(&mut self, c: &mut dyn box2d_rs::b2_contact::B2contactDynTrait<U>) {
        let mut h = Fnv::new();
        let b = c.get_base();
        let mut wm = B2worldManifold::default();
        b.get_world_manifold(&mut wm);
        h.f(wm.normal.x).f(wm.points[0].x).b(b.is_touching()).b(b.is_enabled()).f(b.get_friction()).f(b.get_restitution()).f(b.get_tangent_speed()).f(b.get_restitution_threshold());
        for f in [b.get_fixture_a(), b.get_fixture_b()] {
            look_fixture(&mut h, &f);
            let q = f.borrow().get_body();
            look_body(&mut h, &q);
        }
        self.0 ^= h.done();
    }
}
impl B2contactListener<U> for Nosy {
    fn begin_contact(&mut self, c: &mut dyn box2d_rs::b2_contact::B2contactDynTrait<U>) {
        self.look(c)
    }
    fn end_contact(&mut self, c: &mut dyn box2d_rs::b2_contact::B2contactDynTrait<U>) {
        self.look(c)
    }
    fn pre_solve(&mut self, c: &mut dyn box2d_rs::b2_contact::B2contactDynTrait<U>, _old: &B2manifold) {
        self.look(c)
    }
    fn post_solve(&mut self, c: &mut dyn box2d_rs::b2_contact::B2contactDynTrait<U>, _imp: &B2contactImpulse) {
        self.look(c)
    }
}

fn look_body(h: &mut Fnv, b: &B) {
    hash_body(h, b);
    let b = b.borrow();
    let mut md = B2massData::default();
    b.get_mass_data(&mut md);
    let q = v(0.3, 0.7);
    for x in [b.get_world_point(q), b.get_world_vector(q), b.get_local_point(q), b.get_local_vector(q), b.get_linear_velocity_from_world_point(q), b.get_linear_velocity_from_local_point(q), b.get_local_center(), md.center] {
        h.f(x.x).f(x.y);
    }
    h.f(md.mass).f(md.i).f(b.get_linear_damping()).f(b.get_angular_damping()).u(b.get_user_data().unwrap_or(0) as u64);
    h.u(b.get_joint_list().iter().count() as u64).u(b.get_contact_list().iter().count() as u64).u(b.get_fixture_list().iter().count() as u64);
}
fn look_fixture(h: &mut Fnv, f: &F) {
    let f = f.borrow();
    let s = f.get_shape();
    let mut md = B2massData::default();
    f.get_mass_data(&mut md);
    h.u(f.get_type() as u64).b(f.is_sensor()).f(f.get_density()).f(f.get_friction()).f(f.get_restitution()).f(f.get_restitution_threshold());
    h.f(md.mass).f(md.i).u(f.get_user_data().unwrap_or(0) as u64).u(f.get_filter_data().mask_bits as u64);
    for k in 0..s.get_child_count() {
        let a = f.get_aabb(k as i32);
        h.f(a.lower_bound.x).f(a.upper_bound.y);
        let mut o = B2rayCastOutput::default();
        h.b(f.ray_cast(&mut o, &B2rayCastInput { p1: v(-9.0, 3.0), p2: v(8.0, -2.5), max_fraction: 1.0 }, k as i32));
        h.f(o.fraction);
    }
    h.b(f.test_point(v(0.2, 0.4))).b(f.test_point(v(-1.3, 1.1)));
}
fn look_joint(h: &mut Fnv, j: &J) {
    let jb = j.borrow();
    for x in [jb.get_anchor_a(), jb.get_anchor_b(), jb.get_reaction_force(60.0)] {
        h.f(x.x).f(x.y);
    }
    h.f(jb.get_reaction_torque(60.0));
    let q = jb.get_base();
    h.u(q.get_type() as u64).b(q.is_enabled()).b(q.get_collide_connected()).u(q.get_user_data().unwrap_or(0) as u64);
    match jb.as_derived() {
        JointAsDerived::EDistanceJoint(q) => {
            h.f(q.get_length()).f(q.get_min_length()).f(q.get_max_length()).f(q.get_current_length()).f(q.get_stiffness()).f(q.get_damping());
        }
        JointAsDerived::EFrictionJoint(q) => {
            h.f(q.get_max_force()).f(q.get_max_torque());
        }
        JointAsDerived::EGearJoint(q) => {
            h.f(q.get_ratio()).f(q.get_joint1().borrow().get_anchor_a().x).f(q.get_joint2().borrow().get_anchor_a().y);
        }
        JointAsDerived::EMotorJoint(q) => {
            h.f(q.get_angular_offset()).f(q.get_linear_offset().x).f(q.get_max_force()).f(q.get_correction_factor());
        }
        JointAsDerived::EMouseJoint(q) => {
            h.f(q.get_target().x).f(q.get_max_force()).f(q.get_stiffness());
        }
        JointAsDerived::EPrismaticJoint(q) => {
            h.f(q.get_joint_translation()).f(q.get_joint_speed()).f(q.get_lower_limit()).f(q.get_motor_speed()).b(q.is_motor_enabled());
        }
        JointAsDerived::EPulleyJoint(q) => {
            h.f(q.get_current_length_a()).f(q.get_current_length_b()).f(q.get_length_a()).f(q.get_ratio());
        }
        JointAsDerived::ERevoluteJoint(q) => {
            h.f(q.get_joint_angle()).f(q.get_joint_speed()).f(q.get_motor_torque(60.0)).f(q.get_lower_limit()).b(q.is_limit_enabled());
        }
        JointAsDerived::EWeldJoint(q) => {
            h.f(q.get_reference_angle());
        }
        JointAsDerived::EWheelJoint(q) => {
            h.f(q.get_joint_translation()).f(q.get_joint_linear_speed()).f(q.get_joint_angle()).f(q.get_joint_angular_speed()).f(q.get_motor_torque(60.0));
        }
    }
}

impl Sim {
    pub fn new(scene: usize, ears: Ears) -> Sim {
        let w = world(0.0, -10.0);
        let rec = Rc::new(RefCell::new(Rec::default()));
        match ears {
            Ears::Rec => w.borrow_mut().set_contact_listener(rec.clone()),
            Ears::Nosy => w.borrow_mut().set_contact_listener(Rc::new(RefCell::new(Nosy(0)))),
            Ears::None => {}
        }
        let dr = Rc::new(RefCell::new(Dr::default()));
        dr.borrow_mut().base.set_flags(B2drawShapeFlags::all());
        let mut s = Sim { w, rec, bs: vec![], js: vec![], n: 0, dr };
        let g = s.body(ST, 0.0, 0.0, &Sh::Edge((-20.0, 0.0), (20.0, 0.0)));
        match scene {
            0 => {
                for k in 0..6 {
                    let sh = if k % 2 == 0 { Sh::Box(0.5, 0.4) } else { Sh::Circle(0.45, 0.05, 0.0) };
                    s.body(DY, 0.31 * (k % 3) as f32 - 0.3, 0.41 + 0.83 * k as f32, &sh);
                }
            }
            1 => {
                for k in 0..6 {
                    s.body(DY, -3.0 + 1.3 * k as f32, 3.0, &Sh::Box(0.4, 0.25));
                }
                let b = s.bs.clone();
                s.joint(REV, g, &b[1], &b[2]);
                s.joint(WELD, g, &b[2], &b[3]);
                s.joint(DIST, g, &b[3], &b[4]);
                s.joint(PRIS, g, &b[4], &b[5]);
                s.joint(PULL, g, &b[5], &b[6]);
                s.joint(MOUSE, g, &b[0], &b[1]);
                s.joint(FRIC, g, &b[1], &b[6]);
                s.joint(MOTOR, g, &b[2], &b[5]);
            }
            2 => {
                let t = [(-6.0, 3.0), (-3.0, 0.6), (0.0, 0.4), (3.0, 0.7), (6.0, 2.5)];
                let r: Vec<(f32, f32)> = t.iter().rev().cloned().collect();
                s.body(ST, 0.0, 0.2, &Sh::Chain(r, (8.0, 2.5), (-8.0, 3.0)));
                let b = s.body(DY, -2.0, 3.0, &Sh::Poly(vec![(-0.5, -0.4), (0.6, -0.3), (0.1, 0.6)]));
                let mut d = fdef(&Sh::Circle(0.7, 0.0, 0.0));
                d.is_sensor = true;
                d.user_data = Some(77);
                B2body::create_fixture(s.bs[b].clone(), &d);
                s.body(KI, 2.5, 1.6, &Sh::Box(0.8, 0.1));
                s.bs.last().unwrap().borrow_mut().set_linear_velocity(v(-0.8, 0.1));
                s.body(DY, 2.4, 2.3, &Sh::Circle(0.3, 0.0, 0.0));
            }
            3 => {
                for k in 0..3 {
                    s.body(DY, 1.5 * k as f32, 0.515, &Sh::Box(0.5, 0.5));
                }
                for _ in 0..34 {
                    step(&s.w, DT);
                }
            }
            _ => {
                let c = s.body(DY, 0.0, 1.5, &Sh::Box(1.5, 0.3));
                let (a, b) = (s.body(DY, -1.0, 1.0, &Sh::Circle(0.4, 0.0, 0.0)), s.body(DY, 1.0, 1.0, &Sh::Circle(0.4, 0.0, 0.0)));
                let (q, c) = (s.bs.clone(), s.bs[c].clone());
                s.n += 1;
                let d = def(WHEEL, &c, &q[a], v(-1.0, 1.0), false, 900);
                let j = s.w.borrow_mut().create_joint(&d);
                s.js.push(j);
                let d = def(REV, &c, &q[b], v(1.0, 1.0), false, 901);
                let j = s.w.borrow_mut().create_joint(&d);
                s.js.push(j);
                let e = s.body(DY, 4.0, 3.0, &Sh::Box(0.6, 0.1));
                let f = s.body(DY, 5.5, 3.0, &Sh::Box(0.6, 0.1));
                let q = s.bs.clone();
                s.joint(REV, g, &q[0], &q[e]);
                s.joint(PRIS, g, &q[0], &q[f]);
                let k = s.js.len();
                let (j1, j2) = (s.js[k - 2].clone(), s.js[k - 1].clone());
                let j = gear(&s.w, &j1, &j2, &q[e], &q[f], 1.5, false, 950);
                // never destroyed before the joints it connects
                s.js.insert(0, j);
            }
        }
        s
    }
    fn body(&mut self, t: B2bodyType, x: f32, y: f32, sh: &Sh) -> usize {
        self.n += 1;
        let mut d = bdef(t, x, y, 0.0);
        d.user_data = Some(self.n);
        let b = B2world::create_body(self.w.clone(), &d);
        fixu(&b, sh, 1.0, self.n);
        self.bs.push(b);
        self.bs.len() - 1
    }
    fn joint(&mut self, kind: usize, _g: usize, a: &B, b: &B) {
        self.n += 1;
        let j = mk(&self.w, kind, a, b, false, self.n);
        self.js.push(j);
    }
    fn has_gear(&self) -> bool {
        self.js.iter().any(|j| j.borrow().get_base().get_type() == B2jointType::EGearJoint)
    }
    /// An operation; the choice of its object depends only on the history.
    pub fn op(&mut self, k: usize) {
        let last = self.bs.len() - 1;
        let pick = 1 + (self.n as usize) % last.max(1);
        match k {
            0 => step(&self.w, DT),
            1 => {
                for _ in 0..5 {
                    self.w.borrow_mut().step(1.0 / 30.0, 6, 2);
                }
            }
            2 => {
                let x = 0.7 * (self.n % 5) as f32 - 1.2;
                self.body(DY, x, 4.5, &Sh::Circle(0.35, 0.0, 0.1));
            }
            3 => {
                if last > 1 {
                    if self.has_gear() {
                        let j = self.js.remove(0);
                        self.w.borrow_mut().destroy_joint(j);
                    }
                    let b = self.bs.remove(1);
                    self.js.retain(|j| {
                        let j = j.borrow();
                        let q = j.get_base();
                        !same(&q.get_body_a(), &b) && !same(&q.get_body_b(), &b)
                    });
                    self.w.borrow_mut().destroy_body(b);
                }
            }
            4 => {
                if last > 1 {
                    let (a, b) = (self.bs[last - 1].clone(), self.bs[last].clone());
                    self.joint(REV, 0, &a, &b);
                }
            }
            5 => {
                // the gear is at the front and the joints it connects may be at the back
                if self.has_gear() {
                    let j = self.js.remove(0);
                    self.w.borrow_mut().destroy_joint(j);
                } else if let Some(j) = self.js.pop() {
                    self.w.borrow_mut().destroy_joint(j);
                }
            }
            6 => self.bs[pick.min(last)].borrow_mut().set_transform(v(-0.4, 2.6), 0.35),
            7 => {
                let b = &self.bs[pick.min(last)];
                b.borrow_mut().apply_linear_impulse_to_center(v(1.5, 2.0), true);
                b.borrow_mut().apply_torque(3.0, true);
                self.n += 1;
            }
            8 => {
                // gears keep their moving bodies
                if !self.has_gear() {
                    let b = self.bs[pick.min(last)].clone();
                    let t = b.borrow().get_type();
                    B2body::set_type(b, if t == DY { KI } else { DY });
                }
            }
            9 => {
                let b = self.bs[pick.min(last)].clone();
                let e = b.borrow().is_enabled();
                B2body::set_enabled(b, !e);
                self.n += 1;
            }
            10 => {
                self.n += 1;
                fixu(&self.bs[pick.min(last)], &Sh::BoxAt(0.3, 0.1, 0.2, 0.3, 0.4), 2.0, self.n);
            }
            11 => {
                let b = self.bs[pick.min(last)].clone();
                let f = b.borrow().get_fixture_list().iter().next();
                if let Some(f) = f {
                    B2body::destroy_fixture(b, f);
                }
            }
            12 => {
                let f = self.bs[pick.min(last)].borrow().get_fixture_list().iter().next();
                if let Some(f) = f {
                    let mut q = f.borrow().get_filter_data();
                    q.group_index = -3;
                    f.borrow_mut().set_filter_data(q);
                }
            }
            13 => self.w.borrow().shift_origin(v(0.5, -0.25)),
            14 => {
                let mut w = self.w.borrow_mut();
                let (a, b) = (w.get_warm_starting(), w.get_continuous_physics());
                w.set_warm_starting(!a);
                w.set_continuous_physics(!b);
            }
            15 => self.w.borrow_mut().set_gravity(v(3.0, -8.0)),
            16 => {
                let b = self.body(DY, -7.0, 0.9, &Sh::Box(0.15, 0.1));
                self.bs[b].borrow_mut().set_bullet(true);
                self.bs[b].borrow_mut().set_linear_velocity(v(90.0, -1.0));
            }
            _ => {
                let f = self.bs[pick.min(last)].borrow().get_fixture_list().iter().next();
                if let Some(f) = f {
                    let q = f.borrow().is_sensor();
                    f.borrow_mut().set_sensor(!q);
                }
            }
        }
    }
    pub fn tail(&mut self, n: usize) {
        for _ in 0..n {
            step(&self.w, DT);
        }
    }
    /// Everything observable, in order. Called once, when the history is over.
    pub fn digest(&self) -> Vec<(String, u64)> {
        let mut o = vec![];
        let mut h = Fnv::new();
        h.u(hash_world(&self.w));
        o.push(("bodies, contacts, joints".to_string(), h.done()));
        for b in self.w.borrow().get_body_list().iter() {
            let mut h = Fnv::new();
            look_body(&mut h, &b);
            for f in b.borrow().get_fixture_list().iter() {
                look_fixture(&mut h, &f);
            }
            let q = b.borrow();
            o.push((format!("body {:?} at {:?} {:?} velocity {:?}", q.get_user_data(), q.get_position(), q.get_angle(), q.get_linear_velocity()), h.done()));
        }
        for j in self.w.borrow().get_joint_list().iter() {
            let mut h = Fnv::new();
            look_joint(&mut h, &j);
            o.push((format!("joint {:?}", j.borrow().get_base().get_user_data()), h.done()));
        }
        let mut h = Fnv::new();
        for (f, b) in crate::wsim::fat_boxes(&self.w) {
            h.u(f.borrow().get_user_data().unwrap_or(0) as u64);
            for x in b {
                h.f(x);
            }
        }
        let w = self.w.borrow();
        h.u(w.get_tree_height() as u64).u(w.get_tree_balance() as u64).f(w.get_tree_quality());
        o.push(("stored boxes".to_string(), h.done()));
        o
    }
    pub fn log(&self) -> u64 {
        use std::hash::Hasher;
        let mut h = Fnv::new();
        h.write(format!("{:?}", self.rec.borrow().ev).as_bytes());
        h.done()
    }

    /// A read-only call; returns what it saw.
    fn observe(&self, k: usize) -> u64 {
        let mut h = Fnv::new();
        match k {
            0 => {
                for q in [aabb(-BIG, -BIG, BIG, BIG), aabb(-1.0, 0.0, 1.0, 2.0), aabb(50.0, 50.0, 51.0, 51.0)] {
                    for stop in [1, 100] {
                        let mut n = 0;
                        self.w.borrow().query_aabb(
                            |f: F| {
                                h.u(f.borrow().get_user_data().unwrap_or(0) as u64);
                                n += 1;
                                n < stop
                            },
                            q,
                        );
                    }
                }
            }
            1 => {
                for (a, b) in [((-9.0, 0.6), (9.0, 0.5)), ((0.3, 9.0), (0.1, -3.0)), ((-8.0, 7.0), (8.0, -1.0))] {
                    for ans in [-1.0, 0.0, 1.0, 2.0] {
                        self.w.borrow().ray_cast(
                            |f: F, p: B2vec2, n: B2vec2, fr: f32| {
                                h.u(f.borrow().get_user_data().unwrap_or(0) as u64).f(p.x).f(n.y).f(fr);
                                if ans == 2.0 {
                                    fr
                                } else {
                                    ans
                                }
                            },
                            v(a.0, a.1),
                            v(b.0, b.1),
                        );
                    }
                }
            }
            2 => {
                for b in self.w.borrow().get_body_list().iter() {
                    look_body(&mut h, &b);
                }
            }
            3 => {
                for b in self.w.borrow().get_body_list().iter() {
                    for f in b.borrow().get_fixture_list().iter() {
                        look_fixture(&mut h, &f);
                        let x = b.borrow().get_transform();
                        let s = f.borrow().get_shape();
                        let mut a = B2AABB::default();
                        s.compute_aabb(&mut a, x, 0);
                        h.f(a.lower_bound.x).f(a.upper_bound.y);
                    }
                }
            }
            4 => {
                for c in self.w.borrow().get_contact_list().iter() {
                    let c = c.borrow();
                    let b = c.get_base();
                    let mut wm = B2worldManifold::default();
                    b.get_world_manifold(&mut wm);
                    h.f(wm.normal.x).f(wm.separations[0]).b(b.is_touching()).f(b.get_friction()).f(b.get_restitution()).f(b.get_tangent_speed());
                    h.u(cid(b).0 as u64).u(cid(b).2 as u64).u(b.get_manifold().point_count as u64);
                }
                for b in self.w.borrow().get_body_list().iter() {
                    for e in b.borrow().get_contact_list().iter() {
                        let e = e.borrow();
                        h.u(e.other.upgrade().map(|q| q.borrow().get_user_data().unwrap_or(0)).unwrap_or(0) as u64);
                    }
                }
            }
            5 => {
                for j in self.w.borrow().get_joint_list().iter() {
                    look_joint(&mut h, &j);
                }
            }
            6 => {
                self.w.borrow_mut().set_debug_draw(self.dr.clone());
                self.dr.borrow_mut().fig.clear();
                self.w.borrow().debug_draw();
                h.u(self.dr.borrow().fig.len() as u64);
            }
            7 => {
                let r = self.w.borrow().serialize(Count);
                h.b(r.is_ok());
                let t = serde_json::to_string(&*self.w.borrow()).unwrap();
                use std::hash::Hasher;
                h.write(t.as_bytes());
            }
            8 => {
                let t = bincode::serialize(&*self.w.borrow()).unwrap();
                let r = bincode::deserialize::<B2worldDeserializeResult<U>>(&t).expect("read back").world;
                step(&r, DT);
                h.u(r.borrow().get_body_count() as u64);
            }
            9 => {
                let w = self.w.borrow();
                let p = w.get_profile();
                let _ = p.step;
                h.u(w.get_proxy_count() as u64).u(w.get_body_count() as u64).u(w.get_joint_count() as u64).u(w.get_contact_count() as u64);
                h.u(w.get_tree_height() as u64).u(w.get_tree_balance() as u64).f(w.get_tree_quality()).f(w.get_gravity().x).b(w.is_locked());
                h.b(w.get_allow_sleeping()).b(w.get_warm_starting()).b(w.get_continuous_physics()).b(w.get_sub_stepping()).b(w.get_auto_clear_forces());
                for (f, b) in crate::wsim::fat_boxes(&self.w) {
                    h.u(f.borrow().get_user_data().unwrap_or(0) as u64).f(b[0]).f(b[3]);
                }
                let cm = w.get_contact_manager();
                let bp = cm.borrow().get_broad_phase();
                let bp = bp.borrow();
                h.b(bp.test_overlap(0, 1));
                // the broad-phase ray cast
                bp.ray_cast(
                    |i: &B2rayCastInput, id: i32| {
                        h.u(id as u64);
                        i.max_fraction
                    },
                    &B2rayCastInput { p1: v(-9.0, 0.4), p2: v(9.0, 0.8), max_fraction: 1.0 },
                );
            }
            10 => {
                let mut prox = vec![];
                for b in self.w.borrow().get_body_list().iter() {
                    for f in b.borrow().get_fixture_list().iter() {
                        prox.push((f.borrow().get_shape(), b.borrow().get_transform()));
                    }
                }
                for k in 1..prox.len() {
                    let (a, b) = (&prox[k - 1], &prox[k]);
                    let mut i = B2distanceInput::default();
                    i.proxy_a.set_shape(a.0.clone(), 0);
                    i.proxy_b.set_shape(b.0.clone(), 0);
                    i.transform_a = a.1;
                    i.transform_b = b.1;
                    i.use_radii = true;
                    let (mut o, mut c) = (B2distanceOutput::default(), B2simplexCache::default());
                    b2_distance_fn(&mut o, &mut c, &i);
                    h.f(o.distance).b(b2_test_overlap_shapes(a.0.clone(), 0, b.0.clone(), 0, a.1, b.1));
                    let mut t = B2toiinput::default();
                    t.proxy_a = i.proxy_a.clone();
                    t.proxy_b = i.proxy_b.clone();
                    t.sweep_a = B2Sweep { local_center: v(0.0, 0.0), c0: a.1.p, c: a.1.p, a0: 0.0, a: 0.0, alpha0: 0.0 };
                    t.sweep_b = B2Sweep { local_center: v(0.0, 0.0), c0: b.1.p + v(5.0, 0.0), c: b.1.p, a0: 0.0, a: 0.5, alpha0: 0.0 };
                    t.t_max = 1.0;
                    let mut o = B2toioutput::default();
                    b2_time_of_impact(&mut o, &t);
                    h.f(o.t);
                }
            }
            11 => {
                let mut d = B2ropeDef::default();
                d.vertices = (0..5).map(|k| B2ropeDefVertices { position: v(0.5 * k as f32, 0.0), mass: if k == 0 { 0.0 } else { 1.0 } }).collect();
                d.gravity = v(0.0, -10.0);
                let mut r = B2rope::default();
                r.create(&d);
                for _ in 0..3 {
                    r.step(DT, 4, v(0.0, 0.0));
                }
            }
            _ => {
                let mut s = Sim::new(2, Ears::Rec);
                s.op(16);
                s.op(1);
                h.u(hash_world(&s.w));
            }
        }
        h.done()
    }
}

pub fn cmp(a: &[(String, u64)], b: &[(String, u64)], what: &str) -> R {
    ensure!(a.len() == b.len(), "{}: {} objects instead of {}", what, b.len(), a.len());
    for (x, y) in a.iter().zip(b) {
        ensure!(x.1 == y.1, "{}: {} instead of {}", what, y.0, x.0);
    }
    Ok(())
}

fn play(scene: usize, ops: &[usize], tail: usize, ears: Ears, mut at: impl FnMut(usize, &Sim) -> R) -> Result<Sim, String> {
    let mut s = Sim::new(scene, ears);
    for (k, o) in ops.iter().enumerate() {
        at(k, &s)?;
        s.op(*o);
    }
    at(ops.len(), &s)?;
    s.tail(tail);
    Ok(s)
}

const TAIL: usize = 4;

/// Observers at every point of every history.
fn observers(i: u64, len: usize) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let scene = d.d(SCENES.len());
    let ops = decode_seq(d.0, OPS.len(), len);
    let name = format!("scene {}, {}", SCENES[scene], ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(", "));
    (name, move |cx: &mut Ctx| {
        let s = play(scene, &ops, TAIL, Ears::Rec, |_, _| Ok(()))?;
        let (base, log) = (s.digest(), s.log());
        cx.state(base.iter().fold(0, |a, x| a.rotate_left(5) ^ x.1));
        cx.step((ops.len() + TAIL) as u64);
        for e in [Ears::None, Ears::Nosy] {
            let s = play(scene, &ops, TAIL, e, |_, _| Ok(()))?;
            cmp(&base, &s.digest(), &format!("{:?} contact listener", e))?;
            cx.eval(1);
        }
        for k in 0..OBS.len() {
            let s = play(scene, &ops, TAIL, Ears::Rec, |g, s| {
                let a = s.observe(k);
                ensure!(a == s.observe(k), "{} repeated at point {} give something else", OBS[k], g);
                Ok(())
            })?;
            cmp(&base, &s.digest(), OBS[k])?;
            ensure!(log == s.log(), "{}: callbacks differ", OBS[k]);
            cx.eval(1);
            cx.step((ops.len() + TAIL) as u64);
        }
        for at in 0..=ops.len() {
            let s = play(scene, &ops, TAIL, Ears::Rec, |g, s| {
                if g == at {
                    for k in 0..OBS.len() {
                        s.observe(k);
                    }
                }
                Ok(())
            })?;
            cmp(&base, &s.digest(), &format!("all observers at point {}", at))?;
            ensure!(log == s.log(), "all observers at point {}: callbacks differ", at);
            cx.eval(1);
        }
        Ok(())
    })
}

/// Two worlds with their own histories, in every order of their calls.
fn interleave(i: u64, la: usize, lb: usize) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let (mut sa, mut sb) = (0, d.d(SCENES.len() * (SCENES.len() + 1) / 2));
    while sb > sa {
        sb -= sa + 1;
        sa += 1;
    }
    let n = OPS.len();
    let a: Vec<usize> = (0..la).map(|_| d.d(n)).collect();
    let b: Vec<usize> = (0..lb).map(|_| d.d(n)).collect();
    let name = format!(
        "{}: {} against {}: {}",
        SCENES[sa],
        a.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(", "),
        SCENES[sb],
        b.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(", ")
    );
    (name, move |cx: &mut Ctx| {
        let qa = play(sa, &a, 2, Ears::Rec, |_, _| Ok(()))?;
        let (da, lga) = (qa.digest(), qa.log());
        drop(qa);
        let qb = play(sb, &b, 2, Ears::Rec, |_, _| Ok(()))?;
        let (db, lgb) = (qb.digest(), qb.log());
        drop(qb);
        cx.state(da.iter().chain(&db).fold(0, |a, x| a.rotate_left(5) ^ x.1));
        // creation, operations and two final steps of each, merged in every way
        let (ta, tb) = (la + 2, lb + 2);
        for m in 0..1u32 << (ta + tb) {
            if m.count_ones() as usize != ta {
                continue;
            }
            let (mut x, mut y) = (None::<Sim>, None::<Sim>);
            let (mut ka, mut kb) = (0, 0);
            for t in 0..ta + tb {
                let (s, k, l, sc, ops) = if m >> t & 1 == 1 { (&mut x, &mut ka, la, sa, &a) } else { (&mut y, &mut kb, lb, sb, &b) };
                match *k {
                    0 => *s = Some(Sim::new(sc, Ears::Rec)),
                    q if q <= l => s.as_mut().unwrap().op(ops[q - 1]),
                    _ => s.as_mut().unwrap().tail(2),
                }
                *k += 1;
            }
            let (x, y) = (x.unwrap(), y.unwrap());
            cmp(&da, &x.digest(), &format!("first world, order {:b}", m))?;
            cmp(&db, &y.digest(), &format!("second world, order {:b}", m))?;
            ensure!(x.log() == lga && y.log() == lgb, "callbacks differ, order {:b}", m);
            cx.eval(2);
            cx.step((ta + tb) as u64);
        }
        Ok(())
    })
}

/// The same history many times over, between other worlds that come and go.
fn twins(i: u64, len: usize) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let scene = d.d(SCENES.len());
    let ops = decode_seq(d.0, OPS.len(), len);
    let name = format!("scene {}, {}", SCENES[scene], ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(", "));
    (name, move |cx: &mut Ctx| {
        let mut x = Sim::new(scene, Ears::Rec);
        // other objects in the allocator's way
        let junk: Vec<Vec<u8>> = (1..40).map(|k| vec![0; 8 * k]).collect();
        let mut y = Sim::new(scene, Ears::Rec);
        drop(junk);
        let mut held = vec![];
        for o in &ops {
            x.op(*o);
            held.push(vec![1u8; 200]);
            y.op(*o);
        }
        x.tail(3);
        y.tail(3);
        let (a, b) = (x.digest(), y.digest());
        cx.state(a.iter().fold(0, |a, x| a.rotate_left(5) ^ x.1));
        cx.step((len as u64 + 3) * 2);
        cx.eval(1);
        cmp(&a, &b, "the same history again")?;
        ensure!(x.log() == y.log(), "the same history again: callbacks differ");
        Ok(())
    })
}

pub fn check() -> Check {
    let (no, ns) = (OPS.len() as u64, SCENES.len() as u64);
    let t = thorough();
    let mut ph = vec![];
    for len in 1..=if t { 3 } else { 2 } {
        ph.push(phase(&format!("observers {}", len), ns * seq_count(OPS.len(), len), move |i| observers(i, len).0, move |i, c| observers(i, len).1(c)));
    }
    ph.push(phase("interleaved worlds", ns * (ns + 1) / 2 * no * no, |i| interleave(i, 1, 1).0, |i, c| interleave(i, 1, 1).1(c)));
    if t {
        ph.push(phase("interleaved longer", ns * (ns + 1) / 2 * no * no * no, |i| interleave(i, 2, 1).0, |i, c| interleave(i, 2, 1).1(c)));
    }
    let tl = if t { 4 } else { 3 };
    ph.push(phase(&format!("twins {}", tl), ns * seq_count(OPS.len(), tl), move |i| twins(i, tl).0, move |i, c| twins(i, tl).1(c)));
    Check {
        id: "C06",
        bounds: format!(
            "five scenes with contacts, all joint kinds, sensors, bullets and sleeping bodies; histories over {} operations; 13 kinds of read-only calls inserted at every point and all together at each single point, recording/reading/absent listeners; two worlds merged in every order of creation, operations and steps; twin histories up to length {}",
            no, tl
        ),
        assumptions: vec!["the solver-wide block solving flag is a documented global and is left alone".into(), "one thread per world".into()],
        phases: ph,
    }
}
