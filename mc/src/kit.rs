//! World building helpers shared by the checks.
use crate::fw::Fnv;
use crate::geom::*;
use box2d_rs::b2_body::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_common::*;
use box2d_rs::b2_contact::*;
use box2d_rs::b2_fixture::*;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_shape::*;
use box2d_rs::b2_world::*;
use box2d_rs::b2_world_callbacks::*;
use box2d_rs::b2rs_common::UserDataType;
use box2d_rs::shapes::b2_chain_shape::*;
use box2d_rs::shapes::b2_circle_shape::*;
use box2d_rs::shapes::b2_edge_shape::*;
use box2d_rs::shapes::b2_polygon_shape::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Default, Copy, Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct U;
impl UserDataType for U {
    type Fixture = u32;
    type Body = u32;
    type Joint = u32;
}

pub type W = Rc<RefCell<B2world<U>>>;
pub type B = BodyPtr<U>;
pub type F = FixturePtr<U>;
pub type J = B2jointPtr<U>;

pub fn v(x: f32, y: f32) -> B2vec2 {
    B2vec2 { x, y }
}
pub fn xf(x: f32, y: f32, a: f32) -> B2Transform {
    B2Transform { p: v(x, y), q: B2Rot::new(a) }
}

pub const ST: B2bodyType = B2bodyType::B2StaticBody;
pub const KI: B2bodyType = B2bodyType::B2KinematicBody;
pub const DY: B2bodyType = B2bodyType::B2DynamicBody;

/// Shape description, convertible to the library's shape and to reference cores.
#[derive(Clone, Debug)]
pub enum Sh {
    Circle(f32, f32, f32),             // radius, centre
    Box(f32, f32),                     // half sizes
    BoxAt(f32, f32, f32, f32, f32),    // half sizes, centre, angle
    Poly(Vec<(f32, f32)>),
    Edge((f32, f32), (f32, f32)),
    EdgeOne([(f32, f32); 4]),
    Chain(Vec<(f32, f32)>, (f32, f32), (f32, f32)),
    Loop(Vec<(f32, f32)>),
}

fn vv(q: &(f32, f32)) -> B2vec2 {
    v(q.0, q.1)
}

impl Sh {
    pub fn circle(&self) -> B2circleShape {
        match self {
            Sh::Circle(r, x, y) => {
                let mut c = B2circleShape::default();
                c.base.m_radius = *r;
                c.m_p = v(*x, *y);
                c
            }
            _ => panic!("harness: not a circle"),
        }
    }
    pub fn poly(&self) -> B2polygonShape {
        let mut s = B2polygonShape::default();
        match self {
            Sh::Box(hx, hy) => s.set_as_box(*hx, *hy),
            Sh::BoxAt(hx, hy, x, y, a) => s.set_as_box_angle(*hx, *hy, v(*x, *y), *a),
            Sh::Poly(q) => s.set(&q.iter().map(vv).collect::<Vec<_>>()),
            _ => panic!("harness: not a polygon"),
        }
        s
    }
    pub fn edge(&self) -> B2edgeShape {
        let mut s = B2edgeShape::default();
        match self {
            Sh::Edge(a, b) => s.set_two_sided(vv(a), vv(b)),
            Sh::EdgeOne(q) => s.set_one_sided(vv(&q[0]), vv(&q[1]), vv(&q[2]), vv(&q[3])),
            _ => panic!("harness: not an edge"),
        }
        s
    }
    pub fn chain(&self) -> B2chainShape {
        let mut s = B2chainShape::default();
        match self {
            Sh::Chain(q, a, b) => s.create_chain(&q.iter().map(vv).collect::<Vec<_>>(), vv(a), vv(b)),
            Sh::Loop(q) => s.create_loop(&q.iter().map(vv).collect::<Vec<_>>()),
            _ => panic!("harness: not a chain"),
        }
        s
    }
    pub fn is_poly(&self) -> bool {
        matches!(self, Sh::Box(..) | Sh::BoxAt(..) | Sh::Poly(..))
    }
    pub fn is_edge(&self) -> bool {
        matches!(self, Sh::Edge(..) | Sh::EdgeOne(..))
    }
    pub fn is_chain(&self) -> bool {
        matches!(self, Sh::Chain(..) | Sh::Loop(..))
    }
    pub fn def(&self) -> ShapeDefPtr {
        match self {
            Sh::Circle(..) => Rc::new(RefCell::new(self.circle())),
            Sh::Edge(..) | Sh::EdgeOne(..) => Rc::new(RefCell::new(self.edge())),
            Sh::Chain(..) | Sh::Loop(..) => Rc::new(RefCell::new(self.chain())),
            _ => Rc::new(RefCell::new(self.poly())),
        }
    }
    pub fn rc(&self) -> Rc<dyn B2shapeDynTrait> {
        match self {
            Sh::Circle(..) => Rc::new(self.circle()),
            Sh::Edge(..) | Sh::EdgeOne(..) => Rc::new(self.edge()),
            Sh::Chain(..) | Sh::Loop(..) => Rc::new(self.chain()),
            _ => Rc::new(self.poly()),
        }
    }
    pub fn children(&self) -> usize {
        match self {
            Sh::Chain(q, ..) => q.len() - 1,
            Sh::Loop(q) => q.len(),
            _ => 1,
        }
    }
    /// Reference core of a child, from the description alone. Polygons are taken as their hull.
    pub fn core(&self, child: usize) -> Core {
        let pr = B2_POLYGON_RADIUS as f64;
        let q = |a: &(f32, f32)| p(a.0 as f64, a.1 as f64);
        match self {
            Sh::Circle(r, x, y) => Core { v: vec![p(*x as f64, *y as f64)], r: *r as f64 },
            Sh::Box(hx, hy) => {
                let (a, b) = (*hx as f64, *hy as f64);
                Core { v: vec![p(-a, -b), p(a, -b), p(a, b), p(-a, b)], r: pr }
            }
            Sh::BoxAt(hx, hy, x, y, an) => {
                let t = X::new(p(*x as f64, *y as f64), *an as f64);
                Core { v: Sh::Box(*hx, *hy).core(0).v.iter().map(|w| t.at(*w)).collect(), r: pr }
            }
            Sh::Poly(pts) => Core { v: hull(&pts.iter().map(q).collect::<Vec<_>>()), r: pr },
            Sh::Edge(a, b) => Core { v: vec![q(a), q(b)], r: pr },
            Sh::EdgeOne(e) => Core { v: vec![q(&e[1]), q(&e[2])], r: pr },
            Sh::Chain(c, ..) => Core { v: vec![q(&c[child]), q(&c[child + 1])], r: pr },
            Sh::Loop(c) => Core { v: vec![q(&c[child]), q(&c[(child + 1) % c.len()])], r: pr },
        }
    }
    /// mass, centre, inertia about the origin
    pub fn mass(&self, density: f64) -> (f64, P, f64) {
        match self {
            Sh::Circle(r, x, y) => {
                let r = *r as f64;
                let c = p(*x as f64, *y as f64);
                let m = density * PI * r * r;
                (m, c, m * (0.5 * r * r + c.dot(c)))
            }
            _ if self.is_poly() => {
                let (a, c, i) = poly_mass(&self.core(0).v);
                (density * a, c, density * i)
            }
            _ => (0.0, p(0.0, 0.0), 0.0),
        }
    }
}

pub fn world(gx: f32, gy: f32) -> W {
    B2world::<U>::new(v(gx, gy))
}

pub fn bdef(t: B2bodyType, x: f32, y: f32, a: f32) -> B2bodyDef<U> {
    let mut d = B2bodyDef::<U>::default();
    d.body_type = t;
    d.position = v(x, y);
    d.angle = a;
    d
}
pub fn body(w: &W, t: B2bodyType, x: f32, y: f32, a: f32) -> B {
    B2world::create_body(w.clone(), &bdef(t, x, y, a))
}
pub fn fdef(s: &Sh) -> B2fixtureDef<U> {
    let mut d = B2fixtureDef::<U>::default();
    d.shape = Some(s.def());
    d.density = 1.0;
    d
}
pub fn fix(b: &B, s: &Sh, density: f32) -> F {
    let mut d = fdef(s);
    d.density = density;
    B2body::create_fixture(b.clone(), &d)
}
pub fn fixu(b: &B, s: &Sh, density: f32, ud: u32) -> F {
    let mut d = fdef(s);
    d.density = density;
    d.user_data = Some(ud);
    B2body::create_fixture(b.clone(), &d)
}
pub fn step(w: &W, dt: f32) {
    w.borrow_mut().step(dt, 8, 3);
}
pub const DT: f32 = 1.0 / 60.0;

pub fn same<T: ?Sized>(a: &Rc<T>, b: &Rc<T>) -> bool {
    Rc::as_ptr(a) as *const u8 == Rc::as_ptr(b) as *const u8
}

/// Kinematic state of a body.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Bs {
    pub pos: P,
    pub ang: f64,
    pub c: P,
    pub v: P,
    pub w: f64,
    pub awake: bool,
    pub enabled: bool,
    pub m: f64,
    pub i: f64, // about the centre of mass
}
pub fn bstate(b: &B) -> Bs {
    let b = b.borrow();
    let lc = b.get_local_center();
    let m = b.get_mass() as f64;
    Bs {
        pos: pv(b.get_position()),
        ang: b.get_angle() as f64,
        c: pv(b.get_world_center()),
        v: pv(b.get_linear_velocity()),
        w: b.get_angular_velocity() as f64,
        awake: b.is_awake(),
        enabled: b.is_enabled(),
        m,
        i: if b.is_fixed_rotation() { 0.0 } else { b.get_inertia() as f64 - m * pv(lc).dot(pv(lc)) },
    }
}

/// Bit-exact hash of a body's observable state.
pub fn hash_body(h: &mut Fnv, b: &B) {
    let b = b.borrow();
    let t = b.get_transform();
    h.f(t.p.x).f(t.p.y).f(t.q.s).f(t.q.c).f(b.get_angle());
    let c = b.get_world_center();
    let l = b.get_linear_velocity();
    h.f(c.x).f(c.y).f(l.x).f(l.y).f(b.get_angular_velocity());
    h.b(b.is_awake()).b(b.is_enabled()).b(b.is_bullet()).b(b.is_fixed_rotation()).b(b.is_sleeping_allowed());
    h.u(b.get_type() as u64).f(b.get_mass()).f(b.get_inertia()).f(b.get_gravity_scale());
}

pub fn hash_world(w: &W) -> u64 {
    let mut h = Fnv::new();
    let w = w.borrow();
    h.u(w.get_body_count() as u64).u(w.get_contact_count() as u64).u(w.get_joint_count() as u64).u(w.get_proxy_count() as u64);
    for b in w.get_body_list().iter() {
        hash_body(&mut h, &b);
    }
    for c in w.get_contact_list().iter() {
        let c = c.borrow();
        let b = c.get_base();
        h.b(b.is_touching()).b(b.is_enabled()).u(b.get_child_index_a() as u64).u(b.get_child_index_b() as u64);
        let m = b.get_manifold();
        h.u(m.point_count as u64);
        for k in 0..m.point_count {
            h.f(m.points[k].normal_impulse).f(m.points[k].tangent_impulse).f(m.points[k].local_point.x).f(m.points[k].local_point.y);
        }
        h.f(m.local_normal.x).f(m.local_normal.y).f(b.get_friction()).f(b.get_restitution());
        h.u(b.get_fixture_a().borrow().get_user_data().unwrap_or(0) as u64).u(b.get_fixture_b().borrow().get_user_data().unwrap_or(0) as u64);
    }
    for j in w.get_joint_list().iter() {
        let j = j.borrow();
        let a = j.get_anchor_a();
        let b = j.get_anchor_b();
        let f = j.get_reaction_force(60.0);
        h.f(a.x).f(a.y).f(b.x).f(b.y).f(f.x).f(f.y).f(j.get_reaction_torque(60.0));
    }
    h.done()
}

pub fn finite_world(w: &W) -> Result<(), String> {
    for b in w.borrow().get_body_list().iter() {
        let s = bstate(&b);
        if !(s.pos.finite() && s.v.finite() && s.ang.is_finite() && s.w.is_finite()) {
            return Err(format!("non-finite body state {:?}", s));
        }
    }
    Ok(())
}

/// Contact identity: fixture user data and child indices, ordered.
pub type Cid = (u32, i32, u32, i32);
pub fn cid(c: &B2contact<U>) -> Cid {
    let a = (c.get_fixture_a().borrow().get_user_data().unwrap_or(0), c.get_child_index_a());
    let b = (c.get_fixture_b().borrow().get_user_data().unwrap_or(0), c.get_child_index_b());
    if a <= b {
        (a.0, a.1, b.0, b.1)
    } else {
        (b.0, b.1, a.0, a.1)
    }
}

#[derive(Clone, Debug)]
pub enum Ev {
    Begin(Cid, bool),
    End(Cid, bool),
    Pre(Cid, PreInfo),
    Post(Cid, PostInfo),
}

#[derive(Clone, Debug)]
pub struct PreInfo {
    pub points: usize,
    pub old_points: usize,
    pub touching: bool,
    pub enabled: bool,
    pub n: P,
    pub pts: [P; 2],
    pub sep: [f64; 2],
    pub a: u32,
    pub b: u32,
}

#[derive(Clone, Debug)]
pub struct PostInfo {
    pub count: i32,
    pub jn: [f64; 2],
    pub jt: [f64; 2],
    pub enabled: bool,
    pub friction: f64,
}

/// Recording contact listener; `disable` contacts are switched off in pre-solve.
#[derive(Default)]
pub struct Rec {
    pub ev: Vec<Ev>,
    pub disable: Vec<Cid>,
    pub friction: Option<f32>,
    pub restitution: Option<f32>,
    pub tangent: Option<f32>,
}

impl B2contactListener<U> for Rec {
    fn begin_contact(&mut self, c: &mut dyn B2contactDynTrait<U>) {
        let b = c.get_base();
        self.ev.push(Ev::Begin(cid(b), b.is_touching()));
    }
    fn end_contact(&mut self, c: &mut dyn B2contactDynTrait<U>) {
        let b = c.get_base();
        self.ev.push(Ev::End(cid(b), b.is_touching()));
    }
    fn pre_solve(&mut self, c: &mut dyn B2contactDynTrait<U>, old: &B2manifold) {
        let id = cid(c.get_base());
        let mut wm = B2worldManifold::default();
        c.get_base().get_world_manifold(&mut wm);
        let (en, to, pc) = (c.get_base().is_enabled(), c.get_base().is_touching(), c.get_base().get_manifold().point_count);
        let fa = c.get_base().get_fixture_a().borrow().get_user_data().unwrap_or(0);
        let fb = c.get_base().get_fixture_b().borrow().get_user_data().unwrap_or(0);
        self.ev.push(Ev::Pre(
            id,
            PreInfo {
                points: pc,
                old_points: old.point_count,
                touching: to,
                enabled: en,
                n: pv(wm.normal),
                pts: [pv(wm.points[0]), pv(wm.points[1])],
                sep: [wm.separations[0] as f64, wm.separations[1] as f64],
                a: fa,
                b: fb,
            },
        ));
        if self.disable.contains(&id) {
            c.get_base_mut().set_enabled(false);
        }
        if let Some(f) = self.friction {
            c.get_base_mut().set_friction(f);
        }
        if let Some(f) = self.restitution {
            c.get_base_mut().set_restitution(f);
        }
        if let Some(f) = self.tangent {
            c.get_base_mut().set_tangent_speed(f);
        }
    }
    fn post_solve(&mut self, c: &mut dyn B2contactDynTrait<U>, imp: &B2contactImpulse) {
        let b = c.get_base();
        self.ev.push(Ev::Post(
            cid(b),
            PostInfo {
                count: imp.count,
                jn: [imp.normal_impulses[0] as f64, imp.normal_impulses[1] as f64],
                jt: [imp.tangent_impulses[0] as f64, imp.tangent_impulses[1] as f64],
                enabled: b.is_enabled(),
                friction: b.get_friction() as f64,
            },
        ));
    }
}

pub fn listen(w: &W) -> Rc<RefCell<Rec>> {
    let r = Rc::new(RefCell::new(Rec::default()));
    w.borrow_mut().set_contact_listener(r.clone());
    r
}

/// Contacts of the world as (id, touching, enabled).
pub fn contacts(w: &W) -> Vec<(Cid, bool, bool)> {
    w.borrow().get_contact_list().iter().map(|c| {
        let c = c.borrow();
        let b = c.get_base();
        (cid(b), b.is_touching(), b.is_enabled())
    }).collect()
}

/// Fat boxes: (fixture user data, child, box) for every proxy. The world query and the
/// broad-phase query traverse the same tree, so their reports correspond one to one.
pub fn aabb(lx: f32, ly: f32, ux: f32, uy: f32) -> B2AABB {
    B2AABB { lower_bound: v(lx, ly), upper_bound: v(ux, uy) }
}
pub const BIG: f32 = 1.0e8;
