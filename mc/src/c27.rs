//! C27: debug drawing shows exactly the world.
use crate::draw::*;
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::jk::*;
use crate::kit::*;
use crate::wsim::fat_boxes;
use box2d_rs::b2_body::*;
use box2d_rs::b2_draw::*;
use box2d_rs::b2_joint::*;
use std::cell::RefCell;
use std::rc::Rc;

const SHAPE: u16 = 1;
const JOINT: u16 = 2;
const BOX: u16 = 4;
const PAIR: u16 = 8;
const COM: u16 = 16;

fn c3(r: f64, g: f64, b: f64) -> [f64; 4] {
    [r, g, b, 1.0]
}

/// Shape descriptions by fixture user data.
struct Sc {
    w: W,
    dr: Rc<RefCell<Dr>>,
    shapes: Vec<Sh>, // fixture user data = index + 1
    bodies: Vec<B>,
    joints: Vec<J>,
}

impl Sc {
    fn new(gy: f32) -> Sc {
        let w = world(0.0, gy);
        let dr = Rc::new(RefCell::new(Dr::default()));
        w.borrow_mut().set_debug_draw(dr.clone());
        Sc { w, dr, shapes: vec![], bodies: vec![], joints: vec![] }
    }
    fn body(&mut self, t: B2bodyType, x: f32, y: f32, a: f32) -> B {
        let b = body(&self.w, t, x, y, a);
        self.bodies.push(b.clone());
        b
    }
    fn fix(&mut self, b: &B, s: Sh, density: f32) -> F {
        self.shapes.push(s.clone());
        fixu(b, &s, density, self.shapes.len() as u32)
    }
    fn draw(&self, flags: u16) -> Vec<Fig> {
        self.dr.borrow_mut().base.set_flags(B2drawShapeFlags::from_bits_truncate(flags));
        self.dr.borrow_mut().fig.clear();
        self.w.borrow().debug_draw();
        std::mem::take(&mut self.dr.borrow_mut().fig)
    }
    fn want_shapes(&self) -> Vec<Fig> {
        let mut out = vec![];
        for b in &self.bodies {
            let b = b.borrow();
            let x = X::new(pv(b.get_position()), b.get_angle() as f64);
            let c = if b.get_type() == DY && b.get_mass() == 0.0 {
                c3(1.0, 0.0, 0.0)
            } else if !b.is_enabled() {
                c3(0.5, 0.5, 0.3)
            } else if b.get_type() == ST {
                c3(0.5, 0.9, 0.5)
            } else if b.get_type() == KI {
                c3(0.5, 0.5, 0.9)
            } else if !b.is_awake() {
                c3(0.6, 0.6, 0.6)
            } else {
                c3(0.9, 0.7, 0.7)
            };
            for f in b.get_fixture_list().iter() {
                let ud = f.borrow().get_user_data().unwrap_or(0) as usize;
                let s = &self.shapes[ud - 1];
                match s {
                    Sh::Circle(r, cx, cy) => out.push(Fig::SolidCircle(x.at(p(*cx as f64, *cy as f64)), *r as f64, x.rot(p(1.0, 0.0)), c)),
                    s if s.is_poly() => out.push(Fig::SolidPoly(s.core(0).v.iter().map(|q| x.at(*q)).collect(), c)),
                    s => {
                        for k in 0..s.children() {
                            let q = s.core(k);
                            let (a, b) = (x.at(q.v[0]), x.at(q.v[1]));
                            out.push(Fig::Seg(a, b, c));
                            if let Sh::Edge(..) = s {
                                out.push(Fig::Point(a, 4.0, c));
                                out.push(Fig::Point(b, 4.0, c));
                            }
                        }
                    }
                }
            }
        }
        out
    }
    fn want_joints(&self) -> Vec<Fig> {
        let mut out = vec![];
        let (grey, green, red, blue, dark) = (c3(0.7, 0.7, 0.7), c3(0.3, 0.9, 0.3), c3(0.9, 0.3, 0.3), c3(0.3, 0.3, 0.9), c3(0.4, 0.4, 0.4));
        let plain = c3(0.5, 0.8, 0.8);
        for j in &self.joints {
            let j = j.borrow();
            let (a, b) = (pv(j.get_anchor_a()), pv(j.get_anchor_b()));
            let (ba, bb) = (j.get_base().get_body_a(), j.get_base().get_body_b());
            let (xa, xb) = (pv(ba.borrow().get_position()), pv(bb.borrow().get_position()));
            let (aa, ab) = (ba.borrow().get_angle() as f64, bb.borrow().get_angle() as f64);
            let slider = |out: &mut Vec<Fig>, axis: P, lim: Option<(f64, f64)>| {
                let ax = X::new(p(0.0, 0.0), aa).rot(axis);
                let perp = p(-ax.y, ax.x);
                out.push(Fig::Seg(a, b, dark));
                match lim {
                    Some((lo, hi)) => {
                        let (l, h) = (a + ax * lo, a + ax * hi);
                        out.push(Fig::Seg(l, h, grey));
                        out.push(Fig::Seg(l - perp * 0.5, l + perp * 0.5, green));
                        out.push(Fig::Seg(h - perp * 0.5, h + perp * 0.5, red));
                    }
                    None => out.push(Fig::Seg(a - ax, a + ax, grey)),
                }
                out.push(Fig::Point(a, 5.0, grey));
                out.push(Fig::Point(b, 5.0, blue));
            };
            match j.as_derived() {
                JointAsDerived::EDistanceJoint(d) => {
                    let ax = (b - a).unit();
                    out.push(Fig::Seg(a, b, dark));
                    out.push(Fig::Point(a + ax * d.get_length() as f64, 8.0, grey));
                    let (lo, hi) = (d.get_min_length(), d.get_max_length());
                    if lo != hi {
                        if lo as f64 > 0.005 {
                            out.push(Fig::Point(a + ax * lo as f64, 4.0, green));
                        }
                        if hi < f32::MAX {
                            out.push(Fig::Point(a + ax * hi as f64, 4.0, red));
                        }
                    }
                }
                JointAsDerived::EPulleyJoint(d) => {
                    let (s, t) = (pv(d.get_ground_anchor_a()), pv(d.get_ground_anchor_b()));
                    out.push(Fig::Seg(s, a, plain));
                    out.push(Fig::Seg(t, b, plain));
                    out.push(Fig::Seg(s, t, plain));
                }
                JointAsDerived::EMouseJoint(_) => {
                    out.push(Fig::Point(a, 4.0, c3(0.0, 1.0, 0.0)));
                    out.push(Fig::Point(b, 4.0, c3(0.0, 1.0, 0.0)));
                    out.push(Fig::Seg(a, b, c3(0.8, 0.8, 0.8)));
                }
                JointAsDerived::ERevoluteJoint(d) => {
                    let arm = |t: f64| b + p(t.cos(), t.sin()) * 0.5;
                    out.push(Fig::Point(a, 5.0, blue));
                    out.push(Fig::Point(b, 5.0, dark));
                    out.push(Fig::Circle(b, 0.5, grey));
                    out.push(Fig::Seg(b, arm(ab - aa - d.get_reference_angle() as f64), grey));
                    if d.is_limit_enabled() {
                        out.push(Fig::Seg(b, arm(d.get_lower_limit() as f64), green));
                        out.push(Fig::Seg(b, arm(d.get_upper_limit() as f64), red));
                    }
                    out.push(Fig::Seg(xa, a, plain));
                    out.push(Fig::Seg(a, b, plain));
                    out.push(Fig::Seg(xb, b, plain));
                }
                JointAsDerived::EPrismaticJoint(d) => {
                    slider(&mut out, pv(d.get_local_axis_a()), if d.is_limit_enabled() { Some((d.get_lower_limit() as f64, d.get_upper_limit() as f64)) } else { None })
                }
                JointAsDerived::EWheelJoint(d) => {
                    slider(&mut out, pv(d.get_local_axis_a()), if d.is_limit_enabled() { Some((d.get_lower_limit() as f64, d.get_upper_limit() as f64)) } else { None })
                }
                _ => {
                    out.push(Fig::Seg(xa, a, plain));
                    out.push(Fig::Seg(a, b, plain));
                    out.push(Fig::Seg(xb, b, plain));
                }
            }
        }
        out
    }
    fn want_boxes(&self) -> Vec<Fig> {
        fat_boxes(&self.w)
            .iter()
            .map(|(_, b)| {
                let (lx, ly, ux, uy) = (b[0] as f64, b[1] as f64, b[2] as f64, b[3] as f64);
                Fig::Poly(vec![p(lx, ly), p(ux, ly), p(ux, uy), p(lx, uy)], c3(0.9, 0.3, 0.9))
            })
            .collect()
    }
    fn want_pairs(&self) -> Vec<Fig> {
        self.w
            .borrow()
            .get_contact_list()
            .iter()
            .map(|c| {
                let c = c.borrow();
                let b = c.get_base();
                let mid = |f: F, k: i32| {
                    let q = f.borrow().get_aabb(k);
                    (pv(q.lower_bound) + pv(q.upper_bound)) * 0.5
                };
                Fig::Seg(mid(b.get_fixture_a(), b.get_child_index_a()), mid(b.get_fixture_b(), b.get_child_index_b()), c3(0.3, 0.9, 0.9))
            })
            .collect()
    }
    fn want_centres(&self) -> Vec<Fig> {
        self.bodies
            .iter()
            .map(|b| {
                let b = b.borrow();
                let x = X::new(pv(b.get_position()), b.get_angle() as f64);
                Fig::Xf(x.at(pv(b.get_local_center())), x.rot(p(1.0, 0.0)))
            })
            .collect()
    }
    /// Every flag combination in `masks` draws exactly the covered figures; the world is unchanged.
    fn check(&self, masks: &[u16], cx: &mut Ctx) -> R {
        let before = hash_world(&self.w);
        // boxes cover the shapes of enabled bodies, one per child
        let mut children = 0;
        for b in &self.bodies {
            if b.borrow().is_enabled() {
                for f in b.borrow().get_fixture_list().iter() {
                    children += self.shapes[f.borrow().get_user_data().unwrap() as usize - 1].children();
                }
            }
        }
        let parts = [
            (SHAPE, self.want_shapes()),
            (JOINT, self.want_joints()),
            (BOX, self.want_boxes()),
            (PAIR, self.want_pairs()),
            (COM, self.want_centres()),
        ];
        ensure!(parts[2].1.len() == children, "{} stored boxes for {} shape children", parts[2].1.len(), children);
        for m in masks {
            let got = self.draw(*m);
            let want: Vec<&Fig> = parts.iter().filter(|q| q.0 & *m != 0).flat_map(|q| q.1.iter()).collect();
            match_figs(&got, &want).map_err(|e| format!("flags {:05b}: {}", m, e))?;
            cx.eval(want.len() as u64 + 1);
        }
        ensure!(hash_world(&self.w) == before, "drawing changed the world");
        Ok(())
    }
}

fn near(a: P, b: P) -> bool {
    let s = 1.0 + a.len();
    (a - b).len() <= 2e-5 * s
}
fn cnear(a: &[f64; 4], b: &[f64; 4]) -> bool {
    (0..4).all(|k| (a[k] - b[k]).abs() < 1e-3)
}
fn ring(a: &[P], b: &[P]) -> bool {
    let n = a.len();
    n == b.len() && (0..n).any(|s| (0..n).all(|k| near(a[k], b[(k + s) % n])) || (0..n).all(|k| near(a[k], b[(s + n - k) % n])))
}
fn fsame(g: &Fig, w: &Fig) -> bool {
    match (g, w) {
        (Fig::Poly(a, c), Fig::Poly(b, d)) | (Fig::SolidPoly(a, c), Fig::SolidPoly(b, d)) => cnear(c, d) && ring(a, b),
        (Fig::Circle(a, r, c), Fig::Circle(b, s, d)) => near(*a, *b) && (r - s).abs() < 1e-5 && cnear(c, d),
        (Fig::SolidCircle(a, r, x, c), Fig::SolidCircle(b, s, y, d)) => near(*a, *b) && (r - s).abs() < 1e-5 && near(*x, *y) && cnear(c, d),
        (Fig::Seg(a, b, c), Fig::Seg(e, f, d)) => cnear(c, d) && ((near(*a, *e) && near(*b, *f)) || (near(*a, *f) && near(*b, *e))),
        (Fig::Xf(a, b), Fig::Xf(c, d)) => near(*a, *c) && near(*b, *d),
        (Fig::Point(a, s, c), Fig::Point(b, t, d)) => near(*a, *b) && s == t && cnear(c, d),
        _ => false,
    }
}
fn match_figs(got: &[Fig], want: &[&Fig]) -> R {
    let mut used = vec![false; want.len()];
    for (gi, g) in got.iter().enumerate() {
        // drawn in list order, the match is usually close to the position
        let n = want.len();
        let hit = (0..n).map(|k| (gi + k) % n.max(1)).find(|k| !used[*k] && fsame(g, want[*k]));
        match hit {
            Some(k) => used[k] = true,
            None => return Err(format!("drew {:?}, which nothing calls for", g)),
        }
    }
    match used.iter().position(|u| !u) {
        Some(k) => Err(format!("did not draw {:?}", want[k])),
        None => Ok(()),
    }
}

const ALL: [u16; 32] = {
    let mut a = [0u16; 32];
    let mut k = 0;
    while k < 32 {
        a[k] = k as u16;
        k += 1;
    }
    a
};

fn shapes() -> Vec<Sh> {
    vec![
        Sh::Circle(0.5, 0.0, 0.0),
        Sh::Circle(0.25, 0.75, -0.5),
        Sh::Box(0.5, 0.25),
        Sh::BoxAt(0.5, 0.25, 0.25, 0.5, 0.5),
        Sh::Poly(vec![(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)]),
        Sh::Poly((0..8).map(|k| { let t = k as f32 * 0.785398; (t.cos(), t.sin()) }).collect()),
        Sh::Edge((-1.0, 0.0), (1.0, 0.5)),
        Sh::EdgeOne([(-2.0, 0.0), (-1.0, 0.0), (1.0, 0.25), (2.0, 0.0)]),
        Sh::Chain(vec![(-1.0, 0.0), (0.0, 0.5), (1.0, 0.0), (2.0, 0.25)], (-2.0, 0.0), (3.0, 0.0)),
        Sh::Chain(vec![(-1.0, 0.0), (1.0, 0.25)], (-2.0, 0.0), (3.0, 0.0)),
        Sh::Loop(vec![(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)]),
        Sh::Loop(vec![(-1.0, -1.0), (1.0, -1.0), (0.0, 1.0)]),
    ]
}

fn single(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let n = shapes().len();
    let s1 = d.d(n);
    let s2 = d.d(n + 1);
    let place = d.p(&[(0.0f32, 0.0f32, 0.0f32), (3.0, -2.0, 0.5), (-40.0, 25.0, 2.0), (0.5, 0.25, -7.5)]);
    let ty = d.p(&[ST, KI, DY]);
    let density = d.p(&[0.0f32, 1.0]);
    let state = d.d(4);
    let moved = d.d(3);
    let msg = if say {
        format!(
            "{:?} body with {:?} and {} at {:?}, density {}, {}, then {}",
            ty,
            shapes()[s1],
            if s2 < n { format!("{:?}", shapes()[s2]) } else { "nothing else".into() },
            place,
            density,
            ["as created", "disabled", "put to sleep", "disabled and enabled again"][state],
            ["nothing", "moved", "moving for three steps"][moved]
        )
    } else {
        String::new()
    };
    (msg, move |cx| {
        let mut s = Sc::new(0.0);
        let b = s.body(ty, place.0, place.1, place.2);
        s.fix(&b, shapes()[s1].clone(), density);
        if s2 < n {
            s.fix(&b, shapes()[s2].clone(), density);
        }
        match state {
            1 => B2body::set_enabled(b.clone(), false),
            2 => b.borrow_mut().set_awake(false),
            3 => {
                B2body::set_enabled(b.clone(), false);
                s.check(&[31], cx)?;
                B2body::set_enabled(b.clone(), true);
            }
            _ => {}
        }
        match moved {
            1 => b.borrow_mut().set_transform(v(1.0, 2.0), -0.75),
            2 => {
                if state != 2 {
                    b.borrow_mut().set_linear_velocity(v(3.0, -1.0));
                    b.borrow_mut().set_angular_velocity(2.0);
                }
                for _ in 0..3 {
                    step(&s.w, DT);
                    cx.step(1);
                }
            }
            _ => {}
        }
        s.check(&ALL, cx)?;
        cx.state(hash_world(&s.w));
        Ok(())
    })
}

const JCUR: usize = 10;

fn joint_draw(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let kind = d.d(10);
    let tune = d.d(7);
    let pa = d.p(&[(0.0f32, 0.0f32, 0.0f32), (-1.0, 2.0, 0.75), (20.0, -3.0, -2.5)]);
    let pb = d.p(&[(2.0f32, 0.0f32, 0.0f32), (1.0, 1.5, -0.5), (-3.0, 4.0, 3.0)]);
    let ta = d.p(&[ST, DY]);
    let run = d.d(4);
    let other = d.d(JCUR);
    let msg = if say { format!("{} joint (tuning {}) between {:?} at {:?} and a body at {:?}, {} steps, beside joint kind {}", KNAMES[kind], tune, ta, pa, pb, run, KNAMES[other]) } else { String::new() };
    (msg, move |cx| {
        let mut s = Sc::new(-10.0);
        let a = s.body(ta, pa.0, pa.1, pa.2);
        s.fix(&a, Sh::Box(0.5, 0.25), 1.0);
        let b = s.body(DY, pa.0 + pb.0, pa.1 + pb.1, pb.2);
        s.fix(&b, Sh::Circle(0.5, 0.25, 0.0), 1.0);
        let c = s.body(DY, pa.0 - 5.0, pa.1 + 3.0, 1.0);
        s.fix(&c, Sh::Box(0.5, 0.25), 1.0);
        if kind == GEAR {
            let g = s.body(ST, pa.0, pa.1 + 1.0, 0.0);
            let j1 = mk(&s.w, REV, &g, &b, false, 1);
            let j2 = mk(&s.w, PRIS, &g, &c, false, 2);
            let j3 = gear(&s.w, &j1, &j2, &b, &c, 1.5, false, 3);
            s.joints = vec![j1, j2, j3];
        } else {
            let j = mk(&s.w, kind, &a, &b, false, 1);
            s.joints.push(j);
        }
        if other < GEAR && other != kind {
            let j = mk(&s.w, other, &b, &c, true, 5);
            s.joints.push(j);
        }
        s.check(&[JOINT], cx)?;
        {
            let mut j = s.joints[0].borrow_mut();
            match j.as_derived_mut() {
                JointAsDerivedMut::EDistanceJoint(d) => {
                    let l = d.get_length();
                    match tune {
                        0 => {}
                        1 => {
                            d.set_min_length(0.5 * l);
                        }
                        2 => {
                            d.set_max_length(1.5 * l);
                        }
                        3 => {
                            d.set_min_length(0.0);
                        }
                        4 => {
                            d.set_max_length(f32::MAX);
                        }
                        5 => {
                            d.set_min_length(0.5 * l);
                            d.set_max_length(1.5 * l);
                        }
                        _ => {
                            d.set_length(1.25 * l);
                        }
                    }
                }
                JointAsDerivedMut::ERevoluteJoint(d) => {
                    d.enable_limit(tune & 1 != 0);
                    match tune >> 1 {
                        1 => d.set_limits(-0.5, 1.25),
                        2 => d.set_limits(0.0, 0.25),
                        3 => d.set_limits(-2.0, -1.0),
                        _ => {}
                    }
                }
                JointAsDerivedMut::EPrismaticJoint(d) => {
                    d.enable_limit(tune & 1 != 0);
                    match tune >> 1 {
                        1 => d.set_limits(-0.5, 1.25),
                        2 => d.set_limits(0.0, 0.25),
                        3 => d.set_limits(-2.0, -1.0),
                        _ => {}
                    }
                }
                JointAsDerivedMut::EWheelJoint(d) => {
                    d.enable_limit(tune & 1 != 0);
                    match tune >> 1 {
                        1 => d.set_limits(-0.5, 1.25),
                        2 => d.set_limits(0.0, 0.25),
                        3 => d.set_limits(-2.0, -1.0),
                        _ => {}
                    }
                }
                JointAsDerivedMut::EMouseJoint(d) => d.set_target(v(tune as f32, 1.0)),
                _ => {}
            }
        }
        s.check(&[JOINT, 31], cx)?;
        for _ in 0..run {
            step(&s.w, DT);
            cx.step(1);
            s.check(&[JOINT, 29], cx)?;
        }
        if tune == 6 {
            s.w.borrow().shift_origin(v(3.0, 1.0));
            s.check(&[31], cx)?;
        }
        // a destroyed joint is no longer drawn
        let j = s.joints.pop().unwrap();
        s.w.borrow_mut().destroy_joint(j);
        s.check(&[JOINT, 31], cx)?;
        cx.state(hash_world(&s.w));
        Ok(())
    })
}

const OPS: usize = 26;
const ON: [&str; OPS] = [
    "step", "three steps", "move box", "turn pair", "throw box", "drop fixture of pair", "add circle to box", "add one-sided edge to ground", "add loop to kinematic", "destroy box", "destroy pair", "create ball",
    "disable pair", "enable disabled", "box static", "box kinematic", "box dynamic", "sleep pair", "wake pair", "shift origin", "join box and pair", "destroy a joint", "turn off gravity and settle", "ball massless",
    "speed up kinematic", "destroy ground fixture",
];

fn hist_scene() -> Sc {
    let mut s = Sc::new(-10.0);
    let g = s.body(ST, 0.0, 0.0, 0.0);
    s.fix(&g, Sh::Chain(vec![(10.0, 0.0), (0.0, 0.0), (-10.0, 0.0)], (12.0, 0.0), (-12.0, 0.0)), 0.0);
    let bx = s.body(DY, -2.0, 0.6, 0.25);
    s.fix(&bx, Sh::Box(0.5, 0.5), 1.0);
    let pr = s.body(DY, 2.0, 1.0, -0.5);
    s.fix(&pr, Sh::Circle(0.5, 0.0, 0.25), 1.0);
    s.fix(&pr, Sh::Poly(vec![(0.0, -0.5), (1.0, -0.5), (0.5, 0.5)]), 2.0);
    let k = s.body(KI, 0.0, 2.0, 0.0);
    s.fix(&k, Sh::Edge((-1.0, 0.0), (1.0, 0.0)), 0.0);
    let dis = s.body(DY, 2.0, 0.75, 0.0);
    s.fix(&dis, Sh::Box(0.25, 0.25), 1.0);
    B2body::set_enabled(dis.clone(), false);
    let j = mk(&s.w, REV, &k, &bx, true, 1);
    s.joints.push(j);
    s
}

fn history(i: u64, len: usize, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let ops = decode_seq(i, OPS, len);
    let msg = if say { ops.iter().map(|o| ON[*o]).collect::<Vec<_>>().join(", ") } else { String::new() };
    (msg, move |cx| {
        let mut s = hist_scene();
        let (g, bx, pr, k, dis) = (s.bodies[0].clone(), s.bodies[1].clone(), s.bodies[2].clone(), s.bodies[3].clone(), s.bodies[4].clone());
        let (mut has_bx, mut has_pr) = (true, true);
        let mut ball: Option<B> = None;
        if ops.is_empty() {
            s.check(&ALL, cx)?;
        }
        for (n, o) in ops.iter().enumerate() {
            let drop_body = |s: &mut Sc, b: &B| {
                s.joints.retain(|j| {
                    let j = j.borrow();
                    !same(&j.get_base().get_body_a(), b) && !same(&j.get_base().get_body_b(), b)
                });
                s.bodies.retain(|q| !same(q, b));
                s.w.borrow_mut().destroy_body(b.clone());
            };
            match o {
                0 => step(&s.w, DT),
                1 => {
                    for _ in 0..3 {
                        step(&s.w, DT);
                    }
                }
                2 if has_bx => bx.borrow_mut().set_transform(v(-1.0, 3.0), 1.0),
                3 if has_pr => {
                    let q = pr.borrow().get_position();
                    let a = pr.borrow().get_angle();
                    pr.borrow_mut().set_transform(q, a + 2.5);
                }
                4 if has_bx => {
                    bx.borrow_mut().set_linear_velocity(v(8.0, 4.0));
                    bx.borrow_mut().set_angular_velocity(-5.0);
                    step(&s.w, DT);
                }
                5 if has_pr => {
                    let f = pr.borrow().get_fixture_list().iter().next();
                    if let Some(f) = f {
                        B2body::destroy_fixture(pr.clone(), f);
                    }
                }
                6 if has_bx => {
                    s.fix(&bx, Sh::Circle(0.25, 0.5, 0.5), 1.0);
                }
                7 => {
                    s.fix(&g, Sh::EdgeOne([(4.0, 1.0), (3.0, 1.0), (1.0, 0.5), (0.0, 0.5)]), 0.0);
                }
                8 => {
                    s.fix(&k, Sh::Loop(vec![(-1.0, -1.0), (1.0, -1.0), (0.0, 1.0)]), 0.0);
                }
                9 if has_bx => {
                    drop_body(&mut s, &bx);
                    has_bx = false;
                }
                10 if has_pr => {
                    drop_body(&mut s, &pr);
                    has_pr = false;
                }
                11 => {
                    let b = s.body(DY, -2.0, 1.25, 0.0);
                    s.fix(&b, Sh::Circle(0.5, 0.0, 0.0), 1.0);
                    ball = Some(b);
                }
                12 if has_pr => B2body::set_enabled(pr.clone(), false),
                13 => B2body::set_enabled(dis.clone(), true),
                14 if has_bx => B2body::set_type(bx.clone(), ST),
                15 if has_bx => B2body::set_type(bx.clone(), KI),
                16 if has_bx => B2body::set_type(bx.clone(), DY),
                17 if has_pr => pr.borrow_mut().set_awake(false),
                18 if has_pr => pr.borrow_mut().set_awake(true),
                19 => s.w.borrow().shift_origin(v(-7.0, 2.5)),
                20 if has_bx && has_pr => {
                    let j = mk(&s.w, DIST, &bx, &pr, true, 2);
                    s.joints.push(j);
                }
                21 => {
                    if !s.joints.is_empty() {
                        let j = s.joints.remove(0);
                        s.w.borrow_mut().destroy_joint(j);
                    }
                }
                22 => {
                    s.w.borrow_mut().set_gravity(v(0.0, 0.0));
                    for b in &s.bodies {
                        b.borrow_mut().set_linear_velocity(v(0.0, 0.0));
                        b.borrow_mut().set_angular_velocity(0.0);
                    }
                    for _ in 0..45 {
                        step(&s.w, DT);
                    }
                }
                23 => {
                    let b = s.body(DY, 5.0, 5.0, 0.0);
                    s.fix(&b, Sh::Circle(0.5, 0.0, 0.0), 0.0);
                    s.fix(&b, Sh::Edge((0.0, 0.0), (1.0, 1.0)), 1.0);
                }
                24 => {
                    k.borrow_mut().set_linear_velocity(v(-6.0, -2.0));
                    k.borrow_mut().set_angular_velocity(1.0);
                    step(&s.w, DT);
                }
                25 => {
                    let f = g.borrow().get_fixture_list().iter().next();
                    if let Some(f) = f {
                        B2body::destroy_fixture(g.clone(), f);
                    }
                }
                _ => {
                    // not applicable any more
                    let _ = &ball;
                }
            }
            cx.step(1);
            if n + 1 == ops.len() {
                s.check(&ALL, cx)?;
            }
        }
        cx.state(hash_world(&s.w));
        Ok(())
    })
}

/// Flag words as sets: set, append, clear in any order.
fn flags(ops: &[usize], cx: &mut Ctx) -> R {
    let mut d = B2draw::default();
    let mut m = 0u16;
    ensure!(d.get_flags().bits() == 0, "flags set on a new drawer");
    let bits = |k: usize| -> u16 { if k < 5 { 1 << k } else if k == 5 { 31 } else { 0b10010 } };
    let s = hist_scene();
    for o in ops {
        let b = bits(o % 7);
        let f = B2drawShapeFlags::from_bits_truncate(b);
        match o / 7 {
            0 => {
                d.set_flags(f);
                m = b;
            }
            1 => {
                d.append_flags(f);
                m |= b;
            }
            _ => {
                d.clear_flags(f);
                m &= !b;
            }
        }
        cx.step(1);
        ensure!(d.get_flags().bits() == m, "flags {:05b} expected {:05b}", d.get_flags().bits(), m);
        cx.eval(1);
    }
    s.dr.borrow_mut().base = d;
    s.dr.borrow_mut().fig.clear();
    s.w.borrow().debug_draw();
    let got = std::mem::take(&mut s.dr.borrow_mut().fig);
    let mut want = vec![];
    for (b, f) in [(SHAPE, s.want_shapes()), (JOINT, s.want_joints()), (BOX, s.want_boxes()), (PAIR, s.want_pairs()), (COM, s.want_centres())] {
        if b & m != 0 {
            want.extend(f);
        }
    }
    match_figs(&got, &want.iter().collect::<Vec<_>>())?;
    cx.eval(1);
    let mut h = Fnv::new();
    h.u(m as u64);
    cx.state(h.done());
    Ok(())
}

/// Replacing or omitting the drawer.
fn drawer(i: u64, cx: &mut Ctx) -> R {
    let s = hist_scene();
    let (m1, m2) = ((i % 32) as u16, (i / 32) as u16);
    // a world without a drawer ignores the call
    let w = world(0.0, 0.0);
    fix(&body(&w, DY, 0.0, 0.0, 0.0), &Sh::Box(1.0, 1.0), 1.0);
    ensure!(!panics(|| w.borrow().debug_draw()), "drawing without a drawer fails");
    s.check(&[m1], cx)?;
    let other = Rc::new(RefCell::new(Dr::default()));
    other.borrow_mut().base.set_flags(B2drawShapeFlags::from_bits_truncate(m2));
    s.w.borrow_mut().set_debug_draw(other.clone());
    s.dr.borrow_mut().fig.clear();
    s.w.borrow().debug_draw();
    ensure!(s.dr.borrow().fig.is_empty(), "the replaced drawer is still used");
    let mut want = vec![];
    for (b, f) in [(SHAPE, s.want_shapes()), (JOINT, s.want_joints()), (BOX, s.want_boxes()), (PAIR, s.want_pairs()), (COM, s.want_centres())] {
        if b & m2 != 0 {
            want.extend(f);
        }
    }
    match_figs(&other.borrow().fig, &want.iter().collect::<Vec<_>>())?;
    cx.eval(2);
    cx.step(2);
    Ok(())
}

pub fn check() -> Check {
    let t = thorough();
    let len = if t { 5 } else { 4 };
    let n = shapes().len() as u64;
    let mut phases = vec![];
    phases.push(phase("one body", n * (n + 1) * 4 * 3 * 2 * 4 * 3, |i| single(i, true).0, |i, cx| single(i, false).1(cx)));
    phases.push(phase("joints", 10 * 7 * 3 * 3 * 2 * 4 * JCUR as u64, |i| joint_draw(i, true).0, |i, cx| joint_draw(i, false).1(cx)));
    phases.push(phase("histories", seq_count(OPS, len), move |i| history(i, len, true).0, move |i, cx| history(i, len, false).1(cx)));
    let fl = if t { 4 } else { 3 };
    phases.push(phase(
        "flags",
        seq_count(21, fl),
        move |i| format!("set 0-6, append 7-13, clear 14-20: {:?}", decode_seq(i, 21, fl)),
        move |i, cx| flags(&decode_seq(i, 21, fl), cx),
    ));
    phases.push(phase("drawers", 1024, |i| format!("first drawer flags {:05b}, second {:05b}", i % 32, i / 32), drawer));
    phases.push(phase(
        "colours",
        seq_count(4, 4),
        |i| format!("components {:?}", decode_seq(i, 4, 4)),
        |i, cx| {
            let q: Vec<f32> = decode_seq(i, 4, 4).iter().map(|k| [0.0f32, 0.25, 0.6, 1.0][*k as usize]).collect();
            let is = |c: B2color, w: [f32; 4]| [c.r, c.g, c.b, c.a] == w;
            let all = [q[0], q[1], q[2], q[3]];
            let mut c = B2color::new(q[0], q[1], q[2]);
            ensure!(is(c, [q[0], q[1], q[2], 1.0]), "opaque colour {:?}", c);
            ensure!(is(B2color::new_with_alpha(q[0], q[1], q[2], q[3]), all), "colour with alpha");
            c.set_with_alpha(q[3], q[2], q[1], q[0]);
            ensure!(is(c, [q[3], q[2], q[1], q[0]]), "colour set with alpha {:?}", c);
            c.set(q[1], q[0], q[3]);
            ensure!(is(c, [q[1], q[0], q[3], q[0]]), "colour set {:?}", c);
            cx.step(4);
            cx.eval(4);
            cx.state(i);
            Ok(())
        },
    ));
    Check {
        id: "C27",
        bounds: format!(
            "one body with every ordered choice of one or two of {} shapes, 3 types, 2 densities, 4 states, 4 placements, 3 motions, all 32 flag words; every joint kind with 7 tunings beside every other kind, 9 placements, up to 3 steps; all sequences of {} of {} operations on a five-body scene with all 32 flag words; all sequences of {} flag operations; all pairs of flag words over two drawers",
            n, len, OPS, fl
        ),
        assumptions: vec![
            "figures are compared as a multiset: kind, placement, size, colour; the order of drawing and the direction of a segment or ring are free".into(),
            "stored boxes and fixture boxes are read from the public query interface".into(),
        ],
        phases,
    }
}
