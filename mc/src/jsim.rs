//! Joint reference model: what each joint kind promises, written as rows of a linear
//! velocity relation with a law per row, plus position errors. Used by C18, C19 and C20.
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::jk::*;
use crate::kit::*;
use box2d_rs::b2_common::*;
use box2d_rs::b2_joint::*;
use box2d_rs::joints::b2_distance_joint::*;
use box2d_rs::joints::b2_friction_joint::*;
use box2d_rs::joints::b2_motor_joint::*;
use box2d_rs::joints::b2_mouse_joint::*;
use box2d_rs::joints::b2_prismatic_joint::*;
use box2d_rs::joints::b2_pulley_joint::*;
use box2d_rs::joints::b2_revolute_joint::*;
use box2d_rs::joints::b2_weld_joint::*;
use box2d_rs::joints::b2_wheel_joint::*;

pub fn r32(x: f64) -> f64 {
    x as f32 as f64
}
pub fn rp(q: P) -> P {
    p(r32(q.x), r32(q.y))
}
pub const BIG: f64 = 1e30;

/// A joint between two bodies: kind and parameters, in f64 copies of the f32 values used.
#[derive(Clone, Debug)]
pub struct Jt {
    pub kind: usize,
    pub la: P,
    pub lb: P,
    pub ax: P,
    pub rf: f64,
    pub off: P,
    pub ga: P,
    pub gb: P,
    pub ratio: f64,
    pub len_a: f64,
    pub len_b: f64,
    pub len: f64,
    pub limit: bool,
    pub lo: f64,
    pub hi: f64,
    pub motor: bool,
    pub speed: f64,
    pub maxf: f64,
    pub maxt: f64,
    pub k: f64,
    pub d: f64,
    pub factor: f64,
    pub target: P,
}
pub fn jt(kind: usize) -> Jt {
    Jt {
        kind,
        la: p(0.0, 0.0),
        lb: p(0.0, 0.0),
        ax: p(1.0, 0.0),
        rf: 0.0,
        off: p(0.0, 0.0),
        ga: p(0.0, 0.0),
        gb: p(0.0, 0.0),
        ratio: 1.0,
        len_a: 0.0,
        len_b: 0.0,
        len: 1.0,
        limit: false,
        lo: 0.0,
        hi: 0.0,
        motor: false,
        speed: 0.0,
        maxf: 0.0,
        maxt: 0.0,
        k: 0.0,
        d: 0.0,
        factor: 0.3,
        target: p(0.0, 0.0),
    }
}

/// Parameter sets of a kind. For distances, len/lo/hi are relative to the placed length.
pub fn specs(kind: usize) -> Vec<Jt> {
    let z = jt(kind);
    let lim = |lo: f64, hi: f64| Jt { limit: true, lo: r32(lo), hi: r32(hi), ..z.clone() };
    let mot = |s: f64, m: f64| Jt { motor: true, speed: r32(s), maxf: r32(m), maxt: r32(m), ..z.clone() };
    let spr = |k: f64, d: f64| Jt { k: r32(k), d: r32(d), ..z.clone() };
    match kind {
        DIST => vec![
            z.clone(),
            Jt { k: 20.0, ..z.clone() },
            lim(-0.4, 0.4),
            lim(0.2, 0.9),
            lim(-0.9, -0.2),
            Jt { k: 30.0, d: 2.0, ..lim(-BIG, BIG) },
            Jt { k: 30.0, d: 0.0, len: -0.3, ..lim(-BIG, BIG) },
            Jt { k: 60.0, d: 4.0, len: 0.4, ..lim(-0.02, 0.02) },
            Jt { k: 30.0, d: 2.0, len: 0.25, ..lim(-0.25, 0.01) },
            Jt { k: 8.0, d: 0.5, len: -0.25, ..lim(-0.01, 0.25) },
        ],
        FRIC => vec![
            Jt { maxf: 5.0, maxt: 2.0, ..z.clone() },
            Jt { maxf: 0.5, maxt: 0.25, ..z.clone() },
            Jt { maxf: 1e4, maxt: 1e4, ..z.clone() },
            z.clone(),
            Jt { maxf: 1e4, maxt: 0.125, ..z.clone() },
            Jt { maxf: 1.0, maxt: 1e4, ..z.clone() },
        ],
        MOTOR => vec![
            Jt { maxf: 1e4, maxt: 1e4, ..z.clone() },
            Jt { maxf: 2.0, maxt: 0.5, ..z.clone() },
            Jt { maxf: 1e4, maxt: 1e4, factor: 1.0, off: p(0.1, -0.05), rf: r32(0.2), ..z.clone() },
            Jt { maxf: 1e4, maxt: 0.25, factor: 0.0, ..z.clone() },
            Jt { maxf: 50.0, maxt: 20.0, factor: 0.5, off: p(-0.3, 0.4), rf: r32(-0.7), ..z.clone() },
            Jt { maxf: 0.0, maxt: 0.0, ..z.clone() },
        ],
        MOUSE => vec![
            Jt { maxf: 1e4, k: 50.0, d: 5.0, ..z.clone() },
            Jt { maxf: 3.0, k: 50.0, d: 5.0, ..z.clone() },
            Jt { maxf: 1e4, k: 0.0, d: 5.0, ..z.clone() },
            Jt { maxf: 1e4, k: 200.0, d: 0.0, ..z.clone() },
            Jt { maxf: 0.0, k: 50.0, d: 5.0, ..z.clone() },
        ],
        PRIS | REV => vec![
            z.clone(),
            lim(-0.3, 0.4),
            lim(0.1, 0.5),
            lim(-0.5, -0.1),
            lim(0.2, 0.2),
            mot(1.5, 1e3),
            mot(-4.0, 0.5),
            mot(0.0, 2.0),
            Jt { motor: true, speed: 2.0, maxf: 3.0, maxt: 3.0, ..lim(-0.02, 0.03) },
            Jt { motor: true, speed: -1.0, maxf: 5.0, maxt: 5.0, ..lim(-0.5, 0.5) },
        ],
        PULL => vec![z.clone(), Jt { ratio: 2.0, ..z.clone() }, Jt { ratio: 0.5, ..z.clone() }],
        WELD => vec![z.clone(), spr(40.0, 3.0), spr(15.0, 0.0), Jt { d: 3.0, ..z.clone() }],
        WHEEL => vec![
            z.clone(),
            spr(30.0, 3.0),
            spr(80.0, 0.0),
            lim(-0.3, 0.3),
            Jt { k: 30.0, d: 3.0, ..lim(-0.01, 0.02) },
            Jt { k: 30.0, d: 3.0, ..lim(0.1, 0.4) },
            Jt { k: 10.0, d: 1.0, ..mot(3.0, 1e3) },
            Jt { k: 10.0, d: 1.0, ..mot(-6.0, 0.3) },
            lim(0.15, 0.15),
        ],
        _ => panic!("harness: specs"),
    }
}

/// Anchors, axes, lengths for a placement; `var` selects the anchor, `gap` displaces
/// anchor A (a broken start), `twist` adds to the reference angle.
pub fn fit(s: &Jt, a: &Bs, b: &Bs, var: usize, gap: P, twist: f64) -> Jt {
    let mut j = s.clone();
    let (xa, xb) = (xof(a), xof(b));
    let (oa, ob) = (xa.at(p(0.0, 0.0)), xb.at(p(0.0, 0.0)));
    let anchor = match var {
        0 => (oa + ob) * 0.5,
        1 => ob + p(0.3, -0.2),
        _ => oa + p(-0.2, 0.35),
    };
    let wax = [p(1.0, 0.0), p(0.6, 0.8), p(0.0, -1.0)][var];
    let (aa, ab) = (a.ang, b.ang);
    j.la = rp(xa.inv(anchor + gap));
    j.lb = rp(xb.inv(anchor));
    j.ax = rp(xa.irot(wax));
    match j.kind {
        DIST | PULL => {
            j.la = [p(0.0, 0.0), p(0.25, 0.125), p(-0.25, 0.25)][var];
            j.lb = [p(0.0, 0.0), p(-0.125, 0.25), p(0.25, 0.125)][var];
        }
        MOTOR => {
            j.off = rp(xa.inv(ob) + s.off);
            j.rf = r32(ab - aa + s.rf);
        }
        _ => j.rf = r32(ab - aa + twist),
    }
    let (pa, pb) = (xa.at(j.la), xb.at(j.lb));
    if j.kind == DIST {
        let cur = (pb - pa).len() + gap.x;
        j.len = r32((cur + if s.limit { s.len } else { 0.0 }).max(0.1));
        if s.limit {
            j.lo = if s.lo == -BIG { 0.0 } else { r32((cur + s.lo).max(0.05)) };
            j.hi = if s.hi == BIG { B2_MAX_FLOAT as f64 } else { r32(cur + s.hi) };
        } else {
            j.lo = j.len;
            j.hi = j.len;
        }
    }
    if j.kind == PULL {
        j.ga = rp(oa + [p(0.0, 3.0), p(-0.5, 2.0), p(1.0, 2.5)][var]);
        j.gb = rp(ob + [p(0.0, 3.0), p(0.5, 3.5), p(-1.0, 2.0)][var]);
        j.len_a = r32((pa - j.ga).len() + gap.x);
        j.len_b = r32((pb - j.gb).len());
    }
    if j.kind == MOUSE {
        j.target = rp(anchor);
        j.lb = rp(xb.inv(j.target));
    }
    j
}

pub fn make_def(j: &Jt, a: &B, b: &B, collide: bool, ud: u32) -> B2JointDefEnum<U> {
    let f = |x: f64| x as f32;
    match j.kind {
        DIST => {
            let mut d = B2distanceJointDef::<U>::default();
            base(&mut d.base, a, b, collide, ud);
            d.local_anchor_a = vp(j.la);
            d.local_anchor_b = vp(j.lb);
            d.length = f(j.len);
            d.min_length = f(j.lo);
            d.max_length = f(j.hi);
            d.stiffness = f(j.k);
            d.damping = f(j.d);
            B2JointDefEnum::DistanceJoint(d)
        }
        FRIC => {
            let mut d = B2frictionJointDef::<U>::default();
            base(&mut d.base, a, b, collide, ud);
            d.local_anchor_a = vp(j.la);
            d.local_anchor_b = vp(j.lb);
            d.max_force = f(j.maxf);
            d.max_torque = f(j.maxt);
            B2JointDefEnum::FrictionJoint(d)
        }
        MOTOR => {
            let mut d = B2motorJointDef::<U>::default();
            base(&mut d.base, a, b, collide, ud);
            d.linear_offset = vp(j.off);
            d.angular_offset = f(j.rf);
            d.max_force = f(j.maxf);
            d.max_torque = f(j.maxt);
            d.correction_factor = f(j.factor);
            B2JointDefEnum::MotorJoint(d)
        }
        MOUSE => {
            let mut d = B2mouseJointDef::<U>::default();
            base(&mut d.base, a, b, collide, ud);
            d.target = vp(j.target);
            d.max_force = f(j.maxf);
            d.stiffness = f(j.k);
            d.damping = f(j.d);
            B2JointDefEnum::MouseJoint(d)
        }
        PRIS => {
            let mut d = B2prismaticJointDef::<U>::default();
            base(&mut d.base, a, b, collide, ud);
            d.local_anchor_a = vp(j.la);
            d.local_anchor_b = vp(j.lb);
            d.local_axis_a = vp(j.ax);
            d.reference_angle = f(j.rf);
            d.enable_limit = j.limit;
            d.lower_translation = f(j.lo);
            d.upper_translation = f(j.hi);
            d.enable_motor = j.motor;
            d.motor_speed = f(j.speed);
            d.max_motor_force = f(j.maxf);
            B2JointDefEnum::PrismaticJoint(d)
        }
        PULL => {
            let mut d = B2pulleyJointDef::<U>::default();
            base(&mut d.base, a, b, collide, ud);
            d.ground_anchor_a = vp(j.ga);
            d.ground_anchor_b = vp(j.gb);
            d.local_anchor_a = vp(j.la);
            d.local_anchor_b = vp(j.lb);
            d.length_a = f(j.len_a);
            d.length_b = f(j.len_b);
            d.ratio = f(j.ratio);
            B2JointDefEnum::PulleyJoint(d)
        }
        REV => {
            let mut d = B2revoluteJointDef::<U>::default();
            base(&mut d.base, a, b, collide, ud);
            d.local_anchor_a = vp(j.la);
            d.local_anchor_b = vp(j.lb);
            d.reference_angle = f(j.rf);
            d.enable_limit = j.limit;
            d.lower_angle = f(j.lo);
            d.upper_angle = f(j.hi);
            d.enable_motor = j.motor;
            d.motor_speed = f(j.speed);
            d.max_motor_torque = f(j.maxt);
            B2JointDefEnum::RevoluteJoint(d)
        }
        WELD => {
            let mut d = B2weldJointDef::<U>::default();
            base(&mut d.base, a, b, collide, ud);
            d.local_anchor_a = vp(j.la);
            d.local_anchor_b = vp(j.lb);
            d.reference_angle = f(j.rf);
            d.stiffness = f(j.k);
            d.damping = f(j.d);
            B2JointDefEnum::WeldJoint(d)
        }
        WHEEL => {
            let mut d = B2wheelJointDef::<U>::default();
            base(&mut d.base, a, b, collide, ud);
            d.local_anchor_a = vp(j.la);
            d.local_anchor_b = vp(j.lb);
            d.local_axis_a = vp(j.ax);
            d.enable_limit = j.limit;
            d.lower_translation = f(j.lo);
            d.upper_translation = f(j.hi);
            d.enable_motor = j.motor;
            d.motor_speed = f(j.speed);
            d.max_motor_torque = f(j.maxt);
            d.stiffness = f(j.k);
            d.damping = f(j.d);
            B2JointDefEnum::WheelJoint(d)
        }
        _ => panic!("harness: joint kind"),
    }
}
pub fn make(w: &W, j: &Jt, a: &B, b: &B, ud: u32) -> J {
    let mut d = make_def(j, a, b, false, ud);
    // axes pointing down are given at twice their length
    if let B2JointDefEnum::PrismaticJoint(q) = &mut d {
        if q.local_axis_a.y < -0.99 {
            q.local_axis_a *= 2.0;
        }
    }
    w.borrow_mut().create_joint(&d)
}

/// What a row of the joint does with its relative speed.
#[derive(Clone, Debug)]
pub enum Law {
    Hard,
    /// spring about `c` with stiffness/damping (none when k = 0), optional limits given as
    /// room to the lower and the upper end
    Soft { c: f64, k: f64, d: f64, room: Option<(f64, f64)> },
    /// motor (target, largest impulse, impulse reported), optional limits
    Drive { motor: Option<(f64, f64, f64)>, room: Option<(f64, f64)> },
}
#[derive(Clone, Debug)]
pub struct Row {
    pub na: P,
    pub wa: f64,
    pub nb: P,
    pub wb: f64,
    pub imp: f64,
    pub law: Law,
    pub what: &'static str,
}
impl Row {
    pub fn speed(&self, a: &Bs, b: &Bs) -> f64 {
        self.nb.dot(b.v) + self.wb * b.w - self.na.dot(a.v) - self.wa * a.w
    }
    /// inverse effective mass
    pub fn k(&self, a: &Inv, b: &Inv) -> f64 {
        a.m * self.na.dot(self.na) + a.i * self.wa * self.wa + b.m * self.nb.dot(self.nb) + b.i * self.wb * self.wb
    }
}
/// Two rows acting as a vector with a cap on the impulse length.
#[derive(Clone, Debug)]
pub struct Pair {
    pub ra: Option<P>,
    pub rb: P,
    pub imp: P,
    pub cap: f64,
    /// the relative speed wanted
    pub want: P,
    /// softness: imp = -(cdot - want)*g ; None = rigid
    pub soft: Option<f64>,
}
#[derive(Clone, Copy, Debug)]
pub struct Inv {
    pub m: f64,
    pub i: f64,
}
pub fn inv(b: &B) -> Inv {
    let s = bstate(b);
    let dynamic = b.borrow().get_type() == DY;
    Inv {
        m: if dynamic && s.m > 0.0 { 1.0 / s.m } else { 0.0 },
        i: if dynamic && s.i > 1e-12 { 1.0 / s.i } else { 0.0 },
    }
}
pub fn xof(s: &Bs) -> X {
    X::new(s.pos, s.ang)
}
fn arm_row(n: P, ra: P, rb: P, imp: f64, law: Law, what: &'static str) -> Row {
    Row { na: n, wa: ra.cross(n), nb: n, wb: rb.cross(n), imp, law, what }
}
fn ang_row(imp: f64, law: Law, what: &'static str) -> Row {
    Row { na: p(0.0, 0.0), wa: 1.0, nb: p(0.0, 0.0), wb: 1.0, imp, law, what }
}

/// Rows of the joint for a step of length `h` that began at `a`, `b`; impulses as reported
/// by the joint after the step.
pub fn rows(j: &Jt, jp: &J, a: &Bs, b: &Bs, h: f64) -> (Vec<Row>, Option<Pair>) {
    let jb = jp.borrow();
    let f = pv(jb.get_reaction_force(1.0));
    let t = jb.get_reaction_torque(1.0) as f64;
    let (xa, xb) = (xof(a), xof(b));
    let (pa, pb) = (xa.at(j.la), xb.at(j.lb));
    let (ra, rb) = (pa - a.c, pb - b.c);
    let mut v = vec![];
    let mut pr = None;
    let point = |v: &mut Vec<Row>| {
        v.push(arm_row(p(1.0, 0.0), ra, rb, f.x, Law::Hard, "point x"));
        v.push(arm_row(p(0.0, 1.0), ra, rb, f.y, Law::Hard, "point y"));
    };
    match j.kind {
        DIST => {
            let d = pb - pa;
            let u = d.unit();
            let law = if j.lo < j.hi {
                Law::Soft { c: d.len() - j.len, k: j.k, d: if j.k > 0.0 { j.d } else { 0.0 }, room: Some((d.len() - j.lo, j.hi - d.len())) }
            } else {
                Law::Hard
            };
            v.push(arm_row(u, ra, rb, f.dot(u), law, "length"));
            v.push(arm_row(p(-u.y, u.x), ra, rb, u.cross(f), Law::Soft { c: 0.0, k: 0.0, d: 0.0, room: None }, "across the rod"));
        }
        PULL => {
            let (ua, ub) = ((pa - j.ga).unit(), (pb - j.gb).unit());
            let imp = f.dot(ub);
            v.push(Row { na: ua, wa: ra.cross(ua), nb: ub * -j.ratio, wb: -j.ratio * rb.cross(ub), imp, law: Law::Hard, what: "rope" });
        }
        REV => {
            point(&mut v);
            let cur = b.ang - a.ang - j.rf;
            let got = match jb.as_derived() {
                JointAsDerived::ERevoluteJoint(q) => q.get_motor_torque(1.0) as f64,
                _ => panic!("harness: kind"),
            };
            v.push(ang_row(
                t,
                Law::Drive { motor: if j.motor { Some((j.speed, h * j.maxt, got)) } else { None }, room: if j.limit { Some((cur - j.lo, j.hi - cur)) } else { None } },
                "angle",
            ));
        }
        WELD => {
            point(&mut v);
            let cur = b.ang - a.ang - j.rf;
            v.push(ang_row(t, if j.k > 0.0 { Law::Soft { c: cur, k: j.k, d: j.d, room: None } } else { Law::Hard }, "angle"));
        }
        PRIS => {
            let ax = xa.rot(j.ax);
            let perp = p(-ax.y, ax.x);
            let (sa, sb) = (pb - a.c, rb);
            let got = match jb.as_derived() {
                JointAsDerived::EPrismaticJoint(q) => q.get_motor_force(1.0) as f64,
                _ => panic!("harness: kind"),
            };
            let cur = (pb - pa).dot(ax);
            v.push(arm_row(perp, sa, sb, f.dot(perp), Law::Hard, "across the axis"));
            v.push(ang_row(t, Law::Hard, "angle"));
            v.push(arm_row(
                ax,
                sa,
                sb,
                f.dot(ax),
                Law::Drive { motor: if j.motor { Some((j.speed, h * j.maxf, got)) } else { None }, room: if j.limit { Some((cur - j.lo, j.hi - cur)) } else { None } },
                "along the axis",
            ));
        }
        WHEEL => {
            let ax = xa.rot(j.ax);
            let perp = p(-ax.y, ax.x);
            let (sa, sb) = (pb - a.c, rb);
            let cur = (pb - pa).dot(ax);
            let got = match jb.as_derived() {
                JointAsDerived::EWheelJoint(q) => q.get_motor_torque(1.0) as f64,
                _ => panic!("harness: kind"),
            };
            v.push(arm_row(perp, sa, sb, f.dot(perp), Law::Hard, "across the axis"));
            v.push(arm_row(
                ax,
                sa,
                sb,
                f.dot(ax),
                Law::Soft { c: cur, k: j.k, d: if j.k > 0.0 { j.d } else { 0.0 }, room: if j.limit { Some((cur - j.lo, j.hi - cur)) } else { None } },
                "along the axis",
            ));
            v.push(ang_row(t, Law::Drive { motor: if j.motor { Some((j.speed, h * j.maxt, got)) } else { None }, room: None }, "spin"));
        }
        FRIC => {
            v.push(ang_row(t, Law::Drive { motor: Some((0.0, h * j.maxt, t)), room: None }, "spin"));
            pr = Some(Pair { ra: Some(ra), rb, imp: f, cap: h * j.maxf, want: p(0.0, 0.0), soft: None });
        }
        MOTOR => {
            let (qa, qb) = (xa.at(j.off), b.pos);
            let (ra, rb) = (qa - a.c, qb - b.c);
            let err = b.ang - a.ang - j.rf;
            v.push(ang_row(t, Law::Drive { motor: Some((-j.factor * err / h, h * j.maxt, t)), room: None }, "angle"));
            pr = Some(Pair { ra: Some(ra), rb, imp: f, cap: h * j.maxf, want: (qb - qa) * (-j.factor / h), soft: None });
        }
        MOUSE => {
            let c = pb - j.target;
            let g = h * (j.d + h * j.k);
            pr = Some(Pair { ra: None, rb, imp: f, cap: h * j.maxf, want: c * (-h * j.k / g), soft: Some(g) });
        }
        _ => panic!("harness: kind"),
    }
    (v, pr)
}

/// Impulse and moment about the mass centre given to A and to B by the joint.
pub fn contrib(rw: &[Row], pr: &Option<Pair>) -> [(P, f64); 2] {
    let mut o = [(p(0.0, 0.0), 0.0), (p(0.0, 0.0), 0.0)];
    for r in rw {
        o[0].0 -= r.na * r.imp;
        o[0].1 -= r.wa * r.imp;
        o[1].0 += r.nb * r.imp;
        o[1].1 += r.wb * r.imp;
    }
    if let Some(q) = pr {
        if let Some(ra) = q.ra {
            o[0].0 -= q.imp;
            o[0].1 -= ra.cross(q.imp);
        }
        o[1].0 += q.imp;
        o[1].1 += q.rb.cross(q.imp);
    }
    o
}

/// The velocity law of a row after a converged step.
pub fn obey(r: &Row, a: &Bs, b: &Bs, ia: &Inv, ib: &Inv, h: f64, tol: f64, hard: bool) -> R {
    let k = r.k(ia, ib);
    if k < 1e-9 {
        return Ok(());
    }
    let s = r.speed(a, b);
    let room_ok = |room: &(f64, f64), lim: f64| -> R {
        let (lo, hi) = (-room.0.max(0.0) / h, room.1.max(0.0) / h);
        ensure!(s >= lo - tol && s <= hi + tol, "{}: relative speed {} leaves the limits (speeds allowed this step {}..{})", r.what, s, lo, hi);
        if room.0 + room.1 < 0.02 {
            return Ok(()); // coinciding limits share the load
        }
        if lim * k > tol {
            ensure!((s - lo).abs() <= tol, "{}: lower limit pushes with impulse {} while the speed is {} (the limit is met at {})", r.what, lim, s, lo);
        }
        if lim * k < -tol {
            ensure!((s - hi).abs() <= tol, "{}: upper limit pushes with impulse {} while the speed is {} (the limit is met at {})", r.what, lim, s, hi);
        }
        Ok(())
    };
    match &r.law {
        Law::Hard => {
            if hard {
                ensure!(s.abs() <= tol, "{}: relative speed {} after the step, must be zero", r.what, s);
            }
        }
        Law::Soft { c, k: st, d, room } => {
            if !hard {
                let spring = -h * (st * (c + h * s) + d * s);
                let lim = r.imp - spring;
                match room {
                    None => ensure!((lim * k).abs() <= tol, "{}: impulse {} but the spring (stretch {}, speed {}) gives {}", r.what, r.imp, c, s, spring),
                    Some(q) => room_ok(q, lim)?,
                }
            }
        }
        Law::Drive { motor, room } => {
            if !hard {
                let got = motor.map_or(0.0, |m| m.2);
                let lim = r.imp - got;
                if let Some(q) = room {
                    room_ok(q, lim)?;
                } else {
                    ensure!((lim * k).abs() <= tol, "{}: impulse {} but the motor reports {}", r.what, r.imp, got);
                }
                if let Some((want, cap, got)) = motor {
                    ensure!(got.abs() <= cap * 1.0001 + 1e-6, "{}: motor impulse {} above its maximum {}", r.what, got, cap);
                    let stopped = room.map_or(false, |q| s <= -q.0.max(0.0) / h + tol || s >= q.1.max(0.0) / h - tol);
                    if (lim * k).abs() <= tol && !stopped {
                        if (*got) < cap - 1e-4 * cap - tol / k * 0.1 {
                            ensure!(s >= want - tol, "{}: motor gives {} of {} yet the speed is {}, target {}", r.what, got, cap, s, want);
                        }
                        if (*got) > -cap + 1e-4 * cap + tol / k * 0.1 {
                            ensure!(s <= want + tol, "{}: motor gives {} of {} yet the speed is {}, target {}", r.what, got, cap, s, want);
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
pub fn obey_pair(q: &Pair, a: &Bs, b: &Bs, kb: f64, tol: f64) -> R {
    let mut s = b.v + q.rb.spin(b.w);
    if let Some(ra) = q.ra {
        s = s - a.v - ra.spin(a.w);
    }
    let mut e = s - q.want;
    if let Some(g) = q.soft {
        e = e + q.imp * (1.0 / g);
    }
    ensure!(q.imp.len() <= q.cap * 1.0001 + 1e-6, "impulse {:?} above the maximum {}", q.imp, q.cap);
    let scale = match q.soft {
        Some(g) => tol * (1.0 + 1.0 / (g * kb)),
        None => tol,
    };
    if q.imp.len() < q.cap * 0.9999 - tol / kb * 0.1 {
        ensure!(e.len() <= scale, "impulse {:?} below the maximum {} yet the relation is off by {:?}", q.imp, q.cap, e);
    } else {
        ensure!(e.dot(q.imp) <= scale * q.imp.len() + 1e-9, "impulse {:?} at the maximum {} pushes the wrong way (off by {:?})", q.imp, q.cap, e);
    }
    Ok(())
}

/// How far the placement is from what the joint promises: (length, angle). Zero parts are
/// not promised by the kind.
pub fn error(j: &Jt, a: &Bs, b: &Bs) -> (f64, f64) {
    let (xa, xb) = (xof(a), xof(b));
    let (pa, pb) = (xa.at(j.la), xb.at(j.lb));
    let ax = xa.rot(j.ax);
    let d = pb - pa;
    let turn = b.ang - a.ang - j.rf;
    let out = |x: f64| if j.limit { (j.lo - x).max(x - j.hi).max(0.0) } else { 0.0 };
    match j.kind {
        DIST => ((j.lo - d.len()).max(d.len() - j.hi).max(0.0), 0.0),
        PULL => (((pa - j.ga).len() + j.ratio * (pb - j.gb).len() - j.len_a - j.ratio * j.len_b).abs(), 0.0),
        REV => (d.len(), out(turn)),
        WELD => (d.len(), if j.k > 0.0 { 0.0 } else { turn.abs() }),
        PRIS => (ax.cross(d).abs().max(out(d.dot(ax))), turn.abs()),
        WHEEL => (ax.cross(d).abs().max(out(d.dot(ax))), 0.0),
        _ => (0.0, 0.0),
    }
}

/// The coordinate that limits apply to, with the limits.
pub fn limited(j: &Jt, a: &Bs, b: &Bs) -> Option<(f64, f64, f64)> {
    let (xa, xb) = (xof(a), xof(b));
    let d = xb.at(j.lb) - xa.at(j.la);
    match j.kind {
        DIST => Some((d.len(), j.lo, j.hi)),
        REV if j.limit => Some((b.ang - a.ang - j.rf, j.lo, j.hi)),
        PRIS | WHEEL if j.limit => Some((d.dot(xa.rot(j.ax)), j.lo, j.hi)),
        _ => None,
    }
}
/// Where a body gets from `s0` with the velocity of `s1` alone.
pub fn carried(s0: &Bs, s1: &Bs, h: f64) -> Bs {
    let mut s = s0.clone();
    let lc = xof(s0).irot(s0.c - s0.pos);
    s.c = s0.c + s1.v * h;
    s.ang = s0.ang + s1.w * h;
    s.pos = s.c - xof(&s).rot(lc);
    s
}

/// Body recipes for the joint scenes.
pub const NBODY: usize = 7;
pub fn mkbody(w: &W, r: usize, x: f32, y: f32, a: f32, vel: usize, second: bool) -> B {
    let t = match r {
        0 => ST,
        1 => KI,
        _ => DY,
    };
    let mut d = bdef(t, x, y, a);
    let s = if second { -1.0 } else { 1.0 };
    d.fixed_rotation = r == 4;
    d.user_data = Some(if second { 2 } else { 1 });
    if t != ST {
        let (lv, av) = match (vel, t == KI) {
            (0, _) => (v(0.0, 0.0), 0.0),
            (1, false) => (v(1.5 * s, -0.75), 2.0 * s),
            (1, true) => (v(0.5, -0.25 * s), 0.5),
            (2, false) => (v(-3.0, 2.0 * s), -4.0),
            (2, true) => (v(-0.25 * s, 0.5), -1.0 * s),
            (_, false) => (v(0.0, 0.0), 6.0 * s),
            (_, true) => (v(0.0, 0.0), 1.0),
        };
        d.linear_velocity = lv;
        d.angular_velocity = av;
    }
    d.allow_sleep = false;
    let b = box2d_rs::b2_world::B2world::create_body(w.clone(), &d);
    let sh = match r {
        2 => (Sh::BoxAt(0.5, 0.25, 0.25, 0.125, 0.0), 1.0),
        3 => (Sh::Circle(0.4, 0.0, 0.0), 1.0),
        5 => (Sh::Box(0.75, 0.5), 12.0),
        6 => (Sh::Poly(vec![(-0.2, -0.2), (0.6, 0.0), (-0.1, 0.5)]), 0.3),
        _ => (Sh::Box(0.4, 0.3), 1.0),
    };
    let mut fd = fdef(&sh.0);
    fd.density = sh.1;
    fd.filter.mask_bits = 0;
    box2d_rs::b2_body::B2body::create_fixture(b.clone(), &fd);
    b
}
pub const PLACE: [[f32; 6]; 5] = [
    [0.0, 0.0, 0.0, 1.5, 0.5, 0.0],
    [0.0, 0.0, 0.5, 1.0, -1.0, -0.75],
    [2.0, 3.0, -1.25, 2.0, 4.0, 8.75],
    [-4.0, 1.0, 3.0, -5.0, 1.25, -3.0],
    [0.25, -0.5, 7.0, 1.25, 0.5, 6.5],
];
pub struct Two {
    pub w: W,
    pub a: B,
    pub b: B,
    pub spec: Jt,
    pub j: J,
}
/// Two bodies and one joint.
pub fn two(ra: usize, rb: usize, place: usize, vel: usize, g: (f32, f32), spec: &Jt, var: usize, gap: P, twist: f64) -> Two {
    let w = world(g.0, g.1);
    let q = PLACE[place];
    let a = mkbody(&w, ra, q[0], q[1], q[2], vel, false);
    let b = mkbody(&w, rb, q[3], q[4], q[5], vel, true);
    let s = fit(spec, &bstate(&a), &bstate(&b), var, gap, twist);
    let j = make(&w, &s, &a, &b, 7);
    Two { w, a, b, spec: s, j }
}

/// A gear over two joints: bodies a (moving), c (base) of the first, b, d of the second.
pub struct GearM {
    pub ratio: f64,
    pub k1: usize,
    pub k2: usize,
}
/// Unit impulse of the gear on (a, c) or (b, d) of one side.
fn gear_side(kind: usize, sp: &Jt, base: &Bs, mov: &Bs) -> (P, f64, f64) {
    if kind == REV {
        (p(0.0, 0.0), 1.0, 1.0)
    } else {
        let u = xof(base).rot(sp.ax);
        let pm = xof(mov).at(sp.lb);
        let pb = xof(base).at(sp.la);
        (u, (pm - mov.c).cross(u), (pb - base.c).cross(u))
    }
}
pub fn gear_coord(kind: usize, sp: &Jt, base: &Bs, mov: &Bs) -> f64 {
    if kind == REV {
        mov.ang - base.ang - sp.rf
    } else {
        (xof(mov).at(sp.lb) - xof(base).at(sp.la)).dot(xof(base).rot(sp.ax))
    }
}
/// Per side: (direction, arm on the moving body, arm on the base).
pub fn gear_sides(k: [usize; 2], sp: [&Jt; 2], base: [&Bs; 2], mov: [&Bs; 2]) -> [(P, f64, f64); 2] {
    [gear_side(k[0], sp[0], base[0], mov[0]), gear_side(k[1], sp[1], base[1], mov[1])]
}
