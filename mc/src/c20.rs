//! C20: reported reactions account for the momentum transferred; getters; helpers.
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::jk::*;
use crate::jsim::*;
use crate::kit::*;
use box2d_rs::b2_joint::*;
use box2d_rs::joints::b2_distance_joint::*;
use box2d_rs::joints::b2_friction_joint::*;
use box2d_rs::joints::b2_motor_joint::*;
use box2d_rs::joints::b2_prismatic_joint::*;
use box2d_rs::joints::b2_pulley_joint::*;
use box2d_rs::joints::b2_revolute_joint::*;
use box2d_rs::joints::b2_weld_joint::*;
use box2d_rs::joints::b2_wheel_joint::*;

/// Getters against the bodies' current states.
pub fn getters(j: &Jt, jp: &J, a: &Bs, b: &Bs) -> R {
    let jb = jp.borrow();
    let (xa, xb) = (xof(a), xof(b));
    let (pa, pb) = (xa.at(j.la), xb.at(j.lb));
    let (ea, eb) = match j.kind {
        MOTOR => (a.pos, b.pos),
        MOUSE => (j.target, pb),
        _ => (pa, pb),
    };
    let big = 1.0 + ea.len() + eb.len();
    ensure!(pclose(pv(jb.get_anchor_a()), ea, 3e-6 * big), "anchor A reported {:?}, is {:?}", jb.get_anchor_a(), ea);
    ensure!(pclose(pv(jb.get_anchor_b()), eb, 3e-6 * big), "anchor B reported {:?}, is {:?}", jb.get_anchor_b(), eb);
    let (f1, f2) = (pv(jb.get_reaction_force(1.0)), pv(jb.get_reaction_force(60.0)));
    ensure!(pclose(f1 * 60.0, f2, 1e-5 * (1.0 + f2.len())), "reaction force not proportional to the inverse step: {:?} {:?}", f1, f2);
    let (t1, t2) = (jb.get_reaction_torque(1.0) as f64, jb.get_reaction_torque(60.0) as f64);
    ensure!((t1 * 60.0 - t2).abs() <= 1e-5 * (1.0 + t2.abs()), "reaction torque not proportional to the inverse step: {} {}", t1, t2);
    let vrel = {
        let ra = pa - a.c;
        let rb = pb - b.c;
        b.v + rb.spin(b.w) - a.v - ra.spin(a.w)
    };
    let d = pb - pa;
    let ax = xa.rot(j.ax);
    let near = |what: &str, got: f32, exp: f64, tol: f64| -> R {
        ensure!((got as f64 - exp).abs() <= tol, "{} reported {}, is {}", what, got, exp);
        Ok(())
    };
    let tl = 4e-6 * big;
    let tv = 1e-5 * (1.0 + vrel.len() + (a.w.abs() + b.w.abs()) * (1.0 + d.len()));
    match jb.as_derived() {
        JointAsDerived::EDistanceJoint(q) => {
            near("length", q.get_current_length(), d.len(), tl)?;
            near("rest length", q.get_length(), j.len.max(0.005), 1e-6)?;
            near("least length", q.get_min_length(), j.lo.max(0.005), 1e-6)?;
            near("largest length", q.get_max_length(), j.hi, 1e-6)?;
            near("stiffness", q.get_stiffness(), j.k, 0.0)?;
            near("damping", q.get_damping(), j.d, 0.0)?;
            ensure!(pv(q.get_local_anchor_a()) == j.la && pv(q.get_local_anchor_b()) == j.lb, "local anchors");
        }
        JointAsDerived::ERevoluteJoint(q) => {
            near("joint angle", q.get_joint_angle(), b.ang - a.ang - j.rf, 4e-6)?;
            near("joint speed", q.get_joint_speed(), b.w - a.w, 1e-5 * (1.0 + b.w.abs() + a.w.abs()))?;
            near("reference angle", q.get_reference_angle(), j.rf, 0.0)?;
            near("lower limit", q.get_lower_limit(), j.lo, 0.0)?;
            near("upper limit", q.get_upper_limit(), j.hi, 0.0)?;
            near("motor speed", q.get_motor_speed(), j.speed, 0.0)?;
            near("largest torque", q.get_max_motor_torque(), j.maxt, 0.0)?;
            ensure!(q.is_limit_enabled() == j.limit && q.is_motor_enabled() == j.motor, "enable flags");
            near("motor torque", q.get_motor_torque(60.0), 60.0 * q.get_motor_torque(1.0) as f64, 1e-4 * (1.0 + q.get_motor_torque(60.0).abs() as f64))?;
            ensure!(pv(q.get_local_anchor_a()) == j.la && pv(q.get_local_anchor_b()) == j.lb, "local anchors");
        }
        JointAsDerived::EPrismaticJoint(q) => {
            near("translation", q.get_joint_translation(), d.dot(ax), tl)?;
            near("joint speed", q.get_joint_speed(), vrel.dot(ax) + d.dot(ax.spin(a.w)), tv)?;
            near("reference angle", q.get_reference_angle(), j.rf, 0.0)?;
            near("lower limit", q.get_lower_limit(), j.lo, 0.0)?;
            near("upper limit", q.get_upper_limit(), j.hi, 0.0)?;
            near("motor speed", q.get_motor_speed(), j.speed, 0.0)?;
            near("largest force", q.get_max_motor_force(), j.maxf, 0.0)?;
            ensure!(q.is_limit_enabled() == j.limit && q.is_motor_enabled() == j.motor, "enable flags");
            near("motor force", q.get_motor_force(60.0), 60.0 * q.get_motor_force(1.0) as f64, 1e-4 * (1.0 + q.get_motor_force(60.0).abs() as f64))?;
            ensure!(pv(q.get_local_anchor_a()) == j.la && pv(q.get_local_anchor_b()) == j.lb && pclose(pv(q.get_local_axis_a()), j.ax, 1e-6), "local anchors and axis");
        }
        JointAsDerived::EWheelJoint(q) => {
            near("translation", q.get_joint_translation(), d.dot(ax), tl)?;
            near("joint linear speed", q.get_joint_linear_speed(), vrel.dot(ax) + d.dot(ax.spin(a.w)), tv)?;
            near("joint angle", q.get_joint_angle(), b.ang - a.ang, 4e-6)?;
            near("joint angular speed", q.get_joint_angular_speed(), b.w - a.w, 1e-5 * (1.0 + b.w.abs() + a.w.abs()))?;
            near("lower limit", q.get_lower_limit(), j.lo, 0.0)?;
            near("upper limit", q.get_upper_limit(), j.hi, 0.0)?;
            near("motor speed", q.get_motor_speed(), j.speed, 0.0)?;
            near("largest torque", q.get_max_motor_torque(), j.maxt, 0.0)?;
            near("stiffness", q.get_stiffness(), j.k, 0.0)?;
            near("damping", q.get_damping(), j.d, 0.0)?;
            ensure!(q.is_limit_enabled() == j.limit && q.is_motor_enabled() == j.motor, "enable flags");
            ensure!(pv(q.get_local_anchor_a()) == j.la && pv(q.get_local_anchor_b()) == j.lb && pclose(pv(q.get_local_axis_a()), j.ax, 1e-6), "local anchors and axis");
        }
        JointAsDerived::EWeldJoint(q) => {
            near("reference angle", q.get_reference_angle(), j.rf, 0.0)?;
            near("stiffness", q.get_stiffness(), j.k, 0.0)?;
            near("damping", q.get_damping(), j.d, 0.0)?;
            ensure!(pv(q.get_local_anchor_a()) == j.la && pv(q.get_local_anchor_b()) == j.lb, "local anchors");
        }
        JointAsDerived::EFrictionJoint(q) => {
            near("largest force", q.get_max_force(), j.maxf, 0.0)?;
            near("largest torque", q.get_max_torque(), j.maxt, 0.0)?;
            ensure!(pv(q.get_local_anchor_a()) == j.la && pv(q.get_local_anchor_b()) == j.lb, "local anchors");
        }
        JointAsDerived::EMotorJoint(q) => {
            near("largest force", q.get_max_force(), j.maxf, 0.0)?;
            near("largest torque", q.get_max_torque(), j.maxt, 0.0)?;
            near("correction factor", q.get_correction_factor(), j.factor, 1e-7)?;
            near("angular offset", q.get_angular_offset(), j.rf, 0.0)?;
            ensure!(pv(q.get_linear_offset()) == j.off, "linear offset");
        }
        JointAsDerived::EMouseJoint(q) => {
            near("largest force", q.get_max_force(), j.maxf, 0.0)?;
            near("stiffness", q.get_stiffness(), j.k, 0.0)?;
            near("damping", q.get_damping(), j.d, 0.0)?;
            ensure!(pv(q.get_target()) == j.target, "target");
        }
        JointAsDerived::EPulleyJoint(q) => {
            near("rope A", q.get_current_length_a(), (pa - j.ga).len(), tl)?;
            near("rope B", q.get_current_length_b(), (pb - j.gb).len(), tl)?;
            near("length A", q.get_length_a(), j.len_a, 0.0)?;
            near("length B", q.get_length_b(), j.len_b, 0.0)?;
            near("ratio", q.get_ratio(), j.ratio, 0.0)?;
            ensure!(pv(q.get_ground_anchor_a()) == j.ga && pv(q.get_ground_anchor_b()) == j.gb, "ground anchors");
        }
        _ => panic!("harness: kind"),
    }
    Ok(())
}

pub struct Link {
    pub spec: Jt,
    pub j: J,
    pub a: usize,
    pub b: usize,
}
/// One gear over links `l1`, `l2`.
pub struct Gear {
    pub j: J,
    pub l1: usize,
    pub l2: usize,
    pub ratio: f64,
}
pub struct Sys {
    pub w: W,
    pub b: Vec<B>,
    pub links: Vec<Link>,
    pub gear: Option<Gear>,
    pub g: P,
    pub inv: Vec<Inv>,
}
impl Sys {
    pub fn from_two(t: Two, g: (f32, f32)) -> Sys {
        let b = vec![t.a, t.b];
        let inv = b.iter().map(inv).collect();
        Sys { w: t.w, b, links: vec![Link { spec: t.spec, j: t.j, a: 0, b: 1 }], gear: None, g: p(g.0 as f64, g.1 as f64), inv }
    }
    pub fn states(&self) -> Vec<Bs> {
        self.b.iter().map(bstate).collect()
    }
    /// Gear: impulse, and contributions per body.
    pub fn gear_contrib(&self, s: &[Bs]) -> Option<(f64, Vec<(usize, P, f64)>)> {
        let g = self.gear.as_ref()?;
        let (l1, l2) = (&self.links[g.l1], &self.links[g.l2]);
        let sides = gear_sides([l1.spec.kind, l2.spec.kind], [&l1.spec, &l2.spec], [&s[l1.a], &s[l2.a]], [&s[l1.b], &s[l2.b]]);
        let jb = g.j.borrow();
        let f = pv(jb.get_reaction_force(1.0));
        let t = jb.get_reaction_torque(1.0) as f64;
        let imp = if l1.spec.kind == REV { t } else { f.dot(sides[0].0) };
        let v = vec![
            (l1.b, sides[0].0 * imp, sides[0].1 * imp),
            (l1.a, sides[0].0 * -imp, -sides[0].2 * imp),
            (l2.b, sides[1].0 * (imp * g.ratio), sides[1].1 * imp * g.ratio),
            (l2.a, sides[1].0 * (-imp * g.ratio), -sides[1].2 * imp * g.ratio),
        ];
        Some((imp, v))
    }
    /// One step with the accounting of every body's momentum.
    pub fn account(&self, cx: &mut Ctx, h: f32, it: i32, pit: i32) -> R {
        let s0 = self.states();
        self.w.borrow_mut().step(h, it, pit);
        let s1 = self.states();
        let h = h as f64;
        let n = self.b.len();
        let mut imp = vec![p(0.0, 0.0); n];
        let mut mom = vec![0.0; n];
        let mut mag = vec![0.0; n];
        let mut mouse = vec![false; n];
        for l in &self.links {
            let (rw, pr) = rows(&l.spec, &l.j, &s0[l.a], &s0[l.b], h);
            let c = contrib(&rw, &pr);
            for (k, i) in [(0, l.a), (1, l.b)] {
                imp[i] += c[k].0;
                mom[i] += c[k].1;
                mag[i] += c[k].0.len() * 2.0 + c[k].1.abs();
            }
            if l.spec.kind == MOUSE {
                mouse[l.b] = true;
            }
            if matches!(l.spec.kind, DIST | PULL | MOUSE) {
                let t = l.j.borrow().get_reaction_torque(1.0);
                ensure!(t == 0.0, "reaction torque {} of a joint that cannot turn bodies", t);
            }
            if l.spec.kind == DIST {
                let f = pv(l.j.borrow().get_reaction_force(1.0));
                let d = (xof(&s0[l.b]).at(l.spec.lb) - xof(&s0[l.a]).at(l.spec.la)).unit();
                ensure!(d.cross(f).abs() <= 1e-4 * (1e-3 + f.len()), "reaction force {:?} not along the rod {:?}", f, d);
            }
        }
        if let Some((gi, v)) = self.gear_contrib(&s0) {
            // what it reports is what it does to its first body
            let jb = self.gear.as_ref().unwrap().j.borrow();
            let (f, t) = (pv(jb.get_reaction_force(1.0)), jb.get_reaction_torque(1.0) as f64);
            ensure!(pclose(f, v[0].1, 1e-4 * (1e-3 + gi.abs())) && (t - v[0].2).abs() <= 1e-4 * (1e-3 + gi.abs() * 2.0), "gear reports force {:?} and torque {}, its first body receives {:?} and {}", f, t, v[0].1, v[0].2);
            for (i, f, m) in v {
                imp[i] += f;
                mom[i] += m;
                mag[i] += f.len() * 2.0 + m.abs();
            }
        }
        for i in 0..n {
            let k = self.inv[i];
            let dynamic = self.b[i].borrow().get_type() == DY;
            let g = if dynamic { self.g * h } else { p(0.0, 0.0) };
            let e = s0[i].v + g + imp[i] * k.m;
            let capped = (e.len() * h) > 1.9 || ((s0[i].w + mom[i] * k.i) * h).abs() > 1.5;
            if capped {
                continue;
            }
            let tol = 1e-4 * (0.2 + s0[i].v.len() + e.len() + mag[i] * k.m * 0.5);
            ensure!(pclose(s1[i].v, e, tol), "body {}: velocity {:?} -> {:?}, the reported reactions account for {:?}", i, s0[i].v, s1[i].v, e);
            let ew = s0[i].w + mom[i] * k.i;
            let tol = 1e-4 * (0.2 + s0[i].w.abs() + ew.abs() + mag[i] * k.i * 0.5);
            if mouse[i] {
                // the joint's own damping acts between the impulses of the other joints
                if self.links.len() > 1 {
                    continue;
                }
                let (x, y) = (0.95 * s0[i].w, s0[i].w);
                let got = s1[i].w - mom[i] * k.i;
                ensure!(got >= x.min(y) - tol && got <= x.max(y) + tol, "body {}: spin {} -> {}, the reported reactions account for {}", i, s0[i].w, s1[i].w, ew);
            } else {
                ensure!((s1[i].w - ew).abs() <= tol, "body {}: spin {} -> {}, the reported reactions account for {}", i, s0[i].w, s1[i].w, ew);
            }
        }
        for l in &self.links {
            getters(&l.spec, &l.j, &s1[l.a], &s1[l.b])?;
        }
        cx.state(hash_world(&self.w));
        cx.step(1);
        cx.eval(n as u64 * 2 + self.links.len() as u64 * 8);
        Ok(())
    }
}

pub const KINDS: [usize; 9] = [DIST, FRIC, MOTOR, MOUSE, PRIS, PULL, REV, WELD, WHEEL];
pub fn all_specs() -> Vec<Jt> {
    KINDS.iter().flat_map(|k| specs(*k)).collect()
}
const DTS: [[f32; 3]; 2] = [[1.0 / 60.0, 1.0 / 60.0, 1.0 / 60.0], [1.0 / 60.0, 1.0 / 30.0, 1.0 / 120.0]];

fn fixed_case(i: u64, say: bool, th: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let sp = all_specs();
    let mut d = Dec::new(i);
    let s = d.r(&sp).clone();
    let ra = d.d(NBODY);
    let rb = d.d(NBODY);
    let place = d.d(if th { 5 } else { 3 }) as usize;
    let vel = 1 + d.d(if th { 3 } else { 2 }) as usize;
    let var = d.d(3) as usize;
    let gap = d.b();
    let warm = !d.b();
    let it = *d.r(&[1, 10]);
    let dts = *d.r(&DTS);
    let text = if say { format!("{} {:?} bodies {}/{} place {} velocities {} anchors {} gap {} warm {} iterations {} steps {:?}", KNAMES[s.kind], s, ra, rb, place, vel, var, gap, warm, it, dts) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        if ra < 2 && rb < 2 {
            return Ok(());
        }
        if s.kind == MOUSE && rb < 2 {
            return Ok(());
        }
        let g = (0.5, -10.0);
        let t = two(ra, rb, place, vel, g, &s, var, if gap { p(0.2, -0.1) } else { p(0.0, 0.0) }, if gap { 0.3 } else { 0.0 });
        let sys = Sys::from_two(t, g);
        sys.w.borrow_mut().set_warm_starting(warm);
        let s1 = sys.states();
        getters(&sys.links[0].spec, &sys.links[0].j, &s1[0], &s1[1])?;
        for h in dts {
            sys.account(cx, h, it, it)?;
        }
        Ok(())
    };
    (text, run)
}

/// Three bodies in a row, two joints of any kinds.
fn chain_case(i: u64, say: bool, th: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let sp = all_specs();
    let mut d = Dec::new(i);
    let s1 = d.r(&sp).clone();
    let s2 = d.r(&sp).clone();
    let ra = *d.r(&[2usize, 0, 4]);
    let rb = *d.r(&[3usize, 6]);
    let rc = *d.r(if th { &[2usize, 1, 5] } else { &[2usize, 1, 2][..2] });
    let flip = d.b();
    let text = if say { format!("{} and {} ({:?}; {:?}) bodies {} {} {} flip {}", KNAMES[s1.kind], KNAMES[s2.kind], s1, s2, ra, rb, rc, flip) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        let g = (0.0, -10.0);
        let w = world(g.0, g.1);
        let b = vec![mkbody(&w, ra, 0.0, 0.0, 0.3, 1, false), mkbody(&w, rb, 1.25, 0.5, -0.5, 1, true), mkbody(&w, rc, 2.5, -0.25, 1.0, 2, false)];
        let mut links = vec![];
        for (k, (s, mut x, mut y)) in [(s1.clone(), 0usize, 1usize), (s2.clone(), 1, 2)].into_iter().enumerate() {
            if flip && k == 1 {
                std::mem::swap(&mut x, &mut y);
            }
            let sp = fit(&s, &bstate(&b[x]), &bstate(&b[y]), k, p(0.05, 0.02), 0.1);
            let j = make(&w, &sp, &b[x], &b[y], k as u32);
            if s.kind == MOUSE && b[y].borrow().get_type() != DY {
                return Ok(());
            }
            links.push(Link { spec: sp, j, a: x, b: y });
        }
        let inv = b.iter().map(inv).collect();
        let sys = Sys { w, b, links, gear: None, g: p(0.0, -10.0), inv };
        for h in [1.0 / 60.0, 1.0 / 60.0, 1.0 / 50.0] {
            sys.account(cx, h, 6, 3)?;
        }
        Ok(())
    };
    (text, run)
}

/// Gear systems. `lay`: 0 static bases, 1 one shared static base, 2 separate moving bases,
/// 3 one shared moving base, 4 the first moving body carries the second joint.
pub fn gear_sys(k1: usize, k2: usize, lay: usize, ratio: f32, vel: usize, tilt: usize, g: (f32, f32), s1: usize, s2: usize) -> Sys {
    let w = world(g.0, g.1);
    let ang = [[0.0, 0.0, 0.0, 0.0], [0.5, -0.75, 1.25, 2.0], [-2.0, 3.0, 0.25, -1.0]][tilt];
    let rc = [0, 0, 2, 5, 6][lay];
    let c = mkbody(&w, rc, 0.0, 0.0, ang[0], vel, false);
    let a = mkbody(&w, 2, 0.5, 0.25, ang[1], vel, true);
    let b = mkbody(&w, 3, 2.5, -0.25, ang[2], vel, false);
    let mut v = vec![c, a, b];
    let base2 = match lay {
        0 | 2 => {
            v.push(mkbody(&w, if lay == 0 { 0 } else { 6 }, 2.0, 0.5, ang[3], vel, true));
            3
        }
        4 => 1,
        _ => 0,
    };
    let mut links = vec![];
    for (n, (kind, spn, x, y)) in [(k1, s1, 0usize, 1usize), (k2, s2, base2, 2)].into_iter().enumerate() {
        // in the last layout of angles the joints are geared while turned or slid out of their origin
        let (gap, twist) = match (tilt, kind) {
            (2, PRIS) => ([p(0.6, 0.8), p(0.0, -1.0)][n] * 0.2, 0.0),
            (2, _) => (p(0.0, 0.0), -0.35),
            _ => (p(0.0, 0.0), 0.0),
        };
        let mut sp = fit(&specs(kind)[spn], &bstate(&v[x]), &bstate(&v[y]), n + 1, gap, twist);
        if tilt == 1 {
            sp.ax = sp.ax * -1.0;
        }
        let j = make(&w, &sp, &v[x], &v[y], n as u32);
        links.push(Link { spec: sp, j, a: x, b: y });
    }
    let j = gear(&w, &links[0].j, &links[1].j, &v[1], &v[2], ratio, false, 9);
    let inv = v.iter().map(inv).collect();
    Sys { w, b: v, links, gear: Some(Gear { j, l1: 0, l2: 1, ratio: ratio as f64 }), g: p(g.0 as f64, g.1 as f64), inv }
}
pub const RATIOS: [f32; 5] = [1.0, -1.0, 2.5, 0.4, -3.0];
fn gear_case(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let k1 = *d.r(&[REV, PRIS]);
    let k2 = *d.r(&[REV, PRIS]);
    let lay = d.d(5) as usize;
    let ratio = *d.r(&RATIOS);
    let vel = d.d(4) as usize;
    let tilt = d.d(3) as usize;
    let s1 = *d.r(&[0usize, 5, 1]);
    let s2 = *d.r(&[0usize, 6, 2]);
    let it = *d.r(&[1, 4, 16]);
    let text = if say { format!("gear {} {} layout {} ratio {} velocities {} tilt {} specs {} {} iterations {}", KNAMES[k1], KNAMES[k2], lay, ratio, vel, tilt, s1, s2, it) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        let mut sys = gear_sys(k1, k2, lay, ratio, vel, tilt, (0.25, -10.0), s1, s2);
        let mut ratio = ratio;
        for k in 0..4 {
            if k == 2 && it == 4 {
                // change the gearing on the way
                ratio *= -0.75;
                let g = sys.gear.as_mut().unwrap();
                g.ratio = ratio as f64;
                if let JointAsDerivedMut::EGearJoint(q) = g.j.borrow_mut().as_derived_mut() {
                    q.set_ratio(ratio);
                }
            }
            sys.account(cx, DT, it, it)?;
            let g = sys.gear.as_ref().unwrap();
            let jb = g.j.borrow();
            let s = sys.states();
            let (l1, l2) = (&sys.links[0], &sys.links[1]);
            let (ea, eb) = (xof(&s[l1.b]).at(l1.spec.lb), xof(&s[l2.b]).at(l2.spec.lb));
            ensure!(pclose(pv(jb.get_anchor_a()), ea, 1e-5) && pclose(pv(jb.get_anchor_b()), eb, 1e-5), "gear anchors {:?} {:?}, are {:?} {:?}", jb.get_anchor_a(), jb.get_anchor_b(), ea, eb);
            match jb.as_derived() {
                JointAsDerived::EGearJoint(q) => {
                    ensure!(q.get_ratio() == ratio, "ratio {}", q.get_ratio());
                    ensure!(same(&q.get_joint1(), &l1.j) && same(&q.get_joint2(), &l2.j), "geared joints");
                }
                _ => panic!("harness: kind"),
            }
        }
        Ok(())
    };
    (text, run)
}

/// Definition helpers: fields, and rest stays rest.
fn init_case(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let kind = *d.r(&[DIST, FRIC, MOTOR, PRIS, PULL, REV, WELD, WHEEL]);
    let ra = d.d(NBODY);
    let rb = d.d(NBODY);
    let place = d.d(5) as usize;
    let var = d.d(4) as usize;
    let ratio = *d.r(&[1.0f32, 2.0, 0.25]);
    let text = if say { format!("{} helper, bodies {}/{} place {} anchors {} ratio {}", KNAMES[kind], ra, rb, place, var, ratio) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        let w = world(0.0, 0.0);
        let q = PLACE[place];
        let a = mkbody(&w, ra, q[0], q[1], q[2], 0, false);
        let b = mkbody(&w, rb, q[3], q[4], q[5], 0, true);
        let (sa, sb) = (bstate(&a), bstate(&b));
        let (xa, xb) = (xof(&sa), xof(&sb));
        let w1 = [v(0.5, 0.25), v(q[0], q[1]), v(-1.0, 2.0), v(q[3], q[4] + 0.5)][var];
        let w2 = [v(2.5, 0.75), v(q[3] - 0.125, q[4] + 0.25), v(3.0, 3.0), v(q[3], q[4] + 1.5)][var];
        let axis = [v(1.0, 0.0), v(0.0, 1.0), v(0.6, -0.8), v(-0.8, -0.6)][var];
        let ref_angle = (sb.ang - sa.ang) as f32;
        let la = |g: B2v, w: B2v| pclose(xa.at(pv(g)), pv(w), 1e-5);
        let lb = |g: B2v, w: B2v| pclose(xb.at(pv(g)), pv(w), 1e-5);
        let who = |d: &B2jointDef<U>| d.body_a.as_ref().map_or(false, |x| same(x, &a)) && d.body_b.as_ref().map_or(false, |x| same(x, &b));
        let def = match kind {
            DIST => {
                let mut d = B2distanceJointDef::<U>::default();
                d.initialize(a.clone(), b.clone(), w1, w2);
                ensure!(who(&d.base) && la(d.local_anchor_a, w1) && lb(d.local_anchor_b, w2), "bodies or anchors");
                let l = (pv(w2) - pv(w1)).len();
                for x in [d.length, d.min_length, d.max_length] {
                    ensure!((x as f64 - l).abs() < 1e-5 * (1.0 + l), "length {} of {}", x, l);
                }
                B2JointDefEnum::DistanceJoint(d)
            }
            FRIC => {
                let mut d = B2frictionJointDef::<U>::default();
                d.initialize(a.clone(), b.clone(), w1);
                ensure!(who(&d.base) && la(d.local_anchor_a, w1) && lb(d.local_anchor_b, w1), "bodies or anchors");
                d.max_force = 100.0;
                d.max_torque = 100.0;
                B2JointDefEnum::FrictionJoint(d)
            }
            MOTOR => {
                let mut d = B2motorJointDef::<U>::default();
                d.initialize(a.clone(), b.clone());
                ensure!(who(&d.base), "bodies");
                ensure!(pclose(pv(d.linear_offset), xa.inv(sb.pos), 1e-5), "linear offset {:?}", d.linear_offset);
                ensure!((d.angular_offset - ref_angle).abs() < 1e-5, "angular offset {}", d.angular_offset);
                d.max_force = 100.0;
                d.max_torque = 100.0;
                B2JointDefEnum::MotorJoint(d)
            }
            PRIS => {
                let mut d = B2prismaticJointDef::<U>::default();
                d.initialize(a.clone(), b.clone(), w1, axis);
                ensure!(who(&d.base) && la(d.local_anchor_a, w1) && lb(d.local_anchor_b, w1), "bodies or anchors");
                ensure!(pclose(xa.rot(pv(d.local_axis_a)), pv(axis), 1e-5), "axis {:?}", d.local_axis_a);
                ensure!((d.reference_angle - ref_angle).abs() < 1e-5, "reference angle {}", d.reference_angle);
                B2JointDefEnum::PrismaticJoint(d)
            }
            PULL => {
                let mut d = B2pulleyJointDef::<U>::default();
                let (g1, g2) = (w1 + v(0.5, 4.0), w2 + v(-0.25, 3.0));
                d.initialize(a.clone(), b.clone(), g1, g2, w1, w2, ratio);
                ensure!(who(&d.base) && la(d.local_anchor_a, w1) && lb(d.local_anchor_b, w2), "bodies or anchors");
                ensure!(pv(d.ground_anchor_a) == pv(g1) && pv(d.ground_anchor_b) == pv(g2) && d.ratio == ratio, "ground anchors or ratio");
                ensure!((d.length_a as f64 - (pv(g1) - pv(w1)).len()).abs() < 1e-5 && (d.length_b as f64 - (pv(g2) - pv(w2)).len()).abs() < 1e-5, "lengths {} {}", d.length_a, d.length_b);
                B2JointDefEnum::PulleyJoint(d)
            }
            REV => {
                let mut d = B2revoluteJointDef::<U>::default();
                d.initialize(a.clone(), b.clone(), w1);
                ensure!(who(&d.base) && la(d.local_anchor_a, w1) && lb(d.local_anchor_b, w1), "bodies or anchors");
                ensure!((d.reference_angle - ref_angle).abs() < 1e-5, "reference angle {}", d.reference_angle);
                B2JointDefEnum::RevoluteJoint(d)
            }
            WELD => {
                let mut d = B2weldJointDef::<U>::default();
                d.initialize(a.clone(), b.clone(), w1);
                ensure!(who(&d.base) && la(d.local_anchor_a, w1) && lb(d.local_anchor_b, w1), "bodies or anchors");
                ensure!((d.reference_angle - ref_angle).abs() < 1e-5, "reference angle {}", d.reference_angle);
                B2JointDefEnum::WeldJoint(d)
            }
            _ => {
                let mut d = B2wheelJointDef::<U>::default();
                d.initialize(a.clone(), b.clone(), w1, axis);
                ensure!(who(&d.base) && la(d.local_anchor_a, w1) && lb(d.local_anchor_b, w1), "bodies or anchors");
                ensure!(pclose(xa.rot(pv(d.local_axis_a)), pv(axis), 1e-5), "axis {:?}", d.local_axis_a);
                d.stiffness = 20.0;
                B2JointDefEnum::WheelJoint(d)
            }
        };
        let j = w.borrow_mut().create_joint(&def);
        ensure!(same(&j.borrow().get_base().get_body_a(), &a) && same(&j.borrow().get_base().get_body_b(), &b), "joint bodies");
        ensure!(kind_of(j.borrow().get_base().get_type()) == kind, "joint kind");
        for _ in 0..3 {
            step(&w, DT);
            cx.step(1);
        }
        for (s, x) in [(sa, bstate(&a)), (sb, bstate(&b))] {
            ensure!(pclose(s.pos, x.pos, 1e-4) && (s.ang - x.ang).abs() < 1e-4 && x.v.len() < 1e-3 && x.w.abs() < 1e-3, "moved from rest: {:?} -> {:?}", s, x);
        }
        cx.state(hash_world(&w));
        cx.eval(8);
        Ok(())
    };
    (text, run)
}
type B2v = box2d_rs::b2_math::B2vec2;

/// Stiffness helpers.
fn stiff_case(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let ra = d.d(NBODY);
    let rb = d.d(NBODY);
    let hz = *d.r(&[0.5f32, 1.0, 4.0, 12.5]);
    let dr = *d.r(&[0.0f32, 0.3, 0.7, 1.0, 2.0]);
    let text = if say { format!("bodies {}/{} frequency {} ratio {}", ra, rb, hz, dr) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        let w = world(0.0, 0.0);
        let a = mkbody(&w, ra, 0.0, 0.0, 0.0, 0, false);
        let b = mkbody(&w, rb, 3.0, 0.0, 0.0, 0, true);
        let om = 2.0 * PI * hz as f64;
        let red = |x: f64, y: f64| if x > 0.0 && y > 0.0 { x * y / (x + y) } else { x.max(y) };
        for angular in [false, true] {
            let (mut k, mut c) = (-1.0f32, -1.0f32);
            // inertia about the body origin, as the library's helper takes it
            let of = |b: &B| if b.borrow().get_type() == DY { if angular { b.borrow().get_inertia() as f64 } else { b.borrow().get_mass() as f64 } } else { 0.0 };
            let m = red(of(&a), of(&b));
            if angular {
                b2_angular_stiffness(&mut k, &mut c, hz, dr, a.clone(), b.clone());
            } else {
                b2_linear_stiffness(&mut k, &mut c, hz, dr, a.clone(), b.clone());
            }
            let (ek, ec) = (m * om * om, 2.0 * m * dr as f64 * om);
            ensure!((k as f64 - ek).abs() <= 1e-4 * (ek + 1e-3), "{} stiffness {} expected {}", if angular { "angular" } else { "linear" }, k, ek);
            ensure!((c as f64 - ec).abs() <= 1e-4 * (ec + 1e-3), "{} damping {} expected {}", if angular { "angular" } else { "linear" }, c, ec);
            cx.eval(2);
            let mut h = Fnv::new();
            h.f(k).f(c);
            cx.state(h.done());
        }
        cx.step(2);
        Ok(())
    };
    (text, run)
}

pub fn check() -> Check {
    let th = thorough();
    let ns = all_specs().len() as u64;
    let nb = (NBODY * NBODY) as u64;
    Check {
        id: "C20",
        bounds: format!("{} joint parameter sets of nine kinds x 7x7 body recipes (static, kinematic, dynamic, fixed rotation, offset centre, heavy, light) x placements x velocities x 3 anchor choices x satisfied/broken start x warm starting on/off x 1 or 10 iterations x equal/varied steps, 3 steps each; every pair of parameter sets on three bodies; gears over all joint pairs, 5 layouts, 5 ratios, 3 iteration counts, 4 steps; every definition helper; stiffness helpers", ns),
        assumptions: vec![
            "speeds stay below the documented per-step caps".into(),
            "the mouse joint's own 2 % spin damping is allowed".into(),
            "mouse joints hold dynamic bodies".into(),
        ],
        phases: vec![
            phase("one joint", ns * nb * if th { 5 * 3 } else { 3 * 2 } * 3 * 2 * 2 * 2 * 2, move |i| fixed_case(i, true, th).0, move |i, cx| fixed_case(i, false, th).1(cx)),
            phase("two joints", ns * ns * 3 * 2 * if th { 3 } else { 2 } * 2, move |i| chain_case(i, true, th).0, move |i, cx| chain_case(i, false, th).1(cx)),
            phase("gears", 2 * 2 * 5 * 5 * 4 * 3 * 3 * 3 * 3, |i| gear_case(i, true).0, |i, cx| gear_case(i, false).1(cx)),
            phase("definition helpers", 8 * nb * 5 * 4 * 3, |i| init_case(i, true).0, |i, cx| init_case(i, false).1(cx)),
            phase("stiffness helpers", nb * 4 * 5, |i| stiff_case(i, true).0, |i, cx| stiff_case(i, false).1(cx)),
        ],
    }
}
