//! C19: limits, motors and springs act within their configured bounds; setters take effect.
use crate::c20::{all_specs, gear_sys, Sys, KINDS, RATIOS};
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::jk::*;
use crate::jsim::*;
use crate::kit::*;
use box2d_rs::b2_joint::*;
use box2d_rs::joints::b2_wheel_joint::*;
use box2d_rs::joints::b2_weld_joint::*;
use box2d_rs::joints::b2_revolute_joint::*;
use box2d_rs::joints::b2_pulley_joint::*;
use box2d_rs::joints::b2_prismatic_joint::*;
use box2d_rs::joints::b2_mouse_joint::*;
use box2d_rs::joints::b2_motor_joint::*;
use box2d_rs::joints::b2_friction_joint::*;
use box2d_rs::joints::b2_distance_joint::*;

fn speed_tol(s: &[Bs]) -> f64 {
    3e-3 * (1.0 + s.iter().map(|x| x.v.len() + x.w.abs()).fold(0.0, f64::max))
}
/// A converged step obeys every row.
fn judged(sys: &Sys, cx: &mut Ctx, h: f32) -> R {
    let s0 = sys.states();
    // parts solved in turn converge slowly, above all with little inertia on a long arm
    let slow = sys.links.iter().any(|l| matches!(l.spec.kind, MOTOR | FRIC)) || sys.inv.iter().any(|k| k.i > 40.0);
    sys.w.borrow_mut().step(h, if slow { 2000 } else { 300 }, 10);
    let s1 = sys.states();
    let tol = speed_tol(&s1) + 0.1 * speed_tol(&s0);
    // the documented caps on motion per step cut in
    if s1.iter().any(|x| x.v.len() * h as f64 > 1.9 || (x.w * h as f64).abs() > 1.5) {
        return Ok(());
    }
    for l in &sys.links {
        let (rw, pr) = rows(&l.spec, &l.j, &s0[l.a], &s0[l.b], h as f64);
        let (ia, ib) = (&sys.inv[l.a], &sys.inv[l.b]);
        for r in &rw {
            obey(r, &s1[l.a], &s1[l.b], ia, ib, h as f64, tol, false)?;
            obey(r, &s1[l.a], &s1[l.b], ia, ib, h as f64, tol, true)?;
            cx.eval(3);
        }
        if let Some(q) = pr {
            let k = ib.m + if q.ra.is_some() { ia.m } else { 0.0 };
            if k > 0.0 {
                obey_pair(&q, &s1[l.a], &s1[l.b], k, tol)?;
            }
            cx.eval(2);
        }
    }
    cx.step(1);
    cx.state(hash_world(&sys.w));
    Ok(())
}

fn laws(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let sp = all_specs();
    let s = d.r(&sp).clone();
    let (ra, rb) = (d.d(NBODY), d.d(NBODY));
    let place = d.d(if thorough() { 5 } else { 3 });
    let vel = d.d(4);
    let var = d.d(3);
    let gap = d.d(3);
    let warm = !d.b();
    let text = if say { format!("{} bodies {}/{} place {} velocities {} anchors {} gap {} warm {} {:?}", KNAMES[s.kind], ra, rb, place, vel, var, gap, warm, s) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        if (ra < 2 && rb < 2) || (s.kind == MOUSE && rb < 2) {
            return Ok(());
        }
        let g = (1.0, -10.0);
        let (gp, tw) = [(p(0.0, 0.0), 0.0), (p(0.2, -0.1), 0.3), (p(-0.35, 0.0), -0.45)][gap];
        let mut t = two(ra, rb, place, vel, g, &s, var, gp, tw);
        if s.kind == MOUSE && gap > 0 {
            t.spec.target = rp(t.spec.target + gp * 3.0);
            if let JointAsDerivedMut::EMouseJoint(q) = t.j.borrow_mut().as_derived_mut() {
                q.set_target(vp(t.spec.target));
            }
        }
        let sys = Sys::from_two(t, g);
        sys.w.borrow_mut().set_warm_starting(warm);
        for h in [1.0 / 60.0, 1.0 / 60.0, 1.0 / 40.0] {
            judged(&sys, cx, h)?;
        }
        Ok(())
    };
    (text, run)
}

/// One call of a setter: what it does to the model, and whether it must wake (None: not judged).
#[derive(Clone, Debug)]
enum Op {
    Limit(bool),
    Limits(f32, f32),
    Motor(bool),
    Speed(f32),
    MaxF(f32),
    MaxT(f32),
    K(f32),
    D(f32),
    Len(f32),
    Min(f32),
    Max(f32),
    Off(f32, f32),
    Ang(f32),
    Factor(f32),
    Target(f32, f32),
}
fn ops(kind: usize) -> Vec<Op> {
    use Op::*;
    match kind {
        REV | PRIS => vec![Limit(true), Limit(false), Limits(-0.1, 0.1), Limits(0.15, 0.3), Limits(-0.1, 0.3), Limits(-0.25, -0.25), Motor(true), Motor(false), Speed(2.0), Speed(-2.0), if kind == REV { MaxT(20.0) } else { MaxF(20.0) }, if kind == REV { MaxT(0.0) } else { MaxF(0.0) }],
        WHEEL => vec![Limit(true), Limit(false), Limits(-0.1, 0.1), Limits(0.15, 0.3), Limits(-0.1, 0.3), Motor(true), Motor(false), Speed(2.0), Speed(-2.0), MaxT(20.0), MaxT(0.0), K(40.0), K(0.0), D(2.0), D(0.0)],
        DIST => vec![Len(0.5), Len(2.0), Len(-1.0), Min(0.4), Min(1.5), Min(-3.0), Max(0.8), Max(3.0), Max(0.3), K(40.0), K(0.0), D(2.0), D(0.0)],
        WELD => vec![K(40.0), K(0.0), D(2.0), D(0.0)],
        FRIC => vec![MaxF(20.0), MaxF(0.0), MaxF(1.0), MaxT(10.0), MaxT(0.0), MaxT(0.2)],
        MOTOR => vec![Off(0.5, 0.25), Off(-0.5, 1.0), Off(0.5, 1.0), Ang(0.5), Ang(-1.0), Ang(7.0), MaxF(50.0), MaxF(0.0), MaxT(30.0), MaxT(0.0), Factor(0.0), Factor(0.8), Factor(1.0)],
        MOUSE => vec![Target(1.0, 1.0), Target(-0.5, 2.0), Target(1.0, 2.0), MaxF(100.0), MaxF(0.5), K(40.0), D(2.0)],
        PULL => vec![],
        _ => vec![],
    }
}
fn set(j: &mut Jt, jp: &J, op: &Op) -> Result<Option<bool>, String> {
    use Op::*;
    let old = format!("{:?}", j);
    let mut judged = true;
    let mut jb = jp.borrow_mut();
    let f = |x: f32| x as f64;
    let slop = 0.005f32;
    match jb.as_derived_mut() {
        JointAsDerivedMut::ERevoluteJoint(q) => match *op {
            Limit(x) => q.enable_limit(x),
            Limits(a, b) => q.set_limits(a, b),
            Motor(x) => q.enable_motor(x),
            Speed(x) => q.set_motor_speed(x),
            MaxT(x) => q.set_max_motor_torque(x),
            _ => panic!("harness: op"),
        },
        JointAsDerivedMut::EPrismaticJoint(q) => match *op {
            Limit(x) => q.enable_limit(x),
            Limits(a, b) => q.set_limits(a, b),
            Motor(x) => q.enable_motor(x),
            Speed(x) => q.set_motor_speed(x),
            MaxF(x) => q.set_max_motor_force(x),
            _ => panic!("harness: op"),
        },
        JointAsDerivedMut::EWheelJoint(q) => match *op {
            Limit(x) => q.enable_limit(x),
            Limits(a, b) => q.set_limits(a, b),
            Motor(x) => q.enable_motor(x),
            Speed(x) => q.set_motor_speed(x),
            MaxT(x) => q.set_max_motor_torque(x),
            K(x) => {
                judged = false;
                q.set_stiffness(x)
            }
            D(x) => {
                judged = false;
                q.set_damping(x)
            }
            _ => panic!("harness: op"),
        },
        JointAsDerivedMut::EDistanceJoint(q) => {
            judged = false;
            let (got, exp) = match *op {
                Len(x) => (q.set_length(x), x.max(slop)),
                Min(x) => (q.set_min_length(x), x.max(slop).min(j.hi as f32)),
                Max(x) => (q.set_max_length(x), x.max(j.lo as f32)),
                K(x) => {
                    q.set_stiffness(x);
                    (0.0, 0.0)
                }
                D(x) => {
                    q.set_damping(x);
                    (0.0, 0.0)
                }
                _ => panic!("harness: op"),
            };
            ensure!(got == exp, "{:?} returned {}, expected {}", op, got, exp);
            match *op {
                Len(_) => j.len = f(exp),
                Min(_) => j.lo = f(exp),
                Max(_) => j.hi = f(exp),
                _ => {}
            }
        }
        JointAsDerivedMut::EWeldJoint(q) => {
            judged = false;
            match *op {
                K(x) => q.set_stiffness(x),
                D(x) => q.set_damping(x),
                _ => panic!("harness: op"),
            }
        }
        JointAsDerivedMut::EFrictionJoint(q) => {
            judged = false;
            match *op {
                MaxF(x) => q.set_max_force(x),
                MaxT(x) => q.set_max_torque(x),
                _ => panic!("harness: op"),
            }
        }
        JointAsDerivedMut::EMotorJoint(q) => match *op {
            Off(x, y) => q.set_linear_offset(v(x, y)),
            Ang(x) => q.set_angular_offset(x),
            MaxF(x) => {
                judged = false;
                q.set_max_force(x)
            }
            MaxT(x) => {
                judged = false;
                q.set_max_torque(x)
            }
            Factor(x) => {
                judged = false;
                q.set_correction_factor(x)
            }
            _ => panic!("harness: op"),
        },
        JointAsDerivedMut::EMouseJoint(q) => match *op {
            Target(x, y) => q.set_target(v(x, y)),
            MaxF(x) => {
                judged = false;
                q.set_max_force(x)
            }
            K(x) => {
                judged = false;
                q.set_stiffness(x)
            }
            D(x) => {
                judged = false;
                q.set_damping(x)
            }
            _ => panic!("harness: op"),
        },
        _ => panic!("harness: kind"),
    }
    match *op {
        Limit(x) => j.limit = x,
        Limits(a, b) => {
            j.lo = f(a);
            j.hi = f(b);
        }
        Motor(x) => j.motor = x,
        Speed(x) => j.speed = f(x),
        MaxF(x) => j.maxf = f(x),
        MaxT(x) => j.maxt = f(x),
        K(x) => j.k = f(x),
        D(x) => j.d = f(x),
        Off(x, y) => j.off = p(f(x), f(y)),
        Ang(x) => j.rf = f(x),
        Factor(x) => j.factor = f(x),
        Target(x, y) => j.target = p(f(x), f(y)),
        _ => {}
    }
    let changed = format!("{:?}", j) != old;
    Ok(if judged { Some(changed) } else { None })
}

/// Specs whose motors cannot stall against their own limits forever.
fn setter_cases(depth: u32) -> Vec<(usize, usize, u64)> {
    let mut o = vec![];
    for k in KINDS {
        let n = ops(k).len() as u64;
        if n == 0 {
            continue;
        }
        for s in 0..specs(k).len() {
            o.push((k, s, n.pow(depth)));
        }
    }
    o
}
fn pick(cases: &[(usize, usize, u64)], mut i: u64) -> (usize, usize, u64) {
    for c in cases {
        if i < c.2 {
            return (c.0, c.1, i);
        }
        i -= c.2;
    }
    panic!("harness: case index")
}
const RECIPES: [(usize, usize); 6] = [(2, 3), (0, 2), (5, 6), (1, 2), (2, 0), (4, 2)];
/// Number of cases of [`wakes`].
pub fn wake_cases() -> u64 {
    setter_cases(2).iter().map(|c| c.2).sum::<u64>() * RECIPES.len() as u64
}
/// Two settings in turn on a pair at rest: a change of limit, motor or target wakes both bodies
/// at once, and they are still awake after a step.
pub fn wakes(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let cases = setter_cases(2);
    let rec = RECIPES[(i % RECIPES.len() as u64) as usize];
    let (kind, sn, sq) = pick(&cases, i / RECIPES.len() as u64);
    let list = ops(kind);
    let n = list.len() as u64;
    let seq = [list[(sq % n) as usize].clone(), list[(sq / n) as usize].clone()];
    let s = specs(kind)[sn].clone();
    let text = if say { format!("{} bodies {:?} settings {:?} of {:?}", KNAMES[kind], rec, seq, s) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        if kind == MOUSE && rec.1 < 2 {
            return Ok(());
        }
        let t = two(rec.0, rec.1, 1, 0, (0.0, 0.0), &s, 1, p(0.0, 0.0), 0.0);
        let mut sys = Sys::from_two(t, (0.0, 0.0));
        for op in &seq {
            for b in &sys.b {
                b.borrow_mut().set_awake(false);
            }
            let l = &mut sys.links[0];
            let j = l.j.clone();
            let mut sp = l.spec.clone();
            let wake = set(&mut sp, &j, op)?;
            l.spec = sp;
            for (n, b) in sys.b.iter().enumerate() {
                if b.borrow().get_type() == ST || kind == MOUSE && n == 0 {
                    continue;
                }
                cx.eval(1);
                match wake {
                    Some(true) => ensure!(b.borrow().is_awake(), "{:?} left body {} asleep", op, n),
                    Some(false) => ensure!(!b.borrow().is_awake(), "{:?}, which changes nothing, woke body {}", op, n),
                    None => {}
                }
            }
            step(&sys.w, DT);
            cx.step(1);
            for (n, b) in sys.b.iter().enumerate() {
                if b.borrow().get_type() != ST && !(kind == MOUSE && n == 0) && wake == Some(true) {
                    ensure!(b.borrow().is_awake(), "{:?}: body {} asleep again after one step", op, n);
                }
            }
            cx.state(hash_world(&sys.w));
        }
        Ok(())
    };
    (text, run)
}
fn setters(i: u64, say: bool, depth: u32) -> (String, impl Fn(&mut Ctx) -> R) {
    let cases = setter_cases(depth);
    let total: u64 = cases.iter().map(|c| c.2).sum();
    let rec = RECIPES[(i / total) as usize % RECIPES.len()];
    let (kind, sn, mut sq) = pick(&cases, i % total);
    let list = ops(kind);
    let mut seq = vec![];
    for _ in 0..depth {
        seq.push(list[(sq % list.len() as u64) as usize].clone());
        sq /= list.len() as u64;
    }
    let s = specs(kind)[sn].clone();
    let text = if say { format!("{} bodies {:?} setters {:?} from {:?}", KNAMES[kind], rec, seq, s) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        if kind == MOUSE && rec.1 < 2 {
            return Ok(());
        }
        let g = (0.0, -10.0);
        let t = two(rec.0, rec.1, 1, 1, g, &s, 1, p(0.05, 0.02), 0.1);
        let mut sys = Sys::from_two(t, g);
        for _ in 0..2 {
            judged(&sys, cx, DT)?;
        }
        for op in &seq {
            let vels: Vec<_> = sys.b.iter().map(|b| (b.borrow().get_linear_velocity(), b.borrow().get_angular_velocity())).collect();
            for b in &sys.b {
                b.borrow_mut().set_awake(false);
            }
            let l = &mut sys.links[0];
            let j = l.j.clone();
            let mut sp = l.spec.clone();
            let wake = set(&mut sp, &j, op)?;
            l.spec = sp;
            if let Some(w) = wake {
                for (n, b) in sys.b.iter().enumerate() {
                    if b.borrow().get_type() == ST || (kind == MOUSE && n == 0) {
                        continue;
                    }
                    ensure!(b.borrow().is_awake() == w, "{:?} ({}) left body {} {}", op, if w { "a change" } else { "no change" }, n, if w { "asleep" } else { "awake" });
                    cx.eval(1);
                }
            }
            for (b, q) in sys.b.iter().zip(vels) {
                b.borrow_mut().set_awake(true);
                b.borrow_mut().set_linear_velocity(q.0);
                b.borrow_mut().set_angular_velocity(q.1);
            }
            let st = sys.states();
            crate::c20::getters(&sys.links[0].spec, &sys.links[0].j, &st[0], &st[1])?;
            judged(&sys, cx, DT)?;
            judged(&sys, cx, DT)?;
        }
        Ok(())
    };
    (text, run)
}

/// Limits hold through motion, whatever pushes.
fn stops(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let kind = *d.r(&[REV, PRIS, WHEEL, DIST]);
    let lim = *d.r(&[(-0.2, 0.3), (0.0, 0.0), (0.1, 0.4), (-0.5, -0.1), (-0.002, 0.002), (0.25, 0.25)]);
    let mot = *d.r(&[None, Some((3.0, 15.0)), Some((-3.0, 15.0))]);
    let (ra, rb) = *d.r(&[(0usize, 2usize), (2, 3), (3, 0), (1, 2), (5, 2), (4, 3), (2, 4)]);
    let place = d.d(3);
    let var = d.d(3);
    let vel = d.d(4);
    let push = *d.r(&[p(0.0, 0.0), p(6.0, 4.0)]);
    let text = if say { format!("{} limits {:?} motor {:?} bodies {}/{} place {} anchors {} velocities {} push {:?}", KNAMES[kind], lim, mot, ra, rb, place, var, vel, push) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        let mut s = Jt { limit: true, lo: r32(lim.0), hi: r32(lim.1), ..jt(kind) };
        if let Some((x, m)) = mot {
            if kind == DIST {
                return Ok(());
            }
            s.motor = true;
            s.speed = x;
            s.maxf = m;
            s.maxt = m;
        }
        let g = (0.0, -10.0);
        let t = two(ra, rb, place, vel, g, &s, var, p(0.0, 0.0), 0.0);
        let sys = Sys::from_two(t, g);
        let mut late = 0;
        for n in 0..60 {
            if push.len() > 0.0 && n % 7 == 0 {
                let m = sys.b[1].borrow().get_mass();
                let c = sys.b[1].borrow().get_world_center();
                sys.b[1].borrow_mut().apply_linear_impulse(v(push.x as f32 * m * 0.3, push.y as f32 * m * 0.3), c + v(0.1, 0.0), true);
            }
            let s0 = sys.states();
            sys.w.borrow_mut().step(DT, 16, 16);
            let st = sys.states();
            let go: Vec<Bs> = s0.iter().zip(&st).map(|(x, y)| carried(x, y, DT as f64)).collect();
            let sp = &sys.links[0].spec;
            let judge = n > 0; // the first step may carry a strong jerk
            if let (true, Some((x, lo, hi)), Some((y, ..))) = (judge, limited(sp, &go[0], &go[1]), limited(sp, &st[0], &st[1])) {
                // a limit moves what is beyond it towards itself and leaves the rest alone
                let tol = 0.03 + 4.0 * error(&Jt { limit: false, ..sp.clone() }, &go[0], &go[1]).0;
                let (to_lo, to_hi) = (x.min(hi.max(lo)), x.max(lo.min(hi)));
                ensure!(y >= to_lo - tol && y <= to_hi + tol, "step {}: the limited coordinate is carried to {} and corrected to {} (limits {}..{})", n, x, y, lo, hi);
                cx.eval(1);
            }
            let (e, a) = error(&sys.links[0].spec, &st[0], &st[1]);
            let a = if sys.inv[0].i + sys.inv[1].i > 0.0 { a } else { 0.0 };
            late = if e > 0.03 || a > 0.12 { late + 1 } else { 0 };
            let start = if lim.0 > 0.0 || lim.1 < 0.0 { 15 } else { 8 };
            ensure!(n < 15 || (e < 0.12 && a < 0.4), "after step {} the limit is off by {} (angle {})", n, e, a);
            ensure!(late <= start, "after step {} the limit has been off for {} steps, now by {} (angle {})", n, late, e, a);
            cx.step(1);
            cx.eval(2);
        }
        cx.state(hash_world(&sys.w));
        Ok(())
    };
    (text, run)
}

/// Changing a gear's ratio changes the ratio kept.
fn ratio(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let k1 = *d.r(&[REV, PRIS]);
    let k2 = *d.r(&[REV, PRIS]);
    let lay = d.d(5);
    let r1 = *d.r(&RATIOS);
    let r2 = *d.r(&RATIOS);
    let text = if say { format!("gear {} {} layout {} ratio {} then {}", KNAMES[k1], KNAMES[k2], lay, r1, r2) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        let mut sys = gear_sys(k1, k2, lay, r1, 1, 1, (0.0, 0.0), 0, 0);
        sys.w.borrow_mut().step(DT, 500, 5);
        let g = sys.gear.as_mut().unwrap();
        if let JointAsDerivedMut::EGearJoint(q) = g.j.borrow_mut().as_derived_mut() {
            q.set_ratio(r2);
            ensure!(q.get_ratio() == r2, "ratio reads {}", q.get_ratio());
        }
        g.ratio = r2 as f64;
        let s0 = sys.states();
        sys.w.borrow_mut().step(DT, 2000, 5);
        let s1 = sys.states();
        let (l1, l2) = (&sys.links[0], &sys.links[1]);
        let sd = gear_sides([k1, k2], [&l1.spec, &l2.spec], [&s0[l1.a], &s0[l2.a]], [&s0[l1.b], &s0[l2.b]]);
        let side = |q: &(P, f64, f64), b: &Bs, m: &Bs| q.0.dot(m.v - b.v) + q.1 * m.w - q.2 * b.w;
        let e = side(&sd[0], &s1[l1.a], &s1[l1.b]) + r2 as f64 * side(&sd[1], &s1[l2.a], &s1[l2.b]);
        ensure!(e.abs() <= 4.0 * speed_tol(&s1), "speeds off the new ratio by {}", e);
        cx.eval(2);
        cx.step(2);
        cx.state(hash_world(&sys.w));
        Ok(())
    };
    (text, run)
}

/// A definition of which only the geometry is given, or with everything else given its documented default too.
fn plain_def(j: &Jt, a: &B, b: &B, full: bool) -> B2JointDefEnum<U> {
    let mut q = make_def(j, a, b, false, 7);
    match &mut q {
        B2JointDefEnum::DistanceJoint(d) => {
            let mut e = B2distanceJointDef { base: d.base.clone(), local_anchor_a: d.local_anchor_a, local_anchor_b: d.local_anchor_b, length: d.length, ..Default::default() };
            if full {
                e.min_length = 0.0;
                e.max_length = f32::MAX;
                e.stiffness = 0.0;
                e.damping = 0.0;
            }
            *d = e;
        }
        B2JointDefEnum::FrictionJoint(d) => {
            let mut e = B2frictionJointDef { base: d.base.clone(), local_anchor_a: d.local_anchor_a, local_anchor_b: d.local_anchor_b, ..Default::default() };
            if full {
                e.max_force = 0.0;
                e.max_torque = 0.0;
            }
            *d = e;
        }
        B2JointDefEnum::MotorJoint(d) => {
            let mut e = B2motorJointDef { base: d.base.clone(), linear_offset: d.linear_offset, angular_offset: d.angular_offset, ..Default::default() };
            if full {
                e.max_force = 1.0;
                e.max_torque = 1.0;
                e.correction_factor = 0.3;
            }
            *d = e;
        }
        B2JointDefEnum::MouseJoint(d) => {
            let mut e = B2mouseJointDef { base: d.base.clone(), target: d.target, max_force: 50.0, ..Default::default() };
            if full {
                e.stiffness = 0.0;
                e.damping = 0.0;
            }
            *d = e;
        }
        B2JointDefEnum::PrismaticJoint(d) => {
            let mut e = B2prismaticJointDef { base: d.base.clone(), local_anchor_a: d.local_anchor_a, local_anchor_b: d.local_anchor_b, local_axis_a: d.local_axis_a, reference_angle: d.reference_angle, ..Default::default() };
            if full {
                e.enable_limit = false;
                e.lower_translation = 0.0;
                e.upper_translation = 0.0;
                e.enable_motor = false;
                e.motor_speed = 0.0;
                e.max_motor_force = 0.0;
            }
            *d = e;
        }
        B2JointDefEnum::PulleyJoint(d) => {
            let mut e = B2pulleyJointDef { base: d.base.clone(), ground_anchor_a: d.ground_anchor_a, ground_anchor_b: d.ground_anchor_b, local_anchor_a: d.local_anchor_a, local_anchor_b: d.local_anchor_b, length_a: d.length_a, length_b: d.length_b, ..Default::default() };
            if full {
                e.ratio = 1.0;
            }
            *d = e;
        }
        B2JointDefEnum::RevoluteJoint(d) => {
            let mut e = B2revoluteJointDef { base: d.base.clone(), local_anchor_a: d.local_anchor_a, local_anchor_b: d.local_anchor_b, reference_angle: d.reference_angle, ..Default::default() };
            if full {
                e.enable_limit = false;
                e.lower_angle = 0.0;
                e.upper_angle = 0.0;
                e.enable_motor = false;
                e.motor_speed = 0.0;
                e.max_motor_torque = 0.0;
            }
            *d = e;
        }
        B2JointDefEnum::WeldJoint(d) => {
            let mut e = B2weldJointDef { base: d.base.clone(), local_anchor_a: d.local_anchor_a, local_anchor_b: d.local_anchor_b, reference_angle: d.reference_angle, ..Default::default() };
            if full {
                e.stiffness = 0.0;
                e.damping = 0.0;
            }
            *d = e;
        }
        B2JointDefEnum::WheelJoint(d) => {
            let mut e = B2wheelJointDef { base: d.base.clone(), local_anchor_a: d.local_anchor_a, local_anchor_b: d.local_anchor_b, local_axis_a: d.local_axis_a, ..Default::default() };
            if full {
                e.enable_limit = false;
                e.lower_translation = 0.0;
                e.upper_translation = 0.0;
                e.enable_motor = false;
                e.motor_speed = 0.0;
                e.max_motor_torque = 0.0;
                e.stiffness = 0.0;
                e.damping = 0.0;
            }
            *d = e;
        }
        _ => panic!("harness: joint kind"),
    }
    q
}
/// What a definition does not ask for is off: the joint moves as one with everything given as documented. Halfway, limits
/// and motors are switched on with the values the definition left.
fn plain(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let kind = d.d(9);
    let (ra, rb) = (d.d(NBODY), d.d(NBODY));
    let (place, vel, var) = (d.d(5), d.d(4), d.d(3));
    let on = d.d(4);
    let text = if say { format!("{} with defaults, bodies {} {}, place {}, velocities {}, anchors {}, switched on {}", KNAMES[kind], ra, rb, place, vel, var, on) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        if on > 0 && !matches!(kind, PRIS | REV | WHEEL) || (kind == MOUSE && rb < 2) {
            return Ok(());
        }
        let mk = |full: bool| {
            let w = world(0.0, -10.0);
            let q = PLACE[place];
            let a = mkbody(&w, ra, q[0], q[1], q[2], vel, false);
            let b = mkbody(&w, rb, q[3], q[4], q[5], vel, true);
            let s = fit(&specs(kind)[0], &bstate(&a), &bstate(&b), var, p(0.0, 0.0), 0.0);
            let j = w.borrow_mut().create_joint(&plain_def(&s, &a, &b, full));
            (w, a, b, j)
        };
        let (x, y) = (mk(false), mk(true));
        for n in 0..12 {
            if n == 6 && on > 0 {
                for z in [&x, &y] {
                    match z.3.borrow_mut().as_derived_mut() {
                        JointAsDerivedMut::EPrismaticJoint(q) => {
                            q.enable_limit(on & 1 > 0);
                            q.enable_motor(on & 2 > 0);
                        }
                        JointAsDerivedMut::ERevoluteJoint(q) => {
                            q.enable_limit(on & 1 > 0);
                            q.enable_motor(on & 2 > 0);
                        }
                        JointAsDerivedMut::EWheelJoint(q) => {
                            q.enable_limit(on & 1 > 0);
                            q.enable_motor(on & 2 > 0);
                        }
                        _ => {}
                    }
                }
            }
            step(&x.0, DT);
            step(&y.0, DT);
            cx.step(2);
            for (k, (s, t)) in [(&x.1, &y.1), (&x.2, &y.2)].iter().enumerate() {
                let (s, t) = (bstate(s), bstate(t));
                ensure!(s.pos == t.pos && s.ang == t.ang && s.v == t.v && s.w == t.w, "step {}: body {} at {:?} moving {:?} {}, with the defaults spelled out at {:?} moving {:?} {}", n, k, s.pos, s.v, s.w, t.pos, t.v, t.w);
                cx.eval(4);
            }
        }
        cx.state(hash_world(&x.0));
        Ok(())
    };
    (text, run)
}

pub fn check() -> Check {
    let ns = all_specs().len() as u64;
    let nb = (NBODY * NBODY) as u64;
    let depth = if thorough() { 3 } else { 2 };
    let nset: u64 = setter_cases(depth).iter().map(|c| c.2).sum::<u64>() * RECIPES.len() as u64;
    Check {
        id: "C19",
        bounds: format!("{} joint parameter sets x 7x7 body recipes x placements x 4 velocities x 3 anchors x 3 gaps x warm starting, 3 converged steps each; every sequence of {} setter calls from every parameter set on 6 body pairs, each followed by 2 converged steps; limit ranges x motors x pushes for 60 steps (limits hold, and correct towards themselves only); definitions giving geometry only, for 9 kinds x 7x7 recipes x 5 placements x 4 velocities x 3 anchors, limit and motor switched on later or not, 12 steps; gear ratio changes", ns, depth),
        assumptions: vec![
            "steps judged row by row use 300 velocity iterations".into(),
            "a motor stalled by its own limit is only bounded, not judged for speed".into(),
            "stiffness, damping, maximum force of friction and motor joints and distance settings are not required to wake".into(),
        ],
        phases: vec![
            phase("laws", ns * nb * if thorough() { 5 } else { 3 } * 4 * 3 * 3 * 2, |i| laws(i, true).0, |i, cx| laws(i, false).1(cx)),
            phase("setters", nset, move |i| setters(i, true, depth).0, move |i, cx| setters(i, false, depth).1(cx)),
            phase("plain", 9 * nb * 5 * 4 * 3 * 4, |i| plain(i, true).0, |i, cx| plain(i, false).1(cx)),
            phase("stops", 4 * 6 * 3 * 7 * 3 * 3 * 4 * 2, |i| stops(i, true).0, |i, cx| stops(i, false).1(cx)),
            phase("gear ratio", 2 * 2 * 5 * 5 * 5, |i| ratio(i, true).0, |i, cx| ratio(i, false).1(cx)),
        ],
    }
}
