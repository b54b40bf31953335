//! C18: every joint keeps its bodies in the promised relation.
use crate::c20::{all_specs, gear_sys, Link, Sys, RATIOS};
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::jk::*;
use crate::jsim::*;
use crate::kit::*;

fn speed_tol(s: &[Bs]) -> f64 {
    1e-3 * (1.0 + s.iter().map(|x| x.v.len() + x.w.abs()).fold(0.0, f64::max))
}
/// Hard rows vanish after a converged step.
fn converged(sys: &Sys, cx: &mut Ctx, h: f32) -> R {
    let s0 = sys.states();
    sys.w.borrow_mut().step(h, if sys.gear.is_some() { 2000 } else { 300 }, 10);
    let s1 = sys.states();
    let tol = speed_tol(&s1) + 0.1 * speed_tol(&s0);
    for l in &sys.links {
        let (rw, _) = rows(&l.spec, &l.j, &s0[l.a], &s0[l.b], h as f64);
        for r in &rw {
            obey(r, &s1[l.a], &s1[l.b], &sys.inv[l.a], &sys.inv[l.b], h as f64, tol, true)?;
            cx.eval(1);
        }
    }
    if let Some(g) = &sys.gear {
        let (l1, l2) = (&sys.links[g.l1], &sys.links[g.l2]);
        let sd = gear_sides([l1.spec.kind, l2.spec.kind], [&l1.spec, &l2.spec], [&s0[l1.a], &s0[l2.a]], [&s0[l1.b], &s0[l2.b]]);
        let side = |q: &(P, f64, f64), b: &Bs, m: &Bs| q.0.dot(m.v - b.v) + q.1 * m.w - q.2 * b.w;
        let e = side(&sd[0], &s1[l1.a], &s1[l1.b]) + g.ratio * side(&sd[1], &s1[l2.a], &s1[l2.b]);
        ensure!(e.abs() <= tol * 3.0, "gear: speeds off the ratio by {}", e);
        cx.eval(1);
    }
    cx.step(1);
    cx.state(hash_world(&sys.w));
    Ok(())
}

/// Pulley ropes pulled all the way in have no direction.
fn jammed(sys: &Sys, s: &[Bs]) -> bool {
    sys.links.iter().any(|l| l.spec.kind == PULL && ((xof(&s[l.a]).at(l.spec.la) - l.spec.ga).len() < 0.75 || (xof(&s[l.b]).at(l.spec.lb) - l.spec.gb).len() < 0.75))
}
/// Angle part cannot be corrected when neither body turns.
fn off(sys: &Sys, l: &Link, s: &[Bs]) -> (f64, f64) {
    let (e, a) = error(&l.spec, &s[l.a], &s[l.b]);
    (e, if sys.inv[l.a].i + sys.inv[l.b].i > 0.0 { a } else { 0.0 })
}

struct Spec2 {
    s: Jt,
    ra: usize,
    rb: usize,
    place: usize,
    vel: usize,
    var: usize,
}
fn dec2(d: &mut Dec, places: usize, vels: usize) -> Spec2 {
    let sp = all_specs();
    let s = d.r(&sp).clone();
    Spec2 { s, ra: d.d(NBODY), rb: d.d(NBODY), place: d.d(places), vel: d.d(vels), var: d.d(3) }
}
impl Spec2 {
    fn skip(&self) -> bool {
        (self.ra < 2 && self.rb < 2) || (self.s.kind == MOUSE && self.rb < 2)
    }
    fn text(&self) -> String {
        format!("{} bodies {}/{} place {} velocities {} anchors {} {:?}", KNAMES[self.s.kind], self.ra, self.rb, self.place, self.vel, self.var, self.s)
    }
    fn sys(&self, g: (f32, f32), gap: P, twist: f64) -> Sys {
        Sys::from_two(two(self.ra, self.rb, self.place, self.vel, g, &self.s, self.var, gap, twist), g)
    }
}

fn speeds(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let q = dec2(&mut d, if thorough() { 5 } else { 3 }, 4);
    let gap = d.b();
    let warm = !d.b();
    let text = if say { format!("{} broken {} warm {}", q.text(), gap, warm) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        if q.skip() {
            return Ok(());
        }
        let sys = q.sys((1.0, -10.0), if gap { p(0.2, -0.1) } else { p(0.0, 0.0) }, if gap { 0.3 } else { 0.0 });
        sys.w.borrow_mut().set_warm_starting(warm);
        for h in [1.0 / 60.0, 1.0 / 60.0, 1.0 / 40.0] {
            converged(&sys, cx, h)?;
        }
        Ok(())
    };
    (text, run)
}

/// A joint keeps its relation when one of its bodies was asleep before the step.
fn sleepers(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let q = dec2(&mut d, 2, 4);
    let who = d.d(2);
    let before = d.d(2);
    let text = if say { format!("{}, body {} asleep after {} steps", q.text(), who, before) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        let r = [q.ra, q.rb];
        // an awake dynamic body is what brings the other one along
        if q.skip() || r[who] == 0 || r[1 - who] < 2 {
            return Ok(());
        }
        let sys = q.sys((1.0, -10.0), p(0.0, 0.0), 0.0);
        for _ in 0..before {
            converged(&sys, cx, 1.0 / 60.0)?;
        }
        let b = &sys.b[who];
        b.borrow_mut().set_sleeping_allowed(true);
        b.borrow_mut().set_awake(false);
        let s = bstate(b);
        ensure!(!s.awake && s.v.len() == 0.0 && s.w == 0.0, "body {} is not asleep", who);
        for _ in 0..2 {
            converged(&sys, cx, 1.0 / 60.0)?;
            ensure!(bstate(b).awake, "body {} sleeps on beside an awake body it is joined to", who);
            cx.eval(1);
        }
        Ok(())
    };
    (text, run)
}

/// A satisfied joint at rest moves nothing.
fn rest(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let q = dec2(&mut d, 5, 1);
    let text = if say { q.text() } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        let j = &q.s;
        let driven = j.motor && j.speed != 0.0;
        let outside = j.limit && (j.lo > 0.0 || j.hi < 0.0);
        let pulled = (j.kind == DIST && j.limit && j.k > 0.0 && j.len != 1.0) || (j.kind == MOTOR && (j.off.len() > 0.0 || j.rf != 0.0));
        if q.skip() || driven || outside || pulled {
            return Ok(());
        }
        let mut q2 = Spec2 { s: q.s.clone(), ..q };
        if q2.s.kind == DIST && q2.s.limit && q2.s.k > 0.0 {
            q2.s.len = 0.0;
        }
        let sys = q2.sys((0.0, 0.0), p(0.0, 0.0), 0.0);
        let s0 = sys.states();
        for _ in 0..20 {
            step(&sys.w, DT);
            cx.step(1);
        }
        for (a, b) in s0.iter().zip(sys.states()) {
            ensure!(pclose(a.pos, b.pos, 1e-4) && (a.ang - b.ang).abs() < 1e-4, "moved from {:?} {} to {:?} {}", a.pos, a.ang, b.pos, b.ang);
            ensure!(b.v.len() < 1e-3 && b.w.abs() < 1e-3, "speeds {:?} {}", b.v, b.w);
            cx.eval(2);
        }
        cx.state(hash_world(&sys.w));
        Ok(())
    };
    (text, run)
}

/// A satisfied joint stays satisfied through motion and a disturbance.
fn hold(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let q = dec2(&mut d, 2, 4);
    let kick = d.d(3);
    let text = if say { format!("{} kick {}", q.text(), kick) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        if q.skip() || (q.s.limit && q.s.kind != DIST && (q.s.lo > 0.0 || q.s.hi < 0.0)) || (q.s.kind == DIST && (q.s.lo > 0.0 || q.s.hi < 0.0)) {
            return Ok(());
        }
        let sys = q.sys((0.0, -10.0), p(0.0, 0.0), 0.0);
        let mut late = 0;
        for n in 0..60 {
            if n == 20 && kick > 0 {
                let b = &sys.b[1];
                let m = b.borrow().get_mass();
                let c = b.borrow().get_world_center();
                if kick == 1 {
                    b.borrow_mut().apply_linear_impulse(v(2.0 * m, 1.5 * m), c + v(0.2, 0.1), true);
                } else {
                    let w = b.borrow().get_angular_velocity();
                    b.borrow_mut().set_angular_velocity(w - 4.0);
                    sys.b[0].borrow_mut().set_linear_velocity(v(-0.5, 1.0));
                }
            }
            sys.w.borrow_mut().step(DT, 12, 12);
            let s = sys.states();
            if jammed(&sys, &s) {
                break;
            }
            let (e, a) = off(&sys, &sys.links[0], &s);
            ensure!(e <= 0.08 && a <= 0.3, "after step {} the relation is off by {} (angle {})", n, e, a);
            late = if e > 0.02 || a > 0.12 { late + 1 } else { 0 };
            ensure!(late <= 6, "after step {} the relation has been off for {} steps, now by {} (angle {})", n, late, e, a);
            cx.step(1);
            cx.eval(2);
        }
        cx.state(hash_world(&sys.w));
        Ok(())
    };
    (text, run)
}

/// A broken joint is pulled back.
fn back(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let q = dec2(&mut d, 3, 1);
    let (gap, twist) = *d.r(&[(p(0.3, -0.2), 0.5), (p(-0.25, 0.4), -0.8), (p(0.05, 0.6), 0.1)]);
    let g = *d.r(&[(0.0, 0.0), (0.0, -10.0)]);
    let text = if say { format!("{} gap {:?} twist {} gravity {:?}", q.text(), gap, twist, g) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        if q.skip() {
            return Ok(());
        }
        let sys = q.sys(g, gap, twist);
        let s0 = sys.states();
        // bodies that cannot move along a direction cannot be pulled back
        let free = q.ra >= 2 && q.rb >= 2;
        let com = |s: &[Bs]| (s[0].c * s[0].m + s[1].c * s[1].m) * (1.0 / (s[0].m + s[1].m));
        for _ in 0..120 {
            sys.w.borrow_mut().step(DT, if q.s.kind == MOTOR { 100 } else { 12 }, 12);
            cx.step(1);
            if jammed(&sys, &sys.states()) {
                return Ok(());
            }
        }
        let s = sys.states();
        let (e, a) = off(&sys, &sys.links[0], &s);
        ensure!(e <= 0.011 && a <= 0.06, "after 120 steps the relation is still off by {} (angle {})", e, a);
        if free && g.1 == 0.0 && q.s.kind != PULL && q.s.kind != MOUSE {
            ensure!(pclose(com(&s0), com(&s), 2e-3), "the common centre moved from {:?} to {:?}", com(&s0), com(&s));
        }
        let l = &sys.links[0].spec;
        if l.kind == MOTOR && l.factor > 0.0 && l.maxf > 1e3 && l.maxt > 1e3 {
            let e = xof(&s[0]).at(l.off) - s[1].pos;
            let t = s[1].ang - s[0].ang - l.rf;
            ensure!(e.len() < 0.02, "motor offset missed by {:?}", e);
            if sys.inv[0].i + sys.inv[1].i > 0.0 {
                ensure!(t.abs() < 0.02, "motor angle missed by {}", t);
            }
        }
        cx.eval(4);
        cx.state(hash_world(&sys.w));
        Ok(())
    };
    (text, run)
}

/// The mouse joint brings its anchor to the target.
fn mouse(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let rb = 2 + d.d(NBODY - 2);
    let place = d.d(5);
    let var = d.d(3);
    let to = *d.r(&[p(1.0, 0.0), p(-0.5, 2.0), p(0.0, 0.0), p(3.0, -2.0)]);
    let vel = d.d(4);
    let text = if say { format!("body {} place {} anchors {} moved {:?} velocities {}", rb, place, var, to, vel) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        let mut t = two(0, rb, place, vel, (0.0, 0.0), &specs(MOUSE)[0], var, p(0.0, 0.0), 0.0);
        let m = t.b.borrow().get_mass() as f64;
        let target = rp(t.spec.target + to);
        t.spec.target = target;
        if let box2d_rs::b2_joint::JointAsDerivedMut::EMouseJoint(q) = t.j.borrow_mut().as_derived_mut() {
            q.set_target(vp(target));
            q.set_stiffness((m * 60.0) as f32);
            q.set_damping((m * 12.0) as f32);
        }
        for _ in 0..900 {
            step(&t.w, DT);
            cx.step(1);
        }
        let s = bstate(&t.b);
        let e = xof(&s).at(t.spec.lb) - target;
        ensure!(e.len() < 0.1, "anchor misses the target by {:?} after 900 steps", e);
        cx.eval(1);
        cx.state(hash_world(&t.w));
        Ok(())
    };
    (text, run)
}

/// Two joints on three bodies.
fn chain(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let hard = [specs(DIST)[0].clone(), specs(DIST)[2].clone(), specs(REV)[0].clone(), specs(REV)[1].clone(), specs(PRIS)[0].clone(), specs(PRIS)[1].clone(), specs(WELD)[0].clone(), specs(WELD)[1].clone(), specs(WHEEL)[1].clone(), specs(PULL)[1].clone(), specs(MOTOR)[1].clone(), specs(FRIC)[0].clone()];
    let mut d = Dec::new(i);
    let s1 = d.r(&hard).clone();
    let s2 = d.r(&hard).clone();
    let ra = *d.r(&[0usize, 1, 2]);
    let rb = *d.r(&[2usize, 3]);
    let rc = *d.r(&[2usize, 4, 1]);
    let flip = d.b();
    let vel = d.d(2);
    let text = if say { format!("{} and {} ({:?} {:?}) bodies {} {} {} flip {} velocities {}", KNAMES[s1.kind], KNAMES[s2.kind], s1, s2, ra, rb, rc, flip, vel) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        let w = world(0.0, -10.0);
        let b = vec![mkbody(&w, ra, 0.0, 0.0, 0.3, vel, false), mkbody(&w, rb, 1.25, 0.5, -0.5, vel, true), mkbody(&w, rc, 2.5, -0.25, 1.0, vel, false)];
        for x in &b {
            if x.borrow().is_fixed_rotation() {
                x.borrow_mut().set_angular_velocity(0.0);
            }
        }
        let mut links = vec![];
        for (k, (s, mut x, mut y)) in [(s1.clone(), 0usize, 1usize), (s2.clone(), 1, 2)].into_iter().enumerate() {
            if flip && k == 1 {
                std::mem::swap(&mut x, &mut y);
            }
            let sp = fit(&s, &bstate(&b[x]), &bstate(&b[y]), k, p(0.0, 0.0), 0.0);
            let j = make(&w, &sp, &b[x], &b[y], k as u32);
            links.push(Link { spec: sp, j, a: x, b: y });
        }
        let inv = b.iter().map(inv).collect();
        let sys = Sys { w, b, links, gear: None, g: p(0.0, -10.0), inv };
        if ra == 1 && (rc == 1 || rc == 4) && vel > 0 {
            return Ok(()); // two driven ends may be impossible to satisfy
        }
        for n in 0..40 {
            sys.w.borrow_mut().step(DT, 60, 60);
            let s = sys.states();
            if jammed(&sys, &s) {
                break;
            }
            for (k, l) in sys.links.iter().enumerate() {
                // joints between bodies that cannot give way to each other
                let (e, a) = off(&sys, l, &s);
                if ra < 2 && rc < 2 && (e > 0.02 || a > 0.05) {
                    return Ok(());
                }
                ensure!(e <= 0.03 && a <= 0.08, "after step {} joint {} is off by {} (angle {})", n, k, e, a);
                cx.eval(2);
            }
            cx.step(1);
        }
        cx.state(hash_world(&sys.w));
        Ok(())
    };
    (text, run)
}

fn gears(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let k1 = *d.r(&[REV, PRIS]);
    let k2 = *d.r(&[REV, PRIS]);
    let lay = d.d(5);
    let ratio = *d.r(&RATIOS);
    let vel = d.d(4);
    let tilt = d.d(3);
    let mode = d.d(3);
    let text = if say { format!("gear {} {} layout {} ratio {} velocities {} tilt {} mode {}", KNAMES[k1], KNAMES[k2], lay, ratio, vel, tilt, mode) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        let g = if mode == 0 { (0.0, 0.0) } else { (0.5, -5.0) };
        let sys = gear_sys(k1, k2, lay, ratio, vel, tilt, g, 0, 0);
        let coord = |s: &[Bs]| {
            let (l1, l2) = (&sys.links[0], &sys.links[1]);
            gear_coord(k1, &l1.spec, &s[l1.a], &s[l1.b]) + ratio as f64 * gear_coord(k2, &l2.spec, &s[l2.a], &s[l2.b])
        };
        let c0 = coord(&sys.states());
        let scale = 1.0 + ratio.abs() as f64;
        if mode == 2 {
            // broken by hand, then left alone
            let b = &sys.b[2];
            let (x, a) = (b.borrow().get_position(), b.borrow().get_angle());
            b.borrow_mut().set_transform(x + v(0.1, 0.15), a + 0.4);
        }
        for n in 0..60 {
            if mode < 2 && n < 3 {
                converged(&sys, cx, DT)?;
            } else {
                sys.w.borrow_mut().step(DT, 40, 40);
                cx.step(1);
            }
            let s = sys.states();
            if mode < 2 || n > 50 {
                let e = coord(&s) - c0;
                ensure!(e.abs() <= 0.05 * scale, "after step {} the geared coordinates are off by {}", n, e);
                for l in &sys.links {
                    let (e, a) = off(&sys, l, &s);
                    ensure!(e <= 0.03 && a <= 0.06, "after step {} a geared joint is off by {} (angle {})", n, e, a);
                }
                cx.eval(3);
            }
        }
        cx.state(hash_world(&sys.w));
        Ok(())
    };
    (text, run)
}

/// Joints between bodies that do not give way leave them alone.
fn driven(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let sp = all_specs();
    let s = d.r(&sp).clone();
    let (ra, rb) = *d.r(&[(0usize, 1usize), (1, 0), (1, 1), (0, 0)]);
    let place = d.d(5);
    let vel = d.d(4);
    let var = d.d(3);
    let gap = d.b();
    let text = if say { format!("{} bodies {}/{} place {} velocities {} anchors {} gap {} {:?}", KNAMES[s.kind], ra, rb, place, vel, var, gap, s) } else { String::new() };
    let run = move |cx: &mut Ctx| -> R {
        if s.kind == MOUSE {
            return Ok(());
        }
        let t = two(ra, rb, place, vel, (0.0, -10.0), &s, var, if gap { p(0.3, -0.2) } else { p(0.0, 0.0) }, if gap { 0.5 } else { 0.0 });
        let b = [t.a.clone(), t.b.clone()];
        let s0 = [bstate(&b[0]), bstate(&b[1])];
        for n in 1..=5 {
            t.w.borrow_mut().step(DT, 8, 3);
            for (k, x) in b.iter().enumerate() {
                let s = bstate(x);
                let e = s0[k].pos + s0[k].v * (n as f64 * DT as f64);
                ensure!(s.v == s0[k].v && s.w == s0[k].w, "body {} changed velocity {:?} {} to {:?} {}", k, s0[k].v, s0[k].w, s.v, s.w);
                ensure!(pclose(s.pos, e, 1e-4) && (s.ang - s0[k].ang - s0[k].w * n as f64 * DT as f64).abs() < 1e-4, "body {} moved to {:?} {} instead of {:?}", k, s.pos, s.ang, e);
                cx.eval(2);
            }
            cx.step(1);
        }
        cx.state(hash_world(&t.w));
        Ok(())
    };
    (text, run)
}

pub fn check() -> Check {
    let ns = all_specs().len() as u64;
    let nb = (NBODY * NBODY) as u64;
    Check {
        id: "C18",
        bounds: format!("{} joint parameter sets of nine kinds x 7x7 body recipes x placements x velocities x 3 anchor choices: relation speeds after converged steps (300 iterations), 20 steps of rest, 60 steps of motion with kicks, 120 steps of recovery from gaps and twists; mouse targets; all pairs of 12 parameter sets on three bodies for 40 steps; gears over all joint pairs, 5 layouts, 5 ratios for 60 steps", ns),
        assumptions: vec![
            "relations between bodies that cannot give way (no free coordinate) are not judged".into(),
            "tolerances: speeds 1e-3 relative, lengths 0.02-0.03, angles 0.05-0.08 rad during motion".into(),
        ],
        phases: vec![
            phase("speeds", ns * nb * if thorough() { 5 } else { 3 } * 4 * 3 * 2 * 2, |i| speeds(i, true).0, |i, cx| speeds(i, false).1(cx)),
            phase("sleepers", ns * nb * 2 * 4 * 3 * 2 * 2, |i| sleepers(i, true).0, |i, cx| sleepers(i, false).1(cx)),
            phase("rest", ns * nb * 5 * 3, |i| rest(i, true).0, |i, cx| rest(i, false).1(cx)),
            phase("hold", ns * nb * 2 * 4 * 3 * 3, |i| hold(i, true).0, |i, cx| hold(i, false).1(cx)),
            phase("back", ns * nb * 3 * 3 * 3 * 2, |i| back(i, true).0, |i, cx| back(i, false).1(cx)),
            phase("driven", ns * 4 * 5 * 4 * 3 * 2, |i| driven(i, true).0, |i, cx| driven(i, false).1(cx)),
            phase("mouse", 5 * 5 * 3 * 4 * 4, |i| mouse(i, true).0, |i, cx| mouse(i, false).1(cx)),
            phase("chain", 12 * 12 * 3 * 2 * 3 * 2 * 2, |i| chain(i, true).0, |i, cx| chain(i, false).1(cx)),
            phase("gears", 2 * 2 * 5 * 5 * 4 * 3 * 3, |i| gears(i, true).0, |i, cx| gears(i, false).1(cx)),
        ],
    }
}
