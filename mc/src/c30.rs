//! C30: world switches and step parameters.
use crate::c06::{cmp, Ears, Sim, OPS, SCENES};
use crate::ensure;
use crate::fw::*;
use crate::jk::*;
use crate::kit::*;
use box2d_rs::b2_joint::*;
use box2d_rs::joints::b2_pulley_joint::*;
use box2d_rs::b2_world::*;

/// warm starting, continuous physics, sub-stepping, sleeping, clearing of forces
const SW: [&str; 5] = ["warm starting", "continuous physics", "sub-stepping", "sleeping", "force clearing"];
fn set(w: &W, k: usize, f: bool) {
    let mut w = w.borrow_mut();
    match k {
        0 => w.set_warm_starting(f),
        1 => w.set_continuous_physics(f),
        2 => w.set_sub_stepping(f),
        3 => w.set_allow_sleeping(f),
        _ => w.set_auto_clear_forces(f),
    }
}
fn get(w: &W) -> [bool; 5] {
    let w = w.borrow();
    [w.get_warm_starting(), w.get_continuous_physics(), w.get_sub_stepping(), w.get_allow_sleeping(), w.get_auto_clear_forces()]
}

/// Every switch reads back as last set, whatever else happens.
fn readback(i: u64, len: usize) -> (String, impl Fn(&mut Ctx) -> R) {
    const N: usize = 15;
    let mut d = Dec::new(i);
    let scene = d.d(SCENES.len() + 1);
    let empty = scene == SCENES.len();
    let ops = decode_seq(d.0, N, len);
    let say = move |o: usize| match o {
        0..=9 => format!("{} {}", SW[o / 2], if o % 2 == 1 { "on" } else { "off" }),
        10 => "step".into(),
        11 => "zero step".into(),
        12 => "gravity".into(),
        13 => "shift origin".into(),
        _ => "bullet".into(),
    };
    (format!("scene {}: {}", if empty { "without bodies" } else { SCENES[scene] }, ops.iter().map(|o| say(*o)).collect::<Vec<_>>().join(", ")), move |cx: &mut Ctx| {
        let mut s = Sim::new(if empty { 0 } else { scene }, Ears::None);
        if empty {
            s.w = world(0.0, -10.0);
            s.bs.clear();
            s.js.clear();
        }
        let mut m = [true, true, false, true, true];
        let mut g = v(0.0, -10.0);
        ensure!(get(&s.w) == m, "a fresh world starts with {:?}", get(&s.w));
        for o in &ops {
            let before: Vec<Bs> = s.bs.iter().map(bstate).collect();
            match *o {
                q @ 0..=9 => {
                    set(&s.w, q / 2, q % 2 == 1);
                    m[q / 2] = q % 2 == 1;
                }
                10 => step(&s.w, DT),
                11 => step(&s.w, 0.0),
                12 => {
                    g = v(2.0, -3.0);
                    s.w.borrow_mut().set_gravity(g);
                }
                13 => s.w.borrow().shift_origin(v(1.0, 0.0)),
                _ if empty => {}
                _ => s.op(16),
            }
            cx.step(1);
            cx.eval(2);
            ensure!(get(&s.w) == m, "after {} the switches read {:?} instead of {:?}", say(*o), get(&s.w), m);
            let h = s.w.borrow().get_gravity();
            ensure!(h == g, "gravity reads {:?} instead of {:?}", h, g);
            ensure!(!s.w.borrow().is_locked(), "locked outside a step");
            if *o < 10 || *o == 12 {
                for (k, b) in s.bs.iter().enumerate() {
                    let mut q = bstate(b);
                    if *o == 6 {
                        // switching sleep off wakes everything
                        ensure!(q.awake || b.borrow().get_type() == ST, "body asleep although sleeping is switched off");
                        q.awake = before[k].awake;
                    }
                    ensure!(q == before[k], "{} changed a body from {:?} to {:?}", say(*o), before[k], q);
                }
            }
        }
        cx.state(hash_world(&s.w));
        Ok(())
    })
}

fn free_scene(scene: usize) -> (W, Vec<B>) {
    let w = world(0.5, -9.0);
    let mut bs = vec![];
    let n = if scene == 0 { 1 } else { 4 };
    for k in 0..n {
        let mut d = bdef(if scene == 2 && k == 1 { KI } else { DY }, 30.0 * k as f32, 5.0, 0.3 * k as f32);
        d.linear_velocity = v(3.0 - k as f32, 40.0 * (k % 2) as f32);
        d.angular_velocity = 0.7 * k as f32;
        d.linear_damping = 0.1 * k as f32;
        d.bullet = k == 3;
        d.fixed_rotation = k == 2;
        d.gravity_scale = 1.0 - 0.25 * k as f32;
        let b = B2world::create_body(w.clone(), &d);
        fixu(&b, &[Sh::Box(0.5, 0.3), Sh::Circle(0.4, 0.1, 0.0), Sh::Poly(vec![(0.0, 0.0), (1.0, 0.0), (0.2, 0.9)]), Sh::Box(0.2, 0.1)][k], 1.0, k as u32);
        bs.push(b);
    }
    // a static body far from everything
    fixu(&body(&w, ST, 0.0, -900.0, 0.0), &Sh::Box(5.0, 1.0), 0.0, 99);
    (w, bs)
}

/// Free bodies under all switch settings, changed before every step.
fn free(i: u64, n: usize) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let scene = d.d(3);
    let dts = d.p(&[[DT; 4], [0.01, 0.02, 0.1, 0.005], [DT, 0.0, DT, 0.0]]);
    let its = d.p(&[(8, 3), (0, 0), (1, 40)]);
    let sw: Vec<usize> = (0..n).map(|_| d.d(16)).collect();
    (format!("scene {} steps {:?} iterations {:?} switches {:?}", scene, dts, its, sw), move |cx: &mut Ctx| {
        let (w, bs) = free_scene(scene);
        let (r, rs) = free_scene(scene);
        for (k, m) in sw.iter().enumerate() {
            let force = v(2.0, 3.0 * k as f32);
            for q in 0..4 {
                set(&w, q, m >> q & 1 == 1);
            }
            for x in bs.iter().chain(&rs) {
                x.borrow_mut().apply_force_to_center(force, true);
                x.borrow_mut().apply_torque(0.2, true);
            }
            w.borrow_mut().step(dts[k % 4], its.0, its.1);
            r.borrow_mut().step(dts[k % 4], 8, 3);
            cx.step(1);
            for (b, q) in bs.iter().zip(&rs) {
                let (x, y) = (bstate(b), bstate(q));
                ensure!(x == y, "after step {} with switches {:04b} the body is {:?} instead of {:?}", k, m, x, y);
                cx.eval(1);
            }
        }
        cx.state(hash_world(&w));
        Ok(())
    })
}

/// Forces with clearing off stay until cleared, exactly like forces applied again.
fn clearing(i: u64, n: usize) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let scene = d.d(3);
    let ops: Vec<usize> = (0..n).map(|_| d.d(6)).collect();
    let names = ["step", "apply force", "clear forces", "clearing on", "clearing off", "zero step"];
    (format!("scene {}: {}", scene, ops.iter().map(|o| names[*o]).collect::<Vec<_>>().join(", ")), move |cx: &mut Ctx| {
        let (w, bs) = free_scene(scene);
        let (r, rs) = free_scene(scene);
        // pending force and torque, as a multiple of one application
        let (mut pend, mut auto) = (0, true);
        for o in &ops {
            match *o {
                0 | 5 => {
                    let dt = if *o == 0 { DT } else { 0.0 };
                    step(&w, dt);
                    if *o == 0 {
                        for b in &rs {
                            for _ in 0..pend {
                                b.borrow_mut().apply_force(v(1.5, -2.0), v(1.0, 2.0), true);
                                b.borrow_mut().apply_torque(0.5, true);
                            }
                        }
                        step(&r, dt);
                    }
                    if auto {
                        pend = 0;
                    }
                }
                1 => {
                    for b in &bs {
                        b.borrow_mut().apply_force(v(1.5, -2.0), v(1.0, 2.0), true);
                        b.borrow_mut().apply_torque(0.5, true);
                    }
                    pend += 1;
                }
                2 => {
                    w.borrow_mut().clear_forces();
                    pend = 0;
                }
                q => {
                    auto = q == 3;
                    w.borrow_mut().set_auto_clear_forces(auto);
                }
            }
            cx.step(1);
            for (b, q) in bs.iter().zip(&rs) {
                let (x, y) = (bstate(b), bstate(q));
                // torques about the moving centre differ when the body has moved since
                ensure!(
                    (x.v - y.v).len() < 1e-4 && (x.c - y.c).len() < 1e-4,
                    "after {} the body is {:?} instead of {:?} ({} pending)", names[*o], x, y, pend
                );
                cx.eval(1);
            }
        }
        cx.state(hash_world(&w));
        Ok(())
    })
}

/// Steps of no length move nothing and change nothing later.
fn zero(i: u64, len: usize) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let scene = d.d(SCENES.len());
    let sub = d.b();
    let ops = decode_seq(d.0, OPS.len(), len);
    let name = format!("scene {}{}: {}", SCENES[scene], if sub { ", sub-stepping" } else { "" }, ops.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(", "));
    (name, move |cx: &mut Ctx| {
        let run = |at: usize, times: usize, cx: &mut Ctx| -> Result<Sim, String> {
            let mut s = Sim::new(scene, Ears::None);
            set(&s.w, 2, sub);
            for k in 0..=ops.len() {
                if k == at {
                    for _ in 0..times {
                        let b: Vec<Bs> = s.bs.iter().map(bstate).collect();
                        step(&s.w, 0.0);
                        for (x, q) in s.bs.iter().zip(&b) {
                            let mut y = bstate(x);
                            // found contacts may wake a body
                            ensure!(y.awake || !q.awake, "a step of no length put a body to sleep");
                            y.awake = q.awake;
                            ensure!(y == *q, "a step of no length changed a body from {:?} to {:?}", q, y);
                            cx.eval(1);
                        }
                        finite_world(&s.w)?;
                    }
                }
                if k < ops.len() {
                    // forces do not outlive any step, so this one is an impulse only
                    if ops[k] == 7 {
                        s.bs[1].borrow_mut().apply_linear_impulse_to_center(v(1.5, 2.0), true);
                    } else {
                        s.op(ops[k]);
                    }
                }
            }
            s.tail(2);
            cx.step(ops.len() as u64 + 3);
            Ok(s)
        };
        for at in 0..=ops.len() {
            let base = run(at, 0, cx)?;
            let a = base.digest();
            cx.state(a.iter().fold(0, |h, x| h.rotate_left(5) ^ x.1));
            // contacts found earlier are listed earlier, so only where a step would follow anyway
            let followed = at == ops.len() || ops[at] < 2;
            for times in [1, 2] {
                if !followed {
                    run(at, times, cx)?;
                    continue;
                }
                cmp(&a, &run(at, times, cx)?.digest(), &format!("{} steps of no length at point {}", times, at))?;
                cx.eval(1);
            }
        }
        Ok(())
    })
}

/// Any step lengths, any iteration counts, any switches: everything stays finite.
fn lengths(i: u64, n: usize) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let scene = d.d(SCENES.len());
    let vi = d.p(&[0, 1, 2, 8, 30]);
    let pi = d.p(&[0, 1, 3, 12]);
    let sw = d.d(8);
    let dts: Vec<f32> = (0..n).map(|_| d.p(&[1e-6, 1e-3, 1.0 / 240.0, DT, 0.05, 0.2, 1.0, 10.0])).collect();
    let name = format!("scene {} iterations {}/{} switches {:03b} steps {:?}", SCENES[scene], vi, pi, sw, dts);
    (name, move |cx: &mut Ctx| {
        let mut s = Sim::new(scene, Ears::None);
        for q in 0..3 {
            set(&s.w, q, sw >> q & 1 == 1);
        }
        s.op(16);
        for dt in &dts {
            s.w.borrow_mut().step(*dt, vi, pi);
            cx.step(1);
            cx.eval(1);
            finite_world(&s.w)?;
            ensure!(!s.w.borrow().is_locked(), "locked after a step");
        }
        cx.state(hash_world(&s.w));
        Ok(())
    })
}

const SETTLED: [&str; 8] = ["three boxes stacked", "revolute", "weld", "distance", "prismatic", "pulley", "friction", "motor"];
/// A settled scene stays settled when the step length changes, even with a single iteration.
fn varying(i: u64, n: usize) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let scene = d.d(SETTLED.len() + 1);
    let (scene, warm) = if scene == SETTLED.len() { (0, false) } else { (scene, true) };
    let dts: Vec<f32> = (0..n).map(|_| d.p(&[1.0 / 240.0, 1.0 / 120.0, DT, 1.0 / 30.0, 1.0 / 20.0])).collect();
    (format!("{}{} steps {:?}", SETTLED[scene], if warm { "" } else { ", no warm starting" }, dts), move |cx: &mut Ctx| {
        let w = world(0.0, -10.0);
        let g = body(&w, ST, 0.0, 0.0, 0.0);
        let mut bs = vec![];
        let mut put = |x: f32, y: f32, sh: Sh| {
            let b = body(&w, DY, x, y, 0.0);
            fixu(&b, &sh, 1.0, 1 + bs.len() as u32);
            b.borrow_mut().set_sleeping_allowed(false);
            bs.push(b.clone());
            b
        };
        match scene {
            0 => {
                fixu(&g, &Sh::Box(10.0, 0.5), 0.0, 0);
                for k in 0..3 {
                    put(0.0, 1.005 + 1.005 * k as f32, Sh::Box(0.5, 0.5));
                }
            }
            5 => {
                let (a, b) = (put(-2.0, 0.0, Sh::Box(0.5, 0.5)), put(2.0, 0.0, Sh::Box(0.5, 0.5)));
                let mut q = B2pulleyJointDef::<U>::default();
                let (pa, pb) = (a.borrow().get_position(), b.borrow().get_position());
                q.initialize(a.clone(), b.clone(), pa + v(0.0, 4.0), pb + v(0.0, 3.0), pa, pb, 1.0);
                w.borrow_mut().create_joint(&B2JointDefEnum::PulleyJoint(q));
            }
            _ => {
                let kind = [0, REV, WELD, DIST, PRIS, 0, FRIC, MOTOR][scene];
                // a bar hanging from the ground and another one from the first
                let mut prev = g.clone();
                for k in 0..2 {
                    let b = if scene == 1 || scene == 3 { put(0.0, -2.0 - 2.0 * k as f32, Sh::Box(0.1, 0.6)) } else { put(1.5 + 1.5 * k as f32, 0.0, Sh::Box(0.3, 0.1)) };
                    let at = if scene == 1 { v(0.0, -1.0 - 2.0 * k as f32) } else { mid(&prev, &b) };
                    let mut q = def(kind, &prev, &b, at, true, 1);
                    if let B2JointDefEnum::FrictionJoint(f) = &mut q {
                        f.max_force = 100.0;
                        f.max_torque = 100.0;
                    }
                    // nothing else keeps a slider from drifting along its axis
                    if let B2JointDefEnum::PrismaticJoint(f) = &mut q {
                        f.enable_motor = true;
                        f.motor_speed = 0.0;
                        f.max_motor_force = 100.0;
                    }
                    w.borrow_mut().create_joint(&q);
                    prev = b;
                }
            }
        }
        set(&w, 0, warm);
        // settle
        for _ in 0..if scene == 0 { 120 } else { 60 } {
            w.borrow_mut().step(DT, 60, 10);
        }
        let at: Vec<Bs> = bs.iter().map(bstate).collect();
        for q in &at {
            if q.v.len() > 1e-3 {
                return Err(format!("bodies do not come to rest: {:?}", q));
            }
        }
        for dt in &dts {
            w.borrow_mut().step(*dt, if warm { 1 } else { 100 }, if warm { 1 } else { 10 });
            cx.step(1);
            for (b, q) in bs.iter().zip(&at) {
                let x = bstate(b);
                cx.eval(1);
                ensure!(x.v.len() < 5e-3 && x.w.abs() < 5e-3, "settled body moves with {:?} {} after a step of {}", x.v, x.w, dt);
                ensure!((x.pos - q.pos).len() < 3e-3, "settled body moved from {:?} to {:?}", q.pos, x.pos);
            }
        }
        cx.state(hash_world(&w));
        Ok(())
    })
}

/// Warm starting on or off makes no difference where one iteration solves everything.
fn warm(i: u64, n: usize) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let sh = d.p(&[0.3f32, 0.5, 1.0]);
    let drop = d.p(&[0.0f32, 0.02, 0.5]);
    let vx = d.p(&[0.0f32, 1.0, -3.0]);
    let fr = d.p(&[0.0f32, 0.4]);
    let dt = d.p(&[DT, 0.01, 1.0 / 30.0]);
    let mask = d.d(1 << n);
    (format!("ball of {} dropped {} sliding {} friction {} step {} warm starting {:b}", sh, drop, vx, fr, dt, mask), move |cx: &mut Ctx| {
        let mk = || {
            let w = world(0.0, -10.0);
            let g = body(&w, ST, 0.0, 0.0, 0.0);
            let f = fixu(&g, &Sh::Edge((-50.0, 0.0), (50.0, 0.0)), 0.0, 0);
            f.borrow_mut().set_friction(fr);
            let b = body(&w, DY, 0.0, sh + drop + 0.01, 0.0);
            fixu(&b, &Sh::Circle(sh, 0.0, 0.0), 1.0, 1).borrow_mut().set_friction(fr);
            b.borrow_mut().set_linear_velocity(v(vx, 0.0));
            (w, b)
        };
        let ((w, b), (r, q)) = (mk(), mk());
        for k in 0..3 * n {
            set(&w, 0, mask >> (k % n) & 1 == 1);
            w.borrow_mut().step(dt, 8, 3);
            r.borrow_mut().step(dt, 8, 3);
            let (x, y) = (bstate(&b), bstate(&q));
            cx.step(1);
            cx.eval(1);
            ensure!((x.v - y.v).len() < 1e-3 && (x.w - y.w).abs() < 4e-3 && (x.pos - y.pos).len() < 1e-3, "step {}: {:?} instead of {:?}", k, x, y);
        }
        cx.state(hash_world(&w));
        Ok(())
    })
}

/// Time-of-impact work spread over calls: each call handles one event, the work ends, and the
/// result is that of handling everything at once.
fn substeps(i: u64) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let n = d.d(4);
    let speed: Vec<f32> = (0..3).map(|k| d.p(&[[40.0f32, 100.0, 200.0], [55.0, 3.0, 170.0], [90.0, 150.0, 20.0]][k])).collect();
    let gap: Vec<f32> = (0..3).map(|k| d.p(&[[0.2f32, 0.5, 1.1], [0.35, 0.8, 1.3], [0.45, 0.9, 0.15]][k])).collect();
    let rest = d.p(&[0.0f32, 0.5]);
    let gy = d.p(&[0.0f32, -10.0]);
    // what happens while the work is unfinished: nothing, switches flipped off and on, zero steps
    let mid = d.d(6);
    let name = format!("{} bodies speeds {:?} gaps {:?} restitution {} gravity {} meanwhile {}", n, speed, gap, rest, gy, ["nothing", "sub-stepping off", "continuous off", "zero step", "continuous off and on", "new body"][mid]);
    (name, move |cx: &mut Ctx| {
        let mk = || {
            let w = world(0.0, gy);
            let g = body(&w, ST, 0.0, 0.0, 0.0);
            let mut bs = vec![];
            for k in 0..n {
                let y = 10.0 * k as f32;
                fixu(&g, &Sh::BoxAt(0.05, 3.0, 5.0, y, 0.0), 0.0, 10 + k as u32).borrow_mut().set_friction(0.0);
                let b = body(&w, DY, 5.0 - 0.05 - 0.25 - gap[k], y, 0.0);
                let f = fixu(&b, &Sh::Circle(0.25, 0.0, 0.0), 1.0, 1 + k as u32);
                f.borrow_mut().set_restitution(rest);
                f.borrow_mut().set_friction(0.0);
                b.borrow_mut().set_linear_velocity(v(speed[k], 0.0));
                bs.push(b);
            }
            // somebody who meets nobody
            let b = body(&w, DY, -100.0, 0.0, 0.0);
            fixu(&b, &Sh::Circle(0.25, 0.0, 0.0), 1.0, 40);
            b.borrow_mut().set_linear_velocity(v(7.0, 1.0));
            bs.push(b);
            (w, bs)
        };
        let dt = 1.0 / 60.0;
        // all at once
        let (r, rs) = mk();
        step(&r, dt);
        let want: Vec<Bs> = rs.iter().map(bstate).collect();
        let hits = (0..n).filter(|k| speed[*k] * dt > gap[*k] + 0.05).count();
        let (w, bs) = mk();
        set(&w, 2, true);
        step(&w, dt);
        cx.step(2);
        let mut calls = 1;
        match mid {
            0 => {}
            1 => set(&w, 2, false),
            2 => set(&w, 1, false),
            3 => step(&w, 0.0),
            4 => {
                set(&w, 1, false);
                set(&w, 1, true);
            }
            _ => {
                let q = body(&w, DY, 50.0, 50.0, 0.0);
                fixu(&q, &Sh::Circle(0.25, 0.0, 0.0), 1.0, 41);
            }
        }
        // the work is over once the free body moves on
        let here = |b: &B| bstate(b).pos;
        let free = bs.last().unwrap();
        let start = here(free);
        while here(free) == start {
            let before: Vec<Bs> = bs.iter().map(bstate).collect();
            step(&w, dt);
            cx.step(1);
            calls += 1;
            ensure!(calls < 12 + n, "the step is never completed");
            if here(free) != start {
                // that call began the next step: everything must have been as wanted before it
                for (x, y) in before.iter().zip(&want) {
                    cx.eval(1);
                    if mid != 2 {
                        ensure!(
                            (x.pos - y.pos).len() < 2e-3 && (x.v - y.v).len() < 2e-2 * (1.0 + y.v.len()),
                            "spread over calls the body ends as {:?} instead of {:?}", x, y
                        );
                    }
                }
                break;
            }
            // at most one body changes per call
            if mid != 1 {
                let moved = bs.iter().zip(&before).filter(|(b, q)| bstate(b) != **q).count();
                ensure!(moved <= 1, "{} bodies handled in one call", moved);
            }
        }
        if mid != 2 {
            ensure!(calls <= hits + 2 + n, "{} calls for {} impacts", calls, hits);
        }
        // and the world goes on as usual
        set(&w, 1, true);
        set(&w, 2, false);
        // the last call may have left its step unfinished
        step(&w, dt);
        for _ in 0..3 {
            let p = here(free);
            step(&w, dt);
            ensure!(here(free) != p, "the world stands still");
        }
        finite_world(&w)?;
        cx.state(hash_world(&w));
        Ok(())
    })
}

pub fn check() -> Check {
    let t = thorough();
    let mut ph = vec![];
    for len in [1, 2, if t { 4 } else { 3 }] {
        ph.push(phase(&format!("read back {}", len), (SCENES.len() as u64 + 1) * seq_count(15, len), move |i| readback(i, len).0, move |i, c| readback(i, len).1(c)));
    }
    let n = if t { 4 } else { 3 };
    ph.push(phase("free motion", 27 * seq_count(16, n), move |i| free(i, n).0, move |i, c| free(i, n).1(c)));
    let n = if t { 7 } else { 5 };
    ph.push(phase("force clearing", 3 * seq_count(6, n), move |i| clearing(i, n).0, move |i, c| clearing(i, n).1(c)));
    for len in 1..=if t { 4 } else { 3 } {
        ph.push(phase(&format!("zero steps {}", len), 2 * SCENES.len() as u64 * seq_count(OPS.len(), len), move |i| zero(i, len).0, move |i, c| zero(i, len).1(c)));
    }
    let n = if t { 3 } else { 2 };
    ph.push(phase("step lengths", SCENES.len() as u64 * 5 * 4 * 8 * seq_count(8, n), move |i| lengths(i, n).0, move |i, c| lengths(i, n).1(c)));
    let n = if t { 5 } else { 3 };
    ph.push(phase("varying lengths", (SETTLED.len() as u64 + 1) * seq_count(5, n), move |i| varying(i, n).0, move |i, c| varying(i, n).1(c)));
    let n = if t { 8 } else { 5 };
    ph.push(phase("warm starting", 162 << n, move |i| warm(i, n).0, move |i, c| warm(i, n).1(c)));
    ph.push(phase("spread impacts", 4 * 27 * 27 * 2 * 2 * 6, |i| substeps(i).0, |i, c| substeps(i).1(c)));
    Check {
        id: "C30",
        bounds: "histories of switch settings, steps and changes; all settings of four switches before each step of free bodies; force and clearing histories; steps of no length at every point of histories over 18 operations; step lengths from 1e-6 to 10 s with 0 to 30 iterations; settled stacks and joints under changing step lengths; impacts of up to three bodies spread over calls with switches flipped in between".into(),
        assumptions: vec!["bodies and contacts judged at end-of-call states".into()],
        phases: ph,
    }
}
