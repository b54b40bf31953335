//! C23: fast bodies do not tunnel.
//!
//! Scenes are laid out in the frame of the wall and placed in the world by a rigid placement.
//! The oracle is geometric: sides of walls, order in a channel, inside of a container, and the
//! closed form flight of a frictionless ball.
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::kit::*;
use box2d_rs::b2_body::*;
use box2d_rs::b2_common::*;
use box2d_rs::b2_fixture::*;
use box2d_rs::b2_world::*;

const SLOP: f64 = B2_LINEAR_SLOP as f64;

fn movers() -> Vec<(&'static str, Vec<Sh>)> {
    vec![
        ("ball", vec![Sh::Circle(0.1, 0.0, 0.0)]),
        ("box", vec![Sh::Box(0.2, 0.1)]),
        ("bar", vec![Sh::Box(0.6, 0.04)]),
        ("triangle", vec![Sh::Poly(vec![(-0.1, -0.1), (0.3, 0.0), (-0.1, 0.1)])]),
        ("offset ball", vec![Sh::Circle(0.15, 0.4, 0.2)]),
        ("two balls", vec![Sh::Circle(0.1, -0.2, 0.0), Sh::Circle(0.15, 0.3, 0.1)]),
    ]
}

/// Walls lie along the local y axis, half thickness given by the core.
fn walls() -> Vec<(&'static str, Sh)> {
    vec![
        ("edge", Sh::Edge((0.0, -30.0), (0.0, 30.0))),
        ("thin box", Sh::Box(0.02, 30.0)),
        ("chain", Sh::Chain(vec![(0.0, -30.0), (0.0, -25.0), (0.0, 25.0), (0.0, 30.0)], (0.0, -40.0), (0.0, 40.0))),
        ("thick box", Sh::Box(0.3, 30.0)),
    ]
}

struct Scene {
    w: W,
    wall: B,
    mov: B,
}

#[derive(Clone, Copy)]
struct Shot {
    place: usize,
    mover: usize,
    wall: usize,
    // wall body: 0 static, 1 kinematic at rest, 2 kinematic towards, 3 kinematic away, 4 kinematic sliding
    kind: usize,
    vn: f64,
    vt: f64,
    gap: f64,
    spin: f64,
    rot: f64,
    h: f32,
    bullet: bool,
    e: f32,
    mu: f32,
    // how the scene came about: wall created elsewhere and moved here, moving body created first
    moved: bool,
    early: bool,
}

const PLACES: [(f64, f64, f64); 4] = [(0.0, 0.0, 0.0), (3.0, -2.0, 0.7), (-20.0, 5.0, 2.4), (1.0, 90.0, -1.5707963267948966)];

fn place(k: usize) -> X {
    let q = PLACES[k];
    X::new(p(q.0, q.1), q.2)
}

/// Distance the body reaches towards the wall from its origin, at the given angle.
fn reach(sh: &[Sh], rot: f64) -> f64 {
    let x = X::new(p(0.0, 0.0), rot);
    sh.iter().map(|s| {
        let c = s.core(0).at(&x);
        c.v.iter().map(|q| -q.x).fold(f64::MIN, f64::max) + c.r
    }).fold(f64::MIN, f64::max)
}

fn arrives(s: &Shot) -> bool {
    s.kind == 0 && !s.moved && !s.early
}

fn shoot(s: &Shot, with_wall: bool, tweak: &dyn Fn(&mut B2fixtureDef<U>)) -> (Scene, X) {
    let w = world(0.0, 0.0);
    let x = place(s.place);
    let ang = PLACES[s.place].2;
    let (_, wsh) = &walls()[s.wall];
    let kv = match s.kind {
        2 => p(15.0, 0.0),
        3 => p(-3.0, 0.0),
        4 => p(0.0, 20.0),
        _ => p(0.0, 0.0),
    };
    let mut d = bdef(if s.kind == 0 { ST } else { KI }, x.o.x as f32, x.o.y as f32, ang as f32);
    d.linear_velocity = vp(x.rot(kv));
    if s.moved {
        d.position = vp(x.at(p(-40.0, 12.0)));
        d.angle = (ang + 2.2) as f32;
    }
    // a static wall that has just come to a stop here
    if arrives(s) {
        d.body_type = KI;
        d.linear_velocity = vp(x.rot(p(9.0, 3.0)));
        d.angular_velocity = 4.0;
        d.position = vp(x.o - x.rot(p(9.0, 3.0)) * s.h as f64);
        d.angle = (ang - 4.0 * s.h as f64) as f32;
    }
    let build = || {
        let wall = B2world::create_body(w.clone(), &d);
        if with_wall {
            let mut f = fdef(wsh);
            f.user_data = Some(1);
            f.friction = s.mu;
            f.restitution = s.e;
            tweak(&mut f);
            B2body::create_fixture(wall.clone(), &f);
        }
        if s.moved {
            wall.borrow_mut().set_transform(vp(x.o), ang as f32);
        }
        if arrives(s) {
            step(&w, s.h);
            B2body::set_type(wall.clone(), ST);
        }
        wall
    };
    let wall = if s.early { None } else { Some(build()) };
    let sh = &movers()[s.mover].1;
    let thick = wsh.core(0).v.iter().map(|q| q.x).fold(0.0, f64::max) + wsh.core(0).r;
    let at = x.at(p(thick + reach(sh, s.rot) + s.gap, 0.0));
    let mut d = bdef(DY, at.x as f32, at.y as f32, (ang + s.rot) as f32);
    d.linear_velocity = vp(x.rot(p(-s.vn, s.vt)));
    d.angular_velocity = s.spin as f32;
    d.bullet = s.bullet;
    let mov = B2world::create_body(w.clone(), &d);
    for (k, q) in sh.iter().enumerate() {
        let mut f = fdef(q);
        f.user_data = Some(10 + k as u32);
        f.friction = s.mu;
        f.restitution = s.e;
        B2body::create_fixture(mov.clone(), &f);
    }
    // spinning about the centre of mass: keep the velocity of the centre as asked
    mov.borrow_mut().set_linear_velocity(d.linear_velocity);
    let wall = wall.unwrap_or_else(build);
    (Scene { w, wall, mov }, x)
}

/// How deep the body reaches through the near face of the wall (core against core, radii included).
fn depth(s: &Shot, sc: &Scene) -> f64 {
    let wb = sc.wall.borrow();
    let x = X::from(&wb.get_transform());
    let wc = walls()[s.wall].1.core(0);
    let thick = wc.v.iter().map(|q| q.x).fold(0.0, f64::max) + wc.r;
    let b = X::from(&sc.mov.borrow().get_transform());
    let mut deep = f64::MIN;
    for q in &movers()[s.mover].1 {
        let c = q.core(0).at(&b);
        for y in &c.v {
            deep = deep.max(thick - (x.inv(*y).x - c.r));
        }
    }
    deep
}

fn side(s: &Shot, sc: &Scene) -> f64 {
    let _ = s;
    let x = X::from(&sc.wall.borrow().get_transform());
    x.inv(bstate(&sc.mov).c).x
}

fn ident(_: &mut B2fixtureDef<U>) {}

fn shot_text(s: &Shot) -> String {
    format!(
        "{}{} against {} ({}), speed {} along the normal and {} along the wall, gap {}, spin {}, turned {}, step {}, restitution {}, friction {}, placement {}{}{}",
        if s.bullet { "bullet " } else { "" }, movers()[s.mover].0, walls()[s.wall].0,
        ["static", "kinematic at rest", "kinematic coming", "kinematic leaving", "kinematic sliding"][s.kind],
        s.vn, s.vt, s.gap, s.spin, s.rot, s.h, s.e, s.mu, s.place, if s.moved { ", wall moved into place" } else if arrives(s) { ", wall just stopped" } else { "" }, if s.early { ", wall added last" } else { "" }
    )
}

fn solid(s: &Shot, cx: &mut Ctx, n: usize) -> R {
    let (sc, _) = shoot(s, true, &ident);
    let rec = listen(&sc.w);
    let still = bstate(&sc.wall);
    for k in 0..n {
        step(&sc.w, s.h);
        cx.step(1);
        finite_world(&sc.w)?;
        if s.kind < 2 {
            let q = bstate(&sc.wall);
            ensure!(pclose(q.pos, still.pos, 1e-3) && (q.ang - still.ang).abs() < 1e-3, "step {}: the wall moved from {:?} {} to {:?} {}", k, still.pos, still.ang, q.pos, q.ang);
        }
        let d = depth(s, &sc);
        if cx.verbose {
            println!("step {}: depth {} body {:?} rec {:?}", k, d, bstate(&sc.mov), rec.borrow().ev);
        }
        rec.borrow_mut().ev.clear();
        ensure!(side(s, &sc) > 0.0, "step {}: the body's centre is behind the wall ({} deep)", k, d);
        if s.mover == 0 && s.spin == 0.0 && s.kind != 4 {
            let w = bstate(&sc.mov).w;
            ensure!(w * s.vt.signum() >= -0.1, "step {}: friction turned the ball backwards ({})", k, w);
        }
        ensure!(d < 0.06, "step {}: the body reaches {} into the wall", k, d);
        cx.eval(1);
        cx.state(hash_world(&sc.w));
    }
    Ok(())
}

fn dec_shot(i: u64, wide: bool) -> Shot {
    let mut d = Dec::new(i);
    let h = if wide { d.p(&[1.0 / 60.0, 1.0 / 240.0, 1.0 / 25.0]) } else { d.p(&[1.0 / 60.0, 1.0 / 25.0]) };
    let vh: f64 = d.p(&[0.3, 0.7, 1.3, 1.95]);
    let frac = d.p(&[0.02, 0.35, 0.71, 0.97]);
    let tilt = d.p(&[0.0, 0.5, -1.0, 1.4]);
    let sp = d.p(&[0.0, 0.15, -0.6, 1.5]);
    let mover = d.d(6);
    let wall = d.d(4);
    let kind = d.d(5);
    let rot = d.p(&[0.0, 0.6, 1.5707963]);
    let e = d.p(&[0.0f32, 0.7]);
    let place = (i as usize / 7) % 4;
    let v = vh / h as f64;
    Shot {
        place, mover, wall, kind,
        vn: v * f64::cos(tilt),
        vt: v * f64::sin(tilt),
        gap: 0.05 + frac * vh * f64::cos(tilt),
        spin: sp / h as f64,
        rot, h, bullet: i % 2 == 1, e,
        mu: if i % 3 == 0 { 0.0 } else { 0.4 },
        moved: (i / 5) % 3 == 0,
        early: (i / 11) % 2 == 0,
    }
}

fn container(k: usize) -> (Vec<(Sh, f32, f32)>, &'static str) {
    match k {
        0 => (
            vec![
                (Sh::Edge((-1.0, -1.0), (1.0, -1.0)), 0.0, 0.0),
                (Sh::Edge((1.0, -1.0), (1.0, 1.0)), 0.0, 0.0),
                (Sh::Edge((1.0, 1.0), (-1.0, 1.0)), 0.0, 0.0),
                (Sh::Edge((-1.0, 1.0), (-1.0, -1.0)), 0.0, 0.0),
            ],
            "four edges",
        ),
        1 => (
            vec![
                (Sh::Box(1.1, 0.05), 0.0, -1.05),
                (Sh::Box(1.1, 0.05), 0.0, 1.05),
                (Sh::Box(0.05, 1.1), -1.05, 0.0),
                (Sh::Box(0.05, 1.1), 1.05, 0.0),
            ],
            "four thin boxes",
        ),
        // clockwise loop: solid from the inside
        _ => (vec![(Sh::Loop(vec![(-1.0, -1.0), (-1.0, 1.0), (1.0, 1.0), (1.0, -1.0)]), 0.0, 0.0)], "loop facing inwards"),
    }
}

/// Some contact used up the library's eight impacts per step.
fn rattled(ev: &[Ev]) -> bool {
    let mut n = std::collections::HashMap::new();
    for e in ev {
        if let Ev::Pre(c, _) = e {
            *n.entry(*c).or_insert(0) += 1;
        }
    }
    n.values().any(|&k| k > B2_MAX_SUB_STEPS)
}

/// `long`: one body that keeps bouncing for a long time.
fn boxed(i: u64, say: bool, deep: bool, long: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let kind = d.d(3);
    let n = if long { 1 } else { 1 + d.d(3) };
    let mover = d.d(4);
    let sp = d.p(&[20.0f64, 60.0, 119.0, 400.0]);
    let na = if deep { 24 } else { 8 };
    let an = d.d(na) as f64 * 2.0 * PI / na as f64 + 0.13;
    let e = if long { 1.0 } else { d.p(&[0.0f32, 0.6, 1.0]) };
    let bullet = d.b();
    let g = d.p(&[0.0f32, -10.0]);
    let steps = match (long, deep) {
        (true, true) => 400,
        (true, false) => 120,
        (false, true) => 60,
        _ => 15,
    };
    let t = if say { format!("{} of {} in {}, speed {}, direction {}, restitution {}, bullets {}, gravity {}", n, movers()[mover].0, container(kind).1, sp, an, e, bullet, g) } else { String::new() };
    (t, move |cx: &mut Ctx| {
        // several elastic bullets pinch each other through walls: beyond what is promised
        if bullet && n > 1 && e > 0.0 && (mover > 0 || e > 0.9) {
            return Ok(());
        }
        let w = world(0.0, g);
        let (ws, _) = container(kind);
        let wb = body(&w, ST, 0.0, 0.0, 0.0);
        for (s, x, y) in ws {
            let s = match s {
                Sh::Box(a, b) => Sh::BoxAt(a, b, x, y, 0.0),
                o => o,
            };
            let mut f = fdef(&s);
            f.restitution = e;
            f.user_data = Some(1);
            B2body::create_fixture(wb.clone(), &f);
        }
        let mut bs = vec![];
        for k in 0..n {
            let mut q = bdef(DY, [0.0, -0.55, 0.5][k], [0.0, 0.5, 0.55][k], k as f32);
            let a = an + k as f64 * 2.1;
            q.linear_velocity = v((sp * a.cos()) as f32, (sp * a.sin()) as f32);
            q.bullet = bullet;
            q.angular_velocity = [0.0, 10.0, -50.0][k];
            let b = B2world::create_body(w.clone(), &q);
            let sh = match mover {
                0 => Sh::Circle(0.1, 0.0, 0.0),
                1 => Sh::Box(0.15, 0.1),
                2 => Sh::Box(0.3, 0.04),
                _ => Sh::Poly(vec![(-0.1, -0.1), (0.2, 0.0), (-0.1, 0.1)]),
            };
            let mut f = fdef(&sh);
            f.restitution = e;
            f.user_data = Some(10 + k as u32);
            B2body::create_fixture(b.clone(), &f);
            bs.push((b, sh));
        }
        let rec = listen(&w);
        for k in 0..steps {
            rec.borrow_mut().ev.clear();
            step(&w, DT);
            cx.step(1);
            finite_world(&w)?;
            if rattled(&rec.borrow().ev) {
                break;
            }
            for (b, sh) in &bs {
                let c = bstate(b).c;
                ensure!(c.x.abs() < 1.0 && c.y.abs() < 1.0, "step {}: a body left the container, centre {:?}", k, c);
                let q = sh.core(0).at(&X::from(&b.borrow().get_transform()));
                let (lo, hi) = q.bounds();
                let out = (-1.0 - lo.x).max(-1.0 - lo.y).max(hi.x - 1.0).max(hi.y - 1.0);
                cx.eval(1);
                ensure!(out < 0.2 || bullet && n > 1, "step {}: a body reaches {} through the container's wall", k, out);
            }
            cx.state(hash_world(&w));
        }
        Ok(())
    })
}

/// Balls in a channel: order along the channel is kept wherever one of the two is a bullet.
fn channel(i: u64, say: bool) -> (String, impl Fn(&mut Ctx) -> R) {
    let mut d = Dec::new(i);
    let vs: Vec<f64> = (0..3).map(|_| d.p(&[0.0f64, 40.0, -40.0, 115.0, -115.0])).collect();
    let bullets = d.d(8);
    let e = d.p(&[0.0f32, 0.8]);
    let gaps = d.p(&[(0.6f64, 0.6f64), (1.7, 0.9), (1.1, 3.1)]);
    let m = d.p(&[1.0f32, 20.0]);
    let h = d.p(&[1.0f32 / 60.0, 1.0 / 30.0]);
    let t = if say { format!("speeds {:?}, bullets {:03b}, restitution {}, gaps {:?}, last density {}, step {}", vs, bullets, e, gaps, m, h) } else { String::new() };
    (t, move |cx: &mut Ctx| {
        let w = world(0.0, 0.0);
        let wb = body(&w, ST, 0.0, 0.0, 0.0);
        for y in [-0.21f32, 0.21] {
            fixu(&wb, &Sh::Edge((-200.0, y), (200.0, y)), 0.0, 1);
        }
        let mut bs = vec![];
        let xs = [0.0, gaps.0, gaps.0 + gaps.1];
        for k in 0..3 {
            let mut q = bdef(DY, xs[k] as f32, 0.0, 0.0);
            q.linear_velocity = v((vs[k] / 60.0 / h as f64) as f32, 0.0);
            q.bullet = bullets >> k & 1 == 1;
            let b = B2world::create_body(w.clone(), &q);
            let mut f = fdef(&if k == 1 { Sh::Box(0.15, 0.15) } else { Sh::Circle(0.2, 0.0, 0.0) });
            f.friction = 0.0;
            f.restitution = e;
            f.density = if k == 2 { m } else { 1.0 };
            f.user_data = Some(10 + k as u32);
            B2body::create_fixture(b.clone(), &f);
            bs.push(b);
        }
        for k in 0..8 {
            step(&w, h);
            cx.step(1);
            finite_world(&w)?;
            let x: Vec<f64> = bs.iter().map(|b| bstate(b).c.x).collect();
            let y: Vec<f64> = bs.iter().map(|b| bstate(b).c.y).collect();
            ensure!(y.iter().all(|y| y.abs() < 0.1), "step {}: a body left the channel {:?}", k, y);
            for (a, b) in [(0usize, 1usize), (1, 2)] {
                if bullets >> a & 1 == 1 || bullets >> b & 1 == 1 {
                    cx.eval(1);
                    ensure!(x[a] < x[b] - 0.15, "step {}: bodies {} and {} passed through each other: {:?}", k, a, b, x);
                }
            }
            if bullets & 5 != 0 && bullets == 7 {
                ensure!(x[0] < x[2], "step {}: order lost {:?}", k, x);
            }
            cx.state(hash_world(&w));
        }
        Ok(())
    })
}

pub fn check() -> Check {
    let deep = thorough();
    let mut ph = vec![];

    let hn: u64 = if deep { 3 } else { 2 };
    let shots: u64 = hn * 4 * 4 * 4 * 4 * 6 * 4 * 5 * 3 * 2;
    ph.push(phase(
        "one body, one wall",
        shots,
        move |i| shot_text(&dec_shot(i, deep)),
        move |i, cx| solid(&dec_shot(i, deep), cx, if deep { 14 } else { 6 }),
    ));

    // closed form flight of a frictionless ball
    let dec_flight = |i: u64| {
        let mut d = Dec::new(i);
        let h = d.p(&[1.0f32 / 60.0, 1.0 / 240.0, 1.0 / 25.0]);
        let vh: f64 = d.p(&[0.2, 0.5, 0.9, 1.4, 1.9]);
        let frac = d.d(16) as f64 / 16.0;
        let tilt = d.p(&[0.0, 0.4, -0.8, 1.2]);
        let e = d.p(&[0.0f32, 0.5, 1.0]);
        let v = vh / h as f64;
        Shot { wall: d.d(4), kind: d.d(2), place: d.d(4), mover: 0, vn: v * f64::cos(tilt), vt: v * f64::sin(tilt), gap: 0.05 + frac * vh * f64::cos(tilt), spin: 0.0, rot: 0.0, h, bullet: d.b(), e, mu: 0.0, moved: false, early: i % 2 == 0 }
    };
    ph.push(phase(
        "time is not lost",
        3 * 5 * 16 * 4 * 3 * 4 * 2 * 4 * 2,
        move |i| shot_text(&dec_flight(i)),
        move |i, cx| {
            let s = dec_flight(i);
            let (sc, x) = shoot(&s, true, &ident);
            let p0 = x.inv(bstate(&sc.mov).c);
            let rest = p0.x - s.gap;
            let tc = s.gap / s.vn;
            for k in 1..=4 {
                step(&sc.w, s.h);
                cx.step(1);
                let b = bstate(&sc.mov);
                let (q, vel) = (x.inv(b.c), x.irot(b.v));
                let t = k as f64 * s.h as f64;
                let (ex, ev) = if t < tc { (p0.x - s.vn * t, -s.vn) } else { (rest + s.e as f64 * s.vn * (t - tc), s.e as f64 * s.vn) };
                cx.eval(1);
                let tol = 4.0 * SLOP * (1.0 + s.e as f64) + 0.001 * s.vn * s.h as f64;
                ensure!((q.x - ex).abs() < tol, "step {}: {} from the wall's contact position, expected {}", k, q.x - rest, ex - rest);
                ensure!((q.y - p0.y - s.vt * t).abs() < 1e-3 + 1e-4 * (s.vt * t).abs(), "step {}: slid {}, expected {}", k, q.y - p0.y, s.vt * t);
                if (t - tc).abs() * s.vn > 6.0 * SLOP {
                    ensure!((vel.x - ev).abs() < 0.002 * s.vn + 1e-3 && (vel.y - s.vt).abs() < 1e-3 * s.vt.abs() + 1e-3, "step {}: velocity {:?}, expected {} {}", k, vel, ev, s.vt);
                }
                cx.state(hash_world(&sc.w));
            }
            Ok(())
        },
    ));

    // what must not stop a body
    let free = ["sensor wall", "mask", "group", "contact disabled in pre-solve", "continuous physics off"];
    ph.push(phase(
        "unaffected",
        5 * 2 * 4 * 4 * 4 * 4 * 6 * 4 * 2 * 2,
        move |i| {
            let s = dec_shot((i / 5) * 1, false);
            format!("{}: {}", free[i as usize % 5], shot_text(&s))
        },
        move |i, cx| {
            let k = i as usize % 5;
            let mut s = dec_shot(i / 5, false);
            s.kind = s.kind.min(1);
            let (a, _) = shoot(&s, true, &|f: &mut B2fixtureDef<U>| match k {
                0 => f.is_sensor = true,
                1 => f.filter.mask_bits = 0xfffe,
                2 => f.filter.category_bits = 2,
                _ => {}
            });
            let (b, _) = shoot(&s, false, &ident);
            if k == 2 {
                for f in a.mov.borrow().get_fixture_list().iter() {
                    f.borrow_mut().set_filter_data(B2filter { category_bits: 1, mask_bits: 0xffff, group_index: -3 });
                }
                for f in a.wall.borrow().get_fixture_list().iter() {
                    f.borrow_mut().set_filter_data(B2filter { category_bits: 1, mask_bits: 0xffff, group_index: -3 });
                }
            }
            let rec = listen(&a.w);
            if k == 3 {
                for m in 10..13u32 {
                    for c in 0..4 {
                        rec.borrow_mut().disable.push((1, c, m, 0));
                    }
                }
            }
            if k == 4 {
                a.w.borrow_mut().set_continuous_physics(false);
            }
            for n in 0..6 {
                if k == 4 {
                    // judged as long as the discrete positions keep clear of the wall
                    let d = depth(&s, &a);
                    let wc = walls()[s.wall].1.core(0);
                    let thick = wc.v.iter().map(|q| q.x).fold(0.0, f64::max) + wc.r;
                    let x = X::from(&a.wall.borrow().get_transform());
                    let q = x.inv(bstate(&a.mov).c);
                    let clear = d < 0.0 || q.x < -(thick + 0.7);
                    if !clear {
                        return Ok(());
                    }
                }
                let (p, q) = (bstate(&a.mov), bstate(&b.mov));
                ensure!(p.pos == q.pos && p.ang == q.ang && p.v == q.v && p.w == q.w, "step {}: {:?} differs from free flight {:?}", n, p, q);
                cx.eval(1);
                step(&a.w, s.h);
                step(&b.w, s.h);
                cx.step(2);
                cx.state(hash_world(&a.w));
            }
            Ok(())
        },
    ));

    let nb: u64 = 3 * 3 * 4 * 4 * if deep { 24 } else { 8 } * 3 * 2 * 2;
    ph.push(phase("container", nb, move |i| boxed(i, true, deep, false).0, move |i, cx| boxed(i, false, deep, false).1(cx)));
    ph.push(phase("long stay", nb / 9, move |i| boxed(i, true, deep, true).0, move |i, cx| boxed(i, false, deep, true).1(cx)));
    ph.push(phase("channel", 125 * 8 * 2 * 3 * 2 * 2, |i| channel(i, true).0, |i, cx| channel(i, false).1(cx)));

    // kinematic pushers and paddles against resting bodies
    ph.push(phase(
        "pushers",
        5 * 4 * 6 * 3 * 4 * 2 * 2,
        |i| format!("case {}", i),
        |i, cx| {
            let mut d = Dec::new(i);
            let vh = d.p(&[0.1f64, 0.4, 0.8, 1.3, 1.9]);
            let frac = d.d(4) as f64 / 4.0;
            let mover = d.d(6);
            let rot = d.p(&[0.0, 0.6, 1.5707963]);
            let wall = d.d(4);
            let h = d.p(&[1.0f32 / 60.0, 1.0 / 25.0]);
            let asleep = d.b();
            let s = Shot { place: i as usize % 4, mover, wall, kind: 1, vn: 0.0, vt: 0.0, gap: 0.05 + frac * vh, spin: 0.0, rot, h, bullet: false, e: 0.0, mu: 0.2, moved: i % 3 == 0, early: i % 5 < 2 };
            let (sc, x) = shoot(&s, true, &ident);
            sc.wall.borrow_mut().set_linear_velocity(vp(x.rot(p(vh / h as f64, 0.0))));
            if asleep {
                sc.mov.borrow_mut().set_awake(false);
            }
            for k in 0..8 {
                step(&sc.w, h);
                cx.step(1);
                finite_world(&sc.w)?;
                cx.eval(1);
                let d = depth(&s, &sc);
                ensure!(side(&s, &sc) > 0.0 && d < 0.1, "step {}: the pusher passed the body ({} deep)", k, d);
                let wx = x.inv(bstate(&sc.wall).c).x;
                let want = vh * (k + 1) as f64;
                ensure!((wx - want).abs() < 1e-3 + 1e-4 * want, "step {}: the pusher moved {} instead of {}", k, wx, want);
                cx.state(hash_world(&sc.w));
            }
            Ok(())
        },
    ));

    // bullets and dynamic plates
    ph.push(phase(
        "bullet and plate",
        2 * 5 * 8 * 5 * 3 * 3 * 2 * 2,
        |i| format!("case {}", i),
        |i, cx| {
            let mut d = Dec::new(i);
            let who = d.d(2);
            let vh = d.p(&[0.2f64, 0.6, 1.0, 1.5, 1.95]);
            let frac = d.d(8) as f64 / 8.0;
            let tilt: f64 = d.p(&[0.0, 0.4, -0.9, 1.1, -0.2]);
            let mv = d.p(&[0usize, 1, 3]);
            let dens = d.p(&[0.1f32, 1.0, 50.0]);
            let back = d.p(&[0.0f64, 0.7]);
            let h = d.p(&[1.0f32 / 60.0, 1.0 / 30.0]);
            let x = place(i as usize % 4);
            let w = world(0.0, 0.0);
            let mut q = bdef(DY, x.o.x as f32, x.o.y as f32, PLACES[i as usize % 4].2 as f32);
            q.bullet = who == 0;
            q.linear_velocity = vp(x.rot(p(back / h as f64, 0.0)));
            let plate = B2world::create_body(w.clone(), &q);
            fixu(&plate, &Sh::Box(0.03, 2.5), dens, 1);
            let r = reach(&movers()[mv].1, 0.0);
            let at = x.at(p(0.05 + r + frac * (vh * tilt.cos() + back), 0.0));
            let mut q = bdef(DY, at.x as f32, at.y as f32, PLACES[i as usize % 4].2 as f32);
            q.bullet = who == 1;
            q.linear_velocity = vp(x.rot(p(-vh * tilt.cos(), vh * tilt.sin()) * (1.0 / h as f64)));
            let mov = B2world::create_body(w.clone(), &q);
            fixu(&mov, &movers()[mv].1[0], 1.0, 10);
            for k in 0..4 {
                step(&w, h);
                cx.step(1);
                finite_world(&w)?;
                let px = X::from(&plate.borrow().get_transform());
                let c = px.inv(bstate(&mov).c);
                if c.y.abs() > 2.2 {
                    break;
                }
                cx.eval(1);
                ensure!(c.x > 0.0, "step {}: passed through the plate, {:?} in its frame", k, c);
                cx.state(hash_world(&w));
            }
            Ok(())
        },
    ));

    // sub-stepping: the same events, one per call
    let sub_dec = |i: u64| {
        let mut d = Dec::new(i);
        (1 + d.d(3), d.p(&[30.0f64, 70.0, 118.0]), d.d(12) as f64 * 0.53 + 0.1, d.p(&[0.0f32, 0.5, 1.0]), d.b(), d.d(3))
    };
    ph.push(phase(
        "sub-stepping",
        3 * 3 * 12 * 3 * 2 * 3,
        move |i| format!("{:?}", sub_dec(i)),
        move |i, cx| {
            let (n, sp, an, e, bullet, kind) = sub_dec(i);
            let make = |sub: bool| {
                let w = world(0.0, 0.0);
                w.borrow_mut().set_sub_stepping(sub);
                let wb = body(&w, ST, 0.0, 0.0, 0.0);
                for (s, x, y) in container(kind).0 {
                    let s = match s {
                        Sh::Box(a, b) => Sh::BoxAt(a, b, x, y, 0.0),
                        o => o,
                    };
                    let mut f = fdef(&s);
                    f.restitution = e;
                    f.friction = 0.0;
                    f.user_data = Some(1);
                    B2body::create_fixture(wb.clone(), &f);
                }
                let bs: Vec<B> = (0..n).map(|k| {
                    let mut q = bdef(DY, [0.1, -0.5, 0.5][k], [0.03, 0.45, 0.55][k], 0.0);
                    let a = an + k as f64 * 2.1;
                    q.linear_velocity = v((sp * a.cos()) as f32, (sp * a.sin()) as f32);
                    q.bullet = bullet;
                    let b = B2world::create_body(w.clone(), &q);
                    let mut f = fdef(&Sh::Circle(0.1, 0.0, 0.0));
                    f.restitution = e;
                    f.friction = 0.0;
                    f.user_data = Some(10 + k as u32);
                    B2body::create_fixture(b.clone(), &f);
                    b
                }).collect();
                (w, bs)
            };
            let (wa, ba) = make(false);
            let (wb, bb) = make(true);
            let ra = listen(&wa);
            let rb = listen(&wb);
            step(&wa, DT);
            cx.step(1);
            let want: Vec<Bs> = ba.iter().map(bstate).collect();
            // position solving of the impacts may leave rounding differences only
            let same = |bb: &Vec<B>| bb.iter().zip(&want).all(|(b, q)| {
                let s = bstate(b);
                pclose(s.c, q.c, 1e-3) && pclose(s.v, q.v, 1e-2 + 1e-3 * sp)
            });
            let solves = |r: &std::rc::Rc<std::cell::RefCell<Rec>>| r.borrow().ev.iter().filter_map(|e| match e {
                Ev::Post(c, _) => Some(*c),
                _ => None,
            }).collect::<Vec<_>>();
            let mut done = None;
            for k in 0..60 {
                step(&wb, DT);
                cx.step(1);
                if same(&bb) {
                    done = Some(k);
                    break;
                }
                cx.state(hash_world(&wb));
            }
            cx.eval(2);
            let k = match done {
                Some(k) => k,
                None => return Err(format!("the sub-stepped world never reaches the state of the full step {:?}", want.iter().map(|s| (s.c, s.v)).collect::<Vec<_>>())),
            };
            let (a, b) = (solves(&ra), solves(&rb));
            ensure!(a == b, "impacts answered in a full step {:?}, over {} sub-stepped calls {:?}", a, k + 1, b);
            Ok(())
        },
    ));

    // impacts with many contacts at once
    ph.push(phase(
        "crowded impact",
        2 * 2 * 3 * 5,
        |i| format!("case {}", i),
        |i, cx| {
            let mut d = Dec::new(i);
            let (bullet, gnd, sp, n) = (d.b(), d.b(), d.p(&[10.0f32, 60.0, 118.0]), d.p(&[3usize, 20, 40, 63, 90]));
            let w = world(0.0, 0.0);
            let half = n as f32 * 0.15 + 1.0;
            let mut q = bdef(DY, 0.0, 1.0, 0.0);
            q.bullet = bullet;
            q.linear_velocity = v(0.0, -sp);
            let plate = B2world::create_body(w.clone(), &q);
            fixu(&plate, &Sh::Box(half, 0.1), 1.0, 1);
            if gnd {
                let g = body(&w, ST, 0.0, -1.0, 0.0);
                fixu(&g, &Sh::Box(half + 1.0, 1.0), 0.0, 2);
            } else {
                for k in 0..n {
                    let g = body(&w, ST, (k as f32 - n as f32 * 0.5) * 0.3, -0.1, 0.0);
                    fixu(&g, &Sh::Circle(0.1, 0.0, 0.0), 0.0, 2);
                }
            }
            let mut bs = vec![];
            for k in 0..n {
                let mut q = bdef(DY, (k as f32 - n as f32 * 0.5) * 0.3, 1.199, 0.0);
                q.linear_velocity = v(0.0, -sp);
                let b = B2world::create_body(w.clone(), &q);
                fixu(&b, &Sh::Circle(0.1, 0.0, 0.0), 1.0, 100 + k as u32);
                bs.push(b);
            }
            for k in 0..10 {
                step(&w, DT);
                cx.step(1);
                finite_world(&w)?;
                cx.eval(1);
                let y = bstate(&plate).c.y;
                ensure!(y > 0.02, "step {}: the plate passed through the ground, height {}", k, y);
                cx.state(hash_world(&w));
            }
            Ok(())
        },
    ));

    Check {
        id: "C23",
        bounds: format!("{} shots of 6 bodies at 4 walls (static and kinematic) over speeds up to the per-step limit, angles, spins, positions within the step and step sizes; balls in closed form; containers with up to 3 bodies, and single elastic bodies in them for 120 steps; channels with 3 bodies; bullets against plates; sub-stepping; impacts with up to 90 bodies", shots),
        assumptions: vec!["at most eight impacts per contact in a step, the library's documented limit".into()],
        phases: ph,
    }
}
