//! C03: contact existence against a set model; the scene alphabet is shared with C04.
use crate::fw::*;
use crate::kit::*;
use crate::wsim::*;

pub const SCENES: usize = 5;
pub const NOPS: usize = 32;

/// Starting scenes. Body 0 and 1 are the ones the alphabet works on.
pub fn scene(k: usize, toi: bool) -> WSim {
    let mut s = WSim::new(0.0, if k == 4 { 0.0 } else { -10.0 });
    s.toi = toi;
    s.w.borrow_mut().set_continuous_physics(toi);
    match k {
        0 => {
            // two boxes side by side on an edge
            let a = s.body(DY, 0.0, 0.5);
            s.fixture(a, Sh::Box(0.5, 0.5), false);
            let b = s.body(DY, 0.9, 0.5);
            s.fixture(b, Sh::Box(0.5, 0.5), false);
            let g = s.body(ST, 0.0, 0.0);
            s.fixture(g, Sh::Edge((-10.0, 0.0), (10.0, 0.0)), false);
        }
        1 => {
            // circle with a sensor, box, chain ground
            let a = s.body(DY, 0.0, 0.5);
            s.fixture(a, Sh::Circle(0.5, 0.0, 0.0), false);
            s.fixture(a, Sh::Circle(1.0, 0.0, 0.0), true);
            let b = s.body(DY, 1.2, 0.5);
            s.fixture(b, Sh::Box(0.5, 0.5), false);
            let g = s.body(ST, 0.0, 0.0);
            s.fixture(g, Sh::Chain(vec![(6.0, 0.0), (2.0, 0.0), (-2.0, 0.0), (-6.0, 0.0)], (10.0, 0.0), (-10.0, 0.0)), false);
        }
        2 => {
            // dynamic body with an edge, kinematic platform
            let a = s.body(DY, 0.0, 1.0);
            s.fixture(a, Sh::Edge((-1.0, 0.0), (1.0, 0.0)), false);
            s.fixture(a, Sh::Circle(0.4, 0.0, 0.0), false);
            let b = s.body(KI, 0.0, 0.3);
            s.fixture(b, Sh::Box(1.5, 0.3), false);
            s.bodies[b].b.borrow_mut().set_linear_velocity(v(0.5, 0.1));
            let g = s.body(ST, 0.0, -0.1);
            s.fixture(g, Sh::Edge((-10.0, 0.0), (10.0, 0.0)), false);
        }
        3 => {
            // far apart
            let a = s.body(DY, -3.0, 1.0);
            s.fixture(a, Sh::Circle(0.5, 0.0, 0.0), false);
            let b = s.body(DY, 3.0, 1.0);
            s.fixture(b, Sh::Poly(vec![(-0.5, -0.5), (0.5, -0.5), (0.0, 0.6)]), false);
        }
        _ => {
            // no gravity, three dynamic bodies in a row
            let a = s.body(DY, 0.0, 0.0);
            s.fixture(a, Sh::Box(0.5, 0.5), false);
            let b = s.body(DY, 1.1, 0.0);
            s.fixture(b, Sh::Circle(0.5, 0.0, 0.0), false);
            let g = s.body(DY, -1.1, 0.0);
            s.fixture(g, Sh::Box(0.5, 0.4), false);
        }
    }
    s
}

fn newest_fixture(s: &WSim, b: usize) -> Option<usize> {
    (0..s.fixtures.len()).rev().find(|f| s.fixtures[*f].alive && s.fixtures[*f].body == b)
}

pub fn opname(o: usize) -> &'static str {
    [
        "step", "step x5", "step dt=0", "new circle at body 1", "new static box", "new kinematic box", "add box to body 0", "add sensor to body 1", "destroy newest fixture of 0",
        "destroy body 1", "destroy newest body", "disable 0", "enable 0", "0 static", "0 kinematic", "0 dynamic", "1 static", "1 dynamic", "move 0 away", "move 0 onto 1", "0 mask none",
        "0 mask all", "joint 0-1 no collide", "joint 0-1 collide", "destroy oldest joint", "sleep 0", "wake 0", "0 towards 1 fast", "toggle sensor on 0", "refilter 1", "shift origin", "add edge to 1",
    ][o]
}

/// Apply one letter; false when it is not applicable in this state.
pub fn op(s: &mut WSim, o: usize, c: &mut Ctx) -> Result<bool, String> {
    let alive0 = s.bodies[0].alive;
    let alive1 = s.bodies[1].alive;
    let both = alive0 && alive1;
    let need = |x: bool| x;
    let ok = match o {
        6 | 8 | 11..=15 | 18 | 20 | 21 | 25 | 26 | 28 => need(alive0),
        7 | 9 | 16 | 17 | 29 | 3 | 31 => need(alive1),
        19 | 22 | 23 | 27 => need(both),
        _ => true,
    };
    if !ok {
        return Ok(false);
    }
    match o {
        0 => s.step(DT, c)?,
        1 => {
            for _ in 0..5 {
                s.step(DT, c)?;
            }
        }
        2 => s.step(0.0, c)?,
        3 => {
            let q = s.bodies[1].b.borrow().get_position();
            let b = s.body(DY, q.x - 0.3, q.y + 0.2);
            s.fixture(b, Sh::Circle(0.3, 0.1, 0.0), false);
        }
        4 => {
            let b = s.body(ST, 0.4, 0.3);
            s.fixture(b, Sh::Box(0.3, 0.2), false);
        }
        5 => {
            let b = s.body(KI, 0.2, 0.2);
            s.fixture(b, Sh::Box(0.2, 0.6), false);
            s.bodies[b].b.borrow_mut().set_linear_velocity(v(-1.0, 0.0));
        }
        6 => {
            s.fixture(0, Sh::BoxAt(0.2, 0.7, 0.6, 0.0, 0.3), false);
        }
        7 => {
            s.fixture(1, Sh::Circle(0.8, 0.2, 0.0), true);
        }
        8 => match newest_fixture(s, 0) {
            Some(f) => s.destroy_fixture(f),
            None => return Ok(false),
        },
        9 => s.destroy_body(1),
        10 => match (0..s.bodies.len()).rev().find(|b| s.bodies[*b].alive) {
            Some(b) => s.destroy_body(b),
            None => return Ok(false),
        },
        11 => s.set_enabled(0, false),
        12 => s.set_enabled(0, true),
        13 => s.set_type(0, ST),
        14 => s.set_type(0, KI),
        15 => s.set_type(0, DY),
        16 => s.set_type(1, ST),
        17 => s.set_type(1, DY),
        18 => s.set_transform(0, 7.0, 5.0, 0.5),
        19 => {
            let q = s.bodies[1].b.borrow().get_position();
            s.set_transform(0, q.x + 0.35, q.y + 0.1, 0.2)
        }
        20 | 21 => match newest_fixture(s, 0) {
            Some(f) => s.set_filter(f, 1, if o == 20 { 0 } else { 0xffff }, 0),
            None => return Ok(false),
        },
        22 => s.joint(0, 1, false),
        23 => s.joint(0, 1, true),
        24 => match (0..s.joints.len()).find(|j| s.joints[*j].alive) {
            Some(j) => s.destroy_joint(j),
            None => return Ok(false),
        },
        25 => s.set_awake(0, false),
        26 => s.set_awake(0, true),
        27 => {
            let d = s.bodies[1].b.borrow().get_position() - s.bodies[0].b.borrow().get_position();
            s.bodies[0].b.borrow_mut().set_linear_velocity(60.0 * d);
        }
        28 => match newest_fixture(s, 0) {
            Some(f) => {
                let z = s.fixtures[f].sensor;
                s.set_sensor(f, !z);
                s.set_awake(0, true);
            }
            None => return Ok(false),
        },
        29 => match newest_fixture(s, 1) {
            Some(f) => s.fixtures[f].f.borrow_mut().refilter(),
            None => return Ok(false),
        },
        30 => s.shift(3.0, -2.0)?,
        _ => {
            s.fixture(1, Sh::Edge((-0.8, 0.2), (0.8, -0.2)), false);
        }
    }
    s.consistent()?;
    Ok(true)
}

pub fn run_seq(s: &mut WSim, ops: &[usize], c: &mut Ctx) -> R {
    for o in ops {
        if c.verbose {
            println!("-- {}", opname(*o));
        }
        if !op(s, *o, c)? {
            return Ok(());
        }
        c.step(1);
    }
    s.step(DT, c)?;
    s.step(DT, c)
}

pub fn phases(c3: bool, c4: bool) -> Vec<Phase> {
    let mut phases = vec![];
    let d = if thorough() { 4 } else { 3 };
    for k in 0..SCENES {
        for toi in [false, true] {
            for warm in [0usize, 2] {
                phases.push(phase(
                    &format!("scene{}{}w{}", k, if toi { "toi" } else { "" }, warm),
                    seq_count(NOPS, d),
                    move |i| format!("scene {} continuous {} after {} steps: {}; step; step", k, toi, warm, decode_seq(i, NOPS, d).iter().map(|o| opname(*o)).collect::<Vec<_>>().join("; ")),
                    move |i, c| {
                        let mut s = scene(k, toi);
                        s.check03 = c3;
                        s.check04 = c4;
                        for _ in 0..warm {
                            s.step(DT, c)?;
                        }
                        run_seq(&mut s, &decode_seq(i, NOPS, d), c)
                    },
                ));
            }
        }
    }
    // every ordered pair of letters around two intermediate steps, three letters deep
    let small: [usize; 18] = [2, 6, 8, 11, 12, 13, 15, 18, 19, 20, 21, 22, 24, 25, 27, 28, 30, 9];
    let m = if thorough() { 5 } else { 4 };
    for k in [0usize, 1, 4] {
        phases.push(phase(
            &format!("stepped{}", k),
            seq_count(small.len(), m),
            move |i| format!("scene {} with a step after each: {}", k, decode_seq(i, small.len(), m).iter().map(|o| opname(small[*o])).collect::<Vec<_>>().join("; ")),
            move |i, c| {
                let mut s = scene(k, false);
                s.check03 = c3;
                s.check04 = c4;
                s.step(DT, c)?;
                for o in decode_seq(i, small.len(), m) {
                    if c.verbose {
                        println!("-- {}", opname(small[o]));
                    }
                    if !op(&mut s, small[o], c)? {
                        return Ok(());
                    }
                    s.step(DT, c)?;
                }
                s.step(DT, c)
            },
        ));
    }
    // bodies with several proxies that change type
    let q = if thorough() { 4 } else { 3 };
    phases.push(phase(
        "retyped",
        2 * 5 * 2 * 9 * seq_count(8, q),
        move |i| {
            let (d, ops) = retyped_case(i, q);
            format!("{:?}: {:?}", d, ops.iter().map(|o| RETYPE[*o]).collect::<Vec<_>>())
        },
        move |i, c| {
            let (d, ops) = retyped_case(i, q);
            let mut s = WSim::new(0.0, 0.0);
            s.check03 = c3;
            s.check04 = c4;
            let g = s.body([ST, KI, DY][d[3]], 0.0, 0.0);
            let line: Vec<(f32, f32)> = (0..5).map(|k| (8.0 - 4.0 * k as f32, 0.0)).collect();
            if d[0] == 0 {
                s.fixture(g, Sh::Chain(line, (12.0, 0.0), (-12.0, 0.0)), false);
            } else {
                for k in 0..4 {
                    s.fixture(g, Sh::Edge(line[k], line[k + 1]), false);
                }
            }
            let a = s.body([ST, KI, DY][d[4]], -8.0 + 4.0 * d[1] as f32, 0.5);
            s.fixture(a, if d[2] == 0 { Sh::Circle(0.45, 0.0, 0.0) } else { Sh::Box(0.5, 0.45) }, false);
            s.step(DT, c)?;
            for o in ops {
                match o {
                    0..=2 => s.set_type(g, [ST, KI, DY][o]),
                    3..=5 => s.set_type(a, [ST, KI, DY][o - 3]),
                    6 => {
                        let e = !s.bodies[g].enabled;
                        s.set_enabled(g, e);
                    }
                    _ => s.step(DT, c)?,
                }
                c.step(1);
            }
            s.step(DT, c)?;
            s.step(DT, c)
        },
    ));
    phases
}
const RETYPE: [&str; 8] = ["ground static", "ground kinematic", "ground dynamic", "piece static", "piece kinematic", "piece dynamic", "ground toggled", "step"];
fn retyped_case(i: u64, n: usize) -> ([usize; 5], Vec<usize>) {
    let mut d = Dec::new(i);
    let k = [d.d(2), d.d(5), d.d(2), d.d(3), d.d(3)];
    (k, decode_seq(d.0, 8, n))
}

pub fn check() -> Check {
    Check {
        id: "C03",
        bounds: format!("all sequences of {} operations over a {}-letter alphabet in {} scenes, continuous physics on and off, started fresh or after two steps; sequences of {} with a step after each; a chain and a row of edges with a piece at each of 5 places, both changing type", if thorough() { 4 } else { 3 }, NOPS, SCENES, if thorough() { 5 } else { 4 }),
        assumptions: vec![
            "stored boxes are read through the query interface; the world query and the broad-phase query visit the same tree".into(),
            "pairs freed by destroying a joint are looked at again once one of their boxes changes".into(),
        ],
        phases: phases(true, false),
    }
}
