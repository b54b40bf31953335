//! C04: contact events against the alternation automaton and exact overlap.
use crate::c03;
use crate::ensure;
use crate::fw::*;
use crate::kit::*;

pub fn check() -> Check {
    let mut phases = c03::phases(false, true);
    // contacts disabled in pre-solve: all histories of three letters, one pair switched off
    let d = if thorough() { 4 } else { 3 };
    let small: [usize; 12] = [0, 2, 6, 11, 12, 15, 19, 20, 21, 26, 27, 28];
    for k in [0usize, 1, 4] {
        for toi in [false, true] {
            phases.push(phase(
                &format!("disabled{}{}", k, if toi { "toi" } else { "" }),
                seq_count(small.len(), d),
                move |i| format!("scene {} pair 1-2 disabled in pre-solve: {}", k, decode_seq(i, small.len(), d).iter().map(|o| c03::opname(small[*o])).collect::<Vec<_>>().join("; ")),
                move |i, c| {
                    let mut s = c03::scene(k, toi);
                    s.check03 = false;
                    s.rec.borrow_mut().disable = vec![(1, 0, 2, 0), (1, 0, 3, 0)];
                    s.step(DT, c)?;
                    let ops: Vec<usize> = decode_seq(i, small.len(), d).iter().map(|o| small[*o]).collect();
                    c03::run_seq(&mut s, &ops, c)?;
                    // enabled again as soon as nobody disables it
                    s.rec.borrow_mut().disable.clear();
                    s.step(DT, c)?;
                    if !toi {
                        for b in s.bodies.iter().filter(|b| b.alive) {
                            b.b.borrow_mut().set_awake(true);
                        }
                        s.step(DT, c)?;
                        for (id, _, e) in contacts(&s.w) {
                            let st = |u: u32| s.bodies[s.fixtures[u as usize - 1].body].ty == ST;
                            ensure!(e || (st(id.0) && st(id.2)), "contact {:?} still disabled", id);
                        }
                    }
                    Ok(())
                },
            ));
        }
    }
    // no response: a disabled or sensor contact leaves the motion as if the other were absent
    phases.push(phase(
        "noresponse",
        6 * 5 * 3 * 2 * 2,
        |i| format!("no-response case {}", i),
        |i, c| {
            let mut d = Dec::new(i);
            let shapes = [Sh::Circle(0.5, 0.0, 0.0), Sh::Box(0.5, 0.5), Sh::Poly(vec![(-0.5, -0.5), (0.5, -0.5), (0.0, 0.6)]), Sh::Circle(0.3, 0.2, 0.0), Sh::Box(1.0, 0.2), Sh::BoxAt(0.4, 0.4, 0.1, 0.0, 0.7)];
            let others = [Sh::Circle(0.5, 0.0, 0.0), Sh::Box(0.5, 0.5), Sh::Edge((-1.0, 0.0), (1.0, 0.1)), Sh::Chain(vec![(1.0, 0.0), (0.0, 0.1), (-1.0, 0.0)], (2.0, 0.0), (-2.0, 0.0)), Sh::Box(3.0, 0.1)];
            let sa = d.r(&shapes).clone();
            let sb = d.r(&others).clone();
            let how = d.d(3);
            let ty = d.p(&[ST, DY]);
            let toi = d.b();
            let build = |with: bool| {
                let w = world(0.0, -10.0);
                w.borrow_mut().set_continuous_physics(toi);
                let r = listen(&w);
                r.borrow_mut().disable = if how == 2 { (0..3).flat_map(|k| vec![(1, 0, 2, k), (1, k, 2, 0)]).collect() } else { vec![] };
                let a = body(&w, DY, 0.0, 0.5, 0.1);
                let mut fd = fdef(&sa);
                fd.user_data = Some(1);
                fd.is_sensor = how == 0;
                box2d_rs::b2_body::B2body::create_fixture(a.clone(), &fd);
                a.borrow_mut().set_linear_velocity(v(0.3, -3.0));
                if with {
                    let b = body(&w, ty, 0.1, 0.0, 0.0);
                    let mut fd = fdef(&sb);
                    fd.user_data = Some(2);
                    fd.is_sensor = how == 1;
                    box2d_rs::b2_body::B2body::create_fixture(b.clone(), &fd);
                }
                (w, a, r)
            };
            let (w1, a1, r1) = build(true);
            let (w2, a2, _) = build(false);
            let mut begun = false;
            for k in 0..20 {
                step(&w1, DT);
                step(&w2, DT);
                c.step(2);
                let (s, t) = (bstate(&a1), bstate(&a2));
                ensure!((s.pos - t.pos).len() < 1e-5 && (s.ang - t.ang).abs() < 1e-5 && (s.v - t.v).len() < 1e-5, "step {}: motion {:?} differs from the free one {:?}", k, s, t);
                for e in &r1.borrow().ev {
                    match e {
                        Ev::Begin(..) => begun = true,
                        Ev::Pre(..) => ensure!(how == 2, "pre-solve on a sensor"),
                        Ev::Post(..) => return Err("post-solve without response".into()),
                        _ => {}
                    }
                }
                c.state(hash_world(&w1));
            }
            ensure!(begun || matches!(sb, Sh::Chain(..)), "no begin event");
            Ok(())
        },
    ));
    Check {
        id: "C04",
        bounds: format!("the histories of C03 (depth {}) under an event monitor; the same with pairs disabled in pre-solve; 360 no-response scenes", d),
        assumptions: vec!["touching is compared with exact overlap outside a band of 1e-4 (circles, sensors) or the polygon skins".into()],
        phases,
    }
}
