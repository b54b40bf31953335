//! C22: collision filtering, full product of filter data, body types, joints and change points.
use crate::ensure;
use crate::fw::*;
use crate::jk;
use crate::kit::*;
use crate::wsim::*;
use box2d_rs::b2_fixture::*;
use box2d_rs::b2_world_callbacks::*;
use std::cell::RefCell;
use std::rc::Rc;

const CATS: [u16; 4] = [0x0001, 0x0002, 0x8001, 0x0000];
const MASKS: [u16; 5] = [0xffff, 0x0000, 0x0001, 0x0002, 0x8000];
const GROUPS: [i16; 5] = [0, 1, 2, -1, -2];
const NF: usize = 100;
fn filt(k: usize) -> (u16, u16, i16) {
    (CATS[k % 4], MASKS[(k / 4) % 5], GROUPS[k / 20])
}

struct Cust(fn(u32, u32) -> bool);
impl B2contactFilter<U> for Cust {
    fn should_collide(&self, a: F, b: F) -> bool {
        let (x, y) = (a.borrow().get_user_data().unwrap_or(0), b.borrow().get_user_data().unwrap_or(0));
        (self.0)(x, y)
    }
}

fn pair(f: (u16, u16, i16), g: (u16, u16, i16), shape: usize, grav: f32) -> WSim {
    let mut s = WSim::new(0.0, grav);
    s.toi = false;
    s.w.borrow_mut().set_continuous_physics(false);
    let a = s.body(DY, 0.0, 0.0);
    let b = s.body(if shape == 2 { ST } else { DY }, 0.7, 0.0);
    let (sa, sb, sen) = match shape {
        0 => (Sh::Circle(0.5, 0.0, 0.0), Sh::Circle(0.5, 0.0, 0.0), false),
        1 => (Sh::Box(0.5, 0.5), Sh::Circle(0.5, 0.0, 0.0), true),
        _ => (Sh::Box(0.5, 0.5), Sh::Chain(vec![(-0.5, 2.0), (-0.4, 0.0), (-0.5, -2.0)], (-0.5, 3.0), (-0.5, -3.0)), false),
    };
    s.fixture_f(a, sa, sen, f.0, f.1, f.2);
    s.fixture_f(b, sb, false, g.0, g.1, g.2);
    s
}

pub fn check() -> Check {
    let th = thorough();
    let mut phases = vec![];
    // every filter pair, then every change of either side
    for shape in 0..3usize {
        let sub = if shape == 0 || th { NF } else { 20 };
        phases.push(phase(
            &format!("rule{}", shape),
            (NF * NF * sub * 2) as u64,
            move |i| {
                let mut d = Dec::new(i);
                let (a, b, n, side) = (d.d(NF), d.d(NF), d.d(sub), d.d(2));
                format!("shapes {} filters {:?} {:?}, then side {} becomes {:?}", shape, filt(a), filt(b), side, filt(n * (NF / sub)))
            },
            move |i, c| {
                let mut d = Dec::new(i);
                let (a, b, n, side) = (d.d(NF), d.d(NF), d.d(sub), d.d(2));
                let n = filt(n * (NF / sub));
                let mut s = pair(filt(a), filt(b), shape, 0.0);
                s.step(DT, c)?;
                let want = rule(filt(a).0, filt(a).1, filt(a).2, filt(b).0, filt(b).1, filt(b).2);
                ensure!((s.w.borrow().get_contact_count() > 0) == want, "contacts {} but the rule says {}", s.w.borrow().get_contact_count(), want);
                s.set_filter(side, n.0, n.1, n.2);
                let got = s.fixtures[side].f.borrow().get_filter_data();
                ensure!(got.category_bits == n.0 && got.mask_bits == n.1 && got.group_index == n.2, "filter data does not read back");
                // keep them in place so that the boxes still overlap
                s.set_transform(0, 0.0, 0.0, 0.0);
                if shape != 2 {
                    s.bodies[1].b.borrow_mut().set_linear_velocity(v(0.0, 0.0));
                }
                s.bodies[0].b.borrow_mut().set_linear_velocity(v(0.0, 0.0));
                s.step(DT, c)?;
                let want = if side == 0 { rule(n.0, n.1, n.2, filt(b).0, filt(b).1, filt(b).2) } else { rule(filt(a).0, filt(a).1, filt(a).2, n.0, n.1, n.2) };
                ensure!((s.w.borrow().get_contact_count() > 0) == want, "after the change contacts {} but the rule says {}", s.w.borrow().get_contact_count(), want);
                c.eval(2);
                Ok(())
            },
        ));
    }
    // bodies that stay where they are while the filter of either side changes, for every segment of a chain
    // every bit of categories and masks, groups that differ in few bits
    const GS: [i16; 17] = [0, 1, -1, 2, 127, 128, -128, -129, 255, 256, -255, -256, 257, 0x4000, 0x7fff, -0x7fff, i16::MIN];
    let ng = GS.len() * GS.len() * 4;
    let at = move |i: u64| {
        let mut d = Dec::new(i);
        if (i as usize) < ng {
            let (g, h) = (d.p(&GS), d.p(&GS));
            let (ma, mb) = (d.p(&[0xffffu16, 0]), d.p(&[0xffffu16, 0]));
            [(1u16, ma, g), (1u16, mb, h)]
        } else {
            let mut d = Dec::new(i - ng as u64);
            let mut bit = || 1u16 << d.d(16);
            [(bit(), bit(), 0), (bit(), bit(), 0)]
        }
    };
    phases.push(phase(
        "bits",
        ng as u64 + 65536,
        move |i| format!("filters {:x?}", at(i)),
        move |i, c| {
            let [a, b] = at(i);
            let mut s = pair(a, b, 0, 0.0);
            s.step(DT, c)?;
            let want = rule(a.0, a.1, a.2, b.0, b.1, b.2);
            ensure!((s.w.borrow().get_contact_count() > 0) == want, "contacts {} but the rule says {}", s.w.borrow().get_contact_count(), want);
            c.eval(1);
            Ok(())
        },
    ));
    phases.push(phase(
        "in place",
        (5 * 20 * 20 * 20 * 2 * 2) as u64,
        |i| format!("refiltering in place, case {}", i),
        move |i, c| {
            let mut d = Dec::new(i);
            let at = d.d(5);
            let (a, b, n) = (filt(d.d(20) * 5), filt(d.d(20) * 5), filt(d.d(20) * 5));
            let (side, swap) = (d.d(2), d.b());
            let mut s = WSim::new(0.0, 0.0);
            s.toi = false;
            let chain = Sh::Chain(vec![(2.0, 0.0), (1.0, 0.0), (0.0, 0.0), (-1.0, 0.0), (-2.0, 0.0)], (3.0, 0.0), (-3.0, 0.0));
            let x = if at == 4 { 0.0 } else { 1.5 - at as f32 };
            let half = if at == 4 { 1.5 } else { 0.2 };
            for k in if swap { [1, 0] } else { [0, 1] } {
                let t = s.body(if k == 0 { DY } else { ST }, if k == 0 { x } else { 0.0 }, 0.0);
                let f = if k == 0 { a } else { b };
                s.fixture_f(t, if k == 0 { Sh::Box(half, 0.2) } else { chain.clone() }, true, f.0, f.1, f.2);
            }
            let count = if at == 4 { 4 } else { 1 };
            let who = |k: usize| if swap { 1 - k } else { k };
            for turn in 0..3 {
                s.step(DT, c)?;
                let (f, g) = match (turn == 1, side) {
                    (false, _) => (a, b),
                    (_, 0) => (n, b),
                    _ => (a, n),
                };
                let want = if rule(f.0, f.1, f.2, g.0, g.1, g.2) { count } else { 0 };
                ensure!(s.w.borrow().get_contact_count() == want, "turn {}: contacts {} but the rule says {}", turn, s.w.borrow().get_contact_count(), want);
                let t = match (turn, side) {
                    (0, _) => n,
                    (_, 0) => a,
                    _ => b,
                };
                s.set_filter(who(side), t.0, t.1, t.2);
                c.eval(1);
            }
            Ok(())
        },
    ));
    // body types x joint kinds x order x when the joint arrives
    phases.push(phase(
        "joints",
        (3 * 3 * 9 * 2 * 2 * 4 * 2) as u64,
        |i| format!("joint case {}", i),
        move |i, c| {
            let mut d = Dec::new(i);
            let ta = d.p(&[DY, KI, ST]);
            let tb = d.p(&[DY, KI, ST]);
            let kind = d.d(9);
            let collide = d.b();
            let swap = d.b();
            let when = d.d(4);
            let third = d.b();
            let mut s = WSim::new(0.0, 0.0);
            s.toi = false;
            s.w.borrow_mut().set_continuous_physics(false);
            let a = s.body(ta, 0.0, 0.0);
            let b = s.body(tb, 0.7, 0.0);
            s.fixture(a, Sh::Circle(0.5, 0.0, 0.0), false);
            s.fixture(b, Sh::Box(0.5, 0.5), false);
            if third {
                let g = s.body(DY, 0.3, 0.4);
                s.fixture(g, Sh::Box(0.3, 0.3), false);
            }
            if kind == jk::MOUSE && (if swap { ta } else { tb }) != DY {
                return Ok(());
            }
            let mkj = |s: &mut WSim| {
                let (x, y) = if swap { (b, a) } else { (a, b) };
                let j = jk::mk(&s.w, kind, &s.bodies[x].b.clone(), &s.bodies[y].b.clone(), collide, 5);
                s.joints.push(MJ { j, a: x, b: y, collide, alive: true });
            };
            if when == 0 {
                mkj(&mut s);
            }
            s.step(DT, c)?;
            if when == 1 {
                mkj(&mut s);
            }
            s.step(DT, c)?;
            if when == 2 {
                mkj(&mut s);
                s.step(0.0, c)?;
            }
            s.step(DT, c)?;
            if when == 3 {
                // a forbidding joint next to an allowing one
                mkj(&mut s);
                s.joint(a, b, !collide);
                s.step(DT, c)?;
                s.destroy_joint(1);
                s.step(DT, c)?;
            }
            let want = (ta == DY || tb == DY) && collide;
            let has = contacts(&s.w).iter().any(|x| x.0 == (1, 0, 2, 0));
            if !want {
                ensure!(!has, "contact between jointed bodies");
            }
            s.destroy_joint(0);
            s.set_transform(0, 0.01, 0.3, 0.0);
            s.step(DT, c)?;
            s.step(DT, c)
        },
    ));
    // gears count like any other joint
    phases.push(phase(
        "gear",
        8,
        |i| format!("gear case {}", i),
        |i, c| {
            let mut d = Dec::new(i);
            let (collide, late, swap) = (d.b(), d.b(), d.b());
            let mut s = WSim::new(0.0, 0.0);
            s.toi = false;
            let g = s.body(ST, 0.0, -3.0);
            let a = s.body(DY, 0.0, 0.0);
            let b = s.body(DY, 0.7, 0.0);
            s.fixture(a, Sh::Circle(0.5, 0.0, 0.0), false);
            s.fixture(b, Sh::Box(0.5, 0.5), false);
            s.joint(g, a, true);
            s.joint(g, b, true);
            if late {
                s.step(DT, c)?;
            }
            let (x, y) = if swap { (1, 0) } else { (0, 1) };
            let (bx, by) = if swap { (b, a) } else { (a, b) };
            let j = jk::gear(&s.w, &s.joints[x].j.clone(), &s.joints[y].j.clone(), &s.bodies[bx].b.clone(), &s.bodies[by].b.clone(), 1.0, collide, 9);
            s.joints.push(MJ { j, a: bx, b: by, collide, alive: true });
            s.step(DT, c)?;
            s.step(DT, c)?;
            ensure!((s.w.borrow().get_contact_count() > 0) == collide, "gear with collide_connected {}: {} contacts", collide, s.w.borrow().get_contact_count());
            Ok(())
        },
    ));
    // same body
    phases.push(phase(
        "samebody",
        16,
        |i| format!("several fixtures on one body, case {}", i),
        |i, c| {
            let mut d = Dec::new(i);
            let (t, sen, grp) = (d.p(&[DY, KI]), d.b(), d.p(&[0i16, 1, -1, 2]));
            let mut s = WSim::new(0.0, -10.0);
            let a = s.body(t, 0.0, 0.0);
            s.fixture_f(a, Sh::Circle(0.5, 0.0, 0.0), false, 1, 0xffff, grp);
            s.fixture_f(a, Sh::Box(0.5, 0.5), sen, 1, 0xffff, grp);
            s.fixture_f(a, Sh::Edge((-1.0, 0.0), (1.0, 0.0)), false, 1, 0xffff, grp);
            for _ in 0..3 {
                s.step(DT, c)?;
            }
            ensure!(s.w.borrow().get_contact_count() == 0, "contacts within one body");
            Ok(())
        },
    ));
    // a user filter replaces the rule, whatever the filter data
    const FNS: [fn(u32, u32) -> bool; 4] = [|_, _| true, |_, _| false, |a, b| a + b == 3, |a, b| (a + b) % 2 == 1];
    phases.push(phase(
        "custom",
        (4 * NF * 20 * 2) as u64,
        |i| format!("user filter case {}", i),
        move |i, c| {
            let mut d = Dec::new(i);
            let fn_ = FNS[d.d(4)];
            let (a, b, late) = (d.d(NF), d.d(20) * 5, d.b());
            let mut s = WSim::new(0.0, 0.0);
            s.toi = false;
            s.w.borrow_mut().set_continuous_physics(false);
            for (k, f) in [filt(a), filt(b), (1, 0xffff, 0)].iter().enumerate() {
                let x = s.body(DY, 0.3 * k as f32, 0.1 * k as f32);
                s.fixture_f(x, if k == 1 { Sh::Box(0.5, 0.4) } else { Sh::Circle(0.5, 0.0, 0.0) }, false, f.0, f.1, f.2);
            }
            if late {
                s.step(DT, c)?;
            }
            s.custom = Some(fn_);
            s.w.borrow_mut().set_contact_filter(Rc::new(RefCell::new(Cust(fn_))));
            if late {
                for k in 0..3 {
                    let f = (s.fixtures[k].cat, s.fixtures[k].mask, s.fixtures[k].group);
                    s.set_filter(k, f.0, f.1, f.2);
                }
            }
            s.step(DT, c)?;
            for x in 0..3usize {
                for y in x + 1..3 {
                    let has = contacts(&s.w).iter().any(|k| k.0 == (x as u32 + 1, 0, y as u32 + 1, 0));
                    ensure!(has == fn_(x as u32 + 1, y as u32 + 1), "user filter ignored for {} {}", x, y);
                }
            }
            Ok(())
        },
    ));
    // the rule governs the response: a filtered pair passes, an allowed pair is stopped
    phases.push(phase(
        "response",
        (NF * 20 * 2 * 2) as u64,
        |i| format!("response case {}", i),
        |i, c| {
            let mut d = Dec::new(i);
            let (fa, fb, toi, bullet) = (filt(d.d(NF)), filt(d.d(20) * 5), d.b(), d.b());
            let w = world(0.0, 0.0);
            w.borrow_mut().set_continuous_physics(toi);
            let a = body(&w, DY, 0.0, 0.0, 0.0);
            a.borrow_mut().set_bullet(bullet);
            let b = body(&w, ST, 2.0, 0.0, 0.0);
            for (x, f, sh) in [(&a, fa, Sh::Circle(0.3, 0.0, 0.0)), (&b, fb, Sh::Box(0.5, 0.5))] {
                let mut fd = fdef(&sh);
                fd.filter = B2filter { category_bits: f.0, mask_bits: f.1, group_index: f.2 };
                box2d_rs::b2_body::B2body::create_fixture(x.clone(), &fd);
            }
            a.borrow_mut().set_linear_velocity(v(if toi { 70.0 } else { 10.0 }, 0.0));
            for _ in 0..30 {
                step(&w, DT);
                c.step(1);
            }
            let passed = bstate(&a).pos.x > 2.5;
            let want = !rule(fa.0, fa.1, fa.2, fb.0, fb.1, fb.2);
            ensure!(passed == want, "passed {} but the rule says {}", passed, want);
            c.eval(1);
            c.state(hash_world(&w));
            Ok(())
        },
    ));
    Check {
        id: "C22",
        bounds: "all pairs of 100 filter settings (4 categories x 5 masks x 5 groups), each followed by every change of either side, for 3 shape pairings; all pairs of single-bit categories and masks and of 17 groups; every change and back in place on each of 4 chain segments; 9 joint kinds x 9 type pairs x order x collide flag x 4 arrival points; gears; one body; 4 user filters x filter settings; response of 8000 pairs".into(),
        assumptions: vec!["a user filter installed later decides pairs when they are examined again".into()],
        phases,
    }
}
