//! C05: create/destroy histories of every entity kind against a list model.
use crate::ensure;
use crate::fw::*;
use crate::jk;
use crate::kit::*;
use box2d_rs::b2_body::*;
use box2d_rs::b2_fixture::*;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_world_callbacks::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::{Rc, Weak};

#[derive(Default)]
struct Bye {
    joints: Vec<u32>,
    fixtures: Vec<u32>,
}
struct L(Rc<RefCell<Bye>>);
impl B2destructionListener<U> for L {
    fn say_goodbye_joint(&mut self, j: B2jointPtr<U>) {
        self.0.borrow_mut().joints.push(j.borrow().get_base().get_user_data().unwrap_or(0));
    }
    fn say_goodbye_fixture(&mut self, f: FixturePtr<U>) {
        self.0.borrow_mut().fixtures.push(f.borrow().get_user_data().unwrap_or(0));
    }
}

struct MB {
    b: B,
    ud: u32,
    ty: box2d_rs::b2_body::B2bodyType,
    enabled: bool,
    shapes: Vec<MF>,
}
struct MF {
    f: F,
    ud: u32,
    sh: Sh,
    sensor: bool,
}
struct MJ {
    j: J,
    ud: u32,
    kind: usize,
    a: u32,
    b: u32,
    collide: bool,
    gears: Option<(u32, u32)>,
}

struct Sim {
    w: W,
    bye: Rc<RefCell<Bye>>,
    bodies: Vec<MB>,
    joints: Vec<MJ>,
    next: u32,
    listener: bool,
}

/// Parameters derived from the user data, so that any mix-up shows.
fn par(ud: u32) -> f32 {
    0.125 * (ud % 7) as f32
}

impl Sim {
    fn new(listener: bool) -> Sim {
        let w = world(0.0, -10.0);
        let bye = Rc::new(RefCell::new(Bye::default()));
        if listener {
            w.borrow_mut().set_destruction_listener(Rc::new(RefCell::new(L(bye.clone()))));
        }
        Sim { w, bye, bodies: vec![], joints: vec![], next: 1, listener }
    }
    fn body(&mut self, ty: box2d_rs::b2_body::B2bodyType, enabled: bool) {
        let ud = self.next;
        self.next += 1;
        let mut d = bdef(ty, 0.8 * (ud % 5) as f32, 0.6 * (ud % 3) as f32, 0.0);
        d.user_data = Some(ud);
        d.enabled = enabled;
        d.linear_damping = par(ud);
        d.angular_damping = par(ud + 1);
        d.gravity_scale = par(ud + 2);
        d.bullet = ud % 3 == 0;
        d.fixed_rotation = ud % 4 == 0;
        d.allow_sleep = ud % 5 != 0;
        let b = box2d_rs::b2_world::B2world::create_body(self.w.clone(), &d);
        self.bodies.push(MB { b, ud, ty, enabled, shapes: vec![] });
    }
    fn fixture(&mut self, k: usize, sh: Sh, sensor: bool) {
        let ud = self.next;
        self.next += 1;
        let mut d = fdef(&sh);
        d.user_data = Some(ud);
        d.density = par(ud) + 0.5;
        d.friction = par(ud + 1);
        d.restitution = par(ud + 2);
        d.restitution_threshold = par(ud + 3);
        d.is_sensor = sensor;
        d.filter.category_bits = 1 | (ud as u16) << 4;
        d.filter.group_index = -((ud % 3) as i16);
        let f = B2body::create_fixture(self.bodies[k].b.clone(), &d);
        self.bodies[k].shapes.insert(0, MF { f, ud, sh, sensor });
    }
    fn joint(&mut self, kind: usize, a: usize, b: usize) {
        let ud = self.next;
        self.next += 1;
        let collide = ud % 2 == 0;
        let j = jk::mk(&self.w, kind, &self.bodies[a].b.clone(), &self.bodies[b].b.clone(), collide, ud);
        self.joints.push(MJ { j, ud, kind, a: self.bodies[a].ud, b: self.bodies[b].ud, collide, gears: None });
    }
    fn find(&self, ud: u32) -> usize {
        self.bodies.iter().position(|b| b.ud == ud).unwrap()
    }
    fn gear(&mut self) -> bool {
        let ok: Vec<usize> = (0..self.joints.len()).filter(|i| {
            let j = &self.joints[*i];
            (j.kind == jk::REV || j.kind == jk::PRIS) && self.bodies[self.find(j.b)].ty == DY
        }).collect();
        for x in (0..ok.len()).rev() {
            for y in (0..x).rev() {
                let (p, q) = (&self.joints[ok[x]], &self.joints[ok[y]]);
                if p.b != q.b && p.ud != q.ud {
                    let ud = self.next;
                    self.next += 1;
                    let collide = ud % 2 == 0;
                    let j = jk::gear(&self.w, &p.j, &q.j, &self.bodies[self.find(p.b)].b, &self.bodies[self.find(q.b)].b, 1.5, collide, ud);
                    let (a, b, g) = (p.b, q.b, (p.ud, q.ud));
                    self.joints.push(MJ { j, ud, kind: jk::GEAR, a, b, collide, gears: Some(g) });
                    return true;
                }
            }
        }
        false
    }
    /// gears go first when one of their joints goes
    fn destroy_dependents(&mut self, uds: &[u32]) -> R {
        while let Some(k) = self.joints.iter().position(|j| j.gears.map_or(false, |g| uds.contains(&g.0) || uds.contains(&g.1))) {
            self.destroy_joint_raw(k)?;
        }
        Ok(())
    }
    fn destroy_joint_raw(&mut self, k: usize) -> R {
        let m = self.joints.remove(k);
        self.w.borrow_mut().destroy_joint(m.j.clone());
        self.heard(&[], &[])?;
        let weak = Rc::downgrade(&m.j);
        drop(m);
        ensure!(weak.upgrade().is_none(), "destroyed joint is kept alive");
        Ok(())
    }
    fn destroy_joint(&mut self, k: usize) -> R {
        let ud = self.joints[k].ud;
        self.destroy_dependents(&[ud])?;
        let k = self.joints.iter().position(|j| j.ud == ud).unwrap();
        self.destroy_joint_raw(k)
    }
    fn heard(&mut self, joints: &[u32], fixtures: &[u32]) -> R {
        let mut b = self.bye.borrow_mut();
        let (mut gj, mut gf) = (std::mem::take(&mut b.joints), std::mem::take(&mut b.fixtures));
        gj.sort();
        gf.sort();
        let (mut wj, mut wf) = (joints.to_vec(), fixtures.to_vec());
        wj.sort();
        wf.sort();
        if !self.listener {
            wj.clear();
            wf.clear();
        }
        ensure!(gj == wj, "goodbye said to joints {:?}, expected {:?}", gj, wj);
        ensure!(gf == wf, "goodbye said to fixtures {:?}, expected {:?}", gf, wf);
        Ok(())
    }
    fn destroy_body(&mut self, k: usize) -> R {
        let ud = self.bodies[k].ud;
        // gears that depend on joints of this body but are not attached to it
        let mine: Vec<u32> = self.joints.iter().filter(|j| j.a == ud || j.b == ud).map(|j| j.ud).collect();
        while let Some(k) = self.joints.iter().position(|j| j.a != ud && j.b != ud && j.gears.map_or(false, |g| mine.contains(&g.0) || mine.contains(&g.1))) {
            self.destroy_joint_raw(k)?;
        }
        let k = self.find(ud);
        let m = self.bodies.remove(k);
        let mut gone = vec![];
        let mut i = 0;
        while i < self.joints.len() {
            if self.joints[i].a == ud || self.joints[i].b == ud {
                gone.push(self.joints.remove(i));
            } else {
                i += 1;
            }
        }
        self.w.borrow_mut().destroy_body(m.b.clone());
        let fs: Vec<u32> = m.shapes.iter().map(|f| f.ud).collect();
        let js: Vec<u32> = gone.iter().map(|j| j.ud).collect();
        self.heard(&js, &fs)?;
        ensure!(m.b.borrow().get_fixture_list().iter().count() == 0 && m.b.borrow().get_joint_list().iter().count() == 0 && m.b.borrow().get_contact_list().iter().count() == 0, "destroyed body still has parts");
        let wb: Weak<_> = Rc::downgrade(&m.b);
        let wf: Vec<_> = m.shapes.iter().map(|f| Rc::downgrade(&f.f)).collect();
        let wj: Vec<_> = gone.iter().map(|j| Rc::downgrade(&j.j)).collect();
        drop(m);
        drop(gone);
        ensure!(wj.iter().all(|x| x.upgrade().is_none()), "joint of a destroyed body is kept alive");
        ensure!(wf.iter().all(|x| x.upgrade().is_none()), "fixture of a destroyed body is kept alive");
        ensure!(wb.upgrade().is_none(), "destroyed body is kept alive");
        Ok(())
    }
    fn destroy_fixture(&mut self, k: usize, f: usize) -> R {
        let m = self.bodies[k].shapes.remove(f);
        B2body::destroy_fixture(self.bodies[k].b.clone(), m.f.clone());
        self.heard(&[], &[])?;
        let weak = Rc::downgrade(&m.f);
        drop(m);
        ensure!(weak.upgrade().is_none(), "destroyed fixture is kept alive");
        Ok(())
    }

    fn verify(&mut self, c: &mut Ctx) -> R {
        self.heard(&[], &[])?;
        let w = self.w.borrow();
        let mut h = Fnv::new();
        // counts and lists
        ensure!(w.get_body_count() == self.bodies.len(), "body count {} but {} alive", w.get_body_count(), self.bodies.len());
        ensure!(w.get_joint_count() == self.joints.len(), "joint count {} but {} alive", w.get_joint_count(), self.joints.len());
        let proxies: usize = self.bodies.iter().filter(|b| b.enabled).map(|b| b.shapes.iter().map(|s| s.sh.children()).sum::<usize>()).sum();
        ensure!(w.get_proxy_count() as usize == proxies, "proxy count {} expected {}", w.get_proxy_count(), proxies);
        let lb: Vec<B> = w.get_body_list().iter().collect();
        ensure!(lb.len() == self.bodies.len(), "body list has {} of {} bodies", lb.len(), self.bodies.len());
        let lj: Vec<J> = w.get_joint_list().iter().collect();
        ensure!(lj.len() == self.joints.len(), "joint list has {} of {} joints", lj.len(), self.joints.len());
        let mut per: BTreeMap<u32, usize> = BTreeMap::new();
        for m in &self.joints {
            ensure!(lj.iter().filter(|x| same(x, &m.j)).count() == 1, "joint {} not in the world list once", m.ud);
            *per.entry(m.a).or_default() += 1;
            *per.entry(m.b).or_default() += 1;
            let j = m.j.borrow();
            let base = j.get_base();
            ensure!(jk::kind_of(base.get_type()) == m.kind, "joint {} has the wrong kind", m.ud);
            ensure!(base.get_user_data() == Some(m.ud), "joint {} user data {:?}", m.ud, base.get_user_data());
            ensure!(base.get_collide_connected() == m.collide, "joint {} collide flag", m.ud);
            ensure!(same(&base.get_body_a(), &self.bodies[self.find(m.a)].b), "joint {} body a", m.ud);
            ensure!(same(&base.get_body_b(), &self.bodies[self.find(m.b)].b), "joint {} body b", m.ud);
            let en = self.bodies[self.find(m.a)].enabled && self.bodies[self.find(m.b)].enabled;
            ensure!(base.is_enabled() == en, "joint {} enabled", m.ud);
            if let (Some(g), JointAsDerived::EGearJoint(gj)) = (m.gears, j.as_derived()) {
                let f = |u: u32| self.joints.iter().find(|x| x.ud == u).unwrap();
                ensure!(same(&gj.get_joint1(), &f(g.0).j) && same(&gj.get_joint2(), &f(g.1).j), "gear {} joints", m.ud);
            }
            h.u(m.kind as u64).u(m.a as u64).u(m.b as u64);
        }
        for m in &self.bodies {
            ensure!(lb.iter().filter(|x| same(x, &m.b)).count() == 1, "body {} not in the world list once", m.ud);
            let b = m.b.borrow();
            ensure!(b.get_user_data() == Some(m.ud), "body user data {:?} expected {}", b.get_user_data(), m.ud);
            ensure!(b.get_type() == m.ty && b.is_enabled() == m.enabled, "body {} type or enabled flag", m.ud);
            ensure!(b.get_linear_damping() == par(m.ud) && b.get_angular_damping() == par(m.ud + 1) && b.get_gravity_scale() == par(m.ud + 2), "body {} damping or gravity scale", m.ud);
            ensure!(b.is_bullet() == (m.ud % 3 == 0) && b.is_fixed_rotation() == (m.ud % 4 == 0) && b.is_sleeping_allowed() == (m.ud % 5 != 0), "body {} flags", m.ud);
            ensure!(b.get_joint_list().iter().count() == per.get(&m.ud).cloned().unwrap_or(0), "body {} lists {} joints", m.ud, b.get_joint_list().iter().count());
            ensure!(same(&b.get_world(), &self.w), "body {} world", m.ud);
            let lf: Vec<F> = b.get_fixture_list().iter().collect();
            ensure!(lf.len() == m.shapes.len(), "body {} lists {} of {} fixtures", m.ud, lf.len(), m.shapes.len());
            for s in &m.shapes {
                ensure!(lf.iter().filter(|x| same(x, &s.f)).count() == 1, "fixture {} not listed once", s.ud);
                let f = s.f.borrow();
                ensure!(f.get_user_data() == Some(s.ud), "fixture user data");
                ensure!(f.get_density() == par(s.ud) + 0.5 && f.get_friction() == par(s.ud + 1) && f.get_restitution() == par(s.ud + 2) && f.get_restitution_threshold() == par(s.ud + 3), "fixture {} material", s.ud);
                let fl = f.get_filter_data();
                ensure!(f.is_sensor() == s.sensor && fl.category_bits == 1 | (s.ud as u16) << 4 && fl.mask_bits == 0xffff && fl.group_index == -((s.ud % 3) as i16), "fixture {} sensor or filter", s.ud);
                ensure!(same(&f.get_body(), &m.b), "fixture {} body", s.ud);
                ensure!(f.get_shape().get_child_count() == s.sh.children(), "fixture {} shape", s.ud);
            }
            h.u(m.ty as u64).u(m.shapes.len() as u64).b(m.enabled);
        }
        // contacts belong to live fixtures
        let n = w.get_contact_list().iter().count();
        ensure!(n == w.get_contact_count(), "contact count");
        for k in w.get_contact_list().iter() {
            let k = k.borrow();
            for f in [k.get_base().get_fixture_a(), k.get_base().get_fixture_b()] {
                ensure!(self.bodies.iter().any(|b| b.shapes.iter().any(|s| same(&s.f, &f))), "contact of a dead fixture");
            }
        }
        c.eval(1);
        c.state(h.u(n as u64).done());
        Ok(())
    }

    fn finish(self) -> R {
        let Sim { w, bodies, joints, .. } = self;
        let wb: Vec<_> = bodies.iter().map(|b| Rc::downgrade(&b.b)).collect();
        let wf: Vec<_> = bodies.iter().flat_map(|b| b.shapes.iter().map(|s| Rc::downgrade(&s.f)).collect::<Vec<_>>()).collect();
        let wj: Vec<_> = joints.iter().map(|j| Rc::downgrade(&j.j)).collect();
        let wc: Vec<_> = w.borrow().get_contact_list().iter().map(|c| Rc::downgrade(&c)).collect();
        let ww = Rc::downgrade(&w);
        drop(bodies);
        drop(joints);
        ensure!(wb.iter().all(|x| x.upgrade().is_some()) && wf.iter().all(|x| x.upgrade().is_some()) && wj.iter().all(|x| x.upgrade().is_some()), "the world does not keep its entities alive");
        drop(w);
        ensure!(ww.upgrade().is_none(), "dropped world is kept alive");
        ensure!(wj.iter().all(|x| x.upgrade().is_none()), "joint outlives the world");
        ensure!(wc.iter().all(|x| x.upgrade().is_none()), "contact outlives the world");
        ensure!(wf.iter().all(|x| x.upgrade().is_none()), "fixture outlives the world");
        ensure!(wb.iter().all(|x| x.upgrade().is_none()), "body outlives the world");
        Ok(())
    }
}

const NOPS: usize = 26;
fn opname(o: usize) -> &'static str {
    [
        "dynamic body", "static body with chain", "kinematic body with two fixtures", "disabled dynamic body", "add fixture to newest", "add edge to oldest", "destroy newest fixture of newest",
        "destroy oldest fixture of newest", "destroy oldest fixture of oldest", "destroy newest body", "destroy oldest body", "destroy middle body", "revolute newest-oldest", "distance newest-second",
        "prismatic oldest-newest", "weld second-newest", "pulley oldest-newest", "gear", "destroy newest joint", "destroy oldest joint", "step", "three steps", "toggle oldest enabled", "retype newest",
        "wheel second-newest", "mouse oldest-newest",
    ][o]
}
fn op(s: &mut Sim, o: usize) -> Result<bool, String> {
    let n = s.bodies.len();
    let nj = s.joints.len();
    let need = match o {
        0..=3 | 20 | 21 => 0,
        4..=10 | 22 | 23 => 1,
        11 => 3,
        12..=16 | 24 | 25 => 2,
        _ => 0,
    };
    if n < need || ((o == 18 || o == 19) && nj == 0) {
        return Ok(false);
    }
    match o {
        0 => {
            s.body(DY, true);
            s.fixture(n, Sh::Circle(0.5, 0.1, 0.0), false);
        }
        1 => {
            s.body(ST, true);
            s.fixture(n, Sh::Chain(vec![(3.0, 0.0), (1.0, 0.0), (-1.0, 0.2), (-3.0, 0.0)], (4.0, 0.0), (-4.0, 0.0)), false);
        }
        2 => {
            s.body(KI, true);
            s.fixture(n, Sh::Box(0.5, 0.3), false);
            s.fixture(n, Sh::Circle(1.0, 0.0, 0.0), true);
        }
        3 => {
            s.body(DY, false);
            s.fixture(n, Sh::Box(0.4, 0.4), false);
        }
        4 => s.fixture(n - 1, Sh::Poly(vec![(-0.4, -0.4), (0.5, -0.4), (0.0, 0.6)]), false),
        5 => s.fixture(0, Sh::Edge((-1.0, 0.2), (1.0, 0.0)), false),
        6 | 7 | 8 => {
            let k = if o == 8 { 0 } else { n - 1 };
            let m = s.bodies[k].shapes.len();
            if m == 0 {
                return Ok(false);
            }
            s.destroy_fixture(k, if o == 6 { 0 } else { m - 1 })?;
        }
        9 => s.destroy_body(n - 1)?,
        10 => s.destroy_body(0)?,
        11 => s.destroy_body(n / 2)?,
        12 => s.joint(jk::REV, n - 1, 0),
        13 => s.joint(jk::DIST, n - 1, n - 2),
        14 => s.joint(jk::PRIS, 0, n - 1),
        15 => s.joint(jk::WELD, n - 2, n - 1),
        16 => s.joint(jk::PULL, 0, n - 1),
        17 => return Ok(s.gear()),
        18 => s.destroy_joint(nj - 1)?,
        19 => s.destroy_joint(0)?,
        20 => step(&s.w, DT),
        21 => {
            for _ in 0..3 {
                step(&s.w, DT);
            }
        }
        22 => {
            let e = !s.bodies[0].enabled;
            B2body::set_enabled(s.bodies[0].b.clone(), e);
            s.bodies[0].enabled = e;
        }
        23 => {
            let t = if s.bodies[n - 1].ty == DY { ST } else { DY };
            // gears need dynamic bodies
            let ud = s.bodies[n - 1].ud;
            if s.joints.iter().any(|j| j.gears.is_some() && (j.a == ud || j.b == ud)) {
                return Ok(false);
            }
            B2body::set_type(s.bodies[n - 1].b.clone(), t);
            s.bodies[n - 1].ty = t;
        }
        24 => s.joint(jk::WHEEL, n - 2, n - 1),
        _ => s.joint(jk::MOUSE, 0, n - 1),
    }
    Ok(true)
}

pub fn check() -> Check {
    let th = thorough();
    let mut phases = vec![];
    for st in 0..5usize {
        for listener in [true, false] {
            let d = match (st, listener, th) {
                (_, true, false) => 4,
                (_, true, true) => 5,
                (_, _, true) => 4,
                _ => 3,
            };
            phases.push(phase(
                &format!("seq{}{}", st, if listener { "l" } else { "" }),
                seq_count(NOPS, d),
                move |i| format!("start {}: {}; step", st, decode_seq(i, NOPS, d).iter().map(|o| opname(*o)).collect::<Vec<_>>().join("; ")),
                move |i, c| {
                    let mut s = Sim::new(listener);
                    let pre: &[usize] = match st {
                        0 => &[],
                        1 => &[1, 0, 0],
                        2 => &[1, 0, 0, 20, 12, 14, 17],
                        3 => &[0, 0, 0, 13, 15, 24, 16, 21],
                        _ => &[1, 0, 2, 3, 4, 21, 22],
                    };
                    for o in pre {
                        op(&mut s, *o)?;
                    }
                    if st == 2 {
                        // two revolutes to ground and a gear
                        s.joint(jk::REV, 0, 1);
                        s.joint(jk::PRIS, 0, 2);
                        s.gear();
                    }
                    for o in decode_seq(i, NOPS, d) {
                        if !op(&mut s, o)? {
                            return Ok(());
                        }
                        s.verify(c)?;
                        c.step(1);
                    }
                    step(&s.w, DT);
                    s.verify(c)?;
                    s.finish()
                },
            ));
        }
    }
    // user data of bodies, fixtures and joints
    phases.push(phase(
        "user data",
        seq_count(12, 4),
        |i| format!("entity*2+value {:?}", decode_seq(i, 12, 4)),
        |i, c| {
            let w = world(0.0, -10.0);
            let bs: Vec<B> = (0..2).map(|k| body(&w, DY, k as f32 * 3.0, 0.0, 0.0)).collect();
            let fs: Vec<F> = bs.iter().map(|b| fix(b, &Sh::Circle(0.5, 0.0, 0.0), 1.0)).collect();
            let js = [jk::mk(&w, jk::DIST, &bs[0], &bs[1], false, 1), jk::mk(&w, jk::REV, &bs[1], &bs[0], false, 2)];
            let mut m: Vec<Option<u32>> = bs.iter().map(|b| b.borrow().get_user_data()).chain(fs.iter().map(|f| f.borrow().get_user_data())).collect();
            m.extend([Some(1), Some(2)]);
            for o in decode_seq(i, 12, 4) {
                let (e, x) = (o as usize / 2, 70 + o as u32 % 2);
                match e {
                    0 | 1 => bs[e].borrow_mut().set_user_data(&x),
                    2 | 3 => fs[e - 2].borrow_mut().set_user_data(&x),
                    _ => js[e - 4].borrow_mut().get_base_mut().set_user_data(x),
                }
                m[e] = Some(x);
                step(&w, DT);
                c.step(2);
                let got: Vec<Option<u32>> = bs.iter().map(|b| b.borrow().get_user_data()).chain(fs.iter().map(|f| f.borrow().get_user_data())).chain(js.iter().map(|j| j.borrow().get_base().get_user_data())).collect();
                ensure!(got == m, "user data {:?} should be {:?}", got, m);
                c.eval(1);
            }
            let mut h = Fnv::new();
            for x in &m {
                h.u(x.unwrap_or(0) as u64);
            }
            c.state(h.done());
            Ok(())
        },
    ));
    Check {
        id: "C05",
        bounds: format!("all sequences of 3 to {} operations over a {}-letter alphabet (bodies, fixtures, eight joint kinds, gears, steps) from 5 starting worlds, with and without a destruction listener; every sequence of 4 user data assignments over 6 entities; world dropped at the end of each", if th { 5 } else { 4 }, NOPS),
        assumptions: vec!["gears are destroyed before the joints they link, as the documentation demands".into()],
        phases,
    }
}
