//! C07: writing and reading back worlds.
use crate::cnt::Count;
use crate::ensure;
use crate::fw::*;
use crate::jk::*;
use crate::kit::*;
use box2d_rs::b2_body::*;
use box2d_rs::b2_fixture::*;
use box2d_rs::b2_joint::*;
use box2d_rs::b2_math::*;
use box2d_rs::b2_world::*;
use box2d_rs::serialize::serialize_b2_world::*;
use box2d_rs::shapes::b2rs_to_derived_shape::*;
use serde::Serialize;

fn vs(a: B2vec2) -> String {
    format!("({:08x} {:08x})", a.x.to_bits(), a.y.to_bits())
}
fn fs(a: f32) -> String {
    format!("{:08x}", a.to_bits())
}
fn shape_line(f: &F) -> String {
    let f = f.borrow();
    let s = f.get_shape();
    match s.as_derived() {
        ShapeAsDerived::AsCircle(c) => format!("circle r{} p{}", fs(c.base.m_radius), vs(c.m_p)),
        ShapeAsDerived::AsEdge(e) => {
            format!("edge r{} {} {} {} {} {}", fs(e.base.m_radius), vs(e.m_vertex0), vs(e.m_vertex1), vs(e.m_vertex2), vs(e.m_vertex3), e.m_one_sided)
        }
        ShapeAsDerived::AsPolygon(p) => {
            let k = p.m_count;
            let vn: Vec<String> = (0..k).map(|i| format!("{}/{}", vs(p.m_vertices[i]), vs(p.m_normals[i]))).collect();
            format!("poly r{} n{} c{} {:?}", fs(p.base.m_radius), k, vs(p.m_centroid), vn)
        }
        ShapeAsDerived::AsChain(c) => {
            let vn: Vec<String> = c.m_vertices.iter().map(|q| vs(*q)).collect();
            format!("chain r{} {} {} {:?}", fs(c.base.m_radius), vs(c.m_prev_vertex), vs(c.m_next_vertex), vn)
        }
    }
}
fn fixture_line(bud: Option<u32>, f: &F) -> String {
    let s = shape_line(f);
    let t = f.borrow().get_type();
    let f = f.borrow();
    let q = f.get_filter_data();
    format!(
        "fixture of {:?} ud{:?} friction{} rest{} thr{} dens{} sensor{} cat{} mask{} group{} {:?} {}",
        bud,
        f.get_user_data(),
        fs(f.get_friction()),
        fs(f.get_restitution()),
        fs(f.get_restitution_threshold()),
        fs(f.get_density()),
        f.is_sensor(),
        q.category_bits,
        q.mask_bits,
        q.group_index,
        t,
        s
    )
}
fn body_line(b: &B) -> String {
    let b = b.borrow();
    format!(
        "body {:?} {:?} p{} a{} w{} ld{} ad{} gs{} sleep{} awake{} fixed{} bullet{} enabled{}",
        b.get_user_data(),
        b.get_type(),
        vs(b.get_position()),
        fs(b.get_angle()),
        fs(b.get_angular_velocity()),
        fs(b.get_linear_damping()),
        fs(b.get_angular_damping()),
        fs(b.get_gravity_scale()),
        b.is_sleeping_allowed(),
        b.is_awake(),
        b.is_fixed_rotation(),
        b.is_bullet(),
        b.is_enabled(),
    )
}
/// Quantities recomputed on reading, which may differ by rounding: velocity, mass, inertia, centre.
fn numbers(w: &W) -> Vec<(u32, [f32; 6], f32)> {
    let mut o: Vec<(u32, [f32; 6], f32)> = w
        .borrow()
        .get_body_list()
        .iter()
        .map(|b| {
            let b = b.borrow();
            let (l, q, p) = (b.get_linear_velocity(), b.get_local_center(), b.get_position());
            let tol = 1e-5 + 4e-7 * (p.x.abs() + p.y.abs()) * (1.0 + b.get_angular_velocity().abs());
            (b.get_user_data().unwrap_or(0), [l.x, l.y, b.get_mass(), b.get_inertia(), q.x, q.y], tol)
        })
        .collect();
    o.sort_by_key(|x| x.0);
    o
}
fn near(a: &[(u32, [f32; 6], f32)], b: &[(u32, [f32; 6], f32)]) -> R {
    for (p, q) in a.iter().zip(b) {
        ensure!(p.0 == q.0 && p.1.iter().zip(&q.1).all(|(x, y)| (x - y).abs() <= p.2 * (1.0 + x.abs())), "velocity, mass, inertia or centre differ: written {:?} read {:?}", p, q);
    }
    Ok(())
}
fn joint_line(j: &J) -> Option<String> {
    let jb = j.borrow();
    let (a, b, ud, col) = {
        let q = jb.get_base();
        (q.get_body_a().borrow().get_user_data(), q.get_body_b().borrow().get_user_data(), q.get_user_data(), q.get_collide_connected())
    };
    let p = match jb.as_derived() {
        JointAsDerived::EMouseJoint(_) => return None,
        JointAsDerived::EDistanceJoint(q) => format!(
            "distance {} {} len{} min{} max{} k{} d{}",
            vs(q.get_local_anchor_a()),
            vs(q.get_local_anchor_b()),
            fs(q.get_length()),
            fs(q.get_min_length()),
            fs(q.get_max_length()),
            fs(q.get_stiffness()),
            fs(q.get_damping())
        ),
        JointAsDerived::EFrictionJoint(q) => {
            format!("friction {} {} {} {}", vs(q.get_local_anchor_a()), vs(q.get_local_anchor_b()), fs(q.get_max_force()), fs(q.get_max_torque()))
        }
        JointAsDerived::EGearJoint(q) => format!(
            "gear {:?} {:?} {}",
            q.get_joint1().borrow().get_base().get_user_data(),
            q.get_joint2().borrow().get_base().get_user_data(),
            fs(q.get_ratio())
        ),
        JointAsDerived::EMotorJoint(q) => format!(
            "motor {} {} {} {} {}",
            vs(q.get_linear_offset()),
            fs(q.get_angular_offset()),
            fs(q.get_max_force()),
            fs(q.get_max_torque()),
            fs(q.get_correction_factor())
        ),
        JointAsDerived::EPulleyJoint(q) => format!(
            "pulley {} {} {} {} {}",
            vs(q.get_ground_anchor_a()),
            vs(q.get_ground_anchor_b()),
            fs(q.get_length_a()),
            fs(q.get_length_b()),
            fs(q.get_ratio())
        ),
        JointAsDerived::ERevoluteJoint(q) => format!(
            "revolute {} {} ref{} lim{} {} {} mot{} {} {}",
            vs(q.get_local_anchor_a()),
            vs(q.get_local_anchor_b()),
            fs(q.get_reference_angle()),
            q.is_limit_enabled(),
            fs(q.get_lower_limit()),
            fs(q.get_upper_limit()),
            q.is_motor_enabled(),
            fs(q.get_motor_speed()),
            fs(q.get_max_motor_torque())
        ),
        JointAsDerived::EPrismaticJoint(q) => format!(
            "prismatic {} {} {} ref{} lim{} {} {} mot{} {} {}",
            vs(q.get_local_anchor_a()),
            vs(q.get_local_anchor_b()),
            vs(q.get_local_axis_a()),
            fs(q.get_reference_angle()),
            q.is_limit_enabled(),
            fs(q.get_lower_limit()),
            fs(q.get_upper_limit()),
            q.is_motor_enabled(),
            fs(q.get_motor_speed()),
            fs(q.get_max_motor_force())
        ),
        JointAsDerived::EWeldJoint(q) => format!(
            "weld {} {} ref{} k{} d{}",
            vs(q.get_local_anchor_a()),
            vs(q.get_local_anchor_b()),
            fs(q.get_reference_angle()),
            fs(q.get_stiffness()),
            fs(q.get_damping())
        ),
        JointAsDerived::EWheelJoint(q) => format!(
            "wheel {} {} {} lim{} {} {} mot{} {} {} k{} d{}",
            vs(q.get_local_anchor_a()),
            vs(q.get_local_anchor_b()),
            vs(q.get_local_axis_a()),
            q.is_limit_enabled(),
            fs(q.get_lower_limit()),
            fs(q.get_upper_limit()),
            q.is_motor_enabled(),
            fs(q.get_motor_speed()),
            fs(q.get_max_motor_torque()),
            fs(q.get_stiffness()),
            fs(q.get_damping())
        ),
    };
    let anchors = format!("{} {}", pt(jb.get_anchor_a()), pt(jb.get_anchor_b()));
    Some(format!("joint {:?} {:?} -> {:?} collide{} {} at {}", ud, a, b, col, p, anchors))
}
fn pt(q: B2vec2) -> String {
    format!("({} {})", (q.x * 1e3).round() + 0.0, (q.y * 1e3).round() + 0.0)
}

/// Everything the property says is preserved, as sorted lines.
fn lines(w: &W) -> Vec<String> {
    let mut out = vec![format!("gravity {}", vs(w.borrow().get_gravity()))];
    for b in w.borrow().get_body_list().iter() {
        out.push(body_line(&b));
        for f in b.borrow().get_fixture_list().iter() {
            out.push(fixture_line(b.borrow().get_user_data(), &f));
        }
    }
    for j in w.borrow().get_joint_list().iter() {
        if let Some(l) = joint_line(&j) {
            out.push(l);
        }
    }
    out.sort();
    out
}

const FORMATS: [&str; 3] = ["json", "bincode", "yaml"];
fn round(w: &W, fmt: usize) -> Result<W, String> {
    let wb = w.borrow();
    Ok(match fmt {
        0 => {
            let t = serde_json::to_string(&*wb).map_err(|e| format!("json write: {}", e))?;
            serde_json::from_str::<B2worldDeserializeResult<U>>(&t).map_err(|e| format!("json read: {} of {}", e, t))?.world
        }
        1 => {
            let t = bincode::serialize(&*wb).map_err(|e| format!("bincode write: {}", e))?;
            bincode::deserialize::<B2worldDeserializeResult<U>>(&t).map_err(|e| format!("bincode read: {}", e))?.world
        }
        _ => {
            let t = serde_yaml::to_string(&*wb).map_err(|e| format!("yaml write: {}", e))?;
            serde_yaml::from_str::<B2worldDeserializeResult<U>>(&t).map_err(|e| format!("yaml read: {}", e))?.world
        }
    })
}
fn diff(a: &[String], b: &[String]) -> String {
    let x: Vec<&String> = a.iter().filter(|l| !b.contains(l)).collect();
    let y: Vec<&String> = b.iter().filter(|l| !a.contains(l)).collect();
    format!("written {:#?} read {:#?}", x, y)
}
fn judge(w: &W, nf: usize, c: &mut Ctx) -> Result<Vec<W>, String> {
    let l0 = lines(w);
    let n0 = numbers(w);
    let h0 = hash_world(w);
    let mut h = Fnv::new();
    for l in &l0 {
        for b in l.bytes() {
            h.u(b as u64);
        }
    }
    c.state(h.done());
    let mut out = vec![];
    for (k, fmt) in FORMATS.iter().enumerate().take(nf) {
        let r = round(w, k)?;
        c.step(1);
        let l1 = lines(&r);
        ensure!(l0 == l1, "{}: read back differently: {}", fmt, diff(&l0, &l1));
        near(&n0, &numbers(&r)).map_err(|e| format!("{}: {}", fmt, e))?;
        let r2 = round(&r, k)?;
        let l2 = lines(&r2);
        ensure!(l0 == l2, "{}: second round trip differs: {}", fmt, diff(&l0, &l2));
        near(&n0, &numbers(&r2)).map_err(|e| format!("{} twice: {}", fmt, e))?;
        ensure!(r.borrow().get_body_count() == w.borrow().get_body_count(), "{}: body count", fmt);
        ensure!(r.borrow().get_proxy_count() == w.borrow().get_proxy_count(), "{}: {} proxies read, {} written", fmt, r.borrow().get_proxy_count(), w.borrow().get_proxy_count());
        c.eval(2 * l0.len() as u64);
        out.push(r);
    }
    w.borrow().serialize(Count).map_err(|e| format!("announced lengths: {}", e))?;
    c.eval(1);
    ensure!(lines(w) == l0 && hash_world(w) == h0, "writing changes the world");
    Ok(out)
}

fn menu() -> Vec<Sh> {
    vec![
        Sh::Circle(0.5, 0.25, -0.125),
        Sh::Box(0.5, 1.0),
        Sh::BoxAt(0.3, 0.7, 0.1, 0.2, 0.4),
        Sh::Poly(vec![(0.0, 0.0), (1.0, 0.1), (0.3, 0.9)]),
        Sh::Poly(vec![(1.0, 0.0), (0.7, 0.7), (0.0, 1.0), (-0.7, 0.7), (-1.0, 0.0), (-0.7, -0.7), (0.0, -1.0), (0.7, -0.7)]),
        Sh::Edge((-1.0, 0.0), (1.0, 0.5)),
        Sh::EdgeOne([(-2.0, 0.1), (-1.0, 0.0), (1.0, 0.0), (2.0, -0.3)]),
        Sh::Chain(vec![(-1.0, 0.0), (0.0, 0.3), (1.0, 0.0)], (-2.0, 0.5), (2.0, 0.7)),
        Sh::Loop(vec![(0.0, 0.0), (1.0, 0.0), (1.0, 1.0), (0.0, 1.0)]),
    ]
}

fn bodies(i: u64, c: &mut Ctx) -> R {
    let mut d = Dec::new(i);
    let w = world(0.1, -10.0 / 3.0);
    let ty = d.p(&[ST, KI, DY]);
    let flags = d.d(32);
    let pose = d.p(&[(0.0, 0.0, 0.0), (1.0 / 3.0, -7.1, 0.7), (-1000.1, 3.0e-5, -9.3)]);
    let vel = d.p(&[(0.0, 0.0, 0.0), (1.1, -2.3, 0.9)]);
    let damp = d.p(&[(0.0, 0.0, 1.0), (0.3, 1.7, -0.5)]);
    let nfix = d.d(3);
    let ud = d.b();
    let extra = d.d(3);
    let mk = |k: u32, t: B2bodyType| {
        let mut b = bdef(t, pose.0 + k as f32, pose.1, pose.2);
        b.linear_velocity = v(vel.0, vel.1);
        b.angular_velocity = vel.2;
        b.linear_damping = damp.0;
        b.angular_damping = damp.1;
        b.gravity_scale = damp.2;
        b.allow_sleep = flags & 1 != 0;
        b.awake = flags & 2 != 0;
        b.fixed_rotation = flags & 4 != 0;
        b.bullet = flags & 8 != 0;
        b.enabled = flags & 16 != 0;
        b.user_data = if ud { Some(k) } else { None };
        b
    };
    let b = B2world::create_body(w.clone(), &mk(7, ty));
    let m = menu();
    for k in 0..nfix {
        fixu(&b, &m[k * 3 + extra], 1.5, 100 + k as u32);
    }
    for k in 0..extra {
        let mut q = bdef([DY, ST][k], 20.0 + k as f32, 4.0, 0.1);
        q.user_data = Some(50 + k as u32);
        B2world::create_body(w.clone(), &q);
    }
    judge(&w, 3, c).map(|_| ())
}

/// State set through the setters after creation.
fn setters(i: u64, c: &mut Ctx) -> R {
    let mut d = Dec::new(i);
    let w = world(0.0, -10.0);
    let mut q = bdef(d.p(&[ST, KI, DY]), 0.3, 0.4, 0.5);
    q.user_data = Some(1);
    let b = B2world::create_body(w.clone(), &q);
    let sh = menu()[d.d(9)].clone();
    let f = fixu(&b, &sh, 1.0, 3);
    for op in decode_seq(d.0, 12, 2) {
        match op {
            0 => b.borrow_mut().set_transform(v(-1.5, 2.25), 1.1),
            1 => b.borrow_mut().set_linear_velocity(v(0.5, -0.25)),
            2 => b.borrow_mut().set_angular_velocity(-3.0),
            3 => b.borrow_mut().set_bullet(true),
            4 => b.borrow_mut().set_fixed_rotation(true),
            5 => b.borrow_mut().set_awake(false),
            6 => B2body::set_enabled(b.clone(), false),
            7 => B2body::set_type(b.clone(), KI),
            8 => f.borrow_mut().set_sensor(true),
            9 => {
                let mut fb = f.borrow_mut();
                fb.set_friction(0.9);
                fb.set_restitution(0.4);
                fb.set_restitution_threshold(3.0);
            }
            10 => f.borrow_mut().set_filter_data(B2filter { category_bits: 6, mask_bits: 5, group_index: -3 }),
            _ => b.borrow_mut().set_gravity_scale(0.25),
        }
        c.step(1);
    }
    judge(&w, 3, c).map(|_| ())
}

fn fixtures(i: u64, c: &mut Ctx) -> R {
    let mut d = Dec::new(i);
    let w = world(0.0, -10.0);
    let mut q = bdef(DY, 0.3, 0.4, 0.5);
    q.user_data = Some(1);
    let b = B2world::create_body(w.clone(), &q);
    let m = menu();
    let two = d.d(3);
    for k in 0..(1 + two) {
        let s = if k == 0 { d.r(&m).clone() } else { m[(k * 4 + two) % m.len()].clone() };
        let mut f = fdef(&s);
        f.friction = d.p(&[0.2, 0.0, 1.1]);
        f.restitution = d.p(&[0.0, 0.7]);
        f.restitution_threshold = d.p(&[1.0, 2.5]);
        f.density = d.p(&[0.0, 1.3]);
        f.is_sensor = d.b();
        let (ca, ma, g) = d.p(&[(1, 0xffff, 0), (0x8000, 1, -32768), (0, 0, 7)]);
        f.filter = B2filter { category_bits: ca, mask_bits: ma, group_index: g };
        f.user_data = if d.b() { Some(k as u32 + 9) } else { None };
        B2body::create_fixture(b.clone(), &f);
        if k == 0 && two > 0 {
            d = Dec::new(i / 37);
        }
    }
    judge(&w, 3, c).map(|_| ())
}

const NF1: u64 = 3 * 9 * 3 * 2 * 2 * 2 * 2 * 3 * 2;

fn field(n: usize) -> (W, Vec<B>) {
    let w = world(0.0, -3.0);
    let mut bs = vec![];
    for k in 0..n {
        let mut q = bdef(if k == 0 { ST } else { DY }, 1.5 * k as f32, 0.25 * k as f32, 0.1 * k as f32);
        q.user_data = Some(k as u32 + 1);
        let b = B2world::create_body(w.clone(), &q);
        fixu(&b, &Sh::Circle(0.25, 0.0, 0.0), 1.0, 10 + k as u32);
        bs.push(b);
    }
    (w, bs)
}

/// Sequences of joints of any kind between any pair of bodies, in any creation order.
fn joint_sets(i: u64, depth: usize, c: &mut Ctx) -> R {
    let (w, bs) = field(3);
    let pairs = [(0, 1), (1, 2), (2, 1), (0, 2)];
    for (k, op) in decode_seq(i, 36, depth).into_iter().enumerate() {
        let (a, b) = pairs[op / 9];
        mk(&w, op % 9, &bs[a], &bs[b], k % 2 == 0, 200 + k as u32);
        c.step(1);
    }
    judge(&w, 2, c).map(|_| ())
}

/// Gears among other joints: every arrangement of driving joints, gears and bystanders.
fn gears(i: u64, c: &mut Ctx) -> R {
    let mut d = Dec::new(i);
    let n = 4;
    let (w, bs) = field(n);
    let pos = d.d(4); // where the bystander goes
    let by = d.d(9);
    let by2 = d.d(9);
    let pos2 = d.d(4);
    let kinds = [d.p(&[REV, PRIS]), d.p(&[REV, PRIS]), d.p(&[REV, PRIS])];
    let gsel = d.d(6); // which ordered pair of driving joints
    let second = d.b();
    let mut js: Vec<J> = vec![];
    for t in 0..4 {
        if t == pos {
            mk(&w, by, &bs[1], &bs[2], true, 300);
        }
        if t == pos2 {
            mk(&w, by2, &bs[0], &bs[3], false, 301);
        }
        if t < 3 {
            js.push(mk(&w, kinds[t], &bs[0], &bs[t + 1], t == 1, 310 + t as u32));
        }
    }
    let gp = [(0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)][gsel];
    let g1 = gear(&w, &js[gp.0], &js[gp.1], &bs[gp.0 + 1], &bs[gp.1 + 1], 1.5, false, 320);
    let mut gs = vec![g1];
    if second {
        let hp = [(0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)][(gsel + 2) % 6];
        gs.push(gear(&w, &js[hp.0], &js[hp.1], &bs[hp.0 + 1], &bs[hp.1 + 1], -0.5, true, 321));
    }
    let r = judge(&w, 2, c);
    for x in r? {
        let all: Vec<J> = x.borrow().get_joint_list().iter().collect();
        for j in all.iter().filter(|j| j.borrow().get_base().get_type() == B2jointType::EGearJoint) {
            x.borrow_mut().destroy_joint(j.clone());
        }
    }
    for g in gs {
        w.borrow_mut().destroy_joint(g);
    }
    Ok(())
}

/// One joint with each combination of parameters, then the two worlds run side by side.
fn params(i: u64, c: &mut Ctx) -> R {
    let mut d = Dec::new(i);
    let kind = d.p(&[DIST, FRIC, MOTOR, PRIS, PULL, REV, WELD, WHEEL]);
    let (w, bs) = field(3);
    let (ai, bi) = d.p(&[(0, 1), (1, 2), (2, 1)]);
    let (a, b) = (&bs[ai], &bs[bi]);
    let collide = d.b();
    let mut e = def(kind, a, b, mid(a, b), collide, 77);
    let (x, y, z) = (d.d(2), d.d(2), d.d(2));
    let q = d.d(2) as f32;
    match &mut e {
        B2JointDefEnum::DistanceJoint(p) => {
            p.local_anchor_a = v(0.1 * q, 0.05);
            p.local_anchor_b = v(-0.1, 0.2 * q);
            p.length = [1.0, 1.6][x];
            p.min_length = [0.5, 1.0][y];
            p.max_length = [1.6, 2.5][y];
            p.stiffness = [0.0, 7.0][z];
            p.damping = [0.5, 0.25][z];
        }
        B2JointDefEnum::FrictionJoint(p) => {
            p.local_anchor_a = v(0.1 * q, 0.05);
            p.max_force = [0.5, 3.0][x];
            p.max_torque = [0.1, 0.6][y];
            p.local_anchor_b = v(0.0, 0.3 * z as f32);
        }
        B2JointDefEnum::MotorJoint(p) => {
            p.linear_offset = v(0.5 + q, 0.3);
            p.angular_offset = [0.2, -0.7][x];
            p.max_force = [1.0, 30.0][y];
            p.max_torque = [2.0, 0.5][y];
            p.correction_factor = [0.1, 0.8][z];
        }
        B2JointDefEnum::PrismaticJoint(p) => {
            p.local_axis_a = [v(1.0, 0.0), v(0.6, 0.8)][q as usize];
            p.enable_limit = x == 1;
            p.lower_translation = -0.2;
            p.upper_translation = [0.1, 0.6][z];
            p.enable_motor = y == 1;
            p.motor_speed = [-1.0, 2.0][z];
            p.max_motor_force = [5.0, 0.3][z];
            p.reference_angle += 0.1;
        }
        B2JointDefEnum::PulleyJoint(p) => {
            p.ratio = [1.0, 2.5][x];
            p.length_a += 0.1 * y as f32;
            p.length_b -= 0.2 * z as f32;
            p.ground_anchor_a = p.ground_anchor_a + v(q, 0.3);
            p.local_anchor_b = v(0.1, 0.1 * q);
        }
        B2JointDefEnum::RevoluteJoint(p) => {
            p.enable_limit = x == 1;
            p.lower_angle = -0.3;
            p.upper_angle = [0.05, 0.6][z];
            p.enable_motor = y == 1;
            p.motor_speed = [-1.0, 2.0][z];
            p.max_motor_torque = [5.0, 0.3][z];
            p.reference_angle += 0.1 * q;
        }
        B2JointDefEnum::WeldJoint(p) => {
            p.stiffness = [0.0, 2.0][x];
            p.damping = [0.1, 0.6][y];
            p.reference_angle += 0.2 * z as f32;
            p.local_anchor_a = p.local_anchor_a + v(0.1 * q, 0.0);
        }
        B2JointDefEnum::WheelJoint(p) => {
            p.local_axis_a = [v(1.0, 0.0), v(0.6, 0.8)][q as usize];
            p.enable_limit = x == 1;
            p.lower_translation = -0.2;
            p.upper_translation = [0.1, 0.6][z];
            p.enable_motor = y == 1;
            p.motor_speed = [-1.0, 2.0][z];
            p.max_motor_torque = [5.0, 0.3][z];
            p.stiffness = [0.0, 20.0][z];
            p.damping = 0.4;
        }
        _ => {}
    }
    let j = w.borrow_mut().create_joint(&e);
    // setters applied afterwards count as well
    if d.b() {
        match j.borrow_mut().as_derived_mut() {
            JointAsDerivedMut::EDistanceJoint(p) => {
                p.set_length(1.3);
                p.set_stiffness(4.0);
                p.set_damping(0.7);
                p.set_max_length(3.0);
                p.set_min_length(0.4);
            }
            JointAsDerivedMut::EFrictionJoint(p) => {
                p.set_max_force(1.7);
                p.set_max_torque(0.3);
            }
            JointAsDerivedMut::EMotorJoint(p) => {
                p.set_linear_offset(v(1.0, 0.0));
                p.set_angular_offset(0.4);
                p.set_max_force(11.0);
                p.set_max_torque(7.0);
                p.set_correction_factor(0.5);
            }
            JointAsDerivedMut::EPrismaticJoint(p) => {
                p.enable_limit(true);
                p.set_limits(-0.6, 0.3);
                p.enable_motor(true);
                p.set_motor_speed(0.9);
                p.set_max_motor_force(2.0);
            }
            JointAsDerivedMut::ERevoluteJoint(p) => {
                p.enable_limit(true);
                p.set_limits(-0.6, 0.3);
                p.enable_motor(true);
                p.set_motor_speed(0.9);
                p.set_max_motor_torque(2.0);
            }
            JointAsDerivedMut::EWeldJoint(p) => {
                p.set_stiffness(3.0);
                p.set_damping(0.3);
            }
            JointAsDerivedMut::EWheelJoint(p) => {
                p.enable_limit(true);
                p.set_limits(-0.6, 0.3);
                p.enable_motor(true);
                p.set_motor_speed(0.9);
                p.set_max_motor_torque(2.0);
                p.set_stiffness(9.0);
                p.set_damping(0.2);
            }
            _ => {}
        }
    }
    let rs = judge(&w, 3, c)?;
    for _ in 0..8 {
        step(&w, DT);
        c.step(1);
        let want = poses(&w);
        for (k, r) in rs.iter().enumerate() {
            step(r, DT);
            let got = poses(r);
            for (p, q) in want.iter().zip(&got) {
                ensure!(
                    p.0 == q.0 && p.1.iter().zip(&q.1).all(|(x, y)| (x - y).abs() <= 2e-4 * (1.0 + x.abs())),
                    "{}: the read world moves differently: {:?} against {:?}",
                    FORMATS[k],
                    q,
                    p
                );
                c.eval(1);
            }
        }
    }
    Ok(())
}
fn poses(w: &W) -> Vec<(u32, [f32; 6])> {
    let mut o: Vec<(u32, [f32; 6])> = w
        .borrow()
        .get_body_list()
        .iter()
        .map(|b| {
            let b = b.borrow();
            let (p, l) = (b.get_position(), b.get_linear_velocity());
            (b.get_user_data().unwrap_or(0), [p.x, p.y, b.get_angle(), l.x, l.y, b.get_angular_velocity()])
        })
        .collect();
    o.sort_by_key(|x| x.0);
    o
}

/// One field at a time over a range of magnitudes, everything else plain.
const VALUES: [f32; 16] = [0.0, 1e-6, 0.003, 0.05, 0.3, 0.75, 1.0, 3.3, 40.0, 1234.5, 1e6, -1e-6, -0.3, -1.0, -7.7, -500.0];
const FIELDS: [usize; 13] = [9, 6, 6, 14, 11, 10, 7, 14, 1, 9, 4, 16, 33];
fn values(i: u64, c: &mut Ctx) -> R {
    let mut d = Dec::new(i);
    let x = d.p(&VALUES);
    let flags = d.d(8);
    let mut f = d.0 as usize;
    let mut kind = 0;
    while f >= FIELDS[kind] {
        f -= FIELDS[kind];
        kind += 1;
    }
    let (pos, not0) = (x >= 0.0, x.abs() > 1e-5);
    let (w, bs) = field(3);
    let (a, b) = (&bs[1], &bs[2]);
    let at = |q: &mut B2vec2, k: usize| if k == 0 { q.x = x } else { q.y = x };
    let (limit, motor, collide) = (flags & 1 > 0, flags & 2 > 0, flags & 4 > 0);
    if kind < 8 {
        let mut e = def([DIST, FRIC, MOTOR, PRIS, PULL, REV, WELD, WHEEL][kind], a, b, mid(a, b), collide, 77);
        match &mut e {
            B2JointDefEnum::DistanceJoint(p) => match f {
                0 | 1 => at(&mut p.local_anchor_a, f),
                2 | 3 => at(&mut p.local_anchor_b, f - 2),
                4 if pos => p.length = x,
                5 if pos => p.min_length = x.min(p.max_length),
                6 if pos => p.max_length = x.max(p.min_length),
                7 if pos => p.stiffness = x,
                8 if pos => p.damping = x,
                _ => return Ok(()),
            },
            B2JointDefEnum::FrictionJoint(p) => match f {
                0 | 1 => at(&mut p.local_anchor_a, f),
                2 | 3 => at(&mut p.local_anchor_b, f - 2),
                4 if pos => p.max_force = x,
                5 if pos => p.max_torque = x,
                _ => return Ok(()),
            },
            B2JointDefEnum::MotorJoint(p) => match f {
                0 | 1 => at(&mut p.linear_offset, f),
                2 => p.angular_offset = x,
                3 if pos => p.max_force = x,
                4 if pos => p.max_torque = x,
                5 if pos && x <= 1.0 => p.correction_factor = x,
                _ => return Ok(()),
            },
            B2JointDefEnum::PrismaticJoint(p) => {
                p.enable_limit = limit;
                p.enable_motor = motor;
                match f {
                    0 | 1 => at(&mut p.local_anchor_a, f),
                    2 | 3 => at(&mut p.local_anchor_b, f - 2),
                    4 => p.reference_angle = x,
                    5 => (p.lower_translation, p.upper_translation) = (x, x + 0.5),
                    6 => (p.lower_translation, p.upper_translation) = (x, x),
                    7 => (p.lower_translation, p.upper_translation) = (-600.0, x.min(1e6)),
                    8 => p.motor_speed = x,
                    9 if pos => p.max_motor_force = x,
                    // axes are normalized on creation, these exactly
                    10 => p.local_axis_a = [v(0.0, 1.0), v(0.0, -1.0), v(-1.0, 0.0), v(2.0, 0.0)][(i % 4) as usize],
                    _ => return Ok(()),
                }
            }
            B2JointDefEnum::PulleyJoint(p) => match f {
                0 | 1 => at(&mut p.local_anchor_a, f),
                2 | 3 => at(&mut p.local_anchor_b, f - 2),
                4 | 5 => at(&mut p.ground_anchor_a, f - 4),
                6 | 7 => at(&mut p.ground_anchor_b, f - 6),
                8 if pos => p.length_a = x,
                9 if pos => p.length_b = x,
                10 if pos && not0 => p.ratio = x,
                _ => return Ok(()),
            },
            B2JointDefEnum::RevoluteJoint(p) => {
                p.enable_limit = limit;
                p.enable_motor = motor;
                match f {
                    0 | 1 => at(&mut p.local_anchor_a, f),
                    2 | 3 => at(&mut p.local_anchor_b, f - 2),
                    4 => p.reference_angle = x,
                    5 => (p.lower_angle, p.upper_angle) = (x, x + 0.5),
                    6 => (p.lower_angle, p.upper_angle) = (x, x),
                    7 => (p.lower_angle, p.upper_angle) = (-600.0, x),
                    8 => p.motor_speed = x,
                    9 if pos => p.max_motor_torque = x,
                    _ => return Ok(()),
                }
            }
            B2JointDefEnum::WeldJoint(p) => match f {
                0 | 1 => at(&mut p.local_anchor_a, f),
                2 | 3 => at(&mut p.local_anchor_b, f - 2),
                4 => p.reference_angle = x,
                5 if pos => p.stiffness = x,
                6 if pos => p.damping = x,
                _ => return Ok(()),
            },
            B2JointDefEnum::WheelJoint(p) => {
                p.enable_limit = limit;
                p.enable_motor = motor;
                match f {
                    0 | 1 => at(&mut p.local_anchor_a, f),
                    2 | 3 => at(&mut p.local_anchor_b, f - 2),
                    4 => (p.lower_translation, p.upper_translation) = (x, x + 0.5),
                    5 => (p.lower_translation, p.upper_translation) = (x, x),
                    6 => (p.lower_translation, p.upper_translation) = (-600.0, x),
                    7 => p.motor_speed = x,
                    8 if pos => p.max_motor_torque = x,
                    9 if pos => p.stiffness = x,
                    10 if pos => p.damping = x,
                    11 => p.local_axis_a = v(x.cos(), x.sin()),
                    _ => return Ok(()),
                }
            }
            _ => {}
        }
        w.borrow_mut().create_joint(&e);
    } else if kind == 8 {
        let j1 = mk(&w, if limit { REV } else { PRIS }, &bs[0], a, false, 70);
        let j2 = mk(&w, if motor { REV } else { PRIS }, &bs[0], b, false, 71);
        gear(&w, &j1, &j2, a, b, x, collide, 72);
    } else if kind == 9 {
        let mut q = bdef([DY, KI, ST, DY][flags & 3], 0.5, 0.25, 0.1);
        q.fixed_rotation = collide;
        q.user_data = Some(60);
        match f {
            0 | 1 if x.abs() < 1e5 => at(&mut q.position, f),
            2 => q.angle = x,
            3 | 4 if q.body_type != ST => at(&mut q.linear_velocity, f - 3),
            5 if q.body_type != ST && !collide => q.angular_velocity = x,
            6 if pos => q.linear_damping = x,
            7 if pos => q.angular_damping = x,
            8 => q.gravity_scale = x,
            _ => return Ok(()),
        }
        let b = B2world::create_body(w.clone(), &q);
        fixu(&b, &Sh::Box(0.4, 0.3), 1.0, 61);
    } else if kind == 10 {
        let mut q = fdef(&menu()[flags]);
        q.user_data = Some(60);
        match f {
            0 if pos => q.friction = x,
            1 if pos => q.restitution = x,
            2 if pos => q.restitution_threshold = x,
            3 if pos && x < 2000.0 => q.density = x,
            _ => return Ok(()),
        }
        B2body::create_fixture(a.clone(), &q);
    } else if kind == 11 {
        if x.abs() > 100.0 {
            return Ok(());
        }
        let k = x.abs().max(0.05);
        let sh = match f {
            0 if pos => Sh::Circle(if x < 0.05 { x * 0.1 } else { x }, 0.0, 0.0),
            1 => Sh::Circle(0.5, x, 0.25),
            2 => Sh::Circle(0.5, 0.25, x),
            3 => Sh::Box(k, 0.5),
            4 => Sh::Box(0.5, k),
            5 => Sh::BoxAt(0.5, 0.25, x, 0.5, 0.3),
            6 => Sh::BoxAt(0.5, 0.25, 0.5, x, 0.3),
            7 => Sh::BoxAt(0.5, 0.25, 0.5, 0.75, x),
            8 => Sh::Edge((x, 0.5), (x + 0.75, 0.25)),
            9 => Sh::Edge((0.5, x), (0.25, x - 0.75)),
            10 => Sh::EdgeOne([(x - 1.0, 0.5), (x, 0.0), (x + 1.0, 0.0), (x + 2.0, -0.5)]),
            11 => Sh::EdgeOne([(0.5, x - 1.0), (0.0, x), (0.0, x + 1.0), (-0.5, x + 3.0)]),
            12 => Sh::Chain(vec![(x, 0.5), (x + 1.0, 0.25), (x + 2.0, x)], (x - 2.0, 0.5), (x + 4.0, 0.7)),
            13 => Sh::Chain(vec![(0.0, 0.0), (1.0, 0.25)], (-2.0 - k, x), (4.0, x)),
            14 => Sh::Loop(vec![(x, 0.0), (x + 1.0, 0.0), (x + 1.0, k), (x, k)]),
            15 => Sh::Poly(vec![(x, 0.0), (x + 1.0, 0.0), (x + 0.5, k)]),
            _ => return Ok(()),
        };
        let q = fixu(if flags & 1 > 0 { a } else { &bs[0] }, &sh, if flags & 2 > 0 { 1.0 } else { 0.0 }, 60);
        q.borrow_mut().set_sensor(collide);
    } else {
        // filters: every bit and the group values around their ends
        if x != 0.0 {
            return Ok(());
        }
        let mut q = fdef(&Sh::Circle(0.5, 0.0, 0.0));
        q.user_data = Some(60);
        let mut s = B2filter::default();
        match f {
            0..=15 => s.category_bits = 1 << f,
            16..=31 => s.mask_bits = 1 << (f - 16),
            _ => s.group_index = [1, -1, 2, 127, 128, -129, 32767, -32768][flags],
        }
        q.filter = s;
        B2body::create_fixture(a.clone(), &q);
    }
    c.step(1);
    judge(&w, 3, c).map(|_| ())
}

/// Worlds written in the middle of a simulation, after creating, destroying and stepping.
fn histories(i: u64, depth: usize, c: &mut Ctx) -> R {
    let (w, mut bs) = field(3);
    let (w2, mut bs2) = field(3);
    let mut js: Vec<J> = vec![];
    let mut js2: Vec<J> = vec![];
    let mut ud = 400;
    let apply = |w: &W, bs: &mut Vec<B>, js: &mut Vec<J>, op: usize, ud: u32| -> bool {
        match op {
            0 => step(w, DT),
            1 => {
                let mut q = bdef(DY, 0.5, 0.4, 0.3);
                q.user_data = Some(ud);
                let b = B2world::create_body(w.clone(), &q);
                fixu(&b, &Sh::Box(0.4, 0.3), 1.0, ud);
                bs.push(b);
            }
            2 => {
                // destroying a body takes its joints along
                let b = bs.remove(bs.len() / 2);
                js.retain(|j| {
                    let q = j.borrow();
                    !same(&q.get_base().get_body_a(), &b) && !same(&q.get_base().get_body_b(), &b)
                });
                w.borrow_mut().destroy_body(b);
            }
            3 | 4 | 5 => {
                let k = [REV, MOUSE, WELD][op - 3];
                let n = bs.len();
                if n < 2 {
                    return false;
                }
                js.push(mk(w, k, &bs[n - 2], &bs[n - 1], true, ud));
            }
            6 => {
                if js.is_empty() {
                    return false;
                }
                let j = js.remove(0);
                w.borrow_mut().destroy_joint(j);
            }
            _ => bs[bs.len() - 1].borrow_mut().set_awake(false),
        }
        true
    };
    for op in decode_seq(i, 8, depth) {
        if bs.len() < 2 || !apply(&w, &mut bs, &mut js, op, ud) {
            return Ok(());
        }
        apply(&w2, &mut bs2, &mut js2, op, ud);
        ud += 1;
        c.step(1);
        judge(&w, 2, c)?;
    }
    // the written world goes on as if it had not been written
    for _ in 0..3 {
        step(&w, DT);
        step(&w2, DT);
        ensure!(hash_world(&w) == hash_world(&w2), "the written world goes on differently");
        c.eval(1);
    }
    Ok(())
}

pub fn check() -> Check {
    let deep = if thorough() { 4 } else { 3 };
    let hd = if thorough() { 6 } else { 5 };
    let show = |f: &'static str| move |i: u64| format!("{} case {}", f, i);
    Check {
        id: "C07",
        bounds: format!(
            "bodies: 3 types x 32 flag sets x 3 poses x 2 velocities x 2 dampings x fixtures and neighbours; 9 shapes with all material, filter and user data variants; \
             joint sets: every sequence of {} joints out of 9 kinds x 4 body pairs; gears: every arrangement of 3 driving joints with 2 bystanders of any kind and 1-2 gears; \
             every joint kind x 3 pairs x 5 binary parameters x setters, then 8 steps side by side; every numeric field of every body, fixture, shape and joint definition over 16 magnitudes, every filter bit; histories: every sequence of {} of 8 operations written after each one; formats json, bincode, yaml and a length-checking one",
            deep, hd
        ),
        assumptions: vec![
            "floating point values are finite".into(),
            "user data is u32".into(),
            "bodies, fixtures and joints are compared as sets; the order of the lists is not part of the property".into(),
        ],
        phases: vec![
            phase("bodies", 3 * 32 * 3 * 2 * 2 * 3 * 2 * 3, show("body"), |i, c| bodies(i, c)),
            phase("setters", 3 * 9 * 144, show("setters"), |i, c| setters(i, c)),
            phase("fixtures", NF1, show("fixture"), |i, c| fixtures(i, c)),
            phase("joint sets", seq_count(36, deep), move |i| format!("joints {:?}", decode_seq(i, 36, deep)), move |i, c| joint_sets(i, deep, c)),
            phase("gears", 4 * 9 * 9 * 4 * 8 * 6 * 2, show("gear"), |i, c| gears(i, c)),
            phase("parameters", 8 * 3 * 2 * 16 * 2, show("parameter"), |i, c| params(i, c)),
            phase("values", (16 * 8 * FIELDS.iter().sum::<usize>()) as u64, show("value"), |i, c| values(i, c)),
            phase("histories", seq_count(8, hd), move |i| format!("ops {:?}", decode_seq(i, 8, hd)), move |i, c| histories(i, hd, c)),
        ],
    }
}
