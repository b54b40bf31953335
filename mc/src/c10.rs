//! C10: mass, centre and inertia of shapes and bodies.
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::kit::*;
use box2d_rs::b2_body::*;
use box2d_rs::b2_shape::*;

fn rel(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 2e-5 * (1e-3 + scale)
}

fn judge(md: &B2massData, want: (f64, P, f64), size: f64, what: &str) -> R {
    let (m, ce, i) = want;
    ensure!(rel(md.mass as f64, m, m), "{}: mass {} should be {}", what, md.mass, m);
    if m > 0.0 {
        ensure!(pclose(pv(md.center), ce, 3e-5 * size), "{}: centre {:?} should be {:?}", what, md.center, ce);
    }
    ensure!(rel(md.i as f64, i, i.max(m * size * size)), "{}: inertia {} should be {}", what, md.i, i);
    Ok(())
}

#[derive(Clone)]
struct Fx {
    f: F,
    sh: Sh,
    density: f64,
}
struct S {
    w: W,
    b: B,
    ty: B2bodyType,
    fixed: bool,
    fx: Vec<Fx>,
    m: f64,
    ce: P,
    ic: f64,
    pos: P,
    ang: f64,
    v0: P, // velocity of the origin
    om: f64,
}

impl S {
    fn reset(&mut self) {
        if self.ty != DY {
            self.m = 0.0;
            self.ce = p(0.0, 0.0);
            self.ic = 0.0;
            return;
        }
        let (mut m, mut c, mut i) = (0.0, p(0.0, 0.0), 0.0);
        for f in &self.fx {
            let (a, b, d) = f.sh.mass(f.density);
            m += a;
            c += b * a;
            i += d;
        }
        if m > 0.0 {
            c = c * (1.0 / m);
        }
        self.m = m;
        self.ce = c;
        self.ic = if self.fixed { 0.0 } else { i - m * c.dot(c) };
    }
    fn arm(&self) -> P {
        X::new(p(0.0, 0.0), self.ang).rot(self.ce)
    }
    fn check(&self, c: &mut Ctx) -> R {
        let b = self.b.borrow();
        let want = (self.m, self.ce, self.ic + self.m * self.ce.dot(self.ce));
        let mut md = B2massData::default();
        b.get_mass_data(&mut md);
        judge(&md, want, 4.0, "mass data")?;
        ensure!(md.mass == b.get_mass() && md.i == b.get_inertia() && md.center == b.get_local_center(), "mass getters disagree");
        if self.ty != DY {
            ensure!(md.mass == 0.0 && md.i == 0.0 && md.center == v(0.0, 0.0), "non-dynamic body has mass data {:?}", (md.mass, md.i));
        }
        ensure!(pclose(pv(b.get_position()), self.pos, 1e-5) && close(b.get_angle() as f64, self.ang, 1e-6), "origin moved to {:?} from {:?}", b.get_position(), self.pos);
        ensure!(pclose(pv(b.get_world_center()), self.pos + self.arm(), 1e-4), "world centre {:?} should be {:?}", b.get_world_center(), self.pos + self.arm());
        ensure!(close(b.get_angular_velocity() as f64, self.om, 1e-4 * (1.0 + self.om.abs())), "spin {} should be {}", b.get_angular_velocity(), self.om);
        let vc = self.v0 + self.arm().spin(self.om);
        ensure!(pclose(pv(b.get_linear_velocity()), vc, 2e-4 * (1.0 + vc.len() + self.om.abs())), "centre velocity {:?} should be {:?}", b.get_linear_velocity(), vc);
        for f in &self.fx {
            let mut md = B2massData::default();
            f.f.borrow().get_mass_data(&mut md);
            judge(&md, f.sh.mass(f.density), 4.0, "fixture")?;
            let q = f.f.borrow();
            ensure!(q.get_density() as f64 == f.density && q.is_sensor() == matches!(f.sh, Sh::Poly(_)), "density {} or sensor flag of {:?}", q.get_density(), f.sh);
            ensure!(q.get_friction() == 0.2 && q.get_restitution() == 0.0 && q.get_filter_data().group_index == 0, "material of {:?}", f.sh);
        }
        c.eval(3 + self.fx.len() as u64);
        let mut h = Fnv::new();
        hash_body(&mut h, &self.b);
        c.state(h.u(self.fx.len() as u64).done());
        Ok(())
    }
    fn resync(&mut self) {
        let b = self.b.borrow();
        self.om = b.get_angular_velocity() as f64;
        self.v0 = pv(b.get_linear_velocity()) - self.arm().spin(self.om);
    }
}

const N: usize = 22;
fn name(o: usize) -> &'static str {
    [
        "add circle", "add offset box", "add sensor triangle", "add edge", "add weightless circle", "add chain", "destroy newest", "destroy oldest", "density of oldest 2.5", "newest weightless", "reset",
        "dynamic", "kinematic", "static", "toggle fixed rotation", "explicit A", "explicit B (no inertia)", "explicit C (zero mass)", "velocity", "place", "impulse", "angular impulse and central impulse",
    ][o]
}

fn op(s: &mut S, o: usize) -> Result<bool, String> {
    let n = s.fx.len();
    let add = |s: &mut S, sh: Sh, d: f32| {
        // the triangle is a sensor: sensors weigh as much as anything else
        let mut fd = fdef(&sh);
        fd.density = d;
        fd.is_sensor = matches!(sh, Sh::Poly(_));
        // circles come through the short form: shape and density, everything else as by default
        let f = if let Sh::Circle(..) = sh { B2body::create_fixture_by_shape(s.b.clone(), fd.shape.clone().unwrap(), d) } else { B2body::create_fixture(s.b.clone(), &fd) };
        s.fx.push(Fx { f, sh, density: d as f64 });
        if d > 0.0 {
            s.reset();
        }
    };
    match o {
        0 => add(s, Sh::Circle(0.5, 0.75, -0.25), 2.0),
        1 => add(s, Sh::BoxAt(0.5, 1.0, -1.0, 0.5, 0.7), 0.5),
        2 => add(s, Sh::Poly(vec![(0.0, 0.0), (1.0, 0.25), (0.25, 1.5)]), 1.0),
        3 => add(s, Sh::Edge((-1.0, 0.0), (1.0, 0.5)), 1.0),
        4 => add(s, Sh::Circle(1.0, 2.0, 0.0), 0.0),
        5 => add(s, Sh::Chain(vec![(1.0, 0.0), (0.0, 0.0), (-1.0, 0.5)], (2.0, 0.0), (-2.0, 0.0)), 3.0),
        6 | 7 => {
            if n == 0 || (o == 7 && n == 1) {
                return Ok(false);
            }
            let f = s.fx.remove(if o == 6 { n - 1 } else { 0 });
            B2body::destroy_fixture(s.b.clone(), f.f);
            s.reset();
        }
        8 | 9 => {
            if n == 0 {
                return Ok(false);
            }
            let k = if o == 8 { 0 } else { n - 1 };
            let d = if o == 8 { 2.5 } else { 0.0 };
            s.fx[k].f.borrow_mut().set_density(d);
            s.fx[k].density = d as f64;
        }
        10 => {
            s.b.borrow_mut().reset_mass_data();
            s.reset();
        }
        11 | 12 | 13 => {
            let t = [DY, KI, ST][o - 11];
            if t == s.ty {
                B2body::set_type(s.b.clone(), t);
                return Ok(true);
            }
            B2body::set_type(s.b.clone(), t);
            s.ty = t;
            s.reset();
            if t != DY {
                if t == ST {
                    s.v0 = p(0.0, 0.0);
                    s.om = 0.0;
                } else {
                    s.resync();
                }
            }
        }
        14 => {
            s.fixed = !s.fixed;
            let f = s.fixed;
            s.b.borrow_mut().set_fixed_rotation(f);
            s.reset();
            s.resync();
            if f {
                ensure!(s.om == 0.0, "a body set to fixed rotation still spins");
            }
        }
        15 | 16 | 17 => {
            let md = match o {
                15 => B2massData { mass: 3.0, center: v(0.5, -0.25), i: 5.0 },
                16 => B2massData { mass: 2.0, center: v(-0.5, 0.0), i: 0.0 },
                _ => B2massData { mass: 0.0, center: v(0.0, 1.0), i: 4.0 },
            };
            s.b.borrow_mut().set_mass_data(&md);
            if s.ty == DY {
                s.m = if md.mass > 0.0 { md.mass as f64 } else { 1.0 };
                s.ce = pv(md.center);
                s.ic = if md.i > 0.0 && !s.fixed { md.i as f64 - s.m * s.ce.dot(s.ce) } else { 0.0 };
            }
        }
        18 => {
            let mut b = s.b.borrow_mut();
            b.set_linear_velocity(v(1.5, -2.0));
            b.set_angular_velocity(3.0);
            if s.ty != ST {
                s.om = 3.0;
                s.v0 = p(1.5, -2.0) - s.arm().spin(3.0);
            }
        }
        19 => {
            s.b.borrow_mut().set_transform(v(-2.0, 1.25), 2.0);
            let vc = s.v0 + s.arm().spin(s.om);
            s.pos = p(-2.0, 1.25);
            s.ang = 2.0;
            s.v0 = vc - s.arm().spin(s.om);
        }
        20 | 21 => {
            let jv = p(0.75, 1.25);
            let pt = p(s.pos.x + 0.5, s.pos.y - 0.75);
            if o == 20 {
                s.b.borrow_mut().apply_linear_impulse(vp(jv), vp(pt), true);
            } else {
                s.b.borrow_mut().apply_linear_impulse_to_center(vp(jv), true);
                s.b.borrow_mut().apply_angular_impulse(0.5, true);
            }
            if s.ty == DY {
                let c = s.pos + s.arm();
                let l = if o == 20 { (pt - c).cross(jv) } else { 0.5 };
                let vc = s.v0 + s.arm().spin(s.om) + if s.m > 0.0 { jv * (1.0 / s.m) } else { p(0.0, 0.0) };
                if s.ic > 0.0 {
                    s.om += l / s.ic;
                }
                s.v0 = vc - s.arm().spin(s.om);
            }
        }
        _ => unreachable!(),
    }
    Ok(true)
}

pub fn check() -> Check {
    let th = thorough();
    let mut phases = vec![];
    // shapes from a lattice
    let lat: Vec<(f32, f32)> = (0..16).map(|k| ((k % 4) as f32 * 0.75 - 1.0, (k / 4) as f32 * 0.5 - 0.25)).collect();
    let den = [0.0f32, 0.5, 1.0, 3.0];
    let offs = [(0.0f32, 0.0f32), (4.0, -2.0), (-0.5, 7.0)];
    let l2 = lat.clone();
    phases.push(phase(
        "poly",
        16 * 16 * 16 * 16,
        move |i| {
            let mut d = Dec::new(i);
            format!("hull of {:?}", (0..4).map(|_| d.p(&l2)).collect::<Vec<_>>())
        },
        move |i, c| {
            let mut d = Dec::new(i);
            let idx: Vec<usize> = (0..4).map(|_| d.d(16)).collect();
            if !(idx[0] < idx[1] && idx[1] < idx[2] && idx[2] <= idx[3]) {
                return Ok(());
            }
            for o in offs {
                let q: Vec<(f32, f32)> = idx.iter().map(|k| (lat[*k].0 + o.0, lat[*k].1 + o.1)).collect();
                let sh = Sh::Poly(q);
                if sh.core(0).v.len() < 3 {
                    return Ok(());
                }
                let s = sh.poly();
                for dn in den {
                    let mut md = B2massData::default();
                    s.compute_mass(&mut md, dn);
                    judge(&md, sh.mass(dn as f64), 8.0, "polygon")?;
                    c.eval(1);
                }
            }
            c.step(3);
            c.state(Fnv::new().u(i).done());
            Ok(())
        },
    ));
    let more: Vec<Sh> = {
        let mut r = vec![];
        for rad in [0.05f32, 0.5, 1.0, 2.5] {
            for q in [(0.0f32, 0.0f32), (0.5, -0.25), (-3.0, 4.0)] {
                r.push(Sh::Circle(rad, q.0, q.1));
                for hy in [0.1f32, 1.0] {
                    r.push(Sh::Box(rad, hy));
                    for a in [0.0f32, 0.6, 1.5707964, -2.2] {
                        r.push(Sh::BoxAt(rad, hy, q.0, q.1, a));
                    }
                }
            }
        }
        r.extend(crate::c09::shapes());
        r
    };
    let nm = more.len();
    let m2 = more.clone();
    phases.push(phase(
        "shape",
        nm as u64,
        move |i| format!("{:?}", m2[i as usize]),
        move |i, c| {
            let sh = &more[i as usize];
            let s = sh.rc();
            for dn in den {
                let mut md = B2massData::default();
                s.compute_mass(&mut md, dn);
                judge(&md, sh.mass(dn as f64), 8.0, "shape")?;
                let w = world(0.0, 0.0);
                let b = body(&w, DY, 1.0, 2.0, 0.3);
                let f = fix(&b, sh, dn);
                let mut md = B2massData::default();
                f.borrow().get_mass_data(&mut md);
                judge(&md, sh.mass(dn as f64), 8.0, "fixture")?;
                c.eval(2);
            }
            c.step(1);
            c.state(Fnv::new().u(i).done());
            Ok(())
        },
    ));
    for st in 0..8usize {
        let d = if th { 6 } else if st < 2 || st == 5 { 5 } else { 4 };
        phases.push(phase(
            &format!("hist{}", st),
            seq_count(N, d),
            move |i| format!("start {}: {}", st, decode_seq(i, N, d).iter().map(|o| name(*o)).collect::<Vec<_>>().join("; ")),
            move |i, c| {
                let w = world(0.0, -10.0);
                let ty = [DY, DY, KI, ST, DY, DY, DY, DY][st];
                let mut bd = bdef(ty, 1.0, 2.0, 0.5);
                bd.fixed_rotation = st == 4;
                bd.enabled = st != 6;
                bd.linear_velocity = v(1.0, 0.5);
                bd.angular_velocity = if st == 4 { 0.0 } else { -2.0 };
                let b = box2d_rs::b2_world::B2world::create_body(w.clone(), &bd);
                let mut s = S { w, b, ty, fixed: st == 4, fx: vec![], m: 0.0, ce: p(0.0, 0.0), ic: 0.0, pos: p(1.0, 2.0), ang: 0.5, v0: p(1.0, 0.5), om: bd.angular_velocity as f64 };
                if ty == ST {
                    s.v0 = p(0.0, 0.0);
                    s.om = 0.0;
                    s.b.borrow_mut().set_linear_velocity(v(0.0, 0.0));
                    s.resync();
                }
                if st >= 1 && st != 4 {
                    op(&mut s, 1)?;
                }
                if st == 5 {
                    op(&mut s, 0)?;
                    op(&mut s, 3)?;
                    op(&mut s, 15)?;
                }
                if st == 7 {
                    s.b.borrow_mut().set_awake(false);
                    s.v0 = p(0.0, 0.0);
                    s.om = 0.0;
                }
                s.check(c)?;
                for o in decode_seq(i, N, d) {
                    if !op(&mut s, o)? {
                        return Ok(());
                    }
                    c.step(1);
                    s.check(c).map_err(|e| format!("after {}: {}", name(o), e))?;
                }
                let _ = &s.w;
                Ok(())
            },
        ));
    }
    Check {
        id: "C10",
        bounds: format!("all triangles and quadrilaterals of a 4x4 lattice at 3 offsets x 4 densities; {} further shapes; all sequences of up to {} of {} body edits from 6 starting bodies", nm, if th { 6 } else { 5 }, N),
        assumptions: vec!["explicit mass data is physically possible (inertia exceeds mass times squared offset)".into()],
        phases,
    }
}
