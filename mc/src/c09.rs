//! C09: point tests, ray casts and bounding boxes of every shape kind against f64 geometry.
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::kit::*;
use box2d_rs::b2_body::*;
use box2d_rs::b2_collision::*;

pub fn shapes() -> Vec<Sh> {
    let oct: Vec<(f32, f32)> = (0..8).map(|k| {
        let a = k as f32 * std::f32::consts::PI / 4.0 + 0.2;
        (0.9 * a.cos(), 0.7 * a.sin())
    }).collect();
    vec![
        Sh::Circle(0.5, 0.0, 0.0),
        Sh::Circle(1.0, 0.25, -0.5),
        Sh::Circle(0.05, -0.5, 0.5),
        Sh::Box(0.5, 0.25),
        Sh::Box(1.25, 0.03),
        Sh::BoxAt(0.5, 0.75, 0.25, -0.5, 0.5),
        Sh::BoxAt(1.0, 0.125, -0.5, 0.25, 1.57),
        Sh::Poly(vec![(-0.5, -0.5), (0.75, -0.25), (0.0, 0.75)]),
        Sh::Poly(vec![(0.0, 0.0), (1.0, 0.0), (1.25, 0.5), (0.5, 1.0), (-0.25, 0.5)]),
        Sh::Poly(oct),
        Sh::Edge((-0.75, -0.25), (0.5, 0.5)),
        Sh::Edge((0.25, 1.0), (0.25, -1.0)),
        Sh::EdgeOne([(-1.5, 0.0), (-0.5, 0.0), (0.75, 0.25), (1.5, 0.0)]),
        Sh::EdgeOne([(1.5, 0.5), (0.5, 0.5), (-0.5, -0.25), (-1.5, -0.25)]),
        Sh::Chain(vec![(-1.0, 0.0), (0.0, 0.25), (0.5, -0.5), (1.25, 0.0)], (-2.0, 0.0), (2.0, 0.0)),
        Sh::Loop(vec![(-0.5, -0.5), (0.75, -0.5), (0.5, 0.75), (-0.25, 0.5)]),
    ]
}

const EPS: f64 = 1e-4;

enum Hit {
    Miss,
    Skip,
    At(f64, f64), // fraction and its tolerance
}

fn grow(v: &[P], e: f64) -> Vec<P> {
    // shift every face by e and intersect neighbouring faces
    let n = v.len();
    let face = |i: usize| {
        let (a, b) = (v[i], v[(i + 1) % n]);
        let nn = (b - a).right().unit();
        (nn, a.dot(nn) + e)
    };
    (0..n).map(|i| {
        let ((n1, d1), (n2, d2)) = (face((i + n - 1) % n), face(i));
        let det = n1.cross(n2);
        p((d1 * n2.y - d2 * n1.y) / det, (n1.x * d2 - n2.x * d1) / det)
    }).collect()
}

fn merge(lo: Option<(f64, P)>, mid: Option<(f64, P)>, hi: Option<(f64, P)>) -> Hit {
    match (lo, mid, hi) {
        (None, None, None) => Hit::Miss,
        (Some(a), Some(b), Some(c)) => Hit::At(b.0, (a.0 - b.0).abs() + (c.0 - b.0).abs() + 1e-5),
        _ => Hit::Skip,
    }
}

/// Reference ray cast against a child core placed in the world.
pub fn reference(core: &Core, poly: bool, one_sided: bool, p1: P, p2: P, m: f64) -> (Hit2, Option<P>) {
    let l = (p2 - p1).len();
    if l < 1e-9 {
        return (Hit2::Miss, None);
    }
    let dm = EPS / l;
    let f = |e: f64, m: f64| -> Option<(f64, P)> {
        if poly {
            ray_poly(&grow(&core.v, e), p1, p2, m)
        } else {
            ray_circle(core.v[0], core.r + e, p1, p2, m)
        }
    };
    let h = if core.v.len() == 2 {
        let (a, b) = (core.v[0], core.v[1]);
        let n = (b - a).right().unit();
        let (d1, d2) = ((p1 - a).dot(n), (p2 - a).dot(n));
        let back = one_sided && d1 < 0.0;
        if back && d1 < -EPS {
            return (Hit2::Miss, None);
        }
        if one_sided && d1.abs() <= EPS {
            return (Hit2::Skip, None);
        }
        let r = ray_seg(a, b, p1, p2, 1e9);
        let u = (b - a).unit();
        let el = (b - a).len();
        if (d1 - d2).abs() < 1e-3 * l.min(1.0) {
            // nearly parallel
            let t = d1 / (d1 - d2);
            if d1.abs() > 0.01 && !(t >= 0.0 && t < 3.0 * m) {
                return (Hit2::Miss, None);
            }
            return (Hit2::Skip, None);
        }
        let t = d1 / (d1 - d2);
        let s = (p1 + (p2 - p1) * t - a).dot(u);
        let tol = 1e-5 + EPS / (d1 - d2).abs();
        let ptol = tol * l + EPS;
        if t.abs() < tol || (t - m).abs() < tol + dm || s.abs() < ptol || (s - el).abs() < ptol {
            return (Hit2::Skip, None);
        }
        match r {
            Some(x) if x.0 <= m => return (Hit2::At(x.0, tol), Some(x.1)),
            _ => return (Hit2::Miss, None),
        }
    } else {
        let (lo, mid, hi) = (f(-EPS, m - dm), f(0.0, m), f(EPS, m + dm));
        // starting on the surface
        let on = if poly { core.bdist(p1) } else { ((p1 - core.v[0]).len() - core.r).abs() };
        if on < EPS {
            return (Hit2::Skip, None);
        }
        merge(lo, mid, hi)
    };
    match h {
        Hit::Miss => (Hit2::Miss, None),
        Hit::Skip => (Hit2::Skip, None),
        Hit::At(t, tol) => (Hit2::At(t, tol), f(0.0, m).map(|x| x.1)),
    }
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Hit2 {
    Miss,
    Skip,
    At(f64, f64),
}

/// Compares a library ray cast result with the reference.
pub fn judge(core: &Core, poly: bool, one_sided: bool, p1: P, p2: P, m: f64, got: Option<(f64, P)>, what: &str) -> R {
    let (h, n) = reference(core, poly, one_sided, p1, p2, m);
    match (h, got) {
        (Hit2::Skip, None) | (Hit2::Miss, None) => Ok(()),
        (Hit2::Miss, Some(g)) => Err(format!("{}: ray {:?}->{:?} max {} hits at {} but misses the shape", what, p1, p2, m, g.0)),
        (Hit2::At(t, _), None) => Err(format!("{}: ray {:?}->{:?} max {} not hit, should be at {}", what, p1, p2, m, t)),
        (h, Some(g)) => {
            if let Hit2::At(t, tol) = h {
                ensure!((g.0 - t).abs() <= tol + 1e-5, "{}: ray {:?}->{:?} max {} hit at {} should be {}", what, p1, p2, m, g.0, t);
            }
            ensure!(g.0 >= 0.0 && g.0 <= m, "{}: fraction {} outside 0..{}", what, g.0, m);
            ensure!((g.1.len() - 1.0).abs() < 1e-4, "{}: normal {:?} not unit", what, g.1);
            // the hit point is on the surface and the normal is that of a face (or the disc) there
            let q = p1 + (p2 - p1) * g.0;
            let l = (p2 - p1).len();
            if core.v.len() == 1 {
                ensure!(((q - core.v[0]).len() - core.r).abs() < 3e-4 * l.max(1.0) / core.r.min(1.0).max(0.05), "{}: hit point {:?} not on the circle", what, q);
                ensure!((q - core.v[0]).unit().dot(g.1) > 0.999, "{}: normal {:?} not radial at {:?}", what, g.1, q);
            } else if poly {
                let k = core.v.len();
                let ok = (0..k).any(|i| {
                    let (a, b) = (core.v[i], core.v[(i + 1) % k]);
                    seg_dist(a, b, q) < 5e-4 * l.max(1.0) && (b - a).right().unit().dot(g.1) > 0.9999
                });
                ensure!(ok, "{}: normal {:?} does not belong to a face at {:?}", what, g.1, q);
                ensure!(g.1.dot(p2 - p1) <= 1e-4 * l, "{}: normal {:?} along the ray", what, g.1);
            } else if let Some(n) = n {
                ensure!(n.dot(g.1) > 0.9999, "{}: normal {:?} should be {:?}", what, g.1, n);
            }
            Ok(())
        }
    }
}

fn transforms(th: bool) -> Vec<(f32, f32, f32)> {
    let na = if th { 24 } else { 12 };
    let mut r = vec![];
    for k in 0..na {
        let a = -3.0 + 6.3 * k as f32 / na as f32;
        r.push((0.0, 0.0, a));
    }
    r.push((0.0, 0.0, 0.0));
    r.push((0.5, -0.25, 0.0));
    r.push((0.5, -0.25, std::f32::consts::FRAC_PI_2));
    r.push((-7.0, 5.0, 0.7));
    r.push((30.0, -20.0, 2.0));
    r.push((0.375, 0.125, 7.5));
    r
}

pub fn check() -> Check {
    let th = thorough();
    let sh = shapes();
    let tr = transforms(th);
    let (ns, nt) = (sh.len(), tr.len());
    let mut phases = vec![];
    // points and boxes
    {
        let (sh, tr) = (sh.clone(), tr.clone());
        let (sh2, tr2) = (sh.clone(), tr.clone());
        let g = if th { 129usize } else { 65 };
        phases.push(phase(
            "point",
            (ns * nt * g) as u64,
            move |i| {
                let mut d = Dec::new(i);
                let (s, t, _y) = (d.r(&sh2).clone(), d.p(&tr2), d.d(g));
                format!("{:?} at {:?}", s, t)
            },
            move |i, c| {
                let mut d = Dec::new(i);
                let (s, t, gy) = (d.r(&sh), d.p(&tr), d.d(g));
                let x = xf(t.0, t.1, t.2);
                let x2 = X::new(p(t.0 as f64, t.1 as f64), t.2 as f64);
                let shape = s.rc();
                let w = world(0.0, 0.0);
                let b = body(&w, DY, t.0, t.1, t.2);
                let f = fix(&b, s, 1.0);
                let tol = 2e-6 * (1.0 + t.0.abs() as f64 + t.1.abs() as f64) + 2e-6;
                let mut h = Fnv::new();
                for gx in 0..g {
                    let q = p(-2.0 + 4.0 * gx as f64 / (g - 1) as f64 + t.0 as f64, -2.0 + 4.0 * gy as f64 / (g - 1) as f64 + t.1 as f64);
                    let q = pv(vp(q));
                    let got = shape.test_point(x, vp(q));
                    let core = s.core(0).at(&x2);
                    let want = match core.v.len() {
                        1 => {
                            let e = (q - core.v[0]).len() - core.r;
                            if e.abs() < tol { None } else { Some(e < 0.0) }
                        }
                        _ if s.is_poly() => {
                            if core.bdist(q) < tol { None } else { Some(core.inside(q)) }
                        }
                        _ => Some(false),
                    };
                    if let Some(wt) = want {
                        ensure!(got == wt, "point {:?}: inside={} should be {}", q, got, wt);
                        ensure!(f.borrow().test_point(vp(q)) == wt, "fixture test_point {:?} should be {}", q, wt);
                    }
                    h.b(got);
                    c.eval(2);
                }
                for ch in 0..s.children() {
                    let mut bx = B2AABB::default();
                    shape.compute_aabb(&mut bx, x, ch);
                    let core = s.core(ch).at(&x2);
                    let (l, u) = core.bounds();
                    for (bx, what) in [(bx, "shape"), (f.borrow().get_aabb(ch as i32), "fixture")] {
                        ensure!(pclose(pv(bx.lower_bound), l, 4.0 * tol) && pclose(pv(bx.upper_bound), u, 4.0 * tol), "{} child {} box {:?} should be {:?} {:?}", what, ch, bx, l, u);
                    }
                    c.eval(2);
                }
                c.step(1);
                c.state(h.u(i).done());
                Ok(())
            },
        ));
    }
    // rays
    {
        let (sh, tr) = (sh.clone(), tr.clone());
        let (sh2, tr2) = (sh.clone(), tr.clone());
        let g = if th { 11usize } else { 9 };
        let mf: Vec<f32> = vec![0.0, 0.01, 0.25, 0.6, 1.0, 2.5];
        let mf2 = mf.clone();
        let off = [(0.0f64, 0.0f64), (0.03125, 0.0625), (-0.01, 0.007)];
        phases.push(phase(
            "ray",
            (ns * nt * g * g * 3) as u64,
            move |i| {
                let mut d = Dec::new(i);
                let (s, t, a, b, o) = (d.r(&sh2).clone(), d.p(&tr2), d.d(g), d.d(g), d.d(3));
                format!("{:?} at {:?} ray start ({},{}) of a {}-grid, offset {}; max fractions {:?}", s, t, a, b, g, o, mf2)
            },
            move |i, c| {
                let mut d = Dec::new(i);
                let (s, t, a, b, o) = (d.r(&sh), d.p(&tr), d.d(g), d.d(g), d.p(&off));
                let x = xf(t.0, t.1, t.2);
                let x2 = X::new(p(t.0 as f64, t.1 as f64), t.2 as f64);
                let shape = s.rc();
                let at = |k: usize| -2.0 + 4.0 * k as f64 / (g - 1) as f64;
                let org = p(t.0 as f64, t.1 as f64);
                let p1 = vp(org + p(at(a) + o.0, at(b) + o.1));
                let cores: Vec<Core> = (0..s.children()).map(|k| s.core(k).at(&x2)).collect();
                let one = matches!(s, Sh::EdgeOne(..));
                let mut h = Fnv::new();
                for ex in 0..g {
                    for ey in 0..g {
                        let p2 = vp(org + p(at(ex) - o.1, at(ey) + 2.0 * o.0));
                        for m in &mf {
                            let inp = B2rayCastInput { p1, p2, max_fraction: *m };
                            for (k, core) in cores.iter().enumerate() {
                                let mut out = B2rayCastOutput::default();
                                let hit = shape.ray_cast(&mut out, &inp, x, k);
                                let got = if hit { Some((out.fraction as f64, pv(out.normal))) } else { None };
                                judge(core, s.is_poly(), one, pv(p1), pv(p2), *m as f64, got, &format!("child {}", k))?;
                                h.b(hit);
                                c.eval(1);
                            }
                        }
                    }
                }
                c.step(1);
                c.state(h.u(i).done());
                Ok(())
            },
        ));
    }
    // rays along the faces, just inside and just outside
    {
        let (sh, tr) = (sh.clone(), tr.clone());
        let (sh2, tr2) = (sh.clone(), tr.clone());
        let off = [-0.02f64, -0.004, -0.001, -0.0002, 0.0002, 0.001, 0.004, 0.02];
        phases.push(phase(
            "along",
            (ns * nt * 8) as u64,
            move |i| {
                let mut d = Dec::new(i);
                format!("{:?} at {:?}, offset {}", d.r(&sh2).clone(), d.p(&tr2), d.p(&off))
            },
            move |i, c| {
                let mut d = Dec::new(i);
                let (s, t, o) = (d.r(&sh), d.p(&tr), d.p(&off));
                let x = xf(t.0, t.1, t.2);
                let x2 = X::new(p(t.0 as f64, t.1 as f64), t.2 as f64);
                let shape = s.rc();
                for ch in 0..s.children() {
                    let core = s.core(ch).at(&x2);
                    let n = core.v.len();
                    if n < 2 {
                        continue;
                    }
                    for k in 0..n {
                        let (a, b) = (core.v[k], core.v[(k + 1) % n]);
                        let u = (b - a).unit();
                        for (s1, s2) in [(0.7, 0.9), (0.7, -0.1), (-0.2, 0.9)] {
                            for back in [false, true] {
                                let (q1, q2) = (vp(a - u * s1 + u.right() * o), vp(b + u * s2 + u.right() * o));
                                let (p1, p2) = if back { (q2, q1) } else { (q1, q2) };
                                let mut out = B2rayCastOutput::default();
                                let hit = shape.ray_cast(&mut out, &B2rayCastInput { p1, p2, max_fraction: 1.0 }, x, ch);
                                let got = if hit { Some((out.fraction as f64, pv(out.normal))) } else { None };
                                judge(&core, s.is_poly(), matches!(s, Sh::EdgeOne(..)), pv(p1), pv(p2), 1.0, got, &format!("child {} side {}", ch, k))?;
                                c.eval(1);
                            }
                        }
                    }
                }
                c.step(1);
                c.state(i);
                Ok(())
            },
        ));
    }
    // fixtures on moved bodies: ray, point and box follow the body
    {
        let (sh, tr) = (sh.clone(), tr.clone());
        let (sh2, tr2) = (sh.clone(), tr.clone());
        phases.push(phase(
            "fixture",
            (ns * nt * nt) as u64,
            move |i| {
                let mut d = Dec::new(i);
                let (s, t, u) = (d.r(&sh2).clone(), d.p(&tr2), d.p(&tr2));
                format!("{:?} at {:?} moved to {:?}", s, t, u)
            },
            move |i, c| {
                let mut d = Dec::new(i);
                let (s, t, u) = (d.r(&sh), d.p(&tr), d.p(&tr));
                let w = world(0.0, 0.0);
                let b = body(&w, DY, t.0, t.1, t.2);
                let f = fix(&b, s, 1.0);
                b.borrow_mut().set_transform(v(u.0, u.1), u.2);
                let x2 = X::new(p(u.0 as f64, u.1 as f64), u.2 as f64);
                let tol = 4e-6 * (2.0 + u.0.abs() as f64 + u.1.abs() as f64);
                for k in 0..s.children() {
                    let core = s.core(k).at(&x2);
                    let bx = f.borrow().get_aabb(k as i32);
                    let (l, h) = core.bounds();
                    ensure!(pclose(pv(bx.lower_bound), l, 4.0 * tol) && pclose(pv(bx.upper_bound), h, 4.0 * tol), "child {} box {:?} should be {:?} {:?}", k, bx, l, h);
                    let mid = core.centroid();
                    for a in 0..12 {
                        let dir = p((a as f64 * 0.55).cos(), (a as f64 * 0.55).sin()) * 2.5;
                        let (p1, p2) = (vp(mid + dir), vp(mid - dir * 0.7));
                        for m in [0.05f32, 0.5, 1.0] {
                            let mut out = B2rayCastOutput::default();
                            let hit = f.borrow().ray_cast(&mut out, &B2rayCastInput { p1, p2, max_fraction: m }, k as i32);
                            let got = if hit { Some((out.fraction as f64, pv(out.normal))) } else { None };
                            judge(&core, s.is_poly(), matches!(s, Sh::EdgeOne(..)), pv(p1), pv(p2), m as f64, got, &format!("fixture child {}", k))?;
                            c.eval(1);
                        }
                    }
                    if s.is_poly() || s.children() == 1 && core.v.len() == 1 {
                        ensure!(f.borrow().test_point(vp(mid)), "centre of the shape is not inside");
                        ensure!(!f.borrow().test_point(vp(mid + p(3.0, 3.0))), "far point is inside");
                    }
                }
                c.step(1);
                c.state(Fnv::new().u(i).done());
                let _ = B2body::<U>::get_position(&b.borrow());
                Ok(())
            },
        ));
    }
    // boxes
    {
        let g = 7usize;
        let boxes: Vec<(f32, f32, f32, f32)> = {
            let mut r = vec![];
            let q = [-1.0f32, -0.25, 0.0, 0.5, 1.5];
            for a in 0..5 { for b in a + 1..5 { for cc in 0..5 { for dd in cc + 1..5 { r.push((q[a], q[cc], q[b], q[dd])); } } } }
            r
        };
        let nb = boxes.len();
        let b2 = boxes.clone();
        phases.push(phase(
            "box",
            (nb * g * g) as u64,
            move |i| {
                let mut d = Dec::new(i);
                let (b, x, y) = (d.p(&b2), d.d(g), d.d(g));
                format!("box {:?} ray start cell {} {}", b, x, y)
            },
            move |i, c| {
                let mut d = Dec::new(i);
                let (b, sx, sy) = (d.p(&boxes), d.d(g), d.d(g));
                let bx = aabb(b.0, b.1, b.2, b.3);
                let at = |k: usize| -2.0 + 4.0 * k as f32 / (g - 1) as f32;
                let core = Core { v: vec![p(b.0 as f64, b.1 as f64), p(b.2 as f64, b.1 as f64), p(b.2 as f64, b.3 as f64), p(b.0 as f64, b.3 as f64)], r: 0.0 };
                for ex in 0..g { for ey in 0..g { for m in [0.0f32, 0.3, 1.0, 2.0] {
                    let inp = B2rayCastInput { p1: v(at(sx) + 0.01, at(sy) - 0.02), p2: v(at(ex) + 0.01, at(ey) - 0.02), max_fraction: m };
                    let mut out = B2rayCastOutput::default();
                    let hit = bx.ray_cast(&mut out, &inp);
                    let got = if hit { Some((out.fraction as f64, pv(out.normal))) } else { None };
                    judge(&core, true, false, pv(inp.p1), pv(inp.p2), m as f64, got, "box")?;
                    c.eval(1);
                } } }
                // box algebra against every other box
                ensure!(bx.is_valid(), "valid box rejected");
                let e = bx.get_extents();
                let m = bx.get_center();
                ensure!(e.x == (b.2 - b.0) / 2.0 && e.y == (b.3 - b.1) / 2.0 && m.x == (b.0 + b.2) / 2.0 && m.y == (b.1 + b.3) / 2.0, "centre or extents");
                ensure!(bx.get_perimeter() == 2.0 * (b.2 - b.0 + b.3 - b.1), "perimeter {}", bx.get_perimeter());
                ensure!(!aabb(b.2, b.1, b.0, b.3).is_valid() && !aabb(b.0, b.3, b.2, b.1).is_valid() && !aabb(b.0, f32::NAN, b.2, b.3).is_valid() && !aabb(b.0, b.1, f32::INFINITY, b.3).is_valid(), "invalid box accepted");
                for o in &boxes {
                    let ob = aabb(o.0, o.1, o.2, o.3);
                    let ov = b.0 <= o.2 && o.0 <= b.2 && b.1 <= o.3 && o.1 <= b.3;
                    ensure!(b2_test_overlap(bx, ob) == ov, "overlap of {:?} {:?}", b, o);
                    let cn = b.0 <= o.0 && b.1 <= o.1 && b.2 >= o.2 && b.3 >= o.3;
                    ensure!(bx.contains(&ob) == cn, "contains {:?} {:?}", b, o);
                    let un = (b.0.min(o.0), b.1.min(o.1), b.2.max(o.2), b.3.max(o.3));
                    let mut c1 = bx;
                    c1.combine(ob);
                    let mut c2 = B2AABB::default();
                    c2.combine_two(bx, ob);
                    for z in [c1, c2] {
                        ensure!(z.lower_bound.x == un.0 && z.lower_bound.y == un.1 && z.upper_bound.x == un.2 && z.upper_bound.y == un.3, "combine {:?} {:?}", b, o);
                    }
                    c.eval(4);
                }
                c.step(1);
                c.state(Fnv::new().u(i).done());
                Ok(())
            },
        ));
    }
    Check {
        id: "C09",
        bounds: format!("{} shapes of every kind x {} placements x point grid and ray grid (all start/end pairs of a 9x9 or 11x11 grid, three sub-grid offsets, six maximum fractions); rays along every face at 8 small offsets; fixtures moved between all placement pairs; 100 boxes x all rays of a 7x7 grid and all box pairs", ns, nt),
        assumptions: vec!["answers within 1e-4 (rays) or rounding (points) of a shape boundary are not judged".into(), "chain segments are hit from both sides, one-sided edges from the front only".into()],
        phases,
    }
}
