//! C12: linear shape casts. Under translation the distance of two convex sets is a convex
//! function of time, so its minimum and first crossing are found by bisection in f64.
use crate::c11::{proxy, solids};
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::kit::*;
use box2d_rs::b2_common::*;
use box2d_rs::b2_distance::*;

/// (minimum distance, its time) over [0,1]
pub fn min_dist(a: &Core, b: &Core, r: P) -> (f64, f64) {
    // swept bounding boxes far apart: a lower bound is enough
    let (al, au) = a.bounds();
    let (bl, bu) = b.bounds();
    let (bl, bu) = (p(bl.x + r.x.min(0.0), bl.y + r.y.min(0.0)), p(bu.x + r.x.max(0.0), bu.y + r.y.max(0.0)));
    let gap = (bl.x - au.x).max(al.x - bu.x).max(bl.y - au.y).max(al.y - bu.y);
    if gap > 0.05 {
        return (gap + a.r + b.r, 0.0);
    }
    let f = |t: f64| core_dist(a, &b.shift(r * t));
    let (mut lo, mut hi) = (0.0f64, 1.0f64);
    for _ in 0..45 {
        let (m1, m2) = (lo + (hi - lo) / 3.0, hi - (hi - lo) / 3.0);
        let (f1, f2) = (f(m1), f(m2));
        // plateau (overlap): keep the left side
        if f1 <= f2 {
            hi = m2;
        } else {
            lo = m1;
        }
    }
    let t = 0.5 * (lo + hi);
    let mut best = (f(t), t);
    for e in [0.0, 1.0] {
        if f(e) < best.0 {
            best = (f(e), e);
        }
    }
    best
}
pub fn first(a: &Core, b: &Core, r: P, level: f64, tmin: f64) -> f64 {
    let (mut lo, mut hi) = (0.0f64, tmin);
    for _ in 0..40 {
        let m = 0.5 * (lo + hi);
        if core_dist(a, &b.shift(r * m)) > level {
            lo = m;
        } else {
            hi = m;
        }
    }
    hi
}

pub fn check() -> Check {
    let th = thorough();
    let sh = solids();
    let ns = sh.len();
    let na = if th { 6usize } else { 3 };
    let npos = if th { 24usize } else { 12 };
    let ndir = if th { 24usize } else { 16 };
    let lens = [0.0f32, 0.05, 1.0, 3.0, 12.0];
    let mut phases = vec![];
    for base in 0..2usize {
        let (s1, s2) = (sh.clone(), sh.clone());
        phases.push(phase(
            &format!("cast{}", base),
            (ns * ns * na * na * npos * 2) as u64,
            move |i| {
                let mut d = Dec::new(i);
                let (a, b, x, y, k, r) = (d.r(&s2).clone(), d.r(&s2).clone(), d.d(na), d.d(na), d.d(npos), d.d(2));
                format!("{:?} fixed, angle index {}; {:?} cast, angle index {}; position {} ring {}; all directions and lengths; base {}", a, x, b, y, k, r, base)
            },
            move |i, c| {
                let mut d = Dec::new(i);
                let (sa, sb, x, y, k, ring) = (d.r(&s1), d.r(&s1), d.d(na), d.d(na), d.d(npos), d.d(2));
                let o = [(0.0f32, 0.0f32), (6.0, -9.0)][base];
                let ang = |n: usize| 0.35 + 2.2 * n as f32;
                let rad = [1.4f32, 2.6][ring];
                let th0 = 6.2831855 * k as f32 / npos as f32 + 0.11;
                let xa = xf(o.0, o.1, if x == 0 { 0.0 } else { ang(x) });
                let xb = xf(o.0 + rad * th0.cos(), o.1 + rad * th0.sin(), if y == 0 { 0.0 } else { ang(y) });
                let mut h = Fnv::new();
                for (ca, cb) in (0..sa.children()).flat_map(|a| (0..sb.children()).map(move |b| (a, b))) {
                    let (pa, pb) = (proxy(sa, ca), proxy(sb, cb));
                    let a = sa.core(ca).at(&X::from(&xa));
                    let b = sb.core(cb).at(&X::from(&xb));
                    let slop = B2_LINEAR_SLOP as f64;
                    let pr = B2_POLYGON_RADIUS as f64;
                    let (ra, rb) = (a.r.max(pr), b.r.max(pr));
                    let sigma = pr.max(ra + rb - pr);
                    let tol = 0.5 * slop;
                    let e = 2e-4;
                    let d0 = core_dist(&a, &b);
                    for dir in 0..ndir {
                        let t = 6.2831855 * dir as f32 / ndir as f32;
                        for len in lens {
                            let r = v(len * t.cos(), len * t.sin());
                            let rr = pv(r);
                            let inp = B2shapeCastInput { proxy_a: pa.clone(), proxy_b: pb.clone(), transform_a: xa, transform_b: xb, translation_b: r };
                            let mut out = B2shapeCastOutput::default();
                            let hit = b2_shape_cast(&mut out, inp);
                            c.step(1);
                            h.b(hit);
                            if hit {
                                ensure!(out.lambda >= 0.0 && out.lambda <= 1.0, "fraction {} out of range", out.lambda);
                                ensure!(pv(out.point).finite() && pv(out.normal).finite(), "non-finite result {:?}", out);
                            }
                            if d0 < sigma + tol + e {
                                continue; // starts in contact: not judged
                            }
                            let (md, mt) = min_dist(&a, &b, rr);
                            let what = || format!("children {} {} translation {:?}", ca, cb, rr);
                            c.eval(1);
                            if md > sigma + tol + e {
                                ensure!(!hit, "{}: hit at {} though the shapes stay {} apart (contact at {})", what(), out.lambda, md, sigma);
                                continue;
                            }
                            if md > sigma - e && !hit {
                                continue; // grazing
                            }
                            ensure!(hit, "{}: no hit though the distance falls to {} (contact at {})", what(), md, sigma);
                            let l = out.lambda as f64;
                            let bl = b.shift(rr * l);
                            let d = core_dist(&a, &bl);
                            ensure!(d > sigma - e && d < sigma + tol + e, "{}: at the reported fraction {} the distance is {}, contact is {}", what(), l, d, sigma);
                            let lo = first(&a, &b, rr, sigma + tol + e, mt);
                            let hi = if md <= sigma - e { first(&a, &b, rr, sigma - e, mt) } else { 1.0 };
                            ensure!(l >= lo - 1e-4 && l <= hi + 1e-4, "{}: fraction {} but contact begins between {} and {}", what(), l, lo, hi);
                            let (n, q) = (pv(out.normal), pv(out.point));
                            ensure!(close(n.len(), 1.0, 1e-4), "{}: normal {:?}", what(), n);
                            let slack = (1.0 - (sigma / (sigma + tol + e)).powi(2)).sqrt() + 0.01;
                            ensure!(n.dot(rr) <= slack * rr.len(), "{}: normal {:?} along the motion", what(), n);
                            ensure!(close(a.pdist(q), ra, tol + 1e-3), "{}: point {:?} is {} from the first core, radius {}", what(), q, a.pdist(q), ra);
                            ensure!(close(bl.pdist(q), d - ra, 1e-3 + slop), "{}: point {:?} is {} from the second core", what(), q, bl.pdist(q));
                            // the direction of closest approach, as precise as the distance tolerance makes it
                            let g = |q: P| core_dist(&a, &bl.shift(q));
                            let u = p(g(p(1e-6, 0.0)) - g(p(-1e-6, 0.0)), g(p(0.0, 1e-6)) - g(p(0.0, -1e-6))) * 5e5;
                            ensure!(n.dot(u) > sigma / (sigma + tol + e) - 0.01, "{}: normal {:?} should be {:?}", what(), n, u);
                        }
                    }
                }
                c.state(h.u(i).done());
                Ok(())
            },
        ));
    }
    Check {
        id: "C12",
        bounds: format!("{}x{} shape pairs (all children) x {}x{} angles x {} positions on 2 rings x {} directions x {} lengths x 2 base placements", ns, ns, na, na, npos, ndir, lens.len()),
        assumptions: vec!["casts that start within contact tolerance are only required to return finite values".into(), "contact means a core distance of the radii minus one polygon skin, within half the linear slop".into()],
        phases,
    }
}
