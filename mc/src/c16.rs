//! C16: math primitives against their definitions in f64, on grids of operands.
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::kit::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_math::*;

const VAL: [f32; 9] = [0.0, 1.0, -1.0, 0.5, -2.5, 3.75, -0.001, 40.0, -600.0];

fn near(a: f32, b: f64, scale: f64, what: &str) -> R {
    ensure!((a as f64 - b).abs() <= 4e-6 * scale.max(1e-3), "{} is {}, should be {}", what, a, b);
    Ok(())
}
fn nearv(a: B2vec2, b: P, scale: f64, what: &str) -> R {
    ensure!((pv(a) - b).len() <= 6e-6 * scale.max(1e-3), "{} is {:?}, should be {:?}", what, a, b);
    Ok(())
}

pub fn check() -> Check {
    let th = thorough();
    let mut phases = vec![];
    // pairs of vectors and a scalar
    phases.push(phase(
        "vectors",
        9u64.pow(5),
        |i| format!("operands {}", i),
        |i, c| {
            let mut d = Dec::new(i);
            let (a, b, s) = (v(d.p(&VAL), d.p(&VAL)), v(d.p(&VAL), d.p(&VAL)), d.p(&VAL));
            let (pa, pb, fs) = (pv(a), pv(b), s as f64);
            let (la, lb) = (pa.len(), pb.len());
            near(b2_dot(a, b), pa.dot(pb), la * lb, "dot")?;
            near(b2_cross(a, b), pa.cross(pb), la * lb, "cross")?;
            nearv(b2_cross_vec_by_scalar(a, s), p(fs * pa.y, -fs * pa.x), la * fs.abs(), "cross vec scalar")?;
            nearv(b2_cross_scalar_by_vec(s, a), p(-fs * pa.y, fs * pa.x), la * fs.abs(), "cross scalar vec")?;
            nearv(a + b, pa + pb, la + lb, "sum")?;
            nearv(a - b, pa - pb, la + lb, "difference")?;
            nearv(s * a, pa * fs, la * fs.abs(), "product")?;
            nearv(-a, -pa, la, "negation")?;
            let mut t = a;
            t += b;
            nearv(t, pa + pb, la + lb, "+=")?;
            t = a;
            t -= b;
            nearv(t, pa - pb, la + lb, "-=")?;
            t = a;
            t *= s;
            nearv(t, pa * fs, la * fs.abs(), "*=")?;
            near(a.length(), la, la, "length")?;
            near(a.length_squared(), la * la, la * la, "squared length")?;
            near(b2_distance_vec2(a, b), (pa - pb).len(), la + lb, "distance")?;
            near(b2_distance_vec2_squared(a, b), (pa - pb).dot(pa - pb), (la + lb) * (la + lb), "squared distance")?;
            near(b2_dot(a.skew(), b), pa.cross(pb), la * lb, "skew dot")?;
            t = a;
            let l = t.normalize();
            if la > 1e-6 {
                near(l, la, la, "length returned by normalize")?;
                nearv(t, pa.unit(), 1.0, "normalized")?;
            } else {
                ensure!(l == 0.0 && t == a, "normalizing a zero vector gave {} {:?}", l, t);
            }
            // componentwise definitions
            for k in 0..2 {
                let (x, y) = (a.get(k), b.get(k));
                ensure!(x == if k == 0 { a.x } else { a.y }, "component {} of {:?} is {}", k, a, x);
                ensure!(b2_min_vec2(a, b).get(k) == x.min(y), "min of {} {} is {}", x, y, b2_min_vec2(a, b).get(k));
                ensure!(b2_max_vec2(a, b).get(k) == x.max(y), "max of {} {} is {}", x, y, b2_max_vec2(a, b).get(k));
                ensure!(b2_abs_vec2(a).get(k) == x.abs(), "abs of {} is {}", x, b2_abs_vec2(a).get(k));
                ensure!(b2_min(x, y) == x.min(y) && b2_max(x, y) == x.max(y) && b2_abs(x) == x.abs(), "scalar min, max or abs of {} {}", x, y);
                let mut q = a;
                q.set_by_index(k, s);
                ensure!(q.get(k) == s && q.get(1 - k) == a.get(1 - k), "set_by_index {} gave {:?}", k, q);
            }
            ensure!(is_equal(a, b) == (a.x == b.x && a.y == b.y) && not_equal(a, b) == !is_equal(a, b), "equality of {:?} {:?}", a, b);
            let (lo, hi) = (b2_min_vec2(a, b), b2_max_vec2(a, b));
            for w in VAL {
                let q = v(w, s);
                let r = b2_clamp_vec2(q, lo, hi);
                ensure!(r.x == w.max(lo.x).min(hi.x) && r.y == s.max(lo.y).min(hi.y), "{:?} clamped to {:?}..{:?} is {:?}", q, lo, hi, r);
                ensure!(b2_clamp(w, lo.x, hi.x) == w.max(lo.x).min(hi.x), "{} clamped to {}..{}", w, lo.x, hi.x);
            }
            let (mut m, mut n) = (a, b);
            b2_swap(&mut m, &mut n);
            ensure!(m == b && n == a, "swap");
            let mut z = a;
            z.set(s, a.x);
            ensure!(z.x == s && z.y == a.x, "set");
            z.set_zero();
            ensure!(z == B2vec2::zero() && z.x == 0.0 && z.y == 0.0, "set_zero");
            ensure!(a.is_valid() && !v(f32::NAN, s).is_valid() && !v(s, f32::INFINITY).is_valid(), "is_valid");
            c.step(30);
            c.eval(60);
            c.state(i);
            Ok(())
        },
    ));
    // three-vectors
    {
        let w = [0.0f32, 1.0, -2.0, 0.5, 30.0];
        phases.push(phase(
            "vec3",
            5u64.pow(6),
            |i| format!("operands {}", i),
            move |i, c| {
                let mut d = Dec::new(i);
                let g = |d: &mut Dec| [d.p(&w), d.p(&w), d.p(&w)];
                let (x, y) = (g(&mut d), g(&mut d));
                let (a, b) = (B2Vec3::new(x[0], x[1], x[2]), B2Vec3::new(y[0], y[1], y[2]));
                let dot: f64 = (0..3).map(|k| x[k] as f64 * y[k] as f64).sum();
                near(b2_dot_vec3(a, b), dot, 3000.0, "dot3")?;
                let cr = b2_cross_vec3(a, b);
                let want = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]];
                let e3 = |q: B2Vec3, r: [f32; 3], what: &str| -> R {
                    ensure!((q.x - r[0]).abs() < 1e-3 && (q.y - r[1]).abs() < 1e-3 && (q.z - r[2]).abs() < 1e-3, "{} is {:?}, should be {:?}", what, q, r);
                    Ok(())
                };
                e3(cr, want, "cross3")?;
                e3(a + b, [x[0] + y[0], x[1] + y[1], x[2] + y[2]], "sum3")?;
                e3(a - b, [x[0] - y[0], x[1] - y[1], x[2] - y[2]], "difference3")?;
                e3(y[0] * a, [x[0] * y[0], x[1] * y[0], x[2] * y[0]], "product3")?;
                e3(-a, [-x[0], -x[1], -x[2]], "negation3")?;
                let mut t = a;
                t += b;
                e3(t, [x[0] + y[0], x[1] + y[1], x[2] + y[2]], "+=3")?;
                t = a;
                t -= b;
                e3(t, [x[0] - y[0], x[1] - y[1], x[2] - y[2]], "-=3")?;
                t = a;
                t *= y[2];
                e3(t, [x[0] * y[2], x[1] * y[2], x[2] * y[2]], "*=3")?;
                c.step(9);
                c.eval(9);
                c.state(i);
                Ok(())
            },
        ));
    }
    // rotations and transforms
    {
        let n = if th { 48usize } else { 24 };
        let pos = [(0.0f32, 0.0f32), (1.5, -2.0), (-30.0, 7.0)];
        let pts = [(0.0f32, 0.0f32), (1.0, 0.0), (-0.5, 2.0), (12.0, -9.0)];
        phases.push(phase(
            "transforms",
            (n * n * 9 * 4) as u64,
            |i| format!("transforms {}", i),
            move |i, c| {
                let mut d = Dec::new(i);
                let ang = |k: usize| (k as f64 * 4.0 * PI / n as f64 - 2.0 * PI + if k % 2 == 1 { 0.01 } else { 0.0 }) as f32;
                let (ka, kb) = (ang(d.d(n)), ang(d.d(n)));
                let (p1, p2, q) = (d.p(&pos), d.p(&pos), d.p(&pts));
                let (ta, tb) = (xf(p1.0, p1.1, ka), xf(p2.0, p2.1, kb));
                let (xa, xb) = (X::new(p(p1.0 as f64, p1.1 as f64), ka as f64), X::new(p(p2.0 as f64, p2.1 as f64), kb as f64));
                let w = v(q.0, q.1);
                let pw = pv(w);
                let sc = 50.0;
                nearv(b2_mul_rot_by_vec2(ta.q, w), xa.rot(pw), sc, "rotate")?;
                nearv(b2_mul_t_rot_by_vec2(ta.q, w), xa.irot(pw), sc, "inverse rotate")?;
                nearv(b2_mul_transform_by_vec2(ta, w), xa.at(pw), sc, "transform")?;
                nearv(b2_mul_t_transform_by_vec2(ta, w), xa.inv(pw), sc, "inverse transform")?;
                nearv(b2_mul_transform_by_vec2(b2_mul_transform(ta, tb), w), xa.at(xb.at(pw)), sc, "composed transform")?;
                nearv(b2_mul_transform_by_vec2(b2_mul_t_transform(ta, tb), w), xa.inv(xb.at(pw)), sc, "relative transform")?;
                nearv(b2_mul_rot_by_vec2(b2_mul_rot(ta.q, tb.q), w), xa.rot(xb.rot(pw)), sc, "composed rotation")?;
                nearv(b2_mul_rot_by_vec2(b2_mul_t_rot(ta.q, tb.q), w), xa.irot(xb.rot(pw)), sc, "relative rotation")?;
                nearv(ta.q.get_xaxis(), xa.rot(p(1.0, 0.0)), 1.0, "x axis")?;
                nearv(ta.q.get_yaxis(), xa.rot(p(0.0, 1.0)), 1.0, "y axis")?;
                let back = ta.q.get_angle() as f64 - ka as f64;
                ensure!((back / (2.0 * PI) - (back / (2.0 * PI)).round()).abs() < 1e-6, "angle of rotation {} is {}", ka, ta.q.get_angle());
                let mut t = B2Transform::default();
                t.set(v(p2.0, p2.1), ka);
                ensure!(t.p == tb.p && t.q.s == ta.q.s && t.q.c == ta.q.c, "set transform");
                ensure!(b2_atan2(w.y, w.x) == w.y.atan2(w.x), "atan2");
                let nt = B2Transform::new(tb.p, ta.q);
                ensure!(nt.p == tb.p && nt.q.s == ta.q.s && nt.q.c == ta.q.c, "new transform");
                t.set_identity();
                ensure!(b2_mul_transform_by_vec2(t, w) == w, "identity");
                t.q.set(kb);
                ensure!(t.q.s == tb.q.s && t.q.c == tb.q.c, "set rotation");
                t.q.set_identity();
                ensure!(t.q.s == 0.0 && t.q.c == 1.0, "identity rotation");
                c.step(18);
                c.eval(18);
                c.state(i);
                Ok(())
            },
        ));
    }
    // 2x2 matrices
    {
        let w = [0.0f32, 1.0, -1.0, 0.5, 3.0, -8.0, 0.02];
        phases.push(phase(
            "mat22",
            7u64.pow(6),
            |i| format!("operands {}", i),
            move |i, c| {
                let mut d = Dec::new(i);
                let (a11, a12, a21, a22) = (d.p(&w), d.p(&w), d.p(&w), d.p(&w));
                let b = v(d.p(&w), d.p(&w));
                let mut m = B2Mat22::new_scalars(a11, a12, a21, a22);
                let (f11, f12, f21, f22) = (a11 as f64, a12 as f64, a21 as f64, a22 as f64);
                ensure!(m.ex == v(a11, a21) && m.ey == v(a12, a22), "matrix {:?}", m);
                let det = f11 * f22 - f12 * f21;
                let pb = pv(b);
                nearv(b2_mul(m, b), p(f11 * pb.x + f12 * pb.y, f21 * pb.x + f22 * pb.y), 100.0, "product")?;
                nearv(b2_mul_t(m, b), p(f11 * pb.x + f21 * pb.y, f12 * pb.x + f22 * pb.y), 100.0, "transposed product")?;
                let mut t3 = B2Mat33::zero();
                t3.ex = B2Vec3::new(a11, a21, 5.0);
                t3.ey = B2Vec3::new(a12, a22, -3.0);
                t3.ez = B2Vec3::new(7.0, 2.0, 1.0);
                nearv(b2_mul22(t3, b), p(f11 * pb.x + f12 * pb.y, f21 * pb.x + f22 * pb.y), 100.0, "upper product")?;
                let x = p((f22 * pb.x - f12 * pb.y) / det, (f11 * pb.y - f21 * pb.x) / det);
                let (s1, s2) = (m.solve(b), t3.solve22(b));
                let inv = m.get_inverse();
                let mut i3 = B2Mat33::new(B2Vec3::new(1.0, 2.0, 3.0), B2Vec3::new(4.0, 5.0, 6.0), B2Vec3::new(7.0, 8.0, 9.0));
                t3.get_inverse22(&mut i3);
                let zero3 = i3.ex.z == 0.0 && i3.ey.z == 0.0 && i3.ez.x == 0.0 && i3.ez.y == 0.0 && i3.ez.z == 0.0;
                ensure!(zero3, "third row or column of the 2x2 inverse is not zero: {:?}", i3);
                if det.abs() > 1e-3 {
                    let sc = x.len() * 100.0 / det.abs().min(1.0);
                    nearv(s1, x, sc, "2x2 solution")?;
                    nearv(s2, x, sc, "upper 2x2 solution")?;
                    nearv(b2_mul(inv, b), x, sc, "inverse times vector")?;
                    nearv(b2_mul22(i3, b), x, sc, "upper inverse times vector")?;
                } else if det == 0.0 && (a11 * a22 - a12 * a21) == 0.0 {
                    ensure!(s1 == v(0.0, 0.0) && s2 == v(0.0, 0.0), "solution of a singular system is {:?} {:?}", s1, s2);
                    ensure!(pv(inv.ex).len() == 0.0 && pv(inv.ey).len() == 0.0, "inverse of a singular matrix is {:?}", inv);
                }
                // matrix products, columns b and (1,-2)
                let n = B2Mat22::new(b, v(1.0, -2.0));
                let (pr, pt) = (b2_mul_mat22(m, n), b2_mul_t_mat22(m, n));
                nearv(pr.ex, pv(b2_mul(m, b)), 100.0, "matrix product")?;
                nearv(pr.ey, pv(b2_mul(m, v(1.0, -2.0))), 100.0, "matrix product")?;
                nearv(pt.ex, pv(b2_mul_t(m, b)), 100.0, "transposed matrix product")?;
                nearv(pt.ey, pv(b2_mul_t(m, v(1.0, -2.0))), 100.0, "transposed matrix product")?;
                let sm = m + n;
                ensure!(sm.ex == m.ex + n.ex && sm.ey == m.ey + n.ey, "matrix sum");
                let ab = b2_abs_mat22(m);
                ensure!(ab.ex == b2_abs_vec2(m.ex) && ab.ey == b2_abs_vec2(m.ey), "matrix abs");
                let mut q = n;
                q.set(b, m.ex);
                ensure!(q.ex == b && q.ey == m.ex, "matrix set");
                q.set_identity();
                ensure!(b2_mul(q, b) == b, "identity matrix");
                q.set_zero();
                ensure!(pv(b2_mul(q, b)).len() == 0.0, "zero matrix");
                c.step(16);
                c.eval(16);
                c.state(i);
                Ok(())
            },
        ));
    }
    // 3x3 matrices
    {
        let w = [0.0f32, 1.0, -2.0, 0.5, 6.0];
        phases.push(phase(
            "mat33",
            5u64.pow(6) * 8,
            |i| format!("operands {}", i),
            move |i, c| {
                let mut d = Dec::new(i);
                let s: Vec<f32> = (0..6).map(|_| d.p(&w)).collect();
                let b = [(1.0f32, 0.0f32, 0.0f32), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (2.0, -3.0, 0.5)][d.d(4)];
                let sym = d.b();
                // symmetric, or with the lower half changed
                let o = if sym { 0.0 } else { 1.5 };
                let a = [[s[0], s[1], s[2]], [s[1] + o, s[3], s[4]], [s[2] - o, s[4] + 2.0 * o, s[5]]];
                let col = |k: usize| B2Vec3::new(a[0][k], a[1][k], a[2][k]);
                let m = B2Mat33::new(col(0), col(1), col(2));
                let f = |r: usize, k: usize| a[r][k] as f64;
                let det = f(0, 0) * (f(1, 1) * f(2, 2) - f(1, 2) * f(2, 1)) - f(0, 1) * (f(1, 0) * f(2, 2) - f(1, 2) * f(2, 0)) + f(0, 2) * (f(1, 0) * f(2, 1) - f(1, 1) * f(2, 0));
                let vb = B2Vec3::new(b.0, b.1, b.2);
                let pr = b2_mul_mat33(m, vb);
                for (r, got) in [pr.x, pr.y, pr.z].iter().enumerate() {
                    near(*got, f(r, 0) * b.0 as f64 + f(r, 1) * b.1 as f64 + f(r, 2) * b.2 as f64, 100.0, "3x3 product")?;
                }
                let x = m.solve33(vb);
                if det.abs() > 1e-3 {
                    let sc = 1e4 / det.abs().min(1.0);
                    for r in 0..3 {
                        let back = f(r, 0) * x.x as f64 + f(r, 1) * x.y as f64 + f(r, 2) * x.z as f64;
                        near(back as f32, [b.0, b.1, b.2][r] as f64, sc, "3x3 solution times matrix")?;
                    }
                } else if det == 0.0 {
                    ensure!(x.x == 0.0 && x.y == 0.0 && x.z == 0.0, "solution of a singular 3x3 system is {:?}", x);
                }
                if sym {
                    let mut inv = B2Mat33::new(vb, vb, vb);
                    m.get_sym_inverse33(&mut inv);
                    if det.abs() > 1e-3 {
                        let sc = 1e4 / det.abs().min(1.0);
                        for (k, cc) in [inv.ex, inv.ey, inv.ez].iter().enumerate() {
                            for r in 0..3 {
                                let back = f(r, 0) * cc.x as f64 + f(r, 1) * cc.y as f64 + f(r, 2) * cc.z as f64;
                                near(back as f32, if r == k { 1.0 } else { 0.0 }, sc, "symmetric inverse times matrix")?;
                            }
                        }
                    } else if det == 0.0 {
                        for cc in [inv.ex, inv.ey, inv.ez] {
                            ensure!(cc.x == 0.0 && cc.y == 0.0 && cc.z == 0.0, "inverse of a singular 3x3 matrix is {:?}", inv);
                        }
                    }
                }
                c.step(3);
                c.eval(7);
                c.state(i);
                Ok(())
            },
        ));
    }
    // integers
    phases.push(phase(
        "integers",
        1 << (if th { 24 } else { 20 }),
        |i| format!("integer {}", i),
        |i, c| {
            let base = i as u32;
            for x in [base, base << 7, (base << 11) | 1, 0x8000_0000u32.wrapping_sub(base)] {
                ensure!(b2_is_power_of_two(x) == (x.count_ones() == 1), "is_power_of_two({})", x);
                if x < 0x8000_0000 {
                    let n = b2_next_power_of_two(x) as u64;
                    ensure!(n.count_ones() == 1 && n > x as u64 && (n / 2 <= x as u64 || n == 1), "next_power_of_two({}) is {}", x, n);
                }
            }
            ensure!(b2_abs_i32(base as i32) == base as i32 && b2_abs_i32(-(base as i32)) == base as i32, "abs of {}", base);
            c.step(10);
            c.eval(10);
            Ok(())
        },
    ));
    // sweeps
    {
        let n = if th { 9usize } else { 5 };
        let lc = [(0.0f32, 0.0f32), (1.0, -0.5), (-3.0, 2.0)];
        let cs = [(0.0f32, 0.0f32), (2.0, 1.0), (-25.0, 4.0)];
        let angs = [0.0f32, 0.8, -2.0, 3.3, 9.0, -7.5, 40.0];
        phases.push(phase(
            "sweeps",
            (3 * 3 * 3 * 7 * 7 * n * n * 3) as u64,
            |i| format!("sweep {}", i),
            move |i, c| {
                let mut d = Dec::new(i);
                let (l, c0, c1, a0, a1) = (d.p(&lc), d.p(&cs), d.p(&cs), d.p(&angs), d.p(&angs));
                let (kb, ka) = (d.d(n), d.d(n));
                let al0 = [0.0f32, 0.25, 0.75][d.d(3)];
                let s = B2Sweep { local_center: v(l.0, l.1), c0: v(c0.0, c0.1), c: v(c1.0, c1.1), a0, a: a1, alpha0: al0 };
                let q = |w: (f32, f32)| p(w.0 as f64, w.1 as f64);
                // exact state at beta of the interval from alpha0 to 1
                let at = |beta: f64| {
                    let cc = q(c0) * (1.0 - beta) + q(c1) * beta;
                    let a = a0 as f64 * (1.0 - beta) + a1 as f64 * beta;
                    let x = X::new(p(0.0, 0.0), a);
                    (cc - x.rot(q(l)), a)
                };
                let beta = kb as f32 / (n - 1) as f32;
                let tol = 3e-5 + 1e-6 * (a0.abs() + a1.abs()) as f64 * 4.0;
                let mut t = B2Transform::default();
                s.get_transform(&mut t, beta);
                let (o, a) = at(beta as f64);
                ensure!((pv(t.p) - o).len() < tol * 3.0 && ((t.q.s as f64) - a.sin()).abs() < tol && ((t.q.c as f64) - a.cos()).abs() < tol, "transform at {} is {:?}, should be {:?} angle {}", beta, t, o, a);
                // advance to alpha and interpolate the rest
                let alpha = al0 + (1.0 - al0) * (ka as f32 / n as f32);
                let mut s2 = s;
                s2.advance(alpha);
                ensure!(s2.alpha0 == alpha && s2.c == s.c && s2.a == s.a && s2.local_center == s.local_center, "advance changed the end state");
                let b0 = (alpha - al0) as f64 / (1.0 - al0) as f64;
                s2.get_transform(&mut t, beta);
                let (o, a) = at(b0 + (1.0 - b0) * beta as f64);
                ensure!((pv(t.p) - o).len() < tol * 3.0 && ((t.q.s as f64) - a.sin()).abs() < tol && ((t.q.c as f64) - a.cos()).abs() < tol, "after advancing to {} the transform at {} is {:?}, should be {:?} angle {}", alpha, beta, t, o, a);
                // normalize
                let mut s3 = s;
                s3.normalize();
                ensure!(s3.c0 == s.c0 && s3.c == s.c && s3.alpha0 == s.alpha0 && s3.local_center == s.local_center, "normalize changed the positions");
                let turns = (s.a0 - s3.a0) as f64 / (2.0 * PI);
                ensure!((turns - turns.round()).abs() < 1e-5 && ((s.a - s.a0) - (s3.a - s3.a0)).abs() < 1e-4, "normalize turned {} {} into {} {}", s.a0, s.a, s3.a0, s3.a);
                ensure!(s3.a0 >= -1e-4 && s3.a0 < 2.0 * std::f32::consts::PI + 1e-4, "normalized start angle {}", s3.a0);
                c.step(5);
                c.eval(5);
                c.state(i);
                Ok(())
            },
        ));
    }
    // boxes
    {
        let ends: [(f32, f32); 8] = [(0.0, 1.0), (0.0, 0.0), (1.0, 2.0), (-3.0, 2.0), (0.25, 0.75), (-1.0, 0.0), (2.0, 2.0), (-3.0, -2.0)];
        phases.push(phase(
            "boxes",
            8 * 8 * 8 * 8,
            |i| format!("boxes {}", i),
            move |i, c| {
                let mut d = Dec::new(i);
                let (ax, ay, bx, by) = (d.p(&ends), d.p(&ends), d.p(&ends), d.p(&ends));
                let bx_of = |x: (f32, f32), y: (f32, f32)| B2AABB { lower_bound: v(x.0, y.0), upper_bound: v(x.1, y.1) };
                let (a, b) = (bx_of(ax, ay), bx_of(bx, by));
                let meet = |x: (f32, f32), y: (f32, f32)| x.0 <= y.1 && y.0 <= x.1;
                let within = |x: (f32, f32), y: (f32, f32)| x.0 <= y.0 && y.1 <= x.1;
                ensure!(b2_test_overlap(a, b) == (meet(ax, bx) && meet(ay, by)), "overlap of {:?} and {:?} is {}", a, b, b2_test_overlap(a, b));
                ensure!(a.contains(&b) == (within(ax, bx) && within(ay, by)), "{:?} contains {:?} is {}", a, b, a.contains(&b));
                let hull = bx_of((ax.0.min(bx.0), ax.1.max(bx.1)), (ay.0.min(by.0), ay.1.max(by.1)));
                let (mut u, mut w) = (a, B2AABB::default());
                u.combine(b);
                w.combine_two(a, b);
                for q in [u, w] {
                    ensure!(q.lower_bound == hull.lower_bound && q.upper_bound == hull.upper_bound, "{:?} and {:?} combine to {:?}", a, b, q);
                }
                let (m, e) = (a.get_center(), a.get_extents());
                ensure!(m == v(0.5 * (ax.0 + ax.1), 0.5 * (ay.0 + ay.1)) && e == v(0.5 * (ax.1 - ax.0), 0.5 * (ay.1 - ay.0)), "centre {:?} and extents {:?} of {:?}", m, e, a);
                ensure!(a.get_perimeter() == 2.0 * (ax.1 - ax.0) + 2.0 * (ay.1 - ay.0), "perimeter {} of {:?}", a.get_perimeter(), a);
                // any corner swapped or not a number makes it invalid
                ensure!(a.is_valid(), "{:?} called invalid", a);
                for k in 0..4 {
                    for bad in [f32::NAN, f32::INFINITY, f32::NEG_INFINITY] {
                        let mut q = a;
                        *[&mut q.lower_bound.x, &mut q.lower_bound.y, &mut q.upper_bound.x, &mut q.upper_bound.y][k] = bad;
                        ensure!(!q.is_valid(), "{:?} called valid", q);
                    }
                }
                for (x, y) in [((ax.1, ax.0), ay), (ax, (ay.1, ay.0))] {
                    let q = bx_of(x, y);
                    ensure!(q.is_valid() == (x.0 <= x.1 && y.0 <= y.1), "{:?} valid is {}", q, q.is_valid());
                }
                c.step(20);
                c.eval(20);
                c.state(i);
                Ok(())
            },
        ));
    }
    Check {
        id: "C16",
        bounds: "all operand combinations over 9 values per component (vectors), 5 (three-vectors, 3x3 matrices, symmetric and not), 7 (2x2 matrices); 24 (thorough 48) angles squared times positions and points for transforms; 4 families of 2^20 (2^24) integers; sweeps over 3 centres, 9 displacements, 49 angle pairs, 3 start times, 5 (9) by 5 (9) interpolation and advance times; every pair of boxes over 8 intervals per axis".into(),
        assumptions: vec!["relative rounding error 6e-6 allowed; next_power_of_two judged below 2^31".into()],
        phases,
    }
}
