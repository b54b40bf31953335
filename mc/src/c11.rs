//! C11: distance between shape children against exact f64 geometry, cold and warm caches.
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::kit::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_distance::*;

pub fn solids() -> Vec<Sh> {
    vec![
        Sh::Circle(0.5, 0.0, 0.0),
        Sh::Circle(0.25, 0.25, -0.5),
        Sh::Box(0.5, 0.25),
        Sh::BoxAt(0.75, 0.05, 0.25, 0.0, 0.4),
        Sh::Poly(vec![(-0.5, -0.5), (0.75, -0.25), (0.0, 0.75)]),
        Sh::Poly(vec![(0.0, 0.0), (1.0, 0.0), (1.25, 0.5), (0.5, 1.0), (-0.25, 0.5)]),
        Sh::Poly((0..8).map(|k| {
            let a = k as f32 * std::f32::consts::PI / 4.0 + 0.2;
            (0.6 * a.cos(), 0.4 * a.sin())
        }).collect()),
        Sh::Edge((-0.75, -0.25), (0.5, 0.5)),
        Sh::Chain(vec![(-1.0, 0.0), (0.0, 0.25), (0.5, -0.5)], (-2.0, 0.0), (2.0, 0.0)),
        Sh::Loop(vec![(-0.5, -0.5), (0.75, -0.5), (0.5, 0.75)]),
    ]
}

pub fn proxy(s: &Sh, child: usize) -> B2distanceProxy {
    let mut q = B2distanceProxy::default();
    q.set_shape(s.rc(), child);
    q
}

fn judge(o: &B2distanceOutput, a: &Core, b: &Core, radii: bool, exact: f64, tol: f64, what: &str) -> R {
    let r = if radii { a.r + b.r } else { 0.0 };
    let want = (exact - r).max(0.0);
    let d = o.distance as f64;
    ensure!(close(d, want, tol), "{}: distance {} should be {}", what, d, want);
    let (pa, pb) = (pv(o.point_a), pv(o.point_b));
    ensure!(close((pa - pb).len(), d, tol), "{}: witness points {:?} {:?} are not at the distance {}", what, pa, pb, d);
    let (ea, eb) = (a.pdist(pa), b.pdist(pb));
    if !radii {
        ensure!(ea < tol && eb < tol, "{}: witness points are {} and {} off their shapes", what, ea, eb);
    } else if (exact - r).abs() <= tol {
        // skins just touching: either form of the answer
    } else if want > 0.0 {
        ensure!(close(ea, a.r, tol) && close(eb, b.r, tol), "{}: witness points are {} and {} from the cores, radii {} {}", what, ea, eb, a.r, b.r);
    } else {
        // overlapping skins: both witness points are the middle of the gap between the cores
        ensure!(ea <= exact / 2.0 + tol && eb <= exact / 2.0 + tol, "{}: witness points are {} and {} from the cores {} apart", what, ea, eb, exact);
    }
    Ok(())
}

pub fn check() -> Check {
    let th = thorough();
    let sh = solids();
    let ns = sh.len();
    let na = if th { 12usize } else { 6 };
    let g = if th { 25usize } else { 17 };
    let ang = move |k: usize| if k == 0 { 0.0f32 } else { -2.8 + 5.7 * k as f32 / na as f32 };
    let mut phases = vec![];
    // A placed at one of three placements, B swept over a grid around it. The cache is carried
    // from cell to cell (a history) and compared with a cold query at each cell.
    for rot in 0..2usize {
        let sh1 = sh.clone();
        let sh2 = sh.clone();
        phases.push(phase(
            &format!("grid{}", rot),
            (ns * ns * na * na * g) as u64,
            move |i| {
                let mut d = Dec::new(i);
                let (a, b, x, y, row) = (d.r(&sh2).clone(), d.r(&sh2).clone(), d.d(na), d.d(na), d.d(g));
                format!("{:?} at angle {} and {:?} at angle {}, row {} of the {}-grid, base {}", a, ang(x), b, ang(y), row, g, rot)
            },
            move |i, c| {
                let mut d = Dec::new(i);
                let (sa, sb, x, y, row) = (d.r(&sh1), d.r(&sh1), d.d(na), d.d(na), d.d(g));
                let base = [(0.0f32, 0.0f32), (-9.0, 5.0)][rot];
                let scale = 1.0 + base.0.abs() as f64;
                let tol = 2e-5 * scale + if rot == 0 { 0.0 } else { 1e-5 };
                for ca in 0..sa.children() {
                    for cb in 0..sb.children() {
                        let (pa, pb) = (proxy(sa, ca), proxy(sb, cb));
                        let mut warm = B2simplexCache::default();
                        let (aa, ab) = (ang(x), ang(y));
                        let xa = xf(base.0, base.1, aa);
                        let rxa = X::new(p(base.0 as f64, base.1 as f64), aa as f64);
                        let a = sa.core(ca).at(&rxa);
                        for col in 0..g {
                            let (ox, oy) = (-2.0 + 4.0 * col as f32 / (g - 1) as f32, -2.0 + 4.0 * row as f32 / (g - 1) as f32);
                            let xb = xf(base.0 + ox, base.1 + oy, ab);
                            let rxb = X::new(pv(xb.p), ab as f64);
                            let b = sb.core(cb).at(&rxb);
                            let exact = core_dist(&a, &b);
                            let mut inp = B2distanceInput { proxy_a: pa.clone(), proxy_b: pb.clone(), transform_a: xa, transform_b: xb, use_radii: false };
                            let mut o = B2distanceOutput::default();
                            let mut cold = B2simplexCache::default();
                            b2_distance_fn(&mut o, &mut cold, &inp);
                            judge(&o, &a, &b, false, exact, tol, "cold")?;
                            ensure!((1..=3).contains(&cold.count), "cache holds {} vertices", cold.count);
                            let mut o = B2distanceOutput::default();
                            b2_distance_fn(&mut o, &mut warm, &inp);
                            judge(&o, &a, &b, false, exact, tol, "warm")?;
                            // again with its own answer as cache
                            let mut again = cold;
                            b2_distance_fn(&mut o, &mut again, &inp);
                            judge(&o, &a, &b, false, exact, tol, "repeated")?;
                            inp.use_radii = true;
                            let mut cold = B2simplexCache::default();
                            b2_distance_fn(&mut o, &mut cold, &inp);
                            judge(&o, &a, &b, true, exact, tol, "with radii")?;
                            let ov = b2_test_overlap_shapes(sa.rc(), ca, sb.rc(), cb, xa, xb);
                            if (exact - a.r - b.r).abs() > tol {
                                ensure!(ov == (exact < a.r + b.r), "overlap test says {} at separation {}", ov, exact - a.r - b.r);
                            }
                            std::mem::swap(&mut inp.proxy_a, &mut inp.proxy_b);
                            std::mem::swap(&mut inp.transform_a, &mut inp.transform_b);
                            let mut cold = B2simplexCache::default();
                            b2_distance_fn(&mut o, &mut cold, &inp);
                            judge(&o, &b, &a, true, exact, tol, "swapped")?;
                            c.eval(6);
                            c.step(6);
                            c.state(Fnv::new().u(warm.count as u64).u(warm.index_a[0] as u64).u(warm.index_a[1] as u64).u(warm.index_b[0] as u64).u(warm.index_b[1] as u64).u(i % (ns * ns) as u64).u(ca as u64).u(cb as u64).done());
                        }
                    }
                }
                Ok(())
            },
        ));
    }
    // every cache content the library itself could have written, for a set of placements
    {
        let sh1 = sh.clone();
        let sh2 = sh.clone();
        let k = if th { 40usize } else { 20 };
        phases.push(phase(
            "cache",
            (ns * ns * k * k) as u64,
            move |i| {
                let mut d = Dec::new(i);
                let (a, b, x, y) = (d.r(&sh2).clone(), d.r(&sh2).clone(), d.d(k), d.d(k));
                format!("{:?} {:?}: cache of placement {} reused at placement {}", a, b, x, y)
            },
            move |i, c| {
                let mut d = Dec::new(i);
                let (sa, sb, x, y) = (d.r(&sh1), d.r(&sh1), d.d(k), d.d(k));
                let place = |n: usize| {
                    let n = n as f32;
                    xf(1.6 * (n * 2.4).cos() * (0.3 + n / k as f32), 1.6 * (n * 2.4).sin() * (0.3 + n / k as f32), n * 0.7)
                };
                let xa = xf(0.0, 0.0, 0.3);
                let mut inp = B2distanceInput { proxy_a: proxy(sa, 0), proxy_b: proxy(sb, 0), transform_a: xa, transform_b: place(x), use_radii: false };
                let mut cache = B2simplexCache::default();
                let mut o = B2distanceOutput::default();
                b2_distance_fn(&mut o, &mut cache, &inp);
                inp.transform_b = place(y);
                b2_distance_fn(&mut o, &mut cache, &inp);
                let a = sa.core(0).at(&X::from(&xa));
                let b = sb.core(0).at(&X::from(&inp.transform_b));
                judge(&o, &a, &b, false, core_dist(&a, &b), 4e-5, "stale cache")?;
                // vertex-cloud proxies give the same answer
                let mut q = B2distanceProxy::default();
                q.set_vertices(&sa.core(0).v.iter().map(|w| vp(*w)).collect::<Vec<_>>(), sa.core(0).r as f32);
                inp.proxy_a = q;
                let mut cold = B2simplexCache::default();
                b2_distance_fn(&mut o, &mut cold, &inp);
                judge(&o, &a, &b, false, core_dist(&a, &b), 4e-5, "vertex cloud")?;
                inp.use_radii = true;
                let mut cold = B2simplexCache::default();
                b2_distance_fn(&mut o, &mut cold, &inp);
                judge(&o, &a, &b, true, core_dist(&a, &b), 4e-5, "vertex cloud with radii")?;
                c.eval(3);
                c.step(4);
                c.state(Fnv::new().u(i).done());
                Ok(())
            },
        ));
    }
    // what a proxy holds and its support in every direction
    {
        let sh = sh.clone();
        phases.push(phase(
            "support",
            (sh.len() * 4 * 64) as u64,
            |i| format!("shape, child and direction {}", i),
            move |i, c| {
                let mut d = Dec::new(i);
                let (s, ch, dir) = (d.r(&sh), d.d(4), d.d(64) as f64 * 0.1 + 0.03);
                if ch >= s.children() {
                    return Ok(());
                }
                let core = s.core(ch);
                let q = proxy(s, ch);
                let n = q.get_vertex_count();
                ensure!(n == core.v.len(), "{} vertices of {}", n, core.v.len());
                ensure!((q.m_radius as f64 - core.r).abs() < 1e-7, "radius {} should be {}", q.m_radius, core.r);
                let vs: Vec<P> = (0..n).map(|k| pv(q.get_vertex(k))).collect();
                ensure!(core.v.iter().all(|a| vs.iter().any(|b| (*a - *b).len() < 1e-6)), "vertices {:?} should be {:?}", vs, core.v);
                let u = p(dir.cos(), dir.sin());
                let best = vs.iter().map(|a| a.dot(u)).fold(f64::MIN, f64::max);
                let k = q.get_support(vp(u));
                ensure!(k < n && vs[k].dot(u) > best - 1e-6, "support {} at {:?} is not the furthest along {:?}", k, vs.get(k), u);
                ensure!((pv(q.get_support_vertex(vp(u))) - vs[k]).len() == 0.0, "support vertex {:?} is not vertex {}", q.get_support_vertex(vp(u)), k);
                c.step(3);
                c.eval(4);
                c.state(i);
                Ok(())
            },
        ));
    }
    Check {
        id: "C11",
        bounds: format!("{}x{} shape pairs (all children) x {}x{} angles x {}x{} offsets x 2 base placements, each cold, with carried cache, with its own cache, with radii and swapped; all cache reuses between placements; support of every proxy in 64 directions", ns, ns, na, na, g, g),
        assumptions: vec!["coordinates up to 12 units; answers judged to 2e-5 per unit of coordinate".into()],
        phases,
    }
}
