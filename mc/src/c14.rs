//! C14: contact manifolds of every shape pair against exact f64 geometry.
use crate::c11::solids;
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::kit::*;
use box2d_rs::b2_collision::*;
use box2d_rs::b2_math::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    CC,
    PC,
    PP,
    EC,
    EP,
}

/// Kind of the pair when `a` comes first, None when the library orders it the other way or has no such pair.
pub fn kind(a: &Sh, b: &Sh) -> Option<K> {
    let seg = |s: &Sh| s.is_edge() || s.is_chain();
    let circ = |s: &Sh| matches!(s, Sh::Circle(..));
    match (circ(a), a.is_poly(), seg(a), circ(b), b.is_poly()) {
        (true, _, _, true, _) => Some(K::CC),
        (_, true, _, true, _) => Some(K::PC),
        (_, true, _, _, true) => Some(K::PP),
        (_, _, true, true, _) => Some(K::EC),
        (_, _, true, _, true) => Some(K::EP),
        _ => None,
    }
}

/// Neighbours of a one-sided segment, None for two-sided edges and solids.
pub fn ghosts(s: &Sh, child: usize) -> Option<(P, P)> {
    let q = |a: &(f32, f32)| p(a.0 as f64, a.1 as f64);
    match s {
        Sh::EdgeOne(e) => Some((q(&e[0]), q(&e[3]))),
        Sh::Chain(c, a, b) => {
            let prev = if child == 0 { q(a) } else { q(&c[child - 1]) };
            let next = if child + 2 < c.len() { q(&c[child + 2]) } else { q(b) };
            Some((prev, next))
        }
        Sh::Loop(c) => {
            let n = c.len();
            Some((q(&c[(child + n - 1) % n]), q(&c[(child + 2) % n])))
        }
        _ => None,
    }
}

fn sep_along(a: &Core, b: &Core, n: P) -> f64 {
    let lo = b.v.iter().map(|q| q.dot(n)).fold(f64::MAX, f64::min);
    let hi = a.v.iter().map(|q| q.dot(n)).fold(f64::MIN, f64::max);
    lo - hi
}
fn normals(c: &Core) -> Vec<P> {
    let n = c.v.len();
    match n {
        1 => vec![],
        2 => {
            let r = (c.v[1] - c.v[0]).right().unit();
            vec![r, -r]
        }
        _ => (0..n).map(|i| (c.v[(i + 1) % n] - c.v[i]).right().unit()).collect(),
    }
}

/// What the library is asked: everything in the world frame.
pub struct Ask<'a> {
    pub k: K,
    pub a: &'a Core,
    pub b: &'a Core,
    /// neighbours of a one-sided first segment, in the world frame
    pub ghost: Option<(P, P)>,
    /// vertices of the library's polygons in the world frame, by index
    pub va: Vec<P>,
    pub vb: Vec<P>,
    pub tol: f64,
}

pub fn judge(q: &Ask, m: &B2manifold, wm: &B2worldManifold) -> R {
    let (a, b, tol) = (q.a, q.b, q.tol);
    let rt = a.r + b.r;
    let d = core_sep(a, b).0;
    let n_pts = m.point_count;
    let round = matches!(q.k, K::CC | K::PC | K::EC);
    // best separating face direction, from a to b
    let sa = normals(a).into_iter().map(|n| (sep_along(a, b, n), n)).fold((f64::MIN, p(1.0, 0.0)), |x, y| if y.0 > x.0 { y } else { x });
    let sb = normals(b).into_iter().map(|n| (sep_along(a, b, -n), -n)).fold((f64::MIN, p(1.0, 0.0)), |x, y| if y.0 > x.0 { y } else { x });
    let sat = sa.0.max(sb.0);
    ensure!(n_pts <= 2, "{} points", n_pts);

    // emptiness
    if round {
        if d > rt + tol {
            ensure!(n_pts == 0, "{} points although the shapes are {} apart (skins {})", n_pts, d, rt);
        }
    } else if sat > rt + tol {
        ensure!(n_pts == 0, "{} points although the shapes are separated by {} (skins {})", n_pts, sat, rt);
    }
    let mut must = d < rt - tol;
    match q.k {
        K::EC => {
            if let Some((g0, g3)) = q.ghost {
                let (v1, v2, c) = (a.v[0], a.v[1], b.v[0]);
                let e = v2 - v1;
                let off = e.right().unit().dot(c - v1);
                if off < -tol {
                    ensure!(n_pts == 0, "one-sided edge has a contact behind it (circle centre {} behind)", off);
                }
                must &= off > tol;
                let (along, beyond) = ((c - v1).dot(e.unit()), (c - v2).dot(e.unit()));
                if along < -tol {
                    // beyond the first vertex: the previous edge takes it while over that edge
                    let u = (v1 - g0).unit().dot(v1 - c);
                    if u > tol {
                        ensure!(n_pts == 0, "circle over the previous edge has a contact with this one");
                    }
                    must &= u < -tol;
                } else if beyond > tol {
                    let u = (g3 - v2).unit().dot(c - v2);
                    if u > tol {
                        ensure!(n_pts == 0, "circle over the next edge has a contact with this one");
                    }
                    must &= u < -tol;
                } else if along < tol || beyond > -tol {
                    must = false;
                }
            }
        }
        K::EP => {
            // the segment's end planes are not extended by the skins
            let (v1, v2) = (a.v[0], a.v[1]);
            let e = (v2 - v1).unit();
            let near = if sa.0 >= sb.0 { b.support(-sa.1) } else { a.support(sb.1) };
            let inside = if sa.0 >= sb.0 {
                (near - v1).dot(e) > 1e-3 && (v2 - near).dot(e) > 1e-3
            } else {
                let i = normals(b).iter().position(|n| (*n + sb.1).len() < 1e-9).unwrap();
                let (w1, w2) = (b.v[i], b.v[(i + 1) % b.v.len()]);
                let f = (w2 - w1).unit();
                (near - w1).dot(f) > 1e-3 && (w2 - near).dot(f) > 1e-3
            };
            let clear = (sa.0 - sb.0).abs() > 2e-3 + 0.02 * (sa.0 - rt).abs();
            must &= inside && clear;
            if let Some(_) = q.ghost {
                let front = e.right();
                let off = front.dot(b.centroid() - v1);
                if off < -tol {
                    ensure!(n_pts == 0, "one-sided edge has a contact with a polygon behind it");
                }
                let back = sep_along(a, b, -front);
                let fwd = sep_along(a, b, front);
                must &= off > tol && sa.0 > sb.0 && fwd > back + 1e-3;
            }
        }
        K::PP => {
            // vertex against vertex within the skins may clip to nothing
            if d > 0.0 && d > sat + tol {
                must = false;
            }
        }
        _ => {}
    }
    if must {
        ensure!(n_pts > 0, "no contact although the cores are {} apart (skins {})", d, rt);
    }
    if n_pts == 0 {
        return Ok(());
    }

    // normal
    let n = pv(wm.normal);
    ensure!(close(n.len(), 1.0, 1e-4), "normal {:?} is not a unit vector", n);
    let n = n.unit();
    let s = sep_along(a, b, n);
    let mut best = if round { d.max(sat.min(0.0)) } else { sat };
    let mut edge_sep = sa.0;
    if q.k == K::EP && q.ghost.is_some() {
        // only ways out of the front count
        let front = (a.v[1] - a.v[0]).unit().right();
        edge_sep = sep_along(a, b, front);
        best = if sb.1.dot(front) > 0.0 { sb.0.max(edge_sep) } else { edge_sep };
    }
    let slack = match q.k {
        K::PP => 0.0006,
        K::EP => 0.0011 + 0.021 * (edge_sep - rt).abs(),
        _ => 0.0,
    } + tol;
    // with neighbours the normal never faces the back and may be snapped to the edge's own
    let mut snapped = false;
    if q.k == K::EP && q.ghost.is_some() {
        let front = (a.v[1] - a.v[0]).unit().right();
        ensure!(n.dot(front) >= -1e-3, "one-sided edge facing {:?} pushes along {:?}", front, n);
        snapped = n.dot(front) > 0.999999 && s >= sep_along(a, b, front) - tol;
    }
    if !(q.k == K::CC && d < 1e-3) && !snapped {
        ensure!(s >= best - slack, "overlap along the normal {:?} is {}, it can be resolved by {}", n, -s, -best);
    }
    // points
    let mut feet = vec![];
    let face_b = matches!(m.manifold_type, B2manifoldType::EFaceB);
    for i in 0..n_pts {
        let (x, sp) = (pv(wm.points[i]), wm.separations[i] as f64);
        ensure!(sp <= tol, "point {} has separation {}", i, sp);
        let ka = x - n * (sp / 2.0) - n * a.r;
        let kb = x + n * (sp / 2.0) + n * b.r;
        let plane_a = (ka.dot(n) - a.support(n).dot(n)).abs();
        let plane_b = (kb.dot(n) - b.support(-n).dot(n)).abs();
        if round {
            ensure!((kb - b.v[0]).len() < 2.0 * tol, "point {} does not belong to the circle: {:?} {:?}", i, kb, b.v[0]);
            ensure!(close(sp, s - rt, 2.0 * tol), "separation {} should be {}", sp, s - rt);
            ensure!(plane_a < 2.0 * tol, "point {} is {} off the surface of the first shape", i, plane_a);
        } else if face_b {
            ensure!(plane_b < 2.0 * tol && a.bdist(ka) < 2.0 * tol, "point {} {:?} is {} off the second shape's face and {} off the first shape", i, x, plane_b, a.bdist(ka));
            ensure!(b.bdist(kb) < 1.5 * rt + tol, "point {} {:?} is {} outside the second shape's face", i, x, b.bdist(kb));
            feet.push(ka);
        } else {
            ensure!(plane_a < 2.0 * tol && b.bdist(kb) < 2.0 * tol, "point {} {:?} is {} off the first shape's face and {} off the second shape", i, x, plane_a, b.bdist(kb));
            ensure!(a.bdist(ka) < 1.5 * rt + tol, "point {} {:?} is {} outside the first shape's face", i, x, a.bdist(ka));
            feet.push(kb);
        }
    }
    if round {
        ensure!(n_pts == 1, "{} points for a circle", n_pts);
        return Ok(());
    }
    // the clipped incident face
    let (rf, inc, nr) = if face_b { (b, a, -n) } else { (a, b, n) };
    let ext = if q.k == K::PP { rt } else { 0.0 };
    let ri = (0..rf.v.len()).find(|i| {
        let (x, y) = (rf.v[*i], rf.v[(*i + 1) % rf.v.len()]);
        ((y - x).right().unit() - nr).len() < 1e-3 || (rf.v.len() == 2 && ((y - x).right().unit() + nr).len() < 1e-3)
    });
    let ri = match ri {
        Some(i) => i,
        None => return Err(format!("normal {:?} is not a face normal of the reference shape", n)),
    };
    let (x, y) = (rf.v[ri], rf.v[(ri + 1) % rf.v.len()]);
    let t = (y - x).unit();
    let (t1, t2) = (x.dot(t) - ext, y.dot(t) + ext);
    let top = x.dot(nr);
    let mut dots: Vec<(f64, usize)> = normals(inc).iter().enumerate().map(|(i, w)| (w.dot(nr), i)).collect();
    dots.sort_by(|u, w| u.0.partial_cmp(&w.0).unwrap());
    if inc.v.len() == 2 || dots.len() < 2 || dots[1].0 - dots[0].0 > 1e-4 {
        let i = if inc.v.len() == 2 { 0 } else { dots[0].1 };
        let (mut w1, mut w2) = (inc.v[i], inc.v[(i + 1) % inc.v.len()]);
        if w1.dot(t) > w2.dot(t) {
            std::mem::swap(&mut w1, &mut w2);
        }
        let (u1, u2) = (w1.dot(t), w2.dot(t));
        if u2 - u1 > 1e-3 && u2 > t1 + tol && u1 < t2 - tol {
            let at = |u: f64| w1 + (w2 - w1) * ((u - u1) / (u2 - u1));
            let ends = [at(u1.max(t1)), at(u2.min(t2))];
            let steep = 1.0 + (w2 - w1).dot(nr).abs() / (u2 - u1);
            let mut want = 0;
            let mut vague = 0;
            for e in ends {
                let h = e.dot(nr) - top;
                if (h - rt).abs() < tol * steep {
                    vague += 1;
                    continue;
                }
                if h < rt {
                    want += 1;
                    ensure!(feet.iter().any(|f| (*f - e).len() < 3.0 * tol * steep), "no point at the end {:?} of the contact region, points come from {:?}", e, feet);
                }
            }
            ensure!(n_pts >= want && n_pts <= want + vague, "{} points, the contact region has {} ends", n_pts, want);
        }
    }
    // ids
    if n_pts == 2 {
        ensure!(m.points[0].id != m.points[1].id, "both points have the id {:?}", m.points[0].id);
    }
    {
        for i in 0..n_pts {
            let cf = m.points[i].id.cf;
            let vertex = B2contactFeatureType::EVertex as u8;
            let face = B2contactFeatureType::EFace as u8;
            let reach = 1.5 * rt + tol - wm.separations[i] as f64;
            let x = pv(wm.points[i]);
            let (vs, vi, fs, fi) = if cf.type_a == vertex && cf.type_b == face {
                (&q.va, cf.index_a, &q.vb, cf.index_b)
            } else if cf.type_b == vertex && cf.type_a == face {
                (&q.vb, cf.index_b, &q.va, cf.index_a)
            } else {
                return Err(format!("id {:?} is not a vertex against a face", cf));
            };
            ensure!((vi as usize) < vs.len() && (fi as usize) < fs.len(), "id {:?} names features that do not exist", cf);
            let (f1, f2) = (fs[fi as usize], fs[(fi as usize + 1) % fs.len()]);
            let (df, dv) = (seg_dist(f1, f2, x), (x - vs[vi as usize]).len());
            ensure!(df <= reach + rt, "id {:?}: the point {:?} is {} from that face", cf, x, df);
            ensure!(dv <= reach * 1.5 + 2.0 * rt, "id {:?}: the point {:?} is {} from that vertex", cf, x, dv);
        }
    }
    Ok(())
}

/// Runs the library's function for a pair of shapes (children) at two placements.
pub fn collide(k: K, sa: &Sh, ca: usize, sb: &Sh, xa: &B2Transform, xb: &B2Transform) -> B2manifold {
    let mut m = B2manifold::default();
    // a reused manifold must be overwritten
    m.point_count = 2;
    let edge = || {
        if sa.is_chain() {
            let mut e = Default::default();
            sa.chain().get_child_edge(&mut e, ca);
            e
        } else {
            sa.edge()
        }
    };
    match k {
        K::CC => b2_collide_circles(&mut m, &sa.circle(), xa, &sb.circle(), xb),
        K::PC => b2_collide_polygon_and_circle(&mut m, &sa.poly(), xa, &sb.circle(), xb),
        K::PP => b2_collide_polygons(&mut m, &sa.poly(), xa, &sb.poly(), xb),
        K::EC => b2_collide_edge_and_circle(&mut m, &edge(), xa, &sb.circle(), xb),
        K::EP => b2_collide_edge_and_polygon(&mut m, &edge(), xa, &sb.poly(), xb),
    }
    m
}

fn verts(s: &Sh, child: usize, x: &X) -> Vec<P> {
    if s.is_poly() {
        let q = s.poly();
        q.m_vertices[..q.m_count].iter().map(|w| x.at(pv(*w))).collect()
    } else {
        s.core(child).v.iter().map(|w| x.at(*w)).collect()
    }
}

fn one(k: K, sa: &Sh, ca: usize, sb: &Sh, ta: &B2Transform, tb: &B2Transform, c: &mut Ctx) -> R {
    let m = collide(k, sa, ca, sb, ta, tb);
    let (xa, xb) = (X::from(ta), X::from(tb));
    let (a, b) = (sa.core(ca).at(&xa), sb.core(0).at(&xb));
    let mut wm = B2worldManifold::default();
    wm.initialize(&m, *ta, a.r as f32, *tb, b.r as f32);
    let far = 1.0 + pv(ta.p).len();
    let q = Ask {
        k,
        a: &a,
        b: &b,
        ghost: ghosts(sa, ca).map(|(u, w)| (xa.at(u), xa.at(w))),
        va: verts(sa, ca, &xa),
        vb: verts(sb, 0, &xb),
        tol: 2e-5 + 3e-6 * far,
    };
    c.step(1);
    c.eval(1);
    c.state(Fnv::new().u(m.point_count as u64).u(m.manifold_type as u64).f((wm.normal.x * 1e3).round()).f((wm.normal.y * 1e3).round()).f((wm.separations[0] * 1e4).round()).done());
    judge(&q, &m, &wm).map_err(|e| format!("{:?} child {} at ({},{}) angle {} and {:?} at ({},{}) angle {}: {}", sa, ca, ta.p.x, ta.p.y, ta.q.get_angle(), sb, tb.p.x, tb.p.y, tb.q.get_angle(), e))
}

pub fn shapes14() -> Vec<Sh> {
    let mut s = solids();
    s.push(Sh::EdgeOne([(-1.5, 0.5), (-0.75, 0.0), (0.75, 0.0), (1.5, -0.5)]));
    s.push(Sh::EdgeOne([(-1.5, -0.5), (-0.75, 0.0), (0.75, 0.0), (1.5, 0.5)]));
    s.push(Sh::Circle(0.05, 0.0, 0.0));
    s
}

pub fn check() -> Check {
    let th = thorough();
    let sh = shapes14();
    let mut pairs = vec![];
    for i in 0..sh.len() {
        for j in 0..sh.len() {
            if let Some(k) = kind(&sh[i], &sh[j]) {
                for ca in 0..sh[i].children() {
                    pairs.push((k, sh[i].clone(), ca, sh[j].clone()));
                }
            }
        }
    }
    let np = pairs.len();
    let na = if th { 36usize } else { 20 };
    let nd = if th { 72usize } else { 32 };
    let nl = if th { 11usize } else { 7 };
    let mut phases = vec![];
    let bases: [(f32, f32, f32); 3] = [(0.0, 0.0, 0.0), (3.0, -2.0, 1.1), (-40.0, 25.0, -2.5)];
    let depth: Vec<f64> = vec![0.4, 0.15, 0.04, 0.01, 0.002, -0.004, -0.012, -0.019, -0.021, -0.05, -0.3];
    // B brought towards A along a direction until the cores touch, then placed at a ladder of depths
    {
        let (p1, p2, dp) = (pairs.clone(), pairs.clone(), depth.clone());
        phases.push(phase(
            "approach",
            (np * 3 * na * nd * nl) as u64,
            move |i| {
                let mut d = Dec::new(i);
                let (base, a, dir, lat, pr) = (d.d(3), d.d(na), d.d(nd), d.d(nl), d.r(&p2).clone());
                format!("{:?} child {} and {:?}, base frame {}, relative angle {}, direction {}, lateral {}", pr.1, pr.2, pr.3, base, a, dir, lat)
            },
            move |i, c| {
                let mut d = Dec::new(i);
                let (base, ka, dir, lat, pr) = (d.d(3), d.d(na), d.d(nd), d.d(nl), d.r(&p1));
                let (k, sa, ca, sb) = (pr.0, &pr.1, pr.2, &pr.3);
                let ang = ka as f32 * 2.0 * std::f32::consts::PI / na as f32 + if ka % 2 == 1 { 0.013 } else { 0.0 };
                let th = dir as f64 * 2.0 * PI / nd as f64;
                let u = p(th.cos(), th.sin());
                let l = (lat as f64 - (nl / 2) as f64) * (if nl > 5 { 0.15 } else { 0.3 });
                let a = sa.core(ca);
                let x0 = X::new(p(0.0, 0.0), ang as f64);
                let b = sb.core(0).at(&x0);
                let (oa, ob) = (a.centroid(), b.centroid());
                let lateral = p(-u.y, u.x) * l;
                let at = |t: f64| oa - ob + u * t + lateral;
                // touching distance of the cores
                let (mut lo, mut hi) = (0.0, 6.0);
                if core_dist(&a, &b.shift(at(0.0))) > 0.0 {
                    hi = 0.0;
                } else {
                    for _ in 0..50 {
                        let mid = 0.5 * (lo + hi);
                        if core_dist(&a, &b.shift(at(mid))) > 0.0 {
                            hi = mid
                        } else {
                            lo = mid
                        }
                    }
                }
                let rr = a.r + b.r;
                for dd in &dp {
                    // circles: depth is counted from their surfaces
                    let extra = if rr > 0.03 { rr } else { 0.0 };
                    let t = hi - dd + extra;
                    let rel = at(t);
                    let bx = bases[base];
                    let ta = xf(bx.0, bx.1, bx.2);
                    let w = X::from(&ta);
                    let pb = w.at(rel);
                    let tb = xf(pb.x as f32, pb.y as f32, bx.2 + ang);
                    one(k, sa, ca, sb, &ta, &tb, c)?;
                }
                Ok(())
            },
        ));
    }
    // every relation between the point ids of an old and a new manifold
    {
        phases.push(phase(
            "states",
            (3 * 3 * 5 * 5 * 5 * 5) as u64,
            |i| format!("id combination {}", i),
            |i, c| {
                let mut d = Dec::new(i);
                let ids = [(0u8, 0u8, 0u8, 0u8), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)];
                let (c1, c2) = (d.d(3), d.d(3));
                let pick: Vec<_> = (0..4).map(|_| d.p(&ids)).collect();
                let mk = |n: usize, q: &[(u8, u8, u8, u8)]| {
                    let mut m = B2manifold::default();
                    m.point_count = n;
                    for (i, w) in q.iter().enumerate() {
                        m.points[i].id.cf = B2contactFeature { index_a: w.0, index_b: w.1, type_a: w.2, type_b: w.3 };
                    }
                    m
                };
                let (m1, m2) = (mk(c1, &pick[..2]), mk(c2, &pick[2..]));
                let mut s1 = [B2pointState::B2AddState; 2];
                let mut s2 = [B2pointState::B2RemoveState; 2];
                b2_get_point_states(&mut s1, &mut s2, &m1, &m2);
                for j in 0..2 {
                    let want = if j >= c1 {
                        B2pointState::B2NullState
                    } else if pick[2..2 + c2].contains(&pick[j]) {
                        B2pointState::B2PersistState
                    } else {
                        B2pointState::B2RemoveState
                    };
                    ensure!(s1[j] == want, "old point {} is {:?}, should be {:?}", j, s1[j], want);
                    let want = if j >= c2 {
                        B2pointState::B2NullState
                    } else if pick[..c1].contains(&pick[2 + j]) {
                        B2pointState::B2PersistState
                    } else {
                        B2pointState::B2AddState
                    };
                    ensure!(s2[j] == want, "new point {} is {:?}, should be {:?}", j, s2[j], want);
                }
                c.step(1);
                c.eval(4);
                c.state(i);
                Ok(())
            },
        ));
    }
    // clipping of a segment against a line
    {
        phases.push(phase(
            "clip",
            5 * 5 * 5 * 5 * 8 * 5,
            |i| format!("segment and line {}", i),
            |i, c| {
                let mut d = Dec::new(i);
                let g = [-1.0f32, -0.4, 0.1, 0.6, 1.3];
                let (a, b) = (v(d.p(&g), d.p(&g)), v(d.p(&g), d.p(&g)));
                let th = d.d(8) as f32 * 0.8 + 0.3;
                let n = v(th.cos(), th.sin());
                let off = d.p(&[-0.77f32, -0.31, 0.05, 0.42, 0.93]);
                let mut vin = [B2clipVertex::default(); 2];
                vin[0].v = a;
                vin[1].v = b;
                for (i, w) in vin.iter_mut().enumerate() {
                    w.id.cf = B2contactFeature { index_a: 3, index_b: 4 + i as u8, type_a: B2contactFeatureType::EFace as u8, type_b: B2contactFeatureType::EVertex as u8 };
                }
                let mut out = [B2clipVertex::default(); 2];
                let np = b2_clip_segment_to_line(&mut out, vin, n, off, 9);
                let (d0, d1) = (pv(n).dot(pv(a)) - off as f64, pv(n).dot(pv(b)) - off as f64);
                if d0.abs() < 1e-5 || d1.abs() < 1e-5 {
                    return Ok(());
                }
                let want = if d0 < 0.0 && d1 < 0.0 { 2 } else if d0 > 0.0 && d1 > 0.0 { 0 } else { 2 };
                ensure!(np == want, "{} points kept of {:?} {:?}, should be {}", np, a, b, want);
                if np == 2 {
                    let cut = pv(a) + (pv(b) - pv(a)) * (d0 / (d0 - d1));
                    for (q, dist, j) in [(pv(a), d0, 0usize), (pv(b), d1, 1)] {
                        let e = if dist < 0.0 { q } else { cut };
                        let hit = out.iter().find(|o| (pv(o.v) - e).len() < 1e-4);
                        ensure!(hit.is_some(), "{:?} is missing from the clipped segment", e);
                        if dist < 0.0 && (d0 < 0.0) != (d1 < 0.0) {
                            ensure!(hit.unwrap().id == vin[j].id, "the kept end lost its id");
                        }
                    }
                    if (d0 < 0.0) != (d1 < 0.0) {
                        let o = out.iter().find(|o| (pv(o.v) - cut).len() < 1e-4).unwrap();
                        let cf = o.id.cf;
                        ensure!(cf.index_a == 9 && cf.type_a == B2contactFeatureType::EVertex as u8 && cf.type_b == B2contactFeatureType::EFace as u8, "the cut has the id {:?}", cf);
                    }
                }
                c.step(1);
                c.eval(1);
                c.state(i);
                Ok(())
            },
        ));
    }
    // world points of every kind of manifold, with unequal skins
    {
        let rad = [0.0f32, 0.01, 0.3, 1.0];
        phases.push(phase(
            "world points",
            3 * 2 * 8 * 4 * 4 * 5 * 5 * 9,
            |i| format!("manifold {}", i),
            move |i, c| {
                let mut d = Dec::new(i);
                let (ty, np, an) = (d.d(3), 1 + d.d(2), d.d(8) as f32 * 0.8 + 0.1);
                let (ra, rb) = (d.p(&rad), d.p(&rad));
                let place = [(0.0f32, 0.0f32, 0.0f32), (1.0, -2.0, 0.7), (-3.0, 0.5, 2.9), (0.25, 0.125, -1.5707964), (8.0, 6.0, 40.0)];
                let (pa, pb) = (d.p(&place), d.p(&place));
                let q = [(0.0f32, 0.0f32), (0.4, -0.3), (-0.2, 0.9)];
                let (lp, l0) = (d.p(&q), d.p(&q));
                let l1 = (l0.0 - 0.3, l0.1 + 0.2);
                let (ta, tb) = (xf(pa.0, pa.1, pa.2), xf(pb.0, pb.1, pb.2));
                let mut m = B2manifold::default();
                m.manifold_type = [B2manifoldType::ECircles, B2manifoldType::EFaceA, B2manifoldType::EFaceB][ty];
                m.local_normal = v(an.cos(), an.sin());
                m.local_point = v(lp.0, lp.1);
                m.point_count = if ty == 0 { 1 } else { np };
                m.points[0].local_point = v(l0.0, l0.1);
                m.points[1].local_point = v(l1.0, l1.1);
                let mut wm = B2worldManifold::default();
                wm.initialize(&m, ta, ra, tb, rb);
                c.step(1);
                let (xa, xb) = (X::from(&ta), X::from(&tb));
                let (ra, rb) = (ra as f64, rb as f64);
                let ln = pv(m.local_normal);
                let mut want = vec![];
                // surface points of the two shapes and the normal from the first to the second
                let n = match ty {
                    0 => {
                        let (a, b) = (xa.at(pv(m.local_point)), xb.at(pv(m.points[0].local_point)));
                        if (b - a).len() < 1e-5 && (b - a).len() > 0.0 {
                            return Ok(());
                        }
                        let n = if (b - a).len() == 0.0 { p(1.0, 0.0) } else { (b - a).unit() };
                        want.push((a + n * ra, b - n * rb));
                        n
                    }
                    _ => {
                        let (x, y, rx, ry) = if ty == 1 { (&xa, &xb, ra, rb) } else { (&xb, &xa, rb, ra) };
                        let n = x.rot(ln);
                        let o = x.at(pv(m.local_point));
                        for k in 0..m.point_count {
                            let w = y.at(pv(m.points[k].local_point));
                            let face = w + n * (rx - (w - o).dot(n));
                            let tip = w - n * ry;
                            want.push(if ty == 1 { (face, tip) } else { (tip, face) });
                        }
                        if ty == 1 { n } else { n * -1.0 }
                    }
                };
                let tol = 1e-5 * (1.0 + pa.0.abs().max(pb.0.abs()) as f64);
                ensure!((pv(wm.normal) - n).len() < 1e-5, "normal {:?} should be {:?}", wm.normal, n);
                for (k, (a, b)) in want.iter().enumerate() {
                    ensure!((pv(wm.points[k]) - (*a + *b) * 0.5).len() < tol, "point {} is {:?}, should be {:?}", k, wm.points[k], (*a + *b) * 0.5);
                    ensure!((wm.separations[k] as f64 - (*b - *a).dot(n)).abs() < tol, "separation {} is {}, should be {}", k, wm.separations[k], (*b - *a).dot(n));
                    c.eval(2);
                }
                c.state(i);
                Ok(())
            },
        ));
    }
    // manifolds of contacts in a world: both creation orders, every child
    {
        let (s1, s2) = (sh.clone(), sh.clone());
        let ns = sh.len();
        let (na, g) = (if th { 8usize } else { 4 }, if th { 17usize } else { 9 });
        phases.push(phase(
            "contact",
            (ns * ns * na * g * g) as u64,
            move |i| {
                let mut d = Dec::new(i);
                format!("{:?} and {:?}, angle {}, cell {} {}", d.r(&s2).clone(), d.r(&s2).clone(), d.d(na), d.d(g), d.d(g))
            },
            move |i, c| {
                let mut d = Dec::new(i);
                let (sa, sb, ka, gx, gy) = (d.r(&s1), d.r(&s1), d.d(na), d.d(g), d.d(g));
                let w = world(0.0, 0.0);
                let ang = ka as f32 * 6.3 / na as f32 + 0.1;
                let sc = 3.2 / (g - 1) as f32;
                let (x, y) = (1.0 + (gx as f32 * sc - 1.6), -2.0 + (gy as f32 * sc - 1.6));
                let b1 = body(&w, ST, 1.0, -2.0, 0.4);
                let b2 = body(&w, DY, x, y, 0.4 + ang);
                fixu(&b1, sa, 1.0, 1);
                fixu(&b2, sb, 1.0, 2);
                step(&w, 0.0);
                c.step(4);
                let mut touching = 0;
                for ct in w.borrow().get_contact_list().iter() {
                    let ct = ct.borrow();
                    let base = ct.get_base();
                    let (fa, fb) = (base.get_fixture_a(), base.get_fixture_b());
                    let (ua, ub) = (fa.borrow().get_user_data().unwrap(), fb.borrow().get_user_data().unwrap());
                    ensure!(ua != ub, "contact of a fixture with itself");
                    let (da, db) = if ua == 1 { (sa, sb) } else { (sb, sa) };
                    let (ta, tb) = if ua == 1 { (b1.borrow().get_transform(), b2.borrow().get_transform()) } else { (b2.borrow().get_transform(), b1.borrow().get_transform()) };
                    let (ca, cb) = (base.get_child_index_a() as usize, base.get_child_index_b() as usize);
                    let k = match kind(da, db) {
                        Some(k) => k,
                        None => return Err(format!("contact between {:?} and {:?} in this order", da, db)),
                    };
                    let (xa, xb) = (X::from(&ta), X::from(&tb));
                    let (a, b) = (da.core(ca).at(&xa), db.core(cb).at(&xb));
                    let mut wm = B2worldManifold::default();
                    base.get_world_manifold(&mut wm);
                    let m = *base.get_manifold();
                    let q = Ask { k, a: &a, b: &b, ghost: ghosts(da, ca).map(|(u, w)| (xa.at(u), xa.at(w))), va: verts(da, ca, &xa), vb: verts(db, cb, &xb), tol: 4e-5 };
                    judge(&q, &m, &wm).map_err(|e| format!("children {} {}: {}", ca, cb, e))?;
                    ensure!(base.is_touching() == (m.point_count > 0), "touching is {} with {} points", base.is_touching(), m.point_count);
                    touching += (m.point_count > 0) as u64;
                    c.eval(1);
                }
                c.state(Fnv::new().u(hash_world(&w)).u(touching).done());
                Ok(())
            },
        ));
    }
    Check {
        id: "C14",
        bounds: format!("{} pairs of shape children in 3 common frames: {} relative angles x {} directions x {} lateral offsets x {} depths from overlapping by 0.4 to apart by 0.3; every combination of 0-2 old and 0-2 new point ids over 5 ids; segment clipping grid; world points of every manifold kind over 16 pairs of skins and 25 pairs of placements; contacts of all {} x {} shapes in a world, both orders", np, na, nd, nl, depth.len(), sh.len(), sh.len()),
        assumptions: vec![
            "tolerance 2e-5 plus 3e-6 per unit of distance from the origin".into(),
            "polygon pairs whose nearest features are two vertices within the skins, and polygons past the end of an edge within the skins, may give an empty manifold".into(),
        ],
        phases,
    }
}
