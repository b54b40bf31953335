//! C15: polygon construction against an exact hull, boxes, chains, loops and edges against their input.
use crate::c14::ghosts;
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::kit::*;
use box2d_rs::b2_common::*;
use box2d_rs::b2_math::*;
use box2d_rs::shapes::b2_chain_shape::*;
use box2d_rs::shapes::b2_edge_shape::*;
use box2d_rs::shapes::b2_polygon_shape::*;

fn area(v: &[P]) -> f64 {
    if v.len() < 3 {
        0.0
    } else {
        poly_mass(v).0
    }
}

/// The stored polygon must be the hull of `pts` up to welding.
fn judge(s: &B2polygonShape, pts: &[P], exact: bool) -> R {
    let weld = 0.5 * B2_LINEAR_SLOP as f64;
    let n = s.m_count;
    let vs: Vec<P> = s.m_vertices[..n].iter().map(|q| pv(*q)).collect();
    ensure!(n >= 3 && n <= 8, "{} vertices", n);
    let h = hull(pts);
    let slack = if exact { 1e-9 } else { weld + 1e-5 };
    for q in &vs {
        ensure!(pts.iter().any(|w| (*w - *q).len() == 0.0), "vertex {:?} is not an input point", q);
    }
    for i in 0..n {
        for j in 0..i {
            ensure!((vs[i] - vs[j]).len() >= weld - 1e-6, "vertices {} and {} are not welded", i, j);
        }
    }
    ensure!(area(&vs) > 0.0, "vertices are not counter-clockwise");
    for i in 0..n {
        let (a, b, c) = (vs[i], vs[(i + 1) % n], vs[(i + 2) % n]);
        let turn = (b - a).unit().cross((c - b).unit());
        ensure!(if exact { turn > 1e-9 } else { turn > -1e-3 }, "not convex at vertex {}", (i + 1) % n);
        let nn = (b - a).right().unit();
        ensure!((pv(s.m_normals[i]) - nn).len() < 1e-5, "normal {} is {:?}, should be {:?}", i, s.m_normals[i], nn);
    }
    for q in pts {
        ensure!(poly_sd(&vs, *q) <= slack, "input point {:?} is outside the polygon by {}", q, poly_sd(&vs, *q));
    }
    if exact {
        ensure!(n == h.len(), "{} vertices, the hull has {}", n, h.len());
        for q in &h {
            ensure!(vs.iter().any(|w| (*w - *q).len() == 0.0), "hull vertex {:?} is missing", q);
        }
        ensure!(s.validate(), "the polygon does not validate");
    }
    let c = poly_mass(&vs).1;
    let size = vs.iter().map(|q| (*q - vs[0]).len()).fold(0.0, f64::max);
    let thin = area(&vs) / (size * size);
    ensure!((pv(s.m_centroid) - c).len() < 1e-6 * (size + c.len()) / thin.max(1e-4), "centroid {:?} should be {:?}", s.m_centroid, c);
    ensure!(s.base.m_radius == B2_POLYGON_RADIUS, "radius {}", s.base.m_radius);
    Ok(())
}

fn polygon(name: &str, grid: Vec<(f32, f32)>, k: usize, exact: bool, dirty: bool) -> Phase {
    let g = grid.len() as u64;
    let g2 = grid.clone();
    phase(
        name,
        g.pow(k as u32),
        move |i| format!("points {:?}", decode(i, &g2, k)),
        move |i, c| {
            let pts = decode(i, &grid, k);
            let ps: Vec<P> = pts.iter().map(|q| p(q.0 as f64, q.1 as f64)).collect();
            let h = hull(&ps);
            // degenerate sets are refused by the library; skins need a minimum size
            let big = h.iter().map(|q| (*q - h[0]).len()).fold(0.0, f64::max);
            if h.len() < 3 || area(&h) < 0.02 * big || big < 0.02 {
                return Ok(());
            }
            let mut s = B2polygonShape::default();
            if dirty {
                // a shape that is reused must be overwritten completely
                s.set(&[v(5.0, 5.0), v(9.0, 5.0), v(10.0, 7.0), v(9.0, 9.0), v(7.0, 10.0), v(5.0, 9.0), v(4.0, 8.0), v(4.0, 6.0)]);
            }
            s.set(&pts.iter().map(|q| v(q.0, q.1)).collect::<Vec<_>>());
            c.step(1);
            c.eval(1);
            let mut f = Fnv::new();
            for q in &s.m_vertices[..s.m_count] {
                f.f(q.x).f(q.y);
            }
            c.state(f.done());
            judge(&s, &ps, exact)
        },
    )
}

fn decode(mut i: u64, g: &[(f32, f32)], k: usize) -> Vec<(f32, f32)> {
    (0..k)
        .map(|_| {
            let r = g[(i % g.len() as u64) as usize];
            i /= g.len() as u64;
            r
        })
        .collect()
}

fn lattice(nx: i32, ny: i32) -> Vec<(f32, f32)> {
    let mut r = vec![];
    for x in 0..nx {
        for y in 0..ny {
            r.push((x as f32 - 1.0, y as f32 * 0.5));
        }
    }
    r
}

pub fn check() -> Check {
    let th = thorough();
    let mut phases = vec![
        polygon("lattice3", lattice(5, 5), 3, true, true),
        polygon("lattice4", lattice(5, 5), 4, true, false),
        polygon("lattice5", lattice(4, if th { 5 } else { 4 }), 5, true, true),
        polygon("lattice6", lattice(3, if th { 4 } else { 3 }), 6, true, false),
        polygon("lattice7", lattice(3, 3), 7, true, false),
    ];
    if th {
        phases.push(polygon("lattice8", lattice(3, 3), 8, true, true));
    } else {
        phases.push(polygon("lattice8", vec![(0.0, 0.0), (1.0, 0.0), (2.0, 0.0), (0.0, 1.0), (1.0, 2.0), (2.0, 1.0), (1.0, 1.0)], 8, true, true));
    }
    // near-duplicates, to be welded, around three or four sites
    let near = vec![(0.0, 0.0), (0.002, 0.0), (0.0, -0.002), (0.004, 0.001), (1.0, 0.0), (1.001, 0.001), (0.998, 0.0), (0.3, 1.0), (0.3, 1.002), (0.301, 0.9985), (0.5, 0.25)];
    phases.push(polygon("weld5", near.clone(), if th { 6 } else { 5 }, false, true));
    // a regular octagon (all eight vertices used) with its centre, in any order
    let oct: Vec<(f32, f32)> = (0..8).map(|k| { let a = k as f32 * 0.7853982 + 0.1; (a.cos() * 0.7 - 3.0, a.sin() * 0.7 + 2.0) }).collect();
    {
        // all orders of the eight octagon vertices
        let o2 = oct.clone();
        let perm = |mut i: u64, o: &[(f32, f32)]| -> Vec<(f32, f32)> {
            let mut pool: Vec<_> = o.to_vec();
            let mut r = vec![];
            while !pool.is_empty() {
                let k = (i % pool.len() as u64) as usize;
                i /= pool.len() as u64;
                r.push(pool.remove(k));
            }
            r
        };
        phases.push(phase(
            "octagon",
            40320,
            move |i| format!("octagon order {}", i),
            move |i, c| {
                let pts = perm(i, &o2);
                let ps: Vec<P> = pts.iter().map(|q| p(q.0 as f64, q.1 as f64)).collect();
                let mut s = B2polygonShape::default();
                s.set(&pts.iter().map(|q| v(q.0, q.1)).collect::<Vec<_>>());
                c.step(1);
                c.eval(1);
                c.state(i);
                judge(&s, &ps, true)
            },
        ));
    }
    phases.push(polygon("octagon6", oct.iter().cloned().chain([(-2.9, 2.05)]).collect(), 6, true, false));
    // boxes
    {
        let hs = [0.01f32, 0.25, 0.5, 1.0, 7.5];
        phases.push(phase(
            "box",
            5 * 5 * 5 * 5 * 16 * 2,
            |i| format!("box {}", i),
            move |i, c| {
                let mut d = Dec::new(i);
                let (hx, hy) = (d.p(&hs), d.p(&hs));
                let cs = [0.0f32, 1.0, -0.5, 3.25, -20.0];
                let (cx, cy, a, dirty) = (d.p(&cs), d.p(&cs), d.d(16) as f32 * 0.45 - 3.3, d.b());
                let mut s = B2polygonShape::default();
                if dirty {
                    s.set(&[v(5.0, 5.0), v(9.0, 5.0), v(10.0, 7.0), v(9.0, 9.0), v(7.0, 10.0), v(5.0, 9.0)]);
                }
                s.set_as_box_angle(hx, hy, v(cx, cy), a);
                let x = X::new(p(cx as f64, cy as f64), a as f64);
                let (fx, fy) = (hx as f64, hy as f64);
                let want = [p(-fx, -fy), p(fx, -fy), p(fx, fy), p(-fx, fy)];
                let tol = 3e-6 * (1.0 + fx + fy + x.o.len());
                ensure!(s.m_count == 4, "{} vertices", s.m_count);
                // a counter-clockwise rotation of the corners
                let k = match (0..4).find(|k| (pv(s.m_vertices[*k]) - x.at(want[0])).len() < tol) {
                    Some(k) => k,
                    None => return Err(format!("corner {:?} is missing: {:?}", x.at(want[0]), &s.m_vertices[..4])),
                };
                for j in 0..4 {
                    let (q, r) = (x.at(want[j]), x.at(want[(j + 1) % 4]));
                    ensure!((pv(s.m_vertices[(k + j) % 4]) - q).len() < tol, "corner {} is {:?}, should be {:?}", j, s.m_vertices[(k + j) % 4], q);
                    ensure!((pv(s.m_normals[(k + j) % 4]) - (r - q).right().unit()).len() < 1e-4, "normal {} is {:?}", j, s.m_normals[(k + j) % 4]);
                }
                ensure!((pv(s.m_centroid) - x.o).len() < tol, "centroid {:?}", s.m_centroid);
                let mut s = B2polygonShape::default();
                if dirty {
                    s.set(&[v(5.0, 5.0), v(9.0, 5.0), v(10.0, 7.0)]);
                }
                s.set_as_box(hx, hy);
                ensure!(s.m_count == 4 && pv(s.m_centroid).len() == 0.0, "centred box has {} vertices, centroid {:?}", s.m_count, s.m_centroid);
                let k = (0..4).find(|k| pv(s.m_vertices[*k]) == want[0]);
                ensure!(k.is_some(), "corner is missing: {:?}", &s.m_vertices[..4]);
                for j in 0..4 {
                    let w = (k.unwrap() + j) % 4;
                    ensure!(pv(s.m_vertices[w]) == want[j], "corner {} is {:?}", j, s.m_vertices[w]);
                    ensure!((pv(s.m_normals[w]) - (want[(j + 1) % 4] - want[j]).right().unit()).len() < 1e-6, "normal {} is {:?}", j, s.m_normals[w]);
                }
                c.step(2);
                c.eval(2);
                c.state(i);
                Ok(())
            },
        ));
    }
    // chains and loops over a small lattice
    for lp in 0..2usize {
        for k in 2..=(if th { 6usize } else { 5 }) {
            if lp == 1 && k < 3 {
                continue;
            }
            let g: Vec<(f32, f32)> = vec![(0.0, 0.0), (1.0, 0.0), (1.0, 0.75), (0.25, 1.25), (-0.5, 0.5), (2.0, -1.0)];
            let g2 = g.clone();
            phases.push(phase(
                &format!("{}{}", if lp == 1 { "loop" } else { "chain" }, k),
                6u64.pow(k as u32) * if lp == 1 { 1 } else { 4 },
                move |i| format!("vertices {:?}", decode(i, &g2, k)),
                move |i, c| {
                    let q = decode(i, &g, k);
                    let gh = [((-9.0, 1.0), (9.0, 2.0)), ((3.0, 3.0), (-4.0, 0.5))][(i / 6u64.pow(k as u32)) as usize % 2];
                    let reuse = i / 6u64.pow(k as u32) >= 2 || i % 2 == 1;
                    // neighbouring vertices must differ
                    if (1..k).any(|j| q[j] == q[j - 1]) || (lp == 1 && q[0] == q[k - 1]) {
                        return Ok(());
                    }
                    let sh = if lp == 1 { Sh::Loop(q.clone()) } else { Sh::Chain(q.clone(), gh.0, gh.1) };
                    let mut s = B2chainShape::default();
                    let vs: Vec<B2vec2> = q.iter().map(|w| v(w.0, w.1)).collect();
                    if reuse {
                        s.create_chain(&[v(7.0, 7.0), v(8.0, 8.0), v(9.0, 6.0)], v(1.0, 1.0), v(2.0, 2.0));
                        s.clear();
                    }
                    if lp == 1 {
                        s.create_loop(&vs);
                    } else {
                        s.create_chain(&vs, v(gh.0 .0, gh.0 .1), v(gh.1 .0, gh.1 .1));
                    }
                    use box2d_rs::b2_shape::*;
                    ensure!(s.get_child_count() == sh.children(), "{} children, should be {}", s.get_child_count(), sh.children());
                    for j in 0..sh.children() {
                        let mut e = B2edgeShape::default();
                        s.get_child_edge(&mut e, j);
                        let core = sh.core(j);
                        ensure!(pv(e.m_vertex1) == core.v[0] && pv(e.m_vertex2) == core.v[1], "child {} is {:?} {:?}", j, e.m_vertex1, e.m_vertex2);
                        let (g0, g3) = ghosts(&sh, j).unwrap();
                        ensure!(pv(e.m_vertex0) == g0 && pv(e.m_vertex3) == g3, "neighbours of child {} are {:?} {:?}, should be {:?} {:?}", j, e.m_vertex0, e.m_vertex3, g0, g3);
                        ensure!(e.m_one_sided, "child {} is two-sided", j);
                        ensure!(e.base.m_radius == s.base.m_radius && e.get_type() == B2ShapeType::EEdge, "child {} has radius {}", j, e.base.m_radius);
                    }
                    // the copy a fixture keeps is the same chain
                    let r = s.clone_rc();
                    ensure!(r.get_child_count() == sh.children(), "the copy has {} children", r.get_child_count());
                    let r = r.as_chain().unwrap();
                    for j in 0..sh.children() {
                        let (mut e, mut f) = (B2edgeShape::default(), B2edgeShape::default());
                        s.get_child_edge(&mut e, j);
                        r.get_child_edge(&mut f, j);
                        ensure!(e.m_vertex0 == f.m_vertex0 && e.m_vertex1 == f.m_vertex1 && e.m_vertex2 == f.m_vertex2 && e.m_vertex3 == f.m_vertex3, "the copy differs in child {}", j);
                    }
                    c.step(1 + sh.children() as u64);
                    c.eval(sh.children() as u64);
                    c.state(i);
                    Ok(())
                },
            ));
        }
    }
    {
        let g = [(0.0f32, 0.0f32), (1.0, 0.5), (-2.0, 3.0), (0.25, -0.75)];
        phases.push(phase(
            "edge",
            4 * 4 * 4 * 4 * 2,
            |i| format!("edge {}", i),
            move |i, c| {
                let mut d = Dec::new(i);
                let q: Vec<B2vec2> = (0..4).map(|_| { let w = d.p(&g); v(w.0, w.1) }).collect();
                let mut e = B2edgeShape::default();
                if d.b() {
                    e.set_two_sided(q[3], q[0]);
                    ensure!(!e.m_one_sided, "edge is one-sided");
                }
                e.set_one_sided(q[0], q[1], q[2], q[3]);
                ensure!(e.m_one_sided && e.m_vertex0 == q[0] && e.m_vertex1 == q[1] && e.m_vertex2 == q[2] && e.m_vertex3 == q[3], "one-sided edge is {:?}", e);
                e.set_two_sided(q[2], q[0]);
                ensure!(!e.m_one_sided && e.m_vertex1 == q[2] && e.m_vertex2 == q[0], "two-sided edge is {:?}", e);
                ensure!(e.base.m_radius == B2_POLYGON_RADIUS, "radius {}", e.base.m_radius);
                c.step(2);
                c.eval(2);
                c.state(i);
                Ok(())
            },
        ));
    }
    // validation tells convex counter-clockwise vertex lists from all others
    {
        let g: Vec<(f32, f32)> = (0..9).map(|k| ((k % 3) as f32 * 0.5 - 0.5, (k / 3) as f32 * 0.5 - 0.25)).collect();
        for n in 3..=5usize {
            let g = g.clone();
            phases.push(phase(
                &format!("validate{}", n),
                9u64.pow(n as u32),
                move |i| format!("vertices {:?} of a 3x3 lattice", decode_seq(i, 9, n)),
                move |i, c| {
                    let q: Vec<(f32, f32)> = decode_seq(i, 9, n).iter().map(|k| g[*k as usize]).collect();
                    let mut s = B2polygonShape::default();
                    s.m_count = n;
                    for (k, w) in q.iter().enumerate() {
                        s.m_vertices[k] = v(w.0, w.1);
                    }
                    let pt = |k: usize| p(q[k % n].0 as f64, q[k % n].1 as f64);
                    let want = (0..n).all(|a| (0..n).all(|b| (pt(a + 1) - pt(a)).cross(pt(b) - pt(a)) >= 0.0));
                    ensure!(s.validate() == want, "validate says {}", !want);
                    c.step(1);
                    c.eval(1);
                    c.state(i * 8 + n as u64);
                    Ok(())
                },
            ));
        }
    }
    Check {
        id: "C15",
        bounds: "every sequence of 3 to 7 points over lattices of 25 to 9 points and of 8 points over 7 (thorough: 9); every order of an octagon; every 6-point sequence over octagon and centre; near-duplicate clusters; a grid of boxes; every chain and loop of 2 to 5 (thorough 6) vertices over 6 sites; validation of every list of 3 to 5 vertices over 9 sites".into(),
        assumptions: vec!["point sets with an area above 0.02 times their extent; degenerate sets are refused by assertion and not judged".into()],
        phases,
    }
}
