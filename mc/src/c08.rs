//! C08: world queries and ray casts after every short history, under every callback policy.
use crate::c09::{reference, Hit2};
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::kit::*;
use crate::wsim::fat_boxes;
use box2d_rs::b2_body::*;
use box2d_rs::b2_math::*;
use std::cell::RefCell;

#[derive(Clone)]
struct Fx {
    f: F,
    sh: Sh,
    id: u32,
}
struct Slot {
    b: B,
    fx: Vec<Fx>,
    on: bool,
}
struct Sim {
    w: W,
    s: Vec<Option<Slot>>,
    next: u32,
}

fn fixtures_of(slot: usize) -> Vec<Sh> {
    match slot {
        0 => vec![Sh::Loop(vec![(-1.5, -1.0), (1.5, -1.0), (1.25, 0.75), (-1.25, 0.5)])],
        1 => vec![Sh::Box(0.5, 0.25), Sh::Circle(0.3, 0.75, 0.25)],
        3 => [(-2.0, 1.5), (2.0, -1.25), (0.25, 2.0), (-1.75, -1.5), (2.25, 1.75), (-2.5, 0.0)].iter().map(|q| Sh::Circle(0.2, q.0, q.1)).collect(),
        _ => vec![Sh::Poly(vec![(-0.5, -0.5), (0.5, -0.25), (0.25, 0.5)]), Sh::Edge((-0.75, 0.25), (0.75, 0.5))],
    }
}
fn place(slot: usize) -> (f32, f32, f32) {
    [(0.0, -0.5, 0.0), (-0.5, 0.75, 0.3), (1.0, 0.25, -0.4), (0.0, 0.0, 0.0)][slot]
}

/// A fixture that collides with nothing, so that overlapping bodies do not push each other.
fn ghost(b: &B, sh: &Sh, id: u32) -> F {
    let mut d = fdef(sh);
    d.user_data = Some(id);
    d.filter.group_index = -1;
    B2body::create_fixture(b.clone(), &d)
}

impl Sim {
    fn new() -> Sim {
        let w = world(0.0, 0.0);
        let mut r = Sim { w, s: vec![None, None, None, None], next: 1 };
        for k in [3, 0, 1, 2] {
            r.make(k, place(k));
        }
        r
    }
    fn make(&mut self, k: usize, at: (f32, f32, f32)) {
        let b = body(&self.w, if k % 3 == 0 { ST } else { DY }, at.0, at.1, at.2);
        let mut slot = Slot { b, fx: vec![], on: true };
        for sh in fixtures_of(k) {
            let f = ghost(&slot.b, &sh, self.next);
            slot.fx.push(Fx { f, sh, id: self.next });
            self.next += 1;
        }
        self.s[k] = Some(slot);
    }
    fn op(&mut self, o: usize) {
        if o == OPS - 1 {
            step(&self.w, 0.25);
            return;
        }
        if o == OPS - 2 {
            self.w.borrow().shift_origin(v(0.75, -0.5));
            return;
        }
        let (k, what) = (o / PER, o % PER);
        if self.s[k].is_none() {
            if what <= 1 {
                self.make(k, [place(k), (0.5, 1.25, 2.0)][what]);
            }
            return;
        }
        let w = self.w.clone();
        let slot = self.s[k].as_mut().unwrap();
        match what {
            0 => {
                w.borrow_mut().destroy_body(slot.b.clone());
                self.s[k] = None;
            }
            1 => slot.b.borrow_mut().set_transform(v(1.75, 1.0), 0.9),
            2 => slot.b.borrow_mut().set_transform(v(-1.25, -0.25), -2.2),
            3 => {
                slot.on = !slot.on;
                let on = slot.on;
                B2body::set_enabled(slot.b.clone(), on);
            }
            4 => {
                slot.b.borrow_mut().set_linear_velocity(v(-2.0, 1.0));
                slot.b.borrow_mut().set_angular_velocity(3.0);
            }
            5 => {
                if slot.fx.len() < 3 {
                    let sh = Sh::BoxAt(0.25, 0.6, -0.25, 0.5, 0.7);
                    let f = ghost(&slot.b, &sh, self.next);
                    slot.fx.push(Fx { f, sh, id: self.next });
                    self.next += 1;
                }
            }
            _ => {
                if !slot.fx.is_empty() {
                    let f = slot.fx.remove(0);
                    B2body::destroy_fixture(slot.b.clone(), f.f);
                }
            }
        }
    }
    /// Every shape child that can be found, with its placed core.
    fn children(&self) -> Vec<(u32, Core, bool, bool)> {
        let mut r = vec![];
        for s in self.s.iter().flatten() {
            if s.on {
                let x = X::from(&s.b.borrow().get_transform());
                for f in &s.fx {
                    for c in 0..f.sh.children() {
                        r.push((f.id, f.sh.core(c).at(&x), f.sh.is_poly(), matches!(f.sh, Sh::EdgeOne(..))));
                    }
                }
            }
        }
        r
    }
}

const PER: usize = 7;
const OPS: usize = 3 * PER + 2;

fn oname(o: usize) -> String {
    if o == OPS - 1 {
        return "step".into();
    }
    if o == OPS - 2 {
        return "shift origin".into();
    }
    format!("{} {}", ["destroy/create", "move away/create elsewhere", "move left", "toggle enabled", "push", "add fixture", "drop fixture"][o % PER], o / PER)
}

fn boxes() -> Vec<[f32; 4]> {
    let mut r = vec![];
    for x in [-2.5f32, -0.75, 0.4, 1.6] {
        for y in [-1.75f32, -0.2, 0.9] {
            r.push([x, y, x + 0.15, y + 0.1]);
            r.push([x, y, x + 1.2, y + 0.9]);
        }
    }
    r.push([-9.0, -9.0, 9.0, 9.0]);
    r.push([5.0, 5.0, 6.0, 6.0]);
    r
}
fn rays() -> Vec<(P, P)> {
    let mut r = vec![];
    for k in 0..9 {
        let t = k as f64 * 0.43 - 1.67;
        r.push((p(-3.1, t), p(3.2, t * 0.7 + 0.2)));
        r.push((p(t, 2.9), p(t * 0.8 - 0.3, -2.7)));
        r.push((p(2.7, t - 0.4), p(-2.4, -t)));
    }
    r.push((p(-0.45, 0.72), p(2.6, -1.9)));
    r.push((p(0.1, 0.05), p(0.1, 3.0)));
    r
}

fn check_queries(s: &Sim, c: &mut Ctx) -> R {
    let fats = fat_boxes(&s.w);
    let kids = s.children();
    ensure!(fats.len() == kids.len(), "a query of everything reports {} children, there are {}", fats.len(), kids.len());
    // every child is there once and its stored box covers it
    let mut left: Vec<(u32, [f32; 4])> = fats.iter().map(|(f, b)| (f.borrow().get_user_data().unwrap(), *b)).collect();
    for (id, core, _, _) in &kids {
        let (lo, hi) = core.bounds();
        let e = 1e-4;
        let q = left.iter().position(|(i, b)| i == id && b[0] as f64 <= lo.x + e && b[1] as f64 <= lo.y + e && b[2] as f64 >= hi.x - e && b[3] as f64 >= hi.y - e);
        match q {
            Some(k) => {
                left.remove(k);
            }
            None => return Err(format!("no stored box of fixture {} covers {:?}..{:?}", id, lo, hi)),
        }
    }
    for b in boxes() {
        let mut want: Vec<u32> = fats.iter().filter(|(_, f)| crate::wsim::overlap4(f, &b)).map(|(f, _)| f.borrow().get_user_data().unwrap()).collect();
        let mut got = vec![];
        s.w.borrow().query_aabb(
            |f: F| {
                got.push(f.borrow().get_user_data().unwrap());
                true
            },
            aabb(b[0], b[1], b[2], b[3]),
        );
        want.sort();
        got.sort();
        ensure!(got == want, "query {:?} reports fixtures {:?}, should be {:?}", b, got, want);
        // stopping after each number of reports
        for stop in 1..=want.len() {
            let mut n = 0;
            s.w.borrow().query_aabb(
                |_f: F| {
                    n += 1;
                    n < stop
                },
                aabb(b[0], b[1], b[2], b[3]),
            );
            ensure!(n == stop, "query {:?} made {} reports although told to stop after {}", b, n, stop);
        }
        c.step(1 + want.len() as u64);
        c.eval(1 + want.len() as u64);
    }
    Ok(())
}

/// A policy gives the callback's answer for each distinct hit fixture: ignore, stop, clip, continue, or clip to a fixed fraction.
fn check_rays(s: &Sim, c: &mut Ctx) -> R {
    let kids = s.children();
    for (p1, p2) in rays() {
        let refs: Vec<(u32, Hit2, Option<P>)> = kids.iter().map(|(id, core, poly, one)| {
            let (h, n) = reference(core, *poly, *one, p1, p2, 1.0);
            (*id, h, n)
        }).collect();
        let mut ids: Vec<u32> = refs.iter().filter(|r| r.1 != Hit2::Miss).map(|r| r.0).collect();
        ids.sort();
        ids.dedup();
        let np = 5usize.pow(ids.len().min(3) as u32);
        for pol in 0..np {
            let answer = |id: u32, fr: f32| -> f32 {
                let k = ids.iter().position(|x| *x == id).unwrap_or(0).min(2) as u32;
                match (pol / 5usize.pow(k)) % 5 {
                    0 => fr,
                    1 => 1.0,
                    2 => -1.0,
                    3 => 0.0,
                    _ => 0.5 * (1.0 + fr),
                }
            };
            let reports: RefCell<Vec<(u32, B2vec2, B2vec2, f32, f32)>> = RefCell::new(vec![]);
            s.w.borrow().ray_cast(
                |f: F, point: B2vec2, normal: B2vec2, fr: f32| -> f32 {
                    let id = f.borrow().get_user_data().unwrap();
                    let a = answer(id, fr);
                    reports.borrow_mut().push((id, point, normal, fr, a));
                    a
                },
                vp(p1),
                vp(p2),
            );
            let reports = reports.into_inner();
            // current length of the cast, and the shortest it has been
            let (mut m, mut least) = (1.0f64, 1.0f64);
            let mut stopped = false;
            let mut done = vec![false; refs.len()];
            for (id, point, normal, fr, a) in &reports {
                ensure!(!stopped, "ray {:?}->{:?}: report after the callback stopped the cast", p1, p2);
                let fr = *fr as f64;
                ensure!(fr <= m + 1e-5, "ray {:?}->{:?}: fixture {} reported at {} beyond the clipped length {}", p1, p2, id, fr, m);
                let at = p1 + (p2 - p1) * fr;
                ensure!((pv(*point) - at).len() < 1e-4, "ray {:?}->{:?}: reported point {:?} is not at the fraction {}", p1, p2, point, fr);
                let k = (0..refs.len()).find(|k| {
                    refs[*k].0 == *id && !done[*k] && match refs[*k].1 {
                        Hit2::At(t, tol) => (t - fr).abs() < tol + 1e-4,
                        Hit2::Skip => true,
                        Hit2::Miss => false,
                    }
                });
                let k = match k {
                    Some(k) => k,
                    None => return Err(format!("ray {:?}->{:?}: fixture {} reported at {}, which is not a (further) hit", p1, p2, id, fr)),
                };
                done[k] = true;
                if let (Hit2::At(..), Some(n)) = (refs[k].1, refs[k].2) {
                    ensure!((pv(*normal) - n).len() < 0.02 || kids[k].2, "ray {:?}->{:?}: normal {:?} of fixture {} should be {:?}", p1, p2, normal, id, n);
                }
                ensure!(pv(*normal).dot(p2 - p1) < 1e-3 && (pv(*normal).len() - 1.0).abs() < 1e-3, "ray {:?}->{:?}: normal {:?}", p1, p2, normal);
                if *a == 0.0 {
                    stopped = true;
                } else if *a > 0.0 {
                    m = *a as f64;
                    least = least.min(m);
                }
            }
            if !stopped {
                for (k, r) in refs.iter().enumerate() {
                    if let Hit2::At(t, tol) = r.1 {
                        if !done[k] {
                            ensure!(t > least - tol - 1e-4, "ray {:?}->{:?}: fixture {} at {} is not reported although the cast still reached {} (reports {:?})", p1, p2, r.0, t, least, reports);
                        }
                    }
                }
            }
            c.step(1);
            c.eval(1 + reports.len() as u64);
        }
    }
    Ok(())
}

pub fn check() -> Check {
    let th = thorough();
    let depth = if th { 5 } else { 4 };
    let mut phases = vec![];
    for (name, mode) in [("boxes", 0usize), ("rays", 1)] {
        let depth = if mode == 1 { depth - 1 } else { depth };
        phases.push(phase(
            name,
            seq_count(OPS, depth),
            move |i| format!("operations {:?}", decode_seq(i, OPS, depth).iter().map(|o| oname(*o)).collect::<Vec<_>>()),
            move |i, c| {
                let mut s = Sim::new();
                for o in decode_seq(i, OPS, depth) {
                    s.op(o);
                    c.step(1);
                }
                c.state(hash_world(&s.w));
                if mode == 0 {
                    check_queries(&s, c)
                } else {
                    check_rays(&s, c)
                }
            },
        ));
    }
    Check {
        id: "C08",
        bounds: format!("every sequence of up to {} operations out of {} on a world of four bodies with eleven fixtures of all shape kinds, {} query boxes with every stopping point; every sequence of up to {} operations, {} rays, every assignment of five callback answers to the hit fixtures", depth, OPS, boxes().len(), depth - 1, rays().len()),
        assumptions: vec!["hits within 1e-4 of grazing or of a ray end are not judged".into()],
        phases,
    }
}
