//! C17: contact response. Every step is accounted for from the listener's manifold and impulses.
use crate::ensure;
use crate::fw::*;
use crate::geom::*;
use crate::kit::*;
use box2d_rs::b2_contact::G_BLOCK_SOLVE;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::Ordering;

#[derive(Clone, Copy, Debug)]
struct Mat {
    f: f64,
    e: f64,
    th: f64,
    ts: f64,
}

/// Fixture user data is 10 * body index + serial.
struct Scn {
    w: W,
    b: Vec<B>,
    gs: Vec<f64>,
    rec: Rc<RefCell<Rec>>,
    g: P,
}

struct Hit {
    a: usize,
    b: usize,
    ra: [P; 2],
    rb: [P; 2],
    n: P,
    jn: [f64; 2],
    jt: [f64; 2],
    cnt: usize,
    cid: Cid,
}

impl Scn {
    fn new(g: P) -> Scn {
        let w = world(g.x as f32, g.y as f32);
        w.borrow_mut().set_continuous_physics(false);
        w.borrow_mut().set_allow_sleeping(false);
        let rec = listen(&w);
        Scn { w, b: vec![], gs: vec![], rec, g: pv(vp(g)) }
    }
    fn add(&mut self, b: B) -> usize {
        self.gs.push(b.borrow().get_gravity_scale() as f64);
        self.b.push(b);
        self.b.len() - 1
    }
    /// Steps and accounts for every velocity change. Returns the states before and after and the contacts solved.
    fn step(&mut self, h: f32, vi: i32, pi: i32, c: &mut Ctx) -> Result<(Vec<Bs>, Vec<Bs>, Vec<Hit>), String> {
        let before: Vec<Bs> = self.b.iter().map(bstate).collect();
        self.rec.borrow_mut().ev.clear();
        self.w.borrow_mut().step(h, vi, pi);
        c.step(1);
        let after: Vec<Bs> = self.b.iter().map(bstate).collect();
        let h = h as f64;
        let mut hits: Vec<Hit> = vec![];
        let rec = self.rec.borrow();
        for e in &rec.ev {
            if let Ev::Post(id, po) = e {
                let pre = rec.ev.iter().find_map(|e| match e {
                    Ev::Pre(i, q) if i == id => Some(q.clone()),
                    _ => None,
                });
                let pre = match pre {
                    Some(q) => q,
                    None => return Err(format!("contact {:?} was solved without being announced", id)),
                };
                ensure!(!rec.disable.contains(id), "contact {:?} was switched off but solved", id);
                let cnt = po.count as usize;
                ensure!(cnt >= 1 && cnt <= pre.points, "{} impulses for {} points", cnt, pre.points);
                let (a, b) = ((pre.a / 10) as usize, (pre.b / 10) as usize);
                hits.push(Hit {
                    a,
                    b,
                    ra: [pre.pts[0] - before[a].c, pre.pts[1] - before[a].c],
                    rb: [pre.pts[0] - before[b].c, pre.pts[1] - before[b].c],
                    n: pre.n,
                    jn: po.jn,
                    jt: po.jt,
                    cnt,
                    cid: *id,
                });
            }
        }
        for k in 0..self.b.len() {
            let (o, q) = (&before[k], &after[k]);
            let dy = self.b[k].borrow().get_type() == DY;
            let mut lin = p(0.0, 0.0);
            let mut ang = 0.0;
            let mut size = 0.0;
            for t in &hits {
                for j in 0..t.cnt {
                    let imp = t.n * t.jn[j] + t.n.right() * t.jt[j];
                    if t.a == k {
                        lin -= imp;
                        ang -= t.ra[j].cross(imp);
                        size += imp.len();
                    }
                    if t.b == k {
                        lin += imp;
                        ang += t.rb[j].cross(imp);
                        size += imp.len();
                    }
                }
            }
            if dy {
                let want = o.v + self.g * (h * self.gs[k]) + lin * (1.0 / o.m);
                let tol = 1e-5 * (1.0 + o.v.len() + q.v.len()) + 3e-5 * size / o.m;
                ensure!(pclose(q.v, want, tol), "body {} velocity {:?}, impulses give {:?} (before {:?})", k, q.v, want, o.v);
                let (want, tol) = if o.i > 0.0 { (o.w + ang / o.i, 1e-5 * (1.0 + o.w.abs() + q.w.abs()) + 3e-5 * size / o.i) } else { (o.w, 1e-6 * (1.0 + o.w.abs())) };
                ensure!((q.w - want).abs() <= tol, "body {} angular velocity {}, impulses give {} (before {})", k, q.w, want, o.w);
            } else {
                ensure!(q.v == o.v && q.w == o.w, "body {} cannot be moved by contacts but went from {:?} to {:?}", k, o, q);
            }
            c.eval(2);
        }
        for t in &hits {
            for j in 0..t.cnt {
                ensure!(t.jn[j] >= 0.0, "contact {:?} pulls with {}", t.cid, t.jn[j]);
                ensure!(t.jn[j].is_finite() && t.jt[j].is_finite(), "impulse not finite");
                c.eval(1);
            }
        }
        Ok((before, after, hits))
    }
    /// With enough iterations the impulses of a single contact are the solution of the contact problem.
    fn solved(&self, h: f64, m: Mat, before: &[Bs], after: &[Bs], t: &Hit, c: &mut Ctx) -> R {
        let v1 = |k: usize| if self.b[k].borrow().get_type() == DY { before[k].v + self.g * (h * self.gs[k]) } else { before[k].v };
        let speed = before[t.a].v.len() + before[t.b].v.len() + before[t.a].w.abs() + before[t.b].w.abs() + 1.0;
        for j in 0..t.cnt {
            let (a, b) = (t.a, t.b);
            let rel0 = v1(b) + t.rb[j].spin(before[b].w) - v1(a) - t.ra[j].spin(before[a].w);
            let rel = after[b].v + t.rb[j].spin(after[b].w) - after[a].v - t.ra[j].spin(after[a].w);
            let (vn0, vn, vt) = (rel0.dot(t.n), rel.dot(t.n), rel.dot(t.n.right()) - m.ts);
            let slack = if G_BLOCK_SOLVE.load(Ordering::SeqCst) { 4e-4 } else { 2e-3 };
            let tv = slack * speed;
            // rebound only above the threshold; right at it either is accepted
            let biases: Vec<f64> = if (vn0 + m.th).abs() < 1e-5 * speed { vec![0.0, -m.e * vn0] } else if vn0 < -m.th { vec![-m.e * vn0] } else { vec![0.0] };
            let tj = slack * (speed + t.jn[j]);
            ensure!(
                biases.iter().any(|bias| vn >= bias - tv && (t.jn[j] <= tj || vn <= bias + tv)),
                "point {} approaches at {} and leaves at {}, impulse {}, material {:?}",
                j, vn0, vn, t.jn[j], m
            );
            ensure!(t.jt[j].abs() <= m.f * t.jn[j] + tj, "friction {} above {} x {}", t.jt[j], m.f, t.jn[j]);
            if vt.abs() > tv {
                ensure!(t.jt[j] * vt <= tj * vt.abs(), "friction {} drives the sliding {} on", t.jt[j], vt);
                ensure!(t.jt[j].abs() >= m.f * t.jn[j] - tj, "slides at {} with friction {} below {} x {}", vt, t.jt[j], m.f, t.jn[j]);
            }
            c.eval(4);
        }
        Ok(())
    }
}

/// Placements of the second shape on the first, outward normal roughly up.
fn pairs() -> Vec<(Sh, Sh, (f32, f32, f32))> {
    vec![
        (Sh::Circle(0.5, 0.0, 0.0), Sh::Circle(0.25, 0.0, 0.0), (0.0, 0.745, 0.0)),
        (Sh::Circle(0.5, 0.0, 0.0), Sh::Circle(0.5, 0.25, 0.0), (-0.5, 0.95, 0.0)),
        (Sh::Box(1.0, 0.5), Sh::Circle(0.5, 0.0, 0.0), (0.3, 0.998, 0.0)),
        (Sh::Circle(0.5, 0.0, 0.0), Sh::Box(0.5, 0.25), (0.2, 0.75, 0.0)),
        (Sh::Box(1.0, 0.5), Sh::Box(0.5, 0.5), (0.0, 1.0, 0.0)),
        (Sh::Box(1.0, 0.5), Sh::Box(0.5, 0.25), (0.8, 0.755, 0.0)),
        (Sh::Box(2.0, 0.5), Sh::Box(0.5, 0.5), (-0.2, 0.5 + 0.70710677, std::f32::consts::FRAC_PI_4)),
        (Sh::Edge((-2.0, 0.0), (2.0, 0.0)), Sh::Box(0.5, 0.5), (0.2, 0.505, 0.0)),
        (Sh::Edge((-2.0, 0.0), (2.0, 0.0)), Sh::Circle(0.5, 0.0, 0.0), (0.2, 0.505, 0.0)),
        (Sh::Chain(vec![(2.0, 0.0), (0.0, 0.0), (-2.0, 0.0)], (3.0, 0.0), (-3.0, 0.0)), Sh::Poly(vec![(-0.5, 0.0), (0.5, 0.0), (0.0, 1.0)]), (-1.0, 0.004, 0.0)),
        (Sh::Poly(vec![(-1.0, -0.5), (1.0, -0.5), (0.0, 0.5)]), Sh::Circle(0.25, 0.0, 0.0), (0.0, 0.75, 0.0)),
        (Sh::Box(1.0, 0.5), Sh::BoxAt(0.4, 0.25, 0.1, 0.0, 0.0), (0.0, 0.75, 0.0)),
    ]
}

#[derive(Clone, Copy, Debug)]
struct Pair {
    pair: usize,
    kind: usize,
    rot: f64,
    vel: (f64, f64),
    spin: f32,
    mat: usize,
    over: usize,
    g: f64,
    warm: bool,
    hs: (f32, f32),
    fixed: bool,
}
const NPAIR: usize = 12;
fn pair_case(i: u64) -> Pair {
    let mut d = Dec::new(i);
    Pair {
        pair: d.d(NPAIR),
        kind: d.d(5),
        rot: d.p(&[0.0, 2.1]),
        vel: (d.p(&[0.0, 2.0, -1.0]), d.p(&[-3.0, -0.75, 0.0, 1.0])),
        spin: d.p(&[0.0, 3.0, -1.0]),
        mat: d.d(6),
        over: d.d(5),
        g: d.p(&[-10.0, 0.0]),
        warm: d.b(),
        hs: d.p(&[(1.0 / 60.0, 1.0 / 60.0), (1.0 / 60.0, 1.0 / 30.0), (1.0 / 20.0, 1.0 / 120.0)]),
        fixed: d.b(),
    }
}
const NCASE: u64 = (NPAIR * 5 * 2 * 12 * 3 * 6 * 5 * 2 * 2 * 3 * 2) as u64;
/// friction, restitution, threshold of either fixture
const MATS: [[f32; 6]; 6] = [
    [0.5, 0.5, 0.0, 0.0, 1.0, 1.0],
    [0.0, 0.9, 0.5, 0.0, 1.0, 1.0],
    [0.2, 0.8, 0.25, 0.75, 0.5, 2.0],
    [1.0, 0.25, 0.0, 1.0, 5.0, 5.0],
    [0.9, 0.4, 0.5, 0.5, 2.0, 0.0],
    [0.1, 0.1, 0.0, 0.3, 1.0, 0.8],
];

fn pair_scene(q: &Pair) -> (Scn, Mat) {
    let (sa, sb, at) = pairs()[q.pair].clone();
    let x = X::new(p(0.5, -0.25), q.rot);
    let mut s = Scn::new(x.rot(p(0.0, q.g)));
    s.w.borrow_mut().set_warm_starting(q.warm);
    let mt = MATS[q.mat];
    let put = |s: &mut Scn, t, at: P, a: f64, vel: P, om: f32, sh: &Sh, density: f32, k: usize, fixed: bool| {
        let o = x.at(at);
        let mut d = bdef(t, o.x as f32, o.y as f32, (a + q.rot) as f32);
        d.linear_velocity = vp(x.rot(vel));
        d.angular_velocity = om;
        d.fixed_rotation = fixed;
        d.gravity_scale = if k == 1 { 1.0 } else { 0.5 };
        let b = box2d_rs::b2_world::B2world::create_body(s.w.clone(), &d);
        let mut f = fdef(sh);
        f.density = density;
        f.friction = mt[k];
        f.restitution = mt[2 + k];
        f.restitution_threshold = mt[4 + k];
        f.user_data = Some(10 * k as u32);
        box2d_rs::b2_body::B2body::create_fixture(b.clone(), &f);
        s.add(b);
    };
    let massless = sa.is_edge() || sa.is_chain();
    let (ta, da, va, wa) = match q.kind {
        0 => (ST, 1.0, p(0.0, 0.0), 0.0),
        1 => (KI, 1.0, p(0.3, 0.5), 0.7),
        2 => (DY, 1.0, p(0.0, 0.0), 0.0),
        3 => (DY, 8.0, p(-0.5, 0.0), 0.0),
        _ => (DY, 0.2, p(0.0, 0.25), -0.5),
    };
    let ta = if massless && ta == DY { ST } else { ta };
    let (va, wa) = if ta == ST { (p(0.0, 0.0), 0.0) } else { (va, wa) };
    put(&mut s, ta, p(0.0, 0.0), 0.0, va, wa, &sa, da, 0, false);
    put(&mut s, DY, p(at.0 as f64, at.1 as f64), at.2 as f64, p(q.vel.0, q.vel.1), if q.fixed { 0.0 } else { q.spin }, &sb, 1.0, 1, q.fixed);
    let mut m = Mat { f: ((mt[0] * mt[1]) as f64).sqrt(), e: mt[2].max(mt[3]) as f64, th: mt[4].min(mt[5]) as f64, ts: 0.0 };
    {
        let mut r = s.rec.borrow_mut();
        match q.over {
            1 => {
                r.tangent = Some(1.5);
                m.ts = 1.5;
            }
            2 => {
                r.friction = Some(0.05);
                m.f = 0.05f32 as f64;
            }
            3 => {
                r.restitution = Some(0.6);
                m.e = 0.6f32 as f64;
            }
            4 => r.disable = (0..2).map(|k| (0, k, 10, 0)).collect(),
            _ => {}
        }
    }
    (s, m)
}

fn pair_run(i: u64, block: bool, iters: i32, c: &mut Ctx) -> R {
    G_BLOCK_SOLVE.store(block, Ordering::SeqCst);
    let q = pair_case(i);
    if q.pair >= 7 && q.pair <= 9 && q.kind >= 2 {
        return Ok(()); // edges and chains have no mass; same as the static case
    }
    if q.fixed && q.spin != 0.0 {
        return Ok(());
    }
    let (mut s, m) = pair_scene(&q);
    for (k, h) in [q.hs.0, q.hs.1].iter().enumerate() {
        let (b, a, hits) = s.step(*h, iters, 3, c)?;
        if k == 0 && q.over != 4 {
            ensure!(!hits.is_empty(), "touching shapes were not solved");
        }
        if q.over == 4 {
            ensure!(hits.is_empty(), "disabled contact solved");
        }
        for t in &hits {
            ensure!(t.n.len() > 0.999 && t.n.len() < 1.001, "normal {:?}", t.n);
        }
        if hits.len() == 1 && iters >= 50 {
            s.solved(*h as f64, m, &b, &a, &hits[0], c)?;
        }
        for x in s.w.borrow().get_contact_list().iter() {
            let x = x.borrow();
            let x = x.get_base();
            if !x.is_touching() && (q.over == 2 || q.over == 3) {
                continue; // not announced yet, so not overridden
            }
            ensure!(close(x.get_friction() as f64, m.f, 1e-6) && close(x.get_restitution() as f64, m.e, 1e-6) && close(x.get_restitution_threshold() as f64, m.th, 1e-6), "mixed material {} {} {} expected {:?}", x.get_friction(), x.get_restitution(), x.get_restitution_threshold(), m);
        }
        c.state(hash_world(&s.w));
    }
    Ok(())
}

/// Overlapping bodies at rest are pushed apart to the slop and no further, without gaining speed.
fn push(i: u64, c: &mut Ctx) -> R {
    G_BLOCK_SOLVE.store(true, Ordering::SeqCst);
    let mut d = Dec::new(i);
    let pr = d.d(NPAIR);
    let kind = d.d(4);
    let rot = d.p(&[0.0, 0.8, 2.1]);
    let deep = d.p(&[-0.003, 0.002, 0.01, 0.05, 0.2, 0.4]);
    let pi = d.p(&[1, 3, 10]);
    let h = d.p(&[1.0 / 60.0f32, 1.0 / 10.0]);
    let swap = d.b();
    let (sa, sb, at) = pairs()[pr].clone();
    if (sa.is_edge() || sa.is_chain()) && kind >= 2 {
        return Ok(());
    }
    let x = X::new(p(-1.5, 0.25), rot);
    let mut s = Scn::new(p(0.0, 0.0));
    let mk = |s: &mut Scn, t, o: P, a: f64, sh: &Sh, den: f32, k: u32| {
        let o = x.at(o);
        let b = body(&s.w, t, o.x as f32, o.y as f32, (a + rot) as f32);
        fixu(&b, sh, den, k * 10);
        s.add(b);
    };
    let (ta, da) = [(ST, 1.0), (KI, 1.0), (DY, 1.0), (DY, 10.0)][kind];
    let pb = p(at.0 as f64, at.1 as f64 - deep);
    if swap {
        mk(&mut s, DY, pb, at.2 as f64, &sb, 1.0, 0);
        mk(&mut s, ta, p(0.0, 0.0), 0.0, &sa, da, 1);
    } else {
        mk(&mut s, ta, p(0.0, 0.0), 0.0, &sa, da, 0);
        mk(&mut s, DY, pb, at.2 as f64, &sb, 1.0, 1);
    }
    let sep = |s: &Scn| {
        let (a, b) = if swap { (1, 0) } else { (0, 1) };
        let xa = X::new(bstate(&s.b[a]).pos, bstate(&s.b[a]).ang);
        let xb = X::new(bstate(&s.b[b]).pos, bstate(&s.b[b]).ang);
        let mut best = f64::MAX;
        for ch in 0..sa.children() {
            let (ca, cb) = (sa.core(ch).at(&xa), sb.core(0).at(&xb));
            best = best.min(core_sep(&ca, &cb).0 - ca.r - cb.r);
        }
        best
    };
    let first = sep(&s);
    let mut last = first;
    let total0: P = (0..2).map(|k| bstate(&s.b[k])).fold(p(0.0, 0.0), |t, q| t + q.c * q.m);
    let origin: Vec<Bs> = s.b.iter().map(bstate).collect();
    let steps = if thorough() { 400 } else { 120 };
    for _ in 0..steps {
        let (b, a, hits) = s.step(h, 8, pi, c)?;
        for k in 0..2 {
            ensure!(a[k].v.len() < 1e-5 && a[k].w.abs() < 1e-4, "body {} gains speed {:?} {}", k, a[k].v, a[k].w);
            ensure!((a[k].c - b[k].c).len() <= 0.2 * 2.0 * pi as f64 + 1e-3, "body {} is thrown from {:?} to {:?}", k, b[k].c, a[k].c);
        }
        if kind >= 2 {
            // equal and opposite along one line: nothing turns as a whole
            let mid = (b[0].c * b[0].m + b[1].c * b[1].m) * (1.0 / (b[0].m + b[1].m));
            let (mut turn, mut scale) = (0.0, 0.0);
            for k in 0..2 {
                let (d, t) = (a[k].c - b[k].c, a[k].ang - b[k].ang);
                turn += a[k].m * ((a[k].c + b[k].c) * 0.5 - mid).cross(d) + a[k].i * t;
                scale += a[k].m * d.len() + a[k].i * t.abs();
            }
            ensure!(turn.abs() <= 1e-5 * (a[0].m + a[1].m) + 0.02 * scale, "pushing apart turns the pair by {} of {}", turn, scale);
        }
        for t in &hits {
            ensure!(t.jn[0] < 1e-5 && t.jn[1] < 1e-5, "an overlap alone gives an impulse {:?}", t.jn);
        }
        let now = sep(&s);
        if sa.core(0).v.len() != 2 {
            ensure!(now >= last - 1e-4 || now >= -0.011, "overlap grows from {} to {}", last, now);
        }
        last = now;
        c.eval(3);
    }
    let end: Vec<Bs> = s.b.iter().map(bstate).collect();
    if kind >= 2 {
        let total = end.iter().fold(p(0.0, 0.0), |t, q| t + q.c * q.m);
        ensure!(pclose(total, total0, 2e-4 * (end[0].m + end[1].m)), "the common centre of mass moved from {:?} to {:?}", total0, total);
    } else {
        let k = if swap { 1 } else { 0 };
        ensure!(end[k].pos == origin[k].pos && end[k].ang == origin[k].ang, "the immovable body moved");
    }
    // edges may let go of a deep overlap; solids are pushed out completely
    if sa.core(0).v.len() != 2 {
        ensure!(last >= -0.0075, "still overlapping by {} (from {})", last, first);
    }
    if first >= -0.0045 {
        ensure!(end.iter().zip(&origin).all(|(a, b)| pclose(a.c, b.c, 1e-6) && (a.ang - b.ang).abs() < 1e-6), "overlap within the slop was moved");
    } else if sa.core(0).v.len() != 2 {
        let polys = sa.core(0).v.len() > 1 && sb.core(0).v.len() > 1;
        ensure!(polys || last <= -0.0045 || first >= -0.0055, "pushed beyond the slop to {} (from {})", last, first);
    }
    c.state(hash_world(&s.w));
    Ok(())
}

/// A body on a slope: sticks, slides or rolls as Coulomb friction says.
fn slope(i: u64, c: &mut Ctx) -> R {
    G_BLOCK_SOLVE.store(true, Ordering::SeqCst);
    let mut d = Dec::new(i);
    let ang = d.p(&[0.0, 0.1, 0.3, 0.5, 0.9]);
    let mu = d.p(&[0.0f32, 0.05, 0.2, 0.4, 0.9, 1.8]);
    let round = d.b();
    let ground = d.d(3);
    let warm = d.b();
    let h = d.p(&[1.0f32 / 60.0, 1.0 / 120.0]);
    let left = d.b();
    let g = 10.0;
    let ang: f64 = if left { -ang } else { ang };
    let mut s = Scn::new(p(0.0, -g));
    s.w.borrow_mut().set_warm_starting(warm);
    let gb = body(&s.w, ST, 0.0, 0.0, ang as f32);
    let gs = match ground {
        0 => Sh::Box(30.0, 0.5),
        1 => Sh::Edge((-30.0, 0.5), (30.0, 0.5)),
        _ => Sh::Chain(vec![(30.0, 0.5), (-30.0, 0.5)], (40.0, 0.5), (-40.0, 0.5)),
    };
    let put = |s: &mut Scn, b: B, sh: &Sh, k: u32| {
        let mut f = fdef(sh);
        f.friction = mu;
        f.user_data = Some(k * 10);
        box2d_rs::b2_body::B2body::create_fixture(b.clone(), &f);
        s.add(b);
    };
    put(&mut s, gb, &gs, 0);
    let x = X::new(p(0.0, 0.0), ang);
    let skin = if round { 0.01 } else { 0.02 };
    // low enough not to tip over
    let hy: f32 = if round || ang.abs() < 0.6 { 0.5 } else { 0.1 };
    let o = x.at(p(0.0, 0.5 + hy as f64 + skin - 0.005));
    let b = body(&s.w, DY, o.x as f32, o.y as f32, ang as f32);
    let sh = if round { Sh::Circle(0.5, 0.0, 0.0) } else { Sh::Box(0.5, hy) };
    put(&mut s, b, &sh, 1);
    let n = (0.5 / h as f64) as usize;
    let along = x.rot(p(1.0, 0.0));
    let up = x.rot(p(0.0, 1.0));
    for _ in 0..n {
        let (_, a, hits) = s.step(h, if warm { 8 } else { 60 }, 3, c)?;
        ensure!(hits.len() == 1, "contact lost on the slope");
        ensure!(a[1].v.dot(up).abs() < 2e-3, "lifts off the slope at {}", a[1].v.dot(up));
        let jn: f64 = hits[0].jn.iter().take(hits[0].cnt).sum();
        ensure!(close(jn, a[1].m * g * ang.cos() * h as f64, 1e-2), "normal impulse {} of a weight {}", jn, a[1].m * g * h as f64);
        c.eval(2);
    }
    let t = n as f64 * h as f64;
    let q = bstate(&s.b[1]);
    let pull = -g * ang.sin();
    let muf = (mu as f64 * mu as f64).sqrt();
    let (acc, rolls) = if round {
        if muf >= ang.tan().abs() / 3.0 {
            (pull * 2.0 / 3.0, true)
        } else {
            (pull - pull.signum() * muf * g * ang.cos(), false)
        }
    } else if muf >= ang.tan().abs() {
        (0.0, false)
    } else {
        (pull - pull.signum() * muf * g * ang.cos(), false)
    };
    let border = if round { (muf - ang.tan().abs() / 3.0).abs() } else { (muf - ang.tan().abs()).abs() };
    if border > 0.01 {
        let want = acc * t;
        let got = q.v.dot(along);
        ensure!((got - want).abs() < 0.02 * want.abs() + 0.01, "speed down the slope {} expected {}", got, want);
        let dist = (q.pos - o).dot(along);
        ensure!((dist - 0.5 * acc * t * t).abs() < 0.03 * (0.5 * acc * t * t).abs() + 0.01 + acc.abs() * t * h as f64, "distance {} expected {}", dist, 0.5 * acc * t * t);
        if rolls {
            ensure!((q.w * 0.5 + got).abs() < 0.02 * want.abs() + 0.01, "rolling at {} with spin {}", got, q.w);
        }
        if acc == 0.0 {
            ensure!(dist.abs() < 0.01, "crept {}", dist);
        }
        c.eval(3);
    }
    c.state(hash_world(&s.w));
    Ok(())
}

/// Piles stay put and carry their weight; every step is accounted for.
fn pile(i: u64, c: &mut Ctx) -> R {
    G_BLOCK_SOLVE.store(true, Ordering::SeqCst);
    let mut d = Dec::new(i);
    let layout = d.d(5);
    let ground = d.d(3);
    let warm = d.b();
    let h = d.p(&[1.0f32 / 60.0, 1.0 / 120.0]);
    let mu = d.p(&[0.3f32, 0.8]);
    let den = d.p(&[1.0f32, 0.5, 2.0]);
    let order = d.b();
    let gap = d.p(&[0.015, 0.0]);
    let g = 10.0;
    let mut s = Scn::new(p(0.0, -g));
    s.w.borrow_mut().set_warm_starting(warm);
    let gb = body(&s.w, ST, 0.0, 0.0, 0.0);
    let gs = match ground {
        0 => Sh::Box(10.0, 0.5),
        1 => Sh::Edge((-10.0, 0.5), (10.0, 0.5)),
        _ => Sh::Chain(vec![(10.0, 0.5), (-10.0, 0.5)], (20.0, 0.5), (-20.0, 0.5)),
    };
    let mut n = 0u32;
    let mut put = |s: &mut Scn, b: B, sh: &Sh, den: f32| {
        let mut f = fdef(sh);
        f.friction = mu;
        f.density = den;
        f.user_data = Some(n * 10);
        n += 1;
        box2d_rs::b2_body::B2body::create_fixture(b.clone(), &f);
        s.add(b);
    };
    put(&mut s, gb, &gs, 1.0);
    // heights of layers of unit boxes
    let y = |k: usize| 0.5 + 0.5 + k as f64 + gap * (k + 1) as f64;
    let mut list: Vec<(f64, f64, f32)> = match layout {
        0 => vec![(0.0, y(0), 1.0)],
        1 => vec![(0.0, y(0), 1.0), (0.0, y(1), den)],
        2 => vec![(0.0, y(0), 1.0), (0.1, y(1), den), (0.0, y(2), 1.0)],
        3 => vec![(-0.6, y(0), 1.0), (0.6, y(0), den), (0.0, y(1), 1.0)],
        _ => vec![(0.0, y(0), 1.0), (3.0, y(0), 1.0), (0.0, y(1), den), (3.0, y(1), den)],
    };
    if order {
        list.reverse();
    }
    let mut weight = 0.0;
    for (x, y, den) in &list {
        let b = body(&s.w, DY, *x as f32, *y as f32, 0.0);
        put(&mut s, b, &Sh::Box(0.5, 0.5), *den);
        weight += *den as f64 * g;
    }
    let start: Vec<Bs> = s.b.iter().map(bstate).collect();
    let steps = (if thorough() { 5.0 } else { 1.5 } / h) as usize;
    for k in 0..steps {
        let (_, a, hits) = s.step(h, if warm { 10 } else { 40 }, 4, c)?;
        for b in 1..a.len() {
            ensure!((a[b].c - start[b].c).len() < 0.02 + 3.0 * (gap - 0.01).abs() && a[b].ang.abs() < 0.01, "body {} of the pile moved from {:?} to {:?} (turned {})", b, start[b].c, a[b].c, a[b].ang);
            if k > steps / 2 {
                ensure!(a[b].v.len() < 0.02 && a[b].w.abs() < 0.02, "body {} keeps moving at {:?} {}", b, a[b].v, a[b].w);
            }
        }
        if k > steps / 2 {
            let carried: f64 = hits.iter().filter(|t| t.a == 0 || t.b == 0).map(|t| t.jn[..t.cnt].iter().sum::<f64>()).sum();
            ensure!(close(carried, weight * h as f64, 0.02), "the ground carries {} of {}", carried / h as f64, weight);
        }
        c.eval(2);
    }
    c.state(hash_world(&s.w));
    Ok(())
}

/// The mixed material of a contact: by the mixing laws, until overridden, and again after a reset.
fn mixing(i: u64, c: &mut Ctx) -> R {
    let mut d = Dec::new(i);
    let fr = [0.0f32, 0.04, 0.3, 1.0, 4.0];
    let (f1, f2) = (d.p(&fr), d.p(&fr));
    let re = [0.0f32, 0.25, 1.0, 1.75];
    let (e1, e2) = (d.p(&re), d.p(&re));
    let th = [0.0f32, 1.0, 7.5];
    let (t1, t2) = (d.p(&th), d.p(&th));
    let set = d.d(8);
    let swap = d.b();
    let w = world(0.0, 0.0);
    let mut fx = vec![];
    for k in 0..2 {
        let b = body(&w, if k == 0 { ST } else { DY }, 0.0, k as f32 * 0.9, 0.0);
        let mut q = fdef(&if (k == 0) == swap { Sh::Box(0.5, 0.5) } else { Sh::Circle(0.5, 0.0, 0.0) });
        q.friction = [f1, f2][k];
        q.restitution = [e1, e2][k];
        q.restitution_threshold = [t1, t2][k];
        fx.push(box2d_rs::b2_body::B2body::create_fixture(b, &q));
    }
    step(&w, 0.0);
    let ct = w.borrow().get_contact_list().iter().next().ok_or("no contact")?;
    let read = || {
        let q = ct.borrow();
        let q = q.get_base();
        [q.get_friction() as f64, q.get_restitution() as f64, q.get_restitution_threshold() as f64]
    };
    let mix = |f1: f32, f2: f32, e1: f32, e2: f32, t1: f32, t2: f32| [(f1 as f64 * f2 as f64).sqrt(), e1.max(e2) as f64, t1.min(t2) as f64];
    let same = |a: [f64; 3], b: [f64; 3], what: &str| -> R {
        ensure!((0..3).all(|k| (a[k] - b[k]).abs() <= 1e-6 * (1.0 + b[k])), "{}: friction, restitution, threshold {:?} should be {:?}", what, a, b);
        Ok(())
    };
    let mut want = mix(f1, f2, e1, e2, t1, t2);
    same(read(), want, "new contact")?;
    {
        let mut q = ct.borrow_mut();
        let q = q.get_base_mut();
        ensure!(q.get_tangent_speed() == 0.0, "surface speed {}", q.get_tangent_speed());
        q.set_tangent_speed(1.5);
        if set & 1 > 0 {
            q.set_friction(0.6);
            want[0] = 0.6f32 as f64;
        }
        if set & 2 > 0 {
            q.set_restitution(0.45);
            want[1] = 0.45f32 as f64;
        }
        if set & 4 > 0 {
            q.set_restitution_threshold(2.5);
            want[2] = 2.5;
        }
    }
    same(read(), want, "overridden")?;
    step(&w, DT);
    step(&w, 0.0);
    same(read(), want, "overridden, after steps")?;
    // what the fixtures become later reaches existing contacts only by a reset
    fx[0].borrow_mut().set_friction(0.81);
    fx[0].borrow_mut().set_restitution(0.5);
    fx[1].borrow_mut().set_restitution_threshold(0.75);
    same(read(), want, "fixtures changed")?;
    let back = mix(0.81, f2, 0.5, e2, t1, 0.75);
    for k in 0..3 {
        {
            let mut q = ct.borrow_mut();
            let q = q.get_base_mut();
            match k {
                0 => q.reset_friction(),
                1 => q.reset_restitution(),
                _ => q.reset_restitution_threshold(),
            }
        }
        want[k] = back[k];
        same(read(), want, "reset")?;
    }
    let sp = ct.borrow().get_base().get_tangent_speed();
    ensure!(sp == 1.5, "surface speed is {}, set to 1.5", sp);
    c.step(8);
    c.eval(8);
    c.state(i);
    Ok(())
}

pub fn check() -> Check {
    let desc = |i: u64| format!("{:?} shapes {:?}", pair_case(i), pairs()[pair_case(i).pair]);
    let _ = thorough();
    Check {
        id: "C17",
        bounds: format!(
            "{} placements of two shapes x 5 kinds of first body x 2 orientations x 12 velocities x 3 spins x 6 materials x 5 listener overrides x gravity x warm starting x 3 pairs of step lengths x fixed rotation, two steps each, \
             with the two-point solver on and off and with 1 and 60 iterations; overlaps of 6 depths for 120 steps; slopes of 9 angles x 6 frictions; piles of up to 4 bodies; mixed materials of 2025 fixture pairs with every set of overrides and resets",
            NPAIR
        ),
        assumptions: vec![
            "impulses are those given to post_solve, arms and normals those of the world manifold in pre_solve of the same step".into(),
            "the contact problem's conditions are required with 60 velocity iterations; the momentum balance and the sign of normal impulses always".into(),
        ],
        phases: vec![
            phase("pair", NCASE, desc, |i, c| pair_run(i, true, 60, c)),
            phase("pair one by one", NCASE, desc, |i, c| pair_run(i, false, 100, c)),
            phase("pair few iterations", NCASE, desc, |i, c| pair_run(i, true, 1, c)),
            phase("overlap", (NPAIR * 4 * 3 * 6 * 3 * 2 * 2) as u64, |i| format!("overlap {}", i), |i, c| push(i, c)),
            phase("slope", 5 * 6 * 2 * 3 * 2 * 2 * 2, |i| format!("slope {}", i), |i, c| slope(i, c)),
            phase("mixing", 5 * 5 * 4 * 4 * 3 * 3 * 8 * 2, |i| format!("materials {}", i), mixing),
            phase("pile", 5 * 3 * 2 * 2 * 2 * 3 * 2 * 2, |i| format!("pile {}", i), |i, c| pile(i, c)),
        ],
    }
}
