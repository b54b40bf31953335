//! Reference geometry in f64, written independently of the library: vectors, rigid
//! transforms, convex cores (1..n points with a radius), exact distance, point, ray and
//! mass computations.
use std::ops::*;

#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct P {
    pub x: f64,
    pub y: f64,
}
pub const fn p(x: f64, y: f64) -> P {
    P { x, y }
}
impl Add for P {
    type Output = P;
    fn add(self, o: P) -> P {
        p(self.x + o.x, self.y + o.y)
    }
}
impl Sub for P {
    type Output = P;
    fn sub(self, o: P) -> P {
        p(self.x - o.x, self.y - o.y)
    }
}
impl Neg for P {
    type Output = P;
    fn neg(self) -> P {
        p(-self.x, -self.y)
    }
}
impl Mul<f64> for P {
    type Output = P;
    fn mul(self, s: f64) -> P {
        p(self.x * s, self.y * s)
    }
}
impl AddAssign for P {
    fn add_assign(&mut self, o: P) {
        *self = *self + o;
    }
}
impl SubAssign for P {
    fn sub_assign(&mut self, o: P) {
        *self = *self - o;
    }
}
impl P {
    pub fn dot(self, o: P) -> f64 {
        self.x * o.x + self.y * o.y
    }
    pub fn cross(self, o: P) -> f64 {
        self.x * o.y - self.y * o.x
    }
    pub fn len(self) -> f64 {
        self.dot(self).sqrt()
    }
    pub fn unit(self) -> P {
        let l = self.len();
        p(self.x / l, self.y / l)
    }
    /// omega x self
    pub fn spin(self, w: f64) -> P {
        p(-w * self.y, w * self.x)
    }
    /// outward normal of a counter-clockwise edge direction
    pub fn right(self) -> P {
        p(self.y, -self.x)
    }
    pub fn finite(self) -> bool {
        self.x.is_finite() && self.y.is_finite()
    }
}
use box2d_rs::b2_math::{B2Transform, B2vec2};
pub fn pv(v: B2vec2) -> P {
    p(v.x as f64, v.y as f64)
}
pub fn vp(v: P) -> B2vec2 {
    B2vec2 { x: v.x as f32, y: v.y as f32 }
}

/// Rigid transform.
#[derive(Clone, Copy, Debug)]
pub struct X {
    pub o: P,
    pub s: f64,
    pub c: f64,
}
impl X {
    pub fn new(o: P, a: f64) -> X {
        X { o, s: a.sin(), c: a.cos() }
    }
    pub fn id() -> X {
        X { o: p(0.0, 0.0), s: 0.0, c: 1.0 }
    }
    pub fn from(t: &B2Transform) -> X {
        X { o: pv(t.p), s: t.q.s as f64, c: t.q.c as f64 }
    }
    pub fn rot(&self, v: P) -> P {
        p(self.c * v.x - self.s * v.y, self.s * v.x + self.c * v.y)
    }
    pub fn irot(&self, v: P) -> P {
        p(self.c * v.x + self.s * v.y, -self.s * v.x + self.c * v.y)
    }
    pub fn at(&self, v: P) -> P {
        self.rot(v) + self.o
    }
    pub fn inv(&self, v: P) -> P {
        self.irot(v - self.o)
    }
    pub fn mul(&self, o: &X) -> X {
        X { o: self.at(o.o), s: self.s * o.c + self.c * o.s, c: self.c * o.c - self.s * o.s }
    }
}

/// Convex core: point, segment or counter-clockwise polygon, with a skin radius.
#[derive(Clone, Debug)]
pub struct Core {
    pub v: Vec<P>,
    pub r: f64,
}

impl Core {
    pub fn at(&self, x: &X) -> Core {
        Core { v: self.v.iter().map(|q| x.at(*q)).collect(), r: self.r }
    }
    pub fn shift(&self, d: P) -> Core {
        Core { v: self.v.iter().map(|q| *q + d).collect(), r: self.r }
    }
    /// is q inside the (core) polygon
    pub fn inside(&self, q: P) -> bool {
        self.v.len() >= 3 && poly_sd(&self.v, q) <= 0.0
    }
    pub fn centroid(&self) -> P {
        match self.v.len() {
            1 => self.v[0],
            2 => (self.v[0] + self.v[1]) * 0.5,
            _ => poly_mass(&self.v).1,
        }
    }
    pub fn support(&self, d: P) -> P {
        let mut b = self.v[0];
        for q in &self.v {
            if q.dot(d) > b.dot(d) {
                b = *q;
            }
        }
        b
    }
    pub fn bounds(&self) -> (P, P) {
        let mut l = self.v[0];
        let mut u = self.v[0];
        for q in &self.v {
            l = p(l.x.min(q.x), l.y.min(q.y));
            u = p(u.x.max(q.x), u.y.max(q.y));
        }
        (l - p(self.r, self.r), u + p(self.r, self.r))
    }
    /// distance from q to the core (0 inside)
    pub fn pdist(&self, q: P) -> f64 {
        match self.v.len() {
            1 => (q - self.v[0]).len(),
            2 => seg_dist(self.v[0], self.v[1], q),
            _ => poly_sd(&self.v, q).max(0.0),
        }
    }
    /// distance from q to the boundary of the core
    pub fn bdist(&self, q: P) -> f64 {
        match self.v.len() {
            1 => (q - self.v[0]).len(),
            2 => seg_dist(self.v[0], self.v[1], q),
            n => (0..n).map(|i| seg_dist(self.v[i], self.v[(i + 1) % n], q)).fold(f64::MAX, f64::min),
        }
    }
}

pub fn closest_on_seg(a: P, b: P, q: P) -> P {
    let d = b - a;
    let l = d.dot(d);
    if l == 0.0 {
        return a;
    }
    let t = ((q - a).dot(d) / l).clamp(0.0, 1.0);
    a + d * t
}
pub fn seg_dist(a: P, b: P, q: P) -> f64 {
    (q - closest_on_seg(a, b, q)).len()
}
/// Signed distance of a point to a convex polygon (exact outside, face distance inside).
pub fn poly_sd(v: &[P], q: P) -> f64 {
    let n = v.len();
    let mut inside = f64::MIN;
    let mut out = f64::MAX;
    for i in 0..n {
        let (a, b) = (v[i], v[(i + 1) % n]);
        let nn = (b - a).right().unit();
        inside = inside.max((q - a).dot(nn));
        out = out.min(seg_dist(a, b, q));
    }
    if inside <= 0.0 {
        inside
    } else {
        out
    }
}

fn seg_seg(a: P, b: P, c: P, d: P) -> f64 {
    let o = |a: P, b: P, c: P| (b - a).cross(c - a);
    let (o1, o2, o3, o4) = (o(a, b, c), o(a, b, d), o(c, d, a), o(c, d, b));
    if o1 * o2 < 0.0 && o3 * o4 < 0.0 {
        return 0.0;
    }
    seg_dist(a, b, c).min(seg_dist(a, b, d)).min(seg_dist(c, d, a)).min(seg_dist(c, d, b))
}

/// Exact distance between two convex cores without radii.
pub fn core_dist(a: &Core, b: &Core) -> f64 {
    if a.inside(b.v[0]) || b.inside(a.v[0]) {
        return 0.0;
    }
    let edges = |c: &Core| -> Vec<(P, P)> {
        match c.v.len() {
            1 => vec![(c.v[0], c.v[0])],
            2 => vec![(c.v[0], c.v[1])],
            n => (0..n).map(|i| (c.v[i], c.v[(i + 1) % n])).collect(),
        }
    };
    let mut m = f64::MAX;
    for (s, e) in edges(a) {
        for (s2, e2) in edges(b) {
            m = m.min(seg_seg(s, e, s2, e2));
        }
    }
    m
}

/// Signed separation of cores: exact distance when apart, minus penetration depth when
/// overlapping (minimum over face normals; exact for convex polygons and segments).
pub fn core_sep(a: &Core, b: &Core) -> (f64, P) {
    let d = core_dist(a, b);
    if d > 0.0 {
        return (d, p(0.0, 0.0));
    }
    let mut best = f64::MIN;
    let mut bn = p(1.0, 0.0);
    let mut axis = |n: P| {
        // separation along n from a to b
        let s = b.v.iter().map(|q| q.dot(n)).fold(f64::MAX, f64::min) - a.v.iter().map(|q| q.dot(n)).fold(f64::MIN, f64::max);
        if s > best {
            best = s;
            bn = n;
        }
    };
    for c in [a, b] {
        let n = c.v.len();
        if n >= 2 {
            for i in 0..n {
                let e = c.v[(i + 1) % n] - c.v[i];
                let nn = e.right().unit();
                axis(nn);
                axis(-nn);
            }
        }
    }
    if best == f64::MIN {
        best = 0.0;
    }
    (best.min(0.0), bn)
}

/// Area, centroid and second moment about the origin of a polygon.
pub fn poly_mass(v: &[P]) -> (f64, P, f64) {
    let n = v.len();
    let (mut a, mut cx, mut cy, mut i2) = (0.0, 0.0, 0.0, 0.0);
    for i in 0..n {
        let (q, r) = (v[i], v[(i + 1) % n]);
        let w = q.cross(r);
        a += w / 2.0;
        cx += (q.x + r.x) * w / 6.0;
        cy += (q.y + r.y) * w / 6.0;
        i2 += w * (q.dot(q) + q.dot(r) + r.dot(r)) / 12.0;
    }
    (a, p(cx / a, cy / a), i2)
}

/// First entry of the segment p1 + t (p2-p1), t in [0,m], into a disc. None when it starts inside.
pub fn ray_circle(c: P, r: f64, p1: P, p2: P, m: f64) -> Option<(f64, P)> {
    let d = p2 - p1;
    let s = p1 - c;
    let (a, b, cc) = (d.dot(d), s.dot(d), s.dot(s) - r * r);
    let disc = b * b - a * cc;
    if disc < 0.0 || a == 0.0 {
        return None;
    }
    let t = (-b - disc.sqrt()) / a;
    if t < 0.0 || t > m {
        return None;
    }
    Some((t, (s + d * t).unit()))
}

/// First entry into a convex polygon.
pub fn ray_poly(v: &[P], p1: P, p2: P, m: f64) -> Option<(f64, P)> {
    let d = p2 - p1;
    let n = v.len();
    let (mut t0, mut t1) = (f64::MIN, m);
    let mut nn = p(0.0, 0.0);
    for i in 0..n {
        let (a, b) = (v[i], v[(i + 1) % n]);
        let nr = (b - a).right().unit();
        let num = (a - p1).dot(nr);
        let den = d.dot(nr);
        if den == 0.0 {
            if num < 0.0 {
                return None;
            }
        } else {
            let t = num / den;
            if den < 0.0 {
                if t > t0 {
                    t0 = t;
                    nn = nr;
                }
            } else {
                t1 = t1.min(t);
            }
        }
    }
    if t0 < 0.0 || t0 > t1 {
        return None;
    }
    Some((t0, nn))
}

/// Crossing of a segment; the normal faces the ray start.
pub fn ray_seg(a: P, b: P, p1: P, p2: P, m: f64) -> Option<(f64, P)> {
    let d = p2 - p1;
    let e = b - a;
    let den = d.cross(e);
    if den == 0.0 {
        return None;
    }
    let t = (a - p1).cross(e) / den;
    let s = (a - p1).cross(d) / den;
    if t < 0.0 || t > m || s < 0.0 || s > 1.0 {
        return None;
    }
    let mut n = e.right().unit();
    if n.dot(p1 - a) < 0.0 {
        n = -n;
    }
    Some((t, n))
}

/// Convex hull (monotone chain), counter-clockwise, strictly convex.
pub fn hull(pts: &[P]) -> Vec<P> {
    let mut v: Vec<P> = pts.to_vec();
    v.sort_by(|a, b| a.x.partial_cmp(&b.x).unwrap().then(a.y.partial_cmp(&b.y).unwrap()));
    v.dedup();
    let n = v.len();
    if n < 3 {
        return v;
    }
    let mut h: Vec<P> = Vec::new();
    for pass in 0..2 {
        let base = h.len();
        for k in 0..n {
            let q = if pass == 0 { v[k] } else { v[n - 1 - k] };
            while h.len() >= base + 2 && (h[h.len() - 1] - h[h.len() - 2]).cross(q - h[h.len() - 1]) <= 0.0 {
                h.pop();
            }
            h.push(q);
        }
        h.pop();
    }
    h
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}
pub fn pclose(a: P, b: P, tol: f64) -> bool {
    (a - b).len() <= tol
}
pub const PI: f64 = std::f64::consts::PI;
