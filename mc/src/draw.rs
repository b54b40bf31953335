//! Recording debug draw.
use crate::geom::*;
use box2d_rs::b2_draw::*;
use box2d_rs::b2_math::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Fig {
    Poly(Vec<P>, [f64; 4]),
    SolidPoly(Vec<P>, [f64; 4]),
    Circle(P, f64, [f64; 4]),
    SolidCircle(P, f64, P, [f64; 4]),
    Seg(P, P, [f64; 4]),
    Xf(P, P),
    Point(P, f64, [f64; 4]),
}

#[derive(Default)]
pub struct Dr {
    pub base: B2draw,
    pub fig: Vec<Fig>,
}

pub fn col(c: B2color) -> [f64; 4] {
    [c.r as f64, c.g as f64, c.b as f64, c.a as f64]
}

impl B2drawTrait for Dr {
    fn get_base(&self) -> &B2draw {
        &self.base
    }
    fn get_base_mut(&mut self) -> &mut B2draw {
        &mut self.base
    }
    fn draw_polygon(&mut self, v: &[B2vec2], c: B2color) {
        self.fig.push(Fig::Poly(v.iter().map(|q| pv(*q)).collect(), col(c)));
    }
    fn draw_solid_polygon(&mut self, v: &[B2vec2], c: B2color) {
        self.fig.push(Fig::SolidPoly(v.iter().map(|q| pv(*q)).collect(), col(c)));
    }
    fn draw_circle(&mut self, o: B2vec2, r: f32, c: B2color) {
        self.fig.push(Fig::Circle(pv(o), r as f64, col(c)));
    }
    fn draw_solid_circle(&mut self, o: B2vec2, r: f32, a: B2vec2, c: B2color) {
        self.fig.push(Fig::SolidCircle(pv(o), r as f64, pv(a), col(c)));
    }
    fn draw_segment(&mut self, a: B2vec2, b: B2vec2, c: B2color) {
        self.fig.push(Fig::Seg(pv(a), pv(b), col(c)));
    }
    fn draw_transform(&mut self, x: B2Transform) {
        self.fig.push(Fig::Xf(pv(x.p), p(x.q.c as f64, x.q.s as f64)));
    }
    fn draw_point(&mut self, q: B2vec2, s: f32, c: B2color) {
        self.fig.push(Fig::Point(pv(q), s as f64, col(c)));
    }
}
