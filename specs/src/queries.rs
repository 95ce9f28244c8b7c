//! How the queries relate to each other, to their mirror image and to the frame of reference.
use crate::gen::*;
use crate::rt::*;
use crate::shapes::{ask, Answers};
use crate::transforms::Sim;
use auburn::col2d::*;
use glam::Vec2;

// ---------------------------------------------------------------- P09 the four queries agree
pub fn agree(r: &Answers, scale: f32) {
    ensures("sdfv and collides give the same verdict", r.full.0 == r.hit);
    ensures("penetrates answers exactly when collides is true", r.pen.is_some() == r.hit);
    ensures("distance_to answers exactly when collides is false", r.dist.is_none() == r.hit);
    if let Some(v) = r.pen {
        ensures("sdfv's vector is the penetration", eqv(v, r.full.1, scale));
    }
    if let Some(v) = r.dist {
        ensures("sdfv's vector is the distance", eqv(v, r.full.1, scale));
    }
}
fn coherent<A, B>(a: A, b: B, rel: &Transform2d, scale: f32)
where
    A: CollidesRel2d<B, Transform2d> + SdfvRel2d<B, Transform2d> + PenetratesRel2d<B, Transform2d> + DistanceToRel2d<B, Transform2d>,
{
    agree(&ask(&a, &b, rel), scale);
}
harness! { P09 coherent_box_point(h: Ext, rel: Sim) {
    requires!(h.ok() & rel.ok());
    coherent(Box2d::new(h.v()), Point, &rel.t(), 8.0);
}}
harness! { P09 coherent_box_ball(h: Ext, r: Len, rel: Sim) {
    requires!(h.ok() & r.ok() & rel.ok());
    coherent(Box2d::new(h.v()), Ball::new(r.v), &rel.t(), 32.0);
}}
harness! { P09 coherent_ball_point(r: Len, rel: Sim) {
    requires!(r.ok() & rel.ok());
    coherent(Ball::new(r.v), Point, &rel.t(), 32.0);
}}
harness! { P09 coherent_ball_ball(r: Len, s: Len, rel: Sim) {
    requires!(r.ok() & s.ok() & rel.ok());
    coherent(Ball::new(r.v), Ball::new(s.v), &rel.t(), 32.0);
}}
harness! { P09 coherent_point_point(rel: Sim) {
    requires!(rel.ok());
    coherent(Point, Point, &rel.t(), 32.0);
}}
harness! { P09 coherent_point_box(h: Ext, rel: Sim) {
    requires!(h.ok() & rel.ok());
    coherent(Point, Box2d::new(h.v()), &rel.t(), 32.0);
}}
harness! { P09 coherent_point_ball(r: Len, rel: Sim) {
    requires!(r.ok() & rel.ok());
    coherent(Point, Ball::new(r.v), &rel.t(), 32.0);
}}

// ---------------------------------------------------------------- a shape that reports what it is given
/// Its answers are simple functions of the relative transform, so that what the world-level
/// queries do with any answer of any pair of shapes can be seen.
#[derive(Clone, Copy, Debug)]
pub struct Probe {
    pub c: Vec2,
    pub k: f32,
}
input! { Pr { c: Vec2, k: f32 } }
impl Pr {
    fn p(self) -> Probe {
        Probe { c: self.c, k: self.k }
    }
}
impl<const P: bool, const D: bool, T: Transformation2d> SdfvCommonRel2d<P, D, Probe, T> for Probe {
    fn sdfv_common_rel(&self, b: &Probe, rel: &T) -> (bool, Vec2) {
        let p = rel.apply(b.c);
        (p.x < self.k, p - self.c)
    }
}
impl SdfRel2d<Probe> for Probe {
    fn sdf_rel(&self, b: &Probe, rel: &impl Transformation2d) -> f32 {
        rel.apply(b.c).x - self.k + rel.scaling_factor() * b.k
    }
}

harness! { P09 coherent_in_the_world(a: Sim, b: Sim, pa: Pr, pb: Pr) {
    requires!(a.ok() & b.ok());
    let (ta, tb, sa, sb) = (a.t(), b.t(), pa.p(), pb.p());
    let (ca, cb) = (Collider2d::new(&sa, &ta), Collider2d::new(&sb, &tb));
    agree(&Answers { hit: ca.collides(cb), full: ca.sdfv(cb), pen: ca.penetrates(cb), dist: ca.distance_to(cb) }, 64.0);
    let other = Answers { hit: (&sa, &ta).collides((&sb, &tb)), full: (&sa, &ta).sdfv((&sb, &tb)), pen: (&sa, &ta).penetrates((&sb, &tb)), dist: (&sa, &ta).distance_to((&sb, &tb)) };
    ensures("a pair of references is a collider", (other.hit == ca.collides(cb)) & (other.full.0 == other.hit) & eqv(other.full.1, ca.sdfv(cb).1, 64.0));
    agree(&other, 64.0);
}}

// ---------------------------------------------------------------- P10 mirror images
fn mirrored<A, B>(a: A, b: B, rel: Sim, scale: f32, tie: bool)
where
    A: SdfvRel2d<B, Transform2d>,
    B: SdfvRel2d<A, Transform2d>,
{
    let t = rel.t();
    let (hit, v) = a.sdfv_rel(&b, &t);
    let (back, w) = b.sdfv_rel(&a, &t.inverse());
    ensures("swapping the shapes keeps the verdict", (hit == back) | tie);
    // w is seen from b: bring it into a's space
    ensures("swapping the shapes negates the vector", eqv(t.apply_normal(w) * rel.scale, -v, scale) | tie);
}
harness! { P10 mirror_box_point(h: Ext, rel: Sim) {
    requires!(h.ok() & rel.ok());
    let p = rel.pos;
    let tie = !away_from_zero(p.x.abs() - h.x.v, 16.0) | !away_from_zero(p.y.abs() - h.y.v, 16.0);
    requires!(!tie);
    // halfway between two sides, both answers are right
    let draw = (p.x.abs() < h.x.v) & (p.y.abs() < h.y.v)
        & (!away_from_zero(p.x.abs() - h.x.v - p.y.abs() + h.y.v, 16.0) | !away_from_zero(p.x, 16.0) | !away_from_zero(p.y, 16.0));
    requires!(!draw);
    lemma("there and back", eqv(rel.t().inverse().inverse().pos, p, 16.0));
    mirrored(Box2d::new(h.v()), Point, rel, 64.0, false);
}}
harness! { P10 mirror_point_box(h: Ext, rel: Sim) {
    requires!(h.ok() & rel.ok());
    let p = rel.t().inverse().pos;
    requires!(away_from_zero(p.x.abs() - h.x.v, 16.0) & away_from_zero(p.y.abs() - h.y.v, 16.0));
    let draw = (p.x.abs() < h.x.v) & (p.y.abs() < h.y.v)
        & (!away_from_zero(p.x.abs() - h.x.v - p.y.abs() + h.y.v, 16.0) | !away_from_zero(p.x, 16.0) | !away_from_zero(p.y, 16.0));
    requires!(!draw);
    mirrored(Point, Box2d::new(h.v()), rel, 256.0, false);
}}
harness! { P10 mirror_ball_point(r: Len, rel: Sim) {
    requires!(r.ok() & rel.ok());
    let l = rel.pos.length();
    requires!(away_from_zero(l - r.v, 16.0) & (!away_from_zero(l, 0.0) | away_from_zero(l, 1000.0)));
    lemma("there and back", eqv(rel.t().inverse().inverse().pos, rel.pos, 16.0));
    mirrored(Ball::new(r.v), Point, rel, 256.0, false);
}}
harness! { P10 mirror_point_ball(r: Len, rel: Sim) {
    requires!(r.ok() & rel.ok());
    let l = rel.t().inverse().pos.length();
    requires!(away_from_zero(l - r.v, 16.0) & (!away_from_zero(l, 0.0) | away_from_zero(l, 1000.0)));
    mirrored(Point, Ball::new(r.v), rel, 256.0, false);
}}
harness! { P10 mirror_point_point(rel: Sim) {
    requires!(rel.ok());
    requires!(!away_from_zero(rel.pos.length(), 0.0) | away_from_zero(rel.pos.length(), 1000.0));
    mirrored(Point, Point, rel, 64.0, false);
}}
harness! { P10 mirror_ball_ball(r: Len, s: Len, rel: Sim) {
    requires!(r.ok() & s.ok() & rel.ok());
    let l = rel.pos.length();
    let inv = rel.t().inverse();
    same_root("the distance of the centres, seen from the other", inv.pos.length() * rel.scale, l, 64.0);
    lemma("the scales are reciprocal", eq(inv.scaling_factor() * rel.scale, 1.0, 8.0));
    let sum = r.v + s.v * rel.scale;
    lemma("the radii, seen from the other", eq((s.v + r.v * inv.scaling_factor()) * rel.scale, sum, 64.0));
    let (n1, n2, n3, n4, n5) = (name(inv.pos.length()), name(s.v + r.v * inv.scaling_factor()), name(rel.scale), name(l), name(sum));
    lemma_from("scaling keeps the order", (n3 > 0.0) & eq(n1 * n3, n4, 64.0) & eq(n2 * n3, n5, 64.0), ((n1 < n2) == (n4 < n5)) & ((n1 > 0.0) == (n4 > 0.0)));
    requires!(away_from_zero(l, 2000.0) & away_from_zero(l - sum, 64.0));
    mirrored(Ball::new(r.v), Ball::new(s.v), rel, 512.0, false);
}}

// ---------------------------------------------------------------- P11 the world
harness! { P11 world_queries_use_the_relative_transform(a: Sim, b: Sim, pa: Pr, pb: Pr) {
    requires!(a.ok() & b.ok());
    let (ta, tb, sa, sb) = (a.t(), b.t(), pa.p(), pb.p());
    let (ca, cb) = (Collider2d::new(&sa, &ta), Collider2d::new(&sb, &tb));
    // the second probe's point as the first shape sees it
    let seen = ta.unapply(tb.apply(pb.c));
    lemma("the relative transform shows the other shape in the space of the first", eqv(ta.delta_transform(&tb).apply(pb.c), seen, 256.0));
    requires!(away_from_zero(seen.x - pa.k, 256.0));
    let expected = ta.apply_normal(seen - pa.c) * a.scale;
    ensures("collides", ca.collides(cb) == (seen.x < pa.k));
    ensures("sdfv's verdict", ca.sdfv(cb).0 == (seen.x < pa.k));
    ensures("sdfv is a world vector", eqv(ca.sdfv(cb).1, expected, 1024.0));
    match ca.penetrates(cb) {
        Some(v) => ensures("penetrates is a world vector", eqv(v, expected, 1024.0) & (seen.x < pa.k)),
        None => ensures("penetrates answers when the shapes overlap", seen.x >= pa.k),
    }
    match ca.distance_to(cb) {
        Some(v) => ensures("distance_to is a world vector", eqv(v, expected, 1024.0) & (seen.x >= pa.k)),
        None => ensures("distance_to answers when the shapes are apart", seen.x < pa.k),
    }
    ensures("sdf is in world units", eq(ca.sdf(cb), (seen.x - pa.k) * a.scale + b.scale * pb.k, 1024.0));
}}
harness! { P11 world_queries_follow_the_frame(m: Sim, a: Sim, b: Sim, pa: Pr, pb: Pr) {
    requires!(m.ok() & a.ok() & b.ok());
    let (sa, sb) = (pa.p(), pb.p());
    let (ta, tb) = (a.t(), b.t());
    let (ma, mb) = (m.t().compose(&ta), m.t().compose(&tb));
    let (p, q) = (ta.delta_transform(&tb).apply(pb.c), ma.delta_transform(&mb).apply(pb.c));
    lemma("the relative transform does not depend on the frame", eqv(p, q, 4096.0));
    requires!(away_from_zero(p.x - pa.k, 4096.0));
    let (hit, v) = Collider2d::new(&sa, &ta).sdfv(Collider2d::new(&sb, &tb));
    let (moved, w) = Collider2d::new(&sa, &ma).sdfv(Collider2d::new(&sb, &mb));
    ensures("moving both colliders keeps the verdict", hit == moved);
    ensures("moving both colliders moves the answer along", eqv(m.t().apply_normal(v) * m.scale, w, 8192.0));
}}

// ---------------------------------------------------------------- P12 representations
fn same_transform<S: Transformation2d + Invertible + Composable, T: Transformation2d + Invertible + Composable>(s: [S; 2], t: [T; 2], p: Vec2) {
    let ([s, s2], [t, t2]) = (s, t);
    ensures("apply", eqv(s.apply(p), t.apply(p), 64.0));
    ensures("unapply", eqv(s.unapply(p), t.unapply(p), 256.0));
    ensures("apply_normal", eqv(s.apply_normal(p), t.apply_normal(p), 8.0));
    ensures("unapply_normal", eqv(s.unapply_normal(p), t.unapply_normal(p), 8.0));
    ensures("apply_origin", eqv(s.apply_origin(), t.apply_origin(), 8.0));
    ensures("scaling_factor", eq(s.scaling_factor(), t.scaling_factor(), 8.0));
    ensures("inverse", eqv(s.inverse().apply(p), t.inverse().apply(p), 256.0));
    ensures("compose", eqv(s.compose(&s2).apply(p), t.compose(&t2).apply(p), 256.0));
    ensures("delta_transform", eqv(s.delta_transform(&s2).apply(p), t.delta_transform(&t2).apply(p), 1024.0));
}
fn placed(pos: Vec2) -> Transform2d {
    Transform2d::from_translation(pos)
}
harness! { P12 translation_as_vec2(a: Vec2, b: Vec2, p: Vec2) {
    same_transform([placed(a), placed(b)], [a, b], p);
}}
harness! { P12 translation_as_translate2d(a: Vec2, b: Vec2, p: Vec2) {
    same_transform([placed(a), placed(b)], [Translate2d::new(a), Translate2d::from(b)], p);
}}
harness! { P12 translation_as_axis(a: Vec2, b: Vec2, p: Vec2) {
    same_transform([placed(a), placed(b)], [AxisTransform2d::new(a, 1.0), AxisTransform2d::new(b, 1.0)], p);
}}
harness! { P12 scaling_as_axis(a: Vec2, k: f32, b: Vec2, l: f32, p: Vec2) {
    requires!(positive(k, 0.2) & positive(l, 0.2));
    let (s, t) = (placed(a).with_scale(Vec2::splat(k)), placed(b).with_scale(Vec2::splat(l)));
    same_transform([s, t], [AxisTransform2d::new(a, k), AxisTransform2d::new(b, l)], p);
}}
fn same_answers<A, B, S: Transformation2d, T: Transformation2d>(a: A, b: B, s: S, t: T)
where
    A: SdfvRel2d<B, S> + SdfvRel2d<B, T> + SdfRel2d<B>,
{
    let (h, v) = a.sdfv_rel(&b, &s);
    let (k, w) = a.sdfv_rel(&b, &t);
    ensures("the representation does not change the verdict", h == k);
    ensures("the representation does not change the vector", eqv(v, w, 64.0));
    ensures("the representation does not change the scalar", eq(a.sdf_rel(&b, &s), a.sdf_rel(&b, &t), 64.0));
}
harness! { P12 answers_as_vec2(pa: Pr, pb: Pr, pos: Vec2) {
    same_answers(pa.p(), pb.p(), placed(pos), pos);
}}
harness! { P12 answers_as_translate2d(pa: Pr, pb: Pr, pos: Vec2) {
    same_answers(pa.p(), pb.p(), placed(pos), Translate2d::from(pos));
}}
harness! { P12 answers_as_axis(pa: Pr, pb: Pr, pos: Vec2, k: f32) {
    requires!(positive(k, 0.2));
    let (s, t) = (placed(pos).with_scale(Vec2::splat(k)), AxisTransform2d::new(pos, k));
    requires!(away_from_zero(s.apply(pb.c).x - pa.k, 64.0));
    same_answers(pa.p(), pb.p(), s, t);
}}
harness! { P12 box_ball_as_vec2(h: Ext, r: Len, pos: Vec2) {
    requires!(h.ok() & r.ok());
    same_answers(Box2d::new(h.v()), Ball::new(r.v), placed(pos), pos);
}}
harness! { P12 ball_ball_as_axis(r: Len, q: Len, pos: Vec2, k: f32) {
    requires!(r.ok() & q.ok() & positive(k, 0.2));
    let (s, t) = (placed(pos).with_scale(Vec2::splat(k)), AxisTransform2d::new(pos, k));
    same_answers(Ball::new(r.v), Ball::new(q.v), s, t);
}}
harness! { P12 world_as_vec2(pa: Pr, pb: Pr, a: Vec2, b: Vec2) {
    let (sa, sb) = (pa.p(), pb.p());
    let (ta, tb) = (placed(a), placed(b));
    requires!(away_from_zero((pb.c + b - a).x - pa.k, 64.0));
    let (h, v) = Collider2d::new(&sa, &ta).sdfv(Collider2d::new(&sb, &tb));
    let (k, w) = Collider2d::new(&sa, &a).sdfv(Collider2d::new(&sb, &b));
    ensures("the representation does not change the world verdict", h == k);
    ensures("the representation does not change the world vector", eqv(v, w, 64.0));
}}
