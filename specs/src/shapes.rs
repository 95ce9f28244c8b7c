//! Overlap, distance and penetration of the pairs that are decided in closed form.
use crate::gen::*;
use crate::rt::*;
use crate::transforms::Sim;
use auburn::col2d::*;
use glam::Vec2;

pub fn clamp(p: Vec2, h: Vec2) -> Vec2 {
    p.max(-h).min(h)
}
fn in_box(p: Vec2, h: Vec2) -> bool {
    (p.x <= h.x) & (p.x >= -h.x) & (p.y <= h.y) & (p.y >= -h.y)
}
fn inside_box(p: Vec2, h: Vec2) -> bool {
    (p.x < h.x) & (p.x > -h.x) & (p.y < h.y) & (p.y > -h.y)
}
fn on_edge(p: Vec2, h: Vec2) -> bool {
    !away_from_zero(p.x.abs() - h.x, 8.0) | !away_from_zero(p.y.abs() - h.y, 8.0)
}
/// The signed distance from the boundary of a box, negative inside.
pub fn box_distance(p: Vec2, h: Vec2) -> f32 {
    let c = clamp(p, h);
    if split(inside_box(p, h)) {
        let dx = h.x - p.x.abs();
        let dy = h.y - p.y.abs();
        if split(dx < dy) {
            -dx
        } else {
            -dy
        }
    } else {
        (p - c).length()
    }
}

// the relative position of the second shape
input! { Rel { t: Sim } }
impl Rel {
    pub fn ok(&self) -> bool {
        self.t.ok()
    }
}

/// The four queries of one pair.
pub struct Answers {
    pub hit: bool,
    pub full: (bool, Vec2),
    pub pen: Option<Vec2>,
    pub dist: Option<Vec2>,
}
pub fn ask<A, B, T: Transformation2d>(a: &A, b: &B, rel: &T) -> Answers
where
    A: CollidesRel2d<B, T> + SdfvRel2d<B, T> + PenetratesRel2d<B, T> + DistanceToRel2d<B, T>,
{
    Answers {
        hit: a.collides_rel(b, rel),
        full: a.sdfv_rel(b, rel),
        pen: a.penetrates_rel(b, rel),
        dist: a.distance_to_rel(b, rel),
    }
}

// ---------------------------------------------------------------- P05 overlap verdicts
fn verdict<A, B>(a: A, b: B, rel: &Transform2d, expected: bool)
where
    A: CollidesRel2d<B, Transform2d> + SdfvRel2d<B, Transform2d> + PenetratesRel2d<B, Transform2d> + DistanceToRel2d<B, Transform2d>,
{
    let r = ask(&a, &b, rel);
    ensures("collides exactly when the shapes overlap", r.hit == expected);
    ensures("sdfv reports a collision exactly when the shapes overlap", r.full.0 == expected);
    ensures("penetrates answers exactly when the shapes overlap", r.pen.is_some() == expected);
    ensures("distance_to answers exactly when the shapes are apart", r.dist.is_none() == expected);
}
harness! { P05 verdict_point_point(rel: Sim) {
    requires!(rel.ok());
    let apart = rel.pos.x != 0.0 || rel.pos.y != 0.0;
    verdict(Point, Point, &rel.t(), !apart);
}}
harness! { P05 verdict_box_point(h: Ext, rel: Sim) {
    requires!(h.ok() & rel.ok());
    requires!(!on_edge(rel.pos, h.v()));
    verdict(Box2d::new(h.v()), Point, &rel.t(), inside_box(rel.pos, h.v()));
}}
harness! { P05 verdict_point_box(h: Ext, rel: Sim) {
    requires!(h.ok() & rel.ok());
    let rel = rel.t();
    // where the point is, seen from the box
    let p = rel.unapply(Vec2::ZERO);
    requires!(!on_edge(p, h.v()));
    verdict(Point, Box2d::new(h.v()), &rel, inside_box(p, h.v()));
}}
harness! { P05 verdict_ball_point(r: Len, rel: Sim) {
    requires!(r.ok() & rel.ok());
    let d = rel.pos.length();
    requires!(away_from_zero(d - r.v, 8.0));
    verdict(Ball::new(r.v), Point, &rel.t(), d < r.v);
}}
harness! { P05 verdict_point_ball(r: Len, rel: Sim) {
    requires!(r.ok() & rel.ok());
    // the ball's centre and radius, seen from the point
    let d = rel.pos.length();
    requires!(away_from_zero(d - r.v * rel.scale, 16.0));
    verdict(Point, Ball::new(r.v), &rel.t(), d < r.v * rel.scale);
}}
harness! { P05 verdict_ball_ball(r: Len, s: Len, rel: Sim) {
    requires!(r.ok() & s.ok() & rel.ok());
    let d = rel.pos.length();
    let sum = r.v + s.v * rel.scale;
    requires!(away_from_zero(d - sum, 16.0));
    verdict(Ball::new(r.v), Ball::new(s.v), &rel.t(), d < sum);
}}
harness! { P05 verdict_box_ball(h: Ext, r: Len, rel: Sim) {
    requires!(h.ok() & r.ok() & rel.ok());
    let radius = r.v * rel.scale;
    let d = box_distance(rel.pos, h.v());
    requires!(away_from_zero(d - radius, 16.0));
    requires!(!on_edge(rel.pos, h.v()) | (radius > 0.001));
    verdict(Box2d::new(h.v()), Ball::new(r.v), &rel.t(), d < radius);
}}
harness! { P05 verdict_world_ball_ball(a: Sim, b: Sim, r: Len, s: Len) {
    requires!(r.ok() & s.ok() & a.ok() & b.ok());
    let (ta, tb) = (a.t(), b.t());
    let rel = ta.delta_transform(&tb);
    let d = (b.pos - a.pos).length();
    let l = rel.pos.length();
    same_root("the world distance is the scaled local distance", l * a.scale, d, 64.0);
    lemma("the relative scale", eq(rel.scaling_factor() * a.scale, b.scale, 16.0));
    let sum = r.v * a.scale + s.v * b.scale;
    lemma("the world radii are the scaled local radii", eq((r.v + s.v * rel.scaling_factor()) * a.scale, sum, 64.0));
    let (n1, n2, n3, n4, n5) = (name(l), name(r.v + s.v * rel.scaling_factor()), name(a.scale), name(d), name(sum));
    lemma_from("scaling keeps the order", (n3 > 0.0) & eq(n1 * n3, n4, 64.0) & eq(n2 * n3, n5, 64.0), ((n1 < n2) == (n4 < n5)) & ((n1 == n2) == (n4 == n5)));
    requires!(away_from_zero(d - sum, 64.0));
    let (sa, sb) = (Ball::new(r.v), Ball::new(s.v));
    let ca = Collider2d::new(&sa, &ta);
    let cb = Collider2d::new(&sb, &tb);
    let e = split(d < sum);
    ensures("placed balls collide exactly when they overlap in the world", ca.collides(cb) == e);
    ensures("placed balls penetrate exactly when they overlap in the world", ca.penetrates(cb).is_some() == e);
    ensures("placed balls have a distance exactly when they are apart", ca.distance_to(cb).is_none() == e);
    ensures("sdfv of placed balls", ca.sdfv(cb).0 == e);
}}
harness! { P05 verdict_world_box_point(a: Sim, h: Ext, b: Sim) {
    requires!(h.ok() & a.ok() & b.ok());
    let (ta, tb) = (a.t(), b.t());
    let p = ta.unapply(b.pos);
    lemma("the point in the space of the box", eqv(ta.delta_transform(&tb).pos, p, 64.0));
    requires!(!on_edge(p, h.v()));
    let (sa, sb) = (Box2d::new(h.v()), Point);
    let ca = Collider2d::new(&sa, &ta);
    let cb = Collider2d::new(&sb, &tb);
    let e = split(inside_box(p, h.v()));
    ensures("a placed box contains a placed point exactly when it does in its own space", ca.collides(cb) == e);
    ensures("penetrates", ca.penetrates(cb).is_some() == e);
    ensures("distance_to", ca.distance_to(cb).is_none() == e);
    ensures("sdfv", ca.sdfv(cb).0 == e);
}}
harness! { P05 verdict_world_point_box(a: Sim, h: Ext, b: Sim) {
    requires!(h.ok() & a.ok() & b.ok());
    let (ta, tb) = (a.t(), b.t());
    let p = ta.unapply(b.pos);
    lemma("the point in the space of the box", eqv(tb.delta_transform(&ta).inverse().pos, p, 64.0));
    requires!(!on_edge(p, h.v()));
    let (sa, sb) = (Box2d::new(h.v()), Point);
    let ca = Collider2d::new(&sa, &ta);
    let cb = Collider2d::new(&sb, &tb);
    ensures("a placed point is in a placed box exactly when it is in the space of the box", cb.collides(ca) == inside_box(p, h.v()));
}}

// ---------------------------------------------------------------- P06 distance vectors
/// A vector `w` that reaches `t` along a direction `n` of length `len` is at least `t` long.
pub fn along(label: &'static str, n: Vec2, len: f32, w: Vec2, t: f32) {
    let (nx, ny, len, wx, wy, t) = (name(n.x), name(n.y), name(len), name(w.x), name(w.y), name(t));
    let (d, s) = (name(nx * wx + ny * wy), name(wx * wx + wy * wy));
    // Cauchy-Schwarz
    lemma_from(label, eq(d, nx * wx + ny * wy, 1.0) & eq(s, wx * wx + wy * wy, 1.0) & eq(nx * nx + ny * ny, len * len, 1.0), le(d * d, s * len * len, 1.0));
    let (a, b) = (name(len * t), name(d));
    lemma_from(label, le(a, b, 1.0) & le(0.0, a, 1.0), le(a * a, b * b, 1.0));
    lemma_from(label, le(a * a, b * b, 1.0) & le(b * b, s * len * len, 1.0) & eq(a, len * t, 1.0) & le(0.0, len, 1.0) & le(0.0, t, 1.0) & ((len > 0.0) | !(t > 0.0)) & le(0.0, s, 1.0), le(t * t, s, 1.0));
}
/// `dist`: the answer; `p - dist` must be the point of the set that is closest to `p`.
fn closest(dist: Vec2, p: Vec2, other: Vec2) {
    ensures("no other point of the set is closer", le(dist.length_squared(), (p - other).length_squared(), 64.0));
}
harness! { P06 distance_box_point(h: Ext, rel: Sim, other: Vec2) {
    requires!(h.ok() & rel.ok() & in_box(other, h.v()));
    let b = Box2d::new(h.v());
    let p = rel.pos;
    if let Some(d) = b.distance_to_rel(&Point, &rel.t()) {
        ensures("the distance vector leads to the box", eqv(clamp(p - d, h.v()), p - d, 8.0));
        closest(d, p, other);
    }
}}
harness! { P06 distance_ball_point(r: Len, rel: Sim, other: Vec2) {
    requires!(r.ok() & rel.ok());
    requires!(other.length_squared() <= r.v * r.v);
    let p = rel.pos;
    if let Some(d) = Ball::new(r.v).distance_to_rel(&Point, &rel.t()) {
        ensures("the distance vector leads to the ball", eq((p - d).length_squared(), r.v * r.v, 16.0));
        lemma("towards the centre", eq(d.perp_dot(p), 0.0, 64.0) & le(0.0, d.dot(p), 64.0));
        closest(d, p, other);
    }
}}
harness! { P06 distance_point_point(rel: Sim) {
    requires!(rel.ok());
    if let Some(d) = Point.distance_to_rel(&Point, &rel.t()) {
        ensures("the distance vector leads from one point to the other", eqv(d, rel.pos, 1.0));
    }
}}
harness! { P06 distance_ball_ball(r: Len, s: Len, rel: Sim, other: Vec2) {
    requires!(r.ok() & s.ok() & rel.ok());
    let sum = r.v + s.v * rel.scale;
    requires!(other.length_squared() <= sum * sum);
    let p = rel.pos;
    if let Some(d) = Ball::new(r.v).distance_to_rel(&Ball::new(s.v), &rel.t()) {
        ensures("moved by the distance vector the balls touch", eq((p - d).length_squared(), sum * sum, 128.0));
        lemma("towards the centre", eq(d.perp_dot(p), 0.0, 128.0) & le(0.0, d.dot(p), 64.0));
        ensures("no shorter move makes them touch", le(d.length_squared(), (p - other).length_squared(), 256.0));
    }
}}
harness! { P06 distance_box_ball(h: Ext, r: Len, rel: Sim, q: Vec2, u: Vec2) {
    requires!(h.ok() & r.ok() & rel.ok());
    let radius = r.v * rel.scale;
    let p = rel.pos;
    // the ball touches or overlaps the box when its centre is within its radius `u` of a point `q` of the box
    requires!(in_box(q, h.v()) & (u.length_squared() <= radius * radius));
    if let Some(d) = Box2d::new(h.v()).distance_to_rel(&Ball::new(r.v), &rel.t()) {
        let t = p - d;
        ensures("moved by the distance vector the ball touches the box", eq((t - clamp(t, h.v())).length_squared(), radius * radius, 128.0));
        let n = p - clamp(p, h.v());
        let len = n.length();
        lemma("the box lies behind its closest point", le(n.dot(q - p), -len * len, 256.0));
        lemma("the ball lies within its radius", le(n.dot(u), len * radius, 256.0));
        lemma("the length of the answer", eq(d.length_squared(), (len - radius) * (len - radius), 256.0) & le(radius, len, 16.0));
        lemma("along the normal", le(len * (len - radius), n.dot(p - q - u), 256.0));
        along("no shorter move", n, len, p - q - u, len - radius);
        ensures("no shorter move makes them touch", le((len - radius) * (len - radius), (p - q - u).length_squared(), 256.0));
    }
}}
harness! { P06 distance_point_box(h: Ext, rel: Sim, other: Vec2) {
    requires!(h.ok() & rel.ok() & in_box(other, h.v()));
    let t = rel.t();
    if let Some(d) = Point.distance_to_rel(&Box2d::new(h.v()), &t) {
        // the point of the box that is closest to the origin, in the box's own space
        let (p, q) = (t.unapply(Vec2::ZERO), t.unapply(d));
        lemma("the answer in the space of the box", eqv(q, p - Box2d::new(h.v()).distance_to_rel(&Point, &t.inverse()).unwrap(), 64.0));
        ensures("the distance vector leads to the box", eqv(clamp(q, h.v()), q, 64.0));
        ensures("no other point of the box is closer", le((p - q).length_squared(), (p - other).length_squared(), 256.0));
        ensures("lengths are those of the space of the box, scaled", eq(d.length_squared(), (p - q).length_squared() * rel.scale * rel.scale, 256.0));
    }
}}
harness! { P06 distance_point_ball(r: Len, rel: Sim, other: Vec2) {
    requires!(r.ok() & rel.ok());
    requires!(other.length_squared() <= r.v * r.v);
    let t = rel.t();
    if let Some(d) = Point.distance_to_rel(&Ball::new(r.v), &t) {
        ensures("the distance vector leads to the ball", eq((rel.pos - d).length_squared(), r.v * r.v * rel.scale * rel.scale, 128.0));
        lemma("along the line of the centres", eq(d.perp_dot(rel.pos), 0.0, 128.0) & le(0.0, d.dot(rel.pos), 64.0));
    }
}}

// ---------------------------------------------------------------- P07 penetration vectors
harness! { P07 penetration_box_point(h: Ext, rel: Sim, other: Vec2) {
    requires!(h.ok() & rel.ok() & !inside_box(other, h.v()));
    let p = rel.pos;
    if let Some(v) = Box2d::new(h.v()).penetrates_rel(&Point, &rel.t()) {
        let q = p - v;
        ensures("moved by the penetration vector the point is on the boundary", eqv(clamp(q, h.v()), q, 16.0) & !(inside_box(q, h.v()) & !on_edge(q, h.v())));
        ensures("no shorter move separates", le(v.length_squared(), (p - other).length_squared(), 64.0));
    }
}}
harness! { P07 penetration_ball_point(r: Len, rel: Sim, other: Vec2) {
    requires!(r.ok() & rel.ok());
    requires!(other.length_squared() >= r.v * r.v);
    let p = rel.pos;
    if let Some(v) = Ball::new(r.v).penetrates_rel(&Point, &rel.t()) {
        ensures("moved by the penetration vector the point is on the boundary", eq((p - v).length_squared(), r.v * r.v, 64.0));
        lemma("along the radius", eq(v.perp_dot(p), 0.0, 64.0) & le(v.dot(p), 0.0, 64.0));
        ensures("no shorter move separates", le(v.length_squared(), (p - other).length_squared(), 128.0));
    }
}}
harness! { P07 penetration_ball_ball(r: Len, s: Len, rel: Sim, other: Vec2) {
    requires!(r.ok() & s.ok() & rel.ok());
    let sum = r.v + s.v * rel.scale;
    requires!(other.length_squared() >= sum * sum);
    let p = rel.pos;
    if let Some(v) = Ball::new(r.v).penetrates_rel(&Ball::new(s.v), &rel.t()) {
        ensures("moved by the penetration vector the balls touch", eq((p - v).length_squared(), sum * sum, 256.0));
        lemma("along the line of the centres", eq(v.perp_dot(p), 0.0, 256.0) & le(v.dot(p), 0.0, 256.0));
        ensures("no shorter move separates", le(v.length_squared(), (p - other).length_squared(), 512.0));
    }
}}
harness! { P07 penetration_box_ball_outside(h: Ext, r: Len, rel: Sim, other: Vec2) {
    requires!(h.ok() & r.ok() & rel.ok());
    let radius = r.v * rel.scale;
    let p = rel.pos;
    requires!(!inside_box(p, h.v()));
    let c = clamp(p, h.v());
    // `other` is a position of the ball where it does not overlap the box
    requires!((other - c).length_squared() >= radius * radius);
    if let Some(v) = Box2d::new(h.v()).penetrates_rel(&Ball::new(r.v), &rel.t()) {
        let q = p - v;
        ensures("moved by the penetration vector the ball touches the box", eq((q - clamp(q, h.v())).length_squared(), radius * radius, 256.0));
        let len = (p - c).length();
        lemma("the length of the answer", eq(v.length_squared(), (radius - len) * (radius - len), 256.0) & le(len, radius, 16.0));
        ensures("no shorter move separates", le((radius - len) * (radius - len), (p - other).length_squared(), 512.0));
    }
}}
fn penetration_box_ball_inside(h: Ext, r: Len, rel: Sim, other: Vec2, quadrant: bool) {
    requires!(h.ok() & r.ok() & rel.ok());
    let radius = r.v * rel.scale;
    let p = rel.pos;
    requires!(in_box(p, h.v()));
    requires!(quadrant);
    requires!(radius > 0.0 || !on_edge(p, h.v()));
    // `other` is a position of the ball where it does not overlap the box
    requires!(!inside_box(other, h.v()) & ((other - clamp(other, h.v())).length_squared() >= radius * radius));
    let answer = Box2d::new(h.v()).penetrates_rel(&Ball::new(r.v), &rel.t());
    ensures("a ball centred in the box overlaps it", answer.is_some());
    if let Some(v) = answer {
        let q = p - v;
        ensures("moved by the penetration vector the ball touches the box", eq((q - clamp(q, h.v())).length_squared(), radius * radius, 256.0));
        // the distance of p from the closest side
        let depth = (h.x.v - p.x.abs()).min(h.y.v - p.y.abs());
        ensures("the length of the answer", eq(v.length_squared(), (radius + depth) * (radius + depth), 512.0));
        let c = clamp(other, h.v());
        let n = other - c;
        let e = n.length();
        let (m, k) = (n.x.abs(), n.y.abs());
        lemma("away from the box", le(radius, e, 64.0) & le(e, m + k, 64.0));
        lemma("the sides are not closer", le(depth * m, n.x * (c.x - p.x), 256.0) & le(depth * k, n.y * (c.y - p.y), 256.0) & le(0.0, depth, 1.0));
        let (n1, n2, n3, n4) = (name(depth), name(m), name(k), name(e));
        lemma_from("depth along the normal", le(n4, n2 + n3, 64.0) & le(0.0, n1, 1.0), le(n1 * n4, n1 * n2 + n1 * n3, 64.0));
        lemma("along the normal", le(e * (e + depth), n.dot(other - p), 256.0));
        if split(e > 0.0) {
            along("no shorter move", n, e, other - p, e + depth);
        }
        ensures("no shorter move separates", le((e + depth) * (e + depth), (p - other).length_squared(), 512.0));
    }
}
harness! { P07 penetration_box_ball_inside_ne(h: Ext, r: Len, rel: Sim, other: Vec2) {
    penetration_box_ball_inside(h, r, rel, other, (rel.pos.x >= 0.0) & (rel.pos.y >= 0.0));
}}
harness! { P07 penetration_box_ball_inside_nw(h: Ext, r: Len, rel: Sim, other: Vec2) {
    penetration_box_ball_inside(h, r, rel, other, (rel.pos.x < 0.0) & (rel.pos.y >= 0.0));
}}
harness! { P07 penetration_box_ball_inside_se(h: Ext, r: Len, rel: Sim, other: Vec2) {
    penetration_box_ball_inside(h, r, rel, other, (rel.pos.x >= 0.0) & (rel.pos.y < 0.0));
}}
harness! { P07 penetration_box_ball_inside_sw(h: Ext, r: Len, rel: Sim, other: Vec2) {
    penetration_box_ball_inside(h, r, rel, other, (rel.pos.x < 0.0) & (rel.pos.y < 0.0));
}}
harness! { P07 penetration_point_box(h: Ext, rel: Sim, other: Vec2) {
    requires!(h.ok() & rel.ok() & !inside_box(other, h.v()));
    let t = rel.t();
    if let Some(v) = Point.penetrates_rel(&Box2d::new(h.v()), &t) {
        let (p, q) = (t.unapply(Vec2::ZERO), t.unapply(v));
        lemma("the answer in the space of the box", eqv(q, p - Box2d::new(h.v()).penetrates_rel(&Point, &t.inverse()).unwrap(), 64.0));
        ensures("moved by the penetration vector the point is on the boundary", eqv(clamp(q, h.v()), q, 64.0) & !(inside_box(q, h.v()) & !on_edge(q, h.v() )));
        ensures("no shorter move separates", le((p - q).length_squared(), (p - other).length_squared(), 256.0));
        ensures("lengths are those of the space of the box, scaled", eq(v.length_squared(), (p - q).length_squared() * rel.scale * rel.scale, 256.0));
    }
}}
harness! { P07 penetration_point_ball(r: Len, rel: Sim) {
    requires!(r.ok() & rel.ok());
    let t = rel.t();
    if let Some(v) = Point.penetrates_rel(&Ball::new(r.v), &t) {
        ensures("moved by the penetration vector the point is on the boundary", eq((rel.pos - v).length_squared(), r.v * r.v * rel.scale * rel.scale, 256.0));
        ensures("along the line of the centres", eq(v.perp_dot(rel.pos), 0.0, 256.0) & le(v.dot(rel.pos), 0.0, 256.0));
    }
}}

// ---------------------------------------------------------------- P08 scalar signed distance
harness! { P08 signed_distance_point_point(rel: Sim) {
    requires!(rel.ok());
    ensures("distance of two points", eq(Point.sdf_rel(&Point, &rel.t()), rel.pos.length(), 8.0));
}}
harness! { P08 signed_distance_box_point(h: Ext, rel: Sim) {
    requires!(h.ok() & rel.ok());
    let d = Box2d::new(h.v()).sdf_rel(&Point, &rel.t());
    ensures("signed distance from a box", eq(d, box_distance(rel.pos, h.v()), 8.0));
}}
harness! { P08 signed_distance_ball_point(r: Len, rel: Sim) {
    requires!(r.ok() & rel.ok());
    let d = Ball::new(r.v).sdf_rel(&Point, &rel.t());
    ensures("signed distance from a ball", eq(d, rel.pos.length() - r.v, 8.0));
}}
harness! { P08 signed_distance_ball_ball(r: Len, s: Len, rel: Sim) {
    requires!(r.ok() & s.ok() & rel.ok());
    let d = Ball::new(r.v).sdf_rel(&Ball::new(s.v), &rel.t());
    ensures("signed distance of two balls", eq(d, rel.pos.length() - r.v - s.v * rel.scale, 32.0));
}}
harness! { P08 signed_distance_box_ball(h: Ext, r: Len, rel: Sim) {
    requires!(h.ok() & r.ok() & rel.ok());
    let d = Box2d::new(h.v()).sdf_rel(&Ball::new(r.v), &rel.t());
    ensures("signed distance of a box and a ball", eq(d, box_distance(rel.pos, h.v()) - r.v * rel.scale, 32.0));
}}
fn agrees<A, B>(a: A, b: B, rel: &Transform2d, contact: f32)
where
    A: SdfRel2d<B> + SdfvRel2d<B, Transform2d>,
{
    let d = a.sdf_rel(&b, rel);
    let (hit, v) = a.sdfv_rel(&b, rel);
    ensures("|sdf| is the length of the sdfv vector", eq(d * d, v.length_squared(), contact));
    ensures("a negative sdf means a collision", (d >= 0.0) | hit | !away_from_zero(d, contact));
    ensures("a positive sdf means no collision", (d <= 0.0) | !hit | !away_from_zero(d, contact));
}
harness! { P08 scalar_agrees_box_point(h: Ext, rel: Sim) {
    requires!(h.ok() & rel.ok());
    agrees(Box2d::new(h.v()), Point, &rel.t(), 64.0);
}}
harness! { P08 scalar_agrees_box_ball(h: Ext, r: Len, rel: Sim) {
    requires!(h.ok() & r.ok() & rel.ok());
    agrees(Box2d::new(h.v()), Ball::new(r.v), &rel.t(), 256.0);
}}
harness! { P08 scalar_agrees_ball_ball(r: Len, s: Len, rel: Sim) {
    requires!(r.ok() & s.ok() & rel.ok());
    agrees(Ball::new(r.v), Ball::new(s.v), &rel.t(), 256.0);
}}
harness! { P08 scalar_agrees_ball_point(r: Len, rel: Sim) {
    requires!(r.ok() & rel.ok());
    agrees(Ball::new(r.v), Point, &rel.t(), 128.0);
}}
harness! { P08 scalar_agrees_point_point(rel: Sim) {
    requires!(rel.ok());
    agrees(Point, Point, &rel.t(), 64.0);
}}
harness! { P08 world_signed_distance_ball_ball(a: Sim, b: Sim, r: Len, s: Len) {
    requires!(r.ok() & s.ok() & a.ok() & b.ok());
    let (ta, tb) = (a.t(), b.t());
    let rel = ta.delta_transform(&tb);
    let dist = (b.pos - a.pos).length();
    same_root("the world distance is the scaled local distance", rel.pos.length() * a.scale, dist, 64.0);
    lemma("the relative scale", eq(rel.scaling_factor() * a.scale, b.scale, 16.0));
    lemma("the world radius is the scaled local radius", eq(s.v * rel.scaling_factor() * a.scale, s.v * b.scale, 64.0));
    let (sa, sb) = (Ball::new(r.v), Ball::new(s.v));
    let d = Collider2d::new(&sa, &ta).sdf(Collider2d::new(&sb, &tb));
    ensures("placed balls are apart by their world distance", eq(d, dist - r.v * a.scale - s.v * b.scale, 64.0));
}}
harness! { P08 world_signed_distance_box_point(a: Sim, h: Ext, b: Sim) {
    requires!(h.ok() & a.ok() & b.ok());
    let (ta, tb) = (a.t(), b.t());
    let (sa, sb) = (Box2d::new(h.v()), Point);
    let d = Collider2d::new(&sa, &ta).sdf(Collider2d::new(&sb, &tb));
    ensures("the world distance is the scaled distance in the box's space", eq(d, a.scale * box_distance(ta.unapply(b.pos), h.v()), 128.0));
}}
