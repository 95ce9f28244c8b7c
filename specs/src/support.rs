//! Support functions, the Minkowski difference, bounding boxes, polygons.
use crate::gen::*;
use crate::rt::*;
use crate::transforms::Sim;
use auburn::col2d::local_minkowski_diff::LocalMinkowskiDiff2d;
use auburn::col2d::*;
use glam::Vec2;

fn in_box(p: Vec2, h: Vec2) -> bool {
    (p.x <= h.x) & (p.x >= -h.x) & (p.y <= h.y) & (p.y >= -h.y)
}
fn le_in_box(p: Vec2, h: Vec2) -> bool {
    le(p.x, h.x, 4.0) & le(-h.x, p.x, 4.0) & le(p.y, h.y, 4.0) & le(-h.y, p.y, 4.0)
}
/// Every vertex is on this side of a line: then so is every point of the polygon.
fn all_below(points: &[Vec2], n: Vec2, b: f32) -> bool {
    points.iter().all(|p| p.x * n.x + p.y * n.y <= b)
}

/// A convex shape of which only the support function is known.
pub struct Abstract<'a>(pub &'a AbstractSet);
impl ExtremePoint2d for Abstract<'_> {
    fn extreme_point(&self, direction: Vec2) -> Vec2 {
        support_oracle(self.0, direction)
    }
}
impl<T: Transformation2d> ExtremePointT2d<T> for Abstract<'_> {}

// ---------------------------------------------------------------- P13 support functions
fn farthest_in_box(s: &impl ExtremePoint2d, h: Vec2, d: Vec2, p: Vec2) {
    let r = s.extreme_point(d);
    ensures("no point of the box is farther", le(p.dot(d), r.dot(d), 32.0));
    ensures("it is a point of the box", le_in_box(r, h));
}
harness! { P13 support_box(h: Ext, d: Vec2, p: Vec2) {
    requires!(h.ok() & in_box(p, h.v()));
    farthest_in_box(&Box2d::new(h.v()), h.v(), d, p);
    farthest_in_box(&Shape2d::Box2d(Box2d::new(h.v())), h.v(), d, p);
    farthest_in_box(&Shape2d::rect(h.x.v, h.y.v), h.v(), d, p);
}}
fn farthest_in_ball(s: &impl ExtremePoint2d, r: f32, d: Vec2, p: Vec2) {
    let e = s.extreme_point(d);
    ensures("it is a point of the ball", le(e.length_squared(), r * r, 16.0));
    // |p| |d| bounds p . d, and the answer reaches it
    let l = name(d.length());
    lemma("the answer is at the radius", eq(e.dot(d), r * l, 32.0));
    let pd = name(p.dot(d));
    lemma("Cauchy-Schwarz", le(pd * pd, (r * l) * (r * l), 1000.0));
    ensures("no point of the ball is farther", le(pd, r * l, 32.0));
}
harness! { P13 support_ball(r: Len, d: Vec2, p: Vec2) {
    requires!(r.ok());
    requires!(p.length_squared() <= r.v * r.v);
    farthest_in_ball(&Ball::new(r.v), r.v, d, p);
    farthest_in_ball(&Shape2d::Ball(Ball::new(r.v)), r.v, d, p);
    farthest_in_ball(&Shape2d::ball(r.v), r.v, d, p);
}}
harness! { P13 support_point(d: Vec2, rel: Sim) {
    requires!(rel.ok());
    ensures("a point is its own farthest point", Point.extreme_point(d) == Vec2::ZERO);
    let t = rel.t();
    ensures("also where it is placed", eqv(Point.extreme_point_t(&t, d), rel.pos, 1.0));
    ensures("also as a collider", eqv(Collider2d::new(&Point, &t).extreme_point(d), rel.pos, 1.0));
}}
fn farthest_in_polygon(s: &impl ExtremePoint2d, v: Vec2, d: Vec2, n: Vec2, b: f32) {
    let r = s.extreme_point(d);
    ensures("no vertex is farther", le(v.x * d.x + v.y * d.y, r.x * d.x + r.y * d.y, 32.0));
    ensures("it is in every half plane that holds all vertices", le(r.x * n.x + r.y * n.y, b, 32.0));
}
/// Loop invariants of a search for the farthest vertex.
fn suggest(k: usize, v: Vec2, d: Vec2, n: Vec2, b: f32) {
    invariant2("the score is that of the best vertex", |s: f32, p: Vec2| s == d.x * p.x + d.y * p.y);
    invariant1("the best vertex is one", |p: Vec2| p.x * n.x + p.y * n.y <= b);
    invariant2("no vertex so far scores higher", |i: usize, s: f32| (k >= i) | (v.x * d.x + v.y * d.y <= s));
}
harness! { P13 support_polygon(points: Vec<Vec2>, k: usize, d: Vec2, n: Vec2, b: f32) {
    requires!(k < points.len());
    requires!(all_within(&points, 1e18) & (d.x.abs() <= 1e18) & (d.y.abs() <= 1e18));
    requires!(all_below(&points, n, b));
    let v = points[k];
    suggest(k, v, d, n, b);
    let s = Poly2d { points };
    farthest_in_polygon(&s, v, d, n, b);
}}
harness! { P13 support_polygon_shape(points: Vec<Vec2>, k: usize, d: Vec2, n: Vec2, b: f32) {
    requires!(k < points.len());
    requires!(all_within(&points, 1e18) & (d.x.abs() <= 1e18) & (d.y.abs() <= 1e18));
    requires!(all_below(&points, n, b));
    let v = points[k];
    suggest(k, v, d, n, b);
    farthest_in_polygon(&Shape2d::Poly2d(Poly2d { points }), v, d, n, b);
}}
bounded! { P13 support_polygon_sampled(points: Vec<Vec2>, d: Vec2, few: bool) {
    requires!(points.len() > 0);
    requires!(few | (points.len() > 4));
    let s = Poly2d::new(&points);
    let z = Shape2d::poly(&points);
    let r = s.extreme_point(d);
    ensures("it is a vertex", points.contains(&r));
    ensures("no vertex is farther", points.iter().all(|p| le(p.dot(d), r.dot(d), 32.0)));
    ensures("the union gives the same", z.extreme_point(d) == r);
}}
/// `extreme_point_t` of a shape that leaves it to the trait, for every kind of transform.
fn placed<T: Transformation2d>(s: &AbstractSet, t: T, d: Vec2, p: Vec2, n: Vec2, b: f32) {
    let shape = Abstract(s);
    let r = shape.extreme_point_t(&t, d);
    ensures("no point of the placed shape is farther", le(t.apply(p).dot(d), r.dot(d), 200.0));
    let back = t.unapply(r);
    ensures("it is a point of the placed shape", le(back.dot(n), b, 200.0));
    let c = Collider2d::new(&shape, &t).extreme_point(d);
    ensures("a collider gives the same", eqv(c, r, 64.0));
}
harness! { P13 support_placed(s: AbstractSet, rel: Sim, d: Vec2, p: Vec2, n: Vec2, b: f32) {
    requires!(rel.ok());
    declare_member(&s, p);
    declare_halfplane(&s, n, b);
    placed(&s, rel.t(), d, p, n, b);
}}
harness! { P13 support_placed_axis(s: AbstractSet, pos: Vec2, k: f32, d: Vec2, p: Vec2, n: Vec2, b: f32) {
    requires!(positive(k, 0.2));
    declare_member(&s, p);
    declare_halfplane(&s, n, b);
    placed(&s, AxisTransform2d::new(pos, k), d, p, n, b);
}}
harness! { P13 support_placed_translated(s: AbstractSet, pos: Vec2, d: Vec2, p: Vec2, n: Vec2, b: f32) {
    declare_member(&s, p);
    declare_halfplane(&s, n, b);
    placed(&s, Translate2d::from(pos), d, p, n, b);
    placed(&s, pos, d, p, n, b);
    placed(&s, IdentityTransform, d, p, n, b);
}}
harness! { P13 support_placed_ball(r: Len, rel: Sim, d: Vec2, p: Vec2) {
    requires!(r.ok() & rel.ok());
    let t = rel.t();
    let e = Ball::new(r.v).extreme_point_t(&t, d);
    let c = e - rel.pos;
    let rr = r.v * rel.scale;
    ensures("it is a point of the placed ball", le(c.length_squared(), rr * rr, 64.0));
    // the farthest point is at the radius along the direction
    let l = name(d.length());
    lemma("the answer is at the radius", eq(c.dot(d), rr * l, 64.0));
    requires!(p.length_squared() <= rr * rr);
    let pd = name(p.dot(d));
    lemma("Cauchy-Schwarz", le(pd * pd, (rr * l) * (rr * l), 1000.0));
    ensures("no point of the placed ball is farther", le(pd, rr * l, 64.0));
    ensures("a collider gives the same", eqv(Collider2d::new(&Ball::new(r.v), &t).extreme_point(d), e, 64.0));
}}
harness! { P13 support_placed_box(h: Ext, rel: Sim, d: Vec2, p: Vec2) {
    requires!(h.ok() & rel.ok() & in_box(p, h.v()));
    let t = rel.t();
    let e = Box2d::new(h.v()).extreme_point_t(&t, d);
    ensures("no point of the placed box is farther", le(t.apply(p).dot(d), e.dot(d), 64.0));
    ensures("it is a point of the placed box", le_in_box(t.unapply(e), h.v()));
    ensures("a collider gives the same", eqv(Collider2d::new(&Box2d::new(h.v()), &t).extreme_point(d), e, 64.0));
    ensures("the union gives the same", eqv(Shape2d::rect(h.x.v, h.y.v).extreme_point_t(&t, d), e, 64.0));
}}
bounded! { P13 support_placed_sampled(points: Vec<Vec2>, r: Len, rel: Sim, d: Vec2) {
    requires!(r.ok() & rel.ok() & (points.len() > 0));
    let t = rel.t();
    let s = Poly2d::new(&points);
    for e in [s.extreme_point_t(&t, d), Shape2d::poly(&points).extreme_point_t(&t, d), Collider2d::new(&s, &t).extreme_point(d)] {
        ensures("no vertex is farther", points.iter().all(|p| le(t.apply(*p).dot(d), e.dot(d), 64.0)));
        ensures("it is a vertex", points.iter().any(|p| eqv(t.apply(*p), e, 64.0)));
    }
    let e = Shape2d::ball(r.v).extreme_point_t(&t, d) - rel.pos;
    ensures("the ball of the union is a ball", le(e.length(), r.v * rel.scale, 64.0)
        & le(r.v * rel.scale * d.length(), e.dot(d), 64.0));
}}

// ---------------------------------------------------------------- P14 the Minkowski difference
fn difference<T: Transformation2d>(sa: &AbstractSet, sb: &AbstractSet, t: T, d: Vec2, pa: Vec2, pb: Vec2) {
    let (a, b) = (Abstract(sa), Abstract(sb));
    let r = LocalMinkowskiDiff2d::raw(&a, &b, &t).extreme_point(d);
    ensures("no difference is farther", le((pa - t.apply(pb)).dot(d), r.dot(d), 200.0));
}
fn within<T: Transformation2d>(sa: &AbstractSet, sb: &AbstractSet, t: T, d: Vec2, n: Vec2, ba: f32, bb: f32) {
    // a half plane for each shape, of which the difference is a half plane for the difference
    declare_halfplane(sa, n, ba);
    declare_halfplane(sb, t.unapply_normal(-n), bb);
    let (a, b) = (Abstract(sa), Abstract(sb));
    let r = LocalMinkowskiDiff2d::raw(&a, &b, &t).extreme_point(d);
    ensures("it is a difference of two points", le(r.dot(n), ba + t.scaling_factor() * bb - t.apply_origin().dot(n), 200.0));
}
harness! { P14 difference_reaches(sa: AbstractSet, sb: AbstractSet, rel: Sim, d: Vec2, pa: Vec2, pb: Vec2) {
    requires!(rel.ok());
    declare_member(&sa, pa);
    declare_member(&sb, pb);
    difference(&sa, &sb, rel.t(), d, pa, pb);
}}
harness! { P14 difference_reaches_unrotated(sa: AbstractSet, sb: AbstractSet, pos: Vec2, k: f32, d: Vec2, pa: Vec2, pb: Vec2) {
    requires!(positive(k, 0.2));
    declare_member(&sa, pa);
    declare_member(&sb, pb);
    difference(&sa, &sb, AxisTransform2d::new(pos, k), d, pa, pb);
    difference(&sa, &sb, Translate2d::from(pos), d, pa, pb);
    difference(&sa, &sb, pos, d, pa, pb);
}}
harness! { P14 difference_is_one(sa: AbstractSet, sb: AbstractSet, rel: Sim, d: Vec2, n: Vec2, ba: f32, bb: f32) {
    requires!(rel.ok());
    within(&sa, &sb, rel.t(), d, n, ba, bb);
}}
harness! { P14 difference_is_one_axis(sa: AbstractSet, sb: AbstractSet, pos: Vec2, k: f32, d: Vec2, n: Vec2, ba: f32, bb: f32) {
    requires!(positive(k, 0.2));
    within(&sa, &sb, AxisTransform2d::new(pos, k), d, n, ba, bb);
}}
harness! { P14 difference_is_one_translated(sa: AbstractSet, sb: AbstractSet, pos: Vec2, d: Vec2, n: Vec2, ba: f32, bb: f32) {
    within(&sa, &sb, Translate2d::from(pos), d, n, ba, bb);
}}
harness! { P14 difference_of_boxes(h: Ext, k: Ext, rel: Sim, d: Vec2, pa: Vec2, pb: Vec2) {
    requires!(h.ok() & k.ok() & rel.ok() & in_box(pa, h.v()) & in_box(pb, k.v()));
    let t = rel.t();
    let (a, b) = (Box2d::new(h.v()), Box2d::new(k.v()));
    let r = LocalMinkowskiDiff2d::raw(&a, &b, &t).extreme_point(d);
    ensures("no difference is farther", le((pa - t.apply(pb)).dot(d), r.dot(d), 200.0));
}}
harness! { P14 difference_box_ball(h: Ext, k: Len, rel: Sim, d: Vec2, pa: Vec2) {
    requires!(h.ok() & k.ok() & rel.ok() & in_box(pa, h.v()));
    let t = rel.t();
    let (a, b) = (Box2d::new(h.v()), Ball::new(k.v));
    let r = LocalMinkowskiDiff2d::raw(&a, &b, &t).extreme_point(d);
    ensures("it is the distance of the ball's rim", le((pa - rel.pos).dot(d) + k.v * rel.scale * d.length(), r.dot(d), 200.0));
}}
bounded! { P14 difference_sampled(pa: Vec<Vec2>, pb: Vec<Vec2>, rel: Sim, d: Vec2) {
    requires!(rel.ok() & (pa.len() > 0) & (pb.len() > 0));
    requires!((pa.len() < 20) & (pb.len() < 20));
    let t = rel.t();
    let (a, b) = (Poly2d::new(&pa), Shape2d::poly(&pb));
    let r = LocalMinkowskiDiff2d::raw(&a, &b, &t).extreme_point(d);
    let mut one = false;
    for p in &pa {
        for q in &pb {
            let v = *p - t.apply(*q);
            one |= eqv(v, r, 64.0);
            ensures("no difference is farther", le(v.dot(d), r.dot(d), 200.0));
        }
    }
    ensures("it is a difference of two points", one);
}}

// ---------------------------------------------------------------- P15 bounding boxes
harness! { P15 bounds_box(h: Ext) {
    requires!(h.ok());
    ensures("a box is its own bounding box", Box2d::new(h.v()).symmetric_bounding_box() == Box2d::new(h.v()));
}}
harness! { P15 bounds_ball(r: Len, p: Vec2) {
    requires!(r.ok());
    let b = Ball::new(r.v).symmetric_bounding_box().halfsize;
    if p.length_squared() <= r.v * r.v {
        ensures("every point of the ball is in the box", le_in_box(p, b));
    }
    ensures("the box is tight", (b.x == r.v) & (b.y == r.v));
}}
harness! { P15 bounds_point() {
    ensures("the box of a point is a point", Point.symmetric_bounding_box().halfsize == Vec2::ZERO);
}}
harness! { P15 bounds_polygon(points: Vec<Vec2>, k: usize) {
    requires!(k < points.len());
    let v = points[k];
    invariant2("the vertices so far are in the box", |i: usize, b: Vec2| (k >= i) | in_box(v, b));
    let b = Poly2d { points }.symmetric_bounding_box().halfsize;
    ensures("every vertex is in the box", in_box(v, b));
}}
harness! { P15 bounds_polygon_tight(points: Vec<Vec2>, x: f32, y: f32) {
    requires!(points.iter().all(|p| (p.x <= x) & (p.x >= -x) & (p.y <= y) & (p.y >= -y)));
    requires!((x >= 0.0) & (y >= 0.0));
    invariant1("the box is no larger", |b: Vec2| (b.x <= x) & (b.y <= y) & (b.x >= 0.0) & (b.y >= 0.0));
    let b = Poly2d { points }.symmetric_bounding_box().halfsize;
    ensures("no smaller box holds all vertices", (b.x <= x) & (b.y <= y) & (b.x >= 0.0) & (b.y >= 0.0));
}}
bounded! { P15 bounds_polygon_sampled(points: Vec<Vec2>) {
    requires!(points.len() > 0);
    let b = Poly2d::new(&points).symmetric_bounding_box().halfsize;
    ensures("every vertex is in the box", points.iter().all(|p| in_box(*p, b)));
    ensures("the box is tight", points.iter().any(|p| p.x.abs() == b.x) & points.iter().any(|p| p.y.abs() == b.y));
}}
harness! { P15 cover(h: Ext, p: Vec2) {
    requires!(h.ok());
    let mut b = Box2d::new(h.v());
    b.cover(&p);
    let n = b.halfsize;
    ensures("the box contains the point", in_box(p, n));
    ensures("the box contains what it contained", (n.x >= h.x.v) & (n.y >= h.y.v));
    ensures("the box grows no further than needed",
        ((n.x == h.x.v) | (n.x == p.x) | (n.x == -p.x)) & ((n.y == h.y.v) | (n.y == p.y) | (n.y == -p.y)));
}}
harness! { P15 cover_history(h: Ext, points: Vec<Vec2>, k: usize) {
    requires!(h.ok() & (k < points.len()));
    let mut b = Box2d::new(h.v());
    let v = points[k];
    invariant2("the points so far are in the box", |i: usize, b: Vec2| (k >= i) | in_box(v, b));
    invariant1("the box is no smaller", |b: Vec2| (b.x >= h.x.v) & (b.y >= h.y.v));
    for p in &points {
        b.cover(p);
    }
    ensures("the box contains every covered point", in_box(points[k], b.halfsize));
    ensures("the box contains what it contained", (b.halfsize.x >= h.x.v) & (b.halfsize.y >= h.y.v));
}}

// ---------------------------------------------------------------- P27 polygons
harness! { P27 polygon_new(points: Vec<Vec2>, k: usize) {
    requires!(k < points.len());
    let p = Poly2d::new(&points);
    ensures("as many vertices as points", p.points.len() == points.len());
    ensures("every point is a vertex, in order", p.points[k] == points[k]);
    if let Shape2d::Poly2d(q) = Shape2d::poly(&points) {
        ensures("also in the union", (q.points.len() == points.len()) & (q.points[k] == points[k]));
    } else {
        ensures("the union holds a polygon", false);
    }
}}
harness! { P27 polygon_of_box(h: Ext) {
    requires!(h.ok());
    let p = Poly2d::from(Box2d::new(h.v())).points;
    ensures("four vertices", p.len() == 4);
    let (x, y) = (h.x.v, h.y.v);
    for c in [Vec2::new(x, y), Vec2::new(-x, y), Vec2::new(x, -y), Vec2::new(-x, -y)] {
        ensures("every corner is a vertex", (p[0] == c) | (p[1] == c) | (p[2] == c) | (p[3] == c));
    }
}}
harness! { P27 union_constructors(h: Ext, r: Len) {
    requires!(h.ok() & r.ok());
    ensures("rect", matches!(Shape2d::rect(h.x.v, h.y.v), Shape2d::Box2d(b) if b.halfsize == h.v()));
    ensures("ball", matches!(Shape2d::ball(r.v), Shape2d::Ball(b) if b.radius == r.v));
}}
bounded! { P27 regular_polygons(n: usize, more: bool, m: u8, radius: f32) {
    let n = if more { m as usize } else { n + 1 };
    requires!(n > 0);
    let (p, q) = (Poly2d::regular(n, radius), Poly2d::regular_upright(n, radius));
    ensures("the requested number of vertices", (p.points.len() == n) & (q.points.len() == n));
    for k in 0..n {
        let a = core::f64::consts::TAU * k as f64 / n as f64;
        let (x, y) = ((radius as f64 * a.cos()) as f32, (radius as f64 * a.sin()) as f32);
        ensures("the vertices are at equal angles on the circle", eqv(p.points[k], Vec2::new(x, y), radius));
        ensures("the upright ones start at the y axis", eqv(q.points[k], Vec2::new(y, x), radius)
            | eqv(q.points[(n - k) % n], Vec2::new(y, x), radius));
    }
}}
// P13 is about the answers of extreme_point; here they are only promised to be farthest.
harness! { P27 strict_check_finds_every_vertex_farthest(points: Vec<Vec2>, k: usize, j: usize) {
    function("extreme_point");
    requires!((k < points.len()) & (j < points.len()));
    let p = Poly2d::new(&points);
    let (v, w) = (points[k], points[j]);
    let e = p.extreme_point(v);
    requires!(e.dot(v) >= w.dot(v));
    invariant1("the vertices so far", move |i: usize| (k >= i) | (e == v));
    if p.strict_check() {
        ensures("the vertex is its own extreme point", e == v);
        ensures("no vertex is farther", w.dot(v) <= v.dot(v));
    }
}}
harness! { P27 strict_check_accepts(points: Vec<Vec2>) {
    function("extreme_point");
    let p = Poly2d::new(&points);
    requires!(points.iter().all(|v| p.extreme_point(*v) == *v));
    ensures("accepted when every vertex is its own extreme point", p.strict_check());
}}
bounded! { P27 strict_check_sampled(points: Vec<Vec2>, k: usize, flip: bool) {
    requires!(points.len() < 200);
    let mut points = points;
    // shapes that pass are rare among random lists
    if flip {
        let n = points.len();
        for (i, p) in points.iter_mut().enumerate() {
            *p = Vec2::from_angle(core::f32::consts::TAU * i as f32 / n as f32) * if n > 20 { 4.0 } else { 4.0 + 0.1 * p.x };
        }
        if k < n {
            points[k] *= 0.5;
        }
    }
    let mut expected = true;
    for (i, p) in points.iter().enumerate() {
        let mut best = true;
        for (j, v) in points.iter().enumerate() {
            if i != j {
                requires!(away_from_zero(p.dot(*v) - p.dot(*p), 16.0) | (v == p));
                best &= p.dot(*v) <= p.dot(*p);
            }
        }
        expected &= best;
    }
    ensures("strict_check is true exactly when every vertex is farthest along its own direction",
        Poly2d::new(&points).strict_check() == expected);
}}
