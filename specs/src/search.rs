//! The iterative queries on a convex shape of which only the support function is known, with
//! loop invariants: no bound on the shape or on the number of iterations.
use crate::gen::*;
use crate::rt::*;
use crate::support::Abstract;
use auburn::col2d::*;
use glam::Vec2;

impl DefaultMinkowski<Point> for Abstract<'_> {}

/// Loop invariants of the search for the origin; `o` is the place of the point.
fn suggest_search() {
    invariant1("not zero", |d: Vec2| d.x * d.x + d.y * d.y > 0.0);
}

// ---------------------------------------------------------------- P16 verdicts
/// A shape that contains a neighbourhood of the point.
fn around(s: &AbstractSet, o: Vec2, r: f32) {
    declare_member(s, o + Vec2::new(r, 0.0));
    declare_member(s, o - Vec2::new(r, 0.0));
    declare_member(s, o + Vec2::new(0.0, r));
    declare_member(s, o - Vec2::new(0.0, r));
}
harness! { P16 miss_collides(s: AbstractSet, o: Vec2, r: f32) {
    requires!(positive(r, 0.2) & moderate(&s, r));
    around(&s, o, r);
    suggest_search();
    let hit = Abstract(&s).collides_rel(&Point, &o);
    ensures("only running out of iterations misses an overlap", hit | (oracle_calls(&s) >= 20));
}}
harness! { P16 miss_distance(s: AbstractSet, o: Vec2, r: f32) {
    requires!(positive(r, 0.2) & moderate(&s, r));
    around(&s, o, r);
    suggest_search();
    let hit = Abstract(&s).distance_to_rel(&Point, &o).is_none();
    ensures("only running out of iterations misses an overlap", hit | (oracle_calls(&s) >= 20));
}}
harness! { P16 miss_penetrates(s: AbstractSet, o: Vec2, r: f32) {
    requires!(positive(r, 0.2) & moderate(&s, r));
    around(&s, o, r);
    suggest_search();
    let hit = Abstract(&s).penetrates_rel(&Point, &o).is_some();
    ensures("only running out of iterations misses an overlap", hit | (oracle_calls(&s) >= 20));
}}
harness! { P16 miss_sdfv(s: AbstractSet, o: Vec2, r: f32) {
    requires!(positive(r, 0.2) & moderate(&s, r));
    around(&s, o, r);
    suggest_search();
    let hit = Abstract(&s).sdfv_rel(&Point, &o).0;
    ensures("only running out of iterations misses an overlap", hit | (oracle_calls(&s) >= 20));
}}

// ---------------------------------------------------------------- P19
/// Whatever the support function answers, the search ends without a panic: within 20 rounds, and
/// for penetration 20 more, each of which asks it once.
harness! { P19 returns_collides(s: AbstractSet, o: Vec2) {
    suggest_nothing();
    let _ = Abstract(&s).collides_rel(&Point, &o);
    ensures("a bounded number of rounds", oracle_calls(&s) <= 20);
}}
harness! { P19 returns_distance(s: AbstractSet, o: Vec2) {
    suggest_nothing();
    let _ = Abstract(&s).distance_to_rel(&Point, &o);
    ensures("a bounded number of rounds", oracle_calls(&s) <= 21);
}}
harness! { P19 returns_penetrates(s: AbstractSet, o: Vec2) {
    suggest_nothing();
    let _ = Abstract(&s).penetrates_rel(&Point, &o);
    ensures("a bounded number of rounds", oracle_calls(&s) <= 40);
}}
harness! { P19 returns_sdfv(s: AbstractSet, o: Vec2) {
    suggest_nothing();
    let _ = Abstract(&s).sdfv_rel(&Point, &o);
    ensures("a bounded number of rounds", oracle_calls(&s) <= 41);
}}
fn suggest_nothing() {
    // cut the loops at once
    invariant1("number", |x: f32| x == x);
}

// ---------------------------------------------------------------- P17
/// Moving back by the vector `v` puts the set's point `m` (as seen from the origin) on the far side
/// of the line through the origin that is square to `v`.
fn separates(m: Vec2, v: Vec2) -> bool {
    (m + v).dot(v) >= 0.0
}
fn suggest_separation(m: Vec2, r: f32) {
    invariant1("separates", |v: Vec2| (m + v).dot(v) >= 0.0);
    invariant1("long enough", |v: Vec2| v.dot(v) * 2.0 >= r * r);
}
harness! { P17 separates_penetrates(s: AbstractSet, o: Vec2, r: f32, m: Vec2) {
    requires!(positive(r, 0.2) & moderate(&s, r));
    around(&s, o, r);
    declare_member(&s, m);
    suggest_separation(m - o, r);
    if let Some(v) = Abstract(&s).penetrates_rel(&Point, &o) {
        if is_real(v.x) & is_real(v.y) {
            ensures("the move separates", le(0.0, (m - o + v).dot(v), 64.0));
            ensures("the move is at least as long as the shapes overlap", le(r * r, v.length_squared() * 2.0, 64.0));
        }
    }
}}
harness! { P17 separates_sdfv(s: AbstractSet, o: Vec2, r: f32, m: Vec2) {
    requires!(positive(r, 0.2) & moderate(&s, r));
    around(&s, o, r);
    declare_member(&s, m);
    suggest_separation(m - o, r);
    let (hit, v) = Abstract(&s).sdfv_rel(&Point, &o);
    if hit & is_real(v.x) & is_real(v.y) {
        ensures("the move separates", le(0.0, (m - o + v).dot(v), 64.0));
        ensures("the move is at least as long as the shapes overlap", le(r * r, v.length_squared() * 2.0, 64.0));
    }
}}

// ---------------------------------------------------------------- P18
/// Every half-plane that contains the set contains the point that the distance vector leads to.
harness! { P18 joins_distance(s: AbstractSet, o: Vec2, n: Vec2, bound: f32) {
    declare_halfplane(&s, n, bound + n.dot(o));
    invariant1("in the half-plane", |p: Vec2| p.dot(n) <= bound);
    if let Some(v) = Abstract(&s).distance_to_rel(&Point, &o) {
        if is_real(v.x) & is_real(v.y) {
            ensures("the vector leads to a point of the shape", le(-v.dot(n), bound, 64.0) | (v == Vec2::ZERO));
        }
    }
}}
harness! { P18 joins_sdfv(s: AbstractSet, o: Vec2, n: Vec2, bound: f32) {
    declare_halfplane(&s, n, bound + n.dot(o));
    invariant1("in the half-plane", |p: Vec2| p.dot(n) <= bound);
    let (hit, v) = Abstract(&s).sdfv_rel(&Point, &o);
    if !hit & is_real(v.x) & is_real(v.y) {
        ensures("the vector leads to a point of the shape", le(-v.dot(n), bound, 64.0) | (v == Vec2::ZERO));
    }
}}
