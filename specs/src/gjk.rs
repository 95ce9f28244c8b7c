//! The iterative queries, against an exact answer computed from the vertices.
use crate::gen::*;
use crate::rt::*;
use crate::shapes::{ask, Answers};
use auburn::col2d::*;
use glam::Vec2;

// ---------------------------------------------------------------- inputs
/// A convex shape of moderate size.
#[derive(Clone, Debug)]
pub enum Convex {
    Box(Vec2),
    Ball(f32),
    Poly(Vec<Vec2>),
}
/// Convex shapes that may have no extent, and lists of points that may repeat.
#[derive(Clone, Debug)]
pub struct Degenerate(pub Convex);

fn size(s: &mut Src) -> f32 {
    let f = s.flavour;
    s.leaf(|s| match f & 3 {
        0 => 1.0 + s.below(3) as f64,
        1 => (1.0 + s.below(12) as f64) / 4.0,
        _ => (0.25 + 3.0 * s.unit()) as f32 as f64,
    }) as f32
}
fn polygon(s: &mut Src) -> Vec<Vec2> {
    let kind = s.below(5);
    let n = if s.below(16) == 0 { 13 + s.below(60) } else { 3 + s.below(10) } as usize;
    let (a, b) = (size(s), size(s));
    match kind {
        0 => Poly2d::regular(n, a).points,
        1 => Poly2d::regular_upright(n, a).points,
        2 => Poly2d::from(Box2d::new(Vec2::new(a, b))).points,
        3 => {
            // a triangle or a quadrilateral with a vertex on every half axis it takes
            let (c, d) = (size(s), size(s));
            if n % 2 == 0 {
                vec![Vec2::new(a, 0.0), Vec2::new(0.0, b), Vec2::new(-c, 0.0), Vec2::new(0.0, -d)]
            } else {
                vec![Vec2::new(a, -b), Vec2::new(-c, -b), Vec2::new(0.0, d)]
            }
        }
        _ => {
            // points of an ellipse, at most a third of the circle apart
            let (p, q) = (s.unit() as f32 * 6.28, 0.3 * s.unit() as f32);
            let mut v: Vec<Vec2> = (0..n)
                .map(|i| {
                    let w = core::f32::consts::TAU * (i as f32 + q * s.unit() as f32) / n as f32;
                    Vec2::from_angle(p).rotate(Vec2::new(a * w.cos(), b * w.sin()))
                })
                .collect();
            let k = s.below(n as u64) as usize;
            v.rotate_left(k);
            v
        }
    }
}
impl Src {
    fn put(&mut self, v: f32) -> f32 {
        // replays read the shape as it was drawn
        self.leaf(|_| v as f64) as f32
    }
}
impl Gen for Convex {
    fn gen(s: &mut Src) -> Self {
        match s.leaf(|s| [0, 1, 2, 2][s.below(4) as usize] as f64) as i32 {
            0 => {
                let (x, y) = (size(s), size(s));
                Convex::Box(Vec2::new(x, y))
            }
            1 => Convex::Ball(size(s)),
            _ => {
                let v = if let Mode::Random = s.mode {
                    let mut t = Src::random(s.next() >> 20);
                    t.flavour = s.flavour;
                    let mut v = polygon(&mut t);
                    if t.below(8) == 0 {
                        // a vertex that is listed twice
                        let n = v.len() as u64;
                        let (i, j) = (t.below(n) as usize, t.below(n) as usize);
                        v.insert(i, v[j]);
                    }
                    v
                } else {
                    vec![]
                };
                let n = s.leaf(|_| v.len() as f64) as usize;
                Convex::Poly((0..n).map(|i| {
                    let p = v.get(i).copied().unwrap_or_default();
                    let x = s.put(p.x);
                    Vec2::new(x, s.put(p.y))
                }).collect())
            }
        }
    }
}
impl Gen for Degenerate {
    fn gen(s: &mut Src) -> Self {
        let zero = |s: &mut Src| {
            let f = s.leaf(|s| s.below(3) as f64);
            if f == 0.0 { 0.0 } else { size(s) }
        };
        Degenerate(match s.leaf(|s| s.below(4) as f64) as i32 {
            0 => {
                let (x, y) = (zero(s), zero(s));
                Convex::Box(Vec2::new(x, y))
            }
            1 => Convex::Ball(zero(s)),
            2 => {
                // few points of a coarse grid: repeated, in a line, all the same
                let n = s.leaf(|s| 1.0 + s.below(4) as f64) as usize;
                let g = s.leaf(|s| 1.0 + s.below(2) as f64);
                Convex::Poly((0..n).map(|_| {
                    let x = s.leaf(|s| (s.below(3) as f64 - 1.0) * g);
                    Vec2::new(x as f32, s.leaf(|s| (s.below(3) as f64 - 1.0) * g) as f32)
                }).collect())
            }
            _ => match Convex::gen(s) {
                Convex::Poly(mut v) => {
                    let k = s.leaf(|s| s.below(64) as f64) as usize % v.len().max(1);
                    if v.len() > 0 {
                        v.push(v[k]);
                    }
                    Convex::Poly(v)
                }
                c => c,
            },
        })
    }
}
/// A relative placement with a moderate, positive scale.
#[derive(Clone, Copy, Debug)]
pub struct Place {
    pub pos: Vec2,
    pub angle: f32,
    pub scale: f32,
}
impl Gen for Place {
    fn gen(s: &mut Src) -> Self {
        let coord = |s: &mut Src| {
            let f = s.flavour;
            s.leaf(|s| match f & 3 {
                0 => s.below(11) as f64 - 5.0,
                1 => (s.below(81) as f64 - 40.0) / 8.0,
                _ => ((s.unit() - 0.5) * 12.0 * s.unit().max(0.05)) as f32 as f64,
            }) as f32
        };
        let (x, y) = (coord(s), coord(s));
        let angle = s.leaf(|s| match s.below(3) {
            0 => 0.0,
            1 => (core::f32::consts::PI * (s.below(49) as f32 - 24.0) / 12.0) as f64,
            _ => (s.unit() * 14.0 - 7.0) as f32 as f64,
        }) as f32;
        let scale = s.leaf(|s| match s.below(4) {
            0 => [0.5, 2.0, 0.25, 3.0][s.below(4) as usize],
            1 => (0.25 + 2.0 * s.unit()) as f32 as f64,
            _ => 1.0,
        }) as f32;
        Place { pos: Vec2::new(x, y), angle, scale }
    }
}
impl Place {
    pub fn t(&self) -> Transform2d {
        Transform2d { pos: self.pos, rot: Rotor2d::from_angle(self.angle), scale: Vec2::splat(self.scale) }
    }
    fn ok(&self) -> bool {
        (self.scale >= 0.2) & (self.scale <= 5.0)
    }
}

/// The unit of length of a case: a power of two, so that it changes no rounding.
#[derive(Clone, Copy, Debug)]
pub struct Unit {
    pub k: f32,
}
impl Gen for Unit {
    fn gen(s: &mut Src) -> Self {
        Unit { k: s.leaf(|s| match s.below(4) {
            0 => [0.0625, 0.25, 4.0, 16.0][s.below(4) as usize],
            _ => 1.0,
        }) as f32 }
    }
}
impl Unit {
    fn ok(&self) -> bool {
        (self.k >= 0.0625) & (self.k <= 16.0)
    }
    fn clear(&self) -> f64 {
        CLEAR * self.k as f64
    }
    fn shape(&self, c: Convex) -> Convex {
        match c {
            Convex::Box(h) => Convex::Box(h * self.k),
            Convex::Ball(r) => Convex::Ball(r * self.k),
            Convex::Poly(v) => Convex::Poly(v.into_iter().map(|p| p * self.k).collect()),
        }
    }
    fn place(&self, p: Place) -> Place {
        Place { pos: p.pos * self.k, ..p }
    }
    fn of(&self, a: Convex, b: Convex, p: Place) -> (Convex, Convex, Place) {
        (self.shape(a), self.shape(b), self.place(p))
    }
}

// ---------------------------------------------------------------- the exact answer
type P = (f64, f64);
fn sub(a: P, b: P) -> P {
    (a.0 - b.0, a.1 - b.1)
}
fn cross(a: P, b: P) -> f64 {
    a.0 * b.1 - a.1 * b.0
}
fn dotp(a: P, b: P) -> f64 {
    a.0 * b.0 + a.1 * b.1
}
/// The convex hull of `points`, counter-clockwise, grown by `radius`.
pub struct Hull {
    pub points: Vec<P>,
    pub radius: f64,
}
impl Hull {
    pub fn of(mut p: Vec<P>, radius: f64) -> Self {
        p.sort_by(|a, b| a.partial_cmp(b).unwrap());
        p.dedup();
        if p.len() < 3 {
            return Hull { points: p, radius };
        }
        let mut h: Vec<P> = vec![];
        for pass in 0..2 {
            let start = h.len();
            for q in &p {
                while h.len() >= start + 2 && cross(sub(h[h.len() - 1], h[h.len() - 2]), sub(*q, h[h.len() - 1])) <= 0.0 {
                    h.pop();
                }
                h.push(*q);
            }
            h.pop();
            if pass == 0 {
                p.reverse();
            }
        }
        Hull { points: h, radius }
    }
    /// The signed distance of a point: negative inside.
    pub fn distance(&self, o: P) -> f64 {
        let n = self.points.len();
        let mut best = f64::INFINITY;
        let mut inside = n > 2;
        for i in 0..n {
            let (a, b) = (self.points[i], self.points[(i + 1) % n]);
            let (ab, ao) = (sub(b, a), sub(o, a));
            if cross(ab, ao) < 0.0 {
                inside = false;
            }
            let l = dotp(ab, ab);
            let t = if l > 0.0 { (dotp(ab, ao) / l).clamp(0.0, 1.0) } else { 0.0 };
            let c = (ao.0 - ab.0 * t, ao.1 - ab.1 * t);
            best = best.min(dotp(c, c).sqrt());
        }
        (if inside { -best } else { best }) - self.radius
    }
}
impl Convex {
    fn ok(&self) -> bool {
        match self {
            Convex::Box(h) => (h.x >= 0.0) & (h.y >= 0.0) & (h.max_element() <= 20.0),
            Convex::Ball(r) => (*r >= 0.0) & (*r <= 20.0),
            Convex::Poly(v) => (v.len() > 0) & v.iter().all(|p| p.abs().max_element() <= 20.0),
        }
    }
    fn hull(&self) -> (Vec<P>, f64) {
        match self {
            Convex::Box(h) => {
                let (x, y) = (h.x as f64, h.y as f64);
                (vec![(x, y), (-x, y), (x, -y), (-x, -y)], 0.0)
            }
            Convex::Ball(r) => (vec![(0.0, 0.0)], *r as f64),
            Convex::Poly(v) => (v.iter().map(|p| (p.x as f64, p.y as f64)).collect(), 0.0),
        }
    }
    pub fn union(&self) -> Shape2d {
        match self {
            Convex::Box(h) => Shape2d::rect(h.x, h.y),
            Convex::Ball(r) => Shape2d::ball(*r),
            Convex::Poly(v) => Shape2d::poly(v),
        }
    }
}
/// All differences of a point of `a` and a point of the placed `b`.
pub fn difference(a: &Convex, b: &Convex, p: &Place) -> Hull {
    let ((va, ra), (vb, rb)) = (a.hull(), b.hull());
    let (s, c) = (p.angle as f64).sin_cos();
    let k = p.scale as f64;
    let vb: Vec<P> = vb.iter().map(|v| (p.pos.x as f64 + k * (c * v.0 - s * v.1), p.pos.y as f64 + k * (s * v.0 + c * v.1))).collect();
    Hull::of(va.iter().flat_map(|a| vb.iter().map(move |b| sub(*a, *b))).collect(), ra + k * rb)
}
/// Distances below this are not told apart from rounding.
const CLEAR: f64 = 5e-4;
/// The queries that are implemented for a pair, in `Shape2d` and with the types of their own.
fn all(a: &Convex, b: &Convex, p: &Place) -> Vec<Answers> {
    let t = p.t();
    let mut v = vec![ask(&a.union(), &b.union(), &t)];
    match (a, b) {
        (Convex::Box(h), Convex::Box(k)) => v.push(ask(&Box2d::new(*h), &Box2d::new(*k), &t)),
        (Convex::Box(h), Convex::Poly(q)) => v.push(ask(&Box2d::new(*h), &Poly2d::new(q), &t)),
        (Convex::Poly(q), Convex::Box(h)) => v.push(ask(&Poly2d::new(q), &Box2d::new(*h), &t)),
        (Convex::Poly(q), Convex::Poly(r)) => v.push(ask(&Poly2d::new(q), &Poly2d::new(r), &t)),
        (Convex::Ball(r), Convex::Box(h)) => v.push(ask(&Ball::new(*r), &Box2d::new(*h), &t)),
        _ => {}
    }
    v
}
fn round(a: &Convex, b: &Convex) -> bool {
    matches!(a, Convex::Ball(_)) | matches!(b, Convex::Ball(_))
}
fn pt(v: Vec2) -> P {
    (v.x as f64, v.y as f64)
}

// ---------------------------------------------------------------- P16 verdicts
bounded! { P16 iterative_verdicts(a: Convex, b: Convex, p: Place, u: Unit) {
    requires!(a.ok() & b.ok() & p.ok() & u.ok());
    let (a, b, p) = u.of(a, b, p);
    let d = difference(&a, &b, &p).distance((0.0, 0.0));
    requires!(d.abs() > u.clear());
    for r in all(&a, &b, &p) {
        ensures("collides when the shapes clearly overlap, and not when they are clearly apart", r.hit == (d < 0.0));
        ensures("so does sdfv", r.full.0 == (d < 0.0));
        ensures("so does penetrates", r.pen.is_some() == (d < 0.0));
        ensures("so does distance_to", r.dist.is_none() == (d < 0.0));
    }
}}
// ---------------------------------------------------------------- P17 penetration
fn separates(v: Vec2, a: &Convex, b: &Convex, p: &Place, depth: f64, u: &Unit) {
    ensures("the vector is a number", v.is_finite());
    ensures("the vector is not zero", v.length() > 0.0);
    let moved = Place { pos: p.pos - v, ..*p };
    ensures("moving back by the vector separates the shapes", difference(a, b, &moved).distance((0.0, 0.0)) >= -u.clear());
    if !round(a, b) {
        ensures("the vector is not much longer than needed", v.length() as f64 <= depth * 1.03 + u.clear());
    }
}
bounded! { P17 iterative_penetration(a: Convex, b: Convex, p: Place, u: Unit) {
    requires!(a.ok() & b.ok() & p.ok() & u.ok());
    let (a, b, p) = u.of(a, b, p);
    let d = difference(&a, &b, &p).distance((0.0, 0.0));
    requires!(d < -u.clear());
    for r in all(&a, &b, &p) {
        for v in r.pen.into_iter().chain(r.full.0.then_some(r.full.1)) {
            separates(v, &a, &b, &p, -d, &u);
        }
    }
}}
// ---------------------------------------------------------------- P18 distance
bounded! { P18 iterative_distance(a: Convex, b: Convex, p: Place, u: Unit) {
    requires!(a.ok() & b.ok() & p.ok() & u.ok());
    let (a, b, p) = u.of(a, b, p);
    let h = difference(&a, &b, &p);
    let d = h.distance((0.0, 0.0));
    requires!(d > u.clear());
    for r in all(&a, &b, &p) {
        for v in r.dist.into_iter().chain((!r.full.0).then_some(r.full.1)) {
            ensures("the vector is a number", v.is_finite());
            ensures("the vector joins a point of one shape to a point of the other", h.distance(pt(-v)) <= u.clear());
            ensures("the vector is no shorter than the distance", v.length() as f64 >= d - u.clear());
            ensures("the vector is not much longer than the distance", v.length() as f64 <= d * 1.03 + u.clear());
        }
    }
}}
// ---------------------------------------------------------------- P19 no panics, no endless loops
bounded! { P19 iterative_returns(a: Degenerate, b: Degenerate, p: Place, u: Unit) {
    requires!(a.0.ok() & b.0.ok() & p.ok() & u.ok());
    let (a, b, p) = u.of(a.0, b.0, p);
    for r in all(&a, &b, &p) {
        ensures("an answer comes back", r.hit | !r.hit);
    }
}}
bounded! { P19 iterative_returns_convex(a: Convex, b: Convex, p: Place, u: Unit) {
    requires!(a.ok() & b.ok() & p.ok() & u.ok());
    let (a, b, p) = u.of(a, b, p);
    for r in all(&a, &b, &p) {
        ensures("an answer comes back", r.hit | !r.hit);
    }
}}

// ---------------------------------------------------------------- P09, P10, P11, P12 for the iterative pairs
fn same_length(v: Vec2, w: Vec2, u: &Unit) -> bool {
    let (a, b) = (v.length() as f64, w.length() as f64);
    (a - b).abs() <= 0.05 * a.max(b) + u.clear()
}
bounded! { P09 coherent_iterative(a: Convex, b: Convex, p: Place, u: Unit) {
    requires!(a.ok() & b.ok() & p.ok() & u.ok());
    let (a, b, p) = u.of(a, b, p);
    requires!(difference(&a, &b, &p).distance((0.0, 0.0)).abs() > u.clear());
    for r in all(&a, &b, &p) {
        ensures("sdfv and collides give the same verdict", r.full.0 == r.hit);
        ensures("penetrates answers exactly when collides is true", r.pen.is_some() == r.hit);
        ensures("distance_to answers exactly when collides is false", r.dist.is_none() == r.hit);
        for v in r.pen.into_iter().chain(r.dist) {
            ensures("sdfv's vector is as long", same_length(v, r.full.1, &u));
        }
    }
}}
bounded! { P10 mirror_iterative(a: Convex, b: Convex, p: Place, u: Unit) {
    requires!(a.ok() & b.ok() & p.ok() & u.ok());
    let (a, b, p) = u.of(a, b, p);
    let h = difference(&a, &b, &p);
    let d = h.distance((0.0, 0.0));
    requires!(d.abs() > u.clear());
    let t = p.t();
    let i = t.inverse();
    let (x, y) = (a.union(), b.union());
    let (r, q) = (ask(&x, &y, &t), ask(&y, &x, &i));
    ensures("swapping the shapes keeps the verdict", (r.hit == q.hit) & (r.full.0 == q.full.0));
    ensures("swapping keeps which query answers", (r.pen.is_some() == q.pen.is_some()) & (r.dist.is_some() == q.dist.is_some()));
    // the least move of round shapes is only approached
    if (d > 0.0) | !round(&a, &b) {
        let back = |v: Vec2| t.apply_normal(v) * p.scale;
        ensures("swapping keeps the length of the vector", same_length(r.full.1, back(q.full.1), &u));
        for (v, w) in r.pen.into_iter().zip(q.pen).chain(r.dist.into_iter().zip(q.dist)) {
            ensures("swapping keeps the length of the answer", same_length(v, back(w), &u));
        }
    }
}}
bounded! { P11 world_iterative(a: Convex, b: Convex, pa: Place, pb: Place, u: Unit) {
    requires!(a.ok() & b.ok() & pa.ok() & pb.ok() & u.ok());
    let (a, b, pa) = u.of(a, b, pa);
    let pb = u.place(pb);
    let h = placed_difference(&a, &pa, &b, &pb);
    let d = h.distance((0.0, 0.0));
    requires!(d.abs() > 4.0 * u.clear());
    let (x, y) = (a.union(), b.union());
    let (ta, tb) = (pa.t(), pb.t());
    let (ca, cb) = (Collider2d::new(&x, &ta), Collider2d::new(&y, &tb));
    let (hit, v) = ca.sdfv(cb);
    ensures("the verdict is about the placed shapes", (hit == (d < 0.0)) & (ca.collides(cb) == hit)
        & (ca.penetrates(cb).is_some() == hit) & (ca.distance_to(cb).is_none() == hit));
    for v in [v].into_iter().chain(ca.penetrates(cb)).chain(ca.distance_to(cb)) {
        if d > 0.0 {
            ensures("the vector joins the placed shapes", h.distance(pt(-v)) <= 4.0 * u.clear());
            ensures("it is as long as they are apart", (v.length() as f64) <= d * 1.03 + 4.0 * u.clear());
        } else {
            let moved = Place { pos: pb.pos - v, ..pb };
            ensures("the vector separates the placed shapes", placed_difference(&a, &pa, &b, &moved).distance((0.0, 0.0)) >= -4.0 * u.clear());
            ensures("and is not much longer than needed", round(&a, &b) | ((v.length() as f64) <= -d * 1.03 + 4.0 * u.clear()));
        }
    }
}}
fn placed_difference(a: &Convex, pa: &Place, b: &Convex, pb: &Place) -> Hull {
    // the difference from a point: the placed shape itself, mirrored
    let o = Convex::Ball(0.0);
    let (x, y) = (difference(&o, a, pa), difference(&o, b, pb));
    Hull::of(x.points.iter().flat_map(|p| y.points.iter().map(move |q| sub(*q, *p))).collect(), x.radius + y.radius)
}
bounded! { P12 queries_iterative(a: Convex, b: Convex, p: Place, u: Unit) {
    requires!(a.ok() & b.ok() & p.ok() & u.ok());
    let (a, b, p) = u.of(a, b, p);
    let p = Place { angle: 0.0, ..p };
    let d = difference(&a, &b, &p).distance((0.0, 0.0));
    requires!(d.abs() > u.clear());
    let (x, y) = (a.union(), b.union());
    let r = ask(&x, &y, &p.t());
    let mut others = vec![ask(&x, &y, &AxisTransform2d::new(p.pos, p.scale))];
    if p.scale == 1.0 {
        others.push(ask(&x, &y, &p.pos));
        others.push(ask(&x, &y, &Translate2d::from(p.pos)));
    }
    for q in others {
        ensures("the verdict does not depend on the type", (r.hit == q.hit) & (r.full.0 == q.full.0));
        ensures("nor does which query answers", (r.pen.is_some() == q.pen.is_some()) & (r.dist.is_some() == q.dist.is_some()));
        if (d > 0.0) | !round(&a, &b) {
            ensures("nor the length of the vector", same_length(r.full.1, q.full.1, &u));
            for (v, w) in r.pen.into_iter().zip(q.pen).chain(r.dist.into_iter().zip(q.dist)) {
                ensures("nor the length of the answer", same_length(v, w, &u));
            }
        }
    }
}}
