//! Transformations: composition, inversion, differences, rotors.
use crate::rt::*;
use auburn::col2d::*;
use auburn::Quat;
use glam::Vec2;

input! {
    /// A similarity: rotation, uniform positive scale, translation.
    Sim { pos: Vec2, angle: f32, scale: f32 }
}
impl Sim {
    pub fn t(&self) -> Transform2d {
        Transform2d { pos: self.pos, rot: Rotor2d::from_angle(self.angle), scale: Vec2::splat(self.scale) }
    }
    pub fn ok(&self) -> bool {
        positive(self.scale, 0.2)
    }
}
input! {
    /// A rotation, a translation and a scale of its own along each axis.
    Gen2 { pos: Vec2, angle: f32, scale: Vec2 }
}
impl Gen2 {
    pub fn t(&self) -> Transform2d {
        Transform2d { pos: self.pos, rot: Rotor2d::from_angle(self.angle), scale: self.scale }
    }
    pub fn unrotated(&self) -> Transform2d {
        Transform2d { pos: self.pos, rot: Rotor2d::IDENTITY, scale: self.scale }
    }
    pub fn ok(&self) -> bool {
        positive(self.scale.x, 0.2) & positive(self.scale.y, 0.2)
    }
}

// ---------------------------------------------------------------- P01 composition
fn composes<T: Transformation2d + Composable>(a: T, b: T, p: Vec2) {
    let c = a.compose(&b);
    ensures("compose(a, b).apply(p) = a.apply(b.apply(p))", eqv(c.apply(p), a.apply(b.apply(p)), 100.0));
    ensures(
        "compose(a, b) transforms directions by b, then a",
        eqv(c.apply_normal(p), a.apply_normal(b.apply_normal(p)), 10.0),
    );
    ensures(
        "compose(a, b) sends the origin where a sends b's origin",
        eqv(c.apply_origin(), a.apply(b.apply_origin()), 100.0),
    );
}
harness! { P01 compose_similarities(a: Sim, b: Sim, p: Vec2) {
    requires!(a.ok() & b.ok());
    composes(a.t(), b.t(), p);
    ensures("scaling factors multiply", eq(a.t().compose(&b.t()).scaling_factor(), a.scale * b.scale, 16.0));
}}
harness! { P01 compose_outer_uniform(a: Sim, b: Gen2, p: Vec2) {
    requires!(a.ok() & b.ok());
    composes(a.t(), b.t(), p);
}}
harness! { P01 compose_inner_unrotated(a: Gen2, b: Gen2, p: Vec2) {
    requires!(a.ok() & b.ok());
    composes(a.t(), b.unrotated(), p);
}}
harness! { P01 compose_vec2(a: Vec2, b: Vec2, p: Vec2) {
    composes(a, b, p);
}}
harness! { P01 compose_translate2d(a: Vec2, b: Vec2, p: Vec2) {
    composes(Translate2d::from(a), Translate2d::new(b), p);
}}
harness! { P01 compose_axis(a: Vec2, k: f32, b: Vec2, l: f32, p: Vec2) {
    requires!(positive(k, 0.2) & positive(l, 0.2));
    let (a, b) = (AxisTransform2d::new(a, k), AxisTransform2d::new(b, l));
    ensures("scaling factors multiply", eq(a.compose(&b).scaling_factor(), k * l, 16.0));
    composes(a, b, p);
}}
harness! { P01 compose_associates(a: Sim, b: Sim, c: Sim, p: Vec2) {
    requires!(a.ok() & b.ok() & c.ok());
    let (a, b, c) = (a.t(), b.t(), c.t());
    let l = a.compose(&b).compose(&c);
    let r = a.compose(&b.compose(&c));
    ensures("composition is associative", eqv(l.apply(p), r.apply(p), 1000.0));
}}

// ---------------------------------------------------------------- P02 inversion
fn inverts<T: Transformation2d + Invertible>(a: T, p: Vec2) {
    let i = a.inverse();
    ensures("inverse undoes apply", eqv(i.apply(a.apply(p)), p, 100.0));
    ensures("apply undoes inverse", eqv(a.apply(i.apply(p)), p, 100.0));
    ensures("inverse agrees with unapply", eqv(i.apply(p), a.unapply(p), 100.0));
    ensures("inverse undoes apply_normal", eqv(i.apply_normal(a.apply_normal(p)), p, 10.0));
    ensures("inverse agrees with unapply_normal", eqv(i.apply_normal(p), a.unapply_normal(p), 10.0));
    unapplies(a, p);
}
fn unapplies<T: Transformation2d>(a: T, p: Vec2) {
    ensures("unapply undoes apply", eqv(a.unapply(a.apply(p)), p, 100.0));
    ensures("apply undoes unapply", eqv(a.apply(a.unapply(p)), p, 100.0));
    ensures("unapply_normal undoes apply_normal", eqv(a.unapply_normal(a.apply_normal(p)), p, 10.0));
    ensures("apply_normal undoes unapply_normal", eqv(a.apply_normal(a.unapply_normal(p)), p, 10.0));
    ensures("apply_origin is where apply sends the origin", eqv(a.apply_origin(), a.apply(Vec2::ZERO), 10.0));
}
harness! { P02 invert_similarity(a: Sim, p: Vec2) {
    requires!(a.ok());
    ensures("scaling factor of the inverse", eq(a.t().inverse().scaling_factor() * a.scale, 1.0, 1.0));
    inverts(a.t(), p);
}}
harness! { P02 invert_unrotated(a: Gen2, p: Vec2) {
    requires!(a.ok());
    inverts(a.unrotated(), p);
}}
harness! { P02 unapply_general(a: Gen2, p: Vec2) {
    requires!(a.ok());
    unapplies(a.t(), p);
}}
harness! { P02 invert_vec2(a: Vec2, p: Vec2) {
    inverts(a, p);
}}
harness! { P02 invert_translate2d(a: Vec2, p: Vec2) {
    inverts(Translate2d::from(a), p);
}}
harness! { P02 invert_axis(a: Vec2, k: f32, p: Vec2) {
    requires!(positive(k, 0.2));
    let a = AxisTransform2d::new(a, k);
    ensures("scaling factor of the inverse", eq(a.inverse().scaling_factor() * k, 1.0, 1.0));
    inverts(a, p);
}}
harness! { P02 identity_transform(p: Vec2) {
    let a = IdentityTransform;
    unapplies(a, p);
    ensures("the identity changes nothing", eqv(Transformation2d::apply(&a, p), p, 1.0) & eqv(a.apply_normal(p), p, 1.0) & (a.scaling_factor() == 1.0));
    let b = Transform2d::IDENTITY;
    ensures("Transform2d::IDENTITY changes nothing", eqv(b.apply(p), p, 1.0) & eqv(b.apply_normal(p), p, 1.0) & (b.scaling_factor() == 1.0));
    let d = Transform2d::default();
    ensures("the default Transform2d changes nothing", eqv(d.apply(p), p, 1.0) & (d.scaling_factor() == 1.0));
    ensures("the default rotor changes nothing", eqv(Rotor2d::default() * p, p, 1.0));
}}

// ---------------------------------------------------------------- P03 relative transforms
fn relates<T: Transformation2d + DeltaTransform>(a: T, b: T, p: Vec2) {
    let d = a.delta_transform(&b);
    ensures("a.apply(delta(a, b).apply(p)) = b.apply(p)", eqv(a.apply(d.apply(p)), b.apply(p), 1000.0));
    ensures("delta(a, b) reads b's points in a's space", eqv(d.apply(p), a.unapply(b.apply(p)), 1000.0));
    ensures("delta(a, b) reads b's directions in a's space", eqv(a.apply_normal(d.apply_normal(p)), b.apply_normal(p), 10.0));
    ensures("delta(a, b) has the ratio of the scales", eq(a.scaling_factor() * d.scaling_factor(), b.scaling_factor(), 10.0));
}
harness! { P03 delta_similarities(a: Sim, b: Sim, p: Vec2) {
    requires!(a.ok() & b.ok());
    relates(a.t(), b.t(), p);
}}
harness! { P03 delta_vec2(a: Vec2, b: Vec2, p: Vec2) {
    relates(a, b, p);
}}
harness! { P03 delta_translate2d(a: Vec2, b: Vec2, p: Vec2) {
    relates(Translate2d::from(a), Translate2d::from(b), p);
}}
harness! { P03 delta_axis(a: Vec2, k: f32, b: Vec2, l: f32, p: Vec2) {
    requires!(positive(k, 0.2) & positive(l, 0.2));
    relates(AxisTransform2d::new(a, k), AxisTransform2d::new(b, l), p);
}}
harness! { P03 delta_is_frame_independent(m: Sim, a: Sim, b: Sim, p: Vec2) {
    requires!(m.ok() & a.ok() & b.ok());
    let (m, a, b) = (m.t(), a.t(), b.t());
    let d = a.delta_transform(&b);
    let e = m.compose(&a).delta_transform(&m.compose(&b));
    ensures("moving both keeps the relative transform", eqv(d.apply(p), e.apply(p), 4000.0));
    ensures("moving both keeps the relative scale", eq(d.scaling_factor(), e.scaling_factor(), 100.0));
}}

// ---------------------------------------------------------------- P04 rotors
harness! { P04 rotor_from_angle(angle: f32, v: Vec2, w: Vec2) {
    let r = Rotor2d::from_angle(angle);
    let (rv, rw) = (r * v, r * w);
    ensures("rotation keeps lengths and angles", eq(rv.dot(rw), v.dot(w), 64.0));
    ensures("rotation keeps orientation", eq(rv.perp_dot(rw), v.perp_dot(w), 64.0));
    ensures("rotation by the angle", eqv(r * Vec2::X, Vec2::new(angle.cos(), angle.sin()), 1.0));
    ensures("inverse rotor undoes the rotation", eqv(r.inverse() * rv, v, 10.0));
    ensures("inverse rotor is rotation by the opposite angle", eqv(r.inverse() * v, Rotor2d::from_angle(-angle) * v, 10.0));
}}
harness! { P04 rotor_product(a: f32, b: f32, v: Vec2) {
    let (ra, rb) = (Rotor2d::from_angle(a), Rotor2d::from_angle(b));
    ensures("(ra * rb) * v = ra * (rb * v)", eqv((ra * rb) * v, ra * (rb * v), 10.0));
    ensures("the product is a rotation", eq(((ra * rb) * v).length_squared(), v.length_squared(), 64.0));
    ensures("rotors commute", eqv((ra * rb) * v, (rb * ra) * v, 10.0));
}}
harness! { P04 rotor_from_quaternion(x: f32, y: f32, z: f32, w: f32, v: Vec2) {
    // any unit quaternion (normalised here), also one that leaves the plane
    let n = x * x + y * y + z * z + w * w;
    requires!(positive(n, 0.01));
    let k = 1.0 / n.sqrt();
    let r = Rotor2d::from_quaternion(Quat::from_xyzw(x * k, y * k, z * k, w * k));
    ensures("a rotor from any unit quaternion keeps lengths", eq((r * v).length_squared(), v.length_squared(), 64.0));
    ensures("a rotor from any unit quaternion keeps orientation", eq((r * v).perp_dot(r * v.perp()), v.length_squared(), 64.0));
}}
harness! { P04 rotor_from_planar_quaternion(z: f32, w: f32, v: Vec2) {
    let n = z * z + w * w;
    requires!(positive(n, 0.01));
    let k = 1.0 / n.sqrt();
    let (z, w) = (z * k, w * k);
    let r = Rotor2d::from_quaternion(Quat::from_xyzw(0.0, 0.0, z, w));
    let (c, s) = (w * w - z * z, 2.0 * w * z);
    ensures("rotation by the quaternion's angle about Z", eqv(r * v, Vec2::new(c * v.x - s * v.y, s * v.x + c * v.y), 10.0));
}}
harness! { P04 rotor_angle(angle: f32, v: Vec2) {
    let r = Rotor2d::from_angle(angle);
    ensures("from_angle(angle()) is the same rotor", eqv(Rotor2d::from_angle(r.angle()) * v, r * v, 10.0));
}}
harness! { P04 transform_builders(t: Vec2, angle: f32, s: Vec2, p: Vec2) {
    let r = Rotor2d::from_angle(angle);
    let full = Transform2d { pos: t, rot: r, scale: s };
    let built = Transform2d::from_translation(t).with_angle(angle).with_scale(s);
    ensures("scale, then rotate, then translate", eqv(full.apply(p), r * Vec2::new(s.x * p.x, s.y * p.y) + t, 100.0));
    ensures("builders set what they name", eqv(built.apply(p), full.apply(p), 100.0));
    let b2 = Transform2d::from_scale(s).with_rotation(r).with_translation(t);
    ensures("builder order does not matter", eqv(b2.apply(p), full.apply(p), 100.0));
    ensures("from_angle only rotates", eqv(Transform2d::from_angle(angle).apply(p), r * p, 10.0));
    ensures("from_rotation only rotates", eqv(Transform2d::from_rotation(r).apply(p), r * p, 10.0));
}}
