//! Publishers, approximate equality, interpolation.
use crate::gen::*;
use crate::rt::*;
use auburn::utils::approx::Approx;
use auburn::utils::publisher::*;
use auburn::{Lerp, Square};
use glam::{Vec2, Vec3};

// ---------------------------------------------------------------- P25 publishers
harness! { P25 ledger_appends(old: Vec<i32>, e: i32, i: usize) {
    requires!(i < old.len());
    let (n, before) = (old.len(), old[i]);
    let mut l = Ledger { events: old };
    l.notify(e);
    ensures("one more event", l.events.len() == n + 1);
    ensures("the event is the last one", l.events[n] == e);
    ensures("earlier events stay as they were", l.events[i] == before);
}}
harness! { P25 ledger_starts_empty(e: i32, f: i32) {
    ensures("new", Ledger::<i32>::new().events.is_empty());
    ensures("default", Ledger::<i32>::default().events.is_empty());
    let mut l = Ledger::new();
    l.notify(e);
    l.notify(f);
    ensures("the events in order", (l.events.len() == 2) & (l.events[0] == e) & (l.events[1] == f));
}}
harness! { P25 hashset_ledger_collects(e: i32, f: i32, g: i32) {
    let mut l = HashsetLedger::<i32>::new();
    ensures("starts empty", !l.events.contains(&g));
    l.notify(e);
    ensures("holds the event", l.events.contains(&g) == (g == e));
    l.notify(f);
    ensures("holds both events and nothing else", l.events.contains(&g) == ((g == e) | (g == f)));
    ensures("default starts empty", !HashsetLedger::<i32>::default().events.contains(&g));
}}
harness! { P25 hashset_ledger_adds(l: Set, e: i32, g: i32) {
    let mut l = HashsetLedger { events: l.s };
    let before = l.events.contains(&g);
    l.notify(e);
    ensures("holds what it held and the new event", l.events.contains(&g) == (before | (g == e)));
}}
pub struct Set {
    pub s: std::collections::HashSet<i32>,
}
impl Gen for Set {
    fn gen(s: &mut Src) -> Self {
        Set { s: Vec::<i32>::gen(s).into_iter().collect() }
    }
}
/// The log from `from` on is one event for every subscriber in order.
fn notified(from: usize, n: i32, e: i32) {
    ensures("every subscriber is called once", logged() == from + n as usize);
    for i in 0..n {
        if logged() > from + i as usize {
            let (who, what) = log_at(from + i as usize);
            ensures("in the order of subscription, with the event", (who == i) & (what == e));
        }
    }
}
harness! { P25 callbacks(before: u8, between: u8, e: i32, f: i32) {
    requires!((before <= 3) & (between <= 2));
    let mut p = CallbackPublisher::<i32>::new();
    let mut n = 0;
    for _ in 0..before {
        let who = n;
        p.attach(move |e: &i32| log(who, *e));
        n += 1;
    }
    ensures("attaching calls nothing", logged() == 0);
    p.notify(e);
    notified(0, n, e);
    let first = logged();
    for _ in 0..between {
        let who = n;
        p.attach(move |e: &i32| log(who, *e));
        n += 1;
    }
    p.notify(f);
    notified(first, n, f);
    let mut d = CallbackPublisher::<i32>::default();
    let second = logged();
    d.notify(e);
    ensures("starts without subscribers", logged() == second);
}}
bounded! { P25 callbacks_are_called_once_in_order(events: Vec<i32>, subscribers: usize, late: bool) {
    use std::sync::{Arc, Mutex};
    let log = Arc::new(Mutex::new(vec![]));
    let mut p = if late { CallbackPublisher::<i32>::new() } else { CallbackPublisher::<i32>::default() };
    let mut expected = vec![];
    for (k, e) in events.iter().enumerate() {
        // with `late`, subscribers arrive while events come in
        let known = if late { subscribers.min(k) } else { subscribers };
        let there = if k == 0 { 0 } else if late { subscribers.min(k - 1) } else { subscribers };
        for i in there..known {
            let log = log.clone();
            p.attach(move |e: &i32| log.lock().unwrap().push((i, *e)));
        }
        p.notify(*e);
        for i in 0..known {
            expected.push((i, *e));
        }
    }
    ensures("every subscriber sees every event once, in order", *log.lock().unwrap() == expected);
}}

// ---------------------------------------------------------------- P26 approximate equality
harness! { P26 approx_number_is_reflexive(a: f32, t: Len) {
    requires!(t.ok() & (t.v > 0.0));
    ensures("a = a", a.approx_eq(&a));
    ensures("a = a, for any tolerance", a.approx_eq_tolerance(&a, t.v));
}}
harness! { P26 approx_number(a: f32, b: f32, t: Len) {
    requires!(t.ok());
    let r = a.approx_eq_tolerance(&b, t.v);
    let d = (a - b).abs();
    if split((a == 0.0) | (b == 0.0)) {
        requires!(away_from_zero(d - t.v, d + t.v));
        ensures("against zero the difference is absolute", r == (d < t.v));
    } else {
        requires!(away_from_zero(d - t.v * a.abs(), d + t.v * a.abs()));
        ensures("otherwise it is relative to the first number", r == (d < t.v * a.abs()));
    }
}}
harness! { P26 approx_number_default(a: f32, b: f32) {
    ensures("the default tolerance is one in a million", a.approx_eq(&b) == a.approx_eq_tolerance(&b, 1e-6));
}}
harness! { P26 approx_number_near(a: f32, k: f32) {
    requires!((k > -3.0) & (k < 3.0) & (a != 0.0));
    requires!(away_from_zero(k.abs() - 1.0, 20000.0));
    let b = a * (1.0 + k * 1e-6);
    // natively, one in a million is a few units in the last place only
    ensures("clearly within a millionth", a.approx_eq(&(a * (1.0 + k * 1e-7))));
    ensures("clearly beyond a millionth", (k.abs() < 2.0) | !a.approx_eq(&b));
}}
harness! { P26 approx_nothing_equals_nan(a: f32, x: f32, t: Len) {
    requires!(t.ok());
    let n = f32::NAN;
    ensures("NaN and a number", !n.approx_eq_tolerance(&a, t.v) & !a.approx_eq_tolerance(&n, t.v) & !n.approx_eq_tolerance(&n, t.v) & !n.approx_eq(&a) & !n.approx_eq(&0.0));
    for v in [Vec2::new(n, x), Vec2::new(x, n), Vec2::new(n, n)] {
        for w in [Vec2::new(a, x), Vec2::ZERO, v] {
            ensures("a vector with a NaN", !v.approx_eq_tolerance(&w, t.v) & !w.approx_eq_tolerance(&v, t.v) & !v.approx_eq(&w) & !w.approx_eq(&v));
        }
    }
    for v in [Vec3::new(n, x, a), Vec3::new(x, n, a), Vec3::new(x, a, n), Vec3::new(n, n, n)] {
        for w in [Vec3::new(a, x, a), Vec3::ZERO, v] {
            ensures("a 3D vector with a NaN", !v.approx_eq_tolerance(&w, t.v) & !w.approx_eq_tolerance(&v, t.v));
        }
    }
}}
fn vectors<V: Approx + Copy>(a: V, b: V, t: f32, dd: f32, aa: f32, bb: f32) {
    let (dd, aa, bb) = (name(dd), name(aa), name(bb));
    let m = if aa > bb { aa } else { bb };
    requires!(away_from_zero(dd - t * t * m, dd + t * t * m));
    ensures("the difference is relative to the longer vector", a.approx_eq_tolerance(&b, t) == ((dd < t * t * m) | (m == 0.0)));
    ensures("the order does not matter", a.approx_eq_tolerance(&b, t) == b.approx_eq_tolerance(&a, t));
}
harness! { P26 approx_vector(a: Vec2, b: Vec2, t: Len) {
    requires!(t.ok());
    vectors(a, b, t.v, (a - b).length_squared(), a.length_squared(), b.length_squared());
}}
harness! { P26 approx_vector3(a: V3, b: V3, t: Len) {
    requires!(t.ok());
    let (a, b) = (a.v(), b.v());
    vectors(a, b, t.v, (a - b).length_squared(), a.length_squared(), b.length_squared());
}}
bounded! { P26 approx_vector_close(a: Vec2, e: Vec2, t: Len) {
    requires!(t.ok());
    // native values rarely come close to each other by themselves
    let b = a + e * t.v;
    vectors(a, b, t.v, (a - b).length_squared(), a.length_squared(), b.length_squared());
}}
bounded! { P26 approx_vector3_close(a: V3, e: V3, t: Len) {
    requires!(t.ok());
    let (a, b) = (a.v(), a.v() + e.v() * t.v);
    vectors(a, b, t.v, (a - b).length_squared(), a.length_squared(), b.length_squared());
}}
input! { V3 { x: f32, y: f32, z: f32 } }
impl V3 {
    fn v(self) -> Vec3 {
        Vec3::new(self.x, self.y, self.z)
    }
}
harness! { P26 approx_vector_is_reflexive(a: Vec2, b: V3, t: Len) {
    requires!(t.ok());
    ensures("a = a", a.approx_eq(&a) & a.approx_eq_tolerance(&a, t.v));
    ensures("a = a in 3D", b.v().approx_eq(&b.v()) & b.v().approx_eq_tolerance(&b.v(), t.v));
    ensures("the default tolerance is one in a million", a.approx_eq(&Vec2::new(b.x, b.y)) == a.approx_eq_tolerance(&Vec2::new(b.x, b.y), 1e-6));
    ensures("zero = zero", Vec2::ZERO.approx_eq(&Vec2::ZERO) & Vec3::ZERO.approx_eq(&Vec3::ZERO) & 0.0f32.approx_eq(&0.0));
}}
harness! { P26 lerp_interpolates(a: f32, b: f32, t: f32, u: f32) {
    ensures("from", eq(Lerp::lerp(a, b, 0.0), a, 1.0));
    ensures("to", eq(Lerp::lerp(a, b, 1.0), b, 16.0));
    ensures("linear between", eq(Lerp::lerp(a, b, t), (1.0 - t) * a + t * b, 128.0));
    ensures("linear", eq(Lerp::lerp(a, b, t + u) - Lerp::lerp(a, b, t), u * (b - a), 256.0));
    ensures("square", eq(a.square(), a * a, 1.0));
}}
harness! { P26 lerp_interpolates_vectors(a: Vec2, b: Vec2, t: f32) {
    ensures("from", eqv(Lerp::lerp(a, b, 0.0), a, 1.0));
    ensures("to", eqv(Lerp::lerp(a, b, 1.0), b, 16.0));
    ensures("linear between", eqv(Lerp::lerp(a, b, t), (1.0 - t) * a + t * b, 128.0));
}}
