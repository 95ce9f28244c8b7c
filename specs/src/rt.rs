//! The specification runtime.
//!
//! Every harness in this crate is one contract: `requires!` clauses, a call of the real code of
//! auburn, and `ensures` clauses.  The same function is read twice:
//!  * by the verifier (`/verif/vc`), which takes the MIR of the harness and of everything it
//!    calls and proves every `ensures` for all inputs.  It knows the functions of this module by
//!    name and gives them their logical meaning (over the real numbers);
//!  * natively, to replay a counterexample or to search for one: comparisons then carry a
//!    rounding tolerance.
use glam::Vec2;
use std::cell::RefCell;

#[derive(Default)]
pub struct Ctx {
    pub skipped: bool,
    pub failed: Vec<(String, String)>,
    pub ensures: u64,
    pub reached: u64,
    pub tol: f32,
    /// how much larger than usual the numbers of the case are
    pub magnify: f32,
    pub log: Vec<(i32, i32)>,
}

impl Ctx {
    fn tolerance(&self) -> f32 {
        self.tol * self.magnify * self.magnify * self.magnify
    }
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx { tol: 1e-5, magnify: 1.0, ..Default::default() });
}

/// Before a native case.
pub fn reset() {
    CTX.with(|x| {
        let mut x = x.borrow_mut();
        x.skipped = false;
        x.failed.clear();
        x.ensures = 0;
        x.magnify = 1.0;
        x.log.clear();
    })
}

/// After a native case: was it skipped, how many `ensures` were evaluated, and which failed.
pub fn take() -> (bool, u64, Vec<String>) {
    CTX.with(|x| {
        let mut x = x.borrow_mut();
        let f = core::mem::take(&mut x.failed);
        (x.skipped, x.ensures, f.into_iter().map(|f| f.0).collect())
    })
}

pub fn set_tolerance(t: f32) {
    CTX.with(|x| x.borrow_mut().tol = t)
}

/// Precondition. Verifier: assume.
#[inline(never)]
pub fn requires_(c: bool) -> bool {
    if !c {
        CTX.with(|x| x.borrow_mut().skipped = true);
    }
    c
}

#[macro_export]
macro_rules! requires {
    ($c:expr) => {
        if !$crate::rt::requires_($c) {
            return Default::default();
        }
    };
}

/// Postcondition. Verifier: prove.
#[inline(never)]
pub fn ensures(label: &'static str, c: bool) {
    CTX.with(|x| {
        let mut x = x.borrow_mut();
        if x.skipped {
            return;
        }
        x.ensures += 1;
        if !c {
            x.failed.push((label.to_string(), String::new()));
        }
    })
}

/// `a = b`. Natively: up to a rounding error relative to `scale`.
#[inline(never)]
pub fn eq(a: f32, b: f32, scale: f32) -> bool {
    let tol = CTX.with(|x| x.borrow().tolerance());
    (a - b).abs() <= tol * scale.abs().max(a.abs()).max(b.abs())
}

/// `a <= b`. Natively: up to a rounding error relative to `scale`.
#[inline(never)]
pub fn le(a: f32, b: f32, scale: f32) -> bool {
    let tol = CTX.with(|x| x.borrow().tolerance());
    a - b <= tol * scale.abs().max(a.abs()).max(b.abs())
}

/// Natively true as well when `|a|` is below the rounding error: for verdicts that are only
/// promised away from contact. Verifier: `a != 0`.
#[inline(never)]
pub fn away_from_zero(a: f32, scale: f32) -> bool {
    let tol = CTX.with(|x| x.borrow().tolerance());
    a.abs() > tol * scale.abs()
}

/// `a > 0`. Natively: by at least `min`, to keep the case well-conditioned.
#[inline(never)]
pub fn positive(a: f32, min: f32) -> bool {
    if (a < min) & (a > 0.005 * min) {
        CTX.with(|x| x.borrow_mut().magnify *= min / a);
        return true;
    }
    a >= min
}

/// A number of the input (natively only).
pub fn magnitude(v: f32) {
    CTX.with(|x| {
        let mut x = x.borrow_mut();
        x.magnify = x.magnify.max(v.abs() * 0.2);
    })
}

/// Case split: the verifier continues with a known truth value.
#[inline(never)]
pub fn split(c: bool) -> bool {
    c
}

/// An intermediate fact: proved where it stands, and used below.
#[inline(never)]
pub fn lemma(label: &'static str, c: bool) {
    ensures(label, c)
}

/// An intermediate fact that follows from the premises alone: the premises are proved where it
/// stands, the conclusion is proved from them, and is used below.
#[inline(never)]
pub fn lemma_from(_label: &'static str, _premises: bool, _conclusion: bool) {
    // a step of the proof only: natively the premises hold up to rounding, which may not carry over
}

/// A name for an intermediate value.
#[inline(never)]
pub fn name(x: f32) -> f32 {
    x
}

/// `a = b` for numbers that are not negative, by way of their squares.
pub fn same_root(label: &'static str, a: f32, b: f32, scale: f32) -> bool {
    let (a, b) = (name(a), name(b));
    lemma(label, eq(a * a, b * b, scale * scale));
    lemma_from(label, eq(a * a, b * b, scale * scale) & le(0.0, a, scale) & le(0.0, b, scale), eq(a, b, scale));
    eq(a, b, scale)
}

pub fn eqv(a: Vec2, b: Vec2, scale: f32) -> bool {
    eq(a.x, b.x, scale) & eq(a.y, b.y, scale)
}

/// Not NaN. Verifier: a real number.
#[inline(never)]
pub fn is_real(a: f32) -> bool {
    a.is_finite()
}

pub fn implies(a: bool, b: bool) -> bool {
    !a | b
}

/// The point of an abstract convex set that is farthest in `direction`, with the contract of a
/// support function: `r . d` is maximal over the set. `set` only names the set.
/// Verifier: a fresh vector `r`, with `r_j . d <= r . d` and `r . d_j <= r_j . d_j` for all
/// earlier results `r_j` in direction `d_j`.
#[inline(never)]
pub fn support_oracle(set: &AbstractSet, direction: Vec2) -> Vec2 {
    set.calls.set(set.calls.get() + 1);
    set.native(direction)
}

/// Assumption about an oracle's result. Natively: the case is skipped when it does not hold.
#[inline(never)]
pub fn assume(c: bool) {
    if !c {
        CTX.with(|x| x.borrow_mut().skipped = true);
    }
}

/// Every point `p` of the abstract set has `p . n <= bound`.
/// Natively: checked on the points of the stand-in; the case is skipped when it does not hold.
#[inline(never)]
pub fn declare_halfplane(set: &AbstractSet, n: Vec2, bound: f32) {
    let r = set.native(n);
    if r.dot(n) > bound {
        CTX.with(|x| x.borrow_mut().skipped = true);
    }
}

/// `p` is a point of the abstract set. Natively: the case is skipped when it is not.
#[inline(never)]
pub fn declare_member(set: &AbstractSet, p: Vec2) {
    if !set.contains(p) {
        CTX.with(|x| x.borrow_mut().skipped = true);
    }
}

/// The coordinates of every element are at most `bound` in magnitude.
#[inline(never)]
pub fn all_within(points: &[Vec2], bound: f32) -> bool {
    points.iter().all(|p| p.x.abs() <= bound && p.y.abs() <= bound)
}

/// Natively: the set is of moderate size, and `r` is clearly more than its rounding errors.
#[inline(never)]
pub fn moderate(set: &AbstractSet, r: f32) -> bool {
    (r >= 0.05) & set.points.iter().all(|p| p.x.abs().max(p.y.abs()) <= 20.0)
}

/// Natively: `c`, to pass over a case that would take too long.
#[inline(never)]
pub fn affordable(c: bool) -> bool {
    c
}

/// The native stand-in for an abstract convex set: a disc around a polygon.
pub struct AbstractSet {
    pub points: Vec<Vec2>,
    pub radius: f32,
    pub calls: std::cell::Cell<usize>,
}

/// How often the support function of the set has been asked.
#[inline(never)]
pub fn oracle_calls(set: &AbstractSet) -> usize {
    set.calls.get()
}

impl AbstractSet {
    fn contains(&self, p: Vec2) -> bool {
        // within a triangle of the points, or within the radius of a segment between them
        let v = |i: usize| (self.points[i].x as f64, self.points[i].y as f64);
        let (px, py, n) = (p.x as f64, p.y as f64, self.points.len());
        let side = |a: (f64, f64), b: (f64, f64)| (b.0 - a.0) * (py - a.1) - (b.1 - a.1) * (px - a.0);
        for i in 0..n {
            for j in i..n {
                let (a, b) = (v(i), v(j));
                let (dx, dy) = (b.0 - a.0, b.1 - a.1);
                let l = dx * dx + dy * dy;
                let t = if l > 0.0 { (((px - a.0) * dx + (py - a.1) * dy) / l).clamp(0.0, 1.0) } else { 0.0 };
                let (qx, qy) = (px - a.0 - t * dx, py - a.1 - t * dy);
                if qx * qx + qy * qy <= self.radius as f64 * self.radius as f64 {
                    return true;
                }
                for k in j..n {
                    let c = v(k);
                    let (x, y, z) = (side(a, b), side(b, c), side(c, a));
                    if (x > 0.0 && y > 0.0 && z > 0.0) || (x < 0.0 && y < 0.0 && z < 0.0) {
                        return true;
                    }
                }
            }
        }
        false
    }
    fn native(&self, d: Vec2) -> Vec2 {
        let mut best = Vec2::ZERO;
        let mut s = f32::NEG_INFINITY;
        for p in &self.points {
            let q = p.dot(d);
            if q > s {
                s = q;
                best = *p;
            }
        }
        best + self.radius * d.normalize_or_zero()
    }
}

/// Ghost log: what callbacks were called with.
#[inline(never)]
pub fn log(who: i32, what: i32) {
    CTX.with(|x| x.borrow_mut().log.push((who, what)))
}
#[inline(never)]
pub fn logged() -> usize {
    CTX.with(|x| x.borrow().log.len())
}
#[inline(never)]
pub fn log_at(i: usize) -> (i32, i32) {
    CTX.with(|x| x.borrow().log[i])
}

/// Calls of functions whose name contains `name` give any answer that depends on the arguments only.
#[inline(never)]
pub fn uninterpreted(_name: &'static str) {}

/// As `uninterpreted`, for functions to vectors that are called many times.
#[inline(never)]
pub fn function(_name: &'static str) {}

/// Suggestion of a loop invariant: tried on every place of a fitting type at every loop below, and
/// kept where it is proved to hold on entry and to be preserved. Never assumed. Natively nothing.
#[inline(never)]
pub fn invariant1<A>(_name: &'static str, _f: impl Fn(A) -> bool) {}
#[inline(never)]
pub fn invariant2<A, B>(_name: &'static str, _f: impl Fn(A, B) -> bool) {}
#[inline(never)]
pub fn invariant3<A, B, C>(_name: &'static str, _f: impl Fn(A, B, C) -> bool) {}
