//! Native inputs: drawn at random, or replayed from a list of values (in field order).
use glam::Vec2;

pub enum Mode {
    Random,
    Replay(Vec<f64>, usize),
}

pub struct Src {
    pub s: u64,
    pub mode: Mode,
    pub trace: Vec<f64>,
    pub flavour: u64,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        let mut s = Src { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, mode: Mode::Random, trace: vec![], flavour: 0 };
        s.next();
        s.next();
        s.flavour = s.next();
        s
    }
    pub fn replay(v: Vec<f64>) -> Self {
        Src { s: 0, mode: Mode::Replay(v, 0), trace: vec![], flavour: 0 }
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.s;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.s = x;
        x.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// An integer leaf.
    pub fn int(&mut self, f: impl FnOnce(&mut Self) -> i64) -> i64 {
        self.leaf(|s| f(s) as f64) as i64
    }
    pub fn leaf(&mut self, f: impl FnOnce(&mut Self) -> f64) -> f64 {
        let v = match &mut self.mode {
            Mode::Replay(v, i) => {
                let r = v.get(*i).copied().unwrap_or(0.0);
                *i += 1;
                r
            }
            Mode::Random => f(self),
        };
        self.trace.push(v);
        v
    }
}

pub trait Gen {
    fn gen(s: &mut Src) -> Self;
}

impl Gen for f32 {
    fn gen(s: &mut Src) -> f32 {
        let v = s.leaf(|s| {
            // grids make ties and boundary cases likely; the flavour is shared by a whole case
            let g = s.flavour & 7;
            let v = match g {
                0 | 1 => s.below(9) as f64 - 4.0,
                2 | 3 => (s.below(33) as f64 - 16.0) / 4.0,
                _ => (s.unit() - 0.5) * 8.0,
            };
            let v = if s.below(12) == 0 { 0.0 } else { v };
            // now and then the numbers of a case are large or of mixed magnitude
            let v = match (s.flavour >> 8) & 63 {
                0 | 1 => v * 32.0,
                2 => v * 1000.0,
                3 | 4 if s.below(3) == 0 => v * 10f64.powi(s.below(7) as i32 - 3),
                _ => v,
            };
            (v as f32) as f64
        }) as f32;
        crate::rt::magnitude(v);
        v
    }
}
macro_rules! ints {
    ($($t:ty),*) => {$(impl Gen for $t {
        fn gen(s: &mut Src) -> $t {
            s.leaf(|s| {
                let lo = (<$t>::MIN as i128).max(-40);
                let v = match s.below(8) {
                    0 => s.next() as $t as i128,
                    1 => <$t>::MAX as i128 - s.below(20) as i128,
                    2 => <$t>::MIN as i128 + s.below(20) as i128,
                    _ => lo + s.below(81) as i128,
                };
                v as $t as f64
            }) as $t
        }
    })*};
}
ints!(i32, u8, u16);
impl Gen for usize {
    fn gen(s: &mut Src) -> usize {
        s.leaf(|s| s.below(8) as f64) as usize
    }
}
impl Gen for bool {
    fn gen(s: &mut Src) -> bool {
        s.leaf(|s| s.below(2) as f64) != 0.0
    }
}
impl Gen for Vec2 {
    fn gen(s: &mut Src) -> Vec2 {
        let x = f32::gen(s);
        let y = f32::gen(s);
        Vec2::new(x, y)
    }
}
/// A length: any number that is not negative.
#[derive(Clone, Copy, Debug)]
pub struct Len {
    pub v: f32,
}
impl Len {
    pub fn ok(self) -> bool {
        self.v >= 0.0
    }
}
impl Gen for Len {
    fn gen(s: &mut Src) -> Len {
        if let Mode::Random = s.mode {
            let v = f32::gen(s).abs();
            *s.trace.last_mut().unwrap() = v as f64;
            Len { v }
        } else {
            Len { v: f32::gen(s) }
        }
    }
}
/// Half extents: numbers that are not negative.
#[derive(Clone, Copy, Debug)]
pub struct Ext {
    pub x: Len,
    pub y: Len,
}
impl Ext {
    pub fn ok(self) -> bool {
        self.x.ok() & self.y.ok()
    }
    pub fn v(self) -> Vec2 {
        Vec2::new(self.x.v, self.y.v)
    }
}
impl Gen for Ext {
    fn gen(s: &mut Src) -> Ext {
        let x = Len::gen(s);
        let y = Len::gen(s);
        Ext { x, y }
    }
}
impl Gen for crate::rt::AbstractSet {
    fn gen(s: &mut Src) -> Self {
        let n = s.leaf(|s| 1.0 + s.below(5) as f64) as usize;
        let points = (0..n).map(|_| Vec2::gen(s)).collect();
        let radius = s.leaf(|s| if s.below(2) == 0 { 0.0 } else { s.unit() as f32 as f64 }) as f32;
        Self { points, radius, calls: Default::default() }
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen(s: &mut Src) -> Vec<T> {
        let n = s.leaf(|s| if s.below(1000) == 0 { (s.below(8000) >> s.below(9)) as f64 } else { s.below(8) as f64 }) as usize;
        (0..n).map(|_| T::gen(s)).collect()
    }
}
impl<T: Gen, const N: usize> Gen for [T; N] {
    fn gen(s: &mut Src) -> [T; N] {
        core::array::from_fn(|_| T::gen(s))
    }
}

/// `harness! { PROPERTY name(arg: Type, ...) { body } }`
#[macro_export]
macro_rules! harness {
    ($prop:ident $name:ident ( $($a:ident : $t:ty),* ) $body:block) => {
        pub mod $name {
            use super::*;
            #[allow(unused_mut)]
            pub fn contract($(mut $a: $t),*) $body
            pub fn native(s: &mut $crate::gen::Src) {
                let _ = s;
                $(let $a = <$t as $crate::gen::Gen>::gen(s);)*
                contract($($a),*)
            }
        }
    };
}

/// A struct whose fields are generated in order.
#[macro_export]
macro_rules! input {
    ($(#[$m:meta])* $name:ident { $($f:ident : $t:ty),* }) => {
        $(#[$m])*
        #[derive(Clone, Copy, Debug)]
        pub struct $name { $(pub $f: $t),* }
        impl $crate::gen::Gen for $name {
            fn gen(s: &mut $crate::gen::Src) -> Self {
                $(let $f = <$t as $crate::gen::Gen>::gen(s);)*
                Self { $($f),* }
            }
        }
    };
}

/// A contract that is only sampled natively: a bounded stand-in, never counted as proved.
#[macro_export]
macro_rules! bounded {
    ($prop:ident $name:ident ( $($a:ident : $t:ty),* ) $body:block) => {
        pub mod $name {
            use super::*;
            #[allow(unused_mut)]
            pub fn sampled($(mut $a: $t),*) $body
            pub fn native(s: &mut $crate::gen::Src) {
                let _ = s;
                $(let $a = <$t as $crate::gen::Gen>::gen(s);)*
                sampled($($a),*)
            }
        }
    };
}
