//! Generators and the vector types the checks run on.
use crate::exact::P;
use crate::Fl;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
pub use vector_traits::{cgmath, glam, GenericScalar, GenericVector2, GenericVector3, HasXY, HasXYZ};

/// A scalar of the code under test and its exact f64 value.
pub trait Sc: GenericScalar {
    const IS_F32: bool;
    fn of(v: f64) -> Self;
    fn to(self) -> f64;
    fn eps() -> f64;
}
impl Sc for f32 {
    const IS_F32: bool = true;
    fn of(v: f64) -> Self {
        v as f32
    }
    fn to(self) -> f64 {
        self as f64
    }
    fn eps() -> f64 {
        f32::EPSILON as f64
    }
}
impl Sc for f64 {
    const IS_F32: bool = false;
    fn of(v: f64) -> Self {
        v
    }
    fn to(self) -> f64 {
        self
    }
    fn eps() -> f64 {
        f64::EPSILON
    }
}

pub fn v2<V: GenericVector2>(x: f64, y: f64) -> V
where
    V::Scalar: Sc,
{
    V::new_2d(V::Scalar::of(x), V::Scalar::of(y))
}
pub fn xy<V: GenericVector2>(p: V) -> [f64; 2]
where
    V::Scalar: Sc,
{
    [p.x().to(), p.y().to()]
}
pub fn v3<V: GenericVector3>(x: f64, y: f64, z: f64) -> V
where
    V::Scalar: Sc,
{
    V::new_3d(V::Scalar::of(x), V::Scalar::of(y), V::Scalar::of(z))
}
pub fn xyz<V: GenericVector3>(p: V) -> [f64; 3]
where
    V::Scalar: Sc,
{
    [p.x().to(), p.y().to(), p.z().to()]
}

pub type C2d = cgmath::Vector2<f64>;
pub type C2f = cgmath::Vector2<f32>;
pub type G2d = glam::DVec2;
pub type G2f = glam::Vec2;
pub type C3d = cgmath::Vector3<f64>;
pub type C3f = cgmath::Vector3<f32>;
pub type G3d = glam::DVec3;
pub type G3f = glam::Vec3;
pub type G3a = glam::Vec3A;

/// Which vector backend a case runs on.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ty {
    G64,
    C64,
    G32,
    C32,
}
impl Ty {
    pub fn f32(self) -> bool {
        matches!(self, Ty::G32 | Ty::C32)
    }
}
pub fn ty() -> impl Strategy<Value = Ty> + Clone {
    prop_oneof![
        4 => Just(Ty::G64),
        1 => Just(Ty::C64),
        2 => Just(Ty::G32),
        1 => Just(Ty::C32),
    ]
}
/// Run a generic fn on the backend named by a `Ty`.
#[macro_export]
macro_rules! on_ty {
    ($ty:expr, $f:ident ( $($a:expr),* $(,)? )) => {
        match $ty {
            $crate::gen::Ty::G64 => $f::<$crate::gen::G2d>($($a),*),
            $crate::gen::Ty::C64 => $f::<$crate::gen::C2d>($($a),*),
            $crate::gen::Ty::G32 => $f::<$crate::gen::G2f>($($a),*),
            $crate::gen::Ty::C32 => $f::<$crate::gen::C2f>($($a),*),
        }
    };
}

/// How lattice coordinates become floats: (lattice + offset) * 2^exp, always
/// exactly representable, as are the differences and cross products.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Grid {
    pub ty: Ty,
    pub exp: i8,
    pub off: [i64; 2],
}
impl Grid {
    pub fn unit(&self) -> f64 {
        (2.0f64).powi(self.exp as i32)
    }
    pub fn f(&self, p: P) -> [f64; 2] {
        let u = self.unit();
        [
            (p[0] + self.off[0]) as f64 * u,
            (p[1] + self.off[1]) as f64 * u,
        ]
    }
    pub fn v<V: GenericVector2>(&self, p: P) -> V
    where
        V::Scalar: Sc,
    {
        let [x, y] = self.f(p);
        v2(x, y)
    }
    pub fn vs<V: GenericVector2>(&self, p: &[P]) -> Vec<V>
    where
        V::Scalar: Sc,
    {
        p.iter().map(|p| self.v(*p)).collect()
    }
    /// Back to the lattice; None if v is not a lattice point of this grid.
    pub fn back<V: GenericVector2>(&self, v: V) -> Option<P>
    where
        V::Scalar: Sc,
    {
        let u = self.unit();
        let [x, y] = xy(v);
        let (fx, fy) = (x / u, y / u);
        if !fx.is_finite() || !fy.is_finite() || fx.fract() != 0.0 || fy.fract() != 0.0 {
            return None;
        }
        if fx.abs() > 1e15 || fy.abs() > 1e15 {
            return None;
        }
        Some([fx as i64 - self.off[0], fy as i64 - self.off[1]])
    }
}
/// `small`: exponents/offsets for which f32 cross products stay exact and well
/// above f32::EPSILON for lattice points within +-300.
/// Exponents for double and single precision.
fn exponent() -> impl Strategy<Value = (i8, i8)> + Clone {
    prop_oneof![
        4 => Just((0i8, 0i8)),
        1 => Just((-3, -3)),
        1 => Just((4, 4)),
        1 => Just((-6, -6)),
        1 => Just((9, 9)),
        1 => Just((-24, -10)),
        1 => Just((30, 13)),
    ]
}
/// Down to a quarter of a thousandth only, for algorithms which tell positions
/// apart by their distance (absolute epsilon of the comparisons).
pub fn grid_sweep() -> impl Strategy<Value = Grid> + Clone {
    grid().prop_map(|mut g| {
        g.exp = g.exp.max(if g.ty.f32() { -6 } else { -12 });
        g
    })
}
pub fn grid() -> impl Strategy<Value = Grid> + Clone {
    (
        ty(),
        exponent(),
        prop_oneof![
            4 => Just([0i64, 0]),
            1 => [-300i64..=300, -300i64..=300],
        ],
    )
        .prop_map(|(ty, (e64, e32), off)| Grid { ty, exp: if ty.f32() { e32 } else { e64 }, off })
}

/// Far from the origin, compared with the drawing itself: lattice steps down to
/// 8 representable steps. Only for answers which depend on differences.
pub fn grid_far() -> impl Strategy<Value = Grid> + Clone {
    let off = |lo: i64, hi: i64| prop_oneof![2 => -(1i64 << hi)..=(1i64 << hi), 1 => -(1i64 << lo)..=(1i64 << lo), 1 => Just(0i64), 1 => Just(1i64 << hi)];
    (grid(), [off(30, 49), off(30, 49)], [off(12, 20), off(12, 20)]).prop_map(|(mut g, o64, o32)| {
        g.off = if g.ty.f32() { o32 } else { o64 };
        g.exp = g.exp.max(if g.ty.f32() { -10 } else { -24 });
        g
    })
}

fn coord(b: i64) -> impl Strategy<Value = i64> + Clone {
    (-b..=b).prop_map(|v| v)
}
pub fn point(b: i64) -> impl Strategy<Value = P> + Clone {
    [coord(b), coord(b)]
}
/// A point whose magnitude class varies (many small, collision-prone values).
pub fn any_point() -> impl Strategy<Value = P> + Clone {
    prop_oneof![
        3 => point(2),
        3 => point(5),
        2 => point(20),
        2 => point(300),
    ]
}

/// Lists of `e` with many short and some long ones (lengths shrink).
pub fn lists<S>(e: S, min: usize, max: usize) -> BoxedStrategy<Vec<S::Value>>
where
    S: Strategy + Clone + 'static,
{
    let v = move |hi: usize| prop::collection::vec(e.clone(), min..=hi.min(max));
    prop_oneof![2 => v(min + 4), 3 => v(min + 12), 2 => v(max)].boxed()
}

/// Point lists of adversarial structure; `max` is the largest length.
pub fn points(min: usize, max: usize) -> BoxedStrategy<Vec<P>> {
    let list = move |b: i64| lists(point(b), min, max);
    let collinear = (point(20), point(5), lists(-12i64..=12, min, max)).prop_map(|(o, d, ts)| {
        ts.iter()
            .map(|t| [o[0] + d[0] * t, o[1] + d[1] * t])
            .collect::<Vec<P>>()
    });
    // mostly collinear with a few strays
    let near_collinear = (
        point(20),
        point(5),
        lists((-12i64..=12, 0u8..8, point(10)), min, max),
    )
        .prop_map(|(o, d, ts)| {
            ts.iter()
                .map(|(t, k, q)| {
                    if *k == 7 {
                        *q
                    } else {
                        [o[0] + d[0] * t, o[1] + d[1] * t]
                    }
                })
                .collect::<Vec<P>>()
        });
    // points on a circle-like convex curve (large hulls), a few repeated
    let circle = (lists(0u32..720, min, max), 20i64..=300).prop_map(|(a, r)| {
        a.iter()
            .map(|a| {
                let t = *a as f64 * std::f64::consts::PI / 360.0;
                [
                    (r as f64 * t.cos()).round() as i64,
                    (r as f64 * t.sin()).round() as i64,
                ]
            })
            .collect::<Vec<P>>()
    });
    // boundary of a square: many collinear hull points
    let square = (lists((0u8..4, 0i64..=60), min, max), 1i64..=30).prop_map(|(a, r)| {
        a.iter()
            .map(|(s, t)| {
                let t = t % (2 * r + 1) - r;
                match s {
                    0 => [t, -r],
                    1 => [r, t],
                    2 => [t, r],
                    _ => [-r, t],
                }
            })
            .collect::<Vec<P>>()
    });
    // a random walk with small steps: what poly-lines usually look like
    let walk = (point(50), lists(point(8), min, max)).prop_map(|(o, ds)| {
        let mut c = o;
        ds.iter()
            .map(|d| {
                c = [
                    (c[0] + d[0]).clamp(-300, 300),
                    (c[1] + d[1]).clamp(-300, 300),
                ];
                c
            })
            .collect::<Vec<P>>()
    });
    prop_oneof![
        2 => list(1),
        3 => list(3),
        3 => list(8),
        3 => list(40),
        4 => list(300),
        1 => collinear,
        2 => near_collinear,
        2 => circle,
        2 => square,
        2 => walk,
    ]
    .boxed()
}

/// Optionally close a point list into a loop.
pub fn maybe_closed(s: BoxedStrategy<Vec<P>>) -> BoxedStrategy<Vec<P>> {
    (s, any::<bool>())
        .prop_map(|(mut v, c)| {
            if c && v.len() > 1 {
                let f = v[0];
                v.push(f);
            }
            v
        })
        .boxed()
}

/// A grid without offset, for cases which already use large lattice values.
pub fn grid_small() -> impl Strategy<Value = Grid> + Clone {
    (ty(), exponent())
        .prop_map(|(ty, (e64, e32))| Grid { ty, exp: if ty.f32() { e32 } else { e64 }, off: [0, 0] })
}

// ------------------------------------------------------------------ 3d
pub type P3 = [i64; 3];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ty3 {
    G64,
    C64,
    G32,
    C32,
    GA,
}
impl Ty3 {
    pub fn f32(self) -> bool {
        !matches!(self, Ty3::G64 | Ty3::C64)
    }
}
pub fn ty3() -> impl Strategy<Value = Ty3> + Clone {
    prop_oneof![
        4 => Just(Ty3::G64),
        1 => Just(Ty3::C64),
        1 => Just(Ty3::G32),
        1 => Just(Ty3::C32),
        1 => Just(Ty3::GA),
    ]
}
/// Run a generic fn on the backend named by a `Ty3`.
#[macro_export]
macro_rules! on_ty3 {
    ($ty:expr, $f:ident ( $($a:expr),* $(,)? )) => {
        match $ty {
            $crate::gen::Ty3::G64 => $f::<$crate::gen::G3d>($($a),*),
            $crate::gen::Ty3::C64 => $f::<$crate::gen::C3d>($($a),*),
            $crate::gen::Ty3::G32 => $f::<$crate::gen::G3f>($($a),*),
            $crate::gen::Ty3::C32 => $f::<$crate::gen::C3f>($($a),*),
            $crate::gen::Ty3::GA => $f::<$crate::gen::G3a>($($a),*),
        }
    };
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Grid3 {
    pub ty: Ty3,
    pub exp: i8,
    pub off: [i64; 3],
}
impl Grid3 {
    pub fn unit(&self) -> f64 {
        (2.0f64).powi(self.exp as i32)
    }
    pub fn f(&self, p: P3) -> [f64; 3] {
        let u = self.unit();
        [0, 1, 2].map(|i| (p[i] + self.off[i]) as f64 * u)
    }
    pub fn v<V: GenericVector3>(&self, p: P3) -> V
    where
        V::Scalar: Sc,
    {
        let [x, y, z] = self.f(p);
        v3(x, y, z)
    }
    pub fn vs<V: GenericVector3>(&self, p: &[P3]) -> Vec<V>
    where
        V::Scalar: Sc,
    {
        p.iter().map(|p| self.v(*p)).collect()
    }
    pub fn back<V: GenericVector3>(&self, v: V) -> Option<P3>
    where
        V::Scalar: Sc,
    {
        let u = self.unit();
        let c = xyz(v);
        let mut out = [0i64; 3];
        for i in 0..3 {
            let f = c[i] / u;
            if !f.is_finite() || f.fract() != 0.0 || f.abs() > 1e15 {
                return None;
            }
            out[i] = f as i64 - self.off[i];
        }
        Some(out)
    }
}
pub fn grid3() -> impl Strategy<Value = Grid3> + Clone {
    (
        ty3(),
        exponent(),
        prop_oneof![
            4 => Just([0i64, 0, 0]),
            1 => [-300i64..=300, -300i64..=300, -300i64..=300],
        ],
    )
        .prop_map(|(ty, (e64, e32), off)| Grid3 { ty, exp: if ty.f32() { e32 } else { e64 }, off })
}
/// As `grid_far`.
pub fn grid3_far() -> impl Strategy<Value = Grid3> + Clone {
    (grid3(), grid_far(), -(1i64 << 20)..=(1i64 << 20)).prop_map(|(mut g, f, z)| {
        // the same kind of scalar
        let o = f.off.map(|o| if g.ty.f32() && !f.ty.f32() { o >> 29 } else { o });
        g.off = [o[0], o[1], z];
        g
    })
}
/// 3d point lists: a planar structure tilted, lifted or scattered along z, in
/// any axis order.
pub fn points3(min: usize, max: usize) -> BoxedStrategy<Vec<P3>> {
    (
        points(min, max),
        prop::collection::vec(
            prop_oneof![3 => -2i64..=2, 2 => -12i64..=12, 1 => -300i64..=300],
            1..=max.max(1),
        ),
        0u8..5,
        0usize..6,
    )
        .prop_map(|(p, z, mode, perm)| {
            p.iter()
                .enumerate()
                .map(|(i, p)| {
                    let z0 = z[0];
                    let zz = match mode {
                        0 => 0,
                        1 => z0,
                        2 => (p[0] * (z0 % 3) + p[1]).clamp(-300, 300),
                        _ => z[i % z.len()],
                    };
                    let q = [p[0], p[1], zz];
                    let m = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][perm];
                    [q[m[0]], q[m[1]], q[m[2]]]
                })
                .collect::<Vec<P3>>()
        })
        .boxed()
}
/// Optionally close a list into a loop.
pub fn maybe_closed3(s: BoxedStrategy<Vec<P3>>) -> BoxedStrategy<Vec<P3>> {
    (s, any::<bool>())
        .prop_map(|(mut v, c)| {
            if c && v.len() > 1 {
                let f = v[0];
                v.push(f);
            }
            v
        })
        .boxed()
}

// ------------------------------------------------------------------ warps
/// A linear map of the lattice onto itself: a shear, then a scaling of one
/// axis, then perhaps a swap of the axes. What is on which side of what stays
/// as it was, slopes get extreme: needles, almost parallel lines, flat boxes.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Warp {
    pub k: i64,
    pub m: [u8; 2],
    pub swap: bool,
}
impl Warp {
    pub fn p(&self, p: P) -> P {
        let q = [(p[0] + self.k * p[1]) << self.m[0], p[1] << self.m[1]];
        if self.swap {
            [q[1], q[0]]
        } else {
            q
        }
    }
    pub fn ps(&self, p: &[P]) -> Vec<P> {
        p.iter().map(|p| self.p(*p)).collect()
    }
}
/// Shears up to `k`, scalings up to 2^`m`.
pub fn warp(k: i64, m: u8) -> impl Strategy<Value = Warp> + Clone {
    let k = prop_oneof![2 => -3i64..=3, 2 => -50i64..=50, 3 => -k..=k];
    let m = prop_oneof![3 => Just([0u8, 0]), 1 => (0..=m).prop_map(|m| [m, 0]), 1 => (0..=m).prop_map(|m| [0, m])];
    (k, m, any::<bool>()).prop_map(|(k, m, swap)| Warp { k, m, swap })
}
/// A grid for warped points: f64, no offset.
pub fn grid_wide() -> impl Strategy<Value = Grid> + Clone {
    (prop_oneof![4 => Just(Ty::G64), 1 => Just(Ty::C64)], prop_oneof![4 => Just(0i8), 1 => Just(-3i8), 1 => Just(9i8), 1 => Just(-12i8), 1 => Just(30i8)])
        .prop_map(|(ty, exp)| Grid { ty, exp, off: [0, 0] })
}

/// A finite float of any size, common small numbers included.
pub fn extreme_value() -> BoxedStrategy<Fl> {
    prop_oneof![
        4 => prop::sample::select(vec![0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 3.0, 10.0]).prop_map(Fl),
        2 => prop::sample::select(vec![
            5e-324, 2.2250738585072014e-308, 1e-200, 1e-160, 1e-45, 1.1754943508222875e-38, 1e-30, 1e-22, 1e-16, 2.3e-16, 1.2e-7, 1e-8,
            1e7, 1e9, 1e15, 1e16, 1e18, 1.8e19, 1e20, 1e30, 1.7e38, 3.4028234663852886e38, 1e100, 1e150, 1e154, 1.4e154, 1e200, 8.9e307, f64::MAX
        ]).prop_flat_map(|v| any::<bool>().prop_map(move |s| Fl(if s { v } else { -v }))),
        1 => (-324.0..308.2f64, any::<bool>(), 1.0..10.0f64).prop_map(|(e, s, m)| Fl(if s { m } else { -m } * 10f64.powf(e))).prop_filter("finite", |v| v.0.is_finite()),
        1 => (-40.0..39.0f64, any::<bool>(), 1.0..10.0f64).prop_map(|(e, s, m)| Fl(if s { m } else { -m } * 10f64.powf(e))),
        2 => (-100i32..=100).prop_map(|v| Fl(v as f64)),
    ]
    .boxed()
}
/// The finite number of the scalar next to `v`.
pub fn fit<S: Sc>(v: f64) -> f64 {
    if !S::IS_F32 {
        return v;
    }
    let w = v as f32;
    if w.is_finite() {
        w as f64
    } else {
        f32::MAX as f64 * v.signum()
    }
}
