//! P23 Distance from a point to a line segment, 2d and 3d.
use linestring::{linestring_2d as l2, linestring_3d as l3};
use pbt::gen::*;
use pbt::simplify::*;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    g: Grid3,
    a: P3,
    b: P3,
    p: P3,
}

fn run<V: GenericVector3>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    V::Vector2: GenericVector2<Scalar = V::Scalar>,
{
    let eps = V::Scalar::eps();
    let u2 = c.g.unit() * c.g.unit();
    let check = |n: &str, got: f64, a: P3, b: P3| -> Result<(), String> {
        let w = seg_dist2(a, b, c.p, eps);
        let w3 = (w.v * u2, w.v * u2 * 24.0 * eps);
        ensure!((got - w3.0).abs() <= w3.1, "{n}({a:?}, {b:?}, {:?}) = {got:e}, expected {:e}", c.p, w3.0);
        Ok(())
    };
    for (a, b) in [(c.a, c.b), (c.b, c.a), (c.a, c.a)] {
        let (va, vb, vp): (V, V, V) = (c.g.v(a), c.g.v(b), c.g.v(c.p));
        if a != b {
            check("3d distance_to_line_squared", l3::distance_to_line_squared(va, vb, vp).to(), a, b)?;
        }
        check("3d distance_to_line_squared_safe", l3::distance_to_line_squared_safe(va, vb, vp).to(), a, b)?;
    }
    let flat = |p: P3| [p[0], p[1], 0];
    let check = |n: &str, got: f64, a: P3, b: P3| -> Result<(), String> {
        let w = seg_dist2(flat(a), flat(b), flat(c.p), eps);
        let w3 = (w.v * u2, w.v * u2 * 24.0 * eps);
        ensure!((got - w3.0).abs() <= w3.1, "{n}({a:?}, {b:?}, {:?}) = {got:e}, expected {:e}", c.p, w3.0);
        Ok(())
    };
    let to2 = |p: P3| {
        let f = c.g.f(p);
        v2::<V::Vector2>(f[0], f[1])
    };
    for (a, b) in [(c.a, c.b), (c.b, c.a), (c.a, c.a)] {
        let (va, vb, vp) = (to2(a), to2(b), to2(c.p));
        if flat(a) != flat(b) {
            check("2d distance_to_line_squared", l2::distance_to_line_squared(va, vb, vp).to(), a, b)?;
        }
        check("2d distance_to_line_squared_safe", l2::distance_to_line_squared_safe(va, vb, vp).to(), a, b)?;
    }
    let d = |x: P3, y: P3, z: P3| (0..3).map(|i| (y[i] - x[i]) * (z[i] - x[i])).sum::<i64>();
    let (t, l) = (d(c.a, c.b, c.p), d(c.a, c.b, c.b));
    rec.label(match () {
        _ if l == 0 => "point-segment",
        _ if t < 0 => "before",
        _ if t > l => "beyond",
        _ if t == 0 || t == l => "above-end",
        _ => "above",
    });
    rec.label_if(seg_dist2(c.a, c.b, c.p, eps).v == 0.0, "on-segment");
    rec.nontrivial_if(l > 0 && seg_dist2(c.a, c.b, c.p, eps).v > 0.0);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    ty: Ty3,
    p: [[Fl; 3]; 3],
    /// the third point is moved to (a + t * (b - a)) + p * r
    t: Fl,
    r: Fl,
    scale: i8,
}
fn run_f<V: GenericVector3>(c: &FCase, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    V::Vector2: GenericVector2<Scalar = V::Scalar>,
{
    let s = 10f64.powi(c.scale as i32);
    let f = |p: [Fl; 3]| p.map(|x| x.0 * s);
    let (a, b, o) = (f(c.p[0]), f(c.p[1]), f(c.p[2]));
    let p = [0, 1, 2].map(|i| a[i] + c.t.0 * (b[i] - a[i]) + c.r.0 * o[i]);
    let v = [a, b, p].map(|p| v3::<V>(p[0], p[1], p[2]));
    let w = v.map(|p| {
        let q = xyz(p);
        v2::<V::Vector2>(q[0], q[1])
    });
    let eps = V::Scalar::eps();
    for dim in [2, 3] {
        let q = v.map(|p| {
            let q = xyz(p);
            if dim == 2 { [q[0], q[1], 0.0] } else { q }
        });
        let d = |a: [f64; 3], b: [f64; 3]| [b[0] - a[0], b[1] - a[1], b[2] - a[2]];
        let dot = |a: [f64; 3], b: [f64; 3]| a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
        let (ab, ap) = (d(q[0], q[1]), d(q[0], q[2]));
        let l = dot(ab, ab);
        if l.sqrt() < 0.01 * s {
            rec.label("short");
            continue;
        }
        let k = (dot(ab, ap) / l).clamp(0.0, 1.0);
        let x = [ap[0] - k * ab[0], ap[1] - k * ab[1], ap[2] - k * ab[2]];
        let want = dot(x, x).sqrt();
        let got = if dim == 2 {
            [l2::distance_to_line_squared(w[0], w[1], w[2]), l2::distance_to_line_squared_safe(w[0], w[1], w[2])]
        } else {
            [l3::distance_to_line_squared(v[0], v[1], v[2]), l3::distance_to_line_squared_safe(v[0], v[1], v[2])]
        };
        // only differences of coordinates enter the computation
        let m = dot(ap, ap).sqrt();
        let tol = 24.0 * eps * (m + m * m / l.sqrt() + want);
        for g in got {
            let g = g.to().sqrt();
            ensure!((g - want).abs() <= tol, "{dim}d distance of {:?} to {:?} - {:?} is {g}, expected {want}", q[2], q[0], q[1]);
        }
        rec.nontrivial();
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new(
        "P23",
        "lattice segments (degenerate, axis parallel, arbitrary) and points before, beside, on and beyond them, and float points placed relative to the segment; non-trivial = a proper segment and a point off it",
    );
    ctx.assume("the plain variant is only called with different end points (documented); compared within rounding");
    let p3 = || (any_point(), prop_oneof![3 => Just(0i64), 2 => -2i64..=2, 2 => -20i64..=20, 1 => -300i64..=300]).prop_map(|(p, z)| [p[0], p[1], z]);
    ctx.sub(
        "lattice",
        6_000_000,
        || {
            (grid3(), p3(), p3(), p3(), 0u8..4, -6i64..=10).prop_map(|(g, a, mut b, mut p, mode, t)| {
                // often on the line through a and b, or perpendicularly above one of them
                if mode == 1 {
                    b = [0, 1, 2].map(|i| a[i] + (b[i] - a[i]).clamp(-20, 20));
                    p = [0, 1, 2].map(|i| a[i] + (b[i] - a[i]) * t / 4);
                }
                if mode == 2 {
                    b = [0, 1, 2].map(|i| a[i] + (b[i] - a[i]).clamp(-20, 20));
                    p = [a[0] - (b[1] - a[1]) * t, a[1] + (b[0] - a[0]) * t, a[2]];
                }
                Case { g, a, b, p }
            })
        },
        |c: &Case, rec: &mut Rec| on_ty3!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "far",
        1_000_000,
        || (grid3_far(), p3(), p3(), p3()).prop_map(|(g, a, b, p)| Case { g, a, b, p }),
        |c: &Case, rec: &mut Rec| on_ty3!(c.g.ty, run(c, rec)),
    );
    let f = || prop_oneof![1 => (-3i32..=3).prop_map(|x| Fl(x as f64)), 4 => (-3.0f64..3.0).prop_map(Fl)];
    ctx.sub(
        "floats",
        6_000_000,
        || {
            (
                ty3(),
                [[f(), f(), f()], [f(), f(), f()], [f(), f(), f()]],
                prop_oneof![2 => (-2i32..=6).prop_map(|t| Fl(t as f64 / 4.0)), 3 => (-1.0f64..2.0).prop_map(Fl)],
                prop_oneof![1 => Just(0.0), 3 => 0.0f64..1.0, 2 => 0.0f64..1e-3].prop_map(Fl),
                prop_oneof![3 => -3i8..=3, 1 => -3i8..=7],
            )
                .prop_map(|(ty, p, t, r, scale)| FCase { ty, p, t, r, scale })
        },
        |c: &FCase, rec: &mut Rec| on_ty3!(c.ty, run_f(c, rec)),
    );
    ctx.finish()
}
