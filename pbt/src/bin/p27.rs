//! P27 The orientation predicates behind hulls and containment tests.
use linestring::linestring_2d::{convex_hull as ch, scale_to_coordinate};
use pbt::exact::{self, P};
use pbt::gen::*;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    g: Grid,
    p: [P; 3],
    k: i64,
}

fn run<V: GenericVector2>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let v: Vec<V> = c.g.vs(&c.p);
    let u = c.g.unit();
    for [i, j, k] in [[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0], [0, 0, 1], [0, 1, 0], [0, 1, 1]] {
        let x = exact::cross(c.p[i], c.p[j], c.p[k]);
        let (a, b, d) = (v[i], v[j], v[k]);
        let got = ch::cross_2d(a, b, d).to();
        ensure!(got == x as f64 * u * u, "cross_2d({i},{j},{k}) = {got}, exact {}", x as f64 * u * u);
        let o = ch::point_orientation(a, b, d);
        let (left, col) = (o.is_left(), o.is_left_or_collinear());
        ensure!(left == (x > 0), "point_orientation({i},{j},{k}).is_left() = {left}, cross product {x}");
        ensure!(col == (x >= 0), "point_orientation({i},{j},{k}).is_left_or_collinear() = {col}, cross product {x}");
        let want = match x.signum() {
            1 => ch::Orientation::Left,
            0 => ch::Orientation::Collinear,
            _ => ch::Orientation::Right,
        };
        ensure!(o == want, "point_orientation({i},{j},{k}), cross product {x}");
        ensure!(ch::is_point_left(a, b, d) == (x > 0), "is_point_left({i},{j},{k}), cross product {x}");
        ensure!(
            ch::is_point_left_allow_collinear(a, b, d) == (x >= 0),
            "is_point_left_allow_collinear({i},{j},{k}), cross product {x}"
        );
        rec.nontrivial_if(x != 0);
        rec.label(match x.signum() {
            1 => "left",
            0 => "collinear",
            _ => "right",
        });
    }
    // point + vector * scale, exact on the lattice
    let p = scale_to_coordinate(v[0], c.g.v::<V>(c.p[1]), V::Scalar::of(c.k as f64));
    let (o, w) = (c.g.f(c.p[0]), c.g.f(c.p[1]));
    let want = [o[0] + w[0] * c.k as f64, o[1] + w[1] * c.k as f64];
    ensure!(xy(p) == want, "scale_to_coordinate({o:?}, {w:?}, {}) = {:?}", c.k, xy(p));
    Ok(())
}

/// The relations which hold for any three points, also those closer to collinear than the tolerance.
fn consistent<V: GenericVector2>(a: V, b: V, d: V) -> Result<f64, String>
where
    V::Scalar: Sc,
{
    let x = ch::cross_2d(a, b, d).to();
    let o = ch::point_orientation(a, b, d);
    let (left, col) = (o.is_left(), o.is_left_or_collinear());
    let name = if o == ch::Orientation::Left {
        "left"
    } else if o == ch::Orientation::Right {
        "right"
    } else {
        "collinear"
    };
    let at = || format!("({:?}, {:?}, {:?})", xy(a), xy(b), xy(d));
    ensure!(left == (name == "left") && col == (name != "right"), "{}: {name}, is_left() = {left}, is_left_or_collinear() = {col}", at());
    ensure!(ch::is_point_left(a, b, d) == (x > 0.0), "{}: cross product {x}, is_point_left() = {}", at(), ch::is_point_left(a, b, d));
    let allow = ch::is_point_left_allow_collinear(a, b, d);
    ensure!(allow == col, "{}: is {name} (cross product {x}), is_point_left_allow_collinear() = {allow}", at());
    ensure!(!(left && x <= 0.0) && !(name == "right" && x >= 0.0), "{}: is {name}, cross product {x}", at());
    Ok(x)
}

const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]];

/// Exact products of about the size of the tolerance
fn threshold<V: GenericVector2>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let eps = if c.g.ty.f32() { f32::EPSILON as f64 } else { f64::EPSILON };
    // half of the bits of epsilon, plus or minus a few
    let exp = (eps.log2() as i64 + c.k).div_euclid(2) as i32;
    let u = (2.0f64).powi(exp);
    let v: Vec<V> = c.p.iter().map(|p| v2(p[0] as f64 * u, p[1] as f64 * u)).collect();
    for [i, j, k] in ORDERS {
        let x = exact::cross(c.p[i], c.p[j], c.p[k]);
        let want = x as f64 * u * u;
        let got = consistent(v[i], v[j], v[k])?;
        ensure!(got == want, "cross_2d({i},{j},{k}) = {got}, exact {want}");
        let o = ch::point_orientation(v[i], v[j], v[k]);
        if want.abs() > 4.0 * eps {
            ensure!(o.is_left() == (x > 0) && o.is_left_or_collinear() == (x > 0), "orientation ({i},{j},{k}), cross product {want}");
            rec.label("above the tolerance");
        } else if x != 0 {
            rec.nontrivial();
            rec.label("around the tolerance");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    ty: Ty,
    p: [P; 3],
    exp: i32,
}

/// Coordinates with all the digits the type has
fn wide<V: GenericVector2>(c: &Wide, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let eps = if c.ty.f32() { f32::EPSILON as f64 } else { f64::EPSILON };
    let q: Vec<P> = c.p.iter().map(|p| if c.ty.f32() { [p[0] >> 28, p[1] >> 28] } else { [p[0], p[1]] }).collect();
    let u = (2.0f64).powi(c.exp);
    let v: Vec<V> = q.iter().map(|p| v2(p[0] as f64 * u, p[1] as f64 * u)).collect();
    for [i, j, k] in ORDERS {
        let x = exact::cross(q[i], q[j], q[k]);
        let d = |a: usize, b: usize, n: usize| (q[b][n] - q[a][n]) as f64 * u;
        let err = 4.0 * eps * ((d(i, j, 0) * d(i, k, 1)).abs() + (d(i, j, 1) * d(i, k, 0)).abs());
        let want = x as f64 * u * u;
        let got = consistent(v[i], v[j], v[k])?;
        ensure!((got - want).abs() <= err, "cross_2d({i},{j},{k}) = {got}, exact {want}");
        if want.abs() > err + 4.0 * eps {
            let o = ch::point_orientation(v[i], v[j], v[k]);
            ensure!(o.is_left() == (x > 0) && o.is_left_or_collinear() == (x > 0), "orientation ({i},{j},{k}), cross product {want}");
            rec.nontrivial();
            rec.label(if want.abs() < 100.0 * err { "nearly collinear" } else { "clear" });
        } else {
            rec.label("within rounding");
        }
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new(
        "P27",
        "triples of lattice points (free, collinear, one off the line by a lattice step, duplicated) in every order; triples around the documented collinearity tolerance; triples of large and of full-precision coordinates; non-trivial = not collinear",
    );
    ctx.assume("triples: coordinates and products are exactly representable and a cross product which is not zero is larger than the absolute epsilon of the predicates; threshold/wide: cross products close to the documented tolerance (within rounding) are not judged");
    let triples = || {
        prop_oneof![
                2 => [any_point(), any_point(), any_point()],
                2 => (point(20), point(9), -12i64..=12, -12i64..=12, point(1)).prop_map(|(o, d, k, m, e)| {
                    [o, [o[0] + d[0] * k, o[1] + d[1] * k], [o[0] + d[0] * m + e[0], o[1] + d[1] * m + e[1]]]
                }),
                1 => (any_point(), any_point(), 0usize..3).prop_map(|(a, b, k)| { let mut t = [a, a, a]; t[k] = b; t }),
            ]
    };
    ctx.sub(
        "triples",
        15_000_000,
        || (grid(), triples(), -64i64..=64).prop_map(|(g, p, k)| Case { g, p, k }),
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "warped",
        2_000_000,
        || (grid_wide(), warp(1 << 20, 20), triples(), -64i64..=64).prop_map(|(g, w, p, k)| Case { g, p: p.map(|p| w.p(p)), k }),
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "far",
        2_000_000,
        || (grid_far(), triples(), -1i64..=1).prop_map(|(g, p, k)| Case { g, p, k }),
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "threshold",
        2_000_000,
        || {
            (grid(), [point(7), point(7), point(7)], -7i64..=6).prop_map(|(g, p, k)| Case { g, p, k })
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, threshold(c, rec)),
    );
    ctx.sub(
        "wide",
        3_000_000,
        || {
            let m = 1i64 << 52;
            let near = (point(m / 4), point(m / 64), -8i64..=8, -8i64..=8, point(1 << 32), 0u32..=32).prop_map(|(o, d, k, l, e, s)| {
                [o, [o[0] + d[0] * k, o[1] + d[1] * k], [o[0] + d[0] * l + (e[0] >> s), o[1] + d[1] * l + (e[1] >> s)]]
            });
            let t = prop_oneof![1 => [point(m), point(m), point(m)], 2 => near];
            (ty(), t, -70i32..=-10).prop_map(|(ty, p, exp)| Wide { ty, p, exp })
        },
        |c: &Wide, rec: &mut Rec| on_ty!(c.ty, wide(c, rec)),
    );
    ctx.finish()
}
