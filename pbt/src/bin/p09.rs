//! P09 point-in-convex-hull, inclusive and exclusive, against the definition.
use linestring::linestring_2d::convex_hull as ch;
use linestring::linestring_2d::{Aabb2, LineString2};
use pbt::exact::{self, Side, P};
use pbt::gen::*;
use pbt::hulls::*;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    g: Grid,
    pts: Vec<P>,
    mul: i64,
    rot: usize,
    q: Vec<(usize, usize, i64, P)>,
}

fn run<V: GenericVector2>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let h = polygon(&c.pts, c.mul, c.rot);
    if h.is_empty() {
        let e: Vec<V> = vec![];
        let p: V = c.g.v([0, 0]);
        ensure!(
            !ch::contains_point_inclusive(&e, p) && !ch::contains_point_exclusive(&e, p),
            "an empty hull contains a point"
        );
        rec.label("empty");
        return Ok(());
    }
    let mut closed = h.clone();
    closed.push(h[0]);
    let vc: Vec<V> = c.g.vs(&closed);
    let vo: Vec<V> = c.g.vs(&h);
    rec.label(match h.len() {
        1 => "point",
        2 => "segment",
        3 => "triangle",
        4..=7 => "n4-7",
        8..=24 => "n8-24",
        25..=63 => "n25-63",
        _ => "n64+",
    });
    for (i, j, k, d) in &c.q {
        let p = chord_point(&h, *i, *j, *k, *d);
        let side = exact::in_hull(&h, p);
        let v: V = c.g.v(p);
        let (inc, exc) = (side != Side::Outside, side == Side::Inside);
        rec.count(
            match side {
                Side::Outside => "outside",
                Side::Boundary => "boundary",
                Side::Inside => "inside",
            },
            1,
        );
        rec.nontrivial_if(h.len() >= 3 && side != Side::Outside);
        ensure!(
            ch::contains_point_inclusive(&vc, v) == inc,
            "{p:?} is {side:?} of {h:?}, contains_point_inclusive says {}",
            !inc
        );
        ensure!(
            vc.contains_point_inclusive(v) == inc,
            "{p:?} is {side:?} of {h:?}, LineString2::contains_point_inclusive says {}",
            !inc
        );
        ensure!(
            ch::contains_point_exclusive(&vc, v) == exc,
            "{p:?} is {side:?} of {h:?}, contains_point_exclusive says {}",
            !exc
        );
        ensure!(
            vc.contains_point_exclusive(v) == exc,
            "{p:?} is {side:?} of {h:?}, LineString2::contains_point_exclusive says {}",
            !exc
        );
        if h.len() != 2 {
            // the explicit loop vertex is optional for the free functions
            ensure!(
                ch::contains_point_inclusive(&vo, v) == inc,
                "{p:?} is {side:?} of the open list {h:?}, inclusive says {}",
                !inc
            );
            ensure!(
                ch::contains_point_exclusive(&vo, v) == exc,
                "{p:?} is {side:?} of the open list {h:?}, exclusive says {}",
                !exc
            );
        }
    }
    Ok(())
}

/// Hulls as the library itself hands them out (any duplicates, looped points):
/// graham_scan / gift_wrap output and AABB corner loops.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LibCase {
    g: Grid,
    pts: Vec<P>,
    q: Vec<(usize, usize, i64, P)>,
}
fn lib_hulls<V: GenericVector2>(c: &LibCase, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let v: Vec<V> = c.g.vs(&c.pts);
    let h = exact::hull(&c.pts);
    let hull = v.convex_hull().map_err(|e| e.to_string())?;
    let aabb = Aabb2::with_points(&v);
    let bx = aabb.convex_hull::<V>();
    let lo = [
        c.pts.iter().map(|p| p[0]).min().unwrap_or(0),
        c.pts.iter().map(|p| p[1]).min().unwrap_or(0),
    ];
    let hi = [
        c.pts.iter().map(|p| p[0]).max().unwrap_or(0),
        c.pts.iter().map(|p| p[1]).max().unwrap_or(0),
    ];
    ensure!(bx.is_some() != c.pts.is_empty(), "aabb hull existence");
    let all: Vec<P> = c.pts.clone();
    for (i, j, k, d) in &c.q {
        let p = chord_point(&all, *i, *j, *k, *d);
        let vp: V = c.g.v(p);
        let side = exact::in_hull(&h, p);
        if !hull.is_empty() {
            ensure!(
                hull.contains_point_inclusive(vp) == (side != Side::Outside),
                "{p:?} is {side:?} of the hull {h:?} returned by convex_hull(), inclusive test disagrees"
            );
            ensure!(
                hull.contains_point_exclusive(vp) == (side == Side::Inside),
                "{p:?} is {side:?} of the hull {h:?} returned by convex_hull(), exclusive test disagrees"
            );
        }
        if let Some(bx) = &bx {
            let inb = (0..2).all(|a| lo[a] <= p[a] && p[a] <= hi[a]);
            let strict = (0..2).all(|a| lo[a] < p[a] && p[a] < hi[a]);
            ensure!(
                ch::contains_point_inclusive(bx, vp) == inb,
                "{p:?} vs AABB hull {lo:?}..{hi:?}: inclusive says {}",
                !inb
            );
            ensure!(
                ch::contains_point_exclusive(bx, vp) == strict,
                "{p:?} vs AABB hull {lo:?}..{hi:?}: exclusive says {}",
                !strict
            );
        }
        rec.nontrivial_if(side != Side::Outside);
    }
    rec.label_if(h.len() < 3, "degenerate");
    Ok(())
}

/// Full precision corners: every corner belongs to the hull but not to its
/// inside, points clearly on one side of the border are told apart.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    ty: Ty,
    pts: Vec<[Fl; 2]>,
    rot: usize,
    /// chord from corner to corner, position on it, distance from it
    q: Vec<(usize, usize, Fl, Fl)>,
}
fn floats<V: GenericVector2>(c: &FCase, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let eps = V::Scalar::eps();
    let q: Vec<[f64; 2]> = c.pts.iter().map(|p| xy(v2::<V>(p[0].0, p[1].0))).collect();
    let Some(mut h) = clear_hull(&q, eps).filter(|h| h.len() >= 3) else {
        rec.label("almost collinear");
        return Ok(());
    };
    let n = h.len();
    h.rotate_left(c.rot % n);
    let vo: Vec<V> = h.iter().map(|p| v2(p[0], p[1])).collect();
    let mut vc = vo.clone();
    vc.push(vo[0]);
    let check = |p: V, inc: Option<bool>, exc: Option<bool>| {
        for (v, how) in [(&vc, "closed"), (&vo, "open")] {
            if let Some(inc) = inc {
                ensure!(
                    ch::contains_point_inclusive(v, p) == inc,
                    "contains_point_inclusive({how} {h:?}, {:?}) is {}",
                    xy(p),
                    !inc
                );
            }
            if let Some(exc) = exc {
                ensure!(
                    ch::contains_point_exclusive(v, p) == exc,
                    "contains_point_exclusive({how} {h:?}, {:?}) is {}",
                    xy(p),
                    !exc
                );
            }
        }
        Ok(())
    };
    for p in &vo {
        check(*p, Some(true), Some(false))?;
    }
    for (i, j, t, off) in &c.q {
        let a = h[i % n];
        let b = h[if j % 2 == 0 { i + 1 } else { i + 1 + j / 2 % (n - 1) } % n];
        let d = [b[0] - a[0], b[1] - a[1]];
        let p: V = v2(a[0] + d[0] * t.0 - d[1] * off.0, a[1] + d[1] * t.0 + d[0] * off.0);
        let side = clear_side(&h, xy(p), eps);
        rec.count(
            match side {
                None => "too close",
                Some(true) => "inside",
                Some(false) => "outside",
            },
            1,
        );
        check(p, side, side)?;
    }
    rec.label(match n {
        3 => "triangle",
        4..=7 => "n4-7",
        8..=24 => "n8-24",
        _ => "n25+",
    });
    rec.nontrivial();
    Ok(())
}

fn queries(max: usize) -> impl Strategy<Value = Vec<(usize, usize, i64, P)>> + Clone {
    prop::collection::vec(
        (
            0usize..256,
            0usize..256,
            0i64..64,
            prop_oneof![4 => Just([0i64, 0]), 2 => point(1), 1 => point(40)],
        ),
        1..=max,
    )
}

fn main() {
    let mut ctx = Ctx::new(
        "P09",
        "strictly convex lattice polygons (3..~60 corners, every rotation, open and closed lists, degenerate ones, hulls handed out by the library and AABB loops) and query points on chords, edges, corners, near misses; non-trivial = a query inside or on the boundary of a proper polygon",
    );
    ctx.assume("coordinates are exact lattice points, so collinearity is decided exactly; lists that are not convex hulls are outside the documented domain");
    ctx.sub(
        "polygons",
        3_750_000,
        || {
            (grid_small(), points(1, 60), prop_oneof![Just(1i64), Just(2), Just(3), Just(4)], 0usize..64, queries(12)).prop_map(
                |(g, pts, mul, rot, q)| Case {
                    g,
                    // keep products exact in f32
                    pts: pts.iter().map(|p| [p[0].clamp(-150, 150), p[1].clamp(-150, 150)]).collect(),
                    mul,
                    rot,
                    q,
                },
            )
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "many_corners",
        300_000,
        || (grid_small(), many_corners(), 0usize..256, queries(24)).prop_map(|(g, pts, rot, q)| Case { g, pts, mul: 1, rot, q }),
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "library_hulls",
        2_500_000,
        || (grid(), points(0, 30), queries(8)).prop_map(|(g, pts, q)| LibCase { g, pts, q }),
        |c: &LibCase, rec: &mut Rec| on_ty!(c.g.ty, lib_hulls(c, rec)),
    );
    ctx.sub(
        "warped",
        400_000,
        || {
            (grid_wide(), warp(2000, 20), prop_oneof![3 => points(1, 40), 1 => many_corners().boxed()], 0usize..64, queries(12))
                .prop_map(|(g, w, pts, rot, q)| Case { g, pts: w.ps(&pts), mul: 2, rot, q })
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "library_warped",
        300_000,
        || (grid_wide(), warp(1000, 6), points(0, 30), queries(8)).prop_map(|(g, w, pts, q)| LibCase { g, pts: w.ps(&pts), q }),
        |c: &LibCase, rec: &mut Rec| on_ty!(c.g.ty, lib_hulls(c, rec)),
    );
    ctx.sub(
        "far",
        400_000,
        || {
            (grid_far(), points(1, 60), prop_oneof![Just(1i64), Just(2), Just(4)], 0usize..64, queries(12))
                .prop_map(|(g, pts, mul, rot, q)| Case { g, pts, mul, rot, q })
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "floats",
        300_000,
        || {
            (
                ty(),
                prop_oneof![1 => float_clouds(), 2 => float_rounds()],
                0usize..64,
                prop::collection::vec(
                    (0usize..64, 0usize..64, (-0.2..1.2f64).prop_map(Fl), prop_oneof![Just(0.0), -1.0..1.0f64, -1e-3..1e-3f64, -1e-5..1e-5f64].prop_map(Fl)),
                    0..8,
                ),
            )
                .prop_map(|(ty, pts, rot, q)| FCase { ty, pts, rot, q })
        },
        |c: &FCase, rec: &mut Rec| on_ty!(c.ty, floats(c, rec)),
    );
    ctx.finish()
}
