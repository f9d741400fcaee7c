//! P10 hull-in-hull containment: serial == parallel == the definition.
use linestring::linestring_2d::convex_hull as ch;
use linestring::linestring_2d::LineString2;
use pbt::exact::{self, Side, P};
use pbt::gen::*;
use pbt::hulls::*;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    g: Grid,
    a: Vec<P>,
    b: Vec<P>,
    /// how b relates to a: 0 independent, 1 picks on a's chords, 2 = those with small displacement, 3 = those without outside ones but the first
    mode: u8,
    picks: Vec<(usize, usize, i64, P)>,
    mul: i64,
    rot: (usize, usize),
    open: (bool, bool),
}

fn run<V: GenericVector2>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let mut a = polygon(&c.a, c.mul, c.rot.0);
    let bp: Vec<P> = match c.mode {
        0 => c.b.clone(),
        _ => c
            .picks
            .iter()
            .map(|(i, j, k, d)| chord_point(&a, *i, *j, (*k).max(1), if c.mode == 1 { [0, 0] } else { *d }))
            .collect(),
    };
    let bp: Vec<P> = match c.mode {
        // all inside, but for the first one perhaps
        3 => bp.iter().enumerate().filter(|(i, p)| *i == 0 || exact::in_hull(&a, **p) != Side::Outside).map(|(_, p)| *p).collect(),
        _ => bp,
    };
    let mut b = polygon(&bp, 1, c.rot.1);
    let ha = a.clone();
    if a.is_empty() {
        return Ok(());
    }
    if a.len() < 3 || !c.open.0 {
        a.push(a[0]);
    }
    if !b.is_empty() && (b.len() < 3 || !c.open.1) {
        b.push(b[0]);
    }
    let va: Vec<V> = c.g.vs(&a);
    let vb: Vec<V> = c.g.vs(&b);
    let expected = b.iter().all(|p| exact::in_hull(&ha, *p) != Side::Outside);
    let s = ch::contains_convex_hull(&va, &vb);
    let p = ch::contains_convex_hull_par(&va, &vb);
    rec.label(if b.is_empty() {
        "b-empty"
    } else if expected {
        "contained"
    } else {
        "not-contained"
    });
    rec.label_if(ha.len() < 3, "a-degenerate");
    rec.label_if(expected && ha.len() > 24 && b.len() > 8, "contained-many");
    let inside = b.iter().filter(|p| exact::in_hull(&ha, **p) != Side::Outside).count();
    rec.label_if(inside > 0 && inside < b.len(), "partial");
    rec.nontrivial_if(ha.len() >= 3 && b.len() >= 4 && inside > 0);
    ensure!(s == expected, "contains_convex_hull({a:?}, {b:?}) = {s}");
    ensure!(p == expected, "contains_convex_hull_par({a:?}, {b:?}) = {p}");
    Ok(())
}

/// Full precision corners: a hull contains itself and every selection of its
/// corners; one corner clearly outside settles the matter.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    ty: Ty,
    pts: Vec<[Fl; 2]>,
    rot: (usize, usize),
    open: (bool, bool),
    keep: u64,
    /// replaced corners of the inner hull: chord, position, distance
    q: Vec<(usize, usize, Fl, Fl)>,
}
fn floats<V: GenericVector2>(c: &FCase, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let eps = V::Scalar::eps();
    let q: Vec<[f64; 2]> = c.pts.iter().map(|p| xy(v2::<V>(p[0].0, p[1].0))).collect();
    let Some(h) = clear_hull(&q, eps).filter(|h| h.len() >= 3) else {
        rec.label("almost collinear");
        return Ok(());
    };
    let n = h.len();
    let mut b: Vec<[f64; 2]> = (0..n).filter(|i| c.keep >> (i % 64) & 1 == 1).map(|i| h[i]).collect();
    let mut expected = Some(true);
    for (i, j, t, off) in &c.q {
        let (a, e) = (h[i % n], h[(i + 1 + j % (n - 1)) % n]);
        let d = [e[0] - a[0], e[1] - a[1]];
        let p = xy(v2::<V>(a[0] + d[0] * t.0 - d[1] * off.0, a[1] + d[1] * t.0 + d[0] * off.0));
        b.push(p);
        expected = match (expected, clear_side(&h, p, eps)) {
            (Some(false), _) | (_, Some(false)) => Some(false),
            (None, _) | (_, None) => None,
            _ => Some(true),
        };
    }
    // the order of the corners is that of a hull (as good as can be told)
    let Some(mut b) = (if c.q.is_empty() { Some(b) } else { clear_hull(&b, eps) }) else {
        rec.label("almost collinear");
        return Ok(());
    };
    let corner_of_h = b.iter().all(|p| h.contains(p));
    if b.is_empty() {
        return Ok(());
    }
    let Some(expected) = (if corner_of_h { Some(true) } else { expected }) else {
        rec.label("too close");
        return Ok(());
    };
    let m = b.len();
    b.rotate_left(c.rot.1 % m);
    let mut a = h.clone();
    a.rotate_left(c.rot.0 % n);
    if !c.open.0 {
        a.push(a[0]);
    }
    if !c.open.1 || m == 2 {
        b.push(b[0]);
    }
    let vs = |l: &[[f64; 2]]| l.iter().map(|p| v2(p[0], p[1])).collect::<Vec<V>>();
    let (va, vb) = (vs(&a), vs(&b));
    let (s, p) = (ch::contains_convex_hull(&va, &vb), ch::contains_convex_hull_par(&va, &vb));
    ensure!(s == expected, "contains_convex_hull({a:?}, {b:?}) = {s}");
    ensure!(p == expected, "contains_convex_hull_par({a:?}, {b:?}) = {p}");
    rec.label(match (corner_of_h, expected) {
        (true, _) => "corners of the outer hull",
        (_, true) => "contained",
        _ => "not contained",
    });
    rec.nontrivial_if(m >= 3);
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new(
        "P10",
        "pairs of convex lattice polygons: independent ones, and ones built from points on the first one's chords with small displacements; every rotation, open and closed lists; non-trivial = proper outer polygon, at least 3 inner corners, at least one of them inside",
    );
    ctx.sub(
        "pairs",
        3_000_000,
        || {
            (
                grid_small(),
                points(1, 40),
                points(0, 30),
                0u8..4,
                prop::collection::vec(
                    (0usize..64, 0usize..64, 0i64..64, prop_oneof![6 => Just([0i64, 0]), 1 => point(1), 1 => point(30)]),
                    0..12,
                ),
                prop_oneof![Just(1i64), Just(2), Just(4)],
                (0usize..64, 0usize..64),
                (any::<bool>(), any::<bool>()),
            )
                .prop_map(|(g, a, b, mode, picks, mul, rot, open)| Case {
                    g,
                    a: a.iter().map(|p| [p[0].clamp(-150, 150), p[1].clamp(-150, 150)]).collect(),
                    b,
                    mode,
                    picks,
                    mul,
                    rot,
                    open,
                })
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "many_corners",
        300_000,
        || {
            (
                grid_small(),
                many_corners(),
                (1u8..=3).prop_flat_map(|m| {
                    (
                        Just(m),
                        prop::collection::vec(
                            (0usize..256, 0usize..256, 0i64..64, if m == 1 { Just([0i64, 0]).boxed() } else { prop_oneof![60 => Just([0i64, 0]), 1 => point(1)].boxed() }),
                            0..60,
                        ),
                    )
                }),
                (0usize..256, 0usize..64),
                (any::<bool>(), any::<bool>()),
            )
                .prop_map(|(g, a, (mode, picks), rot, open)| Case { g, a, b: vec![], mode, picks, mul: 1, rot, open })
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "warped",
        300_000,
        || {
            (
                grid_wide(),
                warp(2000, 20),
                points(1, 30),
                prop::collection::vec((0usize..64, 0usize..64, 0i64..64, prop_oneof![6 => Just([0i64, 0]), 1 => point(1)]), 0..12),
                (0usize..64, 0usize..64),
                (any::<bool>(), any::<bool>()),
            )
                .prop_map(|(g, w, a, picks, rot, open)| {
                    let h = polygon(&a, 2, 0);
                    let b: Vec<P> = picks.iter().map(|(i, j, k, d)| chord_point(&h, *i, *j, (*k).max(1), *d)).collect();
                    Case { g, a: w.ps(&h), b: w.ps(&b), mode: 0, picks: vec![], mul: 1, rot, open }
                })
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "far",
        300_000,
        || {
            (
                grid_far(),
                points(1, 40),
                0u8..4,
                prop::collection::vec((0usize..64, 0usize..64, 0i64..64, prop_oneof![6 => Just([0i64, 0]), 1 => point(1)]), 0..12),
                prop_oneof![Just(1i64), Just(2)],
                (0usize..64, 0usize..64),
                (any::<bool>(), any::<bool>()),
            )
                .prop_map(|(g, a, mode, picks, mul, rot, open)| Case { g, a, b: vec![], mode, picks, mul, rot, open })
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "floats",
        300_000,
        || {
            (
                ty(),
                prop_oneof![1 => float_clouds(), 2 => float_rounds()],
                (0usize..64, 0usize..64),
                (any::<bool>(), any::<bool>()),
                prop_oneof![Just(u64::MAX), any::<u64>()],
                prop_oneof![
                    Just(vec![]),
                    prop::collection::vec(
                        (0usize..64, 0usize..64, (0.0..1.0f64).prop_map(Fl), prop_oneof![12 => Just(0.0), 1 => -1e-3..1e-3f64, 1 => -0.5..0.5f64].prop_map(Fl)),
                        1..12,
                    )
                ],
            )
                .prop_map(|(ty, pts, rot, open, keep, q)| FCase { ty, pts, rot, open, keep, q })
        },
        |c: &FCase, rec: &mut Rec| on_ty!(c.ty, floats(c, rec)),
    );
    ctx.finish()
}
