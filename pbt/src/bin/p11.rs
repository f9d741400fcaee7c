//! P11 Ramer-Douglas-Peucker simplification in 2d, direct and indexed.
use linestring::linestring_2d::LineString2;
use linestring::prelude::indexed_simplify_rdp_2d as indexed_rdp;
use pbt::gen::*;
use pbt::simplify::*;
use pbt::*;
use std::collections::HashMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    g: Grid,
    pts: Vec<[i64; 2]>,
    tol: Tol,
    idx: Vec<u16>,
}

fn run<V: GenericVector2>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let u = c.g.unit();
    let eps = V::Scalar::eps();
    let p3: Vec<[i64; 3]> = c.pts.iter().map(|p| [p[0], p[1], 0]).collect();
    let v: Vec<V> = c.g.vs(&c.pts);
    let t = V::Scalar::of(c.tol.value(&p3) * u);
    let tol = t.to() / u;
    // direct
    let out = v.simplify_rdp(t);
    let back: Option<Vec<[i64; 2]>> = out.iter().map(|p| c.g.back(*p)).collect();
    let Some(back) = back else {
        return Err("simplify_rdp: a point which is not an input point".into());
    };
    let ties = judge_rdp(&p3, tol, eps, &back, &|i, k| c.pts[i] == *k)
        .map_err(|e| format!("simplify_rdp({tol}): {e}: {back:?}"))?;
    // indexed, any selection (with repetitions) of the vertices
    let n = c.pts.len();
    let idx: Vec<usize> = if n == 0 { vec![] } else { c.idx.iter().map(|i| *i as usize % n).collect() };
    for idx in [(0..n).collect::<Vec<usize>>(), idx] {
        let out = indexed_rdp(&v, &idx, t);
        let sel: Vec<[i64; 3]> = idx.iter().map(|i| p3[*i]).collect();
        let _ = judge_rdp(&sel, tol, eps, &out, &|i, k| idx[i] == *k)
            .map_err(|e| format!("indexed_simplify_rdp({idx:?}, {tol}): {e}: {out:?}"))?;
    }
    rec.label_if(ties == Some(true), "ties");
    rec.label_if(ties.is_none(), "undecided-ties");
    rec.label_if(n > 2 && c.pts[0] == c.pts[n - 1], "closed");
    rec.label(match (n, back.len()) {
        (0..=2, _) => "trivial",
        (n, m) if n == m => "nothing-removed",
        (_, 2) => "collapsed",
        _ => "partly-removed",
    });
    rec.nontrivial_if(back.len() > 2 && back.len() < n);
    Ok(())
}

/// Arbitrary floats: the same predicate with an error margin.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    ty: Ty,
    pts: Vec<[Fl; 2]>,
    tol: Fl,
    scale: i8,
}
fn run_f<V: GenericVector2>(c: &FCase, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let s = 10f64.powi(c.scale as i32);
    let v: Vec<V> = c.pts.iter().map(|p| v2(p[0].0 * s, p[1].0 * s)).collect();
    let q: Vec<[f64; 3]> = v.iter().map(|p| { let [x, y] = xy(*p); [x, y, 0.0] }).collect();
    let t = V::Scalar::of(c.tol.0 * s);
    let big = q.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
    let margin = 64.0 * V::Scalar::eps() * big;
    let dist2 = |a: usize, b: usize, p: usize| -> Q {
        let d = |a: [f64; 3], b: [f64; 3]| [b[0] - a[0], b[1] - a[1], b[2] - a[2]];
        let dot = |a: [f64; 3], b: [f64; 3]| a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
        let (ab, ap) = (d(q[a], q[b]), d(q[a], q[p]));
        let l2 = dot(ab, ab);
        let k = if l2 == 0.0 { 0.0 } else { (dot(ab, ap) / l2).clamp(0.0, 1.0) };
        let w = [ap[0] - k * ab[0], ap[1] - k * ab[1], ap[2] - k * ab[2]];
        let v = dot(w, w);
        // very short chords: the direction of the chord is noise
        let m = margin * (1.0 + dot(ap, ap).sqrt() / l2.sqrt().max(margin));
        Q { v, err: 2.0 * v.sqrt() * m + m * m }
    };
    let out = v.simplify_rdp(t);
    let mut r = Rdp {
        dist2: &dist2,
        tol2: Q { v: t.to() * t.to(), err: 4.0 * V::Scalar::eps() * t.to() * t.to() },
        is: &|i, o| v[i] == out[o],
        memo: HashMap::new(),
        ties: false,
        budget: 5_000_000,
    };
    r.run(v.len(), out.len()).map_err(|e| format!("simplify_rdp({:?}): {e}", t.to()))?;
    let idx: Vec<usize> = (0..v.len()).collect();
    let out = indexed_rdp(&v, &idx, t);
    let mut r = Rdp { is: &|i, o| idx[i] == out[o], memo: HashMap::new(), ..r };
    r.run(v.len(), out.len()).map_err(|e| format!("indexed_simplify_rdp({:?}): {e}", t.to()))?;
    rec.label_if(r.ties, "close-call");
    rec.nontrivial_if(out.len() > 2 && out.len() < v.len());
    Ok(())
}

/// Oscillations with a shrinking or growing swing: every division splits off
/// next to nothing, the depth of the division is the number of points.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DCase {
    ty: Ty,
    n: u32,
    /// points before the swing turns from growing to shrinking
    peak: u32,
    swing: u8,
    tol: u8,
}
fn deep<V: GenericVector2>(c: &DCase, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let (n, peak, swing) = (c.n as i64, c.peak as i64, c.swing as i64);
    let at = |i: i64| -> [f64; 2] {
        let a = (n + 1 - (i - peak).abs()) * swing;
        let y = if i % 2 == 0 { a } else { -a };
        [i as f64, y as f64]
    };
    let mk = |p: [f64; 2]| v2(p[0], p[1]);
    let v: Vec<V> = (0..n).map(|i| mk(at(i))).collect();
    let tol = V::Scalar::of(c.tol as f64 * 0.25);
    let idx: Vec<usize> = (0..v.len()).collect();
    // all swings are wider than the tolerance: every point stays
    let r = v.simplify_rdp(tol);
    ensure!(r.len() == v.len(), "simplify_rdp({:?}): {} of {n} points left", tol.to(), r.len());
    for i in 0..v.len() {
        ensure!(xy(r[i]) == xy(v[i]), "simplify_rdp({:?}): point {i} is {:?}", tol.to(), xy(r[i]));
    }
    let r = indexed_rdp(&v, &idx, tol);
    ensure!(r == idx, "indexed_simplify_rdp({:?}): {} of {n} points left", tol.to(), r.len());
    rec.label_if(c.n > 8000, "deep");
    rec.nontrivial();
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new(
        "P11",
        "lattice polylines (open, closed, collinear, duplicated points) with tolerances on and around the actual point distances, index selections with repetitions, and arbitrary float polylines; non-trivial = some but not all interior points are removed",
    );
    ctx.assume("the tolerance is a distance (the code squares its argument), finite and not negative; equally far points may be split at either; positions within rounding of the tolerance may go either way");
    let mk = |lo, hi| {
        (grid(), maybe_closed(points(lo, hi)), tols(), prop::collection::vec(any::<u16>(), 0..=hi))
            .prop_map(|(g, pts, tol, idx)| Case { g, pts, tol, idx })
    };
    ctx.sub("short", 2_000_000, || mk(0, 12), |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)));
    ctx.sub("long", 100_000, || mk(12, 120), |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)));
    ctx.sub("longer", 10_000, || mk(120, 1500), |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)));
    let f = |b: f64| (-b..b).prop_map(Fl);
    ctx.sub(
        "floats",
        500_000,
        || {
            (
                ty(),
                prop::collection::vec([f(3.0), f(1.0)], 0..=40),
                prop_oneof![f(0.5), f(2.0), f(0.05)].prop_map(|t| Fl(t.0.abs())),
                -3i8..=3,
            )
                .prop_map(|(ty, pts, tol, scale)| FCase { ty, pts, tol, scale })
        },
        |c: &FCase, rec: &mut Rec| on_ty!(c.ty, run_f(c, rec)),
    );
    ctx.sub(
        "far",
        200_000,
        || (grid_far(), prop_oneof![8 => mk(0, 12), 1 => mk(12, 120)]).prop_map(|(g, mut c)| {
            c.g = g;
            c
        }),
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    // half of the default stack of a thread
    ctx.stack(1 << 20);
    ctx.sub(
        "deep",
        100,
        || {
            (ty(), prop_oneof![1 => 4u32..2000, 3 => 9000u32..12_000], any::<u32>(), 1u8..=3, 0u8..=3).prop_map(|(ty, n, k, swing, tol)| {
                let peak = match k % 4 {
                    0 => 0,
                    1 => n,
                    _ => k % (n + 1),
                };
                DCase { ty, n, peak, swing, tol }
            })
        },
        |c: &DCase, rec: &mut Rec| on_ty!(c.ty, deep(c, rec)),
    );
    ctx.finish()
}
