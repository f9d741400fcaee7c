//! P14 Visvalingam-Whyatt simplification in 3d.
use linestring::linestring_3d::LineString3;
use pbt::gen::*;
use pbt::simplify::*;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    g: Grid3,
    pts: Vec<P3>,
    del: usize,
}

fn run<V: GenericVector3>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString3<V>,
{
    let eps = V::Scalar::eps();
    let n = c.pts.len();
    let p3: Vec<[i64; 3]> = c.pts.iter().map(|p| *p).collect();
    let v: Vec<V> = c.g.vs(&c.pts);
    let out = v.simplify_vw(c.del);
    let back: Option<Vec<P3>> = out.iter().map(|p| c.g.back(*p)).collect();
    #[allow(unused_mut)]
    let Some(mut back) = back else {
        return Err("simplify_vw: a point which is not an input point".into());
    };
    if n <= 2 || c.del == 0 {
        if n > 2 && back.len() + 1 == n {
            rec.known("last-point-lost", || format!("simplify_vw(0) loses the last point: {back:?}"))?;
            back.push(c.pts[n - 1]);
        }
        ensure!(back == c.pts, "simplify_vw({}) of {n} points: {back:?}", c.del);
        rec.label("nothing-to-do");
        return Ok(());
    }
    // recorded finding: the last point is lost
    if back.len() + 1 == n.saturating_sub(c.del).max(2) {
        rec.known("last-point-lost", || format!("simplify_vw({}) loses the last point: {back:?}", c.del))?;
        back.push(c.pts[n - 1]);
    }
    let want = n.saturating_sub(c.del);
    let m = back.len();
    ensure!(m == want.max(2), "simplify_vw({}) of {n} points left {m}", c.del);
    let area = |i: usize, j: usize, k: usize| area2(p3[i], p3[j], p3[k], eps);
    let mut budget = 3000;
    match vw_valid(n, m, &area, &|i, o| c.pts[i] == back[o], &mut budget) {
        Some(true) => (),
        None => rec.label("undecided-ties"),
        Some(false) => {
            return Err(format!(
                "simplify_vw({}): not the result of removing the smallest triangles one by one: {back:?}",
                c.del
            ))
        }
    }
    rec.label_if(c.pts[0] == c.pts[n - 1], "closed");
    rec.label(match m {
        _ if m == n => "kept-all",
        2..=4 => "few-left",
        _ => "partly-removed",
    });
    rec.nontrivial_if(m < n && m > 3);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    ty: Ty3,
    pts: Vec<[Fl; 3]>,
    close: bool,
    del: usize,
    scale: i8,
}
fn run_f<V: GenericVector3>(c: &FCase, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString3<V>,
{
    let s = 10f64.powi(c.scale as i32);
    let mut v: Vec<V> = c.pts.iter().map(|p| v3(p[0].0 * s, p[1].0 * s, p[2].0 * s)).collect();
    if c.close && v.len() > 1 {
        v.push(v[0]);
    }
    let n = v.len();
    let q: Vec<[f64; 3]> = v.iter().map(|p| xyz(*p)).collect();
    let big = q.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
    #[allow(unused_mut)]
    let mut out = v.simplify_vw(c.del);
    if n <= 2 || c.del == 0 {
        return Ok(());
    }
    if out.len() + 1 == n.saturating_sub(c.del).max(2) {
        rec.known("last-point-lost", || format!("simplify_vw({}) loses the last point", c.del))?;
        out.push(v[n - 1]);
    }
    let m = out.len();
    let want = n.saturating_sub(c.del);
    ensure!(m == want.max(2), "simplify_vw({}) of {n} points left {m}", c.del);
    let area = |i: usize, j: usize, k: usize| {
        let d = |a: [f64; 3], b: [f64; 3]| [b[0] - a[0], b[1] - a[1], b[2] - a[2]];
        let (a, b) = (d(q[i], q[j]), d(q[i], q[k]));
        let x = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]];
        let v = x[0] * x[0] + x[1] * x[1] + x[2] * x[2];
        let e = 64.0 * V::Scalar::eps() * big * big;
        Q { v, err: 2.0 * v.sqrt() * e + e * e }
    };
    let mut budget = 3000;
    match vw_valid(n, m, &area, &|i, o| v[i] == out[o], &mut budget) {
        Some(true) => rec.nontrivial_if(m < n && m > 3),
        None => rec.label("undecided-ties"),
        Some(false) => {
            return Err(format!(
                "simplify_vw({}) of {n} points: not the result of removing the smallest triangles one by one: {:?}",
                c.del,
                out.iter().map(|p| v.iter().position(|x| x == p)).collect::<Vec<_>>()
            ))
        }
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new(
        "P14",
        "lattice polylines (open, closed, collinear, duplicated points) and arbitrary float polylines with every number of points to delete; non-trivial = something is removed and more than three points stay",
    );
    ctx.assume("triangles of equal area (within rounding) may be removed in either order; the end points always stay");
    ctx.show_finding("last-point-lost", || {
        let v: Vec<G3d> = [[0., 3., 0.], [1., 2., 0.], [4., 1., 0.], [0., 0., 0.]].map(|p| v3(p[0], p[1], p[2])).to_vec();
        v.simplify_vw(1).last() != v.last()
    });
    let mk = |lo, hi: usize| {
        (grid3(), maybe_closed3(points3(lo, hi)), prop_oneof![4 => 0usize..=4, 4 => 0..=hi, 1 => 0usize..=1000])
            .prop_map(|(g, pts, del)| Case { g, pts, del })
    };
    ctx.sub("short", 6_000_000, || mk(0, 12), |c: &Case, rec: &mut Rec| on_ty3!(c.g.ty, run(c, rec)));
    ctx.sub("long", 150_000, || mk(12, 80), |c: &Case, rec: &mut Rec| on_ty3!(c.g.ty, run(c, rec)));
    ctx.sub("longer", 3_000, || mk(80, 600), |c: &Case, rec: &mut Rec| on_ty3!(c.g.ty, run(c, rec)));
    let f = |b: f64| (-b..b).prop_map(Fl);
    ctx.sub(
        "floats",
        900_000,
        || {
            (ty3(), prop::collection::vec([f(3.0), f(3.0), f(1.0)], 0..=30), any::<bool>(), 0usize..=30, -3i8..=3)
                .prop_map(|(ty, pts, close, del, scale)| FCase { ty, pts, close, del, scale })
        },
        |c: &FCase, rec: &mut Rec| on_ty3!(c.ty, run_f(c, rec)),
    );
    ctx.sub(
        "far",
        400_000,
        || (grid3_far(), prop_oneof![8 => mk(0, 12), 1 => mk(12, 80)]).prop_map(|(g, mut c)| {
            c.g = g;
            c
        }),
        |c: &Case, rec: &mut Rec| on_ty3!(c.g.ty, run(c, rec)),
    );
    ctx.finish()
}
