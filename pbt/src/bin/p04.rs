//! P04 the sweep-line intersection of a segment soup equals brute force.
use linestring::linestring_2d::{intersection::IntersectionData, Line2};
use pbt::exact::P;
use pbt::gen::*;
use pbt::sweep::{self, Fit, SoupCase};
use pbt::*;

fn run<V: GenericVector2>(c: &SoupCase, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let e = sweep::expected(&c.s);
    sweep::labels(&e, &c.s, c.ignore, rec);
    let g = &c.g;
    let lines: Vec<Line2<V>> = c.s.iter().map(|s| Line2::new(g.v(s[0]), g.v(s[1]))).collect();
    let k = c.split.min(lines.len());
    let mut d = IntersectionData::<V>::default();
    d = d
        .with_ignore_end_point_intersections(c.ignore)
        .and_then(|d| d.with_stop_at_first_intersection(c.stop))
        .and_then(|d| d.with_lines(lines[..k].iter().copied()))
        .and_then(|d| d.with_lines(lines[k..].iter().copied()))
        .map_err(|e| format!("{e}"))?;
    ensure!(d.get_lines().len() == lines.len(), "get_lines() has {} of {} lines", d.get_lines().len(), lines.len());
    for (i, l) in d.get_lines().iter().enumerate() {
        let (a, b) = (g.back(l.start), g.back(l.end));
        let s = c.s[i];
        ensure!(
            (a == Some(s[0]) && b == Some(s[1])) || (a == Some(s[1]) && b == Some(s[0])),
            "line {i} was {s:?}, get_lines() has {a:?} {b:?}"
        );
    }
    let res = d.compute().map_err(|e| format!("{e}"))?;
    let n = res.len();
    let u = g.unit();
    let raw: Vec<([f64; 2], Vec<usize>)> = res.map(|(p, l)| (xy(p), l)).collect();
    let pos: Vec<[f64; 2]> = raw.iter().map(|r| r.0).collect();
    let got: Vec<([f64; 2], Vec<usize>)> = raw
        .into_iter()
        .map(|([x, y], l)| ([x / u - g.off[0] as f64, y / u - g.off[1] as f64], l))
        .collect();
    ensure!(n == got.len(), "the iterator announced {n} items and gave {}", got.len());
    let big = c.s.iter().flatten().flat_map(|p| [(p[0] + g.off[0]).abs(), (p[1] + g.off[1]).abs()]).max().unwrap_or(1);
    let tol = 32.0 * V::Scalar::eps() * big.max(1) as f64;
    sweep::judge_order(&pos, tol * u, |_| false)?;
    if c.stop {
        sweep::judge_first(&e, &got, c.ignore, tol)
    } else {
        sweep::judge(&e, &got, c.ignore, tol, Err)
    }
}

/// Larger soups: which pairs are reported together.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    fit: Fit,
    exp: i8,
    ignore: bool,
    s: Vec<[P; 2]>,
}
fn big<V: GenericVector2>(c: &Big, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let u = 2f64.powi(c.exp as i32);
    let v = |p: P| v2::<V>(p[0] as f64 * u, p[1] as f64 * u);
    let d = IntersectionData::<V>::default()
        .with_lines(c.s.iter().map(|s| Line2::new(v(s[0]), v(s[1]))))
        .and_then(|d| d.with_ignore_end_point_intersections(c.ignore))
        .map_err(|e| format!("{e}"))?;
    let got: Vec<([f64; 2], Vec<usize>)> = d.compute().map_err(|e| format!("{e}"))?.map(|(p, l)| (xy(p), l)).collect();
    let eps = V::Scalar::eps();
    let n = match sweep::judge_pairs(&c.s, &got, c.ignore, u, eps, Err) {
        Err(m) if sweep::same_height(&c.s, u, eps) => {
            rec.known("same-height", || m)?;
            return Ok(());
        }
        r => r?,
    };
    rec.nontrivial_if(n > 0);
    rec.count("crossing pairs", n as u64);
    Ok(())
}

/// Scattered lines, short ones, polylines, fans, ends (as good as) on other lines.
fn soups(exp: std::ops::RangeInclusive<i8>, m: i64) -> BoxedStrategy<Big> {
    let l = lists((point(m), point(m), 0usize..200, 1i64..8), 2, 150);
    (exp, any::<bool>(), l, 0u8..8, sweep::fit())
        .prop_map(move |(exp, ignore, l, k, fit)| {
            let mut s: Vec<[P; 2]> = vec![];
            for (i, (p, q, j, f)) in l.into_iter().enumerate() {
                let short = [p[0] + q[0] / 8, p[1] + q[1] / 8];
                let some = |j: usize| if s.is_empty() { [p, q] } else { s[j % s.len()] };
                let along = |j: usize| {
                    let [a, b] = some(j);
                    [0, 1].map(|x| a[x] + ((b[x] - a[x]) as i128 * f as i128 / 8) as i64)
                };
                s.push(match k {
                    0 => [p, q],
                    1 => [p, short],
                    2 if i > 0 => [s[i - 1][1], p],
                    3 => [p, some(j)[i % 2]],
                    4 if i % 3 == 0 => [along(j), q],
                    5 if i % 3 == 0 => [along(j), along(j / 7)],
                    4 => [p, some(j)[i % 2]],
                    5 => [p, short],
                    // almost upright or almost level lines, and all over the place
                    6 if i % 2 == 0 => {
                        let x = j % 2;
                        let mut q = q;
                        q[x] = p[x] + (q[x] >> (j / 2 % 50));
                        [p, q]
                    }
                    6 => [p, short],
                    7 if i % 4 != 0 => [[p[0], p[1] >> (8 + f)], [q[0] >> 1, q[1] >> (8 + f)]],
                    _ => [p, q],
                });
            }
            let s = s.into_iter().map(|l| l.map(|p| fit.point(m, p))).collect();
            let exp = fit.exp(if k > 5 { exp.max(-24) } else { exp });
            Big { fit, exp, ignore, s }
        })
        .boxed()
}

fn main() {
    let mut ctx = Ctx::new(
        "P04",
        "lattice segment soups with shared ends, T junctions, concurrent bundles, overlaps and points; non-trivial = at least one intersection has to be reported",
    );
    ctx.assume("coordinates are lattice points (f32: within +-6, f64: within +-300) times a power of two, so distinct intersection points are far apart compared to rounding; positions are compared within 32 epsilon of the largest coordinate");
    ctx.sub("soup", 4_200_000, || sweep::soup_cases(14), |c: &SoupCase, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)));
    ctx.sub("soup_long", 120_000, || sweep::soup_cases(40), |c: &SoupCase, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)));
    ctx.sub("levels", 300_000, || sweep::level_cases(16), |c: &SoupCase, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)));
    ctx.sub("far", 400_000, || sweep::far_cases(14), |c: &SoupCase, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)));
    ctx.sub("warped", 500_000, || sweep::warped_cases(14), |c: &SoupCase, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)));
    ctx.sub("meshes", 10_000, sweep::mesh_cases, |c: &SoupCase, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)));
    ctx.sub("pairs_wide", 12_000, || soups(-10..=10, 1 << 20), |c: &Big, rec: &mut Rec| on_ty!(c.fit.ty, big(c, rec)));
    ctx.sub("pairs_full", 12_000, || soups(-60..=-20, 1 << 50), |c: &Big, rec: &mut Rec| on_ty!(c.fit.ty, big(c, rec)));
    ctx.show_finding("same-height", || {
        let l = |a: [f64; 4]| Line2::<G2f>::new(v2(a[0], a[1]), v2(a[2], a[3]));
        let d = IntersectionData::<G2f>::default();
        let d = d.with_lines([l([790578.0, -385267.0, 790578.0, 174857.0]), l([-62283.0, 154872.0, 790585.0, 154871.0])].into_iter());
        d.and_then(|d| Ok(d.compute()?.len() == 0)).unwrap_or(false)
    });
    ctx.finish()
}
