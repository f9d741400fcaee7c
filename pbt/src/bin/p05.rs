//! P05 the indexed sweep-line intersection equals brute force, and its vertex list is sound.
use linestring::linestring_2d::indexed_intersection::IntersectionTester;
use pbt::exact::P;
use pbt::gen::*;
use pbt::sweep::{self, Fit, SoupCase};
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    c: SoupCase,
    /// share equal coordinates through one vertex index
    share: bool,
    /// an unreferenced vertex now and then
    spare: bool,
}

fn run<V: GenericVector2>(k: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let c = &k.c;
    let e = sweep::expected(&c.s);
    sweep::labels(&e, &c.s, c.ignore, rec);
    rec.label_if(k.share, "shared-indices");
    let g = &c.g;
    let mut pts: Vec<P> = vec![];
    let mut edges: Vec<(usize, usize)> = vec![];
    for (i, s) in c.s.iter().enumerate() {
        let mut id = |p: P| {
            if k.share {
                if let Some(i) = pts.iter().position(|q| *q == p) {
                    return i;
                }
            }
            pts.push(p);
            pts.len() - 1
        };
        let ab = (id(s[0]), id(s[1]));
        edges.push(ab);
        if k.spare && i % 3 == 0 {
            pts.push([i as i64, 1]);
        }
    }
    let vs: Vec<V> = g.vs(&pts);
    let cut = c.split.min(edges.len());
    let t = IntersectionTester::<V>::new(vs.clone())
        .with_ignore_end_point_intersections(c.ignore)
        .and_then(|d| d.with_stop_at_first_intersection(c.stop))
        .and_then(|d| d.with_edges(edges[..cut].iter()))
        .and_then(|d| d.with_edges(edges[cut..].iter()))
        .map_err(|e| format!("{e}"))?;
    ensure!(t.get_lines().len() == edges.len(), "get_lines() has {} of {} edges", t.get_lines().len(), edges.len());
    for (i, l) in t.get_lines().iter().enumerate() {
        let w = edges[i];
        ensure!(*l == w || *l == (w.1, w.0), "edge {i} was {w:?}, get_lines() has {l:?}");
    }
    let (out, res) = t.compute().map_err(|e| format!("{e}"))?;
    let n = res.len();
    let raw: Vec<(usize, Vec<usize>)> = res.collect();
    ensure!(n == raw.len(), "the iterator announced {n} items and gave {}", raw.len());
    ensure!(out.len() >= vs.len(), "{} vertices in, {} out", vs.len(), out.len());
    for (i, v) in vs.iter().enumerate() {
        ensure!(xy(*v) == xy(out[i]), "vertex {i} was {:?}, came back as {:?}", xy(*v), xy(out[i]));
    }
    let u = g.unit();
    let lat = |v: V| {
        let [x, y] = xy(v);
        [x / u - g.off[0] as f64, y / u - g.off[1] as f64]
    };
    for (i, _) in &raw {
        ensure!(*i < out.len(), "intersection vertex {i} of {}", out.len());
    }
    let pos: Vec<[f64; 2]> = raw.iter().map(|(i, _)| xy(out[*i])).collect();
    let got: Vec<([f64; 2], Vec<usize>)> = raw.iter().map(|(i, l)| (lat(out[*i]), l.clone())).collect();
    let big = c.s.iter().flatten().flat_map(|p| [(p[0] + g.off[0]).abs(), (p[1] + g.off[1]).abs()]).max().unwrap_or(1);
    let tol = 32.0 * V::Scalar::eps() * big.max(1) as f64;
    sweep::judge_order(&pos, tol * u, |i| raw[i].0 < vs.len())?;
    for v in &out[vs.len()..] {
        let p = lat(*v);
        ensure!(
            e.points.iter().any(|x| (x.at.fx() - p[0]).abs() <= tol && (x.at.fy() - p[1]).abs() <= tol),
            "the added vertex {p:?} is no intersection"
        );
    }
    for i in vs.len()..out.len() {
        ensure!(raw.iter().any(|(j, _)| i == *j), "nothing refers to the added vertex {i} at {:?}", lat(out[i]));
        let p = lat(out[i]);
        // a search which stops may not have got to that end point yet
        let near = |q: &P| (q[0] as f64 - p[0]).abs() <= tol && (q[1] as f64 - p[1]).abs() <= tol;
        if !c.stop && c.s.iter().flatten().any(near) {
            let lines = e.points.iter().filter(|x| near(&[x.at.fx() as i64, x.at.fy() as i64])).map(|x| x.lines.len()).max();
            ensure!(lines > Some(2), "the added vertex {i} at {p:?} is the end of an edge");
            rec.known("reported-twice", || format!("the added vertex {i} at {p:?} is the end of an edge"))?;
        }
    }
    if c.stop {
        sweep::judge_first(&e, &got, c.ignore, tol)
    } else {
        sweep::judge(&e, &got, c.ignore, tol, |m| rec.known("reported-twice", || m))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    fit: Fit,
    exp: i8,
    ignore: bool,
    v: Vec<P>,
    e: Vec<(usize, usize)>,
}
/// Larger graphs: which pairs are reported together.
fn big<V: GenericVector2>(c: &Big, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    if c.v.is_empty() {
        return Ok(());
    }
    let u = 2f64.powi(c.exp as i32);
    let vs: Vec<V> = c.v.iter().map(|p| v2::<V>(p[0] as f64 * u, p[1] as f64 * u)).collect();
    let e: Vec<(usize, usize)> = c.e.iter().map(|(a, b)| (a % vs.len(), b % vs.len())).collect();
    let s: Vec<[P; 2]> = e.iter().map(|(a, b)| [c.v[*a], c.v[*b]]).collect();
    let (out, res) = IntersectionTester::<V>::new(vs).with_edges(e.iter()).and_then(|t| t.with_ignore_end_point_intersections(c.ignore)).map_err(|e| format!("{e}"))?.compute().map_err(|e| format!("{e}"))?;
    let got: Vec<([f64; 2], Vec<usize>)> = res.map(|(i, l)| (xy(out[i]), l)).collect();
    let eps = V::Scalar::eps();
    let n = match sweep::judge_pairs(&s, &got, c.ignore, u, eps, |m| rec.known("reported-twice", || m)) {
        Err(m) if sweep::same_height(&s, u, eps) => {
            rec.known("same-height", || m)?;
            return Ok(());
        }
        r => r?,
    };
    rec.nontrivial_if(n > 0);
    rec.count("crossing pairs", n as u64);
    Ok(())
}

/// Random graphs and maps; some vertices are (as good as) on the line between two others.
fn graphs(exp: std::ops::RangeInclusive<i8>, m: i64) -> BoxedStrategy<Big> {
    let v = (lists((point(m), 0u8..12, 0usize..100, 0usize..100, 1i64..8), 2, 80), 0u8..4).prop_map(move |(l, k)| {
        let mut v: Vec<P> = vec![];
        for (i, (p, t, a, b, f)) in l.into_iter().enumerate() {
            let i = i as i64;
            v.push(match (k, t) {
                (1, 0..=2) if !v.is_empty() => {
                    let (a, b) = (v[a % v.len()], v[b % v.len()]);
                    [0, 1].map(|x| a[x] + ((b[x] - a[x]) as i128 * f as i128 / 8) as i64)
                }
                // a jittered map
                (2, _) => [0, 1].map(|x| ([i % 9, i / 9][x] - 4) * (m / 8) + p[x] / 16),
                // almost below or beside another vertex
                (3, 0..=5) if !v.is_empty() => {
                    let mut q = v[a % v.len()];
                    q[b % 2] = p[b % 2];
                    q[1 - b % 2] = (q[1 - b % 2] + (p[0] >> (b / 2))).clamp(-m, m);
                    q
                }
                _ => p,
            });
        }
        v
    });
    let e = prop_oneof![
        lists((0usize..100, 0usize..100), 2, 120),
        // neighbours
        lists((0usize..100, prop_oneof![Just(1usize), Just(8), Just(9), Just(10), 2usize..30]).prop_map(|(a, d)| (a, a + d)), 2, 160),
    ];
    (exp, any::<bool>(), v, e, sweep::fit())
        .prop_map(move |(exp, ignore, v, e, fit)| Big { v: v.into_iter().map(|p| fit.point(m, p)).collect(), exp: fit.exp(exp), fit, ignore, e })
        .boxed()
}

fn main() {
    let mut ctx = Ctx::new(
        "P05",
        "indexed lattice segment soups (shared or separate vertex indices, spare vertices); non-trivial = at least one intersection has to be reported",
    );
    ctx.assume("coordinates are lattice points (f32: within +-6, f64: within +-300) times a power of two; positions are compared within 32 epsilon of the largest coordinate; edge indices are in range");
    let mk = |max| (sweep::soup_cases(max), any::<bool>(), prop::bool::weighted(0.2)).prop_map(|(c, share, spare)| Case { c, share, spare });
    ctx.sub("soup", 4_200_000, || mk(14), |k: &Case, rec: &mut Rec| on_ty!(k.c.g.ty, run(k, rec)));
    ctx.sub("soup_long", 120_000, || mk(40), |k: &Case, rec: &mut Rec| on_ty!(k.c.g.ty, run(k, rec)));
    let lv = |max| (sweep::level_cases(max), any::<bool>()).prop_map(|(c, share)| Case { c, share, spare: false });
    ctx.sub("levels", 300_000, || lv(16), |k: &Case, rec: &mut Rec| on_ty!(k.c.g.ty, run(k, rec)));
    let wp = |max| (sweep::warped_cases(max), any::<bool>()).prop_map(|(c, share)| Case { c, share, spare: false });
    ctx.sub("warped", 500_000, || wp(14), |k: &Case, rec: &mut Rec| on_ty!(k.c.g.ty, run(k, rec)));
    let fa = || (sweep::far_cases(14), any::<bool>(), any::<bool>()).prop_map(|(c, share, spare)| Case { c, share, spare });
    ctx.sub("far", 400_000, fa, |k: &Case, rec: &mut Rec| on_ty!(k.c.g.ty, run(k, rec)));
    let me = || (sweep::mesh_cases(), any::<bool>()).prop_map(|(c, share)| Case { c, share, spare: false });
    ctx.sub("meshes", 10_000, me, |k: &Case, rec: &mut Rec| on_ty!(k.c.g.ty, run(k, rec)));
    ctx.sub("pairs_wide", 12_000, || graphs(-10..=10, 1 << 20), |c: &Big, rec: &mut Rec| on_ty!(c.fit.ty, big(c, rec)));
    ctx.sub("pairs_full", 12_000, || graphs(-60..=-20, 1 << 50), |c: &Big, rec: &mut Rec| on_ty!(c.fit.ty, big(c, rec)));
    ctx.show_finding("reported-twice", || {
        // edges 0 and 1 cross once
        let p = |x: f64, y: f64| v2::<G2d>(x, y);
        let vs = vec![p(136.0, -151.0), p(-53.0, 237.0), p(74.0, -49.0), p(25.0, 130.0), p(0.0, -32.0), p(70.0, 0.0)];
        let t = IntersectionTester::<G2d>::new(vs).with_edges([(0, 1), (2, 3), (4, 5)].iter());
        let (_, r) = t.and_then(|t| t.compute()).unwrap();
        r.filter(|(_, l)| l.contains(&0) && l.contains(&1)).count() > 1
    });
    ctx.show_finding("same-height", || {
        let vs: Vec<G2f> = [(790578.0, -385267.0), (790578.0, 174857.0), (-62283.0, 154872.0), (790585.0, 154871.0)].map(|(x, y)| v2(x, y)).to_vec();
        let t = IntersectionTester::<G2f>::new(vs).with_edges([(0, 1), (2, 3)].iter());
        t.and_then(|t| Ok(t.compute()?.1.len() == 0)).unwrap_or(false)
    });
    ctx.finish()
}
