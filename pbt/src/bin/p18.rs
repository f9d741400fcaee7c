//! P18 Discretization of linestrings in 2d and 3d.
use linestring::{linestring_2d::LineString2, linestring_3d::LineString3};
use pbt::gen::*;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: Ty3,
    dim2: bool,
    pts: Vec<[Fl; 3]>,
    /// the distance is the length of edge `edge` times `part`, or `abs`
    edge: u8,
    part: Fl,
    abs: Option<Fl>,
}

fn judge(q: &[[f64; 3]], d: f64, eps: f64, out: &[[f64; 3]], rec: &mut Rec) -> Result<(), String> {
    let n = q.len();
    if n == 0 {
        ensure!(out.is_empty(), "points out of nothing: {out:?}");
        return Ok(());
    }
    let mut pos = 0;
    let mut steps = 0;
    for e in 0..n - 1 {
        let (a, b) = (q[e], q[e + 1]);
        ensure!(out.get(pos) == Some(&a), "point {e} of the linestring is not at position {pos} of the output");
        let dir = [0, 1, 2].map(|i| b[i] - a[i]);
        let len = (dir[0] * dir[0] + dir[1] * dir[1] + dir[2] * dir[2]).sqrt();
        let big = a.iter().chain(&b).fold(0.0f64, |m, x| m.max(x.abs()));
        // rounding of the edge vector and of the division
        let rel = 8.0 * eps;
        let lo = ((len * (1.0 - rel)) / d).ceil().max(1.0) as usize;
        let hi = ((len * (1.0 + rel)) / d).ceil().max(1.0) as usize;
        let hi = if len == 0.0 { lo } else { hi };
        let mut found = false;
        let mut why = String::new();
        for k in lo..=hi {
            let Some(o) = out.get(pos..pos + k) else {
                why = format!("{k} points expected on edge {e}, only {} left", out.len() - pos);
                continue;
            };
            let bad = o.iter().enumerate().find(|(i, p)| {
                let t = *i as f64 / k as f64;
                (0..3).any(|j| !((p[j] - (a[j] + dir[j] * t)).abs() <= 8.0 * eps * (big + dir[j].abs())))
            });
            match bad {
                Some((i, p)) => why = format!("step {i} of {k} on edge {e} is {p:?}"),
                None if out.get(pos + k) == Some(&b) => {
                    pos += k;
                    steps += k;
                    found = true;
                    break;
                }
                None => why = format!("edge {e} ends at {:?} after {k} steps", out.get(pos + k)),
            }
        }
        ensure!(found, "{why}");
        rec.label_if(len == 0.0, "zero-length-edge");
        rec.label_if(lo != hi, "close-call");
    }
    ensure!(out.get(pos) == Some(&q[n - 1]), "last point");
    ensure!(pos + 1 == out.len(), "{} points after the last one", out.len() - pos - 1);
    let big = q.iter().flatten().fold(0.0f64, |m, x| m.max(x.abs()));
    // every step, also across the rounding
    for w in out.windows(2) {
        let l = (0..3).map(|i| (w[1][i] - w[0][i]).powi(2)).sum::<f64>().sqrt();
        ensure!(l <= d * (1.0 + 16.0 * eps) + 32.0 * eps * big, "a step of length {l}, more than {d}");
    }
    rec.label(if steps == n - 1 { "no-extra-points" } else { "extra-points" });
    rec.nontrivial_if(steps > n - 1 && n > 2);
    Ok(())
}

fn dist<S: Sc>(q: &[[f64; 3]], c: &Case) -> S {
    let d = match c.abs {
        Some(d) => d.0,
        None if q.len() < 2 => 1.0,
        None => {
            let e = c.edge as usize % (q.len() - 1);
            let l = (0..3).map(|i| (q[e + 1][i] - q[e][i]).powi(2)).sum::<f64>().sqrt();
            if l == 0.0 {
                1.0
            } else {
                l * c.part.0
            }
        }
    };
    // at most some thousand points
    let total: f64 = q
        .windows(2)
        .map(|w| (0..3).map(|i| (w[1][i] - w[0][i]).powi(2)).sum::<f64>().sqrt())
        .sum();
    S::of(d.max(total / 2000.0))
}

fn drain<T>(it: &mut dyn Iterator<Item = T>) -> Result<Vec<T>, String> {
    let mut out = vec![];
    while let Some(p) = it.next() {
        out.push(p);
        ensure!(out.len() < 100_000, "does not end");
    }
    ensure!(it.next().is_none(), "restarts after the end");
    Ok(out)
}

fn run<V: GenericVector3>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    V::Vector2: GenericVector2<Scalar = V::Scalar>,
    usize: vector_traits::num_traits::AsPrimitive<V::Scalar>,
{
    let eps = V::Scalar::eps();
    if c.dim2 {
        let v: Vec<V::Vector2> = c.pts.iter().map(|p| v2(p[0].0, p[1].0)).collect();
        let f = |p: &V::Vector2| {
            let [x, y] = xy(*p);
            [x, y, 0.0]
        };
        let q: Vec<[f64; 3]> = v.iter().map(f).collect();
        let d: V::Scalar = dist(&q, c);
        let out = drain(&mut LineString2::discretize(&v, d))?;
        let out: Vec<[f64; 3]> = out.iter().map(f).collect();
        judge(&q, d.to(), eps, &out, rec).map_err(|e| format!("2d, distance {:?}: {e}", d.to()))
    } else {
        let v: Vec<V> = c.pts.iter().map(|p| v3(p[0].0, p[1].0, p[2].0)).collect();
        let q: Vec<[f64; 3]> = v.iter().map(|p| xyz(*p)).collect();
        let d: V::Scalar = dist(&q, c);
        let out = drain(&mut LineString3::discretize(&v, d))?;
        let out: Vec<[f64; 3]> = out.iter().map(|p| xyz(*p)).collect();
        judge(&q, d.to(), eps, &out, rec).map_err(|e| format!("3d, distance {:?}: {e}", d.to()))
    }
}

fn main() {
    let mut ctx = Ctx::new(
        "P18",
        "2d and 3d linestrings (duplicated points, zero length edges, axis parallel and arbitrary, closed) with distances that divide an edge exactly, nearly, not at all, or exceed everything (infinity included); non-trivial = more than two points and at least one intermediate point",
    );
    ctx.assume("the distance is positive; positions and the step length are compared within rounding; when length/distance is within rounding of an integer both step counts are accepted");
    let x = || {
        prop_oneof![
            5 => (-6i32..=6).prop_map(|x| x as f64),
            2 => (-300i32..=300).prop_map(|x| x as f64 / 4.0),
            3 => -10.0f64..10.0,
        ]
        .prop_map(Fl)
    };
    let part = || {
        prop_oneof![
            3 => (1u32..=12).prop_map(|k| 1.0 / k as f64),
            2 => (1u32..=12, 1u32..=12).prop_map(|(a, b)| a as f64 / b as f64),
            2 => (1u32..=5, prop_oneof![Just(-1e-4), Just(1e-4), Just(1e-7), Just(-1e-7)]).prop_map(|(k, e)| (1.0 + e) / k as f64),
            3 => 0.01f64..3.0,
            1 => Just(1e6),
            1 => prop_oneof![20 => 0.003f64..0.01, 1 => 2e-4f64..0.003],
        ]
        .prop_map(Fl)
    };
    let abs = || {
        prop_oneof![
            8 => Just(None),
            3 => (0.05f64..20.0).prop_map(|x| Some(Fl(x))),
            1 => (1i32..=8).prop_map(|x| Some(Fl(x as f64))),
            1 => prop_oneof![Just(f64::INFINITY), Just(1e30), Just(1e38)].prop_map(|x| Some(Fl(x))),
        ]
    };
    ctx.sub(
        "lines",
        4_000_000,
        || {
            (
                ty3(),
                any::<bool>(),
                (prop_oneof![100 => prop::collection::vec([x(), x(), x()], 0..=14), 1 => prop::collection::vec([x(), x(), x()], 0..=300)], prop::collection::vec((0usize..14, any::<bool>()), 0..3), -6i32..=6),
                any::<u8>(),
                part(),
                abs(),
            )
                .prop_map(|(ty, dim2, (mut pts, dup, sc), edge, part, abs)| {
                    // repeat some points, next to each other or at the end
                    for (i, close) in dup {
                        if !pts.is_empty() {
                            let k = i % pts.len();
                            let p = pts[k];
                            pts.insert(if close { pts.len() } else { k }, p);
                        }
                    }
                    if abs.is_none() {
                        let s = 10f64.powi(sc);
                        pts.iter_mut().flatten().for_each(|x| x.0 *= s);
                    }
                    Case { ty, dim2, pts, edge, part, abs }
                })
        },
        |c: &Case, rec: &mut Rec| on_ty3!(c.ty, run(c, rec)),
    );
    ctx.finish()
}
