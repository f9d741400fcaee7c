//! P03 ray casting returns the closest hit.
use linestring::linestring_2d::LineString2;
use pbt::exact::{self, P};
use pbt::gen::*;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    g: Grid,
    line: Vec<P>,
    o: P,
    d: P,
    /// the direction is made 2^stretch times longer
    #[serde(default)]
    stretch: i32,
}

/// Exact smallest t >= 0 (as a fraction) with o + t*d on the closed edge, and
/// all the "corner" hits t > 0 (isolated crossings, ends of collinear edges).
fn edge_hits(o: P, d: P, a: P, b: P) -> (Option<(i128, i128)>, Vec<(i128, i128)>) {
    let s = [b[0] - a[0], b[1] - a[1]];
    let q = [a[0] - o[0], a[1] - o[1]];
    let x = |u: P, v: P| u[0] as i128 * v[1] as i128 - u[1] as i128 * v[0] as i128;
    let dt = |u: P, v: P| u[0] as i128 * v[0] as i128 + u[1] as i128 * v[1] as i128;
    let rxs = x(d, s);
    if rxs == 0 {
        if x(q, d) != 0 {
            return (None, vec![]);
        }
        let rr = dt(d, d);
        let q2 = [b[0] - o[0], b[1] - o[1]];
        let (t0, t1) = (dt(q, d), dt(q2, d));
        let (lo, hi) = (t0.min(t1), t0.max(t1));
        let ends = [lo, hi].iter().filter(|t| **t > 0).map(|t| (*t, rr)).collect();
        if hi < 0 {
            return (None, ends);
        }
        return (Some((lo.max(0), rr)), ends);
    }
    let (mut tn, mut un, mut den) = (x(q, s), x(q, d), rxs);
    if den < 0 {
        (tn, un, den) = (-tn, -un, -den);
    }
    if tn < 0 || un < 0 || un > den {
        return (None, vec![]);
    }
    (Some((tn, den)), if tn > 0 { vec![(tn, den)] } else { vec![] })
}
fn lt(a: (i128, i128), b: (i128, i128)) -> bool {
    a.0 * b.1 < b.0 * a.1
}

fn run<V: GenericVector2>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let g = &c.g;
    let u = g.unit();
    if c.d == [0, 0] {
        return Ok(());
    }
    let v: Vec<V> = g.vs(&c.line);
    let o: V = g.v(c.o);
    let stretch = 2f64.powi(c.stretch);
    let d: V = v2(c.d[0] as f64 * u * stretch, c.d[1] as f64 * u * stretch);
    let eps = V::Scalar::eps();
    let mut best: Option<(i128, i128)> = None;
    let mut corner: Option<(i128, i128)> = None;
    let mut on_line = false;
    for (i, w) in c.line.windows(2).enumerate() {
        let (t, corners) = edge_hits(c.o, c.d, w[0], w[1]);
        on_line |= exact::on_seg(w[0], w[1], c.o);
        let got = <Vec<V> as LineString2<V>>::ray_edge_intersection(o, d, v[i], v[i + 1]);
        match (t, got) {
            (None, None) => (),
            (Some(t), Some(x)) => {
                let e = t.0 as f64 / t.1 as f64;
                let x = x.to() * stretch;
                // a collinear edge is measured from its first vertex
                let far = w
                    .iter()
                    .map(|p| ((exact::dist2(*p, c.o) as f64) / (exact::dist2(c.d, [0, 0]) as f64)).sqrt())
                    .fold(e.abs(), f64::max);
                ensure!(
                    (x - e).abs() <= 16.0 * eps * far.max(1e-30),
                    "ray {:?}+t{:?} meets edge {w:?} at t={e}, ray_edge_intersection says {x}",
                    c.o,
                    c.d
                );
            }
            (t, got) => {
                return Err(format!(
                    "ray {:?}+t{:?} vs edge {w:?}: exact {t:?}, ray_edge_intersection {:?}",
                    c.o,
                    c.d,
                    got.map(|x| x.to())
                ))
            }
        }
        if let Some(t) = t {
            if best.is_none() || lt(t, best.unwrap()) {
                best = Some(t)
            }
        }
        // an edge which holds the origin is "hit" at the origin, not further on
        for t in corners {
            if exact::on_seg(w[0], w[1], c.o) {
                continue;
            }
            if corner.is_none() || lt(t, corner.unwrap()) {
                corner = Some(t)
            }
        }
    }
    let got = v.closest_ray_intersection(d, o).map(|p| xy(p));
    let reach = c
        .line
        .iter()
        .map(|p| (exact::dist2(*p, c.o) as f64).sqrt())
        .fold(0.0, f64::max);
    let at = |t: (i128, i128)| {
        let f = t.0 as f64 / t.1 as f64;
        [
            (c.o[0] as f64 + g.off[0] as f64 + c.d[0] as f64 * f) * u,
            (c.o[1] as f64 + g.off[1] as f64 + c.d[1] as f64 * f) * u,
        ]
    };
    let ok = |p: [f64; 2], t: (i128, i128)| {
        let e = at(t);
        let f = t.0 as f64 / t.1 as f64;
        let tol = 32.0
            * eps
            * (reach * u + e[0].abs().max(e[1].abs()).max(u) + xy(o)[0].abs() + xy(o)[1].abs()
                + f * u * (c.d[0].abs() + c.d[1].abs()) as f64);
        (p[0] - e[0]).abs() <= tol && (p[1] - e[1]).abs() <= tol
    };
    rec.label_if(on_line, "origin-on-line");
    rec.label_if(c.stretch > 0, "long direction");
    if on_line {
        // documented freedom: the origin itself may or may not be reported
        rec.nontrivial();
        match (got, corner) {
            (Some(p), t) => ensure!(
                ok(p, (0, 1)) || t.is_some_and(|t| ok(p, t)),
                "origin on the line, hit {p:?} is neither the origin nor the next hit {:?}",
                t.map(at)
            ),
            (None, None) => (),
            (None, Some(t)) => return Err(format!("no hit reported, the next one is at {:?}", at(t))),
        }
        // ... but the order of the edges does not decide it
        let mut back = v.clone();
        back.reverse();
        let again = back.closest_ray_intersection(d, o).map(|p| xy(p));
        let same = match (got, again) {
            (None, None) => true,
            (Some(p), Some(q)) => corner.is_none() || ok(p, (0, 1)) == ok(q, (0, 1)) || ok(at(corner.unwrap()), (0, 1)),
            _ => false,
        };
        ensure!(same, "origin on the line, hit {got:?}, but {again:?} for the reversed linestring");
        return Ok(());
    }
    match (got, best) {
        (None, None) => rec.label("miss"),
        (Some(p), Some(t)) => {
            rec.label("hit");
            rec.nontrivial();
            ensure!(ok(p, t), "closest hit {p:?}, exact closest hit {:?}", at(t));
        }
        (g, t) => return Err(format!("closest hit {g:?}, exact {:?}", t.map(at))),
    }
    Ok(())
}

/// A full precision star shaped polygon around `center`; aimed at its corner `k` (or between).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Around {
    ty: Ty,
    center: [Fl; 2],
    scale: Fl,
    phase: Fl,
    radii: Vec<Fl>,
    k: usize,
    /// how far to look, in units of the scale, and between corners k and k+1
    far: Fl,
    between: Option<Fl>,
}
fn around() -> BoxedStrategy<Around> {
    let f = |a: f64, b: f64| (a..b).prop_map(Fl);
    (
        ty(),
        [f(-2.0, 2.0), f(-2.0, 2.0)],
        prop_oneof![Just(Fl(1.0)), Just(Fl(700.0)), f(0.1, 5000.0)],
        f(0.0, 6.3),
        prop::collection::vec(f(0.5, 1.0), 3..=24),
        (0usize..24, prop_oneof![f(1.01, 1.1), f(1.1, 100.0)], prop_oneof![3 => Just(None), 1 => f(0.0, 1.0).prop_map(Some)]),
    )
        .prop_map(|(ty, c, scale, phase, radii, (k, far, between))| Around { ty, center: [Fl(c[0].0 * scale.0), Fl(c[1].0 * scale.0)], scale, phase, radii, k, far, between })
        .boxed()
}
impl Around {
    /// the closed polygon, its center and the point aimed at
    fn make<V: GenericVector2>(&self) -> (Vec<V>, V, V)
    where
        V::Scalar: Sc,
    {
        let n = self.radii.len();
        let mut v: Vec<V> = (0..n)
            .map(|i| {
                let a = self.phase.0 + i as f64 / n as f64 * std::f64::consts::TAU;
                let r = self.radii[i].0 * self.scale.0;
                v2(self.center[0].0 + r * a.cos(), self.center[1].0 + r * a.sin())
            })
            .collect();
        v.push(v[0]);
        let k = self.k % n;
        let t = self.between.map_or(0.0, |b| b.0);
        let (a, b) = (xy(v[k]), xy(v[k + 1]));
        let o: V = v2(self.center[0].0, self.center[1].0);
        let q = [a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t];
        let at = v2(q[0], q[1]);
        (v, o, at)
    }
}

/// A ray from the inside of a closed line hits it, even through a corner.
fn out<V: GenericVector2>(c: &Around, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let (v, o, at) = c.make::<V>();
    let d = (at - o) * <V::Scalar as Sc>::of(c.far.0);
    rec.nontrivial();
    let show = || format!("ray {:?}+t{:?} from the inside of {:?}", xy(o), xy(d), v.iter().map(|p| xy(*p)).collect::<Vec<_>>());
    let Some(p) = v.closest_ray_intersection(d, o) else {
        return Err(format!("{}: no hit", show()));
    };
    let (p, b, tol) = (xy(p), xy(at), 1e-4 * c.scale.0);
    ensure!((p[0] - b[0]).abs() < tol && (p[1] - b[1]).abs() < tol, "{}: {p:?} instead of {b:?}", show());
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new(
        "P03",
        "a lattice linestring, an origin and a direction (free, aimed at vertices, along edges, from vertices); non-trivial = the ray meets the line or starts on it",
    );
    ctx.assume("ray direction is not the zero vector; when the origin lies on the line the documentation allows the origin itself to be reported or not");
    let mk = |max: usize| {
            (grid(), maybe_closed(points(0, max)), any_point(), any_point(), (0usize..1024, 0usize..1024, 0i64..64, 0u8..6, prop_oneof![3 => Just(0), 1 => 1i32..=30, 1 => 20i32..=55])).prop_map(
                |(g, line, a, b, (i, j, k, mode, stretch))| {
                    let at = |x: usize| if line.is_empty() { [0, 0] } else { line[x % line.len()] };
                    let sub = |p: P, q: P| [p[0] - q[0], p[1] - q[1]];
                    let (o, d) = match mode {
                        0 => (a, b),
                        1 => (a, sub(at(i), a)),
                        2 => (pbt::hulls::chord_point(&line, i, i + 1, k, [0, 0]), sub(at(i + 1), at(i))),
                        3 => (at(i), sub(at(j), at(i))),
                        4 => (pbt::hulls::chord_point(&line, i, i + 1, k, [0, 0]), b),
                        _ => {
                            let e = sub(at(i + 1), at(i));
                            ([at(i)[0] - 3 * e[0], at(i)[1] - 3 * e[1]], if k % 4 == 0 { [-e[0], -e[1]] } else { e })
                        }
                    };
                    let o = [o[0].clamp(-900, 900), o[1].clamp(-900, 900)];
                    let stretch = if matches!(g.ty, Ty::G64 | Ty::C64) { stretch } else { stretch.min(30) };
                    Case { g, line, o, d, stretch }
                },
            )
    };
    ctx.sub("rays", 7_500_000, || mk(25), |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)));
    ctx.sub("long", 200_000, || mk(400), |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)));
    ctx.sub(
        "warped",
        600_000,
        || (grid_wide(), warp(2000, 8), mk(25)).prop_map(|(g, w, c)| Case { g, line: w.ps(&c.line), o: w.p(c.o), d: w.p(c.d), stretch: 0 }),
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "far",
        600_000,
        || (grid_far(), mk(25)).prop_map(|(g, mut c)| {
            c.g = g;
            c.stretch = c.stretch.min(30);
            c
        }),
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub("inside_out", 1_000_000, around, |c: &Around, rec: &mut Rec| on_ty!(c.ty, out(c, rec)));
    ctx.finish()
}
