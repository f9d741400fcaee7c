//! P15 Two dimensional bounding boxes.
use linestring::linestring_2d::{Aabb2, Line2};
use pbt::aabb::*;
use pbt::exact::P;
use pbt::gen::*;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    g: Grid,
    ops: Vec<Op<P>>,
    probes: Vec<P>,
    other: Vec<P>,
}

fn same<V: GenericVector2>(g: &Grid, b: &Aabb2<V>, m: &Model<2>) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let w = m.0.map(|(a, b)| (g.f(a), g.f(b)));
    let got = b.min_max().map(|(a, b)| (xy(a), xy(b)));
    ensure!(got == w, "min_max {got:?}, expected {w:?}");
    ensure!(b.low().map(xy) == w.map(|w| w.0), "low");
    ensure!(b.high().map(xy) == w.map(|w| w.1), "high");
    let ext = b.extents().map(|(a, b, c)| (xy(a), xy(b), xy(c)));
    let we = w.map(|(a, b)| (a, b, [b[0] - a[0], b[1] - a[1]]));
    ensure!(ext == we, "extents {ext:?}, expected {we:?}");
    let c = b.center().map(xy);
    let wc = w.map(|(a, b)| [(a[0] + b[0]) / 2.0, (a[1] + b[1]) / 2.0]);
    ensure!(c == wc, "center {c:?}, expected {wc:?}");
    // as an outline: counter-clockwise, from the lower left corner, closed
    let wh: Vec<[f64; 2]> = match w {
        None => vec![],
        Some((a, b)) => vec![a, [b[0], a[1]], b, [a[0], b[1]], a],
    };
    let h: Option<Vec<V>> = b.convex_hull();
    ensure!(h.is_some() == w.is_some(), "convex_hull of {w:?}");
    let h: Vec<[f64; 2]> = h.unwrap_or_default().into_iter().map(xy).collect();
    ensure!(h == wh, "convex_hull {h:?}, expected {wh:?}");
    let o: Vec<V> = (*b).into();
    let o: Vec<[f64; 2]> = o.into_iter().map(xy).collect();
    ensure!(o == wh, "outline {o:?}, expected {wh:?}");
    Ok(())
}

fn run<V: GenericVector2>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let g = &c.g;
    let mut b = Aabb2::<V>::default();
    let mut m = Model::<2>(None);
    let mut all: Vec<P> = vec![];
    same(g, &b, &m)?;
    for op in &c.ops {
        match op {
            Op::Point(p) => {
                b.update_with_point(g.v(*p));
                m.add(*p);
                all.push(*p);
            }
            Op::Points(p) => {
                b.update_with_points(&g.vs::<V>(p));
                m.merge(Model::of(p));
                all.extend(p);
            }
            Op::Box(p) => {
                b.update_with_aabb(Aabb2::with_points(&g.vs::<V>(p)));
                m.merge(Model::of(p));
                all.extend(p);
            }
            Op::Move(d) => {
                let u = g.unit();
                let t: V = v2(d[0] as f64 * u, d[1] as f64 * u);
                b.apply(&|p: V| p + t);
                let mv = |p: P| [p[0] + d[0], p[1] + d[1]];
                m.0 = m.0.map(|(lo, hi)| (mv(lo), mv(hi)));
                all.iter_mut().for_each(|p| *p = mv(*p));
            }
            Op::Map(mir, turn, mul) => {
                b.apply(&|p: V| {
                    let [x, y] = map_axes(xy(p), *mir, *turn, *mul);
                    v2(x, y)
                });
                let mv = |p: P| map_lattice(p, g.off, *mir, *turn, *mul);
                let w = m.0.map(|(lo, hi)| [mv(lo), mv(hi)]);
                m = Model(None);
                w.iter().flatten().for_each(|p| m.add(*p));
                all.iter_mut().for_each(|p| *p = mv(*p));
            }
            Op::With(p) => {
                b = Aabb2::with_points(&g.vs::<V>(p));
                m = Model::of(p);
                all = p.clone();
            }
            Op::Iter(p) => {
                b = g.vs::<V>(p).iter().into();
                m = Model::of(p);
                all = p.clone();
            }
            Op::New(p, q) => {
                b = Aabb2::new(g.v(*p));
                b.update_with_point(g.v(*q));
                m = Model::of(&[*p, *q]);
                all = vec![*p, *q];
            }
            Op::Clear => {
                b = Aabb2::default();
                m = Model(None);
                all.clear();
            }
        }
        same(g, &b, &m).map_err(|e| format!("after {op:?}: {e}"))?;
    }
    // queries
    let mut probes = m.probes();
    probes.extend(&c.probes);
    probes.extend(&all);
    for p in &probes {
        let got = b.contains_point_inclusive(g.v(*p));
        ensure!(got == m.has(*p), "contains_point_inclusive({p:?}) = {got} for {:?}", m.0);
    }
    for w in probes.windows(2) {
        let got = b.contains_line_inclusive(&Line2::new(g.v::<V>(w[0]), g.v(w[1])));
        ensure!(got == (m.has(w[0]) && m.has(w[1])), "contains_line_inclusive({w:?}) = {got} for {:?}", m.0);
        let got = b.contains_aabb_inclusive(&Aabb2::with_points(&g.vs::<V>(w)));
        ensure!(got == m.has_box(Model::of(w)), "contains_aabb_inclusive({w:?}) = {got} for {:?}", m.0);
    }
    let o = Aabb2::with_points(&g.vs::<V>(&c.other));
    let mo = Model::of(&c.other);
    ensure!(b.contains_aabb_inclusive(&o) == m.has_box(mo), "contains_aabb_inclusive of {:?} in {:?}", mo.0, m.0);
    ensure!((b == o) == (m == mo) && (o == b) == (m == mo), "equality of {:?} and {:?}", m.0, mo.0);
    // the order in which points arrive does not matter, nor where the list is cut
    let mut rev = all.clone();
    rev.reverse();
    let k = c.probes.len().min(all.len());
    let mut parts = Aabb2::with_points(&g.vs::<V>(&all[k..]));
    parts.update_with_aabb(Aabb2::with_points(&g.vs::<V>(&all[..k])));
    for (n, x) in [("reversed", Aabb2::with_points(&g.vs::<V>(&rev))), ("in two parts", parts), ("iterator", g.vs::<V>(&all).iter().into())] {
        same(g, &x, &m).map_err(|e| format!("{n}: {e}"))?;
        ensure!(x == b, "{n}: boxes with the same corners are not equal");
    }
    // the box of 3d points only uses their x and y
    let pts3: Vec<V::Vector3> = all
        .iter()
        .enumerate()
        .map(|(i, p)| {
            let [x, y] = g.f(*p);
            V::Vector3::new_3d(V::Scalar::of(x), V::Scalar::of(y), V::Scalar::of(i as f64))
        })
        .collect();
    let b3 = Aabb2::with_points(&pts3);
    let h: Option<Vec<V>> = b3.convex_hull();
    let h2: Option<Vec<V>> = b.convex_hull();
    ensure!(h == h2, "box of 3d points {h:?}, of 2d points {h2:?}");
    rec.label(match m.0 {
        None => "empty",
        Some((a, b)) if a == b => "point",
        Some((a, b)) if a[0] == b[0] || a[1] == b[1] => "flat",
        _ => "proper",
    });
    rec.label_if(all.len() < 2, "few-points");
    rec.nontrivial_if(m.0.is_some_and(|(a, b)| a[0] < b[0] && a[1] < b[1]) && c.ops.len() > 1);
    Ok(())
}

/// Arbitrary finite floats of any magnitude.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    ty: Ty,
    pts: Vec<[Fl; 2]>,
    ways: Vec<u8>,
}
fn run_f<V: GenericVector2>(c: &FCase, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let v: Vec<V> = c.pts.iter().map(|p| v2(p[0].0, p[1].0)).collect();
    let q: Vec<[f64; 2]> = v.iter().map(|p| xy(*p)).collect();
    let mut b = Aabb2::<V>::default();
    let mut i = 0;
    for w in &c.ways {
        let j = (i + 1 + *w as usize / 3).min(v.len());
        if i < j {
            match w % 3 {
                0 => v[i..j].iter().for_each(|p| b.update_with_point(*p)),
                1 => b.update_with_points(&v[i..j]),
                _ => b.update_with_aabb(Aabb2::with_points(&v[i..j])),
            }
        }
        i = j;
    }
    b.update_with_points(&v[i..]);
    let Some((lo, hi)) = b.min_max().map(|(a, b)| (xy(a), xy(b))) else {
        ensure!(v.is_empty(), "no box");
        return Ok(());
    };
    for k in 0..2 {
        let mn = q.iter().map(|p| p[k]).fold(f64::INFINITY, f64::min);
        let mx = q.iter().map(|p| p[k]).fold(f64::NEG_INFINITY, f64::max);
        ensure!(lo[k] == mn && hi[k] == mx, "axis {k}: {}..{}, expected {mn}..{mx}", lo[k], hi[k]);
        let c = xy(b.center().unwrap())[k];
        let want = mn / 2.0 + mx / 2.0;
        let tol = 2.0 * V::Scalar::eps() * mn.abs().max(mx.abs()) + 1e-40;
        ensure!((c - want).abs() <= tol, "center {c}, expected {want}");
        let d = xy(b.extents().unwrap().2)[k];
        ensure!((d - (mx - mn)).abs() <= tol, "delta {d}, expected {}", mx - mn);
        ensure!(c >= mn - tol && c <= mx + tol, "center {c} outside");
    }
    for p in &v {
        ensure!(b.contains_point_inclusive(*p), "{p:?} is not in its own box {lo:?} {hi:?}");
    }
    for k in 0..2 {
        // clearly outside along one axis
        let step = 64.0 * V::Scalar::eps() * (1.0 + lo[k].abs().max(hi[k].abs()));
        for (x, d) in [(lo[k], -step), (hi[k], step)] {
            let mut p = [(lo[0] / 2.0 + hi[0] / 2.0), (lo[1] / 2.0 + hi[1] / 2.0)];
            p[k] = x + d;
            ensure!(!b.contains_point_inclusive(v2(p[0], p[1])), "{p:?} is in the box {lo:?} {hi:?}");
        }
    }
    rec.nontrivial_if(v.len() > 2);
    Ok(())
}

fn op() -> BoxedStrategy<Op<P>> {
    let l = || prop_oneof![60 => lists(any_point(), 0, 12), 1 => lists(any_point(), 12, 400)];
    prop_oneof![
        4 => any_point().prop_map(Op::Point),
        4 => l().prop_map(Op::Points),
        3 => l().prop_map(Op::Box),
        1 => point(300).prop_map(Op::Move),
        1 => (0u8..4, 0u8..2, prop_oneof![3 => Just(1i8), 1 => Just(2i8), 1 => Just(0i8)]).prop_map(|(a, b, c)| Op::Map(a, b, c)),
        1 => l().prop_map(Op::With),
        1 => l().prop_map(Op::Iter),
        1 => (any_point(), any_point()).prop_map(|(a, b)| Op::New(a, b)),
        1 => Just(Op::Clear),
    ]
    .boxed()
}

fn main() {
    let mut ctx = Ctx::new(
        "P15",
        "histories of up to 80 updates (points, lists, boxes, translations, mirrorings and other mappings of the axes, restarts) on lattice points followed by queries at, just inside and just outside the limits, and arbitrary float points; non-trivial = the final box has a positive area and more than one step",
    );
    ctx.assume("coordinates are finite; values within the approximate-equality tolerance of a limit may count as inside");
    ctx.sub(
        "history",
        1_500_000,
        || {
            (grid(), prop_oneof![20 => prop::collection::vec(op(), 0..=10), 1 => prop::collection::vec(op(), 10..=80)], lists(any_point(), 0, 8), lists(any_point(), 0, 4))
                .prop_map(|(g, ops, probes, other)| Case { g, ops, probes, other })
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    let f = || {
        (-1.0f64..1.0, -20i32..=20).prop_map(|(m, e)| Fl(m * 10f64.powi(e)))
    };
    ctx.sub(
        "floats",
        1_500_000,
        || {
            (ty(), prop_oneof![30 => prop::collection::vec([f(), f()], 0..=12), 1 => prop::collection::vec([f(), f()], 0..=300)], prop::collection::vec(0u8..9, 0..6))
                .prop_map(|(ty, pts, ways)| FCase { ty, pts, ways })
        },
        |c: &FCase, rec: &mut Rec| on_ty!(c.ty, run_f(c, rec)),
    );
    ctx.finish()
}
