//! P16 Three dimensional bounding boxes.
use linestring::linestring_3d::{Aabb3, Line3};
use pbt::aabb::*;
use pbt::gen::*;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    g: Grid3,
    ops: Vec<Op<P3>>,
    probes: Vec<P3>,
    other: Vec<P3>,
}

fn same<V: GenericVector3>(g: &Grid3, b: &Aabb3<V>, m: &Model<3>) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let w = m.0.map(|(a, b)| (g.f(a), g.f(b)));
    ensure!(b.get_low().map(xyz) == w.map(|w| w.0), "low {:?}, expected {w:?}", b.get_low());
    ensure!(b.get_high().map(xyz) == w.map(|w| w.1), "high {:?}, expected {w:?}", b.get_high());
    let ext = b.extents().map(|(a, b, c)| (xyz(a), xyz(b), xyz(c)));
    let we = w.map(|(a, b)| (a, b, [b[0] - a[0], b[1] - a[1], b[2] - a[2]]));
    ensure!(ext == we, "extents {ext:?}, expected {we:?}");
    let c = b.center().map(xyz);
    let wc = w.map(|(a, b)| [0, 1, 2].map(|i| (a[i] + b[i]) / 2.0));
    ensure!(c == wc, "center {c:?}, expected {wc:?}");
    Ok(())
}

fn corners<V: GenericVector3>(g: &Grid3, m: &Model<3>, form: usize) -> Aabb3<V>
where
    V::Scalar: Sc,
{
    let Some((lo, hi)) = m.0 else { return Aabb3::default() };
    if form == 0 {
        let (a, b) = (g.f(lo), g.f(hi));
        let s = |x: f64| V::Scalar::of(x);
        [s(a[0]), s(a[1]), s(a[2]), s(b[0]), s(b[1]), s(b[2])].into()
    } else {
        let a: [V; 2] = [g.v(lo), g.v(hi)];
        a.into()
    }
}

fn run<V: GenericVector3>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let g = &c.g;
    let mut b = Aabb3::<V>::default();
    let mut m = Model::<3>(None);
    let mut all: Vec<P3> = vec![];
    same(g, &b, &m)?;
    for op in &c.ops {
        match op {
            Op::Point(p) => {
                b.update_with_point(g.v(*p));
                m.add(*p);
                all.push(*p);
            }
            Op::Points(p) => {
                b.update_with_points(&g.vs::<V>(p));
                m.merge(Model::of(p));
                all.extend(p);
            }
            Op::Box(p) => {
                b.update_with_aabb(Aabb3::with_points(&g.vs::<V>(p)));
                m.merge(Model::of(p));
                all.extend(p);
            }
            Op::Move(d) => {
                let u = g.unit();
                let t: V = v3(d[0] as f64 * u, d[1] as f64 * u, d[2] as f64 * u);
                b.apply(&|p: V| p + t);
                let mv = |p: P3| [p[0] + d[0], p[1] + d[1], p[2] + d[2]];
                m.0 = m.0.map(|(lo, hi)| (mv(lo), mv(hi)));
                all.iter_mut().for_each(|p| *p = mv(*p));
            }
            Op::Map(mir, turn, mul) => {
                b.apply(&|p: V| {
                    let [x, y, z] = map_axes(xyz(p), *mir, *turn, *mul);
                    v3(x, y, z)
                });
                let mv = |p: P3| map_lattice(p, g.off, *mir, *turn, *mul);
                let w = m.0.map(|(lo, hi)| [mv(lo), mv(hi)]);
                m = Model(None);
                w.iter().flatten().for_each(|p| m.add(*p));
                all.iter_mut().for_each(|p| *p = mv(*p));
            }
            Op::With(p) | Op::Iter(p) => {
                b = Aabb3::with_points(&g.vs::<V>(p));
                m = Model::of(p);
                all = p.clone();
            }
            Op::New(p, q) => {
                m = Model::of(&[*p, *q]);
                b = corners(g, &m, (p[0] & 1) as usize);
                all = vec![*p, *q];
            }
            Op::Clear => {
                b = Aabb3::default();
                m = Model(None);
                all.clear();
            }
        }
        same(g, &b, &m).map_err(|e| format!("after {op:?}: {e}"))?;
    }
    let mut probes = m.probes();
    probes.extend(&c.probes);
    probes.extend(&all);
    for p in &probes {
        let got = b.contains_point_inclusive(g.v(*p));
        ensure!(got == m.has(*p), "contains_point_inclusive({p:?}) = {got} for {:?}", m.0);
    }
    for w in probes.windows(2) {
        let got = b.contains_line_inclusive(&Line3::new(g.v::<V>(w[0]), g.v(w[1])));
        ensure!(got == (m.has(w[0]) && m.has(w[1])), "contains_line_inclusive({w:?}) = {got} for {:?}", m.0);
        let got = b.contains_aabb_inclusive(&Aabb3::with_points(&g.vs::<V>(w)));
        ensure!(got == m.has_box(Model::of(w)), "contains_aabb_inclusive({w:?}) = {got} for {:?}", m.0);
    }
    let o = Aabb3::with_points(&g.vs::<V>(&c.other));
    let mo = Model::of(&c.other);
    ensure!(b.contains_aabb_inclusive(&o) == m.has_box(mo), "contains_aabb_inclusive of {:?} in {:?}", mo.0, m.0);
    ensure!((b == o) == (m == mo) && (o == b) == (m == mo), "equality of {:?} and {:?}", m.0, mo.0);
    let mut rev = all.clone();
    rev.reverse();
    let k = c.probes.len().min(all.len());
    let mut parts = Aabb3::with_points(&g.vs::<V>(&all[k..]));
    parts.update_with_aabb(Aabb3::with_points(&g.vs::<V>(&all[..k])));
    for (n, x) in [
        ("reversed", Aabb3::with_points(&g.vs::<V>(&rev))),
        ("in two parts", parts),
        ("from six numbers", corners(g, &m, 0)),
        ("from two corners", corners(g, &m, 1)),
    ] {
        same(g, &x, &m).map_err(|e| format!("{n}: {e}"))?;
        ensure!(x == b, "{n}: boxes with the same corners are not equal");
    }
    rec.label(match m.0 {
        None => "empty",
        Some((a, b)) => match (0..3).filter(|i| a[*i] == b[*i]).count() {
            3 => "point",
            2 => "segment",
            1 => "flat",
            _ => "proper",
        },
    });
    rec.label_if(all.len() < 2, "few-points");
    rec.nontrivial_if(m.0.is_some_and(|(a, b)| (0..3).all(|i| a[i] < b[i])) && c.ops.len() > 1);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    ty: Ty3,
    pts: Vec<[Fl; 3]>,
    ways: Vec<u8>,
}
fn run_f<V: GenericVector3>(c: &FCase, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let v: Vec<V> = c.pts.iter().map(|p| v3(p[0].0, p[1].0, p[2].0)).collect();
    let q: Vec<[f64; 3]> = v.iter().map(|p| xyz(*p)).collect();
    let mut b = Aabb3::<V>::default();
    let mut i = 0;
    for w in &c.ways {
        let j = (i + 1 + *w as usize / 3).min(v.len());
        if i < j {
            match w % 3 {
                0 => v[i..j].iter().for_each(|p| b.update_with_point(*p)),
                1 => b.update_with_points(&v[i..j]),
                _ => b.update_with_aabb(Aabb3::with_points(&v[i..j])),
            }
        }
        i = j;
    }
    b.update_with_points(&v[i..]);
    let (Some(lo), Some(hi)) = (b.get_low().map(xyz), b.get_high().map(xyz)) else {
        ensure!(v.is_empty(), "no box");
        return Ok(());
    };
    for k in 0..3 {
        let mn = q.iter().map(|p| p[k]).fold(f64::INFINITY, f64::min);
        let mx = q.iter().map(|p| p[k]).fold(f64::NEG_INFINITY, f64::max);
        ensure!(lo[k] == mn && hi[k] == mx, "axis {k}: {}..{}, expected {mn}..{mx}", lo[k], hi[k]);
        let c = xyz(b.center().unwrap())[k];
        let want = mn / 2.0 + mx / 2.0;
        let tol = 2.0 * V::Scalar::eps() * mn.abs().max(mx.abs()) + 1e-40;
        ensure!((c - want).abs() <= tol, "center {c}, expected {want}");
        let d = xyz(b.extents().unwrap().2)[k];
        ensure!((d - (mx - mn)).abs() <= tol, "delta {d}, expected {}", mx - mn);
    }
    for p in &v {
        ensure!(b.contains_point_inclusive(*p), "{p:?} is not in its own box {lo:?} {hi:?}");
    }
    for k in 0..3 {
        let step = 64.0 * V::Scalar::eps() * (1.0 + lo[k].abs().max(hi[k].abs()));
        for (x, d) in [(lo[k], -step), (hi[k], step)] {
            let mut p = [0, 1, 2].map(|i| lo[i] / 2.0 + hi[i] / 2.0);
            p[k] = x + d;
            ensure!(!b.contains_point_inclusive(v3(p[0], p[1], p[2])), "{p:?} is in the box {lo:?} {hi:?}");
        }
    }
    rec.nontrivial_if(v.len() > 2);
    Ok(())
}

fn p3() -> impl Strategy<Value = P3> + Clone {
    (any_point(), prop_oneof![Just(0i64), -2i64..=2, -5i64..=5, -300i64..=300]).prop_map(|(p, z)| [p[0], p[1], z])
}
fn op() -> BoxedStrategy<Op<P3>> {
    let l = || prop_oneof![60 => lists(p3(), 0, 12), 1 => lists(p3(), 12, 400)];
    prop_oneof![
        4 => p3().prop_map(Op::Point),
        4 => l().prop_map(Op::Points),
        3 => l().prop_map(Op::Box),
        1 => p3().prop_map(Op::Move),
        1 => (0u8..8, 0u8..3, prop_oneof![3 => Just(1i8), 1 => Just(2i8), 1 => Just(0i8)]).prop_map(|(a, b, c)| Op::Map(a, b, c)),
        1 => l().prop_map(Op::With),
        1 => (p3(), p3()).prop_map(|(a, b)| Op::New(a, b)),
        1 => Just(Op::Clear),
    ]
    .boxed()
}

fn main() {
    let mut ctx = Ctx::new(
        "P16",
        "histories of up to 80 updates (points, lists, boxes, translations, mirrorings and other mappings of the axes, restarts) on lattice points followed by queries at, just inside and just outside the limits, and arbitrary float points; non-trivial = the final box has a positive volume and more than one step",
    );
    ctx.assume("coordinates are finite; values within the approximate-equality tolerance of a limit may count as inside; boxes built from two corners are given the lower corner first");
    ctx.sub(
        "history",
        1_500_000,
        || {
            (grid3(), prop_oneof![20 => prop::collection::vec(op(), 0..=10), 1 => prop::collection::vec(op(), 10..=80)], lists(p3(), 0, 8), lists(p3(), 0, 4))
                .prop_map(|(g, ops, probes, other)| Case { g, ops, probes, other })
        },
        |c: &Case, rec: &mut Rec| on_ty3!(c.g.ty, run(c, rec)),
    );
    let f = || (-1.0f64..1.0, -20i32..=20).prop_map(|(m, e)| Fl(m * 10f64.powi(e)));
    ctx.sub(
        "floats",
        1_500_000,
        || {
            (ty3(), prop_oneof![30 => prop::collection::vec([f(), f(), f()], 0..=12), 1 => prop::collection::vec([f(), f(), f()], 0..=300)], prop::collection::vec(0u8..9, 0..6))
                .prop_map(|(ty, pts, ways)| FCase { ty, pts, ways })
        },
        |c: &FCase, rec: &mut Rec| on_ty3!(c.ty, run_f(c, rec)),
    );
    ctx.finish()
}
