//! P28 Every operation returns for every finite input, however large, small or
//! degenerate, without a panic and with a result that is made of its input.
use linestring::linestring_2d::{
    self as l2, convex_hull as ch, indexed_intersection::IntersectionTester, intersection::IntersectionData,
    Aabb2, Line2, LineString2, SimpleAffine, VoronoiParabolicArc,
};
use linestring::linestring_3d::{self as l3, Aabb3, Line3, LineString3, Plane};
use pbt::gen::*;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: Ty3,
    /// the values the coordinates are picked from (rounded into the scalar)
    palette: Vec<Fl>,
    pts: Vec<[u8; 3]>,
    close: bool,
    /// picks out of the points (modulo their number)
    pick: Vec<u16>,
    value: Fl,
    k: u16,
    flags: u8,
}

fn is_sub(got: &[[u64; 3]], all: &[[u64; 3]]) -> bool {
    let mut i = 0;
    for g in got {
        match all[i..].iter().position(|a| a == g) {
            Some(k) => i += k + 1,
            None => return false,
        }
    }
    true
}

struct Pts<V3> {
    c: Vec<[f64; 3]>,
    v: Vec<V3>,
    sel: Vec<usize>,
}

fn make<V3: GenericVector3>(c: &Case) -> Pts<V3>
where
    V3::Scalar: Sc,
{
    let f = |i: u8| fit::<V3::Scalar>(c.palette[i as usize % c.palette.len()].0);
    let mut p: Vec<[f64; 3]> = c.pts.iter().map(|p| p.map(f)).collect();
    if c.close && !p.is_empty() {
        p.push(p[0]);
    }
    let v = p.iter().map(|p| v3(p[0], p[1], p[2])).collect();
    let sel = if p.is_empty() { vec![] } else { c.pick.iter().map(|i| *i as usize % p.len()).collect() };
    Pts { c: p, v, sel }
}
fn key<V: GenericVector3>(p: &[V]) -> Vec<[u64; 3]>
where
    V::Scalar: Sc,
{
    p.iter().map(|p| xyz(*p).map(f64::to_bits)).collect()
}
fn key2<V: GenericVector2>(p: &[V]) -> Vec<[u64; 3]>
where
    V::Scalar: Sc,
{
    p.iter().map(|p| [p.x().to().to_bits(), p.y().to().to_bits(), 0]).collect()
}

fn hulls<V3: GenericVector3>(c: &Case, _rec: &mut Rec) -> Result<(), String>
where
    V3::Scalar: Sc,
    V3::Vector2: 'static,
    Vec<V3::Vector2>: LineString2<V3::Vector2>,
{
    let p = make::<V3>(c);
    let v: Vec<V3::Vector2> = p.c.iter().map(|p| v2(p[0], p[1])).collect();
    let all = key2(&v);
    let rs = [
        ("graham_scan", ch::graham_scan(&v)),
        ("gift_wrap", ch::gift_wrap(&v)),
        ("convex_hull", v.convex_hull()),
    ];
    for (n, r) in rs {
        if let Ok(h) = r {
            ensure!(key2(&h).iter().all(|k| all.contains(k)), "{n}: {h:?} is not made of the input");
            ensure!(h.len() <= v.len() + 1, "{n}: {} corners out of {} points", h.len(), v.len());
        }
    }
    let rs = [
        ("indexed_graham_scan", ch::indexed_graham_scan(&v, &p.sel)),
        ("indexed_gift_wrap", ch::indexed_gift_wrap(&v, &p.sel)),
    ];
    for (n, r) in rs {
        if let Ok(h) = r {
            ensure!(h.iter().all(|k| p.sel.contains(k)), "indexed {n}: {h:?} is not made of the selection");
            ensure!(h.len() <= p.sel.len() + 1, "indexed {n}: {} corners out of {} points", h.len(), p.sel.len());
        }
    }
    let q = p.sel.iter().map(|i| v[*i]).collect::<Vec<_>>();
    let _ = ch::contains_convex_hull(&v, &q);
    if c.k % 8 == 0 {
        let _ = ch::contains_convex_hull_par(&v, &q);
    }
    for x in &q {
        let _ = (v.contains_point_inclusive(*x), v.contains_point_exclusive(*x));
        let _ = (ch::contains_point_inclusive(&v, *x), ch::contains_point_exclusive(&v, *x));
    }
    for w in q.windows(3) {
        let _ = (ch::point_orientation(w[0], w[1], w[2]), ch::cross_2d(w[0], w[1], w[2]));
        let _ = (ch::is_point_left(w[0], w[1], w[2]), ch::is_point_left_allow_collinear(w[0], w[1], w[2]));
    }
    Ok(())
}

fn simplify<V3: GenericVector3>(c: &Case, _rec: &mut Rec) -> Result<(), String>
where
    V3::Scalar: Sc,
    Vec<V3>: LineString3<V3>,
    Vec<V3::Vector2>: LineString2<V3::Vector2>,
    usize: vector_traits::num_traits::AsPrimitive<V3::Scalar>,
{
    let p = make::<V3>(c);
    let v: Vec<V3::Vector2> = p.c.iter().map(|p| v2(p[0], p[1])).collect();
    let d = V3::Scalar::of(fit::<V3::Scalar>(c.value.0.abs()));
    let n = c.k as usize % 40;
    let (a2, a3) = (key2(&v), key(&p.v));
    let ends = |n: &str, g: &[[u64; 3]], a: &[[u64; 3]], last: bool| -> Result<(), String> {
        ensure!(is_sub(g, a), "{n}: the result is no subsequence of the input");
        ensure!(g.first() == a.first(), "{n}: the first point got lost");
        ensure!(!last || g.last() == a.last(), "{n}: the last point got lost");
        Ok(())
    };
    ends("simplify_rdp 2d", &key2(&v.simplify_rdp(d)), &a2, true)?;
    ends("simplify_vw 2d", &key2(&v.simplify_vw(n)), &a2, true)?;
    ends("simplify_rdp 3d", &key(&p.v.simplify_rdp(d)), &a3, true)?;
    ends("simplify_vw 3d", &key(&p.v.simplify_vw(n)), &a3, false)?;
    let idx = |i: &[usize]| i.iter().map(|i| [*i as u64, 0, 0]).collect::<Vec<_>>();
    ends("indexed_simplify_rdp 2d", &idx(&linestring::prelude::indexed_simplify_rdp_2d(&v, &p.sel, d)), &idx(&p.sel), true)?;
    ends("indexed_simplify_rdp 3d", &idx(&linestring::prelude::indexed_simplify_rdp_3d(&p.v, &p.sel, d)), &idx(&p.sel), true)?;
    for (n, k) in [("2d", v.discretize(d).take(2000).count()), ("3d", p.v.discretize(d).take(2000).count())] {
        ensure!(k >= v.len().min(2000), "discretize {n}: {k} of {} points", v.len());
    }
    Ok(())
}

fn sweeps<V3: GenericVector3>(c: &Case, _rec: &mut Rec) -> Result<(), String>
where
    V3::Scalar: Sc,
    Vec<V3::Vector2>: LineString2<V3::Vector2>,
{
    let p = make::<V3>(c);
    let v: Vec<V3::Vector2> = p.c.iter().map(|p| v2(p[0], p[1])).collect();
    let e: Vec<(usize, usize)> = p.sel.chunks_exact(2).map(|e| (e[0], e[1])).collect();
    let (ignore, first) = (c.flags & 1 != 0, c.flags & 2 != 0);
    let d = IntersectionData::<V3::Vector2>::default()
        .with_ignore_end_point_intersections(ignore)
        .and_then(|d| d.with_stop_at_first_intersection(first))
        .and_then(|d| d.with_lines(e.iter().map(|e| Line2::new(v[e.0], v[e.1]))))
        .and_then(|d| d.compute());
    if let Ok(r) = d {
        for (q, l) in r {
            ensure!(xy(q).iter().all(|x| x.is_finite()), "an intersection at {q:?}");
            ensure!(l.iter().all(|i| *i < e.len()) && !l.is_empty(), "unknown lines {l:?} of {}", e.len());
        }
    }
    let d = IntersectionTester::<V3::Vector2>::new(v.clone())
        .with_ignore_end_point_intersections(ignore)
        .and_then(|d| d.with_stop_at_first_intersection(first))
        .and_then(|d| d.with_edges(e.iter()))
        .and_then(|d| d.compute());
    if let Ok((w, r)) = d {
        ensure!(key2(&w[..v.len().min(w.len())]) == key2(&v), "the input vertices changed");
        for (q, l) in r {
            ensure!(q < w.len() && xy(w[q]).iter().all(|x| x.is_finite()), "an intersection at vertex {q}");
            ensure!(l.iter().all(|i| *i < e.len()) && !l.is_empty(), "unknown edges {l:?} of {}", e.len());
        }
    }
    let _ = v.is_self_intersecting();
    Ok(())
}

fn queries<V3: GenericVector3>(c: &Case, _rec: &mut Rec) -> Result<(), String>
where
    V3::Scalar: Sc,
    Vec<V3>: LineString3<V3>,
    Vec<V3::Vector2>: LineString2<V3::Vector2>,
{
    let p = make::<V3>(c);
    let v: Vec<V3::Vector2> = p.c.iter().map(|p| v2(p[0], p[1])).collect();
    if v.is_empty() {
        return Ok(());
    }
    let q: Vec<V3::Vector2> = p.sel.iter().map(|i| v[*i]).collect();
    let d = V3::Scalar::of(fit::<V3::Scalar>(c.value.0));
    for w in q.chunks_exact(2) {
        let l = Line2::new(w[0], w[1]);
        let _ = v.intersection(&l);
        let _ = v.find_two_intersections(&l);
        let _ = v.find_all_intersections(&l);
        let _ = v.closest_ray_intersection(w[0], w[1]);
        let _ = l2::distance_to_line_squared_safe(w[0], w[1], v[0]);
        let _ = l2::distance_to_line_squared(w[0], w[1], v[0]);
        let _ = l2::intersect_line_point(l, v[0]);
    }
    for w in q.chunks_exact(4) {
        let (a, b) = (Line2::new(w[0], w[1]), Line2::new(w[2], w[3]));
        if let Some(x) = a.intersection_point(b) {
            let _ = (x.single(), x.closest(v[0]));
        }
    }
    // boxes and transforms
    let b2: Aabb2<V3::Vector2> = Aabb2::with_points(&v);
    let o2: Aabb2<V3::Vector2> = Aabb2::with_points(&q);
    let _ = (b2.center(), b2.extents(), b2.contains_aabb_inclusive(&o2), b2.convex_hull::<V3::Vector2>());
    ensure!(v.iter().all(|p| b2.contains_point_inclusive(*p)), "a box does not contain its own points");
    if let Ok(t) = SimpleAffine::new(&b2, &o2) {
        for x in &v {
            for r in [t.transform_ab(*x), t.transform_ba(*x)].into_iter().flatten() {
                ensure!(xy(r).iter().all(|x| x.is_finite()), "a transform gave {r:?}");
            }
        }
    }
    let b3 = Aabb3::with_points(&p.v);
    let q3: Vec<V3> = p.sel.iter().map(|i| p.v[*i]).collect();
    let _ = (b3.center(), b3.extents(), b3.contains_aabb_inclusive(&Aabb3::with_points(&q3)));
    ensure!(p.v.iter().all(|p| b3.contains_point_inclusive(*p)), "a 3d box does not contain its own points");
    let _ = (Plane::get_plane(b3), Plane::get_plane_relaxed(b3, d, 10));
    for w in q3.chunks_exact(2) {
        let _ = l3::distance_to_line_squared_safe(w[0], w[1], p.v[0]);
        let _ = l3::distance_to_line_squared(w[0], w[1], p.v[0]);
        let _ = format!("{:?}", Line3::new(w[0], w[1]));
    }
    let _ = format!("{b2:?}");
    // arcs
    for w in q.chunks_exact(5) {
        let _arc = VoronoiParabolicArc::new(Line2::new(w[0], w[1]), w[2], w[3], w[4]);
    }
    Ok(())
}

/// A handful of values: of any size, or a few representable steps apart.
fn palette() -> BoxedStrategy<Vec<Fl>> {
    let base = prop_oneof![
        3 => (-4i32..=4).prop_map(|v| v as f64),
        2 => (-30i32..=30).prop_map(|v| v as f64 * 0.1),
        2 => -1000.0..1000.0f64,
        1 => extreme_value().prop_map(|v| v.0),
    ];
    let near = prop::collection::vec((base, -3i32..=3, any::<bool>()), 1..=6).prop_map(|v| {
        let f = |(b, k, single): (f64, i32, bool)| {
            let e = if single { f32::EPSILON as f64 } else { f64::EPSILON };
            let w = b + b * e * k as f64;
            Fl(if w.is_finite() { w } else { b })
        };
        let first = v[0].0;
        v.into_iter().enumerate().map(|(i, (b, k, s))| f((if i % 2 == 1 { first } else { b }, k, s))).collect::<Vec<_>>()
    });
    prop_oneof![3 => prop::collection::vec(extreme_value(), 1..=6), 2 => near].boxed()
}

fn main() {
    let mut ctx = Ctx::new(
        "P28",
        "lists over a small palette of extreme values (zeros of both signs, subnormal, tiny, one, huge, largest), closed or not, repeated and selected at random; non-trivial = three or more points",
    );
    let cases = |max: usize| {
        (
            ty3(),
            palette(),
            prop_oneof![6 => prop::collection::vec(any::<[u8; 3]>(), 0..=8), 2 => prop::collection::vec(any::<[u8; 3]>(), 0..=max)],
            any::<bool>(),
            prop_oneof![3 => prop::collection::vec(any::<u16>(), 0..=12), 1 => prop::collection::vec(any::<u16>(), 0..=max)],
            extreme_value(),
            any::<u16>(),
            any::<u8>(),
        )
            .prop_map(|(ty, palette, pts, close, pick, value, k, flags)| Case { ty, palette, pts, close, pick, value, k, flags })
    };
    ctx.sub("hulls", 1_000_000, || cases(40), |c: &Case, rec: &mut Rec| { rec.nontrivial_if(c.pts.len() > 2); on_ty3!(c.ty, hulls(c, rec)) });
    ctx.sub("simplify", 1_000_000, || cases(40), |c: &Case, rec: &mut Rec| { rec.nontrivial_if(c.pts.len() > 2); on_ty3!(c.ty, simplify(c, rec)) });
    ctx.sub("sweeps", 1_000_000, || cases(40), |c: &Case, rec: &mut Rec| { rec.nontrivial_if(c.pts.len() > 2); on_ty3!(c.ty, sweeps(c, rec)) });
    ctx.sub("queries", 1_000_000, || cases(40), |c: &Case, rec: &mut Rec| { rec.nontrivial_if(c.pts.len() > 2); on_ty3!(c.ty, queries(c, rec)) });
    ctx.finish()
}
