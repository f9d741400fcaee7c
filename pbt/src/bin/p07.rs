//! P07 convex hulls (Graham scan, gift wrapping, direct and indexed).
use linestring::linestring_2d::convex_hull as ch;
use linestring::linestring_2d::LineString2;
use linestring::LinestringError;
use pbt::exact::P;
use pbt::gen::*;
use pbt::hulls::*;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    g: Grid,
    pts: Vec<P>,
}
fn classify(pts: &[P], rec: &mut Rec) {
    let h = pbt::exact::hull(pts);
    rec.label(match h.len() {
        0 => "empty",
        1 => "one-point",
        2 => "collinear",
        3 => "triangle",
        4..=8 => "hull4-8",
        _ => "hull9+",
    });
    let mut s = pts.to_vec();
    s.sort();
    s.dedup();
    rec.label_if(s.len() < pts.len(), "duplicates");
    rec.nontrivial_if(h.len() >= 3 && pts.len() > h.len());
}

fn direct<V: GenericVector2>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let v: Vec<V> = c.g.vs(&c.pts);
    type R<V> = Result<Vec<V>, LinestringError>;
    let fs: [(&str, fn(&Vec<V>) -> R<V>); 4] = [
        ("graham_scan", |v| ch::graham_scan(v)),
        ("graham_scan_wo_atan2", |v| old_graham(v)),
        ("gift_wrap", |v| ch::gift_wrap(v)),
        ("convex_hull", |v| v.convex_hull()),
    ];
    for (name, f) in fs {
        let r = f(&v).map_err(|e| format!("{name}: {e}"))?;
        let back: Option<Vec<P>> = r.iter().map(|p| c.g.back(*p)).collect();
        let Some(back) = back else {
            return Err(format!("{name}: a hull vertex is not an input vertex"));
        };
        judge(&c.pts, &back).map_err(|e| format!("{name}: {e}"))?;
    }
    classify(&c.pts, rec);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ICase {
    g: Grid,
    pts: Vec<P>,
    /// raw picks, taken modulo the number of vertices
    idx: Vec<u16>,
}
fn indexed<V: GenericVector2>(c: &ICase, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let v: Vec<V> = c.g.vs(&c.pts);
    let idx = indices(&c.pts, &c.idx);
    let sel: Vec<P> = idx.iter().map(|i| c.pts[*i]).collect();
    type R = Result<Vec<usize>, LinestringError>;
    let fs: [(&str, fn(&[V], &[usize]) -> R); 2] = [
        ("indexed_graham_scan", |v, i| ch::indexed_graham_scan(v, i)),
        ("indexed_gift_wrap", |v, i| ch::indexed_gift_wrap(v, i)),
    ];
    for (name, f) in fs {
        let r = f(&v, &idx).map_err(|e| format!("{name}: {e}"))?;
        if let Some(bad) = r.iter().find(|i| !idx.contains(i)) {
            return Err(format!("{name}: index {bad} is not among the selected indices"));
        }
        let back: Vec<P> = r.iter().map(|i| c.pts[*i]).collect();
        judge(&sel, &back).map_err(|e| format!("{name}: {e}"))?;
        ensure!(
            r.len() < 2 || r.first() == r.last(),
            "{name}: index list not closed"
        );
    }
    // the variant which leaves the list open, its start given or looked up
    let lowest = idx.iter().copied().min_by_key(|i| c.pts[*i]);
    for start in [None, lowest] {
        let name = format!("indexed_graham_scan_no_loop({start:?})");
        let mut r = ch::indexed_graham_scan_no_loop(&v, &idx, start).map_err(|e| format!("{name}: {e}"))?;
        if let Some(bad) = r.iter().find(|i| !idx.contains(i)) {
            return Err(format!("{name}: index {bad} is not among the selected indices"));
        }
        if r.len() > 1 {
            if let Some(l) = start {
                ensure!(c.pts[r[0]] == c.pts[l], "{name}: starts with {}", r[0]);
            }
            r.push(r[0]);
        }
        let back: Vec<P> = r.iter().map(|i| c.pts[*i]).collect();
        judge(&sel, &back).map_err(|e| format!("{name}: {e}"))?;
    }
    classify(&sel, rec);
    rec.label_if(idx.len() < c.pts.len(), "subset");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    ty: Ty,
    pts: Vec<[Fl; 2]>,
    chunk: u8,
}
/// Arbitrary floats. The result is always a closed list of input points. In
/// general position (no three distinct points are collinear within the
/// accuracy of the cross product) it is exactly the convex hull; rounding of
/// almost collinear points is left out, see the known findings.
fn floats<V: GenericVector2>(c: &FCase, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let v: Vec<V> = c.pts.iter().map(|p| v2(p[0].0, p[1].0)).collect();
    let q: Vec<[f64; 2]> = v.iter().map(|p| xy(*p)).collect();
    let hull = clear_hull(&q, V::Scalar::eps());
    let idx: Vec<usize> = (0..v.len()).collect();
    let at = |r: Vec<usize>| r.into_iter().map(|i| v[i]).collect::<Vec<V>>();
    type R<V> = Result<Vec<V>, LinestringError>;
    let fs: [(&str, &dyn Fn() -> R<V>); 6] = [
        ("graham_scan", &|| ch::graham_scan(&v)),
        ("gift_wrap", &|| ch::gift_wrap(&v)),
        ("convex_hull", &|| v.convex_hull()),
        ("indexed_graham_scan", &|| ch::indexed_graham_scan(&v, &idx).map(at)),
        ("indexed_gift_wrap", &|| ch::indexed_gift_wrap(&v, &idx).map(at)),
        ("convex_hull_par", &|| v.convex_hull_par(c.chunk as usize)),
    ];
    for (name, f) in fs {
        if hull.is_none() && name == "convex_hull_par" {
            // P08 judges these, one at a time: endless merging of partial hulls takes all memory
            continue;
        }
        let r: Vec<[f64; 2]> = f().map_err(|e| format!("{name}: {e}"))?.iter().map(|p| xy(*p)).collect();
        for p in &r {
            ensure!(q.contains(p), "{name}: {p:?} is no input point");
        }
        ensure!(!r.is_empty() && (r.len() == 1 || r[0] == r[r.len() - 1]), "{name}: not closed {r:?}");
        let Some(h) = &hull else { continue };
        if h.len() == 1 {
            ensure!(r.len() <= 2 && r.iter().all(|p| *p == h[0]), "{name}: {r:?} is the hull of one point");
            continue;
        }
        let mut open = r[..r.len() - 1].to_vec();
        ensure!(open.len() == h.len(), "{name}: hull {r:?}, exact hull is {h:?}");
        match open.iter().position(|p| *p == h[0]) {
            Some(k) => open.rotate_left(k),
            None => return Err(format!("{name}: hull {r:?} misses {:?}", h[0])),
        }
        ensure!(open == *h, "{name}: hull {r:?}, exact hull is {h:?}");
    }
    match &hull {
        None => rec.label("almost collinear"),
        Some(h) => {
            rec.label(match h.len() {
                1 | 2 => "flat",
                3 => "triangle",
                _ => "hull4+",
            });
            rec.nontrivial_if(h.len() >= 3 && q.len() > h.len());
        }
    }
    Ok(())
}
fn main() {
    let mut ctx = Ctx::new(
        "P07",
        "lattice point clouds (tiny grids, collinear, near-collinear, circular, square borders, walks; with duplicates and closed loops) and index selections; non-trivial = at least 3 hull corners and at least one point that is not a corner",
    );
    ctx.assume("lattice coordinates up to 300 (+offset 300), scaled by powers of two: all orientation tests are exact in f32 and f64; Graham's angles of distinct directions are distinct");
    ctx.show_finding("wo_atan2_rounding", || {
        let s = 1.0 / 100.0f32;
        let (mut p, mut dx, mut v) = (G2f::new(0.0, 0.0), s, vec![]);
        for _ in 0..100 {
            for _ in 0..100 {
                v.push(p);
                p.x += dx;
            }
            v.push(p);
            dx *= -1.0;
            p.y += s;
        }
        old_graham(&v).is_err()
    });
    ctx.show_finding("almost_collinear", || {
        // the farthest point is missing from each of the hulls
        let far32 = G2f::new(3.83413, 7.36105);
        let v32 = vec![G2f::new(-3.26617, -4.41877), far32, G2f::new(0.0, 1.0)];
        let far = G2d::new(2.9927109835277683, 4.962361875212782);
        let v64 = vec![G2d::new(-0.0, 1.0), far, G2d::new(-3.839861177897367, -4.083992280295315)];
        !ch::graham_scan(&v32).unwrap().contains(&far32) || !ch::gift_wrap(&v64).unwrap().contains(&far)
    });
    ctx.sub(
        "direct",
        1_200_000,
        || (grid(), maybe_closed(points(0, 40))).prop_map(|(g, pts)| Case { g, pts }),
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, direct(c, rec)),
    );
    ctx.sub(
        "direct_big",
        80_000,
        || (grid(), maybe_closed(points(50, 400))).prop_map(|(g, pts)| Case { g, pts }),
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, direct(c, rec)),
    );
    ctx.sub(
        "direct_huge",
        2_000,
        || (grid(), maybe_closed(points(400, 4000))).prop_map(|(g, pts)| Case { g, pts }),
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, direct(c, rec)),
    );
    ctx.sub(
        "indexed",
        1_200_000,
        || (grid(), points(1, 40), index_picks(60)).prop_map(|(g, pts, idx)| ICase { g, pts, idx }),
        |c: &ICase, rec: &mut Rec| on_ty!(c.g.ty, indexed(c, rec)),
    );
    ctx.sub(
        "indexed_big",
        60_000,
        || (grid(), points(50, 400), index_picks(500)).prop_map(|(g, pts, idx)| ICase { g, pts, idx }),
        |c: &ICase, rec: &mut Rec| on_ty!(c.g.ty, indexed(c, rec)),
    );
    ctx.sub(
        "far",
        200_000,
        || (grid_far(), maybe_closed(points(0, 40))).prop_map(|(g, pts)| Case { g, pts }),
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, direct(c, rec)),
    );
    ctx.sub(
        "indexed_far",
        200_000,
        || (grid_far(), points(1, 40), index_picks(60)).prop_map(|(g, pts, idx)| ICase { g, pts, idx }),
        |c: &ICase, rec: &mut Rec| on_ty!(c.g.ty, indexed(c, rec)),
    );
    ctx.sub(
        "warped",
        300_000,
        || (grid_wide(), warp(1000, 6), maybe_closed(points(0, 40))).prop_map(|(g, w, pts)| Case { g, pts: w.ps(&pts) }),
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, direct(c, rec)),
    );
    ctx.sub(
        "indexed_warped",
        300_000,
        || (grid_wide(), warp(1000, 6), points(1, 40), index_picks(60)).prop_map(|(g, w, pts, idx)| ICase { g, pts: w.ps(&pts), idx }),
        |c: &ICase, rec: &mut Rec| on_ty!(c.g.ty, indexed(c, rec)),
    );
    ctx.sub(
        "floats",
        600_000,
        || (ty(), float_clouds(), 2u8..=20).prop_map(|(ty, pts, chunk)| FCase { ty, pts, chunk }),
        |c: &FCase, rec: &mut Rec| on_ty!(c.ty, floats(c, rec)),
    );
    ctx.finish()
}

#[allow(deprecated)]
fn old_graham<V: GenericVector2>(v: &[V]) -> Result<Vec<V>, LinestringError> {
    ch::graham_scan_wo_atan2(v)
}
