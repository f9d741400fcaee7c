//! P19 Axis aligned planes: detection, and conversion between 2d and 3d.
use linestring::{
    linestring_2d::{Line2, LineString2},
    linestring_3d::{Aabb3, Line3, LineString3, Plane},
};
use pbt::gen::*;
use pbt::*;

const PLANES: [Plane; 3] = [Plane::XY, Plane::XZ, Plane::YZ];
fn flat_axis(p: Plane) -> usize {
    match p {
        Plane::XY => 2,
        Plane::XZ => 1,
        Plane::YZ => 0,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conv {
    ty: Ty3,
    pts: Vec<[Fl; 3]>,
}
fn b2<V: GenericVector2>(p: V) -> [u64; 2]
where
    V::Scalar: Sc,
{
    // -0.0 and 0.0 are the same coordinate
    xy(p).map(|x| (x + 0.0).to_bits())
}
fn b3<V: GenericVector3>(p: V) -> [u64; 3]
where
    V::Scalar: Sc,
{
    xyz(p).map(|x| (x + 0.0).to_bits())
}
fn conv<V: GenericVector3>(c: &Conv, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    V::Vector2: GenericVector2<Scalar = V::Scalar, Vector3 = V>,
{
    let p2: Vec<V::Vector2> = c.pts.iter().map(|p| v2(p[0].0, p[1].0)).collect();
    let p3: Vec<V> = c.pts.iter().map(|p| v3(p[0].0, p[1].0, p[2].0)).collect();
    let zero = 0u64;
    for pl in PLANES {
        let f = flat_axis(pl);
        // 2d -> 3d -> 2d
        let up: Vec<V> = p2.copy_to_3d(pl);
        ensure!(up.len() == p2.len(), "{pl:?}: {} points from {}", up.len(), p2.len());
        let down: Vec<V::Vector2> = up.copy_to_2d(pl);
        ensure!(down.len() == p2.len(), "{pl:?}: {} points from {}", down.len(), p2.len());
        for i in 0..p2.len() {
            let ([x, y], u) = (b2(p2[i]), b3(up[i]));
            ensure!(b2(down[i]) == [x, y], "copy {pl:?}: {:?} -> {:?} -> {:?}", p2[i], up[i], down[i]);
            let want = match pl {
                Plane::XY => [x, y, zero],
                Plane::XZ => [x, zero, y],
                // y stays y
                Plane::YZ => [zero, y, x],
            };
            ensure!(u == want, "copy_to_3d({pl:?}) of {:?} is {:?}", p2[i], up[i]);
            let u: V = pl.point_to_3d(p2[i]);
            let want = match pl {
                Plane::XY => [x, y, zero],
                Plane::XZ => [x, zero, y],
                Plane::YZ => [zero, x, y],
            };
            ensure!(b3(u) == want, "{pl:?}.point_to_3d({:?}) is {u:?}", p2[i]);
            ensure!(b2(pl.point_to_2d(u)) == [x, y], "{pl:?}.point_to: {:?} does not come back", p2[i]);
        }
        // 3d -> 2d -> 3d: the projection on the plane
        let down: Vec<V::Vector2> = p3.copy_to_2d(pl);
        let up: Vec<V> = down.copy_to_3d(pl);
        ensure!(up.len() == p3.len(), "{pl:?}: {} points from {}", up.len(), p3.len());
        for i in 0..p3.len() {
            let mut want = b3(p3[i]);
            want[f] = zero;
            ensure!(b3(up[i]) == want, "copy {pl:?}: {:?} -> {:?} -> {:?}", p3[i], down[i], up[i]);
            let d: V::Vector2 = pl.point_to_2d(p3[i]);
            let o = b3(p3[i]);
            let keep = match pl {
                Plane::XY => [o[0], o[1]],
                Plane::XZ => [o[0], o[2]],
                Plane::YZ => [o[1], o[2]],
            };
            ensure!(b2(d) == keep, "{pl:?}.point_to_2d({:?}) is {d:?}", p3[i]);
            let u: V = pl.point_to_3d(d);
            ensure!(b3(u) == want, "{pl:?}.point_to: {:?} -> {d:?} -> {u:?}", p3[i]);
        }
        // lines
        for w in p2.windows(2) {
            let l = Line2::new(w[0], w[1]);
            let u: Line3<V> = l.copy_to_3d(pl);
            let d = u.copy_to_2d(pl);
            ensure!(
                b2(d.start) == b2(w[0]) && b2(d.end) == b2(w[1]),
                "line {pl:?}: {l:?} -> {u:?} -> {d:?}"
            );
            ensure!(b3(u.start)[f] == zero && b3(u.end)[f] == zero, "line {pl:?}: {l:?} -> {u:?} leaves the plane");
        }
        for w in p3.windows(2) {
            let l = Line3::new(w[0], w[1]);
            let d: Line2<V::Vector2> = l.copy_to_2d(pl);
            let u: Line3<V> = d.copy_to_3d(pl);
            let (mut s, mut e) = (b3(w[0]), b3(w[1]));
            (s[f], e[f]) = (zero, zero);
            ensure!(b3(u.start) == s && b3(u.end) == e, "line {pl:?}: {l:?} -> {d:?} -> {u:?}");
        }
    }
    rec.nontrivial_if(p3.len() > 1);
    Ok(())
}

/// How far a box extends along an axis, relative to the widest axis and to the
/// tolerance of the detection.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Ext {
    Zero,
    /// below the tolerance
    Tiny,
    /// above the tolerance
    Small,
    Big,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Detect {
    ty: Ty3,
    ext: [Ext; 3],
    frac: [Fl; 3],
    org: [Fl; 3],
    /// exponent of the tolerance; None: the default detection
    tol: Option<i8>,
    size: i8,
    /// points inside of the box, 0..1
    ins: Vec<[Fl; 3]>,
    empty: bool,
}
fn detect<V: GenericVector3>(c: &Detect, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    V::Vector2: GenericVector2<Scalar = V::Scalar, Vector3 = V>,
{
    let eps = V::Scalar::eps();
    let tol = c.tol.map_or(eps, |t| 10f64.powi(t as i32).max(eps));
    let size = 10f64.powi(c.size as i32);
    let d: [f64; 3] = [0, 1, 2].map(|i| {
        size * match c.ext[i] {
            Ext::Zero => 0.0,
            Ext::Tiny => tol * 0.9 * c.frac[i].0,
            Ext::Small => tol * (4.0 + 40.0 * c.frac[i].0),
            Ext::Big => 0.5 + c.frac[i].0 / 2.0,
        }
    });
    // along axes with tiny extents the box starts at zero or all precision is lost
    let o: [f64; 3] = [0, 1, 2].map(|i| match c.ext[i] {
        Ext::Zero | Ext::Big => c.org[i].0 * size,
        _ => 0.0,
    });
    let mut pts: Vec<V> = vec![];
    if !c.empty {
        pts.push(v3(o[0], o[1], o[2]));
        pts.extend(c.ins.iter().map(|r| {
            let p = [0, 1, 2].map(|i| o[i] + d[i] * r[i].0);
            v3::<V>(p[0], p[1], p[2])
        }));
        pts.push(v3(o[0] + d[0], o[1] + d[1], o[2] + d[2]));
    }
    let b = Aabb3::with_points(&pts);
    let got = match c.tol {
        Some(_) => Plane::get_plane_relaxed(b, V::Scalar::of(tol), 4),
        None => Plane::get_plane(b),
    };
    let q: Vec<[f64; 3]> = pts.iter().map(|p| xyz(*p)).collect();
    let e: [f64; 3] = [0, 1, 2].map(|i| {
        let f = |m: fn(f64, f64) -> f64, z: f64| q.iter().map(|p| p[i]).fold(z, m);
        if q.is_empty() { 0.0 } else { f(f64::max, f64::NEG_INFINITY) - f(f64::min, f64::INFINITY) }
    });
    let big = e[0].max(e[1]).max(e[2]);
    // ratios within rounding of the tolerance: not decided
    if big > 0.0 && e.iter().any(|x| ((x / big) / tol - 1.0).abs() < 0.05) {
        rec.label("undecided");
        return Ok(());
    }
    let flat: Vec<usize> = (0..3).filter(|i| big > 0.0 && e[*i] / big < tol).collect();
    let want = if flat.len() == 1 { Some([Plane::YZ, Plane::XZ, Plane::XY][flat[0]]) } else { None };
    ensure!(got == want, "extents {e:?} with tolerance {tol:e}: {got:?}, expected {want:?}");
    if let Some(pl) = got {
        // what is flat survives the way to 2d and back, but for the position along the flat axis
        let f = flat_axis(pl);
        let down: Vec<V::Vector2> = pts.copy_to_2d(pl);
        let up: Vec<V> = down.copy_to_3d(pl);
        for (a, b) in pts.iter().zip(&up) {
            let (mut x, y) = (b3(*a), b3(*b));
            x[f] = 0;
            ensure!(x == y, "{pl:?}: {a:?} came back as {b:?}");
        }
    }
    rec.label(match got {
        Some(Plane::XY) => "xy",
        Some(Plane::XZ) => "xz",
        Some(Plane::YZ) => "yz",
        None if pts.is_empty() => "empty",
        None if flat.is_empty() => "no-flat-axis",
        None => "too-flat",
    });
    rec.nontrivial_if(c.ext.iter().any(|e| *e != Ext::Zero && *e != Ext::Big) || got.is_some());
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new(
        "P19",
        "arbitrary float points converted over every plane both ways; boxes whose extents are zero, below, above or far above the tolerance along each axis; non-trivial = more than one point / a plane was detected or a ratio near the tolerance is involved",
    );
    ctx.assume("coordinates are finite; extents within 5% of the tolerance are not judged; which of the two axes of the YZ plane becomes x is only claimed per interface (linestring: y stays y; Plane: order kept; line: round trip only)");
    let fl = || {
        prop_oneof![
            4 => (-5i32..=5).prop_map(|x| Fl(x as f64)),
            1 => Just(Fl(-0.0)),
            3 => (-1.0f64..1.0, -30i32..=30).prop_map(|(m, e)| Fl(m * 10f64.powi(e))),
        ]
    };
    ctx.sub(
        "convert",
        2_000_000,
        || (ty3(), prop_oneof![100 => prop::collection::vec([fl(), fl(), fl()], 0..=6), 1 => prop::collection::vec([fl(), fl(), fl()], 0..=300)]).prop_map(|(ty, pts)| Conv { ty, pts }),
        |c: &Conv, rec: &mut Rec| on_ty3!(c.ty, conv(c, rec)),
    );
    let ext = || prop_oneof![3 => Just(Ext::Zero), 2 => Just(Ext::Tiny), 2 => Just(Ext::Small), 5 => Just(Ext::Big)];
    let fr = || (0.0f64..1.0).prop_map(Fl);
    ctx.sub(
        "detect",
        3_000_000,
        || {
            (
                (ty3(), [ext(), ext(), ext()], [fr(), fr(), fr()]),
                [fl(), fl(), fl()].prop_map(|o| o.map(|f| Fl(f.0.clamp(-100.0, 100.0)))),
                prop_oneof![2 => Just(None), 3 => (-6i8..=-1).prop_map(Some)],
                -4i8..=4,
                prop::collection::vec([fr(), fr(), fr()], 0..4),
                prop::bool::weighted(0.01),
            )
                .prop_map(|((ty, ext, frac), org, tol, size, ins, empty)| Detect { ty, ext, frac, org, tol, size, ins, empty })
        },
        |c: &Detect, rec: &mut Rec| on_ty3!(c.ty, detect(c, rec)),
    );
    ctx.finish()
}
