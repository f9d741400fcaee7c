//! P21 Sampling of parabolic Voronoi arcs.
use linestring::linestring_2d::{Line2, VoronoiParabolicArc};
use pbt::gen::*;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: Ty,
    /// segment
    a: [Fl; 2],
    b: [Fl; 2],
    /// the cell point: position along the segment (0..1), distance in segment lengths
    cx: Fl,
    ch: Fl,
    /// the ends of the arc along the segment, 0..1
    s: Fl,
    e: Fl,
    /// largest deviation in segment lengths
    dist: Fl,
    /// 1: start == end, 2: cell point on the segment
    degenerate: u8,
    /// everything times this power of ten
    scale: i8,
}
type F2 = [f64; 2];
fn len(a: F2, b: F2) -> f64 {
    ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2)).sqrt()
}

struct Arc {
    a: F2,
    u: F2,
    x0: f64,
    h: f64,
    max: f64,
    tol: f64,
}
impl Arc {
    fn y(&self, x: f64) -> f64 {
        ((x - self.x0).powi(2) + self.h * self.h) / (2.0 * self.h)
    }
    fn at(&self, x: f64) -> F2 {
        let y = self.y(x);
        [self.a[0] + self.u[0] * x - self.u[1] * y, self.a[1] + self.u[1] * x + self.u[0] * y]
    }
    /// largest distance between the arc x0..x1 and its chord
    fn dev(&self, x0: f64, x1: f64) -> f64 {
        let (dx, dy) = (x1 - x0, self.y(x1) - self.y(x0));
        (dx * dx / (8.0 * self.h)).abs() * dx.abs() / (dx * dx + dy * dy).sqrt()
    }
    /// the samples out[i0..=i1] are a valid subdivision of x0..x1
    fn judge(&self, out: &[F2], i0: usize, i1: usize, x0: f64, x1: f64, depth: u32) -> Result<(), String> {
        let d = self.dev(x0, x1);
        if i1 == i0 + 1 {
            return if d > self.max + self.tol {
                Err(format!("between samples {i0} and {i1} the arc deviates by {d:e}, more than {:e}", self.max))
            } else {
                Ok(())
            };
        }
        if d < self.max - self.tol {
            return Err(format!("samples {i0}..{i1} of an arc which only deviates by {d:e}, less than {:e}", self.max));
        }
        if depth > 60 {
            return Err("too deep".into());
        }
        let xm = (x0 + x1) / 2.0;
        let m = self.at(xm);
        // the sample closest to where the deviation is largest
        let k = (i0 + 1..i1).min_by(|i, j| len(out[*i], m).total_cmp(&len(out[*j], m))).unwrap();
        if len(out[k], m) > self.tol {
            return Err(format!("no sample at {m:?} where the deviation is largest, the closest is {:?}", out[k]));
        }
        self.judge(out, i0, k, x0, xm, depth + 1)?;
        self.judge(out, k, i1, xm, x1, depth + 1)
    }
}

fn run<V: GenericVector2>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    V::Vector3: GenericVector3<Scalar = V::Scalar>,
{
    let eps = V::Scalar::eps();
    let mk = |p: F2| v2::<V>(p[0], p[1]);
    let unit = 10f64.powi(c.scale as i32);
    let (va, vb) = (mk(c.a.map(|x| x.0 * unit)), mk(c.b.map(|x| x.0 * unit)));
    let (a, b) = (xy(va), xy(vb));
    let l = len(a, b);
    if !(l > 0.1 * unit) {
        rec.label("short-segment");
        return Ok(());
    }
    let u = [(b[0] - a[0]) / l, (b[1] - a[1]) / l];
    let on = |x: f64, y: f64| [a[0] + u[0] * x - u[1] * y, a[1] + u[1] * x + u[0] * y];
    let h = if c.degenerate == 2 { 0.0 } else { c.ch.0 * l };
    let cell: V = match c.degenerate {
        // an end point of the segment
        2 if c.cx.0 < 0.5 => va,
        2 => vb,
        _ => mk(on(c.cx.0 * l, h)),
    };
    let local = |p: F2| {
        let d = [p[0] - a[0], p[1] - a[1]];
        [d[0] * u[0] + d[1] * u[1], d[1] * u[0] - d[0] * u[1]]
    };
    let [x0, h] = local(xy(cell));
    let mut arc = Arc { a, u, x0, h, max: 0.0, tol: 0.0 };
    let (mut s, mut e): (V, V);
    if c.degenerate == 2 {
        // the bisector is the perpendicular line through the cell point; take any points
        (s, e) = (cell, mk(on(x0, l * c.s.0)));
    } else {
        (s, e) = (mk(arc.at(c.s.0 * l)), mk(arc.at(c.e.0 * l)));
        if c.degenerate == 1 {
            e = s;
        }
    }
    if c.degenerate == 3 {
        std::mem::swap(&mut s, &mut e);
    }
    let (xs, xe) = (local(xy(s))[0], local(xy(e))[0]);
    let big = [a, b, xy(cell), xy(s), xy(e)].iter().flatten().fold(0.0f64, |m, x| m.max(x.abs())) + l;
    let amp = 1.0 + (xs - x0).abs().max((xe - x0).abs()).powi(2) / (h * h);
    arc.tol = 48.0 * eps * big * amp;
    let max = V::Scalar::of(c.dist.0 * l);
    arc.max = max.to();
    let pa = VoronoiParabolicArc::new(Line2::new(va, vb), cell, s, e);
    if c.degenerate != 1 && c.degenerate != 2 && (arc.max < 20.0 * arc.tol || (xs - xe).abs() < 20.0 * arc.tol) {
        // only the ends are judged, and that sampling ends
        rec.label("below-precision");
        let d2: Vec<[f64; 2]> = pa.discretize_2d(max).iter().map(|p| xy(*p)).collect();
        let d3: Vec<[f64; 3]> = pa.discretize_3d(max).iter().map(|p| xyz(*p)).collect();
        let ends = [xy(s), xy(e)];
        ensure!(d2.len() >= 2 && [d2[0], d2[d2.len() - 1]] == ends, "2d end points: {d2:?}");
        let n = d3.len();
        ensure!(n >= 2 && [[d3[0][0], d3[0][1]], [d3[n - 1][0], d3[n - 1][1]]] == ends, "3d end points: {d3:?}");
        return Ok(());
    }
    let d2: Vec<V> = pa.discretize_2d(max);
    let d3: Vec<V::Vector3> = pa.discretize_3d(max);
    let line: Vec<V::Vector3> = pa.discretize_3d_straight_line();
    ensure!(line.len() == 2, "discretize_3d_straight_line: {line:?}");
    ensure!(d2.len() >= 2 && d3.len() >= 2, "less than two samples: {d2:?} {d3:?}");
    // the end points exactly
    let ends = [xy(s), xy(e)];
    let f3 = |p: &V::Vector3| {
        let q = xyz(*p);
        ([q[0], q[1]], q[2])
    };
    ensure!([xy(d2[0]), xy(d2[d2.len() - 1])] == ends, "2d end points: {d2:?}");
    ensure!([f3(&d3[0]).0, f3(&d3[d3.len() - 1]).0] == ends, "3d end points: {d3:?}");
    ensure!([f3(&line[0]).0, f3(&line[1]).0] == ends, "straight line end points: {line:?}");
    if c.degenerate == 1 || c.degenerate == 2 {
        ensure!(d2.len() == 2 && d3.len() == 2, "an arc of no extent is sampled: {d2:?} {d3:?}");
        rec.label("degenerate");
        return Ok(());
    }
    let zt = |p: F2| 8.0 * eps * (big + len(p, xy(cell)));
    for p in &d3 {
        let (p, z) = f3(p);
        ensure!((z + len(p, xy(cell))).abs() <= zt(p), "z of {p:?} is {z}, the distance to the cell point is {}", len(p, xy(cell)));
    }
    for p in &line {
        let (p, z) = f3(p);
        ensure!((z + len(p, xy(cell))).abs() <= zt(p) + arc.tol, "straight line: z of {p:?} is {z}, the distance to the cell point is {}", len(p, xy(cell)));
    }
    for (n, out) in [
        ("2d", d2.iter().map(|p| xy(*p)).collect::<Vec<F2>>()),
        ("3d", d3.iter().map(|p| f3(p).0).collect()),
    ] {
        for p in &out {
            // equally far from the cell point and the segment
            let (d, y) = (len(*p, xy(cell)), local(*p)[1].abs());
            ensure!((d - y).abs() <= arc.tol, "{n}: {p:?} is {d} from the cell point and {y} from the segment");
        }
        for w in out.windows(2) {
            let (p, q) = (local(w[0])[0], local(w[1])[0]);
            ensure!((q - p) * (xe - xs).signum() > -arc.tol, "{n}: sample {q} after {p}");
        }
        if c.dist.0 >= 3e-4 {
            arc.judge(&out, 0, out.len() - 1, xs, xe, 0).map_err(|m| format!("{n}: {m}; {} samples", out.len()))?;
            continue;
        }
        // where to divide is known less and less precisely: only the deviation is judged
        for (i, w) in out.windows(2).enumerate() {
            let d = arc.dev(local(w[0])[0], local(w[1])[0]);
            ensure!(d <= arc.max + arc.tol, "{n}: between samples {i} and {} the arc deviates by {d:e}, more than {:e}", i + 1, arc.max);
        }
    }
    rec.label(match d2.len() {
        2 => "chord",
        3..=9 => "3-9",
        10..=99 => "10-99",
        _ => "100+",
    });
    rec.nontrivial_if(d2.len() > 3);
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new(
        "P21",
        "arcs between a segment (any direction and position) and a cell point on either side, of any part of the segment and in both directions, with deviations from coarse to fine, plus arcs of no extent and cell points at an end of the segment; non-trivial = at least two intermediate samples",
    );
    ctx.assume("start and end point lie on the parabola above the segment; the deviation is positive and well above the rounding of the coordinates (times the steepness of the arc)");
    let f = |r: std::ops::Range<f64>| r.prop_map(Fl);
    let co = move || prop_oneof![3 => (-10i32..=10).prop_map(|x| Fl(x as f64)), 3 => f(-10.0..10.0), 1 => f(-1000.0..1000.0)];
    ctx.sub(
        "arcs",
        10_000_000,
        || {
            (
                ty(),
                [co(), co()],
                [co(), co()],
                prop_oneof![3 => f(0.0..1.0), 1 => Just(Fl(0.5)), 1 => Just(Fl(0.0)), 1 => f(-1.0..2.0)],
                (prop_oneof![3 => 0.1f64..1.5, 1 => 0.02f64..0.1, 1 => Just(0.5)], any::<bool>()).prop_map(|(h, s)| Fl(if s { h } else { -h })),
                (prop_oneof![3 => f(0.0..1.0), 1 => Just(Fl(0.0)), 1 => Just(Fl(1.0))], prop_oneof![3 => f(0.0..1.0), 1 => Just(Fl(0.0)), 1 => Just(Fl(1.0))]),
                prop_oneof![3 => f(0.001..0.3), 3 => f(0.0003..0.01), 1 => f(0.3..5.0)],
                (prop_oneof![20 => Just(0u8), 10 => Just(3u8), 1 => Just(1), 1 => Just(2)], prop_oneof![3 => Just(0i8), 1 => -4i8..=4]),
            )
                .prop_map(|(ty, a, b, cx, ch, (s, e), dist, (degenerate, scale))| Case { ty, a, b, cx, ch, s, e, dist, degenerate, scale })
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.ty, run(c, rec)),
    );
    ctx.sub(
        "fine",
        400_000,
        || {
            (
                ty(),
                [co(), co()],
                [co(), co()],
                prop_oneof![3 => f(0.0..1.0), 1 => Just(Fl(0.5)), 1 => Just(Fl(0.0)), 1 => f(-1.0..2.0)],
                (prop_oneof![3 => 0.1f64..1.5, 1 => 0.02f64..0.1, 1 => Just(0.5)], any::<bool>()).prop_map(|(h, s)| Fl(if s { h } else { -h })),
                (prop_oneof![3 => f(0.0..1.0), 1 => Just(Fl(0.0)), 1 => Just(Fl(1.0))], prop_oneof![3 => f(0.0..1.0), 1 => Just(Fl(0.0)), 1 => Just(Fl(1.0))]),
                prop_oneof![3 => (-9.0..-1.0f64).prop_map(|e| Fl(10f64.powf(e))), 1 => (-7.0..-4.0f64).prop_map(|e| Fl(10f64.powf(e)))],
                (prop_oneof![20 => Just(0u8), 10 => Just(3u8), 1 => Just(1), 1 => Just(2)], prop_oneof![3 => Just(0i8), 1 => -6i8..=6]),
            )
                .prop_map(|(ty, a, b, cx, ch, (s, e), dist, (degenerate, scale))| Case { ty, a, b, cx, ch, s, e, dist, degenerate, scale })
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.ty, run(c, rec)),
    );
    ctx.finish()
}
