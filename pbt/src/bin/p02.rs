//! P02 linestring-versus-segment queries agree with the exact answer edge by edge.
use linestring::linestring_2d::{Intersection, Line2, LineString2};
use pbt::exact::{self, Rat, SegX, P};
use pbt::gen::*;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    g: Grid,
    line: Vec<P>,
    s: [P; 2],
    /// 0: free line; otherwise the line is replaced by its convex hull (closed)
    hull: bool,
}

fn degenerate_band(a: P, b: P, p: P, eps: f64) -> bool {
    if a == b || exact::on_seg(a, b, p) {
        return false;
    }
    let d = |a, b| (exact::dist2(a, b) as f64).sqrt();
    d(a, p) + d(p, b) - d(a, b) < 64.0 * eps * d(a, b)
}

fn run<V: GenericVector2>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let g = &c.g;
    let u = g.unit();
    let line: Vec<P> = if c.hull {
        let mut h = exact::hull(&c.line);
        if h.len() > 1 {
            h.push(h[0]);
        }
        h
    } else {
        c.line.clone()
    };
    let eps = V::Scalar::eps();
    for w in line.windows(2) {
        if (w[0] == w[1] && degenerate_band(c.s[0], c.s[1], w[0], eps))
            || (c.s[0] == c.s[1] && degenerate_band(w[0], w[1], c.s[0], eps))
        {
            rec.label("ambiguous-point-on-line");
            return Ok(());
        }
    }
    let v: Vec<V> = g.vs(&line);
    let s: Vec<V> = g.vs(&c.s);
    let other = Line2::new(s[0], s[1]);
    let big = line
        .iter()
        .chain(c.s.iter())
        .flat_map(|p| g.f(*p))
        .fold(0.0f64, |m, c| m.max(c.abs()));
    let tol = 16.0 * eps * big.max(u);
    let rat = |r: &Rat| {
        [
            (r.fx() + g.off[0] as f64) * u,
            (r.fy() + g.off[1] as f64) * u,
        ]
    };
    let near = |p: [f64; 2], q: [f64; 2]| (p[0] - q[0]).abs() <= tol && (p[1] - q[1]).abs() <= tol;
    let matches = |ex: &SegX, got: &Intersection<V>| match (ex, got) {
        (SegX::Point(r), Intersection::Intersection(p)) => near(xy(*p), rat(r)),
        (SegX::Overlap(a, b), Intersection::Overlap(l)) => {
            let (a, b) = (g.f(*a), g.f(*b));
            let (x, y) = (xy(l.start), xy(l.end));
            (near(x, a) && near(y, b)) || (near(x, b) && near(y, a))
        }
        _ => false,
    };
    let show = |got: &Intersection<V>| match got {
        Intersection::Intersection(p) => format!("point {:?}", xy(*p)),
        Intersection::Overlap(l) => format!("overlap {:?}..{:?}", xy(l.start), xy(l.end)),
    };
    let ex: Vec<SegX> = line
        .windows(2)
        .map(|w| exact::seg_x(w[0], w[1], c.s[0], c.s[1]))
        .filter(|x| *x != SegX::None)
        .collect();
    rec.label(match ex.len() {
        0 => "miss",
        1 => "one-edge",
        2 => "two-edges",
        _ => "many-edges",
    });
    rec.label_if(c.hull, "hull");
    rec.nontrivial_if(!ex.is_empty());
    // all
    let all = v.find_all_intersections(&other);
    ensure!(
        all.len() == ex.len(),
        "find_all_intersections: {} hits, exactly {} edges are met ({ex:?})",
        all.len(),
        ex.len()
    );
    for (e, g) in ex.iter().zip(all.iter()) {
        ensure!(matches(e, g), "find_all_intersections: {} instead of {e:?}", show(g));
    }
    // first
    match (v.intersection(&other), ex.first()) {
        (None, None) => (),
        (Some(g), Some(_)) => ensure!(
            ex.iter().any(|e| matches(e, &g)),
            "intersection: {} is none of {ex:?}",
            show(&g)
        ),
        (g, e) => {
            return Err(format!(
                "intersection: {:?} expected {e:?}",
                g.as_ref().map(show)
            ))
        }
    }
    // two
    let mut uniq: Vec<Rat> = vec![];
    let mut overlap = false;
    for e in &ex {
        match e {
            SegX::Point(r) => uniq.push(*r),
            SegX::Overlap(a, b) => {
                overlap = true;
                uniq.push(Rat::of(*a));
                uniq.push(Rat::of(*b));
            }
            SegX::None => (),
        }
    }
    uniq.sort();
    uniq.dedup();
    rec.label_if(overlap, "overlap");
    let (a, b) = v.find_two_intersections(&other);
    let got: Vec<[f64; 2]> = a.iter().chain(b.iter()).map(|p| xy(*p)).collect();
    ensure!(a.is_some() || b.is_none(), "find_two_intersections: second without first");
    for p in &got {
        ensure!(
            uniq.iter().any(|r| near(*p, rat(r))),
            "find_two_intersections: {p:?} is none of {uniq:?}"
        );
    }
    // far from the origin several of them may be rounded to the same position
    let spread = uniq.iter().any(|r| (0..2).any(|i| (rat(r)[i] - rat(&uniq[0])[i]).abs() > 4.0 * tol));
    ensure!(
        got.len() >= if spread { 2 } else { uniq.len().min(1) },
        "find_two_intersections: {got:?}, exact intersections {uniq:?}"
    );
    if c.hull && line.len() >= 4 {
        // on a convex polygon (every shared corner is exact) no point counts twice
        ensure!(
            got.len() <= uniq.len().min(2) || overlap,
            "find_two_intersections: {got:?}, exact intersections {uniq:?}"
        );
    }
    if got.len() == 2 {
        ensure!(got[0] != got[1], "find_two_intersections: {got:?} twice the same");
    }
    Ok(())
}

/// A full precision star shaped polygon around `center`; aimed at its corner `k` (or between).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Around {
    ty: Ty,
    center: [Fl; 2],
    scale: Fl,
    phase: Fl,
    radii: Vec<Fl>,
    k: usize,
    /// how far to look, in units of the scale, and between corners k and k+1
    far: Fl,
    between: Option<Fl>,
}
fn around() -> BoxedStrategy<Around> {
    let f = |a: f64, b: f64| (a..b).prop_map(Fl);
    (
        ty(),
        [f(-2.0, 2.0), f(-2.0, 2.0)],
        prop_oneof![Just(Fl(1.0)), Just(Fl(700.0)), f(0.1, 5000.0)],
        f(0.0, 6.3),
        prop::collection::vec(f(0.5, 1.0), 3..=24),
        (0usize..24, prop_oneof![f(1.01, 1.1), f(1.1, 100.0)], prop_oneof![3 => Just(None), 1 => f(0.0, 1.0).prop_map(Some)]),
    )
        .prop_map(|(ty, c, scale, phase, radii, (k, far, between))| Around { ty, center: [Fl(c[0].0 * scale.0), Fl(c[1].0 * scale.0)], scale, phase, radii, k, far, between })
        .boxed()
}
impl Around {
    /// the closed polygon, its center and the point aimed at
    fn make<V: GenericVector2>(&self) -> (Vec<V>, V, V)
    where
        V::Scalar: Sc,
    {
        let n = self.radii.len();
        let mut v: Vec<V> = (0..n)
            .map(|i| {
                let a = self.phase.0 + i as f64 / n as f64 * std::f64::consts::TAU;
                let r = self.radii[i].0 * self.scale.0;
                v2(self.center[0].0 + r * a.cos(), self.center[1].0 + r * a.sin())
            })
            .collect();
        v.push(v[0]);
        let k = self.k % n;
        let t = self.between.map_or(0.0, |b| b.0);
        let (a, b) = (xy(v[k]), xy(v[k + 1]));
        let o: V = v2(self.center[0].0, self.center[1].0);
        let q = [a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t];
        let at = v2(q[0], q[1]);
        (v, o, at)
    }
}

/// From the inside to the outside of a closed line: some edge is met, even through a corner.
fn out<V: GenericVector2>(c: &Around, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let (v, o, at) = c.make::<V>();
    let (a, b) = (xy(o), xy(at));
    // every corner is nearer than the scale, so `far` is outside
    let d = (b[0] - a[0]).hypot(b[1] - a[1]);
    let f = c.far.0 * c.scale.0 / d;
    let end: V = v2(a[0] + (b[0] - a[0]) * f, a[1] + (b[1] - a[1]) * f);
    rec.nontrivial();
    for other in [Line2::new(o, end), Line2::new(end, o)] {
        let all = v.find_all_intersections(&other);
        rec.label(match all.len() {
            1 => "one edge",
            _ => "two edges",
        });
        let show = format!("segment {:?}-{:?} leaves the polygon {:?}", xy(other.start), xy(other.end), v.iter().map(|p| xy(*p)).collect::<Vec<_>>());
        ensure!(!all.is_empty(), "{show}, find_all_intersections finds nothing");
        ensure!(v.intersection(&other).is_some(), "{show}, intersection finds nothing");
        ensure!(v.find_two_intersections(&other).0.is_some(), "{show}, find_two_intersections finds nothing");
        let tol = 1e-4 * c.scale.0;
        for i in &all {
            let p = xy(i.closest(at));
            ensure!((p[0] - b[0]).abs() < tol && (p[1] - b[1]).abs() < tol, "{show}, {p:?} reported instead of {b:?}");
        }
        // starting at the corner itself: both of its edges are met
        if c.between.is_none() {
            for other in [Line2::new(at, end), Line2::new(end, at), Line2::new(o, at), Line2::new(at, o)] {
                let n = v.find_all_intersections(&other).len();
                ensure!(n == 2, "segment {:?}-{:?} ends at a corner of {:?}, {n} edges reported", xy(other.start), xy(other.end), v.iter().map(|p| xy(*p)).collect::<Vec<_>>());
            }
        }
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new(
        "P02",
        "a lattice linestring or convex polygon and a segment placed on, through or near its vertices; non-trivial = the segment meets at least one edge",
    );
    ctx.assume("lattice coordinates: the exact answer per edge is decided in integers, locations are compared within 16 eps");
    let mk = |max: usize| {
            (grid(), maybe_closed(points(0, max)), any_point(), any_point(), (0usize..1024, 0usize..1024, 0i64..64, 0usize..1024, 0u8..4), any::<bool>()).prop_map(
                |(g, line, a, b, (i, j, k, m, mode), hull)| {
                    let s = match mode {
                        0 => [a, b],
                        1 => [pbt::hulls::chord_point(&line, i, j, k, [0, 0]), b],
                        2 => [pbt::hulls::chord_point(&line, i, j, k, [0, 0]), pbt::hulls::chord_point(&line, i, j, m as i64, [0, 0])],
                        _ => [pbt::hulls::chord_point(&line, i, i + 1, k, [0, 0]), pbt::hulls::chord_point(&line, m, j, k + 1, [0, 0])],
                    };
                    Case { g, line, s, hull }
                },
            )
    };
    ctx.sub("lines", 6_000_000, || mk(30), |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)));
    ctx.sub("long", 200_000, || mk(400), |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)));
    ctx.sub(
        "warped",
        600_000,
        || {
            (grid_wide(), prop_oneof![warp(2000, 20), warp(1 << 20, 20)], mk(30)).prop_map(|(g, w, c)| {
                let line = if c.hull { exact::hull(&c.line) } else { c.line };
                Case { g, line: w.ps(&line), s: c.s.map(|p| w.p(p)), hull: c.hull }
            })
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "far",
        600_000,
        || (grid_far(), mk(30)).prop_map(|(g, mut c)| {
            c.g = g;
            c
        }),
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub("inside_out", 1_000_000, around, |c: &Around, rec: &mut Rec| on_ty!(c.ty, out(c, rec)));
    ctx.finish()
}
