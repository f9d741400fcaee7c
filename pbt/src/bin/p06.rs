//! P06 self intersection of a linestring.
use linestring::linestring_2d::LineString2;
use pbt::exact::{self, SegX, P};
use pbt::gen::*;
use pbt::sweep;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    g: Grid,
    line: Vec<P>,
}

/// Two edges share a point that is not an end point of both, or a stretch.
/// The second value: the only such thing are edges with the same two end points.
fn exact_self(line: &[P]) -> (bool, bool) {
    let e: Vec<&[P]> = line.windows(2).collect();
    let mut same = false;
    for i in 0..e.len() {
        for j in i + 1..e.len() {
            let ends = |p: P| e[i].contains(&p) && e[j].contains(&p);
            match exact::seg_x(e[i][0], e[i][1], e[j][0], e[j][1]) {
                SegX::None => (),
                SegX::Point(r) => {
                    let end = |s: &[P]| r.is(s[0]) || r.is(s[1]);
                    if !(end(e[i]) && end(e[j])) {
                        return (true, false);
                    }
                }
                SegX::Overlap(a, b) => {
                    if !(ends(a) && ends(b)) {
                        return (true, false);
                    }
                    same = true;
                }
            }
        }
    }
    (same, same)
}

fn run<V: GenericVector2>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    // point-on-edge is decided by distances: a zero-length edge this close to
    // another edge may count as touching it
    let d = |a, b| (exact::dist2(a, b) as f64).sqrt();
    for p in c.line.windows(2).filter(|w| w[0] == w[1]).map(|w| w[0]) {
        for e in c.line.windows(2) {
            let excess = d(e[0], p) + d(p, e[1]) - d(e[0], e[1]);
            if !exact::on_seg(e[0], e[1], p) && excess < 64.0 * V::Scalar::eps() * d(e[0], e[1]) {
                rec.label("ambiguous-point-on-line");
                return Ok(());
            }
        }
    }
    let v: Vec<V> = c.g.vs(&c.line);
    let got = v.is_self_intersecting().map_err(|e| format!("{e}"))?;
    let (want, same) = exact_self(&c.line);
    rec.label(if want { "self-intersecting" } else { "simple" });
    rec.label_if(same, "coinciding edges only");
    rec.label_if(!want && c.line.len() >= 10, "simple, 10 points or more");
    rec.nontrivial_if(c.line.len() > 3);
    ensure!(got == want, "is_self_intersecting() = {got}, exact answer {want}");
    Ok(())
}

/// Star shaped polygons and spirals: simple whatever the rounding.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Star {
    ty: Ty,
    spiral: bool,
    closed: bool,
    radii: Vec<Fl>,
    center: [Fl; 2],
    scale: Fl,
    phase: Fl,
    /// make it self intersecting by swapping two neighbours (if possible)
    swap: Option<usize>,
}
fn star<V: GenericVector2>(c: &Star, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let n = c.radii.len();
    if n < 3 {
        return Ok(());
    }
    let mut pts: Vec<[f64; 2]> = (0..n)
        .map(|i| {
            let a = c.phase.0 + i as f64 / n as f64 * std::f64::consts::TAU;
            let r = if c.spiral { (i + 2) as f64 / (n as f64 + 2.0) } else { c.radii[i].0 } * c.scale.0;
            [c.center[0].0 + r * a.cos(), c.center[1].0 + r * a.sin()]
        })
        .collect();
    if c.closed {
        pts.push(pts[0]);
    }
    let v: Vec<V> = pts.iter().map(|p| v2(p[0], p[1])).collect();
    rec.nontrivial();
    rec.label(if v.len() < 10 { "fewer than 10 points" } else { "10 points or more" });
    let got = v.is_self_intersecting().map_err(|e| format!("{e}"))?;
    ensure!(!got, "a simple star shaped polygon is reported as self intersecting: {:?}", pts);
    if let Some(k) = c.swap {
        // a crossing well inside of two edges: from the far side through an edge
        let k = k % n;
        let (a, b) = (pts[k], pts[(k + 1) % n]);
        let m = [(a[0] + b[0]) / 2.0, (a[1] + b[1]) / 2.0];
        let o = [c.center[0].0, c.center[1].0];
        // only with an edge which exists and is seen from the center
        if k + 1 < pts.len() && !c.spiral {
            let last = *pts.last().unwrap();
            let out = [m[0] + (m[0] - o[0]) * 0.7, m[1] + (m[1] - o[1]) * 0.7];
            let mut q = pts.clone();
            q.push(last);
            q.push(o);
            q.push(out);
            let v: Vec<V> = q.iter().map(|p| v2(p[0], p[1])).collect();
            let got = v.is_self_intersecting().map_err(|e| format!("{e}"))?;
            if !got && v.len() >= 10 && almost_level(&v) {
                rec.known("same-height", || format!("the last edge of {q:?} crosses edge {k}, not reported"))?;
                return Ok(());
            }
            ensure!(got, "the last edge of {q:?} crosses edge {k}, not reported");
            rec.label("crossed");
        }
    }
    Ok(())
}

/// The known finding of the sweep-line (P04), which decides about ten points and more.
fn almost_level<V: GenericVector2>(v: &[V]) -> bool
where
    V::Scalar: Sc,
{
    let p: Vec<[f64; 2]> = v.iter().map(|p| xy(*p)).collect();
    let big = p.iter().flatten().fold(0.0f64, |m, c| m.max(c.abs()));
    let u = (big.log2().ceil() - 50.0).exp2();
    let p: Vec<P> = p.iter().map(|p| p.map(|c| (c / u).round() as i64)).collect();
    // the sweep-line arranges the ends of every line
    let s: Vec<[P; 2]> = p
        .windows(2)
        .map(|w| if (w[0][1], w[0][0]) <= (w[1][1], w[1][0]) { [w[0], w[1]] } else { [w[1], w[0]] })
        .collect();
    sweep::same_height(&s, u, V::Scalar::eps())
}

/// Petals (triangles) around a common corner: the same corner is visited again and
/// again, nothing crosses whatever the rounding.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flower {
    ty: Ty,
    center: [Fl; 2],
    scale: Fl,
    phase: Fl,
    /// radii of the two other corners
    petals: Vec<[Fl; 2]>,
    /// start in the middle of a petal, leave out points at the end
    skip: usize,
    cut: usize,
    reverse: bool,
    /// walk the petals in another order
    stride: usize,
}
fn flower<V: GenericVector2>(c: &Flower, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let n = c.petals.len();
    let o = [c.center[0].0, c.center[1].0];
    let at = |k: f64, r: f64| {
        let a = c.phase.0 + k / n as f64 * std::f64::consts::TAU;
        [o[0] + r * c.scale.0 * a.cos(), o[1] + r * c.scale.0 * a.sin()]
    };
    let stride = (1..=n).map(|d| (c.stride + d) % n.max(1)).find(|d| (1..=n).all(|g| g == 1 || n % g != 0 || d % g != 0)).unwrap_or(1);
    let mut pts = vec![o];
    for i in 0..n {
        let k = (i * stride) % n;
        let r = c.petals[k];
        pts.push(at(k as f64 - 0.4, r[0].0));
        pts.push(at(k as f64 + 0.4, r[1].0));
        pts.push(o);
    }
    let mut pts = pts.split_off(c.skip % 3);
    pts.truncate(pts.len() - c.cut % 3);
    if c.reverse {
        pts.reverse();
    }
    let v: Vec<V> = pts.iter().map(|p| v2(p[0], p[1])).collect();
    rec.nontrivial_if(n > 1);
    rec.label(if v.len() < 10 { "fewer than 10 points" } else { "10 points or more" });
    let got = v.is_self_intersecting().map_err(|e| format!("{e}"))?;
    ensure!(!got, "edges meet only at common end points, reported as self intersecting: {pts:?}");
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new(
        "P06",
        "lattice linestrings (random, walks, simple spirals and staircases, each optionally damaged) and float star polygons; non-trivial = at least three edges and a decided answer",
    );
    let damage = |line: Vec<P>, op: u8, i: usize, j: usize, k: i64, p: P| {
        let mut line = line;
        let n = line.len();
        if n > 1 {
            match op {
                0..=3 => (),
                4 => line.insert(i % n, p),
                5 => {
                    let q = pbt::hulls::chord_point(&line, i, (i + 1) % n, k, [0, 0]);
                    line.push(q)
                }
                6 => {
                    let q = line[i % n];
                    line.insert(j % n, q)
                }
                7 => line.swap(i % n, j % n),
                8 => line[i % n] = p,
                9 => {
                    let q = line[0];
                    line.push(q)
                }
                10 => line.reverse(),
                // there and (part of the way) back
                11 => {
                    let back = line.clone();
                    line.extend(back.iter().rev().skip(1 + (k as usize) % 2).take(1 + j % n))
                }
                _ => {
                    let q = line[n - 2];
                    line.push(q)
                }
            }
        }
        line
    };
    // simple chains: x monotone, spirals on the grid, straight runs with collinear points
    let simple = |max: usize| {
        let mono = lists((1i64..=6, -8i64..=8), 2, max).prop_map(|v| {
            let mut p = [-100i64, 0];
            v.iter()
                .map(|(dx, y)| {
                    p = [p[0] + dx, *y];
                    p
                })
                .collect::<Vec<P>>()
        });
        let spiral = (lists(1i64..=3, 3, max), any::<bool>()).prop_map(|(v, extra)| {
            let mut p = [0i64, 0];
            let mut len = 1;
            let mut out = vec![p];
            for (i, g) in v.iter().enumerate() {
                len += g;
                let d = [[1, 0], [0, 1], [-1, 0], [0, -1]][i % 4];
                if extra && len > 2 {
                    out.push([p[0] + d[0], p[1] + d[1]]);
                }
                p = [p[0] + d[0] * len, p[1] + d[1] * len];
                out.push(p);
            }
            out
        });
        let straight = (point(20), point(6), lists(1i64..=4, 1, max)).prop_map(|(o, d, v)| {
            let mut t = 0;
            v.iter()
                .map(|k| {
                    t += k;
                    [(o[0] + d[0] * t).clamp(-4000, 4000), (o[1] + d[1] * t).clamp(-4000, 4000)]
                })
                .collect::<Vec<P>>()
        });
        prop_oneof![2 => mono, 2 => spiral, 1 => straight].boxed()
    };
    let lines = move |max: usize| {
        let base = prop_oneof![3 => points(0, max), 4 => simple(max)];
        (grid_sweep(), base, 0u8..13, 0usize..64, 0usize..64, 0i64..64, point(8), any::<bool>()).prop_map(move |(mut g, line, op, i, j, k, p, rot)| {
            let mut line = damage(line, op, i, j, k, p);
            if rot {
                for p in line.iter_mut() {
                    *p = [p[1], -p[0]];
                }
            }
            if g.ty.f32() {
                // keep f32 sweeps where distinct points are distinct after rounding
                if line.iter().flatten().any(|c| c.abs() > 1000) && line.len() >= 10 {
                    g.ty = Ty::G64;
                }
            }
            Case { g, line }
        })
    };
    ctx.sub("short", 5_600_000, || lines(10), |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)));
    ctx.sub("long", 2_000_000, || lines(40), |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)));
    ctx.sub("longer", 200_000, || lines(250), |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)));
    ctx.sub(
        "far",
        400_000,
        || {
            let o = || prop_oneof![1 => -(1i64 << 12)..=(1i64 << 12), 2 => -(1i64 << 22)..=(1i64 << 22), 1 => Just(0i64)];
            (prop_oneof![4 => Just(Ty::G64), 1 => Just(Ty::C64)], [o(), o()], lines(30)).prop_map(|(ty, off, mut c)| {
                if c.line.iter().flatten().all(|x| x.abs() <= 30) && off[0] % 4 == 1 {
                    (c.g.ty, c.g.off, c.g.exp) = (if off[1] % 2 == 0 { Ty::G32 } else { Ty::C32 }, off.map(|o| o >> 10), c.g.exp.max(-3));
                } else if c.line.iter().flatten().all(|x| x.abs() <= 300) {
                    (c.g.ty, c.g.off, c.g.exp) = (ty, off, c.g.exp.max(-6));
                }
                c
            })
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "warped",
        400_000,
        || (grid_wide(), warp(200, 6), lines(30)).prop_map(|(g, w, c)| Case { g, line: w.ps(&c.line) }),
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    let f = |a: f64, b: f64| (a..b).prop_map(Fl);
    ctx.sub(
        "float_polygons",
        800_000,
        || {
            (
                prop_oneof![Just(Ty::G64), Just(Ty::G32), Just(Ty::C64), Just(Ty::C32)],
                (any::<bool>(), any::<bool>()),
                prop_oneof![prop::collection::vec(f(0.5, 1.0), 3..=9), prop::collection::vec(f(0.5, 1.0), 10..=24)],
                [f(-2.0, 2.0), f(-2.0, 2.0)],
                prop_oneof![Just(Fl(1.0)), Just(Fl(700.0)), f(0.1, 5000.0)],
                f(0.0, 6.3),
                prop::option::of(0usize..64),
            )
                .prop_map(|(ty, (spiral, closed), radii, center, scale, phase, swap)| {
                    let center = [Fl(center[0].0 * scale.0), Fl(center[1].0 * scale.0)];
                    Star { ty, spiral, closed: closed && !spiral, radii, center, scale, phase, swap }
                })
        },
        |c: &Star, rec: &mut Rec| on_ty!(c.ty, star(c, rec)),
    );
    ctx.sub(
        "float_flowers",
        400_000,
        || {
            let c = || prop_oneof![3 => f(-2.0, 2.0), 1 => Just(Fl(0.0)), 2 => f(-0.01, 0.01), 1 => f(-1e-6, 1e-6)];
            (
                prop_oneof![Just(Ty::G64), Just(Ty::G32), Just(Ty::C64), Just(Ty::C32)],
                [c(), c()],
                prop_oneof![Just(Fl(1.0)), Just(Fl(700.0)), f(0.1, 5000.0)],
                f(0.0, 6.3),
                prop_oneof![2 => prop::collection::vec([f(0.5, 1.0), f(0.5, 1.0)], 2..=3), 1 => prop::collection::vec([f(0.5, 1.0), f(0.5, 1.0)], 4..=9)],
                (0usize..3, 0usize..3, any::<bool>(), 0usize..9),
            )
                .prop_map(|(ty, center, scale, phase, petals, (skip, cut, reverse, stride))| {
                    let center = [Fl(center[0].0 * scale.0), Fl(center[1].0 * scale.0)];
                    Flower { ty, center, scale, phase, petals, skip, cut, reverse, stride }
                })
        },
        |c: &Flower, rec: &mut Rec| on_ty!(c.ty, flower(c, rec)),
    );
    ctx.show_finding("same-height", || {
        // the last line crosses the third one, which is almost horizontal
        let c: Vec<G2f> = [
            [-0.44114619, -1.6236838], [-0.18665696, -1.8521855], [0.16427104, -1.8915201], [0.80777201, -1.8915208],
            [0.49503656, -1.3180564], [0.33404708, -1.0162946], [0.01675326, -0.88861370], [-0.30837960, -0.99475470],
            [-0.48921822, -1.2850589], [0.0, -1.3883329], [0.82623668, -2.2437517],
        ]
        .iter()
        .map(|p: &[f64; 2]| v2(p[0], p[1]))
        .collect();
        c.is_self_intersecting().map(|x| !x).unwrap_or(false)
    });
    ctx.finish()
}
