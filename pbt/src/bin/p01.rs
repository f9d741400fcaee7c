//! P01 segment/segment intersection against an exact rational oracle.
use linestring::linestring_2d::{intersect_line_point, Intersection, Line2};
use pbt::exact::{self, SegX, P};
use pbt::gen::*;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    g: Grid,
    s: [P; 4],
}

fn segs(b: i64) -> BoxedStrategy<[P; 4]> {
    let free = [point(b), point(b), point(b), point(b)];
    // second segment starts (or ends) somewhere on the first one
    let touch = (point(b / 4), point(b / 12 + 1), 0i64..=6, 0i64..=6, point(b), 0u8..8).prop_map(
        |(o, d, m, k, q, flip)| {
            let a = o;
            let e = [o[0] + d[0] * m, o[1] + d[1] * m];
            let t = [o[0] + d[0] * k, o[1] + d[1] * k];
            arrange([a, e, t, q], flip)
        },
    );
    let collinear = (point(b / 4), point(b / 30 + 1), [-10i64..=10, -10..=10, -10..=10, -10..=10])
        .prop_map(|(o, d, k)| k.map(|k| [o[0] + d[0] * k, o[1] + d[1] * k]));
    // parallel, a lattice step or more apart
    let parallel = (point(b / 4), point(b / 30 + 1), [-10i64..=10, -10..=10, -10..=10, -10..=10], point(b / 20 + 1))
        .prop_map(|(o, d, k, e)| [0, 1, 2, 3].map(|i| [o[0] + d[0] * k[i] + e[0] * (i as i64 / 2), o[1] + d[1] * k[i] + e[1] * (i as i64 / 2)]));
    // the crossing point of both is a lattice point interior to both
    let cross = (point(b / 4), point(b / 12 + 1), point(b / 12 + 1), [0i64..=4, 0..=4, 0..=4, 0..=4], 0u8..8)
        .prop_map(|(o, d, e, k, flip)| {
            arrange(
                [
                    [o[0] - d[0] * k[0], o[1] - d[1] * k[0]],
                    [o[0] + d[0] * k[1], o[1] + d[1] * k[1]],
                    [o[0] - e[0] * k[2], o[1] - e[1] * k[2]],
                    [o[0] + e[0] * k[3], o[1] + e[1] * k[3]],
                ],
                flip,
            )
        });
    let axis = (point(b / 2), point(b / 2), 0u8..4, 0u8..8).prop_map(|(p, q, k, flip)| {
        let s = match k {
            0 => [p, [q[0], p[1]], q, [q[0], p[1]]],
            1 => [p, [q[0], p[1]], [p[0], q[1]], q],
            2 => [p, [p[0], q[1]], [q[0], p[1]], q],
            _ => [p, [q[0], p[1]], [(p[0] + q[0]) / 2, p[1] - 1], [(p[0] + q[0]) / 2, q[1]]],
        };
        arrange(s, flip)
    });
    prop_oneof![3 => free, 3 => touch, 2 => collinear, 2 => cross, 1 => axis, 1 => parallel].boxed()
}
fn arrange(mut s: [P; 4], flip: u8) -> [P; 4] {
    if flip & 1 != 0 {
        s.swap(0, 1)
    }
    if flip & 2 != 0 {
        s.swap(2, 3)
    }
    if flip & 4 != 0 {
        s.swap(0, 2);
        s.swap(1, 3)
    }
    s
}

fn near(p: [f64; 2], q: [f64; 2], tol: f64) -> bool {
    (p[0] - q[0]).abs() <= tol && (p[1] - q[1]).abs() <= tol
}

fn one<V: GenericVector2>(g: &Grid, s: &[P; 4], rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let u = g.unit();
    let big = s
        .iter()
        .flat_map(|p| g.f(*p))
        .fold(0.0f64, |m, c| m.max(c.abs()));
    let tol = 16.0 * V::Scalar::eps() * big.max(u);
    let ex = exact::seg_x(s[0], s[1], s[2], s[3]);
    let degenerate = s[0] == s[1] || s[2] == s[3];
    if degenerate && point_band::<V>(g, s) {
        rec.label("ambiguous-point-on-line");
        return Ok(());
    }
    let v: Vec<V> = g.vs(s);
    let got = Line2::new(v[0], v[1]).intersection_point(Line2::new(v[2], v[3]));
    let of = |p: P| g.f(p);
    let rat = |r: exact::Rat| {
        [
            (r.fx() + g.off[0] as f64) * u,
            (r.fy() + g.off[1] as f64) * u,
        ]
    };
    match (&ex, &got) {
        (SegX::None, None) => rec.label("none"),
        (SegX::Point(r), Some(Intersection::Intersection(p))) => {
            rec.label(if degenerate { "degenerate-hit" } else { "point" });
            rec.nontrivial();
            let e = rat(*r);
            ensure!(
                near(xy(*p), e, tol),
                "intersection at {:?}, exact location is {e:?}",
                xy(*p)
            );
            let sp = xy(got.as_ref().unwrap().single());
            let cp = xy(got.as_ref().unwrap().closest(v[0]));
            ensure!(sp == xy(*p) && cp == xy(*p), "single/closest differ");
        }
        (SegX::Overlap(lo, hi), Some(Intersection::Overlap(l))) => {
            rec.label("overlap");
            rec.nontrivial();
            let (lo, hi) = (of(*lo), of(*hi));
            let (a, b) = (xy(l.start), xy(l.end));
            ensure!(
                (near(a, lo, tol) && near(b, hi, tol)) || (near(a, hi, tol) && near(b, lo, tol)),
                "overlap {a:?}..{b:?}, exact overlap is {lo:?}..{hi:?}"
            );
            let i = got.as_ref().unwrap();
            let sp = xy(i.single());
            ensure!(sp == a || sp == b, "single() {sp:?} is not an end of the overlap");
            for q in &v {
                let c = xy(i.closest(*q));
                let q = xy(*q);
                ensure!(c == a || c == b, "closest() {c:?} is not an end");
                let d = |p: [f64; 2]| (p[0] - q[0]).hypot(p[1] - q[1]);
                ensure!(
                    d(c) <= d(a).min(d(b)) + tol,
                    "closest({q:?}) = {c:?} of {a:?},{b:?}"
                );
            }
        }
        _ => {
            let k = match &got {
                None => "none".to_string(),
                Some(Intersection::Intersection(p)) => format!("point {:?}", xy(*p)),
                Some(Intersection::Overlap(l)) => {
                    format!("overlap {:?}..{:?}", xy(l.start), xy(l.end))
                }
            };
            return Err(format!("got {k}, exact answer is {ex:?}"));
        }
    }
    Ok(())
}

/// point-on-segment is decided by distances (ab == ap+pb): skip the band where
/// the exact excess is nonzero but below the arithmetic's tolerance.
fn point_band<V: GenericVector2>(g: &Grid, s: &[P; 4]) -> bool
where
    V::Scalar: Sc,
{
    let _ = g;
    for (l, p) in [((s[0], s[1]), s[2]), ((s[2], s[3]), s[0])] {
        if l.0 == l.1 {
            continue;
        }
        if exact::on_seg(l.0, l.1, p) {
            continue;
        }
        let d = |a, b| (exact::dist2(a, b) as f64).sqrt();
        // stable: excess = (ap+pb) - ab computed from the offset line distance
        let ab = d(l.0, l.1);
        let excess = d(l.0, p) + d(p, l.1) - ab;
        if excess < 64.0 * V::Scalar::eps() * ab {
            return true;
        }
    }
    false
}

fn check(c: &Case, rec: &mut Rec) -> Result<(), String> {
    on_ty!(c.g.ty, one(&c.g, &c.s, rec))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PCase {
    g: Grid,
    s: [P; 3],
}
fn point_one<V: GenericVector2>(c: &PCase, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let s4 = [c.s[0], c.s[1], c.s[2], c.s[2]];
    if point_band::<V>(&c.g, &s4) {
        rec.label("ambiguous-point-on-line");
        return Ok(());
    }
    let v: Vec<V> = c.g.vs(&c.s);
    let on = exact::on_seg(c.s[0], c.s[1], c.s[2]);
    rec.nontrivial_if(on);
    rec.label(if on { "on" } else { "off" });
    match intersect_line_point(Line2::new(v[0], v[1]), v[2]) {
        None => ensure!(!on, "point on the segment not reported"),
        Some(Intersection::Intersection(p)) => {
            ensure!(on, "point off the segment reported");
            ensure!(xy(p) == xy(v[2]), "reported {:?}", xy(p));
        }
        Some(Intersection::Overlap(_)) => return Err("overlap with a point".into()),
    }
    Ok(())
}

/// Coordinates with all the digits the type has.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    ty: Ty,
    s: [P; 4],
    exp: i32,
}
fn wide<V: GenericVector2>(c: &Wide, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let eps = V::Scalar::eps();
    let q: [P; 4] = if c.ty.f32() { c.s.map(|p| [p[0] >> 29, p[1] >> 29]) } else { c.s };
    let u = 2f64.powi(c.exp);
    let at = |p: P| [p[0] as f64 * u, p[1] as f64 * u];
    let v: Vec<V> = q.iter().map(|p| v2(at(*p)[0], at(*p)[1])).collect();
    let sub = |a: P, b: P| [(a[0] - b[0]) as f64 * u, (a[1] - b[1]) as f64 * u];
    let n = |a: [f64; 2]| a[0].abs() + a[1].abs();
    let (r, s, d) = (sub(q[1], q[0]), sub(q[3], q[2]), sub(q[2], q[0]));
    let slack = 16.0 * eps * (n(r) * n(s) + n(d) * n(s) + n(d) * n(r)) + 16.0 * eps;
    let side = [(0, 1, 2), (0, 1, 3), (2, 3, 0), (2, 3, 1)].map(|(i, j, k)| exact::cross(q[i], q[j], q[k]));
    let clear = side.map(|x| (x as f64 * u * u).abs() > slack);
    let rxs = (side[1] - side[0]) as f64 * u * u;
    // two corners clearly on one side, or a clear crossing
    let apart = |i: usize| clear[i] && clear[i + 1] && side[i].signum() == side[i + 1].signum();
    let boxes = (0..2).any(|k| q[0][k].max(q[1][k]) < q[2][k].min(q[3][k]) || q[2][k].max(q[3][k]) < q[0][k].min(q[1][k]));
    let got = Line2::new(v[0], v[1]).intersection_point(Line2::new(v[2], v[3]));
    let parallel = rxs.abs() <= slack;
    let tiny = n(r) < 64.0 * eps || n(s) < 64.0 * eps;
    if boxes && !tiny {
        rec.label("boxes apart");
        ensure!(got.is_none(), "the boxes of the segments do not meet");
    } else if parallel || tiny {
        rec.label("almost parallel");
    } else if apart(0) || apart(2) {
        rec.label("clearly apart");
        rec.nontrivial();
        ensure!(got.is_none(), "the segments do not meet");
    } else if clear.iter().all(|c| *c) {
        rec.label("clear crossing");
        rec.nontrivial();
        let t = side[2] as f64 / (side[2] - side[3]) as f64;
        let a = at(q[0]);
        let e = [a[0] + t * r[0], a[1] + t * r[1]];
        let big = v.iter().flat_map(|p| xy(*p)).fold(0f64, |m, c| m.max(c.abs()));
        let tol = 16.0 * eps * big + n(r) * slack / rxs.abs();
        match got {
            Some(Intersection::Intersection(p)) => {
                ensure!(near(xy(p), e, tol), "intersection at {:?}, exact location is {e:?}", xy(p));
            }
            Some(_) => return Err("overlap of crossing segments".into()),
            None => return Err(format!("the segments cross at {e:?}, nothing reported")),
        }
    } else {
        rec.label("within rounding");
    }
    Ok(())
}

/// Two full precision segments with a common end point.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shared {
    ty: Ty,
    o: [Fl; 2],
    a: [Fl; 2],
    b: [Fl; 2],
    scale: Fl,
    flip: u8,
}
fn shared<V: GenericVector2>(c: &Shared, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let eps = V::Scalar::eps();
    let at = |p: [Fl; 2]| v2::<V>(p[0].0 * c.scale.0, p[1].0 * c.scale.0);
    let (o, a, b) = (at(c.o), at(c.a), at(c.b));
    let (s, t) = match c.flip & 3 {
        0 => (Line2::new(o, a), Line2::new(o, b)),
        1 => (Line2::new(a, o), Line2::new(o, b)),
        2 => (Line2::new(o, a), Line2::new(b, o)),
        _ => (Line2::new(a, o), Line2::new(b, o)),
    };
    let [o, a, b] = [o, a, b].map(xy);
    let (r, q) = ([a[0] - o[0], a[1] - o[1]], [b[0] - o[0], b[1] - o[1]]);
    let (x, m) = (r[0] * q[1] - r[1] * q[0], r[0].hypot(r[1]) * q[0].hypot(q[1]));
    let clear = x.abs() > 1e-3 * m && m > 1e3 * eps;
    rec.nontrivial();
    rec.label(if clear { "angle" } else { "almost parallel" });
    let got = s.intersection_point(t);
    match got {
        None => return Err(format!("the segments meet at their common end point {o:?}, nothing reported")),
        Some(Intersection::Intersection(p)) if clear => {
            let tol = 64e3 * eps * [o, a, b].iter().flatten().fold(0f64, |m, c| m.max(c.abs()));
            ensure!(near(xy(p), o, tol), "intersection at {:?}, common end point {o:?}", xy(p));
        }
        Some(Intersection::Overlap(_)) if clear => return Err("overlap of segments with an angle between".into()),
        _ => (),
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    c: [Fl; 8],
}

fn main() {
    let mut ctx = Ctx::new(
        "P01",
        "two segments on an integer lattice (free, touching, collinear, crossing, axis-parallel, degenerate) mapped exactly to f32/f64 vectors; non-trivial = they really meet (point or overlap)",
    );
    ctx.assume("coordinates are exactly representable lattice points (|c|<=600*2^9 for f32, 2^24 for f64), so the expected answer is decided exactly; reported locations are compared with a tolerance of 16 eps");
    ctx.assume("a degenerate segment is compared only when its exact distance excess is 0 or above 64 eps (the API decides point-on-line by distances)");
    ctx.sub("lattice", 8_000_000, || (grid(), segs(24)).prop_map(|(g, s)| Case { g, s }), check);
    ctx.sub("lattice_large", 4_000_000, || (grid(), segs(150)).prop_map(|(g, s)| Case { g, s }), check);
    ctx.sub("far", 2_000_000, || (grid_far(), prop_oneof![segs(24), segs(150)]).prop_map(|(g, s)| Case { g, s }), check);
    ctx.sub(
        "wide_f64",
        4_000_000,
        || {
            (prop_oneof![Just(Ty::G64), Just(Ty::C64)], -20i8..=0, segs(1 << 22)).prop_map(|(ty, exp, s)| Case {
                g: Grid { ty, exp: if s.iter().flatten().all(|c| c.abs() < 1000) { 0 } else { exp }, off: [0, 0] },
                s,
            })
        },
        check,
    );
    ctx.sub(
        "warped",
        2_000_000,
        || (grid_wide(), prop_oneof![warp(2000, 20), warp(1 << 20, 20)], prop_oneof![segs(12), segs(40), segs(300)]).prop_map(|(g, w, s)| Case { g, s: s.map(|p| w.p(p)) }),
        check,
    );
    ctx.sub(
        "full_precision",
        3_000_000,
        || {
            let m = 1i64 << 52;
            // the second one starts beside the first one
            let close = (point(m / 4), point(m / 64), -16i64..=16, -16i64..=16, point(m / 4), point(1 << 40), 0u32..=40, 0u8..8).prop_map(|(o, d, k, l, e, w, s, flip)| {
                let a = [o[0] + d[0] * l + (w[0] >> s), o[1] + d[1] * l + (w[1] >> s)];
                arrange([o, [o[0] + d[0] * k, o[1] + d[1] * k], a, e], flip)
            });
            (ty(), prop_oneof![1 => [point(m), point(m), point(m), point(m)], 2 => close], -64i32..=-20).prop_map(|(ty, s, exp)| Wide { ty, s, exp: if ty.f32() { exp + 29 } else { exp } })
        },
        |c: &Wide, rec: &mut Rec| on_ty!(c.ty, wide(c, rec)),
    );
    ctx.sub(
        "point_on_segment",
        3_000_000,
        || (grid(), segs(40)).prop_map(|(g, s)| PCase { g, s: [s[0], s[1], s[2]] }),
        |c: &PCase, rec: &mut Rec| on_ty!(c.g.ty, point_one(c, rec)),
    );
    ctx.sub(
        "shared_end",
        2_000_000,
        || {
            let f = |b: f64| (-b..b).prop_map(Fl);
            let o = || prop_oneof![2 => [f(1.0), f(1.0)], 1 => [f(1e-3), f(1e-3)], 1 => [f(1e3), f(1e3)]];
            (ty(), o(), o(), o(), prop_oneof![Just(Fl(1.0)), (0.1..100.0f64).prop_map(Fl)], 0u8..4).prop_map(|(ty, o, a, b, scale, flip)| Shared { ty, o, a, b, scale, flip })
        },
        |c: &Shared, rec: &mut Rec| on_ty!(c.ty, shared(c, rec)),
    );
    ctx.sub(
        "any_bits_no_panic",
        2_000_000,
        || prop::array::uniform8(prop_oneof![2 => any::<f64>().prop_map(Fl), 2 => (-3.0..3.0f64).prop_map(Fl), 1 => any::<u64>().prop_map(|b| Fl(f64::from_bits(b)))]).prop_map(|c| FCase { c }),
        |c: &FCase, rec: &mut Rec| {
            fn run<V: GenericVector2>(c: &[Fl; 8]) -> bool
            where
                V::Scalar: Sc,
            {
                let v: Vec<V> = c.chunks(2).map(|p| v2(p[0].0, p[1].0)).collect();
                Line2::new(v[0], v[1]).intersection_point(Line2::new(v[2], v[3])).is_some()
            }
            let hit = run::<G2d>(&c.c) | run::<C2d>(&c.c) | run::<G2f>(&c.c) | run::<C2f>(&c.c);
            rec.nontrivial_if(hit);
            Ok(())
        },
    );
    ctx.finish()
}
