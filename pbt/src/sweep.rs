//! The oracle of the sweep-line checks: every pairwise intersection, exactly.
use crate::exact::{self, Rat, SegX, P};
use std::collections::BTreeMap;

pub type Seg = [P; 2];

/// One exact intersection point.
#[derive(Clone, Debug)]
pub struct XPoint {
    pub at: Rat,
    /// all segments which contain the point, ascending
    pub lines: Vec<usize>,
    /// some of them contain it in their interior
    pub interior: bool,
    /// some of them start or end there: the position is an input, it is not rounded
    pub vertex: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Expected {
    /// ordered by (y, x)
    pub points: Vec<XPoint>,
    /// pairs sharing more than a point
    pub overlaps: Vec<(usize, usize)>,
    pub zero_len: bool,
}

pub fn contains(s: Seg, r: &Rat) -> bool {
    // scale the segment by the denominator; everything stays far below i128
    let f = |p: P| [p[0] as i128 * r.d, p[1] as i128 * r.d];
    let (a, b, p) = (f(s[0]), f(s[1]), [r.x, r.y]);
    let c = (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]);
    c == 0
        && p[0] >= a[0].min(b[0])
        && p[0] <= a[0].max(b[0])
        && p[1] >= a[1].min(b[1])
        && p[1] <= a[1].max(b[1])
}

pub fn expected(s: &[Seg]) -> Expected {
    let mut at: BTreeMap<(i128, i128, i128), Rat> = BTreeMap::new();
    let mut e = Expected::default();
    let mut put = |r: Rat| {
        at.insert(r.key(), r);
    };
    for i in 0..s.len() {
        e.zero_len |= s[i][0] == s[i][1];
        for j in i + 1..s.len() {
            match exact::seg_x(s[i][0], s[i][1], s[j][0], s[j][1]) {
                SegX::None => (),
                SegX::Point(r) => put(r),
                SegX::Overlap(a, b) => {
                    put(Rat::of(a));
                    put(Rat::of(b));
                    e.overlaps.push((i, j));
                }
            }
        }
    }
    for (_, r) in at {
        let lines: Vec<usize> = (0..s.len()).filter(|i| contains(s[*i], &r)).collect();
        let interior = lines.iter().any(|i| !r.is(s[*i][0]) && !r.is(s[*i][1]));
        let vertex = lines.iter().any(|i| r.is(s[*i][0]) || r.is(s[*i][1]));
        e.points.push(XPoint { at: r, lines, interior, vertex });
    }
    e.points.sort_by(|a, b| (a.at.y * b.at.d).cmp(&(b.at.y * a.at.d)).then(a.at.cmp(&b.at)));
    e
}

/// What a sweep reported, judged against the exact points. `got` is in
/// lattice coordinates; `tol` is the position tolerance in lattice units.
/// `again` decides about a meeting which is reported again (within the tolerance).
pub fn judge(
    e: &Expected,
    got: &[([f64; 2], Vec<usize>)],
    ignore: bool,
    tol: f64,
    mut again: impl FnMut(String) -> Result<(), String>,
) -> Result<(), String> {
    let want: Vec<&XPoint> = e.points.iter().filter(|p| !ignore || p.interior).collect();
    let mut seen: Vec<Vec<usize>> = vec![vec![]; want.len()];
    let mut at: Vec<Vec<[f64; 2]>> = vec![vec![]; want.len()];
    for (pos, lines) in got {
        let d = |p: &XPoint| (p.at.fx() - pos[0]).abs().max((p.at.fy() - pos[1]).abs());
        let best = (0..want.len()).min_by(|a, b| d(want[*a]).total_cmp(&d(want[*b])));
        let k = match best {
            Some(k) if d(want[k]) <= tol => k,
            _ => {
                return Err(format!(
                    "reported an intersection at {pos:?} of {lines:?}, there is none (nearest exact one: {:?})",
                    best.map(|k| (want[k].at.fx(), want[k].at.fy(), &want[k].lines))
                ))
            }
        };
        for l in lines.windows(2) {
            if l[0] >= l[1] {
                return Err(format!("the line list {lines:?} at {pos:?} is not sorted and unique"));
            }
        }
        if lines.len() < 2 {
            return Err(format!("only {lines:?} reported at {pos:?}"));
        }
        for l in lines {
            if !want[k].lines.contains(l) {
                return Err(format!("segment {l} is reported at {pos:?} but does not contain that point; the ones which do: {:?}", want[k].lines));
            }
        }
        if !at[k].is_empty() {
            again(format!("the intersection at ({}, {}) is reported twice, at {pos:?} and {:?}", want[k].at.fx(), want[k].at.fy(), at[k]))?;
        }
        at[k].push(*pos);
        seen[k].extend(lines);
    }
    for (k, s) in seen.iter_mut().enumerate() {
        s.sort_unstable();
        s.dedup();
        let w = want[k];
        if *s != w.lines {
            return Err(format!(
                "segments {:?} meet at ({}, {}), reported: {:?}",
                w.lines,
                w.at.fx(),
                w.at.fy(),
                s
            ));
        }
    }
    Ok(())
}

use crate::gen::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Segment soups. Structure first: shared end points, T junctions (from both
/// ends), concurrent bundles, collinear overlaps, duplicates, points.
pub fn soup(b: i64, max: usize) -> BoxedStrategy<Vec<Seg>> {
    let one = (point(b), point(b), 0u8..20, 0usize..64, 0usize..64, 0i64..=8, point((b / 4).max(1)), -3i64..=3, -3i64..=3);
    (lists(one, 0, max), 0u8..6, point(b / 2))
        .prop_map(move |(v, style, hub)| {
            let mut s: Vec<Seg> = vec![];
            let c = |p: P| [p[0].clamp(-b, b), p[1].clamp(-b, b)];
            for (p, q, k, i, j, m, d, e, f) in v {
                let pick = |s: &Vec<Seg>, i: usize| if s.is_empty() { [p, q] } else { s[i % s.len()] };
                let along = |s: &Vec<Seg>, i: usize| crate::hulls::chord_point(&pick(s, i), 0, 1, m, [0, 0]);
                let diag = |p: P, q: P, k: u8| {
                    let l = q[0].abs().min(b - p[0].abs().max(p[1].abs()));
                    match k % 4 {
                        0 => [p, [q[0], p[1]]],
                        1 => [p, [p[0], q[1]]],
                        2 => [p, [p[0] + l, p[1] + l]],
                        _ => [p, [p[0] + l, p[1] - l]],
                    }
                };
                let new = match (style, k) {
                    (5, _) => diag(p, q, k),
                    (4, 0..=13) => [[hub[0] + d[0] * e, hub[1] + d[1] * e], [hub[0] + d[0] * f, hub[1] + d[1] * f]],
                    (0, _) => [p, q],
                    (_, 0..=5) => [p, q],
                    (_, 6..=7) => [p, pick(&s, i)[j % 2]],
                    (_, 8) => [pick(&s, i)[j % 2], pick(&s, j)[i % 2]],
                    (_, 9..=10) => [p, along(&s, i)],
                    (_, 11..=12) => [along(&s, i), q],
                    (_, 13) => [along(&s, i), along(&s, j)],
                    (_, 14) => diag(p, q, j as u8),
                    (_, 15) => {
                        // on the line of an earlier one
                        let [a, z] = pick(&s, i);
                        let w = [z[0] - a[0], z[1] - a[1]];
                        let g = gcd(w[0], w[1]).max(1);
                        let w = [w[0] / g, w[1] / g];
                        [[a[0] + w[0] * e, a[1] + w[1] * e], [a[0] + w[0] * (f + 2), a[1] + w[1] * (f + 2)]]
                    }
                    (_, 16) => {
                        let o = pick(&s, i);
                        if j % 2 == 0 { o } else { [o[1], o[0]] }
                    }
                    (3, 17) => [p, p],
                    (3, 18) => {
                        let a = along(&s, i);
                        [a, a]
                    }
                    _ => [p, q],
                };
                s.push([c(new[0]), c(new[1])]);
            }
            s
        })
        .boxed()
}
fn gcd(a: i64, b: i64) -> i64 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

/// Bundles of segments through points with coordinates which are no binary fractions, many of
/// them at the same height: the rounded positions of one point differ a little.
fn levels(b: i64, max: usize) -> BoxedStrategy<Vec<Seg>> {
    let one = (point(b), 0usize..4, 0u8..16, 0i64..3, point(b));
    (prop::collection::vec(-2 * b..=2 * b, 4), -b..=b, any::<bool>(), prop_oneof![Just(2i64), Just(4), Just(6)], lists(one, 2, max))
        .prop_map(move |(hubs, level, swap, m, v)| {
            let mut s: Vec<Seg> = vec![];
            for (p, i, k, t, q) in v {
                // the point h / (m + 1) is on the segment from p to h - m * p
                let h = [hubs[i], level];
                let mut n = match k {
                    0 => [p, q],
                    1 if !s.is_empty() => s[i % s.len()],
                    // ends at the level, if possible
                    2 => [p, [h[0], level.div_euclid(m + 1)]],
                    _ => [p, [h[0] - m * p[0], h[1] - m * p[1]]],
                };
                if t == 0 {
                    n = [n[1], n[0]];
                }
                if swap {
                    n = n.map(|p| [p[1], p[0]]);
                }
                s.push(n);
            }
            s
        })
        .boxed()
}
pub fn level_cases(max: usize) -> BoxedStrategy<SoupCase> {
    let g = grid_sweep().prop_map(|mut g| {
        g.ty = match g.ty {
            Ty::G32 => Ty::G64,
            Ty::C32 => Ty::C64,
            t => t,
        };
        g.off = [0, 0];
        g
    });
    (g, prop_oneof![levels(3, max), levels(8, max), levels(40, max)], any::<bool>(), prop::bool::weighted(0.1))
        .prop_map(|(g, s, ignore, stop)| SoupCase { g, s, ignore, stop, split: 0 })
        .boxed()
}

/// Maps: the edges of a jittered mesh, some of them missing, with a few long
/// lines and closed loops across.
pub fn meshes() -> BoxedStrategy<Vec<Seg>> {
    let e = |n: usize| prop::collection::vec(any::<u16>(), n);
    (2usize..=12, 2usize..=12, 6i64..=22, prop_oneof![1 => Just(0i64), 2 => 1i64..=7], 0u8..4)
        .prop_flat_map(move |(w, h, d, jit, keep)| {
            let n = w * h;
            (
                prop::collection::vec(point(jit.max(1)), n),
                e(4 * n),
                prop::collection::vec((any::<u16>(), any::<u16>(), prop::bool::weighted(0.7), point(260)), 0..=10),
                any::<u64>(),
            )
                .prop_map(move |(j, pick, cross, mix)| {
                    let (w, h) = (w as i64, h as i64);
                    let v: Vec<P> = (0..n as i64)
                        .map(|i| {
                            let (x, y) = (i % w, i / w);
                            let q = if jit == 0 { [0, 0] } else { j[i as usize] };
                            [(x - w / 2) * d + q[0], (y - h / 2) * d + q[1]]
                        })
                        .collect();
                    let at = |x: i64, y: i64| v[(y * w + x) as usize];
                    let mut s: Vec<Seg> = vec![];
                    for y in 0..h {
                        for x in 0..w {
                            let r = &pick[4 * (y * w + x) as usize..];
                            let on = |k: usize| r[k] as u32 % 8 >= keep as u32;
                            if x + 1 < w && on(0) {
                                s.push([at(x, y), at(x + 1, y)]);
                            }
                            if y + 1 < h && on(1) {
                                s.push([at(x, y), at(x, y + 1)]);
                            }
                            if x + 1 < w && y + 1 < h && on(2) {
                                s.push(if r[3] % 2 == 0 { [at(x, y), at(x + 1, y + 1)] } else { [at(x + 1, y), at(x, y + 1)] });
                            }
                        }
                    }
                    for (a, b, c, p) in cross {
                        let (a, b) = (v[a as usize % n], v[b as usize % n]);
                        s.push([a, if c { b } else { p }]);
                    }
                    // any order and direction
                    let mut m = mix | 1;
                    for i in (1..s.len()).rev() {
                        m = m.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        s.swap(i, (m >> 33) as usize % (i + 1));
                        if (m >> 20) & 1 == 1 {
                            s[i].swap(0, 1);
                        }
                    }
                    s
                })
        })
        .boxed()
}
/// Very many lines through one or two points.
fn fans() -> BoxedStrategy<Vec<Seg>> {
    (point(20), point(20), prop::collection::vec((point(60), prop_oneof![3 => 0i64..=2, 1 => -1i64..=3], any::<bool>()), 2..=120), lists([point(60), point(60)], 0, 6))
        .prop_map(|(a, b, f, mut s)| {
            for (i, (d, k, flip)) in f.into_iter().enumerate() {
                let c = if i % 4 == 3 { b } else { a };
                // starts at, ends at, or crosses the centre
                let p = [c[0] + d[0], c[1] + d[1]];
                let q = [c[0] - d[0] * k, c[1] - d[1] * k];
                s.push(if flip { [q, p] } else { [p, q] });
            }
            s
        })
        .boxed()
}
/// Very many lines side by side, some across.
fn combs() -> BoxedStrategy<Vec<Seg>> {
    let tooth = (-250i64..=250, -40i64..=40, 0i64..=80, -3i64..=3, any::<bool>());
    (prop::collection::vec(tooth, 10..=200), lists([point(250), point(250)], 0, 4), any::<bool>())
        .prop_map(|(t, mut s, swap)| {
            for (x, y, h, dx, flip) in t {
                let (p, q) = ([x, y], [x + dx, y + h]);
                s.push(if flip { [q, p] } else { [p, q] });
            }
            if swap {
                s.iter_mut().flatten().for_each(|p| p.swap(0, 1));
            }
            s
        })
        .boxed()
}
pub fn mesh_cases() -> BoxedStrategy<SoupCase> {
    let g = grid_sweep().prop_map(|mut g| {
        g.ty = match g.ty {
            Ty::G32 => Ty::G64,
            Ty::C32 => Ty::C64,
            t => t,
        };
        g
    });
    (g, prop_oneof![12 => meshes(), 2 => fans(), 1 => combs()], any::<bool>(), prop::bool::weighted(0.1), prop_oneof![3 => Just(0usize), 1 => 0usize..200])
        .prop_map(|(g, s, ignore, stop, split)| SoupCase { g, s, ignore, stop, split })
        .boxed()
}

/// Soups on a small lattice, far away from the origin.
pub fn far_cases(max: usize) -> BoxedStrategy<SoupCase> {
    let o = || prop_oneof![1 => -(1i64 << 12)..=(1i64 << 12), 2 => -(1i64 << 22)..=(1i64 << 22), 1 => Just(0i64)];
    (
        prop_oneof![4 => Just(Ty::G64), 1 => Just(Ty::C64)],
        prop_oneof![3 => Just(0i8), 1 => Just(-6i8), 1 => Just(9i8)],
        [o(), o()],
        prop_oneof![soup(3, max), soup(8, max), soup(20, max), levels(3, max), levels(8, max)],
        any::<bool>(),
        prop::bool::weighted(0.1),
        prop_oneof![4 => Just(0usize), 1 => 0usize..12],
    )
        .prop_map(|(ty, exp, off, s, ignore, stop, split)| SoupCase { g: Grid { ty, exp, off }, s, ignore, stop, split })
        .boxed()
}
/// Soups on a small lattice, then warped.
pub fn warped_cases(max: usize) -> BoxedStrategy<SoupCase> {
    (grid_wide(), warp(2000, 6), prop_oneof![soup(3, max), soup(6, max), soup(12, max)], any::<bool>(), prop::bool::weighted(0.1), prop_oneof![4 => Just(0usize), 1 => 0usize..12])
        .prop_map(|(g, w, s, ignore, stop, split)| SoupCase { g, s: s.iter().map(|s| s.map(|p| w.p(p))).collect(), ignore, stop, split })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SoupCase {
    pub g: Grid,
    pub s: Vec<Seg>,
    pub ignore: bool,
    pub stop: bool,
    /// lines are added in two steps, split here
    pub split: usize,
}
pub fn soup_cases(max: usize) -> BoxedStrategy<SoupCase> {
    let rest = || (any::<bool>(), prop::bool::weighted(0.15), prop_oneof![4 => Just(0usize), 1 => 0usize..12]);
    let mk = |(g, s, (ignore, stop, split))| SoupCase { g, s, ignore, stop, split };
    let f32s = (
        (prop_oneof![Just(Ty::G32), Just(Ty::C32)], prop_oneof![4 => Just(0i8), 1 => Just(-3i8), 1 => Just(4i8), 1 => Just(-6i8), 1 => Just(13i8)])
            .prop_map(|(ty, exp)| Grid { ty, exp, off: [0, 0] }),
        prop_oneof![soup(3, max.min(12)), soup(6, max.min(10))],
        rest(),
    )
        .prop_map(mk);
    let f64s = (
        grid_sweep().prop_map(|mut g| {
            g.ty = match g.ty {
                Ty::G32 => Ty::G64,
                Ty::C32 => Ty::C64,
                t => t,
            };
            g
        }),
        prop_oneof![2 => soup(3, max), 2 => soup(8, max), 2 => soup(20, max), 1 => soup(300, max)],
        rest(),
    )
        .prop_map(mk);
    prop_oneof![3 => f64s, 1 => f32s].boxed()
}
pub fn labels(e: &Expected, s: &[Seg], ignore: bool, rec: &mut crate::Rec) {
    let inter: Vec<&XPoint> = e.points.iter().filter(|p| !ignore || p.interior).collect();
    rec.nontrivial_if(!inter.is_empty());
    rec.label_if(!e.overlaps.is_empty(), "collinear-overlap");
    rec.label_if(e.zero_len, "zero-length");
    rec.label_if(e.points.iter().any(|p| p.lines.len() > 2), "three-or-more-at-a-point");
    rec.label_if(s.iter().any(|s| s[0][1] == s[1][1] && s[0] != s[1]), "horizontal");
    rec.label_if(
        e.points
            .iter()
            .any(|p| p.interior && p.lines.iter().any(|l| p.at.is(s[*l][0]) || p.at.is(s[*l][1]))),
        "t-junction",
    );
    rec.label_if(
        e.points.iter().any(|p| p.lines.iter().filter(|l| !p.at.is(s[**l][0]) && !p.at.is(s[**l][1])).count() > 1),
        "proper-crossing",
    );
}
/// The one entry of a sweep which stops at the first intersection.
pub fn judge_first(e: &Expected, got: &[([f64; 2], Vec<usize>)], ignore: bool, tol: f64) -> Result<(), String> {
    let want: Vec<&XPoint> = e.points.iter().filter(|p| !ignore || p.interior).collect();
    if want.is_empty() {
        return if got.is_empty() { Ok(()) } else { Err(format!("{got:?} reported, there are no intersections")) };
    }
    if got.len() != 1 {
        return Err(format!("stop at first: {} results, exact first intersection ({}, {})", got.len(), want[0].at.fx(), want[0].at.fy()));
    }
    let (pos, lines) = &got[0];
    let near = |p: &XPoint| (p.at.fx() - pos[0]).abs() <= tol && (p.at.fy() - pos[1]).abs() <= tol;
    match want.iter().find(|p| near(p)) {
        None => Err(format!("stop at first: {pos:?} is no intersection")),
        Some(p) => {
            if p.at.fy() > want[0].at.fy() + tol || (p.at.fy() == want[0].at.fy() && pos[1] >= want[0].at.fy() && p.vertex && want[0].vertex && p.at.fx() > want[0].at.fx()) {
                return Err(format!("stop at first: {pos:?} is not the first one, ({}, {}) is", want[0].at.fx(), want[0].at.fy()));
            }
            let all = lines.iter().all(|l| p.lines.contains(l)) && lines.len() >= 2;
            // a rounded position may be that of some of the lines only
            let exact = p.at.d == 1 && *pos == [p.at.fx(), p.at.fy()];
            if !all || (exact && *lines != p.lines) {
                return Err(format!("stop at first: {lines:?} reported at {pos:?}, exact {:?}", p.lines));
            }
            Ok(())
        }
    }
}

/// How points of a wide drawing are made to fit: with single precision they
/// lose bits, and a drawing may be flattened along one axis.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fit {
    pub ty: Ty,
    pub axis: usize,
    pub shift: u32,
}
pub fn fit() -> BoxedStrategy<Fit> {
    (ty(), 0usize..2, prop_oneof![3 => Just(0u32), 1 => 1u32..40]).prop_map(|(ty, axis, shift)| Fit { ty, axis, shift }).boxed()
}
impl Fit {
    /// the smallest area on the lattice is not to be mistaken for zero by absolute tolerances
    pub fn exp(&self, exp: i8) -> i8 {
        let double = matches!(self.ty, Ty::G64 | Ty::C64);
        match (double, self.shift) {
            (true, 0) => exp,
            (true, _) => exp.max(-24),
            _ => exp.max(-9),
        }
    }
    pub fn point(&self, m: i64, mut p: P) -> P {
        let bits = 63 - m.leading_zeros();
        let s = if matches!(self.ty, Ty::G64 | Ty::C64) { 0 } else { bits.saturating_sub(23) };
        p = p.map(|c| c >> s);
        p[self.axis] >>= self.shift.min(bits);
        p
    }
}

/// Rounding decides the order of two events (ends and crossings) on a line which
/// leans to the left, e.g. because it is almost horizontal (known finding "same-height").
pub fn same_height(s: &[Seg], u: f64, eps: f64) -> bool {
    let big = s.iter().flatten().flatten().map(|c| c.abs()).max().unwrap_or(1) as f64;
    let tol = eps * (16.0 * big).max(16.0 / u);
    s.iter().enumerate().any(|(i, [a, b])| {
        let (r, h) = ([(b[0] - a[0]) as f64, (b[1] - a[1]) as f64], (b[1] - a[1]).abs() as f64);
        if r[1] == 0.0 || r[0] / r[1] > 0.0 {
            return false;
        }
        // heights above a of the events
        let mut at = vec![0.0, r[1]];
        for (j, [c, d]) in s.iter().enumerate() {
            let t = [(d[0] - c[0]) as f64, (d[1] - c[1]) as f64];
            let den = r[0] * t[1] - r[1] * t[0];
            if i != j && den != 0.0 && exact::meet(*a, *b, *c, *d) {
                let k = ((c[0] - a[0]) as f64 * t[1] - (c[1] - a[1]) as f64 * t[0]) / den;
                // crossings at the very end of the line are no further events
                if k * h > 1e-9 * tol && (1.0 - k) * h > 1e-9 * tol {
                    at.push(k * r[1]);
                }
            }
        }
        at.sort_by(f64::total_cmp);
        at.windows(2).any(|w| w[1] - w[0] <= tol)
    })
}

/// Pair-level oracle for soups on a wide lattice (exact orientation tests).
/// Rounding may decide about an end point which is almost on another segment,
/// and about three segments (two of them overlapping, perhaps) almost through one point.
/// Returns the number of intersecting pairs.
pub fn judge_pairs(
    s: &[Seg],
    got: &[([f64; 2], Vec<usize>)],
    ignore: bool,
    u: f64,
    eps: f64,
    mut again: impl FnMut(String) -> Result<(), String>,
) -> Result<usize, String> {
    use std::collections::BTreeSet;
    let big = s.iter().flatten().flatten().map(|c| c.abs()).max().unwrap_or(1) as f64;
    // positions are compared with an absolute tolerance as well
    let tol = eps * (64.0 * big).max(16.0 / u);
    let distance = |p: [f64; 2], [a, b]: Seg| {
        let (v, w) = ([(b[0] - a[0]) as f64, (b[1] - a[1]) as f64], [p[0] - a[0] as f64, p[1] - a[1] as f64]);
        let l = v[0] * v[0] + v[1] * v[1];
        let t = if l > 0.0 { ((v[0] * w[0] + v[1] * w[1]) / l).clamp(0.0, 1.0) } else { 0.0 };
        (w[0] - t * v[0]).hypot(w[1] - t * v[1])
    };
    let close = |p: P, l: Seg| !l.contains(&p) && distance([p[0] as f64, p[1] as f64], l) <= tol;
    let mut want = BTreeSet::new();
    let mut either = BTreeSet::new();
    for i in 0..s.len() {
        for j in i + 1..s.len() {
            let common = s[i].iter().any(|p| s[j].contains(p));
            if (0..2).any(|k| close(s[i][k], s[j]) || close(s[j][k], s[i])) {
                either.insert((i, j));
            } else if exact::meet(s[i][0], s[i][1], s[j][0], s[j][1]) {
                if common && ignore {
                    // reported all the same if another segment runs through that point, or if they overlap
                    let at = s[i].iter().find(|p| s[j].contains(p)).unwrap();
                    let d = |s: Seg| [(s[1][0] - s[0][0]) as i128, (s[1][1] - s[0][1]) as i128];
                    let (v, w) = (d(s[i]), d(s[j]));
                    let rxs = v[0] * w[1] - v[1] * w[0];
                    if s.iter().any(|l| close(*at, *l)) || rxs == 0 {
                        either.insert((i, j));
                    }
                } else {
                    want.insert((i, j));
                }
            }
        }
    }
    // is the crossing of i and j almost on another segment?
    let crowded = |i: usize, j: usize| {
        let ([a, b], [c, d]) = (s[i], s[j]);
        let at = match s[i].iter().find(|p| s[j].contains(p)) {
            Some(p) => [p[0] as f64, p[1] as f64],
            None => {
                let (r, t) = ([(b[0] - a[0]) as f64, (b[1] - a[1]) as f64], [(d[0] - c[0]) as f64, (d[1] - c[1]) as f64]);
                let k = ((c[0] - a[0]) as f64 * t[1] - (c[1] - a[1]) as f64 * t[0]) / (r[0] * t[1] - r[1] * t[0]);
                [a[0] as f64 + k * r[0], a[1] as f64 + k * r[1]]
            }
        };
        (0..s.len()).any(|k| k != i && k != j && s[k][0] != s[k][1] && distance(at, s[k]) <= 4.0 * tol)
    };
    let mut have = BTreeSet::new();
    for (p, l) in got {
        let p = [p[0] / u, p[1] / u];
        for i in 0..l.len() {
            let [a, b] = s[l[i]];
            let (dx, dy) = ((b[0] - a[0]) as f64, (b[1] - a[1]) as f64);
            let len = dx.hypot(dy).max(1.0);
            let dist = ((p[0] - a[0] as f64) * dy - (p[1] - a[1] as f64) * dx).abs() / len;
            if dist > tol && !l.iter().any(|k| either.contains(&(l[i].min(*k), l[i].max(*k)))) {
                return Err(format!("{p:?} is {dist} off segment {} {:?}", l[i], s[l[i]]));
            }
            for j in i + 1..l.len() {
                // lines with a common end point are next to each other where a third one crosses them
                if ignore && l.len() > 2 && s[l[i]].iter().any(|p| s[l[j]].contains(p)) && distance(p, s[l[i]]).max(distance(p, s[l[j]])) <= tol {
                    either.insert((l[i], l[j]));
                }
                let new = have.insert((l[i], l[j]));
                // segments in different directions meet once; copies of them (other
                // segments on nearly the same line) may get another rounded position
                let parallel = |x: Seg, y: Seg| {
                    let d = |s: Seg| [(s[1][0] - s[0][0]) as f64, (s[1][1] - s[0][1]) as f64];
                    let (x, y) = (d(x), d(y));
                    (x[0] * y[1] - x[1] * y[0]).abs() <= eps.powf(0.25) * x[0].hypot(x[1]) * y[0].hypot(y[1])
                };
                let copy = |i: usize| (0..s.len()).any(|k| k != i && parallel(s[i], s[k]) && exact::meet(s[i][0], s[i][1], s[k][0], s[k][1]));
                if !new && !either.contains(&(l[i], l[j])) && !crowded(l[i], l[j]) && !parallel(s[l[i]], s[l[j]]) && !copy(l[i]) && !copy(l[j]) {
                    again(format!("segments {} {:?} and {} {:?} are reported twice, {:?}", l[i], s[l[i]], l[j], s[l[j]], got.iter().filter(|r| r.1.contains(&l[i]) && r.1.contains(&l[j])).map(|r| (r.0.map(|x| x / u), &r.1)).collect::<Vec<_>>()))?;
                }
            }
        }
    }
    for w in &want {
        if !have.contains(w) && !crowded(w.0, w.1) {
            return Err(format!("segments {w:?} intersect ({:?} {:?}) but are not reported together", s[w.0], s[w.1]));
        }
    }
    for h in &have {
        if !want.contains(h) && !either.contains(h) {
            return Err(format!("segments {h:?} are reported together but do not intersect ({:?} {:?})", s[h.0], s[h.1]));
        }
    }
    Ok(want.len())
}

/// The reported positions, as reported, are ordered by (y, x). Rounding may
/// move a point a little: the order within a row is only decided by equal
/// coordinates.
/// `loose` positions may have been moved to a vertex next to them.
pub fn judge_order(raw: &[[f64; 2]], tol: f64, loose: impl Fn(usize) -> bool) -> Result<(), String> {
    for (i, w) in raw.windows(2).enumerate() {
        let row = w[0][1] == w[1][1] && !loose(i) && !loose(i + 1);
        if w[0][1] > w[1][1] + tol || (row && w[0][0] >= w[1][0]) {
            return Err(format!("{:?} is reported after {:?}", w[1], w[0]));
        }
    }
    Ok(())
}
