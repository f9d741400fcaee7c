//! Oracle shared by the hull checks.
use crate::exact::{self, P};
use crate::Fl;
use proptest::prelude::*;

/// Is `got` (a list of vertices as returned) the closed, counter-clockwise,
/// strictly convex hull of `pts`?
pub fn judge(pts: &[P], got: &[P]) -> Result<(), String> {
    let h = exact::hull(pts);
    match h.len() {
        0 => {
            if !got.is_empty() {
                return Err(format!("hull of nothing is {got:?}"));
            }
        }
        1 => {
            if got.is_empty() || got.len() > 2 || got.iter().any(|p| *p != h[0]) {
                return Err(format!("hull of the single point {:?} is {got:?}", h[0]));
            }
        }
        n => {
            if got.len() < 2 || got.first() != got.last() {
                return Err(format!("not a closed list: {got:?}, hull is {h:?}"));
            }
            let open = &got[..got.len() - 1];
            if open.len() != n {
                return Err(format!("hull {got:?}, exact hull is {h:?}"));
            }
            let Some(k) = open.iter().position(|p| *p == h[0]) else {
                return Err(format!("hull {got:?} misses {:?}", h[0]));
            };
            for i in 0..n {
                if open[(k + i) % n] != h[i] {
                    return Err(format!("hull {got:?}, exact hull is {h:?}"));
                }
            }
        }
    }
    Ok(())
}

/// How indices are selected: raw picks modulo the number of vertices; an even
/// first pick keeps the list duplicate-free, 1 mod 4 closes it as a loop.
pub fn indices(pts: &[P], raw: &[u16]) -> Vec<usize> {
    if pts.is_empty() {
        return vec![];
    }
    let Some((mode, raw)) = raw.split_first() else {
        return (0..pts.len()).collect();
    };
    let mut v: Vec<usize> = raw.iter().map(|r| *r as usize % pts.len()).collect();
    if mode % 4 != 3 {
        let mut seen = std::collections::HashSet::new();
        v.retain(|i| seen.insert(*i));
    }
    if mode % 4 == 1 && v.len() > 1 {
        v.push(v[0]);
    }
    v
}
pub fn index_picks(max: usize) -> impl Strategy<Value = Vec<u16>> + Clone {
    prop_oneof![
        1 => Just(vec![]),
        4 => prop::collection::vec(0u16..1000, 0..=max),
    ]
}

/// A strictly convex counter-clockwise polygon made from a point cloud, blown
/// up by `mul` so that its chords carry lattice points, rotated by `rot`.
pub fn polygon(pts: &[P], mul: i64, rot: usize) -> Vec<P> {
    let p: Vec<P> = pts.iter().map(|p| [p[0] * mul, p[1] * mul]).collect();
    let mut h = exact::hull(&p);
    if !h.is_empty() {
        let n = h.len();
        h.rotate_left(rot % n);
    }
    h
}
fn gcd(a: i64, b: i64) -> i64 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
/// A lattice point on the line through two polygon vertices (interior of the
/// chord, its ends, or just beyond), displaced by `d`.
pub fn chord_point(h: &[P], i: usize, j: usize, k: i64, d: P) -> P {
    if h.is_empty() {
        return d;
    }
    let (a, b) = (h[i % h.len()], h[j % h.len()]);
    let v = [b[0] - a[0], b[1] - a[1]];
    let g = gcd(v[0], v[1]).max(1);
    let k = k.rem_euclid(g + 3) - 1;
    [a[0] + v[0] / g * k + d[0], a[1] + v[1] / g * k + d[1]]
}

/// Corners of convex lattice polygons with many corners (up to about 240, within +-110).
pub fn many_corners() -> impl Strategy<Value = Vec<P>> + Clone {
    (2i64..=8, prop::collection::vec(any::<u8>(), 128), 1u8..=8).prop_map(|(r, mask, keep)| {
        let mut e: Vec<P> = vec![];
        let mut n = 0;
        for x in -r..=r {
            for y in 0..=r {
                if (y > 0 || x > 0) && x * x + y * y <= r * r && gcd(x, y) == 1 {
                    if mask[n % 128] & 7 < keep {
                        e.push([x, y]);
                        e.push([-x, -y]);
                    }
                    n += 1;
                }
            }
        }
        e.sort_by(|a, b| (a[1] as f64).atan2(a[0] as f64).total_cmp(&(b[1] as f64).atan2(b[0] as f64)));
        let mut c = [0i64, 0];
        let mut v: Vec<P> = e
            .iter()
            .map(|d| {
                c = [c[0] + d[0], c[1] + d[1]];
                c
            })
            .collect();
        if v.is_empty() {
            return vec![[0, 0]];
        }
        let m = [0, 1].map(|a| {
            let f = |x: i64, w: fn(i64, i64) -> i64| v.iter().map(|p| p[a]).fold(x, w);
            (f(i64::MAX, i64::min) + f(i64::MIN, i64::max)) / 2
        });
        // any selection of corners of a convex polygon is one
        let mut i = 0;
        v.retain(|_| {
            i += 1;
            mask[(i * 7) % 128] >> 3 != 0
        });
        v.iter().map(|p| [p[0] - m[0], p[1] - m[1]]).collect()
    })
}

/// The counter-clockwise hull from the lowest x, if no three distinct points
/// are collinear to within rounding.
pub fn clear_hull(q: &[[f64; 2]], eps: f64) -> Option<Vec<[f64; 2]>> {
    let mut s = q.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    s.dedup();
    let cross = |a: [f64; 2], b: [f64; 2], c: [f64; 2]| {
        let (u, v) = ([b[0] - a[0], b[1] - a[1]], [c[0] - a[0], c[1] - a[1]]);
        (u[0] * v[1] - u[1] * v[0], u[0].hypot(u[1]) * v[0].hypot(v[1]))
    };
    for i in 0..s.len() {
        for j in i + 1..s.len() {
            for k in j + 1..s.len() {
                for (a, b, c) in [(i, j, k), (j, i, k), (k, i, j)] {
                    let (x, m) = cross(s[a], s[b], s[c]);
                    if x.abs() <= 256.0 * eps * m + 64.0 * eps {
                        return None;
                    }
                }
            }
        }
    }
    if s.len() <= 2 {
        return Some(s);
    }
    let mut half = |it: &mut dyn Iterator<Item = &[f64; 2]>| {
        let mut h: Vec<[f64; 2]> = vec![];
        for p in it {
            while h.len() > 1 && cross(h[h.len() - 2], h[h.len() - 1], *p).0 < 0.0 {
                h.pop();
            }
            h.push(*p);
        }
        h.pop();
        h
    };
    let mut h = half(&mut s.iter());
    h.extend(half(&mut s.iter().rev()));
    Some(h)
}

/// Clouds of full precision floats: scattered, on a coarse decimal grid, nearly
/// on one line, a grid of summed up steps.
pub fn float_clouds() -> BoxedStrategy<Vec<[Fl; 2]>> {
    let f = |b: f64| (-b..b).prop_map(Fl);

        let tenths = (-30i32..=30).prop_map(|k| Fl(k as f64 * 0.1));
        let grid = (1i32..=12, 1i32..=40, 1i32..=100).prop_map(|(w, h, d)| {
            // a grid walked back and forth, coordinates summed up
            let s = 1.0 / d as f32;
            let (mut x, mut y, mut dx) = (0f32, 0f32, s);
            let mut v = vec![];
            for _ in 0..h {
                for _ in 0..w {
                    v.push([Fl(x as f64), Fl(y as f64)]);
                    x += dx;
                }
                v.push([Fl(x as f64), Fl(y as f64)]);
                dx *= -1.0;
                y += s;
            }
            v
        });
        let line = (f(10.0), f(10.0), prop::collection::vec(prop_oneof![Just(0.0), -1.0..1.0f64, Just(0.5), Just(1.0)], 1..=30)).prop_map(|(x, y, t)| {
            t.iter().map(|t| [Fl(x.0 * t), Fl(y.0 * t + 1.0)]).collect::<Vec<_>>()
        });
        prop_oneof![
            3 => prop::collection::vec([f(1.0), f(1.0)], 1..=40),
            3 => prop::collection::vec([f(1000.0), f(1000.0)], 1..=40),
            2 => prop::collection::vec([tenths.clone(), tenths], 1..=40),
            2 => line,
            1 => grid,
        ]
        .boxed()
}

/// Corners of full precision ellipses, rotated and far from the origin or not.
pub fn float_rounds() -> BoxedStrategy<Vec<[Fl; 2]>> {
    (0.5..100.0f64, 0.5..100.0f64, 0.0..6.3f64, [-100.0..100.0f64, -100.0..100.0f64], prop::collection::vec(0.0..6.283f64, 3..=40))
        .prop_map(|(a, b, r, c, t)| {
            t.iter()
                .map(|t| {
                    let (x, y) = (a * t.cos(), b * t.sin());
                    [Fl(c[0] + x * r.cos() - y * r.sin()), Fl(c[1] + x * r.sin() + y * r.cos())]
                })
                .collect()
        })
        .boxed()
}

/// On which side of the border of `h` (counter-clockwise) is `p`? None when
/// rounding might decide.
pub fn clear_side(h: &[[f64; 2]], p: [f64; 2], eps: f64) -> Option<bool> {
    let mut inside = true;
    let mut clear = true;
    for i in 0..h.len() {
        let (a, b) = (h[i], h[(i + 1) % h.len()]);
        let (u, v) = ([b[0] - a[0], b[1] - a[1]], [p[0] - a[0], p[1] - a[1]]);
        let x = u[0] * v[1] - u[1] * v[0];
        if x.abs() <= 64.0 * eps * (1.0 + u[0].hypot(u[1]) * v[0].hypot(v[1])) {
            clear = false;
        } else if x < 0.0 {
            inside = false;
        }
    }
    // clearly outside of one edge is outside
    if !inside {
        return Some(false);
    }
    clear.then_some(true)
}
