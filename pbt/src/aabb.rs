//! Reference model of an axis aligned bounding box on lattice points.
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Model<const N: usize>(pub Option<([i64; N], [i64; N])>);
impl<const N: usize> Model<N> {
    pub fn of(pts: &[[i64; N]]) -> Self {
        let mut m = Model(None);
        for p in pts {
            m.add(*p);
        }
        m
    }
    pub fn add(&mut self, p: [i64; N]) {
        self.0 = Some(match self.0 {
            None => (p, p),
            Some((lo, hi)) => (
                std::array::from_fn(|i| lo[i].min(p[i])),
                std::array::from_fn(|i| hi[i].max(p[i])),
            ),
        });
    }
    pub fn merge(&mut self, o: Self) {
        if let Some((a, b)) = o.0 {
            self.add(a);
            self.add(b);
        }
    }
    pub fn has(&self, p: [i64; N]) -> bool {
        self.0.is_some_and(|(lo, hi)| (0..N).all(|i| lo[i] <= p[i] && p[i] <= hi[i]))
    }
    pub fn has_box(&self, o: Self) -> bool {
        o.0.is_some_and(|(a, b)| self.has(a) && self.has(b))
    }
    /// Points at, just inside and just outside the limits of the box.
    pub fn probes(&self) -> Vec<[i64; N]> {
        let Some((lo, hi)) = self.0 else {
            return vec![[0; N], [1; N]];
        };
        let mid: [i64; N] = std::array::from_fn(|i| lo[i] + (hi[i] - lo[i]) / 2);
        let mut v = vec![lo, hi, mid];
        for i in 0..N {
            for d in [-1, 0, 1] {
                for base in [lo, hi, mid] {
                    for lim in [lo[i], hi[i]] {
                        let mut p = base;
                        p[i] = lim + d;
                        v.push(p);
                    }
                }
            }
        }
        v
    }
}

/// What `Op::Map` does to a position.
pub fn map_axes<const N: usize>(p: [f64; N], mirror: u8, turn: u8, mul: i8) -> [f64; N] {
    std::array::from_fn(|i| p[(i + turn as usize) % N] * mul as f64 * if mirror >> i & 1 == 1 { -1.0 } else { 1.0 })
}
/// ... and on a lattice with the offset `off`
pub fn map_lattice<const N: usize>(p: [i64; N], off: [i64; N], mirror: u8, turn: u8, mul: i8) -> [i64; N] {
    let f: [f64; N] = std::array::from_fn(|i| (p[i] + off[i] as i64) as f64);
    let q = map_axes(f, mirror, turn, mul);
    std::array::from_fn(|i| q[i] as i64 - off[i] as i64)
}

/// One step of a history of a bounding box.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op<P> {
    Point(P),
    Points(Vec<P>),
    /// merge with the box of these points
    Box(Vec<P>),
    /// translate
    Move(P),
    /// mirror (bit i: axis i), rotate the order of the axes, multiply
    Map(u8, u8, i8),
    /// start over, built at once from the points
    With(Vec<P>),
    /// ... from an iterator
    Iter(Vec<P>),
    /// ... from two opposite corners / a single point
    New(P, P),
    Clear,
}
