//! Exact integer geometry: the oracles.  Everything is i128 on lattice points,
//! written independently of the code under test.
pub type P = [i64; 2];

pub fn cross(a: P, b: P, c: P) -> i128 {
    let (ax, ay) = (a[0] as i128, a[1] as i128);
    (b[0] as i128 - ax) * (c[1] as i128 - ay) - (b[1] as i128 - ay) * (c[0] as i128 - ax)
}
pub fn dot(a: P, b: P, c: P) -> i128 {
    let (ax, ay) = (a[0] as i128, a[1] as i128);
    (b[0] as i128 - ax) * (c[0] as i128 - ax) + (b[1] as i128 - ay) * (c[1] as i128 - ay)
}
pub fn dist2(a: P, b: P) -> i128 {
    let dx = a[0] as i128 - b[0] as i128;
    let dy = a[1] as i128 - b[1] as i128;
    dx * dx + dy * dy
}
/// p lies on the closed segment a-b (a == b allowed)
pub fn on_seg(a: P, b: P, p: P) -> bool {
    cross(a, b, p) == 0
        && p[0] >= a[0].min(b[0])
        && p[0] <= a[0].max(b[0])
        && p[1] >= a[1].min(b[1])
        && p[1] <= a[1].max(b[1])
}

/// An exact rational point (x/d, y/d), d > 0.
#[derive(Clone, Copy, Debug)]
pub struct Rat {
    pub x: i128,
    pub y: i128,
    pub d: i128,
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
impl Rat {
    pub fn new(x: i128, y: i128, d: i128) -> Rat {
        let (x, y, d) = if d < 0 { (-x, -y, -d) } else { (x, y, d) };
        let g = gcd(gcd(x, y), d).max(1);
        Rat {
            x: x / g,
            y: y / g,
            d: d / g,
        }
    }
    pub fn of(p: P) -> Rat {
        Rat {
            x: p[0] as i128,
            y: p[1] as i128,
            d: 1,
        }
    }
    pub fn fx(&self) -> f64 {
        rat_f64(self.x, self.d)
    }
    pub fn fy(&self) -> f64 {
        rat_f64(self.y, self.d)
    }
    pub fn key(&self) -> (i128, i128, i128) {
        (self.x, self.y, self.d)
    }
    pub fn is(&self, p: P) -> bool {
        self.x == p[0] as i128 * self.d && self.y == p[1] as i128 * self.d
    }
}
impl PartialEq for Rat {
    fn eq(&self, o: &Rat) -> bool {
        self.key() == o.key()
    }
}
impl Eq for Rat {}
impl PartialOrd for Rat {
    fn partial_cmp(&self, o: &Rat) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rat {
    fn cmp(&self, o: &Rat) -> std::cmp::Ordering {
        (self.x * o.d)
            .cmp(&(o.x * self.d))
            .then((self.y * o.d).cmp(&(o.y * self.d)))
    }
}
pub fn rat_f64(n: i128, d: i128) -> f64 {
    // integer part exactly, fraction in f64: error well below 1e-15 relative
    let q = n.div_euclid(d);
    let r = n.rem_euclid(d);
    q as f64 + (r as f64) / (d as f64)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SegX {
    None,
    Point(Rat),
    /// a proper collinear overlap, ends sorted lexicographically
    Overlap(P, P),
}

/// Exact intersection of two closed segments (points allowed).
pub fn seg_x(a: P, b: P, c: P, d: P) -> SegX {
    if a == b {
        return if on_seg(c, d, a) {
            SegX::Point(Rat::of(a))
        } else {
            SegX::None
        };
    }
    if c == d {
        return if on_seg(a, b, c) {
            SegX::Point(Rat::of(c))
        } else {
            SegX::None
        };
    }
    let r = [b[0] - a[0], b[1] - a[1]];
    let s = [d[0] - c[0], d[1] - c[1]];
    let rxs = r[0] as i128 * s[1] as i128 - r[1] as i128 * s[0] as i128;
    if rxs == 0 {
        if cross(a, b, c) != 0 {
            return SegX::None;
        }
        let (a0, a1) = if a <= b { (a, b) } else { (b, a) };
        let (c0, c1) = if c <= d { (c, d) } else { (d, c) };
        let lo = a0.max(c0);
        let hi = a1.min(c1);
        return match lo.cmp(&hi) {
            std::cmp::Ordering::Less => SegX::Overlap(lo, hi),
            std::cmp::Ordering::Equal => SegX::Point(Rat::of(lo)),
            std::cmp::Ordering::Greater => SegX::None,
        };
    }
    let q = [c[0] - a[0], c[1] - a[1]];
    let tn = q[0] as i128 * s[1] as i128 - q[1] as i128 * s[0] as i128;
    let un = q[0] as i128 * r[1] as i128 - q[1] as i128 * r[0] as i128;
    let (tn, un, den) = if rxs < 0 {
        (-tn, -un, -rxs)
    } else {
        (tn, un, rxs)
    };
    if tn < 0 || tn > den || un < 0 || un > den {
        return SegX::None;
    }
    SegX::Point(Rat::new(
        a[0] as i128 * den + tn * r[0] as i128,
        a[1] as i128 * den + tn * r[1] as i128,
        den,
    ))
}

/// Do two closed segments (points allowed) share a point? For coordinates up to 2^60.
pub fn meet(a: P, b: P, c: P, d: P) -> bool {
    let s = |p, q, r| cross(p, q, r).signum();
    let (x, y, z, w) = (s(a, b, c), s(a, b, d), s(c, d, a), s(c, d, b));
    if on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b) {
        return true;
    }
    x * y < 0 && z * w < 0
}

/// Strict convex hull (no collinear vertices), counter-clockwise, starting at
/// the lexicographically smallest point, not closed.  Andrew's monotone chain.
pub fn hull(pts: &[P]) -> Vec<P> {
    let mut p = pts.to_vec();
    p.sort();
    p.dedup();
    if p.len() <= 2 {
        return p;
    }
    let mut lower: Vec<P> = vec![];
    for &q in &p {
        while lower.len() >= 2 && cross(lower[lower.len() - 2], lower[lower.len() - 1], q) <= 0 {
            let _ = lower.pop();
        }
        lower.push(q);
    }
    let mut upper: Vec<P> = vec![];
    for &q in p.iter().rev() {
        while upper.len() >= 2 && cross(upper[upper.len() - 2], upper[upper.len() - 1], q) <= 0 {
            let _ = upper.pop();
        }
        upper.push(q);
    }
    let _ = lower.pop();
    let _ = upper.pop();
    lower.extend(upper);
    lower
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Side {
    Outside,
    Boundary,
    Inside,
}
/// Where p lies relative to the convex hull h (as returned by `hull`).
pub fn in_hull(h: &[P], p: P) -> Side {
    match h.len() {
        0 => Side::Outside,
        1 => {
            if h[0] == p {
                Side::Boundary
            } else {
                Side::Outside
            }
        }
        2 => {
            if on_seg(h[0], h[1], p) {
                Side::Boundary
            } else {
                Side::Outside
            }
        }
        n => {
            let mut side = Side::Inside;
            for i in 0..n {
                let c = cross(h[i], h[(i + 1) % n], p);
                if c < 0 {
                    return Side::Outside;
                }
                if c == 0 {
                    side = Side::Boundary;
                }
            }
            side
        }
    }
}
