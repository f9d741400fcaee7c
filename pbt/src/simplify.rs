//! Validity predicates for line simplification.  They accept every output the
//! algorithm may produce (free choice between equally far / equally small
//! candidates, rounding) and nothing else.
use std::collections::HashMap;

/// A non-negative quantity known up to `err`.
#[derive(Clone, Copy, Debug)]
pub struct Q {
    pub v: f64,
    pub err: f64,
}

/// num/den as computed by scalars of precision `eps` from exact integers.
pub fn q_rat(num: i128, den: i128, eps: f64) -> Q {
    let v = num as f64 / den as f64;
    let exact = num < (1.0 / eps) as i128 && num % den == 0;
    Q {
        v,
        err: if exact { 0.0 } else { 16.0 * eps * v },
    }
}

/// Squared distance from p to the closed segment a-b, exact integers.
pub fn seg_dist2(a: [i64; 3], b: [i64; 3], p: [i64; 3], eps: f64) -> Q {
    let d = |a: [i64; 3], b: [i64; 3]| [0, 1, 2].map(|i| (b[i] - a[i]) as i128);
    let dot = |a: [i128; 3], b: [i128; 3]| (0..3).map(|i| a[i] * b[i]).sum::<i128>();
    let (ab, ap, bp) = (d(a, b), d(a, p), d(b, p));
    let len2 = dot(ab, ab);
    let t = dot(ab, ap);
    if len2 == 0 || t <= 0 {
        return q_rat(dot(ap, ap), 1, eps);
    }
    if t >= len2 {
        return q_rat(dot(bp, bp), 1, eps);
    }
    // |ab x ap|^2 = |ab|^2 |ap|^2 - (ab.ap)^2
    q_rat(len2 * dot(ap, ap) - t * t, len2, eps)
}

/// (2 * area)^2 of a triangle, exact integers
pub fn area2(a: [i64; 3], b: [i64; 3], c: [i64; 3], eps: f64) -> Q {
    let d = |a: [i64; 3], b: [i64; 3]| [0, 1, 2].map(|i| (b[i] - a[i]) as i128);
    let dot = |a: [i128; 3], b: [i128; 3]| (0..3).map(|i| a[i] * b[i]).sum::<i128>();
    let (ab, ac) = (d(a, b), d(a, c));
    let t = dot(ab, ac);
    q_rat(dot(ab, ab) * dot(ac, ac) - t * t, 1, eps)
}

/// Is `out` a possible result of Ramer-Douglas-Peucker on `n` points?
pub struct Rdp<'a> {
    pub dist2: &'a dyn Fn(usize, usize, usize) -> Q,
    pub tol2: Q,
    /// does output element o stand for input point i?
    pub is: &'a dyn Fn(usize, usize) -> bool,
    pub memo: HashMap<(usize, usize, usize, usize), bool>,
    pub ties: bool,
    /// distance computations which are left for the search
    pub budget: usize,
}
impl Rdp<'_> {
    pub fn run(&mut self, n: usize, m: usize) -> Result<(), String> {
        if n == 0 {
            return if m == 0 { Ok(()) } else { Err("points out of nothing".into()) };
        }
        if m == 0 || !(self.is)(0, 0) {
            return Err("the first point is not kept".into());
        }
        if n == 1 {
            return if m == 1 { Ok(()) } else { Err(format!("{m} points from one")) };
        }
        if m < 2 || !(self.is)(n - 1, m - 1) {
            return Err("the last point is not kept".into());
        }
        // long lists: the most likely choices first, they settle almost every case
        if n > 120 && self.usual(n, m) {
            return Ok(());
        }
        if self.range(0, n - 1, 0, m - 1) || self.budget == 0 {
            return Ok(());
        }
        // explain: is it at least a subsequence, and how far off?
        let mut i = 0;
        for o in 0..m {
            while i < n && !(self.is)(i, o) {
                i += 1;
            }
            if i == n {
                return Err(format!("output element {o} is not a subsequence of the input"));
            }
            i += 1;
        }
        Err("not a Ramer-Douglas-Peucker simplification: a removed point is farther than the distance from its replacement segment, or a kept one is not needed".into())
    }
    /// Is it the result when distances are compared as they are and the last one of equals is taken?
    fn usual(&self, n: usize, m: usize) -> bool {
        let mut stack = vec![(0, n - 1)];
        let mut o = 0;
        while let Some((s, e)) = stack.pop() {
            let mut best = (-1.0, s);
            for p in s + 1..e {
                let d = (self.dist2)(s, e, p).v;
                if d >= best.0 {
                    best = (d, p);
                }
            }
            if best.0 <= self.tol2.v {
                o += 1;
                if o >= m || !(self.is)(e, o) {
                    return false;
                }
            } else {
                stack.push((best.1, e));
                stack.push((s, best.1));
            }
        }
        o == m - 1
    }
    fn range(&mut self, s: usize, e: usize, os: usize, oe: usize) -> bool {
        if e == s + 1 {
            return oe == os + 1;
        }
        if oe <= os {
            return false;
        }
        if let Some(r) = self.memo.get(&(s, e, os, oe)) {
            return *r;
        }
        if self.budget < e - s {
            self.budget = 0;
            return false;
        }
        self.budget -= e - s;
        let d: Vec<Q> = (s + 1..e).map(|p| (self.dist2)(s, e, p)).collect();
        let lo = d.iter().fold(0.0f64, |m, q| m.max(q.v - q.err));
        let hi = d.iter().fold(0.0f64, |m, q| m.max(q.v + q.err));
        let mut ok = false;
        if lo <= self.tol2.v + self.tol2.err && oe == os + 1 {
            ok = true;
        }
        if !ok && hi > self.tol2.v - self.tol2.err {
            let cand: Vec<usize> = (s + 1..e).filter(|p| d[p - s - 1].v + d[p - s - 1].err >= lo).collect();
            if cand.len() > 1 {
                self.ties = true;
            }
            'o: for p in cand {
                for o in os + 1..oe {
                    if (self.is)(p, o) && self.range(s, p, os, o) && self.range(p, e, o, oe) {
                        ok = true;
                        break 'o;
                    }
                }
            }
        }
        let _ = self.memo.insert((s, e, os, oe), ok);
        ok
    }
}

/// Is `out` (m elements) what is left after removing, n - m times, an interior
/// point of least triangle area?  None: undecided within the search budget.
pub fn vw_valid(
    n: usize,
    m: usize,
    area: &dyn Fn(usize, usize, usize) -> Q,
    is: &dyn Fn(usize, usize) -> bool,
    budget: &mut usize,
) -> Option<bool> {
    fn subseq(rem: &[usize], m: usize, is: &dyn Fn(usize, usize) -> bool) -> bool {
        let mut o = 0;
        for r in rem {
            if o < m && is(*r, o) {
                o += 1;
            }
        }
        o == m
    }
    fn rec(
        rem: &[usize],
        m: usize,
        area: &dyn Fn(usize, usize, usize) -> Q,
        is: &dyn Fn(usize, usize) -> bool,
        budget: &mut usize,
    ) -> Option<bool> {
        if rem.len() == m {
            return Some(rem.iter().enumerate().all(|(o, r)| is(*r, o)));
        }
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        let a: Vec<Q> = rem.windows(3).map(|w| area(w[0], w[1], w[2])).collect();
        let hi = a.iter().fold(f64::INFINITY, |m, q| m.min(q.v + q.err));
        let mut undecided = false;
        for i in 0..a.len() {
            if a[i].v - a[i].err <= hi {
                let mut next = rem.to_vec();
                let _ = next.remove(i + 1);
                if !subseq(&next, m, is) {
                    continue;
                }
                match rec(&next, m, area, is, budget) {
                    Some(true) => return Some(true),
                    Some(false) => (),
                    None => undecided = true,
                }
            }
        }
        if undecided {
            None
        } else {
            Some(false)
        }
    }
    if m > n || m < n.min(2) {
        return Some(false);
    }
    if n > 0 && (!is(0, 0) || !is(n - 1, m - 1)) {
        return Some(false);
    }
    let rem: Vec<usize> = (0..n).collect();
    if !subseq(&rem, m, is) {
        return Some(false);
    }
    rec(&rem, m, area, is, budget)
}

/// How a tolerance is picked, in lattice units.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Tol {
    Quarters(u16),
    /// the distance of point k from segment i-j, times (1 + permille/1000)
    Near(usize, usize, usize, i8),
    Large(u32),
}
impl Tol {
    pub fn value(&self, pts: &[[i64; 3]]) -> f64 {
        match self {
            Tol::Quarters(q) => *q as f64 / 4.0,
            Tol::Large(v) => *v as f64,
            Tol::Near(i, j, k, m) => {
                if pts.is_empty() {
                    return 1.0;
                }
                let n = pts.len();
                let d = seg_dist2(pts[i % n], pts[j % n], pts[k % n], 0.0).v.sqrt();
                d * (1.0 + *m as f64 / 1000.0)
            }
        }
    }
}
pub fn tols() -> impl proptest::strategy::Strategy<Value = Tol> + Clone {
    use proptest::prelude::*;
    prop_oneof![
        2 => (0u16..=8).prop_map(Tol::Quarters),
        3 => (0u16..=200).prop_map(Tol::Quarters),
        1 => (0u16..=2000).prop_map(Tol::Quarters),
        4 => (0usize..64, 0usize..64, 0usize..64, -20i8..=20).prop_map(|(i, j, k, m)| Tol::Near(i, j, k, m)),
        1 => (0u32..2000).prop_map(Tol::Large),
    ]
}

/// Judge an RDP result on lattice points (None: undecided within the search budget).  `tol`: the tolerance really passed,
/// in lattice units.
pub fn judge_rdp<K>(
    pts: &[[i64; 3]],
    tol: f64,
    eps: f64,
    out: &[K],
    is: &dyn Fn(usize, &K) -> bool,
) -> Result<Option<bool>, String> {
    let t2 = tol * tol;
    let exact = (tol * 4.0).fract() == 0.0 && tol < 512.0;
    let mut r = Rdp {
        dist2: &|a, b, p| seg_dist2(pts[a], pts[b], pts[p], eps),
        tol2: Q { v: t2, err: if exact { 0.0 } else { 4.0 * eps * t2 } },
        is: &|i, o| is(i, &out[o]),
        memo: HashMap::new(),
        ties: false,
        budget: 5_000_000,
    };
    r.run(pts.len(), out.len())?;
    if r.budget == 0 {
        return Ok(None);
    }
    Ok(Some(r.ties))
}
