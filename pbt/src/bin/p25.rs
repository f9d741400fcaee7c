//! P25 Views of a linestring: iterators, connectedness, counting, mapping,
//! approximate comparison (2d and 3d).
use linestring::linestring_2d::{self as l2, LineString2};
use linestring::linestring_3d::{self as l3, LineString3};
use pbt::gen::*;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: Ty3,
    pts: Vec<[Fl; 3]>,
    close: bool,
    /// how many items are taken before the lengths are asked again
    take: u8,
    /// for the comparison: (which coordinate, ulps to move)
    nudge: Vec<(u16, i32)>,
    cut: bool,
    eps: Fl,
    ulps: u32,
    factor: Fl,
}

fn bits(v: f64) -> u64 {
    v.to_bits()
}
/// the value `k` representable numbers above
fn step(v: f64, k: i32, f32s: bool) -> f64 {
    if !v.is_finite() {
        return v;
    }
    if f32s {
        let mut b = (v as f32).to_bits() as i32;
        b = if b < 0 { i32::MIN - b } else { b };
        b += k;
        let b = if b < 0 { i32::MIN - b } else { b };
        let w = f32::from_bits(b as u32) as f64;
        if w.is_finite() { w } else { v }
    } else {
        let mut b = v.to_bits() as i64;
        b = if b < 0 { i64::MIN - b } else { b };
        b += k as i64;
        let b = if b < 0 { i64::MIN - b } else { b };
        let w = f64::from_bits(b as u64);
        if w.is_finite() { w } else { v }
    }
}
/// the definition of approximate equality: close in absolute terms
fn abs_eq(a: f64, b: f64, eps: f64, f32s: bool) -> bool {
    if a == b {
        return true;
    }
    if a.is_infinite() || b.is_infinite() {
        return false;
    }
    let d = if f32s { (a as f32 - b as f32).abs() as f64 } else { (a - b).abs() };
    d <= eps
}
/// ... or of the same sign and only a few representable numbers apart
fn ulps_close(a: f64, b: f64, eps: f64, max: u32, f32s: bool) -> bool {
    if abs_eq(a, b, eps, f32s) {
        return true;
    }
    if a.is_nan() || b.is_nan() || a.is_sign_negative() != b.is_sign_negative() {
        return false;
    }
    let d = if f32s {
        ((a as f32).to_bits() as i64 - (b as f32).to_bits() as i64).unsigned_abs()
    } else {
        a.to_bits().abs_diff(b.to_bits())
    };
    d <= max as u64
}

macro_rules! views {
    ($name:ident, $bound:ident, $tr:ident, $l:ident, $mk:expr, $of:expr, $n:expr) => {
        fn $name<V: $bound>(c: &Case, rec: &mut Rec) -> Result<(), String>
        where
            V::Scalar: Sc,
            Vec<V>: $tr<V> + $l::Approx<V>,
        {
            let mk: fn([f64; 3]) -> V = $mk;
            let of: fn(V) -> [u64; $n] = $of;
            let f32s = V::Scalar::IS_F32;
            let mut v: Vec<V> = c.pts.iter().map(|p| mk([p[0].0, p[1].0, p[2].0])).collect();
            if c.close && !v.is_empty() {
                v.push(v[0]);
            }
            let n = v.len();
            let raw: Vec<[u64; $n]> = v.iter().map(|p| of(*p)).collect();
            let val: Vec<[f64; $n]> = raw.iter().map(|p| p.map(f64::from_bits)).collect();
            let connected = n == 0 || (0..$n).all(|k| val[0][k] == val[n - 1][k]);
            ensure!(v.is_connected() == connected, "is_connected() = {}", v.is_connected());
            rec.label_if(connected && n > 1, "connected");

            // consecutive pairs
            let want: Vec<_> = raw.windows(2).map(|w| (w[0], w[1])).collect();
            let got: Vec<_> = v.window_iter().map(|l| (of(l.start), of(l.end))).collect();
            ensure!(got == want, "window_iter() of {n} points gave {} lines", got.len());
            let mut it = v.window_iter();
            for k in 0..=(c.take as usize).min(want.len() + 1) {
                let left = want.len().saturating_sub(k);
                ensure!(it.len() == left, "window_iter().len() = {} after {k} of {}", it.len(), want.len());
                ensure!(it.is_empty() == (left == 0), "window_iter().is_empty() after {k} of {}", want.len());
                let x = it.next().map(|l| (of(l.start), of(l.end)));
                ensure!(x == want.get(k).copied(), "window_iter() item {k}");
            }
            // disconnected pairs
            let want: Vec<_> = raw.chunks_exact(2).map(|w| (w[0], w[1])).collect();
            let rest: Vec<_> = raw.chunks_exact(2).remainder().to_vec();
            let got: Vec<_> = v.chunk_iter().map(|l| (of(l.start), of(l.end))).collect();
            ensure!(got == want, "chunk_iter() of {n} points gave {} lines", got.len());
            let mut it = v.chunk_iter();
            for k in 0..=(c.take as usize).min(want.len() + 1) {
                let left = want.len().saturating_sub(k);
                ensure!(it.len() == left, "chunk_iter().len() = {} after {k} of {}", it.len(), want.len());
                ensure!(it.is_empty() == (left == 0), "chunk_iter().is_empty() after {k} of {}", want.len());
                let r: Vec<_> = it.remainder().iter().map(|p| of(*p)).collect();
                ensure!(r == rest, "chunk_iter().remainder() has {} of {} points", r.len(), rest.len());
                let x = it.next().map(|l| (of(l.start), of(l.end)));
                ensure!(x == want.get(k).copied(), "chunk_iter() item {k}");
            }

            // mapping
            let mut w = v.clone();
            let factor = V::Scalar::of(c.factor.0);
            w.apply(&|p| p * factor);
            ensure!(w.len() == n, "apply() changed the number of points to {}", w.len());
            for i in 0..n {
                ensure!(of(w[i]) == of(v[i] * factor), "apply() at {i}: {:?}", of(w[i]).map(f64::from_bits));
            }

            // approximate comparison
            let mut o = val.clone();
            for (at, k) in &c.nudge {
                if n > 0 {
                    let at = *at as usize % (n * $n);
                    o[at / $n][at % $n] = step(o[at / $n][at % $n], *k, f32s);
                }
            }
            let mut w: Vec<V> = o.iter().map(|p| { let mut q = [0.0; 3]; q[..$n].copy_from_slice(p); mk(q) }).collect();
            if c.cut {
                let _ = w.pop();
                let _ = o.pop();
            }
            let eps = V::Scalar::of(c.eps.0);
            let same = |f: &dyn Fn(f64, f64) -> bool| {
                val.len() == o.len() && val.iter().zip(&o).all(|(a, b)| (0..$n).all(|k| f(a[k], b[k])))
            };
            let we = same(&|a, b| abs_eq(a, b, eps.to(), f32s));
            let wu = same(&|a, b| ulps_close(a, b, eps.to(), c.ulps, f32s));
            // how infinities and NaN compare is up to the vector back end
            let finite = val.iter().chain(&o).flatten().all(|x| x.is_finite());
            for (x, y) in [(&v, &w), (&w, &v)] {
                if !finite {
                    break;
                }
                let ge = $l::Approx::abs_diff_eq(x, y, eps);
                ensure!(ge == we, "abs_diff_eq({:?}) = {ge}: {val:?} and {o:?}", c.eps);
                let gu = $l::Approx::ulps_eq(x, y, eps, c.ulps);
                ensure!(gu == wu, "ulps_eq({:?}, {}) = {gu}: {val:?} and {o:?}", c.eps, c.ulps);
            }
            if !finite {
                rec.label("not-finite");
                return Ok(());
            }
            rec.label_if(wu && !we, "equal-by-ulps-only");
            rec.label_if(we && o != val, "equal-by-distance");
            rec.label_if(!wu && val.len() == o.len(), "different");
            rec.nontrivial_if(n > 2);
            Ok(())
        }
    };
}
views!(two, GenericVector2, LineString2, l2, |p| v2(p[0], p[1]), |p| xy(p).map(bits), 2);
views!(three, GenericVector3, LineString3, l3, |p| v3(p[0], p[1], p[2]), |p| xyz(p).map(bits), 3);

/// only the 2d trait counts points, and its window iterator is exact sized
fn count<V: GenericVector2>(c: &Case) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let mut v: Vec<V> = c.pts.iter().map(|p| v2(p[0].0, p[1].0)).collect();
    if c.close && !v.is_empty() {
        v.push(v[0]);
    }
    let n = v.len();
    let closed = n > 2 && xy(v[0]) == xy(v[n - 1]);
    ensure!(v.point_count() == n - closed as usize, "point_count() = {} of {n}", v.point_count());
    let l = ExactSizeIterator::len(&v.window_iter());
    ensure!(l == n.saturating_sub(1), "ExactSizeIterator::len() = {l} of {n} points");
    Ok(())
}

fn check(c: &Case, rec: &mut Rec) -> Result<(), String> {
    on_ty3!(c.ty, three(c, rec))?;
    match c.ty {
        Ty3::G64 => two::<G2d>(c, rec).and_then(|_| count::<G2d>(c)),
        Ty3::C64 => two::<C2d>(c, rec).and_then(|_| count::<C2d>(c)),
        Ty3::C32 => two::<C2f>(c, rec).and_then(|_| count::<C2f>(c)),
        _ => two::<G2f>(c, rec).and_then(|_| count::<G2f>(c)),
    }
    .map_err(|e| format!("2d: {e}"))
}

fn main() {
    let mut ctx = Ctx::new(
        "P25",
        "float point lists (open, closed, empty, NaN and infinities included) of every length, iterators consumed part way, copies nudged by single representable steps; non-trivial = three or more points",
    );
    let f = || {
        prop_oneof![
            20 => (-3i32..=3).prop_map(|v| Fl(v as f64)),
            20 => (-10.0f64..10.0).prop_map(Fl),
            1 => prop::sample::select(vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 1e30, 1e-30, f64::MIN_POSITIVE]).prop_map(Fl),
        ]
    };
    let steps = || prop_oneof![3 => -6i32..=6, 1 => -100_000i32..=100_000, 1 => Just(0i32)];
    ctx.assume("comparisons are judged for finite coordinates only: the vector back ends disagree on infinities");
    ctx.sub(
        "lines",
        4_000_000,
        || {
            (
                ty3(),
                prop_oneof![50 => lists([f(), f(), f()], 0, 30), 1 => lists([f(), f(), f()], 0, 500)],
                any::<bool>(),
                0u8..=40,
                prop_oneof![1 => Just(vec![]), 3 => prop::collection::vec((any::<u16>(), steps()), 1..=3), 1 => prop::collection::vec((any::<u16>(), steps()), 1..=30)],
                prop::bool::weighted(0.05),
                prop_oneof![2 => Just(0.0), 2 => Just(f64::EPSILON), 2 => Just(f32::EPSILON as f64), 1 => Just(1e-3), 1 => 0.0..1e-5f64].prop_map(Fl),
                prop_oneof![0u32..=8, 0u32..200_000],
                f(),
            )
                .prop_map(|(ty, pts, close, take, nudge, cut, eps, ulps, factor)| Case { ty, pts, close, take, nudge, cut, eps, ulps, factor })
        },
        check,
    );
    ctx.finish()
}
