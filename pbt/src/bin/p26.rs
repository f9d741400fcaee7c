//! P26 Lines and boxes as values: equality, conversions, text.
use linestring::linestring_2d::{Aabb2, Intersection, Line2};
use linestring::linestring_3d::{Aabb3, Line3};
use pbt::gen::*;
use pbt::*;
use vector_traits::approx::{AbsDiffEq, UlpsEq};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: Ty3,
    c: [Fl; 6],
    /// 0: the other line is `d`, 1: the same line nudged, 2: reversed and nudged
    mode: u8,
    d: [Fl; 6],
    nudge: [i8; 6],
    eps: Fl,
    ulps: u32,
    factor: Fl,
}

/// `k` representable numbers up, without changing the sign
fn step<S: Sc>(v: f64, k: i8) -> f64 {
    if v == 0.0 {
        v
    } else if S::IS_F32 {
        f32::from_bits(((v as f32).to_bits() as i32 + k as i32) as u32) as f64
    } else {
        f64::from_bits((v.to_bits() as i64 + k as i64) as u64)
    }
}
fn abs_eq<S: Sc>(a: f64, b: f64, eps: f64) -> bool {
    a == b || (S::of(a) - S::of(b)).to().abs() <= eps
}
fn ulps_close<S: Sc>(a: f64, b: f64, eps: f64, max: u32) -> bool {
    if abs_eq::<S>(a, b, eps) {
        return true;
    }
    if a.is_sign_negative() != b.is_sign_negative() {
        return false;
    }
    let d = if S::IS_F32 {
        (a as f32).to_bits().abs_diff((b as f32).to_bits()) as u64
    } else {
        a.to_bits().abs_diff(b.to_bits())
    };
    d <= max as u64
}
/// text like "(1.0,2.5)-(3.0,4.0)" holds exactly these numbers, each with a
/// decimal point so that it can be pasted into code
fn text<S: Sc>(what: &str, got: &str, shape: &str, want: &[f64]) -> Result<(), String> {
    let mut nums = vec![];
    let mut rest = String::new();
    let mut cur = String::new();
    // a '-' starts a number except right after ')'
    for ch in got.chars().chain(std::iter::once(' ')) {
        let minus = ch == '-' && cur.is_empty() && !rest.ends_with(')');
        if ch.is_ascii_digit() && !rest.ends_with(|c: char| c.is_alphabetic()) || ch == '.' || minus {
            cur.push(ch);
        } else {
            if !cur.is_empty() {
                nums.push(std::mem::take(&mut cur));
                rest.push('#');
            }
            rest.push(ch);
        }
    }
    ensure!(rest.trim_end() == shape, "{what}: text {got:?} is not of the form {shape:?}");
    ensure!(nums.len() == want.len(), "{what}: text {got:?}");
    for (n, w) in nums.iter().zip(want) {
        ensure!(n.contains('.'), "{what}: {n} in {got:?} has no decimal point");
        let v: f64 = if S::IS_F32 {
            n.parse::<f32>().map_err(|e| format!("{what}: {got:?}: {e}"))? as f64
        } else {
            n.parse::<f64>().map_err(|e| format!("{what}: {got:?}: {e}"))?
        };
        ensure!(v.to_bits() == w.to_bits(), "{what}: {got:?} instead of {w:?}");
    }
    Ok(())
}

fn two<V: GenericVector2>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    type S<V> = <V as vector_traits::HasXY>::Scalar;
    let of = |v: f64| V::Scalar::of(v).to();
    let a: [f64; 4] = [0, 1, 3, 4].map(|k: usize| of(c.c[k].0));
    let d: [f64; 4] = [0, 1, 3, 4].map(|k: usize| of(c.d[k].0));
    let nudged: [f64; 4] = [0, 1, 2, 3].map(|k: usize| step::<S<V>>(a[k], c.nudge[k]));
    let b = match c.mode {
        0 => d,
        1 => nudged,
        _ => [nudged[2], nudged[3], nudged[0], nudged[1]],
    };
    let p = |x: f64, y: f64| v2::<V>(x, y);
    let s = |x: f64| V::Scalar::of(x);
    let flat = |l: &Line2<V>| [l.start.x().to(), l.start.y().to(), l.end.x().to(), l.end.y().to()];
    let (l, m) = (Line2::new(p(a[0], a[1]), p(a[2], a[3])), Line2::new(p(b[0], b[1]), p(b[2], b[3])));
    ensure!(flat(&l) == a && flat(&m) == b, "Line2::new {l:?}");
    let from4: Line2<V> = [s(a[0]), s(a[1]), s(a[2]), s(a[3])].into();
    let from22: Line2<V> = [[s(a[0]), s(a[1])], [s(a[2]), s(a[3])]].into();
    ensure!(flat(&from4) == a, "Line2::from([x,y,x,y]) = {from4:?}, from {a:?}");
    ensure!(flat(&from22) == a, "Line2::from([[x,y],[x,y]]) = {from22:?}, from {a:?}");

    // equality keeps the direction, approximate equality does not
    let se = S::<V>::eps();
    let all = |f: &dyn Fn(f64, f64) -> bool, r: bool| {
        let b = if r { [b[2], b[3], b[0], b[1]] } else { b };
        (0..4).all(|k| f(a[k], b[k]))
    };
    let eq = all(&|x, y| ulps_close::<S<V>>(x, y, se, 4), false);
    ensure!((l == m) == eq, "{a:?} == {b:?} is {}", l == m);
    ensure!((m == l) == eq, "{b:?} == {a:?} is {}", m == l);
    let eps = of(c.eps.0);
    // lines shorter than the tolerance may be taken either way round
    let short = |q: &[f64; 4]| {
        let (big, gap) = (q.iter().fold(0.0f64, |m, x| m.max(x.abs())), (q[0] - q[2]).abs().max((q[1] - q[3]).abs()));
        gap <= 4.0 * eps + 4.0 * se * big * (1.0 + c.ulps as f64)
    };
    if !short(&a) && !short(&b) {
        let ae = |x: f64, y: f64| abs_eq::<S<V>>(x, y, eps);
        let want = all(&ae, false) || all(&ae, true);
        for (x, y) in [(&l, &m), (&m, &l)] {
            let got = x.abs_diff_eq(y, s(eps));
            ensure!(got == want, "abs_diff_eq({eps:?}) of {x:?} and {y:?} is {got}");
        }
        let ue = |x: f64, y: f64| ulps_close::<S<V>>(x, y, eps, c.ulps);
        let want = all(&ue, false) || all(&ue, true);
        for (x, y) in [(&l, &m), (&m, &l)] {
            let got = x.ulps_eq(y, s(eps), c.ulps);
            ensure!(got == want, "ulps_eq({eps:?},{}) of {x:?} and {y:?} is {got}", c.ulps);
        }
        rec.label_if(want && !eq, "equal-with-tolerance-only");
        rec.label_if(want && c.mode == 2, "equal-reversed");
        rec.nontrivial();
    }
    rec.label(if eq { "equal" } else { "not-equal" });

    // boxes
    let cor = |q: &[f64; 4]| [q[0].min(q[2]), q[1].min(q[3]), q[0].max(q[2]), q[1].max(q[3])];
    let (ca, cb) = (cor(&a), cor(&b));
    let bx = Aabb2::with_points(&[l.start, l.end]);
    let by = Aabb2::with_points(&[m.start, m.end]);
    let want = (0..4).all(|k| ulps_close::<S<V>>(ca[k], cb[k], se, 4));
    ensure!((bx == by) == want && (by == bx) == want, "boxes {bx:?} == {by:?} is {}", bx == by);
    let none = Aabb2::<V>::default();
    ensure!(none == Aabb2::default() && bx != none && none != bx, "the empty box is only equal to itself");
    let pts = [l.start, l.end];
    let from: Aabb2<V> = pts.iter().into();
    ensure!(from == bx, "Aabb2::from(points) {from:?} {bx:?}");
    let want = [[ca[0], ca[1]], [ca[2], ca[1]], [ca[2], ca[3]], [ca[0], ca[3]], [ca[0], ca[1]]];
    let line: Vec<V> = bx.into();
    ensure!(line.iter().map(|p| xy(*p)).collect::<Vec<_>>() == want, "outline of {bx:?}: {line:?}");
    let hull: Vec<V> = bx.convex_hull().ok_or("no convex hull of a box")?;
    ensure!(hull.iter().map(|p| xy(*p)).collect::<Vec<_>>() == want, "convex_hull() of {bx:?}: {hull:?}");
    let empty: Vec<V> = none.into();
    ensure!(empty.is_empty() && none.convex_hull::<V>().is_none(), "outline of the empty box");

    // text
    text::<S<V>>("Line2", &format!("{l:?}"), "(#,#)-(#,#)", &a)?;
    let lo = bx.min_max().map(|(a, b)| [xy(a), xy(b)].concat()).unwrap_or_default();
    text::<S<V>>("Aabb2", &format!("{bx:?}"), "Aabb2[(#,#)-(#,#)]", &lo)?;
    ensure!(format!("{none:?}") == "Aabb2[None]", "text of the empty box: {none:?}");
    let i = Intersection::Overlap(l);
    ensure!(format!("{i:?}") == format!("{l:?}"), "text of an overlap {i:?}");
    ensure!(format!("{:?}", Intersection::Intersection(l.start)) == format!("{:?}", l.start), "text of an intersection");
    Ok(())
}

fn three<V: GenericVector3>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    type S<V> = <V as vector_traits::HasXY>::Scalar;
    let of = |v: f64| V::Scalar::of(v).to();
    let a: [f64; 6] = c.c.map(|v| of(v.0));
    let mut b: [f64; 6] = match c.mode {
        0 => c.d.map(|v| of(v.0)),
        _ => a,
    };
    if c.mode == 1 {
        for k in 0..6 {
            b[k] = step::<S<V>>(b[k], c.nudge[k]);
        }
    }
    let flat = |l: &Line3<V>| [xyz(l.start), xyz(l.end)].concat();
    let mk = |q: &[f64; 6]| Line3::<V>::new(v3(q[0], q[1], q[2]), v3(q[3], q[4], q[5]));
    let (l, m) = (mk(&a), mk(&b));
    ensure!(flat(&l) == a, "Line3::new {l:?}");
    let f6: Line3<V> = a.map(V::Scalar::of).into();
    ensure!(flat(&f6) == a, "Line3::from([x;6]) = {f6:?}, from {a:?}");
    let f2: Line3<V> = [l.start, l.end].into();
    ensure!(flat(&f2) == a, "Line3::from([p,p]) = {f2:?}, from {a:?}");
    ensure!((l == m) == (a == b), "{l:?} == {m:?} is {}", l == m);
    let k = V::Scalar::of(c.factor.0);
    let w = l.apply(|p| p * k);
    ensure!(
        flat(&w) == [xyz(l.start * k), xyz(l.end * k)].concat(),
        "apply: {w:?}"
    );
    text::<S<V>>("Line3", &format!("{l:?}"), "(#,#,#)-(#,#,#)", &a)?;

    // a box is given by its low and high corner
    let mut lo = [0.0; 6];
    for k in 0..3 {
        lo[k] = a[k].min(a[k + 3]);
        lo[k + 3] = a[k].max(a[k + 3]);
    }
    let b6: Aabb3<V> = lo.map(V::Scalar::of).into();
    let (p, q): (V, V) = (v3(lo[0], lo[1], lo[2]), v3(lo[3], lo[4], lo[5]));
    let b2: Aabb3<V> = [p, q].into();
    let bp = Aabb3::<V>::with_points(&[l.start, l.end]);
    for (n, x) in [("[x;6]", &b6), ("[p,p]", &b2), ("points", &bp)] {
        ensure!(
            x.get_low().map(xyz) == Some([lo[0], lo[1], lo[2]]) && x.get_high().map(xyz) == Some([lo[3], lo[4], lo[5]]),
            "Aabb3::from({n}) = {x:?}, from {lo:?}"
        );
        ensure!(*x == b6 && b6 == *x, "boxes of the same corners differ: {x:?} {b6:?}");
    }
    let other = Aabb3::<V>::with_points(&[m.start, m.end]);
    let same = other.get_low().map(xyz) == bp.get_low().map(xyz) && other.get_high().map(xyz) == bp.get_high().map(xyz);
    ensure!((other == bp) == same, "{other:?} == {bp:?} is {}", other == bp);
    ensure!(Aabb3::<V>::default() != bp && Aabb3::<V>::default() == Aabb3::default(), "the empty box is only equal to itself");
    rec.nontrivial_if(a != b);
    Ok(())
}

fn check(c: &Case, rec: &mut Rec) -> Result<(), String> {
    on_ty3!(c.ty, three(c, rec)).map_err(|e| format!("3d: {e}"))?;
    match c.ty {
        Ty3::G64 => two::<G2d>(c, rec),
        Ty3::C64 => two::<C2d>(c, rec),
        Ty3::C32 => two::<C2f>(c, rec),
        _ => two::<G2f>(c, rec),
    }
}

fn main() {
    let mut ctx = Ctx::new(
        "P26",
        "pairs of lines with finite coordinates: unrelated, or the same line nudged by single representable steps, in both directions; non-trivial = longer than the tolerance of the comparison, or 3d lines which differ",
    );
    ctx.assume("finite coordinates; approximate comparison of a line shorter than four tolerances is not judged (both directions match)");
    let f = || {
        prop_oneof![
            20 => (-3i32..=3).prop_map(|v| Fl(v as f64)),
            20 => (-10.0f64..10.0).prop_map(Fl),
            2 => (-1e9f64..1e9).prop_map(Fl),
            1 => prop::sample::select(vec![-0.0, 1e30, -1e30, 1e-30, 1e7, 16777216.0, 0.1, 1e15, 1e16]).prop_map(Fl),
        ]
    };
    ctx.sub(
        "values",
        3_200_000,
        || {
            (
                ty3(),
                [f(), f(), f(), f(), f(), f()],
                0u8..3,
                [f(), f(), f(), f(), f(), f()],
                prop_oneof![
                    2 => prop::array::uniform6(-6i8..=6),
                    2 => (0usize..6, -6i8..=6).prop_map(|(k, s)| { let mut a = [0; 6]; a[k] = s; a }),
                    1 => (0usize..6, -100i8..=100).prop_map(|(k, s)| { let mut a = [0; 6]; a[k] = s; a }),
                ],
                prop_oneof![2 => Just(0.0), 2 => Just(f64::EPSILON), 2 => Just(f32::EPSILON as f64), 1 => Just(1e-3), 1 => 0.0..1e-5f64].prop_map(Fl),
                0u32..=8,
                f(),
            )
                .prop_map(|(ty, c, mode, d, nudge, eps, ulps, factor)| Case { ty, c, mode, d, nudge, eps, ulps, factor })
        },
        check,
    );
    ctx.finish()
}
