//! P17 SimpleAffine: mapping one bounding box into another and back.
use linestring::linestring_2d::{Aabb2, SimpleAffine};
use linestring::LinestringError;
use pbt::gen::*;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: Ty,
    a: Vec<[Fl; 2]>,
    b: Vec<[Fl; 2]>,
    /// points relative to the a-box, 0..1 being inside
    rel: Vec<[Fl; 2]>,
    /// 0: from the boxes, 1: own offsets and scale, 2: default
    mode: u8,
    own: [Fl; 6],
}

fn tf<V: GenericVector2>(t: &SimpleAffine<V>) -> [[f64; 2]; 3]
where
    V::Scalar: Sc,
{
    [t.a_offset, t.scale, t.b_offset].map(|x| [x[0].to(), x[1].to()])
}

fn run<V: GenericVector2>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
{
    let eps = V::Scalar::eps();
    let s = |x: f64| V::Scalar::of(x);
    let mk = |p: &[[Fl; 2]]| p.iter().map(|p| v2::<V>(p[0].0, p[1].0)).collect::<Vec<V>>();
    let (va, vb) = (mk(&c.a), mk(&c.b));
    let (ba, bb) = (Aabb2::with_points(&va), Aabb2::with_points(&vb));
    let lim = |v: &[V], k: usize| {
        let f = |p: &V| xy(*p)[k];
        (
            v.iter().map(f).fold(f64::INFINITY, f64::min),
            v.iter().map(f).fold(f64::NEG_INFINITY, f64::max),
        )
    };
    let mut probes: Vec<[f64; 2]> = vec![];
    let t: SimpleAffine<V>;
    let (ca, sc, cb); // centre of a, scale, centre of b; reference in f64
    match c.mode {
        0 => {
            let r = SimpleAffine::new(&ba, &bb);
            if va.is_empty() || vb.is_empty() {
                ensure!(matches!(r, Err(LinestringError::AabbError(_))), "empty box: {r:?}");
                rec.label("empty");
                return Ok(());
            }
            t = r.map_err(|e| format!("new: {e:?}"))?;
            let (ax, ay, bx, by) = (lim(&va, 0), lim(&va, 1), lim(&vb, 0), lim(&vb, 1));
            let d = |l: (f64, f64)| (l.1 - l.0).max(1.0);
            let m = |l: (f64, f64)| l.0 / 2.0 + l.1 / 2.0;
            let k = d(bx).min(d(by)) / d(ax).max(d(ay));
            ca = [m(ax), m(ay)];
            cb = [m(bx), m(by)];
            sc = [k, k];
            // everything in box a ends up in box b
            let fits = bx.1 - bx.0 >= 1.0 && by.1 - by.0 >= 1.0;
            let mut ins: Vec<[f64; 2]> = va.iter().map(|p| xy(*p)).collect();
            ins.extend([[ax.0, ay.0], [ax.1, ay.0], [ax.0, ay.1], [ax.1, ay.1], ca]);
            for p in &ins {
                let q = t.transform_ab(v2(p[0], p[1])).map(xy).map_err(|e| format!("{e:?}"))?;
                for (q, l, al) in [(q[0], bx, ax), (q[1], by, ay)] {
                    let tol = 16.0 * eps * (l.0.abs().max(l.1.abs()) + al.0.abs().max(al.1.abs()) * k + (l.1 - l.0)) + 1e-37;
                    ensure!(
                        !fits || (q >= l.0 - tol && q <= l.1 + tol),
                        "{p:?} of the source box is mapped to {q}, outside of {l:?}"
                    );
                }
            }
            probes.extend(&ins);
            probes.extend(c.rel.iter().map(|r| [ax.0 + r[0].0 * d(ax), ay.0 + r[1].0 * d(ay)]));
            rec.label_if(fits, "fits");
        }
        1 => {
            let o = c.own.map(|f| s(f.0));
            t = SimpleAffine { a_offset: [o[0], o[1]], scale: [o[2], o[3]], b_offset: [o[4], o[5]] };
            let [a, k, b] = tf(&t);
            (ca, sc, cb) = ([-a[0], -a[1]], k, b);
            probes.extend(c.rel.iter().map(|r| [r[0].0, r[1].0]));
            probes.extend(va.iter().map(|p| xy(*p)));
            rec.label("own");
        }
        _ => {
            t = SimpleAffine::default();
            (ca, sc, cb) = ([0.0; 2], [1.0; 2], [0.0; 2]);
            probes.extend(va.iter().map(|p| xy(*p)));
            rec.label("default");
        }
    }
    let max = if V::Scalar::IS_F32 { f32::MAX as f64 } else { f64::MAX };
    let mut back = vec![];
    for p in &probes {
        let p: V = v2(p[0], p[1]);
        let q = xy(p);
        let fwd = [0, 1].map(|i| (q[i] - ca[i]) * sc[i] + cb[i]);
        let bwd = [0, 1].map(|i| (q[i] - cb[i]) / sc[i] + ca[i]);
        let mag_f = [0, 1].map(|i| (q[i].abs() + ca[i].abs()) * sc[i].abs() + cb[i].abs());
        let mag_b = [0, 1].map(|i| (q[i].abs() + cb[i].abs()) / sc[i].abs() + ca[i].abs());
        for (name, r, want, mag) in [
            ("transform_ab", t.transform_ab(p), fwd, mag_f),
            ("transform_ba", t.transform_ba(p), bwd, mag_b),
        ] {
            match r {
                Ok(r) => {
                    let r = xy(r);
                    for i in 0..2 {
                        ensure!(r[i].is_finite(), "{name}({q:?}) is not finite: {r:?}");
                        let tol = 12.0 * eps * mag[i] + 1e-37;
                        ensure!(
                            (r[i] - want[i]).abs() <= tol || mag[i] > max / 4.0,
                            "{name}({q:?}) = {r:?}, expected {want:?}"
                        );
                    }
                }
                Err(LinestringError::TransformError(_)) => ensure!(
                    mag.iter().any(|m| !(*m <= max / 4.0)),
                    "{name}({q:?}) failed, expected {want:?}"
                ),
                Err(e) => return Err(format!("{name}({q:?}): {e:?}")),
            }
        }
        if let Ok(f) = t.transform_ab(p) {
            back.push((p, f));
            if let Ok(r) = t.transform_ba(f) {
                let r = xy(r);
                for i in 0..2 {
                    let tol = 24.0 * eps * (q[i].abs() + ca[i].abs() + cb[i].abs() / sc[i].abs()) + 1e-37 / sc[i].abs() + 1e-37;
                    ensure!(
                        (r[i] - q[i]).abs() <= tol || mag_f[i] > max / 4.0,
                        "{q:?} -> {:?} -> {r:?} instead of back",
                        xy(f)
                    );
                }
            }
        }
        if c.mode == 2 {
            ensure!(t.transform_ab(p).map(xy).ok() == Some(q), "the default transform changes {q:?}");
        }
    }
    // both points at once
    for w in probes.windows(2) {
        let p: [V; 2] = [v2(w[0][0], w[0][1]), v2(w[1][0], w[1][1])];
        let arr = [p[0].x(), p[0].y(), p[1].x(), p[1].y()];
        for (name, one, two) in [
            ("ab", p.map(|p| t.transform_ab(p).map(xy)), t.transform_ab_a(arr)),
            ("ba", p.map(|p| t.transform_ba(p).map(xy)), t.transform_ba_a(arr)),
        ] {
            let two = two.map(|t| t.map(|x| x.to()));
            match (one, two) {
                ([Ok(a), Ok(b)], Ok(r)) => {
                    for (x, y) in [a[0], a[1], b[0], b[1]].iter().zip(r) {
                        let m = if name == "ab" {
                            w.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs()))
                        } else {
                            x.abs()
                        };
                        let mag = x.abs() + m * sc[0].abs().max(sc[1].abs()) + ca[0].abs() + ca[1].abs() + cb[0].abs() + cb[1].abs();
                        let mag = mag + (ca[0].abs() + ca[1].abs()) * sc[0].abs().max(sc[1].abs());
                        let mag = mag + (cb[0].abs() + cb[1].abs()) / sc[0].abs().min(sc[1].abs());
                        ensure!((x - y).abs() <= 12.0 * eps * mag || mag > max / 4.0, "transform_{name}_a({w:?}) = {r:?}, one by one {a:?} {b:?}");
                    }
                }
                ([Ok(a), Ok(b)], Err(e)) => return Err(format!("transform_{name}_a({w:?}) failed with {e:?}, one by one {a:?} {b:?}")),
                (o, Ok(r)) => return Err(format!("transform_{name}_a({w:?}) = {r:?}, one by one {o:?}")),
                (_, Err(LinestringError::TransformError(_))) => rec.label("out-of-bounds"),
                (_, Err(e)) => return Err(format!("{e:?}")),
            }
        }
    }
    rec.nontrivial_if(c.mode != 2 && back.len() > 2 && sc != [1.0, 1.0]);
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new(
        "P17",
        "pairs of boxes (points, flat, tiny, huge, far from the origin), own offsets and scales (flips included), points inside and outside, up to overflow; non-trivial = a scale other than one and more than two points mapped",
    );
    ctx.assume("the image is compared with the exact map within rounding; box b must be at least one unit wide and high for the image of box a to fit (the code clamps dimensions to one)");
    let wide = || {
        prop_oneof![
            4 => (-20i32..=20).prop_map(|x| x as f64),
            3 => (-2.0f64..2.0),
            3 => (-1000.0f64..1000.0),
            1 => (-1.0f64..1.0, -8i32..=12).prop_map(|(m, e)| m * 10f64.powi(e)),
        ]
        .prop_map(Fl)
    };
    let any = move || prop_oneof![20 => wide(), 1 => (-1.0f64..1.0, 30i32..=38).prop_map(|(m, e)| Fl(m * 10f64.powi(e)))];
    let scale = || prop_oneof![2 => Just(1.0), 2 => Just(-1.0), 4 => 0.01f64..100.0, 4 => -100.0f64..-0.01].prop_map(Fl);
    let pts = move || prop_oneof![1 => prop::collection::vec([wide(), wide()], 0..=0), 20 => prop::collection::vec([wide(), wide()], 1..=5)];
    ctx.sub(
        "boxes",
        3_000_000,
        || {
            (
                ty(),
                pts(),
                pts(),
                prop::collection::vec([any(), any()], 0..=4),
                prop_oneof![6 => Just(0u8), 3 => Just(1), 1 => Just(2)],
                (wide(), wide(), scale(), scale(), wide(), wide()),
            )
                .prop_map(|(ty, a, b, rel, mode, o)| Case { ty, a, b, rel, mode, own: [o.0, o.1, o.2, o.3, o.4, o.5] })
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.ty, run(c, rec)),
    );
    ctx.finish()
}
