//! P24 Coordinates which are not finite are rejected, finite ones are not.
use linestring::linestring_2d::{
    convex_hull as ch, indexed_intersection::IntersectionTester, intersection::IntersectionData, Line2, LineString2,
};
use linestring::LinestringError;
use pbt::gen::*;
use pbt::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    ty: Ty,
    pts: Vec<[Fl; 2]>,
    /// picks out of the points (modulo their number)
    pick: Vec<u16>,
    /// coordinates to spoil: which one, with what
    spoil: Vec<(u16, u8)>,
    chunk: u16,
    split: u16,
}

fn run<V: GenericVector2 + 'static>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let n = c.pts.len();
    let mut p: Vec<[f64; 2]> = c.pts.iter().map(|p| [p[0].0, p[1].0]).collect();
    for (at, k) in &c.spoil {
        let at = *at as usize % (2 * n);
        p[at / 2][at % 2] = match k {
            0 => f64::NAN,
            1 => f64::INFINITY,
            2 => f64::NEG_INFINITY,
            _ => -f64::NAN,
        };
    }
    let v: Vec<V> = p.iter().map(|p| v2(p[0], p[1])).collect();
    let bad = |i: usize| !p[i][0].is_finite() || !p[i][1].is_finite();
    let any_bad = (0..n).any(bad);
    rec.label(if any_bad { "spoiled" } else { "finite" });

    // ------------------------------------------------------------- hulls
    type R<V> = Result<Vec<V>, LinestringError>;
    let fs: [(&str, &dyn Fn() -> R<V>); 5] = [
        ("graham_scan", &|| ch::graham_scan(&v)),
        ("graham_scan_wo_atan2", &|| old_graham(&v)),
        ("gift_wrap", &|| ch::gift_wrap(&v)),
        ("convex_hull", &|| v.convex_hull()),
        ("convex_hull_par", &|| v.convex_hull_par(c.chunk as usize)),
    ];
    for (name, f) in fs {
        if name == "graham_scan_wo_atan2" && !any_bad {
            // recorded under P07: rounding makes its order inconsistent
            continue;
        }
        let r = f();
        ensure!(
            r.is_err() == any_bad,
            "{name} of {} coordinates: {}",
            if any_bad { "non-finite" } else { "finite" },
            if r.is_ok() { "accepted" } else { "rejected" }
        );
    }
    // distinct indices
    let mut sel: Vec<usize> = vec![];
    for i in &c.pick {
        let i = *i as usize % n;
        if !sel.contains(&i) {
            sel.push(i);
        }
    }
    if sel.len() >= 2 {
        let sel_bad = sel.iter().any(|i| bad(*i));
        rec.label_if(any_bad && !sel_bad, "spoiled-but-not-selected");
        let fs: [(&str, &dyn Fn(&[usize]) -> Result<Vec<usize>, LinestringError>); 4] = [
            ("indexed_graham_scan", &|s| ch::indexed_graham_scan(&v, s)),
            ("indexed_graham_scan_no_loop", &|s| ch::indexed_graham_scan_no_loop(&v, s, None)),
            ("indexed_gift_wrap", &|s| ch::indexed_gift_wrap(&v, s)),
            ("convex_hull_par", &|s| ch::convex_hull_par(&v, s, c.chunk as usize)),
        ];
        for closed in [false, true] {
            let mut s = sel.clone();
            if closed {
                s.push(s[0]);
            }
            for (name, f) in &fs {
                let r = f(&s);
                ensure!(
                    r.is_err() == sel_bad,
                    "indexed {name} of {} coordinates: {}",
                    if sel_bad { "non-finite" } else { "finite" },
                    if r.is_ok() { "accepted" } else { "rejected" }
                );
            }
        }
    }

    // ------------------------------------------------------------ sweeps
    let edges: Vec<(usize, usize)> =
        c.pick.chunks_exact(2).map(|w| (w[0] as usize % n, w[1] as usize % n)).collect();
    let e_bad = edges.iter().any(|e| bad(e.0) || bad(e.1));
    let k = (c.split as usize).min(edges.len());
    let direct = IntersectionData::<V>::default()
        .with_lines(edges[..k].iter().map(|e| Line2::new(v[e.0], v[e.1])))
        .and_then(|d| d.with_lines(edges[k..].iter().map(|e| Line2::new(v[e.0], v[e.1]))));
    ensure!(direct.is_err() == e_bad, "with_lines: {}", if e_bad { "accepted non-finite" } else { "rejected finite" });
    if let Err(e) = direct {
        ensure!(matches!(e, LinestringError::InvalidData(_)), "with_lines: {e:?}");
    } else if let Ok(d) = direct {
        let r = d.compute();
        ensure!(r.is_ok(), "compute() of finite lines: {:?}", r.err());
    }
    let indexed = IntersectionTester::<V>::new(v.clone())
        .with_edges(edges[..k].iter())
        .and_then(|d| d.with_edges(edges[k..].iter()));
    ensure!(indexed.is_err() == e_bad, "with_edges: {}", if e_bad { "accepted non-finite" } else { "rejected finite" });
    if let Err(e) = indexed {
        ensure!(matches!(e, LinestringError::InvalidData(_)), "with_edges: {e:?}");
    } else if let Ok(d) = indexed {
        let r = d.compute();
        ensure!(r.is_ok(), "compute() of finite edges: {:?}", r.err());
    }
    // the long self intersection test feeds the sweep
    if n >= 10 {
        let r = v.is_self_intersecting();
        ensure!(r.is_err() == any_bad, "is_self_intersecting of {n} points: {r:?}");
    }
    rec.nontrivial_if(any_bad);
    Ok(())
}

#[allow(deprecated)]
fn old_graham<V: GenericVector2>(v: &[V]) -> Result<Vec<V>, LinestringError> {
    ch::graham_scan_wo_atan2(v)
}

fn main() {
    let mut ctx = Ctx::new(
        "P24",
        "float point lists with no, one or several coordinates replaced by NaN or an infinity, at any position, selected or not; non-trivial = something is spoiled",
    );
    ctx.assume("finite coordinates of ordinary size (no overflow in squares); lists of three or more points, selections of two or more distinct vertices (hulls of a single point are returned as they are)");
    let f = |b: i32| prop_oneof![(-b..=b).prop_map(|v| Fl(v as f64)), (-(b as f64)..b as f64).prop_map(Fl)];
    let spoil = || {
        prop_oneof![
            2 => Just(vec![]),
            4 => prop::collection::vec((0u16..20_000, 0u8..4), 1..=1),
            2 => prop::collection::vec((0u16..20_000, 0u8..4), 1..=4),
            1 => prop::collection::vec((0u16..20_000, 0u8..4), 1..=40),
        ]
    };
    ctx.sub(
        "spoiled",
        1_500_000,
        || {
            (
                ty(),
                prop_oneof![
                    6 => prop::collection::vec([f(20), f(20)], 3..=8),
                    3 => prop::collection::vec([f(20), f(20)], 8..=40),
                ],
                prop::collection::vec(any::<u16>(), 0..=16),
                spoil(),
                2u16..=9,
                0u16..=8,
            )
                .prop_map(|(ty, pts, pick, spoil, chunk, split)| Case { ty, pts, pick, spoil, chunk, split })
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.ty, run(c, rec)),
    );
    ctx.sub(
        "long",
        8_000,
        || {
            (
                ty(),
                prop::collection::vec([f(1000), f(1000)], 40..=1200),
                prop::collection::vec(any::<u16>(), 0..=600),
                spoil(),
                prop_oneof![2u16..=9, 10u16..=400],
                0u16..=300,
            )
                .prop_map(|(ty, pts, pick, spoil, chunk, split)| Case { ty, pts, pick, spoil, chunk, split })
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.ty, run(c, rec)),
    );
    ctx.finish()
}
