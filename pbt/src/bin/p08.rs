//! P08 the parallel hull equals the hull, for every chunk size, pool and schedule.
use linestring::linestring_2d::convex_hull as ch;
use linestring::linestring_2d::LineString2;
use pbt::exact::P;
use pbt::gen::*;
use pbt::hulls::*;
use pbt::*;
use std::sync::OnceLock;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    g: Grid,
    pts: Vec<P>,
    idx: Vec<u16>,
    chunk: usize,
    pool: u8,
}

const SIZES: [usize; 4] = [1, 2, 3, 8];
fn pool(i: u8) -> Option<&'static rayon::ThreadPool> {
    static POOLS: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    if i == 0 {
        return None; // the global pool
    }
    POOLS
        .get_or_init(|| {
            SIZES
                .iter()
                .map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap())
                .collect()
        })
        .get(i as usize - 1)
}

fn run<V: GenericVector2>(c: &Case, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let v: Vec<V> = c.g.vs(&c.pts);
    let idx = indices(&c.pts, &c.idx);
    let sel: Vec<P> = idx.iter().map(|i| c.pts[*i]).collect();
    let chunk = c.chunk.max(2);
    let go = || {
        (
            ch::convex_hull_par(&v, &idx, c.chunk.max(1)),
            v.convex_hull_par(chunk),
        )
    };
    let (a, b) = match pool(c.pool) {
        None => go(),
        Some(p) => p.install(go),
    };
    let a = a.map_err(|e| format!("convex_hull_par: {e}"))?;
    let b = b.map_err(|e| format!("LineString2::convex_hull_par: {e}"))?;
    if let Some(bad) = a.iter().find(|i| !idx.contains(i)) {
        return Err(format!("index {bad} is not among the selected indices"));
    }
    let back: Vec<P> = a.iter().map(|i| c.pts[*i]).collect();
    judge(&sel, &back).map_err(|e| format!("convex_hull_par: {e}"))?;
    ensure!(a.len() < 2 || a.first() == a.last(), "index list not closed: {a:?}");
    let back: Option<Vec<P>> = b.iter().map(|p| c.g.back(*p)).collect();
    let back = back.ok_or("LineString2::convex_hull_par: a vertex is not an input vertex")?;
    judge(&c.pts, &back).map_err(|e| format!("LineString2::convex_hull_par: {e}"))?;
    let chunks = idx.len().div_ceil(chunk);
    rec.label(match chunks {
        0 | 1 => "chunks<=1",
        2..=3 => "chunks2-3",
        4..=16 => "chunks4-16",
        _ => "chunks17+",
    });
    let h = pbt::exact::hull(&sel).len();
    rec.label(match h {
        0..=2 => "degenerate-hull",
        3..=8 => "hull3-8",
        _ => "hull9+",
    });
    rec.nontrivial_if(chunks >= 2 && h >= 3);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    ty: Ty,
    pts: Vec<[Fl; 2]>,
    idx: Vec<u16>,
    chunk: usize,
    pool: u8,
}
/// Arbitrary floats: the merge always ends and gives a closed list of selected
/// points; in general position it is exactly the convex hull.
fn floats<V: GenericVector2>(c: &FCase, rec: &mut Rec) -> Result<(), String>
where
    V::Scalar: Sc,
    Vec<V>: LineString2<V>,
{
    let v: Vec<V> = c.pts.iter().map(|p| v2(fit::<V::Scalar>(p[0].0), fit::<V::Scalar>(p[1].0))).collect();
    let idx: Vec<usize> =
        if c.idx.is_empty() { (0..v.len()).collect() } else { c.idx.iter().map(|i| *i as usize % v.len()).collect() };
    let go = || (ch::convex_hull_par(&v, &idx, c.chunk), v.convex_hull_par(c.chunk));
    let (a, b) = match pool(c.pool) {
        None => go(),
        Some(p) => p.install(go),
    };
    // coordinates beyond all squares may be rejected, or any corners be lost
    let q: Vec<[f64; 2]> = v.iter().map(|p| xy(*p)).collect();
    let extreme = q.iter().flatten().any(|x| *x != 0.0 && (x.abs() > 1e9 || x.abs() < 1e-9));
    rec.label_if(extreme, "extreme");
    for (name, r, all) in [
        ("convex_hull_par", a.map(|a| a.iter().map(|i| xy(v[*i])).collect::<Vec<_>>()), idx.iter().map(|i| q[*i]).collect::<Vec<_>>()),
        ("LineString2::convex_hull_par", b.map(|b| b.iter().map(|p| xy(*p)).collect::<Vec<_>>()), q.clone()),
    ] {
        if extreme && r.is_err() {
            continue;
        }
        let r = r.map_err(|e| format!("{name}: {e}"))?;
        ensure!(r.iter().all(|p| all.contains(p)), "{name}: {r:?} is not made of the points selected");
        ensure!(r.len() < 2 || r[0] == r[r.len() - 1], "{name}: not closed {r:?}");
        ensure!(!r.is_empty(), "{name}: nothing");
        ensure!(r.len() <= all.len() + 1, "{name}: {} corners of {} points", r.len(), all.len());
        if extreme {
            continue;
        }
        let Some(h) = clear_hull(&all, V::Scalar::eps()) else {
            rec.label("almost collinear");
            continue;
        };
        if h.len() == 1 {
            ensure!(r.len() <= 2, "{name}: {r:?} is the hull of one point");
            continue;
        }
        let mut open = r[..r.len() - 1].to_vec();
        ensure!(open.len() == h.len(), "{name}: hull {r:?}, exact hull is {h:?}");
        match open.iter().position(|p| *p == h[0]) {
            Some(k) => open.rotate_left(k),
            None => return Err(format!("{name}: hull {r:?} misses {:?}", h[0])),
        }
        ensure!(open == h, "{name}: hull {r:?}, exact hull is {h:?}");
        rec.nontrivial_if(h.len() >= 3 && all.len() > c.chunk);
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::new(
        "P08",
        "lattice point clouds and index selections, a chunk size and a thread pool of 1, 2, 3, 8 or all workers; non-trivial = at least two chunks and at least 3 hull corners",
    );
    ctx.serial();
    ctx.assume("the operating system picks the schedule; pools of 1,2,3,8 and the global pool are used, and every result is compared with the exact hull");
    for (name, q, lo, hi, picks) in [
        ("small", 200_000u64, 0usize, 40usize, 60usize),
        ("big", 20_000, 40, 500, 600),
    ] {
        ctx.sub(
            name,
            q,
            || {
                (
                    grid(),
                    maybe_closed(points(lo, hi)),
                    index_picks(picks),
                    prop_oneof![3 => 1usize..=6, 2 => 2usize..=40, 1 => 30usize..=600],
                    0u8..=4,
                )
                    .prop_map(|(g, pts, idx, chunk, pool)| Case { g, pts, idx, chunk, pool })
            },
            |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
        );
    }
    ctx.sub(
        "huge",
        1_500,
        || {
            (grid(), maybe_closed(points(500, 5000)), prop_oneof![1 => 2usize..=6, 2 => 2usize..=100, 2 => 100usize..=3000], 0u8..=4).prop_map(
                |(g, pts, chunk, pool)| Case { g, pts, idx: vec![], chunk, pool },
            )
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "warped",
        60_000,
        || {
            (grid_wide(), warp(1000, 6), maybe_closed(points(0, 60)), index_picks(60), 1usize..=20, 0u8..=4)
                .prop_map(|(g, w, pts, idx, chunk, pool)| Case { g, pts: w.ps(&pts), idx, chunk, pool })
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "far",
        40_000,
        || {
            (grid_far(), maybe_closed(points(0, 60)), index_picks(60), 1usize..=20, 0u8..=4)
                .prop_map(|(g, pts, idx, chunk, pool)| Case { g, pts, idx, chunk, pool })
        },
        |c: &Case, rec: &mut Rec| on_ty!(c.g.ty, run(c, rec)),
    );
    ctx.sub(
        "floats",
        150_000,
        || {
            let extremes = prop::collection::vec(extreme_value(), 1..=6).prop_flat_map(|p| {
                prop::collection::vec([prop::sample::select(p.clone()), prop::sample::select(p)], 1..=30)
            });
            (
                ty(),
                prop_oneof![4 => float_clouds(), 1 => extremes],
                prop_oneof![Just(vec![]), prop::collection::vec(any::<u16>(), 1..=60)],
                2usize..=20,
                0u8..=4,
            )
                .prop_map(|(ty, pts, idx, chunk, pool)| FCase { ty, pts, idx, chunk, pool })
        },
        |c: &FCase, rec: &mut Rec| on_ty!(c.ty, floats(c, rec)),
    );
    ctx.finish()
}
