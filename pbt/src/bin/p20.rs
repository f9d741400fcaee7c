//! P20 divide_into_shapes: edges into continuous shapes.
use linestring::prelude::divide_into_shapes;
use pbt::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    idx: Vec<usize>,
}

type E = (usize, usize);
fn e(a: usize, b: usize) -> E {
    (a.min(b), a.max(b))
}

fn run(c: &Case, rec: &mut Rec) -> Result<(), String> {
    // an edge from a vertex to itself connects nothing
    let edges: BTreeSet<E> = c.idx.chunks_exact(2).map(|w| e(w[0], w[1])).filter(|e| e.0 != e.1).collect();
    rec.label_if(c.idx.chunks_exact(2).any(|w| w[0] == w[1]), "edge-to-itself");
    let mut deg: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for (a, b) in &edges {
        let _ = deg.entry(*a).or_default().insert(*b);
        let _ = deg.entry(*b).or_default().insert(*a);
    }
    let passes = |v: usize| deg.get(&v).is_some_and(|s| s.len() == 2);
    let (shapes, vob) = divide_into_shapes(&c.idx);
    let mut seen: BTreeSet<E> = BTreeSet::new();
    let (mut loops, mut open, mut knots) = (0, 0, 0);
    for s in &shapes {
        ensure!(s.len() >= 2, "shape of {} vertices: {s:?} in {shapes:?}", s.len());
        for w in s.windows(2) {
            ensure!(edges.contains(&e(w[0], w[1])), "{w:?} is not an edge: {shapes:?}");
            ensure!(seen.insert(e(w[0], w[1])), "edge {w:?} is used twice: {shapes:?}");
        }
        for v in &s[1..s.len() - 1] {
            ensure!(passes(*v), "shape {s:?} runs through the junction or end {v}: {shapes:?}");
        }
        let (f, l) = (s[0], s[s.len() - 1]);
        if f == l {
            if passes(f) { loops += 1 } else { knots += 1 }
        } else {
            ensure!(!passes(f) && !passes(l), "shape {s:?} ends at a vertex where it could go on: {shapes:?}");
            open += 1;
        }
    }
    ensure!(seen.len() == edges.len(), "edges missing in {shapes:?}: {:?}", edges.difference(&seen).collect::<Vec<_>>());
    for (v, n) in &deg {
        ensure!(vob.get(*v) == Some(n.len() == 2), "vertex {v} with {} neighbours is flagged {:?}", n.len(), vob.get(*v));
    }
    for v in 0..vob.len() {
        ensure!(deg.contains_key(&v) || vob.get(v) == Some(false), "unused vertex {v} is flagged");
    }
    rec.label_if(loops > 0, "free-loop");
    rec.label_if(knots > 0, "loop-at-junction");
    rec.label_if(open > 0, "open-shape");
    rec.label_if(edges.is_empty(), "empty");
    rec.label_if(edges.len() * 2 < c.idx.len() / 2 * 2, "duplicated-edges");
    rec.nontrivial_if(shapes.len() > 1 && shapes.iter().any(|s| s.len() > 2));
    Ok(())
}

/// Building blocks which are glued together by choosing vertices from a small
/// or large pool.
#[derive(Clone, Debug)]
enum Part {
    Edge(u16, u16),
    Path(Vec<u16>),
    Cycle(Vec<u16>),
    Star(u16, Vec<u16>),
}
fn build(parts: &[Part], dup: &[(u16, bool)], shuffle: &[u16], relabel: &[u32], mode: u8, tail: Option<u16>) -> Case {
    let mut ed: Vec<(usize, usize)> = vec![];
    for p in parts {
        match p {
            Part::Edge(a, b) => ed.push((*a as usize, *b as usize)),
            Part::Path(v) => ed.extend(v.windows(2).map(|w| (w[0] as usize, w[1] as usize))),
            Part::Cycle(v) => {
                ed.extend(v.windows(2).map(|w| (w[0] as usize, w[1] as usize)));
                if v.len() > 2 {
                    ed.push((v[v.len() - 1] as usize, v[0] as usize));
                }
            }
            Part::Star(c, v) => ed.extend(v.iter().map(|x| (*c as usize, *x as usize))),
        }
    }
    let n = ed.len();
    for (i, flip) in dup {
        if n > 0 {
            let (a, b) = ed[*i as usize % n];
            ed.push(if *flip { (b, a) } else { (a, b) });
        }
    }
    for (i, k) in shuffle.iter().enumerate() {
        if !ed.is_empty() {
            let n = ed.len();
            ed.swap(i % n, *k as usize % n);
            if k & 1 == 1 {
                let e = &mut ed[i % n];
                *e = (e.1, e.0);
            }
        }
    }
    let map = |v: usize| match mode {
        // dense, or any injective relabelling
        0 => v,
        1 => 1000 - v.min(1000),
        2 => v * 37 % 4099,
        _ => v + relabel.first().copied().unwrap_or(0) as usize % 5000,
    };
    let mut idx: Vec<usize> = ed.iter().flat_map(|(a, b)| [map(*a), map(*b)]).collect();
    if let Some(t) = tail {
        idx.push(t as usize);
    }
    Case { idx }
}

fn main() {
    let mut ctx = Ctx::new(
        "P20",
        "edge lists of random, path, cycle and star parts over small and large vertex pools, shuffled, flipped, duplicated, densely and sparsely numbered, with a dangling index; non-trivial = more than one shape and a shape of more than one edge",
    );
    ctx.assume("edges from a vertex to itself belong to no shape");
    let part = |n: u16, len: usize| {
        let v = move || 0..n;
        prop_oneof![
            4 => (v(), v()).prop_map(|(a, b)| Part::Edge(a, b)),
            2 => prop::collection::vec(v(), 2..=len).prop_map(Part::Path),
            2 => prop::collection::vec(v(), 3..=len).prop_map(Part::Cycle),
            1 => (v(), prop::collection::vec(v(), 1..=5)).prop_map(|(a, b)| Part::Star(a, b)),
            // proper cycles of distinct, neighbouring vertices
            2 => (v(), 3..=len as u16).prop_map(move |(a, k)| Part::Cycle((0..k).map(|i| a + i).collect())),
        ]
        .boxed()
    };
    let mk = move |n: u16, len: usize, parts: usize| {
        (
            prop::collection::vec(part(n, len), 0..=parts),
            prop::collection::vec(any::<(u16, bool)>(), 0..4),
            prop::collection::vec(any::<u16>(), 0..=40),
            prop::collection::vec(any::<u32>(), 1),
            0u8..4,
            prop::option::weighted(0.1, 0..n),
        )
            .prop_map(|(p, d, s, r, m, t)| build(&p, &d, &s, &r, m, t))
    };
    ctx.sub("tiny", 1_000_000, move || mk(7, 5, 4), run);
    ctx.sub("small", 1_000_000, move || mk(20, 8, 8), run);
    ctx.sub("large", 100_000, move || mk(400, 60, 30), run);
    ctx.sub("larger", 4_000, move || mk(6000, 1500, 60), run);
    ctx.finish()
}
