//! Full query sweeps over anything that implements the library's traits.
use crate::ctx::R;
use crate::ensure;
use crate::model::*;
use crate::rng::Rng;
use graphbench::graph::*;
use graphbench::iterators::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// exact multiset comparison: every element of `want` exactly once
pub fn exactly_once<T: Ord + Clone + std::fmt::Debug>(what: &str, got: impl Iterator<Item = T>, want: &BTreeSet<T>) -> R {
    let mut seen = BTreeSet::new();
    let mut c = 0usize;
    let (lo, hi) = got.size_hint();
    ensure!(lo <= want.len() && hi.map_or(true, |h| h >= want.len()), "{what}: announces {lo}..{hi:?} items where there are {}", want.len());
    for x in got {
        c += 1;
        ensure!(c <= want.len() * 3 + 1000, "{what}: iteration does not stop (more than {c} items)");
        ensure!(want.contains(&x), "{what}: unexpected {x:?}");
        ensure!(seen.insert(x.clone()), "{what}: {x:?} visited twice");
    }
    if seen.len() != want.len() {
        let miss: Vec<&T> = want.iter().filter(|x| !seen.contains(*x)).take(5).collect();
        return Err(format!("{what}: missing {miss:?}"));
    }
    Ok(())
}

pub fn same_set(what: &str, got: &VertexSet, want: &BTreeSet<V>) -> R {
    exactly_once(what, got.iter().cloned(), want)
}

pub fn same_map<T: PartialEq + std::fmt::Debug + Clone>(what: &str, got: &VertexMap<T>, want: &BTreeMap<V, T>) -> R {
    ensure!(got.len() == want.len(), "{what}: {} entries instead of {}", got.len(), want.len());
    for (k, v) in want {
        ensure!(got.get(k) == Some(v), "{what}: entry of {k} is {:?} instead of {v:?}", got.get(k));
    }
    Ok(())
}

/// pairs to probe: all for small graphs, else sampled (every edge endpoint pair plus random pairs)
pub fn probe_pairs(r: &mut Rng, m: &Model, absent: &[V]) -> Vec<(V, V)> {
    let vs = m.verts();
    let mut p = vec![];
    if vs.len() <= 24 {
        for u in &vs { for v in &vs { p.push((*u, *v)) } }
    } else {
        for (u, v) in m.edges().into_iter().take(4000) { p.push((u, v)); p.push((v, u)) }
        for _ in 0..600 { if let (Some(a), Some(b)) = (r.pick(&vs), r.pick(&vs)) { p.push((*a, *b)) } }
    }
    for x in absent {
        for u in vs.iter().take(3) { p.push((*x, *u)); p.push((*u, *x)) }
        p.push((*x, *x));
    }
    p
}

#[derive(Clone, Copy, PartialEq)]
pub enum Nb { Yes, No }

/// Everything the Graph trait answers, against the model.
pub fn graph_view<G: Graph>(r: &mut Rng, g: &G, m: &Model, nb: Nb) -> R {
    let vs: BTreeSet<V> = m.adj.keys().cloned().collect();
    ensure!(g.num_vertices() == m.n(), "num_vertices is {} instead of {}", g.num_vertices(), m.n());
    ensure!(g.len() == m.n(), "len is {} instead of {}", g.len(), m.n());
    ensure!(g.is_empty() == (m.n() == 0), "is_empty is {}", g.is_empty());
    let mm = m.m();
    ensure!(g.num_edges() == mm, "num_edges is {} instead of {}", g.num_edges(), mm);
    exactly_once("vertices()", g.vertices().cloned(), &vs)?;
    let absent = crate::gen::absent(r, m);
    for u in &vs {
        ensure!(g.contains(u), "contains({u}) is false");
        ensure!(g.degree(u) == m.degree(*u), "degree({u}) is {} instead of {}", g.degree(u), m.degree(*u));
    }
    for u in &absent { ensure!(!g.contains(u), "contains({u}) is true for an absent vertex"); }
    let degs: BTreeMap<V, u32> = vs.iter().map(|u| (*u, m.degree(*u))).collect();
    same_map("degrees()", &g.degrees(), &degs)?;
    for (u, v) in probe_pairs(r, m, &absent) {
        ensure!(g.adjacent(&u, &v) == m.adjacent(u, v), "adjacent({u},{v}) is {}", g.adjacent(&u, &v));
    }
    if nb == Nb::Yes {
        for (u, n) in &m.adj {
            exactly_once(&format!("neighbours({u})"), g.neighbours(u).cloned(), n)?;
        }
        let es: BTreeSet<(V, V)> = m.edges().into_iter().collect();
        exactly_once("edges()", g.edges(), &es)?;
    }
    Ok(())
}

/// Everything the LinearGraph trait answers, against model and order.
/// `ordered`: left neighbours are promised in graph order.
pub fn linear_view<L: LinearGraph>(r: &mut Rng, g: &L, m: &Model, order: &[V], ordered: bool) -> R {
    let pos: HashMap<V, usize> = order.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let got: Vec<V> = g.vertices().take(order.len() * 2 + 10).cloned().collect();
    ensure!(got == order, "vertices() lists {:?}.. instead of {:?}..", &got[..got.len().min(12)], &order[..order.len().min(12)]);
    let mut last: Option<usize> = None;
    for u in order {
        let i = g.index_of(u);
        ensure!(last.map_or(true, |l| l < i), "index_of does not increase at {u}");
        last = Some(i);
    }
    let (mut lmax, mut rmax) = (0, 0);
    let (mut ld, mut rd) = (BTreeMap::new(), BTreeMap::new());
    for u in order {
        let pu = pos.get(u).cloned().unwrap_or(0);
        let n = m.nbrs(*u);
        let left: BTreeSet<V> = n.iter().filter(|v| pos.get(v).map_or(false, |p| *p < pu)).cloned().collect();
        let right = n.len() - left.len();
        let gl = g.left_neighbours(u);
        exactly_once(&format!("left_neighbours({u})"), gl.iter().cloned(), &left)?;
        if ordered {
            ensure!(gl.windows(2).all(|w| pos.get(&w[0]) < pos.get(&w[1])), "left_neighbours({u}) = {gl:?} not in graph order");
        }
        ensure!(g.left_degree(u) as usize == left.len(), "left_degree({u}) is {} instead of {}", g.left_degree(u), left.len());
        ensure!(g.right_degree(u) as usize == right, "right_degree({u}) is {} instead of {right}", g.right_degree(u));
        lmax = lmax.max(left.len() as u32);
        rmax = rmax.max(right as u32);
        ld.insert(*u, left.len() as u32);
        rd.insert(*u, right as u32);
    }
    same_map("left_degrees()", &g.left_degrees(), &ld)?;
    same_map("right_degrees()", &g.right_degrees(), &rd)?;
    ensure!(g.max_left_degree() == lmax, "max_left_degree is {} instead of {lmax}", g.max_left_degree());
    ensure!(g.max_right_degree() == rmax, "max_right_degree is {} instead of {rmax}", g.max_right_degree());
    for x in crate::gen::absent(r, m) {
        ensure!(g.left_degree(&x) == 0 && g.right_degree(&x) == 0 && g.degree(&x) == 0, "degrees of the absent vertex {x}: {} to the left, {} to the right, {} in all", g.left_degree(&x), g.right_degree(&x), g.degree(&x));
    }
    for k in 0..4 {
        let mut s: Vec<V> = match k { 0 => vec![], 1 => order.to_vec(), _ => { let p = r.f(); r.subset(order, p) } };
        r.shuffle(&mut s);
        let lm = s.iter().min_by_key(|v| pos.get(v)).cloned();
        let rm = s.iter().max_by_key(|v| pos.get(v)).cloned();
        let gl = if r.coin() { g.leftmost(s.iter()) } else { g.leftmost(s.iter().cloned()) };
        let gr = if r.coin() { g.rightmost(s.iter()) } else { g.rightmost(s.iter().cloned()) };
        ensure!(gl == lm, "leftmost({s:?}) is {gl:?} instead of {lm:?}");
        ensure!(gr == rm, "rightmost({s:?}) is {gr:?} instead of {rm:?}");
    }
    Ok(())
}

/// Full sweep over a digraph.
pub fn digraph_view(r: &mut Rng, g: &graphbench::editdigraph::EditDigraph, m: &DiModel) -> R {
    let vs: BTreeSet<V> = m.out.keys().cloned().collect();
    ensure!(g.num_vertices() == m.n(), "num_vertices is {} instead of {}", g.num_vertices(), m.n());
    ensure!(g.len() == m.n() && g.is_empty() == (m.n() == 0), "len/is_empty wrong");
    ensure!(g.num_edges() == m.m(), "num_edges is {} instead of {}", g.num_edges(), m.m());
    exactly_once("vertices()", Graph::vertices(g).cloned(), &vs)?;
    let und = m.undirected();
    let absent = crate::gen::absent(r, &und);
    let (mut di, mut dou, mut dd) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
    for u in &vs {
        let (o, i) = (m.outs(*u), m.ins(*u));
        ensure!(g.contains(u), "contains({u}) is false");
        ensure!(g.in_degree(u) as usize == i.len(), "in_degree({u}) is {} instead of {}", g.in_degree(u), i.len());
        ensure!(g.out_degree(u) as usize == o.len(), "out_degree({u}) is {} instead of {}", g.out_degree(u), o.len());
        ensure!(g.degree(u) as usize == o.len() + i.len(), "degree({u}) is {} instead of {}", g.degree(u), o.len() + i.len());
        exactly_once(&format!("out_neighbours({u})"), g.out_neighbours(u).cloned(), &o)?;
        exactly_once(&format!("in_neighbours({u})"), g.in_neighbours(u).cloned(), &i)?;
        let un: BTreeSet<V> = o.union(&i).cloned().collect();
        let n1: BTreeSet<V> = Graph::neighbours(g, u).cloned().collect();
        let n2: BTreeSet<V> = Digraph::neighbours(g, u).cloned().collect();
        ensure!(n1 == un, "Graph::neighbours({u}) is {n1:?} instead of {un:?}");
        ensure!(n2 == un, "Digraph::neighbours({u}) is {n2:?} instead of {un:?}");
        di.insert(*u, i.len() as u32);
        dou.insert(*u, o.len() as u32);
        dd.insert(*u, (i.len() + o.len()) as u32);
    }
    same_map("in_degrees()", &g.in_degrees(), &di)?;
    same_map("out_degrees()", &g.out_degrees(), &dou)?;
    same_map("degrees()", &g.degrees(), &dd)?;
    for u in &absent { ensure!(!g.contains(u), "contains({u}) is true for an absent vertex"); }
    for (u, v) in probe_pairs(r, &und, &absent) {
        ensure!(g.has_arc(&u, &v) == m.has_arc(u, v), "has_arc({u},{v}) is {}", g.has_arc(&u, &v));
        let a = m.has_arc(u, v) || m.has_arc(v, u);
        ensure!(g.adjacent(&u, &v) == a, "adjacent({u},{v}) is {} but arcs joining them: {a}", g.adjacent(&u, &v));
    }
    let arcs: BTreeSet<(V, V)> = m.arcs().into_iter().collect();
    exactly_once("arcs()", g.arcs(), &arcs)?;
    Ok(())
}
