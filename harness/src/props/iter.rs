//! C07: iterators.  C08: neighbourhoods and balls.
use super::Prop;
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::refgraph::*;
use crate::rng::{mix, Rng};
use crate::views::*;
use crate::ensure;
use graphbench::degengraph::DegenGraph;
use graphbench::graph::*;
use graphbench::iterators::*;
use graphbench::ordgraph::OrdGraph;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C07", quick: 50000, thorough: 3000000, run: c07,
        rule: "vertex/edge/mixed/neighbourhood/arc/left-neighbourhood iteration over EditGraph, EditDigraph, OrdGraph, DegenGraph, ReachGraph and foreign implementations with shuffled iteration order; all graphs on <=4 vertices with all loop patterns first; non-trivial = graph with an edge" });
    v.push(Prop { id: "C08", quick: 72000, thorough: 4320000, run: c08,
        rule: "neighbourhood, closed neighbourhood, r-neighbourhoods of random centre sets in graphs of every representation and in-/out-neighbourhoods in digraphs against breadth-first search; non-trivial = non-empty centre set with an outside neighbour" });
}

fn mixed_items<I: Iterator<Item = VertexOrEdge>>(it: I, limit: usize) -> (Vec<V>, Vec<(V, V)>) {
    let (mut vs, mut es) = (vec![], vec![]);
    for x in it.take(limit) { match x { VertexOrEdge::V(v) => vs.push(v), VertexOrEdge::E(e) => es.push(e) } }
    (vs, es)
}

pub(super) fn iterate<G: Graph>(what: &str, g: &G, m: &Model) -> R {
    let vs: BTreeSet<V> = m.adj.keys().cloned().collect();
    let es: BTreeSet<(V, V)> = m.edges().into_iter().collect();
    let p = |e: String| format!("{what}: {e}");
    exactly_once("vertices()", g.vertices().cloned(), &vs).map_err(p)?;
    exactly_once("edges()", g.edges(), &es).map_err(p)?;
    let (mv, me) = mixed_items(g.vertices_and_edges(), 4 * (vs.len() + es.len()) + 10);
    exactly_once("vertices_and_edges() vertices", mv.into_iter(), &vs).map_err(p)?;
    exactly_once("vertices_and_edges() edges", me.into_iter(), &es).map_err(p)?;
    // the same iterators, consumed other than by next()
    ensure!(g.vertices().count() == vs.len(), "{what}: vertices().count() is {}", g.vertices().count());
    ensure!(g.edges().count() == es.len(), "{what}: edges().count() is {}", g.edges().count());
    ensure!(g.vertices_and_edges().count() == vs.len() + es.len(), "{what}: vertices_and_edges().count() is {}", g.vertices_and_edges().count());
    ensure!(g.neighbourhoods().count() == vs.len(), "{what}: neighbourhoods().count() is {}", g.neighbourhoods().count());
    let all: Vec<(V, V)> = g.edges().collect();
    ensure!(g.edges().last().is_some() == all.last().is_some(), "{what}: edges().last() is {:?}", g.edges().last());
    let cut = all.len() / 2;
    let mut it = g.edges();
    let mut split: Vec<(V, V)> = it.by_ref().take(cut).collect();
    if let Some(e) = it.nth(0) { split.push(e); }
    split.extend(it);
    exactly_once("edges(), taken in two parts", split.into_iter(), &es).map_err(p)?;
    let mut seen = BTreeSet::new();
    for (v, n) in g.neighbourhoods() {
        ensure!(seen.insert(v), "{what}: neighbourhoods() visits {v} twice");
        ensure!(m.has(v), "{what}: neighbourhoods() visits unknown {v}");
        exactly_once(&format!("neighbourhoods() at {v}"), n.cloned(), &m.nbrs(v)).map_err(p)?;
    }
    ensure!(seen == vs, "{what}: neighbourhoods() misses vertices");
    Ok(())
}

pub(super) fn left_iter<L: LinearGraph>(what: &str, g: &L, m: &Model, order: &[V]) -> R {
    let pos: HashMap<V, usize> = order.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let mut i = 0;
    for (v, n) in g.left_neighbourhoods() {
        ensure!(i < order.len() && order[i] == v, "{what}: left_neighbourhoods() visits {v} at position {i}");
        let want: BTreeSet<V> = m.nbrs(v).into_iter().filter(|w| pos.get(w).map_or(false, |p| *p < i)).collect();
        exactly_once(&format!("{what}: left_neighbourhoods() at {v}"), n.into_iter(), &want)?;
        i += 1;
    }
    ensure!(i == order.len(), "{what}: left_neighbourhoods() stops after {i} of {} vertices", order.len());
    Ok(())
}

fn c07(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    // exhaustive: all graphs on up to 4 vertices, all loop patterns
    let small = gen::exhaustive_count(4) as usize;
    let m = if case < small {
        let a = match gen::exhaustive(case as u64, 4) { Some(a) => a, None => return Ok(()) };
        for mask in 0..(1u32 << a.n) {
            let l = gen::labels(&mut r, a.n, u32::MAX);
            let mut m = Model::from_parts(&l, &a.e.iter().map(|e| (l[e.0], l[e.1])).collect::<Vec<_>>());
            for i in 0..a.n { if mask >> i & 1 == 1 { m.add_edge(l[i], l[i]); } }
            c.input(m.show());
            iterate("EditGraph", &gen::build(&mut r, &m), &m)?;
            iterate("foreign graph", &RefGraph::new(&mut r, &m), &m)?;
            c.eval(m.m() > 0, m.h());
        }
        return Ok(());
    } else if case % 300 == 2 { gen::random_model(&mut r, &gen::loopy(500)) } else { gen::random_model(&mut r, &gen::loopy(20)) };
    c.input(m.show());
    let g = gen::build(&mut r, &m);
    iterate("EditGraph", &g, &m)?;
    iterate("foreign graph", &RefGraph::new(&mut r, &m), &m)?;
    c.bump("edges visited", 2 * m.m() as u64);
    let mut s = m.clone();
    s.remove_loops();
    let g = gen::build(&mut r, &s);
    let order = gen::random_order(&mut r, &s);
    let og = OrdGraph::with_ordering(&g, order.iter());
    iterate("OrdGraph", &og, &s)?;
    left_iter("OrdGraph", &og, &s, &order)?;
    let dg = DegenGraph::with_ordering(&g, order.iter());
    iterate("DegenGraph", &dg, &s)?;
    left_iter("DegenGraph", &dg, &s, &order)?;
    let rl = RefLin::new(&mut r, &s, &order);
    left_iter("foreign ordered graph", &rl, &s, &order)?;
    let rg = og.to_wreach_graph::<2>();
    left_iter("ReachGraph", &rg, &s, &order)?;
    c.bump("left neighbourhoods visited", 4 * s.n() as u64);
    // digraphs
    let d = if case % 300 == 2 { gen::random_dimodel(&mut r, 200, 0.4, u32::MAX) } else { gen::random_dimodel(&mut r, 14, 0.4, u32::MAX) };
    c.input(format!("digraph {}", d.show()));
    let g = gen::build_di(&mut r, &d);
    let arcs: BTreeSet<(V, V)> = d.arcs().into_iter().collect();
    exactly_once("arcs()", g.arcs(), &arcs)?;
    for mode in 0..2 {
        let it: Vec<(V, Vec<V>)> = if mode == 0 { g.in_neighbourhoods().map(|(v, n)| (v, n.cloned().collect())).collect() } else { g.out_neighbourhoods().map(|(v, n)| (v, n.cloned().collect())).collect() };
        let name = if mode == 0 { "in_neighbourhoods()" } else { "out_neighbourhoods()" };
        let vs: BTreeSet<V> = d.verts().into_iter().collect();
        exactly_once(name, it.iter().map(|x| x.0), &vs)?;
        for (v, n) in it {
            let want = if mode == 0 { d.ins(v) } else { d.outs(v) };
            exactly_once(&format!("{name} at {v}"), n.into_iter(), &want)?;
        }
    }
    let (mv, me) = mixed_items(g.vertices_and_edges(), 1_000_000);
    let vs: BTreeSet<V> = d.verts().into_iter().collect();
    exactly_once("vertices_and_edges() vertices of a digraph", mv.into_iter(), &vs)?;
    let _ = me; // the edge multiplicity of anti-parallel arcs is not specified
    c.bump("arcs visited", d.m() as u64);
    c.eval(m.m() > 0, mix(m.h() ^ d.h()));
    c.sample(|| m.show());
    Ok(())
}

pub(super) fn balls<G: Graph>(what: &str, r: &mut Rng, g: &G, m: &Model, ix: &Idx, rmax: usize) -> Result<bool, String> {
    let vs = m.verts();
    let p = match r.below(4) { 0 => 0.1, 1 => 0.3, 2 => r.f(), _ => 0.0 };
    let mut cs = r.subset(&vs, p);
    if cs.is_empty() && r.chance(0.8) { if let Some(v) = r.pick(&vs) { cs.push(*v) } }
    let set: BTreeSet<V> = cs.iter().cloned().collect();
    if r.coin() { if let Some(v) = r.pick(&cs).cloned() { cs.push(v) } }
    r.shuffle(&mut cs);
    let src: Vec<usize> = set.iter().map(|v| ix.pos[v]).collect();
    let d = ix.bfs(&src);
    let at = |lim: u32| -> BTreeSet<V> { (0..ix.n()).filter(|i| d[*i] <= lim && d[*i] != INF).map(|i| ix.labels[i]).collect() };
    let n1: BTreeSet<V> = (0..ix.n()).filter(|i| d[*i] == 1).map(|i| ix.labels[i]).collect();
    let byref = r.coin();
    let g1 = if byref { g.neighbourhood(cs.iter()) } else { g.neighbourhood(cs.clone()) };
    same_set(&format!("{what}: neighbourhood({cs:?})"), &g1, &n1)?;
    let g2 = if byref { g.closed_neighbourhood(cs.iter()) } else { g.closed_neighbourhood(cs.clone()) };
    same_set(&format!("{what}: closed_neighbourhood({cs:?})"), &g2, &at(1))?;
    let rr = r.below(rmax + 1);
    let g3 = if byref { g.r_neighbourhood(cs.iter(), rr) } else { g.r_neighbourhood(cs.clone(), rr) };
    same_set(&format!("{what}: r_neighbourhood({cs:?}, {rr})"), &g3, &at(rr as u32))?;
    if let Some(v) = r.pick(&vs) {
        let d = ix.bfs(&[ix.pos[v]]);
        let rr = r.below(rmax + 1);
        let want: BTreeSet<V> = (0..ix.n()).filter(|i| d[*i] <= rr as u32 && d[*i] != INF).map(|i| ix.labels[i]).collect();
        same_set(&format!("{what}: r_neighbours({v}, {rr})"), &g.r_neighbours(v, rr), &want)?;
    }
    Ok(!n1.is_empty())
}

fn c08(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let big = case % 250 == 3;
    let m = if big { gen::random_model(&mut r, &gen::loopy(260)) } else { gen::random_model(&mut r, &gen::loopy(22)) };
    c.input(m.show());
    let ix = m.idx();
    let rmax = if r.chance(0.2) { m.n() + 3 } else { 6 };
    let g = gen::build(&mut r, &m);
    let mut nt = false;
    for _ in 0..3 { nt |= balls("EditGraph", &mut r, &g, &m, &ix, rmax)?; }
    let rg = RefGraph::new(&mut r, &m);
    nt |= balls("foreign graph", &mut r, &rg, &m, &ix, rmax)?;
    let mut s = m.clone();
    s.remove_loops();
    let sx = s.idx();
    let g = gen::build(&mut r, &s);
    let order = gen::random_order(&mut r, &s);
    let og = OrdGraph::with_ordering(&g, order.iter());
    nt |= balls("OrdGraph", &mut r, &og, &s, &sx, rmax)?;
    let dg = DegenGraph::with_ordering(&g, order.iter());
    nt |= balls("DegenGraph", &mut r, &dg, &s, &sx, rmax)?;
    c.bump("ball queries", 24);
    // digraphs
    let d = if big { gen::random_dimodel(&mut r, 120, 0.3, u32::MAX) } else { gen::random_dimodel(&mut r, 14, 0.3, u32::MAX) };
    c.input(format!("digraph {}", d.show()));
    let g = gen::build_di(&mut r, &d);
    let vs = d.verts();
    let p = r.f() * 0.6;
    let mut cs = r.subset(&vs, p);
    let set: BTreeSet<V> = cs.iter().cloned().collect();
    if let Some(v) = r.pick(&cs).cloned() { if r.coin() { cs.push(v) } }
    let outs: BTreeSet<V> = set.iter().flat_map(|u| d.outs(*u)).filter(|v| !set.contains(v)).collect();
    let ins: BTreeSet<V> = set.iter().flat_map(|u| d.ins(*u)).filter(|v| !set.contains(v)).collect();
    let o = if r.coin() { g.out_neighbourhood(cs.iter()) } else { g.out_neighbourhood(cs.clone()) };
    same_set(&format!("out_neighbourhood({cs:?})"), &o, &outs)?;
    let i = if r.coin() { g.in_neighbourhood(cs.iter()) } else { g.in_neighbourhood(cs.clone()) };
    same_set(&format!("in_neighbourhood({cs:?})"), &i, &ins)?;
    let und = d.undirected();
    balls("digraph read as a graph", &mut r, &g, &und, &und.idx(), 5)?;
    c.eval(nt, mix(m.h() ^ d.h().rotate_left(5)));
    c.sample(|| m.show());
    let _: BTreeMap<u8, u8> = BTreeMap::new();
    Ok(())
}
