//! C17: components.  C18: degeneracy.  C19: bipartiteness witness.
use super::Prop;
use crate::ctx::*;
use crate::gen::{self, Abs, Opt};
use crate::model::*;
use crate::refgraph::*;
use crate::rng::{mix, Rng};
use crate::{ensure, fail};
use graphbench::algorithms::*;
use graphbench::degengraph::DegenGraph;
use graphbench::graph::*;
use graphbench::ordgraph::OrdGraph;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C17", quick: 18000, thorough: 1080000, run: c17,
        rule: "components() of EditGraph, EditDigraph, OrdGraph, DegenGraph and foreign graphs against a search; all graphs on <=5 vertices first; non-trivial = at least one edge" });
    v.push(Prop { id: "C18", quick: 14000, thorough: 840000, run: c18,
        rule: "degeneracy() against true core numbers by peeling; all graphs on <=5 vertices, all families, and cores of degree 100 to 500 where buckets widen; non-trivial = at least one edge" });
    v.push(Prop { id: "C19", quick: 120000, thorough: 7200000, run: c19,
        rule: "is_bipartite() witness validated and compared with 2-colourability; all graphs on <=5 vertices with loops, near-bipartite families with few odd cycles; non-trivial = graph with a cycle or an odd-cycle answer" });
}

fn small_or(r: &mut Rng, case: usize, n: usize, o: &Opt, big: &Opt) -> Model {
    if (case as u64) < gen::exhaustive_count(n) {
        if let Some(a) = gen::exhaustive(case as u64, n) { return gen::to_model(r, &a, o) }
    }
    if case % 150 == 7 { gen::random_model(r, big) } else { gen::random_model(r, o) }
}

pub(super) fn comps<G: Graph>(what: &str, g: &G, m: &Model) -> R {
    let ix = m.idx();
    let c = ix.components();
    let k = c.iter().max().map_or(0, |x| x + 1);
    let got = g.components();
    ensure!(got.len() == k, "{what}: {} components instead of {k}", got.len());
    let mut seen: BTreeSet<V> = BTreeSet::new();
    for s in &got {
        ensure!(!s.is_empty(), "{what}: empty component");
        let mut id = None;
        for v in s {
            let p = match ix.pos.get(v) { Some(p) => *p, None => fail!("{what}: {v} is not a vertex") };
            ensure!(seen.insert(*v), "{what}: {v} is in two components");
            ensure!(*id.get_or_insert(c[p]) == c[p], "{what}: component mixes unconnected vertices at {v}");
        }
    }
    ensure!(seen.len() == m.n(), "{what}: {} of {} vertices covered", seen.len(), m.n());
    Ok(())
}

fn c17(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let m = small_or(&mut r, case, 5, &gen::loopy(24), &gen::loopy(1500));
    c.input(m.show());
    let g = gen::build(&mut r, &m);
    comps("EditGraph", &g, &m)?;
    comps("foreign graph", &RefGraph::new(&mut r, &m), &m)?;
    if !m.has_loops() {
        let o = gen::random_order(&mut r, &m);
        comps("OrdGraph", &OrdGraph::with_ordering(&g, o.iter()), &m)?;
        comps("DegenGraph", &DegenGraph::with_ordering(&g, o.iter()), &m)?;
    }
    if case % 4 == 0 {
        let d = gen::random_dimodel(&mut r, 20, 0.3, u32::MAX);
        c.input(format!("digraph {}", d.show()));
        comps("EditDigraph", &gen::build_di(&mut r, &d), &d.undirected())?;
    }
    c.max("components_in_one_graph", m.idx().components().iter().max().map_or(0, |x| *x as u64 + 1));
    c.max("vertices_in_one_graph", m.n() as u64);
    c.eval(m.m() > 0, m.h());
    c.sample(|| m.show());
    Ok(())
}

// ---------------------------------------------------------------- C18

pub(super) fn degen<G: Graph>(c: &mut Ctx, what: &str, g: &G, m: &Model) -> R {
    let ix = m.idx();
    let (k, core) = ix.cores();
    let (lo, up, order, cn) = g.degeneracy();
    ensure!(lo <= k && k <= up, "{what}: degeneracy {k} outside the reported bounds {lo}..{up}");
    ensure!(order.len() == m.n(), "{what}: ordering has {} entries for {} vertices", order.len(), m.n());
    let mut pos: HashMap<V, usize> = HashMap::new();
    for (i, v) in order.iter().enumerate() {
        ensure!(m.has(*v), "{what}: ordering lists unknown {v}");
        ensure!(pos.insert(*v, i).is_none(), "{what}: ordering lists {v} twice");
    }
    let mut left = 0;
    for v in &order {
        let l = m.adj.get(v).map_or(0, |n| n.iter().filter(|w| pos.get(w) < pos.get(v)).count());
        left = left.max(l);
        ensure!(l as u32 <= up, "{what}: {v} has {l} neighbours before it, upper bound {up}");
    }
    ensure!(cn.len() == m.n(), "{what}: {} core numbers for {} vertices", cn.len(), m.n());
    if k <= 128 { ensure!(lo == up, "{what}: degeneracy {k} but bounds {lo}..{up} differ"); }
    for (i, v) in ix.labels.iter().enumerate() {
        let x = match cn.get(v) { Some(x) => *x, None => fail!("{what}: no core number for {v}") };
        ensure!(x >= core[i] && x <= up, "{what}: core number of {v} reported as {x}, true {} (bounds {lo}..{up})", core[i]);
        if lo == up { ensure!(x == core[i], "{what}: bounds coincide at {lo} but the core number of {v} is {x} instead of {}", core[i]); }
    }
    c.max("degeneracy", k as u64);
    c.max("left_degree_of_ordering", left as u64);
    if lo < up { c.bump("graphs with a proper bound interval", 1) }
    Ok(())
}

/// graphs whose degeneracy crosses the bucket boundaries above 128
fn dense(r: &mut Rng) -> Model {
    let mut m = Model::new();
    let base: u32 = r.u32() % 100_000;
    let k = [100, 120, 127, 128, 129, 130, 131, 132, 133, 135, 136, 137, 143, 144, 145, 160, 161, 192, 193, 200, 256, 257, 258, 300, 384, 400, 500][r.below(27)];
    match r.below(4) {
        0 => { // clique with pendant structure
            for i in 0..=k as u32 { for j in 0..i { m.add_edge(base + i, base + j); } }
            for i in 0..r.below(40) as u32 { m.add_edge(base + i % (k as u32), base + 10_000 + i); }
        }
        1 => { // biclique plus sparse part: degeneracy = smaller side
            let b = k as u32 + r.below(60) as u32;
            for i in 0..k as u32 { for j in 0..b { m.add_edge(base + i, base + 1000 + j); } }
            for i in 0..50u32 { m.add_edge(base + 5000 + i, base + 5001 + i); }
        }
        2 => { // nested cliques of different size
            let mut at = base;
            for s in [k / 3, k / 2, k] {
                let s = s as u32;
                for i in 0..=s { for j in 0..i { m.add_edge(at + i, at + j); } }
                if r.coin() { m.add_edge(at, base); m.remove_edge(base, base); }
                at += s + 1;
            }
        }
        _ => { // dense random
            let n = (k + r.below(k)) as u32;
            let p = 0.5 + 0.5 * r.f();
            for i in 0..n { m.add_vertex(base + i); for j in 0..i { if r.chance(p) { m.add_edge(base + i, base + j); } } }
        }
    }
    m
}

fn c18(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let m = if case % 120 == 11 { dense(&mut r) } else { small_or(&mut r, case, 5, &gen::simple(40), &gen::simple(900)) };
    c.input(m.show());
    let g = gen::build(&mut r, &m);
    degen(c, "EditGraph", &g, &m)?;
    if m.m() < 30_000 {
        degen(c, "foreign graph", &RefGraph::new(&mut r, &m), &m)?;
        let o = gen::random_order(&mut r, &m);
        degen(c, "OrdGraph", &OrdGraph::with_ordering(&g, o.iter()), &m)?;
        degen(c, "DegenGraph", &DegenGraph::with_ordering(&g, o.iter()), &m)?;
    }
    c.eval(m.m() > 0, m.h());
    c.sample(|| m.show());
    Ok(())
}

// ---------------------------------------------------------------- C19

pub(super) fn bip<G: Graph>(c: &mut Ctx, what: &str, g: &G, m: &Model) -> R {
    let truth = m.idx().bipartite();
    match g.is_bipartite() {
        BipartiteWitness::Bipartition(a, b) => {
            ensure!(truth, "{what}: bipartition reported for a graph with an odd cycle");
            let mut col: BTreeMap<V, bool> = BTreeMap::new();
            for v in &a { ensure!(m.has(*v) && col.insert(*v, true).is_none(), "{what}: bad left class at {v}"); }
            for v in &b { ensure!(m.has(*v) && col.insert(*v, false).is_none(), "{what}: bad right class at {v}"); }
            ensure!(col.len() == m.n(), "{what}: classes cover {} of {} vertices", col.len(), m.n());
            for (u, v) in m.edges() { ensure!(col[&u] != col[&v], "{what}: edge ({u},{v}) inside a class"); }
            c.bump("bipartitions", 1);
        }
        BipartiteWitness::OddCycle(cy) => {
            ensure!(!truth, "{what}: odd cycle {cy:?} reported for a bipartite graph");
            ensure!(cy.len() % 2 == 1, "{what}: cycle {cy:?} has even length");
            let s: BTreeSet<V> = cy.iter().cloned().collect();
            ensure!(s.len() == cy.len(), "{what}: cycle {cy:?} repeats a vertex");
            for i in 0..cy.len() {
                let (u, v) = (cy[i], cy[(i + 1) % cy.len()]);
                ensure!(m.adjacent(u, v), "{what}: cycle {cy:?} uses the non-edge ({u},{v})");
            }
            c.bump("odd cycles", 1);
            c.max("longest_odd_cycle", cy.len() as u64);
        }
    }
    Ok(())
}

fn near_bipartite(r: &mut Rng, n: usize) -> Model {
    let f = [4, 5, 6, 8, 10, 11, 17, 22, 28][r.below(9)];
    let mut a: Abs = gen::family(r, f, n);
    if r.chance(0.4) { // double cover: every edge crosses the halves
        let k = a.n;
        a.e = a.e.iter().flat_map(|e| vec![(e.0, e.1 + k), (e.1, e.0 + k)]).collect();
        a.n = 2 * k;
    }
    for _ in 0..r.below(3) { if a.n > 1 { let (x, y) = (r.below(a.n), r.below(a.n)); a.e.push((x, y)) } }
    let m = gen::to_model(r, &Abs { n: a.n, e: a.e.into_iter().filter(|e| e.0 != e.1).collect() }, &gen::simple(1));
    m
}

fn c19(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let n = gen::exhaustive_count(5) as usize;
    let m = if case < n { small_or(&mut r, case, 5, &Opt { loops: 0.0, ..gen::simple(5) }, &gen::simple(5)) }
        else if case < n + 75 * 4 { // all loop patterns on graphs with up to 4 vertices
            let i = (case - n) as u64 % gen::exhaustive_count(4);
            small_or(&mut r, i as usize, 4, &Opt { loops: 1.0, ..gen::simple(4) }, &gen::simple(4)) }
        else if case % 3 == 0 { let s = r.range(3, if case % 60 == 0 { 300 } else { 24 }); near_bipartite(&mut r, s) }
        else { small_or(&mut r, case, 0, &Opt { loops: 0.1, ..gen::simple(20) }, &Opt { loops: 0.1, ..gen::simple(600) }) };
    c.input(m.show());
    let g = gen::build(&mut r, &m);
    bip(c, "EditGraph", &g, &m)?;
    for _ in 0..2 { bip(c, "foreign graph", &RefGraph::new(&mut r, &m), &m)?; }
    if !m.has_loops() {
        let o = gen::random_order(&mut r, &m);
        bip(c, "OrdGraph", &OrdGraph::with_ordering(&g, o.iter()), &m)?;
        bip(c, "DegenGraph", &DegenGraph::with_ordering(&g, o.iter()), &m)?;
    }
    let cyc = m.m() + m.idx().components().iter().max().map_or(0, |x| x + 1) > m.n();
    c.eval(cyc, mix(m.h()));
    c.sample(|| m.show());
    Ok(())
}
