//! C20-C24: ordered graphs, swaps, compact degenerate graphs, reach graphs.
use super::Prop;
use crate::ctx::*;
use crate::ensure;
use crate::gen;
use crate::model::*;
use crate::refgraph::*;
use crate::rng::{mix, Rng};
use crate::views::*;
use graphbench::algorithms::*;
use graphbench::degengraph::*;
use graphbench::graph::*;
use graphbench::ordgraph::OrdGraph;
use graphbench::reachgraph::{ReachGraph, ReachGraphBuilder};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C20", quick: 40000, thorough: 2400000, run: c20,
        rule: "OrdGraph by given and degeneracy orderings over library and foreign graphs, every query against graph and ordering; all graphs on <=4 vertices with all orderings first; non-trivial = at least one edge" });
    v.push(Prop { id: "C21", quick: 35000, thorough: 2100000, run: c21,
        rule: "histories of up to 40 swaps (adjacent, non-adjacent, equal, absent vertices), full comparison with a freshly built ordered graph after every step on small graphs; non-trivial = history that swaps an adjacent pair" });
    v.push(Prop { id: "C22", quick: 13500, thorough: 810000, run: c22,
        rule: "DegenGraph from graph, ordering, OrdGraph and builder, every query and iterator plus its clone against graph and ordering; non-trivial = at least one edge" });
    v.push(Prop { id: "C23", quick: 25000, thorough: 1500000, run: c23,
        rule: "normalize() once to three times on DegenGraphs of every construction, map and all queries against the relabelled model; non-trivial = at least one edge and labels not already 0..n-1 in order" });
    v.push(Prop { id: "C24", quick: 30000, thorough: 1800000, run: c24,
        rule: "weak and strong reach graphs of depth 1..7 against path-search oracles, every listing query and iteration; non-trivial = some vertex reachable at distance >= 2 or depth 1 with an edge" });
}

/// wreach[u] = { v : min length } in positions of the ordering
pub fn wreach(ix: &Idx, r: u32) -> Vec<BTreeMap<V, u32>> {
    let mut res = vec![BTreeMap::new(); ix.n()];
    for v in 0..ix.n() {
        let d = ix.bfs_where(&[v], |w| w > v);
        for u in 0..ix.n() { if u != v && d[u] != INF && d[u] <= r { res[u].insert(ix.labels[v], d[u]); } }
    }
    res
}
pub fn sreach(ix: &Idx, r: u32) -> Vec<BTreeMap<V, u32>> {
    (0..ix.n()).map(|u| {
        let d = ix.bfs_where(&[u], |w| w > u);
        let mut s = BTreeMap::new();
        for v in 0..u {
            let m = ix.adj[v].iter().filter(|w| **w >= u && d[**w] != INF).map(|w| d[*w] + 1).min();
            if let Some(x) = m { if x <= r { s.insert(ix.labels[v], x); } }
        }
        s
    }).collect()
}

/// i-th permutation of v
fn nth_perm(v: &[V], mut i: usize) -> Vec<V> {
    let mut pool = v.to_vec();
    let mut out = vec![];
    while !pool.is_empty() { let k = i % pool.len(); i /= pool.len(); out.push(pool.remove(k)); }
    out
}

fn graph_and_order(r: &mut Rng, case: usize, n: usize, big: usize) -> (Model, Vec<V>) {
    let ex = gen::exhaustive_count(4) as usize;
    if case < ex {
        if let Some(a) = gen::exhaustive(case as u64, 4) {
            let m = gen::to_model(r, &a, &gen::simple(4));
            let o = gen::random_order(r, &m);
            return (m, o)
        }
    }
    let m = gen::random_model(r, &gen::simple(if case % 200 == 9 { big } else { n }));
    let o = gen::random_order(r, &m);
    (m, o)
}

fn right_sets(g: &OrdGraph, m: &Model, order: &[V]) -> R {
    let pos: HashMap<V, usize> = order.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    for u in order {
        let want: BTreeSet<V> = m.nbrs(*u).into_iter().filter(|v| pos[v] > pos[u]).collect();
        exactly_once(&format!("right_neighbours({u})"), g.right_neighbours(u).into_iter(), &want)?;
        ensure!(g.right_neighbours(u).windows(2).all(|w| pos[&w[0]] < pos[&w[1]]), "right_neighbours({u}) not in graph order");
    }
    Ok(())
}
pub(super) fn ord_all(r: &mut Rng, what: &str, g: &OrdGraph, m: &Model, order: &[V]) -> R {
    let f = |e: String| format!("{what}: {e}");
    graph_view(r, g, m, Nb::Yes).map_err(f)?;
    linear_view(r, g, m, order, true).map_err(f)?;
    for x in gen::absent(r, m) { ensure!(g.neighbours(&x).next().is_none(), "{what}: the absent vertex {x} has neighbours"); }
    right_sets(g, m, order).map_err(f)
}

fn c20(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let (m, order) = graph_and_order(&mut r, case, 20, 300);
    c.input(format!("{} order {:?}", m.show(), &order[..order.len().min(60)]));
    let g = gen::build(&mut r, &m);
    let og = OrdGraph::with_ordering(&g, order.iter());
    ord_all(&mut r, "with_ordering(EditGraph)", &og, &m, &order)?;
    if case < gen::exhaustive_count(4) as usize {
        let f: usize = (1..=m.n()).product();
        for i in 0..f {
            let o = nth_perm(&m.verts(), i);
            c.input(format!("{} order {o:?}", m.show()));
            ord_all(&mut r, "with_ordering, all orders", &OrdGraph::with_ordering(&g, o.iter()), &m, &o)?;
            c.eval(m.m() > 0, m.h() ^ mix(i as u64));
        }
    }
    let rg = RefGraph::new(&mut r, &m);
    ord_all(&mut r, "with_ordering(foreign graph)", &OrdGraph::with_ordering(&rg, order.clone().into_iter()), &m, &order)?;
    let dg = DegenGraph::with_ordering(&g, order.iter());
    let o2 = gen::random_order(&mut r, &m);
    ord_all(&mut r, "with_ordering(DegenGraph)", &OrdGraph::with_ordering(&dg, o2.iter()), &m, &o2)?;
    // by degeneracy: any order, but the left degrees must obey the bound
    let bd = OrdGraph::by_degeneracy(&g);
    let o3: Vec<V> = bd.vertices().cloned().collect();
    ensure!(o3.len() == m.n(), "by_degeneracy lists {} of {} vertices", o3.len(), m.n());
    ord_all(&mut r, "by_degeneracy", &bd, &m, &o3)?;
    let k = m.idx().cores().0;
    if k <= 128 { ensure!(bd.max_left_degree() <= k, "by_degeneracy has left degree {} in a {k}-degenerate graph", bd.max_left_degree()); }
    let bf = OrdGraph::by_degeneracy(&rg);
    let o4: Vec<V> = bf.vertices().cloned().collect();
    ensure!(o4.len() == m.n(), "by_degeneracy(foreign graph) lists {} of {} vertices", o4.len(), m.n());
    ord_all(&mut r, "by_degeneracy(foreign graph)", &bf, &m, &o4)?;
    // the foreign ordered graph exercises the default methods alone
    linear_view(&mut r, &RefLin::new(&mut c.rng, &m, &order), &m, &order, true).map_err(|e| format!("default methods on a foreign ordered graph: {e}"))?;
    c.max("vertices_in_one_graph", m.n() as u64);
    c.eval(m.m() > 0, m.h() ^ mix(order.iter().fold(0, |h, v| mix(h ^ *v as u64))));
    c.sample(|| format!("{} order {:?}", m.show(), &order[..order.len().min(30)]));
    Ok(())
}

// ---------------------------------------------------------------- C21

pub(super) fn same_as_fresh(r: &mut Rng, g: &OrdGraph, m: &Model, order: &[V], deep: bool) -> R {
    ord_all(r, "after swaps", g, m, order)?;
    let eg = gen::build(r, m);
    let fresh = OrdGraph::with_ordering(&eg, order.iter());
    for v in order {
        ensure!(g.index_of(v) == fresh.index_of(v), "index_of({v}) is {} after swaps, {} when built afresh", g.index_of(v), fresh.index_of(v));
        ensure!(g.left_neighbours(v) == fresh.left_neighbours(v), "left_neighbours({v}) {:?} after swaps, {:?} when built afresh", g.left_neighbours(v), fresh.left_neighbours(v));
        ensure!(g.right_neighbours(v) == fresh.right_neighbours(v), "right_neighbours({v}) {:?} after swaps, {:?} when built afresh", g.right_neighbours(v), fresh.right_neighbours(v));
    }
    if deep {
        ensure!(g.wreach_sets(3) == fresh.wreach_sets(3), "weakly reachable sets differ from a fresh graph");
        ensure!(g.sreach_sets(3) == fresh.sreach_sets(3), "strongly reachable sets differ from a fresh graph");
        let d = g.to_degeneracy_graph();
        linear_view(r, &d, m, order, true).map_err(|e| format!("compact graph after swaps: {e}"))?;
        let w = g.to_wreach_graph::<2>();
        linear_view(r, &w, m, order, true).map_err(|e| format!("reach graph after swaps: {e}"))?;
    }
    Ok(())
}

fn c21(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let (m, mut order) = graph_and_order(&mut r, case, 12, 120);
    let eg = gen::build(&mut r, &m);
    let mut g = OrdGraph::with_ordering(&eg, order.iter());
    let mut hist: Vec<(V, V)> = vec![];
    let steps = r.range(1, if m.n() > 40 { 12 } else { 40 });
    let bias = r.f();
    let mut adj = 0;
    let start = order.clone();
    for s in 0..steps {
        let es = m.edges();
        let (u, v) = if m.n() == 0 { (r.u32(), r.u32()) } else {
            let x = r.below(12);
            if x == 0 { let v = order[r.below(order.len())]; (v, v) }
            else if x == 1 { let a = gen::absent(&mut r, &m); let a = a[r.below(a.len())]; let b = order[r.below(order.len())]; if r.coin() { (a, b) } else { (b, a) } }
            else if r.chance(bias) && !es.is_empty() { let e = es[r.below(es.len())]; if r.coin() { e } else { (e.1, e.0) } }
            else if x < 6 && order.len() > 1 { let i = r.below(order.len() - 1); (order[i], order[i + 1]) }
            else { (order[r.below(order.len())], order[r.below(order.len())]) }
        };
        hist.push((u, v));
        c.input(format!("{} start order {:?} swaps {:?}", m.show(), &start[..start.len().min(40)], hist));
        g.swap(&u, &v);
        if m.has(u) && m.has(v) && u != v {
            let (i, j) = (order.iter().position(|x| *x == u), order.iter().position(|x| *x == v));
            if let (Some(i), Some(j)) = (i, j) { order.swap(i, j) }
            if m.adjacent(u, v) { adj += 1 }
        } else { c.bump("swaps of equal or absent vertices", 1) }
        c.bump("swaps", 1);
        if m.n() <= 14 || s + 1 == steps || r.chance(0.2) { same_as_fresh(&mut r, &g, &m, &order, s + 1 == steps)?; c.bump("states compared", 1) }
    }
    c.bump("adjacent swaps", adj);
    c.eval(adj > 0, m.h() ^ mix(hist.iter().fold(0, |h, v| mix(h ^ ((v.0 as u64) << 32 | v.1 as u64)))));
    c.sample(|| format!("{} swaps {:?}", m.show(), &hist[..hist.len().min(8)]));
    Ok(())
}

// ---------------------------------------------------------------- C22 / C23

pub(super) fn degen_view(r: &mut Rng, what: &str, g: &DegenGraph, m: &Model, order: &[V], ordered: bool) -> R {
    let f = |e: String| format!("{what}: {e}");
    graph_view(r, g, m, Nb::Yes).map_err(f)?;
    linear_view(r, g, m, order, ordered).map_err(f)?;
    let pos: HashMap<V, usize> = order.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    ensure!(g.first() == order.first().cloned(), "{what}: first() is {:?}", g.first());
    let absent = gen::absent(r, m);
    for (u, v) in probe_pairs(r, m, &absent) {
        let want = m.adjacent(u, v) && pos[&u] < pos[&v];
        ensure!(g.adjacent_ordered(&u, &v) == want, "{what}: adjacent_ordered({u},{v}) is {}", !want);
    }
    let mut i = 0;
    for (v, n) in g.iter() {
        ensure!(i < order.len() && order[i] == v, "{what}: iter() yields {v} at position {i}");
        let want: BTreeSet<V> = m.nbrs(v).into_iter().filter(|w| pos[w] < i).collect();
        exactly_once(&format!("{what}: iter() at {v}"), n.iter().cloned(), &want)?;
        if ordered { ensure!(n.windows(2).all(|w| pos[&w[0]] < pos[&w[1]]), "{what}: iter() at {v} lists {n:?}, not in order"); }
        ensure!(g.left_neighbours_slice(&v) == n, "{what}: left_neighbours_slice({v}) differs from iter()");
        let right: BTreeSet<V> = m.nbrs(v).into_iter().filter(|w| pos[w] > i).collect();
        same_set(&format!("{what}: right_neighbours({v})"), g.right_neighbours(&v), &right)?;
        i += 1;
    }
    ensure!(i == order.len(), "{what}: iter() stops after {i} of {} vertices", order.len());
    Ok(())
}

/// a DegenGraph of `m` in one of its constructions, with its order
pub(super) fn degen_build(r: &mut Rng, m: &Model, order: &[V], k: usize) -> (&'static str, DegenGraph, Vec<V>, bool) {
    let g = gen::build(r, m);
    match k % 6 {
        0 => ("with_ordering", DegenGraph::with_ordering(&g, order.iter()), order.to_vec(), true),
        1 => { let d = DegenGraph::from_graph(&g); let o = d.vertices().cloned().collect(); ("from_graph", d, o, true) }
        2 => ("to_degeneracy_graph", OrdGraph::with_ordering(&g, order.iter()).to_degeneracy_graph(), order.to_vec(), true),
        3 | 4 => {
            let shuffled = k % 6 == 4;
            let mut b = if r.coin() { DegenGraphBuilder::new() } else { DegenGraphBuilder::default() };
            let mut seen: Vec<V> = vec![];
            for u in order {
                let mut l: Vec<V> = seen.iter().filter(|v| m.adjacent(*u, **v)).cloned().collect();
                if shuffled { r.shuffle(&mut l) }
                b.append(u, &l);
                seen.push(*u);
            }
            ("builder", b.build(), order.to_vec(), !shuffled)
        }
        _ => ("with_ordering(foreign)", DegenGraph::with_ordering(&RefGraph::new(r, m), order.to_vec()), order.to_vec(), true),
    }
}

fn c22(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let (m, order) = graph_and_order(&mut r, case, 20, 300);
    c.input(format!("{} order {:?}", m.show(), &order[..order.len().min(60)]));
    for k in 0..6 {
        let (what, d, o, ordered) = degen_build(&mut r, &m, &order, k);
        ensure!(o.len() == m.n(), "{what} lists {} of {} vertices", o.len(), m.n());
        degen_view(&mut r, what, &d, &m, &o, ordered)?;
        if k % 6 == 1 {
            let kk = m.idx().cores().0;
            if kk <= 128 { ensure!(d.max_left_degree() <= kk, "from_graph has left degree {} in a {kk}-degenerate graph", d.max_left_degree()); }
        }
        if r.chance(0.3) {
            let cl = d.clone();
            let mut orig = d;
            orig.normalize();
            degen_view(&mut r, "clone (original normalised afterwards)", &cl, &m, &o, ordered)?;
        }
        c.bump("graphs checked", 1);
    }
    c.max("vertices_in_one_graph", m.n() as u64);
    c.eval(m.m() > 0, m.h() ^ mix(order.iter().fold(0, |h, v| mix(h ^ *v as u64))));
    c.sample(|| format!("{} order {:?}", m.show(), &order[..order.len().min(30)]));
    Ok(())
}

fn c23(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let (m, order) = graph_and_order(&mut r, case, 20, 300);
    for k in [case, case + 1 + r.below(5)] {
        let (what, mut d, o, _) = degen_build(&mut r, &m, &order, k);
        c.input(format!("{what}: {} order {:?}", m.show(), &o[..o.len().min(60)]));
        ensure!(o.len() == m.n(), "{what} lists {} of {} vertices", o.len(), m.n());
        let map = d.normalize();
        let want: BTreeMap<V, V> = o.iter().enumerate().map(|(i, v)| (i as V, *v)).collect();
        same_map(&format!("{what}: normalize() map"), &map, &want)?;
        let back: HashMap<V, V> = o.iter().enumerate().map(|(i, v)| (*v, i as V)).collect();
        let mut nm = Model::new();
        for v in &o { nm.add_vertex(back[v]); }
        for (u, v) in m.edges() { nm.add_edge(back[&u], back[&v]); }
        let no: Vec<V> = (0..m.n() as u32).collect();
        degen_view(&mut r, &format!("{what} normalised"), &d, &nm, &no, true)?;
        for again in 0..r.below(3) {
            let map = d.normalize();
            let id: BTreeMap<V, V> = no.iter().map(|v| (*v, *v)).collect();
            same_map(&format!("{what}: repeated normalize() map"), &map, &id)?;
            degen_view(&mut r, &format!("{what} normalised {} times", again + 2), &d, &nm, &no, true)?;
        }
        let cl = d.clone();
        degen_view(&mut r, "clone of normalised", &cl, &nm, &no, true)?;
        c.bump("normalisations", 1);
        c.eval(m.m() > 0 && o != no, m.h() ^ mix(o.iter().fold(k as u64 % 6, |h, v| mix(h ^ *v as u64))));
    }
    c.sample(|| format!("{} order {:?}", m.show(), &order[..order.len().min(30)]));
    Ok(())
}

// ---------------------------------------------------------------- C24

pub(super) fn reach_view<const D: usize>(r: &mut Rng, what: &str, g: &ReachGraph<D>, m: &Model, order: &[V], sets: &[BTreeMap<V, u32>]) -> R {
    let pos: HashMap<V, usize> = order.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let f = |e: String| format!("{what}: {e}");
    graph_view(r, g, m, Nb::No).map_err(f)?;
    linear_view(r, g, m, order, true).map_err(f)?;
    ensure!(g.depth() == D, "{what}: depth() is {}", g.depth());
    ensure!(g.first() == order.first().cloned(), "{what}: first() is {:?}", g.first());
    let mut listed = 0;
    let mut it = g.iter();
    for (i, u) in order.iter().enumerate() {
        let s = &sets[i];
        let re = g.reachables(u);
        let mut all: Vec<V> = vec![];
        for d in 1..=D {
            let mut want: Vec<V> = s.iter().filter(|(_, x)| **x as usize == d).map(|(v, _)| *v).collect();
            want.sort_by_key(|v| pos[v]);
            ensure!(re.at(d) == &want[..], "{what}: reachables({u}).at({d}) is {:?} instead of {want:?}", re.at(d));
            all.extend(want);
        }
        ensure!(re.len() == all.len(), "{what}: reachables({u}).len() is {} instead of {}", re.len(), all.len());
        ensure!(re.is_empty() == all.is_empty(), "{what}: reachables({u}).is_empty() is {}", re.is_empty());
        ensure!(g.reachables_all(u) == &all[..], "{what}: reachables_all({u}) is {:?} instead of {all:?}", g.reachables_all(u));
        listed += all.len();
        match it.next() {
            Some((v, x)) => { ensure!(v == *u, "{what}: iter() yields {v} at position {i} instead of {u}"); ensure!(x == re, "{what}: iter() disagrees with reachables({u})"); }
            None => return Err(format!("{what}: iter() stops after {i} vertices")),
        }
        match (g.next_reachables(u), order.get(i + 1)) {
            (None, None) => {}
            (Some(x), Some(n)) => ensure!(x == g.reachables(n), "{what}: next_reachables({u}) is not that of {n}"),
            (a, b) => return Err(format!("{what}: next_reachables({u}) is {a:?}, next vertex {b:?}")),
        }
    }
    ensure!(it.next().is_none(), "{what}: iter() goes on after the last vertex");
    let total: usize = sets.iter().map(|s| s.len()).sum();
    ensure!(listed == total, "{what}: {listed} instead of {total} reachable pairs");
    Ok(())
}

pub(super) fn reach_one<const D: usize>(c: &mut Ctx, r: &mut Rng, og: &OrdGraph, m: &Model, order: &[V], ix: &Idx) -> R {
    let w = wreach(ix, D as u32);
    let s = sreach(ix, D as u32);
    reach_view(r, &format!("weak reach graph of depth {D}"), &og.to_wreach_graph::<D>(), m, order, &w)?;
    reach_view(r, &format!("strong reach graph of depth {D}"), &og.to_sreach_graph::<D>(), m, order, &s)?;
    let far = w.iter().any(|x| x.values().any(|d| *d >= 2));
    c.bump("reachable pairs compared", w.iter().map(|x| x.len() as u64).sum::<u64>() + s.iter().map(|x| x.len() as u64).sum::<u64>());
    c.eval(far || (D == 1 && m.m() > 0), m.h() ^ mix(order.iter().fold(D as u64, |h, v| mix(h ^ *v as u64))));
    Ok(())
}

/// a reach graph put together by hand: any distances up to D to any earlier vertices
fn hand_built<const D: usize>(c: &mut Ctx, r: &mut Rng, order: &[V]) -> R {
    let pos: graphbench::graph::VertexMap<usize> = order.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let mut b = if r.coin() { ReachGraphBuilder::<D>::new() } else { ReachGraphBuilder::<D>::default() };
    let mut m = Model::new();
    let mut sets = vec![];
    let p = [0.1, 0.5, 1.0][r.below(3)];
    let ds: Vec<u32> = if r.coin() { (1..=D as u32).collect() } else { vec![r.range(1, D) as u32, r.range(1, D) as u32] };
    for (i, u) in order.iter().enumerate() {
        let s: BTreeMap<V, u32> = if r.chance(0.15) { BTreeMap::new() } else { r.subset(&order[..i], p).into_iter().map(|v| (v, ds[r.below(ds.len())])).collect() };
        m.add_vertex(*u);
        for (v, d) in &s { if *d == 1 { m.add_edge(*u, *v); } }
        b.append(u, &s.iter().map(|(v, d)| (*v, *d)).collect(), &pos);
        sets.push(s);
    }
    c.bump("reach graphs built by hand", 1);
    reach_view(r, &format!("reach graph of depth {D} built from {sets:?}"), &b.build(), &m, order, &sets)
}

fn c24(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let (m, mut order) = graph_and_order(&mut r, case, 20, 150);
    let g = gen::build(&mut r, &m);
    let mut og = OrdGraph::with_ordering(&g, order.iter());
    for _ in 0..r.below(3) { // positions swapped before conversion
        if order.len() > 1 { let (i, j) = (r.below(order.len()), r.below(order.len())); og.swap(&order[i], &order[j]); order.swap(i, j); }
    }
    c.input(format!("{} order {:?}", m.show(), &order[..order.len().min(60)]));
    let ix = Idx::with_order(&m, &order);
    let ks: Vec<usize> = if m.n() <= 4 { (1..=7).collect() } else { vec![1 + case % 7, 1 + r.below(7)] };
    for k in ks {
        match k {
            1 => reach_one::<1>(c, &mut r, &og, &m, &order, &ix)?,
            2 => reach_one::<2>(c, &mut r, &og, &m, &order, &ix)?,
            3 => reach_one::<3>(c, &mut r, &og, &m, &order, &ix)?,
            4 => reach_one::<4>(c, &mut r, &og, &m, &order, &ix)?,
            5 => reach_one::<5>(c, &mut r, &og, &m, &order, &ix)?,
            6 => reach_one::<6>(c, &mut r, &og, &m, &order, &ix)?,
            _ => reach_one::<7>(c, &mut r, &og, &m, &order, &ix)?,
        }
    }
    if m.n() <= 30 && r.chance(0.5) {
        match r.below(4) { 0 => hand_built::<1>(c, &mut r, &order)?, 1 => hand_built::<2>(c, &mut r, &order)?, 2 => hand_built::<3>(c, &mut r, &order)?, _ => hand_built::<6>(c, &mut r, &order)? }
    }
    c.sample(|| format!("{} order {:?}", m.show(), &order[..order.len().min(30)]));
    Ok(())
}
