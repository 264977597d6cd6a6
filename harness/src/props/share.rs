//! C39: answers are a function of the current structure alone - not of the
//! edit history, of queries asked before, of other graphs alive, dropped or
//! queried meanwhile, nor of other threads reading at the same time.
use super::edit::{apply, as_dop, dapply, random_op, Op};
use super::lin::{degen_view, ord_all, reach_view, sreach, wreach};
use super::reach::{cmp_sets, cmp_sizes, colouring_ok, judge_dom, target};
use super::trace::{query, truth};
use super::{algo, dtf, iter, Prop};
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::rng::{mix, Rng};
use crate::views::*;
use crate::ensure;
use graphbench::algorithms::*;
use graphbench::datastructures::SReachTraceOracle;
use graphbench::degengraph::DegenGraph;
use graphbench::dtfgraph::DTFGraph;
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::iterators::*;
use graphbench::ordgraph::OrdGraph;
use graphbench::reachgraph::ReachGraph;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::marker::PhantomData;
use std::sync::Barrier;

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C39", quick: 96000, thorough: 5760000, run: c39,
        rule: "every query repeated and interleaved with edits that keep the counts and degrees, with queries on twin graphs, with graphs dropped and rebuilt, and asked by 2-6 threads of one shared graph (or of a graph per thread) at once, asked by a graph implementation while it answers another query, after queries cut short by a panic in the graph implementation, through iterators advanced in turns, every answer judged against the model of the structure at that moment; thread schedules also under ThreadSanitizer; non-trivial = a structure queried twice with an edit, a twin or another reader between" });
}

// ---------------------------------------------------------------- queries

/// one query through the Graph trait
fn ask<G: Graph>(c: &mut Ctx, r: &mut Rng, what: &str, g: &G, m: &Model, k: usize) -> R {
    let f = |e: String| format!("{what}: {e}");
    match k % 7 {
        0 => graph_view(r, g, m, Nb::Yes).map_err(f),
        1 => algo::comps(what, g, m),
        2 => if m.has_loops() { algo::comps(what, g, m) } else { algo::degen(c, what, g, m) },
        3 => algo::bip(c, what, g, m),
        4 | 5 => { let ix = m.idx(); for _ in 0..2 { iter::balls(what, r, g, m, &ix, 4)?; } Ok(()) }
        _ => {
            ensure!(g.num_edges() == m.m() && g.num_vertices() == m.n(), "{what}: counts ({},{}) instead of ({},{})", g.num_vertices(), g.num_edges(), m.n(), m.m());
            for u in m.verts() { ensure!(g.degree(&u) == m.degree(u), "{what}: degree({u}) is {} instead of {}", g.degree(&u), m.degree(u)); }
            let p = probe_pairs(r, m, &[]);
            for (u, v) in p { ensure!(g.adjacent(&u, &v) == m.adjacent(u, v), "{what}: adjacent({u},{v}) is {}", g.adjacent(&u, &v)); }
            Ok(())
        }
    }
}

/// one query through the LinearGraph trait (loop-free)
fn ask_lin<L: LinearGraph>(c: &mut Ctx, r: &mut Rng, what: &str, g: &L, m: &Model, order: &[V], k: usize) -> R {
    let ix = Idx::with_order(m, order);
    let rad = r.below(5) as u32;
    match k % 9 {
        0 => linear_view(r, g, m, order, false).map_err(|e| format!("{what}: {e}")),
        1 => cmp_sets(&format!("{what}: wreach_sets({rad})"), &g.wreach_sets(rad), &wreach(&ix, rad), order),
        2 => cmp_sets(&format!("{what}: sreach_sets({rad})"), &g.sreach_sets(rad), &sreach(&ix, rad), order),
        3 => { cmp_sizes(&format!("{what}: wreach_sizes({rad})"), &g.wreach_sizes(rad), &wreach(&ix, rad), order)?;
               cmp_sizes(&format!("{what}: sreach_sizes({rad})"), &g.sreach_sizes(rad), &sreach(&ix, rad), order) }
        4 => {
            if let Some(want) = ix.max_cliques(20_000) {
                let got = g.count_max_cliques();
                ensure!(got == want, "{what}: {got} maximal cliques instead of {want}");
            }
            Ok(())
        }
        5 => colouring_ok(what, &g.colour_greedy(), m, order),
        6 => {
            let t = target(r, m);
            let d = g.domset_with_target(rad, r.coin(), t.iter());
            judge_dom(&format!("{what}: domset({rad}) of {t:?}"), &d, &ix, rad, Some(&t)).map(|_| ())
        }
        7 => {
            let t = target(r, m);
            let ts: BTreeSet<V> = t.iter().cloned().collect();
            let classes = g.scattered_colouring(rad, t.iter());
            let mut seen = BTreeSet::new();
            for s in &classes {
                for v in s { ensure!(ts.contains(v) && seen.insert(*v), "{what}: scattered_colouring({rad}) puts {v} into a class wrongly"); }
                for v in s {
                    let d = ix.bfs(&[ix.pos[v]]);
                    for w in s { if w != v { let x = d[ix.pos[w]]; ensure!(x == INF || x >= rad, "{what}: scattered_colouring({rad}) joins {v} and {w} at distance {x}"); } }
                }
            }
            ensure!(seen.len() == ts.len(), "{what}: scattered_colouring({rad}) covers {} of {}", seen.len(), ts.len());
            Ok(())
        }
        _ => ask(c, r, what, g, m, k / 9),
    }
}

/// one query on an EditGraph, conversions included
fn ask_edit(c: &mut Ctx, r: &mut Rng, what: &str, g: &EditGraph, m: &Model, k: usize) -> R {
    match k % 16 {
        0..=7 => ask(c, r, what, g, m, k % 8),
        8 => {
            let same = gen::build(r, m);
            ensure!(*g == same && same == *g, "{what}: not equal to a freshly built graph of the same structure");
            let mut other = m.clone();
            variant(r, &mut other);
            let og = gen::build(r, &other);
            let eq = other == *m;
            ensure!((*g == og) == eq && (og == *g) == eq, "{what}: equality with a graph that {} is reported wrongly: {}", if eq { "is the same" } else { "differs" }, other.show());
            Ok(())
        }
        9 => {
            let h = g.clone();
            ask(c, r, &format!("{what}, cloned"), &h, m, k / 16)?;
            ensure!(h == *g, "{what}: the clone differs");
            Ok(())
        }
        10 => {
            let mut s: BTreeSet<V> = BTreeSet::new();
            for v in m.verts() { if r.coin() { s.insert(v); } }
            let h: EditGraph = g.subgraph(s.iter());
            ask(c, r, &format!("{what}, subgraph on {s:?}"), &h, &m.induced(&s), r.clone().below(7))
        }
        11 => {
            let e: EditGraph = g.edges().collect();
            let keep: BTreeSet<V> = m.edges().iter().flat_map(|e| [e.0, e.1]).collect();
            ask(c, r, &format!("{what}, edges collected"), &e, &m.induced(&keep), k / 16)
        }
        _ => {
            if m.has_loops() { return ask(c, r, what, g, m, k / 16) }
            let o = gen::random_order(r, m);
            match k % 4 {
                0 => ask_lin(c, r, &format!("{what}, OrdGraph of it"), &OrdGraph::with_ordering(g, o.iter()), m, &o, r.clone().below(63)),
                1 => ask_lin(c, r, &format!("{what}, DegenGraph of it"), &DegenGraph::with_ordering(g, o.iter()), m, &o, r.clone().below(63)),
                2 => { let d = DegenGraph::from_graph(g); let o: Vec<V> = d.vertices().cloned().collect(); ask_lin(c, r, &format!("{what}, degeneracy order of it"), &d, m, &o, r.clone().below(63)) }
                _ => { let d = DTFGraph::orient(g); dtf::distances(c, r, &d, m, 1, &format!("{what}, oriented")).map(|_| ()) }
            }
        }
    }
}

fn ask_di(_: &mut Ctx, r: &mut Rng, what: &str, g: &EditDigraph, m: &DiModel, k: usize) -> R {
    let und = m.undirected();
    match k % 6 {
        0 | 1 => digraph_view(r, g, m).map_err(|e| format!("{what}: {e}")),
        2 => algo::comps(what, g, &und),
        3 => { let ix = und.idx(); iter::balls(what, r, g, &und, &ix, 4).map(|_| ()) }
        4 => {
            let vs = m.verts();
            let s: BTreeSet<V> = r.subset(&vs, 0.4).into_iter().collect();
            let o: BTreeSet<V> = s.iter().flat_map(|u| m.outs(*u)).filter(|v| !s.contains(v)).collect();
            let i: BTreeSet<V> = s.iter().flat_map(|u| m.ins(*u)).filter(|v| !s.contains(v)).collect();
            same_set(&format!("{what}: out_neighbourhood({s:?})"), &g.out_neighbourhood(s.iter()), &o)?;
            same_set(&format!("{what}: in_neighbourhood({s:?})"), &g.in_neighbourhood(s.iter()), &i)
        }
        _ => {
            let same = gen::build_di(r, m);
            ensure!(*g == same && same == *g, "{what}: not equal to a freshly built digraph of the same structure");
            let h = g.clone();
            digraph_view(r, &h, m).map_err(|e| format!("{what}, cloned: {e}"))
        }
    }
}

fn ask_ord(c: &mut Ctx, r: &mut Rng, what: &str, g: &OrdGraph, m: &Model, order: &[V], k: usize) -> R {
    match k % 12 {
        0..=8 => ask_lin(c, r, what, g, m, order, k),
        9 => ord_all(r, what, g, m, order),
        10 => ask_lin(c, r, &format!("{what}, compact graph of it"), &g.to_degeneracy_graph(), m, order, r.clone().below(63)),
        _ => {
            let ix = Idx::with_order(m, order);
            if r.coin() { reach_view(r, &format!("{what}, weak reach graph"), &g.to_wreach_graph::<2>(), m, order, &wreach(&ix, 2)) }
            else { reach_view(r, &format!("{what}, strong reach graph"), &g.to_sreach_graph::<3>(), m, order, &sreach(&ix, 3)) }
        }
    }
}

fn ask_degen(c: &mut Ctx, r: &mut Rng, what: &str, g: &DegenGraph, m: &Model, order: &[V], k: usize) -> R {
    match k % 12 {
        0..=8 => ask_lin(c, r, what, g, m, order, k),
        9 => degen_view(r, what, g, m, order, false),
        10 => { let o = SReachTraceOracle::for_graph(g); ask_oracle(r, what, &o, g, m, order, k) }
        _ => { let o = OrdGraph::with_ordering(g, order.iter()); ask_lin(c, r, &format!("{what}, OrdGraph of it"), &o, m, order, r.clone().below(63)) }
    }
}

fn ask_oracle(r: &mut Rng, what: &str, o: &SReachTraceOracle, g: &DegenGraph, m: &Model, order: &[V], k: usize) -> R {
    let q = query(r, m, order, if k % 2 == 0 { 4 } else { 12 });
    let t = truth(m, &q);
    match k % 3 {
        0 => {
            let want: usize = t.iter().filter(|(k, _)| !k.is_empty()).map(|(_, n)| *n).sum();
            let got = o.compute_neighbour_count(&q, g);
            ensure!(got == want, "{what}: {got} neighbours of {q:?} instead of {want}");
        }
        1 if q.len() <= 5 => {
            let kk = q.len() as u32 + r.below(2) as u32;
            let need = 1usize << (kk as usize - q.len());
            let want = t.values().filter(|n| **n >= need).count() == 1 << q.len();
            let got = o.is_shattered(q.iter(), kk, g);
            ensure!(got == want, "{what}: is_shattered({q:?},{kk}) is {got}");
        }
        _ => {
            let got = o.compute_traces(&q, g);
            let pos: HashMap<V, usize> = order.iter().enumerate().map(|(i, v)| (*v, i)).collect();
            for (k, n) in &t { ensure!(got.get(k) == Some(n), "{what}: trace {k:?} of {q:?} occurs {n} times, reported {:?}", got.get(k)); }
            for (k, n) in &got {
                let mut s = k.clone();
                s.sort_by_key(|v| pos.get(v).cloned().unwrap_or(usize::MAX));
                ensure!(t.get(&s).cloned().unwrap_or(0) == *n, "{what}: trace {k:?} of {q:?} reported {n} times instead of {}", t.get(&s).cloned().unwrap_or(0));
            }
        }
    }
    Ok(())
}

fn ask_dtf(c: &mut Ctx, r: &mut Rng, what: &str, g: &DTFGraph, m: &Model, arcs: &dtf::Arcs, depth: usize, k: usize) -> R {
    match k % 4 {
        0 | 1 => dtf::distances(c, r, g, m, depth, what).map(|_| ()),
        2 => {
            ensure!(g.get_depth() == depth, "{what}: depth {} instead of {depth}", g.get_depth());
            for w in 1..=depth {
                let at: BTreeSet<(V, V)> = arcs.iter().filter(|a| a.2 == w).map(|a| (a.0, a.1)).collect();
                exactly_once(&format!("{what}: arcs_at({w})"), g.arcs_at(w), &at)?;
                ensure!(g.num_arcs_at_depth(w) == at.len(), "{what}: num_arcs_at_depth({w}) is {} instead of {}", g.num_arcs_at_depth(w), at.len());
            }
            for v in m.verts() {
                let want: std::collections::BTreeMap<V, u32> = arcs.iter().filter(|a| a.1 == v).map(|a| (a.0, a.2 as u32)).collect();
                same_map(&format!("{what}: in_neighbours_with_weights({v})"), &g.in_neighbours_with_weights(&v), &want)?;
            }
            Ok(())
        }
        _ => {
            let u: EditGraph = g.to_undirected();
            let mut mm = Model::new();
            for v in m.verts() { mm.add_vertex(v); }
            for a in arcs { mm.add_edge(a.0, a.1); }
            graph_view(r, &u, &mm, Nb::Yes).map_err(|e| format!("{what}: to_undirected: {e}"))
        }
    }
}

// ---------------------------------------------------------------- edits

/// change a model so that cheap summaries stay the same
fn variant(r: &mut Rng, m: &mut Model) {
    let es = m.edges();
    let vs = m.verts();
    if vs.len() < 2 { if let Some(v) = vs.first() { m.add_edge(*v, v ^ 1); } else { m.add_vertex(3); } return }
    match r.below(4) {
        0 => two_switch(r, m, &es).map(|_| ()).unwrap_or_default(),
        1 => { if let Some(e) = r.pick(&es).cloned() { m.remove_edge(e.0, e.1); let (a, b) = (vs[r.below(vs.len())], vs[r.below(vs.len())]); if a != b { m.add_edge(a, b); } } }
        2 => { let v = vs[r.below(vs.len())]; let n = m.nbrs(v); let w = r.u32(); if !m.has(w) { m.remove_vertex(v); m.add_vertex(w); for x in n { if x != v { m.add_edge(w, x); } } } }
        _ => { let (a, b) = (vs[r.below(vs.len())], vs[r.below(vs.len())]); if a != b && !m.add_edge(a, b) { m.remove_edge(a, b); } }
    }
}
fn two_switch(r: &mut Rng, m: &mut Model, es: &[(V, V)]) -> Option<Vec<Op>> {
    for _ in 0..8 {
        let (a, b) = *r.pick(es)?;
        let (x, y) = *r.pick(es)?;
        let (x, y) = if r.coin() { (x, y) } else { (y, x) };
        if a == b || x == y || a == x || a == y || b == x || b == y || m.adjacent(a, x) || m.adjacent(b, y) { continue }
        for (u, v) in [(a, b), (x, y)] { m.remove_edge(u, v); }
        for (u, v) in [(a, x), (b, y)] { m.add_edge(u, v); }
        return Some(vec![Op::RemE(a, b), Op::RemE(x, y), Op::AddE(a, x), Op::AddE(b, y)]);
    }
    None
}
/// a burst of operations that is likely to leave counts or degrees as they were
fn burst(r: &mut Rng, m: &Model, pool: &[V]) -> Vec<Op> {
    let (es, vs) = (m.edges(), m.verts());
    match r.below(8) {
        0 => two_switch(r, &mut m.clone(), &es).unwrap_or_default(),
        1 => match (r.pick(&es).cloned(), r.pick(&vs).cloned(), r.pick(&vs).cloned()) {
            (Some(e), Some(a), Some(b)) if a != b && !m.adjacent(a, b) => if r.coin() { vec![Op::RemE(e.0, e.1), Op::AddE(a, b)] } else { vec![Op::AddE(a, b), Op::RemE(e.1, e.0)] },
            _ => vec![],
        },
        2 => match (r.pick(&vs).cloned(), r.pick(pool).cloned()) {
            (Some(v), Some(w)) if !m.has(w) => { let mut o = vec![Op::RemV(v), Op::AddV(w)]; for x in m.nbrs(v) { if x != v { o.push(Op::AddE(w, x)) } } o }
            _ => vec![],
        },
        3 => match r.pick(&vs).cloned() { Some(v) => vec![Op::AddE(v, v), Op::Loops], None => vec![Op::Loops] },
        4 => match r.pick(&vs).cloned() { // drop a vertex and bring it back with one neighbour exchanged
            Some(v) => {
                let mut o = vec![Op::RemV(v), Op::AddV(v)];
                let mut n: Vec<V> = m.nbrs(v).into_iter().filter(|x| *x != v).collect();
                if let Some(w) = r.pick(&vs).cloned() { if w != v && !n.contains(&w) && !n.is_empty() { let i = r.below(n.len()); n[i] = w; } }
                o.push(Op::AddEs(n.into_iter().map(|x| (x, v)).collect()));
                o
            }
            None => vec![],
        },
        5 => match r.pick(&es).cloned() { Some(e) => vec![Op::RemE(e.0, e.1)], None => vec![] },
        6 => match (r.pick(&vs).cloned(), r.pick(&vs).cloned()) { (Some(a), Some(b)) if a != b => vec![Op::AddE(a, b)], _ => vec![Op::AddV(pool[r.below(pool.len())])] },
        _ => (0..r.range(1, 3)).map(|_| random_op(r, pool, 1)).collect(),
    }
}

// ---------------------------------------------------------------- cases

fn c39(c: &mut Ctx, case: usize) -> R {
    let threads = cfg!(miri) || std::env::var_os("VP_THREADS").is_some();
    let kind = if threads { 8 + case % 8 } else { case % 16 };
    if !threads && case % 800 >= 792 { return sizes(c) }
    match kind {
        0..=2 => edit_history(c),
        3 => nested(c),
        4 | 5 => di_history(c),
        6 | 7 => lin_history(c, kind == 7),
        8..=13 if threads || case % 2 == 0 => shared(c, kind + case / 16),
        14 if threads || case % 2 == 0 => own(c),
        _ if threads => shared(c, case / 8),
        9 | 11 => rebuilt(c),
        13 => dtf_history(c),
        _ => nested(c),
    }
}

fn log(c: &mut Ctx, what: &str, l: &[String]) {
    let _ = &c;
    INPUT.with(|x| *x.borrow_mut() = format!("{what} {}", l.join(" ")));
}

/// two EditGraphs side by side, edited and queried in turn
fn edit_history(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let k = r.range(3, 12);
    let pool = gen::labels(&mut r, k + 3, u32::MAX);
    let start = { let a = gen::random_abs(&mut r, k, 0.2); let mut m = Model::new(); for i in 0..a.n.min(pool.len()) { m.add_vertex(pool[i]); } for (x, y) in &a.e { if x != y && *x < pool.len() && *y < pool.len() { m.add_edge(pool[*x], pool[*y]); } } m };
    let mut gs: Vec<(EditGraph, Model)> = vec![(gen::build(&mut r, &start), start.clone())];
    let mut tw = start.clone();
    variant(&mut r, &mut tw);
    gs.push((gen::build(&mut r, &tw), tw));
    let mut hist = vec![format!("graph 0 {} graph 1 {}:", gs[0].1.show(), gs[1].1.show())];
    let fav = r.below(112);
    let mut asked: [Option<u64>; 2] = [None, None];
    for _ in 0..r.range(6, 24) {
        let i = r.below(2);
        match r.below(10) {
            0..=3 => {
                let ops = burst(&mut r, &gs[i].1, &pool);
                for op in &ops {
                    hist.push(format!("[{i}]{op:?}"));
                    log(c, "EditGraph history", &hist);
                    let (g, m) = &mut gs[i];
                    apply(g, m, op, r.coin())?;
                    c.bump("edits between queries", 1);
                    // a query in the middle of the burst
                    if r.chance(0.15) { let q = r.below(112); hist.push(format!("[{i}]?{q}")); log(c, "EditGraph history", &hist); let (g, m) = &gs[i]; ask_edit(c, &mut r, &format!("graph {i}"), g, m, q)?; c.bump("queries judged", 1); }
                }
            }
            4 => { // the other becomes a copy
                hist.push(format!("[{}]=[{i}]", 1 - i));
                let x = (gs[i].0.clone(), gs[i].1.clone());
                gs[1 - i] = x;
            }
            5 => { hist.push("swap places".into()); gs.swap(0, 1); asked.swap(0, 1) }
            _ => {
                let q = if r.coin() { fav } else { r.below(112) };
                hist.push(format!("[{i}]?{q}"));
                log(c, "EditGraph history", &hist);
                let (g, m) = &gs[i];
                ask_edit(c, &mut r, &format!("graph {i}"), g, m, q)?;
                c.bump("queries judged", 1);
                let h = m.h();
                let again = asked[i].map_or(false, |x| x != h) || asked[1 - i].map_or(false, |x| x != h);
                asked[i] = Some(h);
                c.eval(again, h ^ mix(q as u64) ^ mix(hist.len() as u64));
            }
        }
    }
    log(c, "EditGraph history", &hist);
    for (i, (g, m)) in gs.iter().enumerate() { graph_view(&mut r, g, m, Nb::Yes).map_err(|e| format!("graph {i} at the end: {e}"))?; }
    c.sample(|| hist.join(" "));
    Ok(())
}

fn di_history(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let k = r.range(3, 10);
    let m0 = gen::random_dimodel(&mut r, k, 0.1, u32::MAX);
    let mut pool = m0.verts();
    for _ in 0..3 { pool.push(r.u32()) }
    let mut gs: Vec<(EditDigraph, DiModel)> = (0..2).map(|_| (gen::build_di(&mut r, &m0), m0.clone())).collect();
    let mut hist = vec![format!("both {}:", m0.show())];
    let fav = r.below(6);
    let mut asked = false;
    for _ in 0..r.range(6, 24) {
        let i = r.below(2);
        match r.below(10) {
            0..=3 => {
                let und = gs[i].1.undirected();
                let mut ops: Vec<Op> = burst(&mut r, &und, &pool);
                if r.chance(0.3) { // turn an arc round
                    if let Some((u, v)) = r.pick(&gs[i].1.arcs()).cloned() { if u != v { ops = vec![Op::RemE(u, v), Op::AddE(v, u)] } }
                }
                for op in ops {
                    hist.push(format!("[{i}]{op:?}"));
                    log(c, "EditDigraph history", &hist);
                    let (g, m) = &mut gs[i];
                    dapply(g, m, &as_dop(op).0, r.coin())?;
                    c.bump("edits between queries", 1);
                }
            }
            4 => { hist.push(format!("[{}]=[{i}]", 1 - i)); let x = (gs[i].0.clone(), gs[i].1.clone()); gs[1 - i] = x; }
            5 => { hist.push("swap places".into()); gs.swap(0, 1) }
            _ => {
                let q = if r.coin() { fav } else { r.below(6) };
                hist.push(format!("[{i}]?{q}"));
                log(c, "EditDigraph history", &hist);
                let (g, m) = &gs[i];
                ask_di(c, &mut r, &format!("digraph {i}"), g, m, q)?;
                c.bump("queries judged", 1);
                c.eval(asked, m.h() ^ mix(hist.len() as u64));
                asked = true;
            }
        }
    }
    log(c, "EditDigraph history", &hist);
    for (i, (g, m)) in gs.iter().enumerate() { digraph_view(&mut r, g, m).map_err(|e| format!("digraph {i} at the end: {e}"))?; }
    Ok(())
}

fn rename(m: &Model, order: &[V]) -> Model {
    let back: HashMap<V, V> = order.iter().enumerate().map(|(i, v)| (*v, i as V)).collect();
    let mut nm = Model::new();
    for v in order { nm.add_vertex(back[v]); }
    for (u, v) in m.edges() { nm.add_edge(back[&u], back[&v]); }
    nm
}

/// two ordered graphs, positions swapped (or labels normalised) between queries
fn lin_history(c: &mut Ctx, compact: bool) -> R {
    let mut r = c.rng.clone();
    let k = r.range(3, 14);
    let m = gen::random_model(&mut r, &gen::simple(k));
    if m.n() == 0 { return Ok(()) }
    let mut m2 = m.clone();
    variant(&mut r, &mut m2);
    m2.remove_loops();
    let ms = [m.clone(), m2];
    let (g0, g1) = (gen::build(&mut r, &ms[0]), gen::build(&mut r, &ms[1]));
    let src = [&g0, &g1];
    let mut orders: Vec<Vec<V>> = ms.iter().map(|m| gen::random_order(&mut r, m)).collect();
    let mut hist = vec![format!("graph 0 {} graph 1 {} orders {:?}:", ms[0].show(), ms[1].show(), orders)];
    let fav = r.below(108);
    if compact {
        let mut ms = ms.to_vec();
        let mut ds: Vec<DegenGraph> = (0..2).map(|i| DegenGraph::with_ordering(src[i], orders[i].iter())).collect();
        let os: Vec<SReachTraceOracle> = ds.iter().map(SReachTraceOracle::for_graph).collect();
        let mut stale = [false, false];
        for s in 0..r.range(6, 16) {
            let i = r.below(2);
            if r.chance(0.12) {
                hist.push(format!("[{i}]normalize"));
                log(c, "DegenGraph history", &hist);
                ds[i].normalize();
                ms[i] = rename(&ms[i], &orders[i]);
                orders[i] = (0..orders[i].len() as V).collect();
                stale[i] = true;
                continue;
            }
            if r.chance(0.1) { let j = 1 - i; hist.push(format!("[{j}] rebuilt")); let g = gen::build(&mut r, &ms[j]); ds[j] = DegenGraph::with_ordering(&g, orders[j].iter()); continue }
            let q = if r.coin() { fav } else { r.below(108) };
            hist.push(format!("[{i}]?{q}"));
            log(c, "DegenGraph history", &hist);
            if q % 5 == 0 && !stale[i] { ask_oracle(&mut r, &format!("graph {i}"), &os[i], &ds[i], &ms[i], &orders[i], q / 5)?; }
            else { ask_degen(c, &mut r, &format!("graph {i}"), &ds[i], &ms[i], &orders[i], q)?; }
            c.bump("queries judged", 1);
            c.eval(s > 0, ms[i].h() ^ mix(q as u64) ^ mix(s as u64));
        }
        for i in 0..2 { degen_view(&mut r, &format!("graph {i} at the end"), &ds[i], &ms[i], &orders[i], false)?; }
        return Ok(());
    }
    let mut gs: Vec<OrdGraph> = (0..2).map(|i| OrdGraph::with_ordering(src[i], orders[i].iter())).collect();
    for s in 0..r.range(6, 20) {
        let i = r.below(2);
        if r.chance(0.45) {
            let o = &orders[i];
            if o.is_empty() { continue }
            let (a, b) = (r.below(o.len()), r.below(o.len()));
            let (u, v) = (o[a], o[b]);
            hist.push(format!("[{i}]swap({u},{v})"));
            log(c, "OrdGraph history", &hist);
            gs[i].swap(&u, &v);
            orders[i].swap(a, b);
            c.bump("swaps between queries", 1);
            continue;
        }
        let q = if r.coin() { fav } else { r.below(108) };
        hist.push(format!("[{i}]?{q}"));
        log(c, "OrdGraph history", &hist);
        ask_ord(c, &mut r, &format!("graph {i}"), &gs[i], &ms[i], &orders[i], q)?;
        c.bump("queries judged", 1);
        c.eval(s > 0, ms[i].h() ^ mix(q as u64) ^ mix(s as u64));
    }
    for i in 0..2 { ord_all(&mut r, &format!("graph {i} at the end"), &gs[i], &ms[i], &orders[i])?; }
    Ok(())
}

/// augmentations of two graphs, distances asked in between
fn dtf_history(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let k = r.range(3, 14);
    let m = gen::random_model(&mut r, &gen::simple(k));
    let mut m2 = m.clone();
    variant(&mut r, &mut m2);
    m2.remove_loops();
    let ms = [m, m2];
    let mut gs: Vec<DTFGraph> = ms.iter().map(|m| { let g = gen::build(&mut r, m); DTFGraph::orient(&g) }).collect();
    let mut depth = [1, 1];
    let mut hist = vec![format!("graph 0 {} graph 1 {}:", ms[0].show(), ms[1].show())];
    for s in 0..r.range(4, 12) {
        let i = r.below(2);
        if r.chance(0.4) {
            let (d, f) = (r.range(1, 4), r.below(4));
            hist.push(format!("[{i}]augment({d},{f})"));
            log(c, "DTFGraph history", &hist);
            gs[i].augment(d, f);
            depth[i] = depth[i].max(d);
            continue;
        }
        let q = r.below(4);
        hist.push(format!("[{i}]?{q}"));
        log(c, "DTFGraph history", &hist);
        let vs: BTreeSet<V> = ms[i].verts().into_iter().collect();
        let t = dtf::read(&gs[i], &vs);
        ask_dtf(c, &mut r, &format!("graph {i}"), &gs[i], &ms[i], &t, depth[i], q)?;
        if r.chance(0.3) { let rad = r.range(0, 3) as u32; hist.push(format!("[{i}]domset({rad})")); log(c, "DTFGraph history", &hist);
            let d = gs[i].domset(rad);
            depth[i] = gs[i].get_depth();
            let ix = ms[i].idx();
            let src: Vec<usize> = d.iter().filter_map(|v| ix.pos.get(v).cloned()).collect();
            ensure!(src.len() == d.len(), "domset({rad}) of graph {i} lists unknown vertices");
            let dist = ix.bfs(&src);
            ensure!(dist.iter().all(|x| *x <= rad), "domset({rad}) of graph {i} leaves a vertex undominated");
        }
        c.bump("queries judged", 1);
        c.eval(s > 0, ms[i].h() ^ mix(hist.len() as u64));
    }
    Ok(())
}

/// graphs built, queried and dropped one after the other at the same place in memory
fn rebuilt(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let k = r.range(3, 12);
    let mut m = gen::random_model(&mut r, &gen::simple(k));
    m.remove_loops();
    let fav = r.below(112);
    for round in 0..r.range(4, 10) {
        c.input(format!("round {round}, query {fav} on a new graph {}", m.show()));
        let g = gen::build(&mut r, &m);
        ask_edit(c, &mut r, "new graph", &g, &m, fav)?;
        if m.n() > 0 && r.coin() {
            let o = gen::random_order(&mut r, &m);
            let og = OrdGraph::with_ordering(&g, o.iter());
            ask_ord(c, &mut r, "new ordered graph", &og, &m, &o, fav)?;
            let dg = Box::new(DegenGraph::with_ordering(&g, o.iter()));
            ask_degen(c, &mut r, "new compact graph", &dg, &m, &o, fav)?;
        }
        let q = r.below(112);
        ask_edit(c, &mut r, "new graph", &g, &m, q)?;
        c.bump("queries judged", 2);
        c.eval(round > 0, m.h() ^ mix(fav as u64));
        variant(&mut r, &mut m);
        m.remove_loops();
    }
    Ok(())
}

/// A graph big enough to outgrow whatever a small one left behind.
fn big_model(r: &mut Rng) -> (Model, bool) {
    let (n, e, dense): (usize, Vec<(usize, usize)>, bool) = match r.below(5) {
        0 => { let k = r.range(258, 300); let n = k + r.below(30); // a clique and its outskirts
            let mut e: Vec<(usize, usize)> = (0..k).flat_map(|i| (i + 1..k).map(move |j| (i, j))).collect();
            for i in k..n { for _ in 0..r.below(4) { e.push((r.below(i), i)) } }
            (n, e, true) }
        1 => { let n = r.range(300, 900); // a hub or two
            let mut e: Vec<(usize, usize)> = (1..n).map(|i| (0, i)).collect();
            if r.coin() { for i in 2..n { if r.chance(0.7) { e.push((1, i)) } } }
            for _ in 0..r.below(40) { let (a, b) = (r.below(n), r.below(n)); if a != b { e.push((a, b)) } }
            (n, e, false) }
        2 => { let n = r.range(400, 1500); (n, (1..n).map(|i| (if r.chance(0.7) { i - 1 } else { r.below(i) }, i)).collect(), false) }
        3 => { let (a, b) = (r.range(130, 200), r.range(130, 200)); // a biclique
            (a + b, (0..a).flat_map(|i| (a..a + b).map(move |j| (i, j))).collect(), true) }
        _ => { let n = r.range(300, 700); let mut e = vec![]; for i in 1..n { for _ in 0..r.range(1, 3) { e.push((r.below(i), i)) } } (n, e, false) }
    };
    let l = gen::labels(r, n, u32::MAX);
    (Model::from_parts(&l, &e.iter().map(|x| (l[x.0], l[x.1])).collect::<Vec<_>>()), dense)
}

/// Small and large graphs queried in turn.
fn sizes(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let mut gs: Vec<(EditGraph, Model, u8)> = vec![];
    for i in 0..4 {
        let (m, d) = match i { 0 => { let k = r.range(1, 4); (gen::random_model(&mut r, &gen::simple(k)), 0) } 1 => { let k = r.range(5, 40); (gen::random_model(&mut r, &gen::simple(k)), 0) } _ => { let (m, d) = big_model(&mut r); (m, 1 + d as u8) } };
        c.max("vertices_in_one_graph", m.n() as u64);
        gs.push((gen::build(&mut r, &m), m, d));
    }
    let fav = r.below(6);
    let mut hist = vec![];
    for step in 0..r.range(8, 14) {
        let i = if step == 0 { r.below(2) } else { r.below(4) };
        let k = if r.coin() { fav } else { r.below(6) };
        let (g, m, d) = &gs[i];
        hist.push(format!("[{i}: n={} m={}]?{k}", m.n(), m.m()));
        log(c, "graphs of different sizes", &hist);
        let what = format!("graph {i} with {} vertices", m.n());
        match k {
            0 => ask(c, &mut r, &what, g, m, 1)?,
            1 => ask(c, &mut r, &what, g, m, 2)?,
            2 => ask(c, &mut r, &what, g, m, 3)?,
            3 => { let q = 4 + r.below(3); ask(c, &mut r, &what, g, m, q)? }
            _ => {
                let o = gen::random_order(&mut r, m);
                let q = if *d == 0 { r.below(63) } else if *d == 2 { [0, 3, 5][r.below(3)] } else { [0, 1, 2, 3, 5, 6][r.below(6)] };
                if k == 4 { ask_lin(c, &mut r, &what, &OrdGraph::with_ordering(g, o.iter()), m, &o, q)? }
                else { ask_lin(c, &mut r, &what, &DegenGraph::with_ordering(g, o.iter()), m, &o, q)? }
            }
        }
        c.bump("queries on graphs of very different sizes", 1);
        c.eval(step > 0, m.h() ^ mix((k + 8 * step) as u64));
    }
    Ok(())
}

// ---------------------------------------------------------------- nested use

/// A graph type of the caller's own: its answers are those of `g`, but it asks
/// the library other questions before it gives them, and may give up halfway.
struct Nested<'a> {
    g: &'a EditGraph,
    order: &'a [V],
    pos: HashMap<V, usize>,
    inner: &'a EditGraph,
    im: &'a Model,
    fav: usize,
    budget: Cell<i32>,
    fuse: Cell<i64>,
    rng: RefCell<Rng>,
    bad: RefCell<Option<String>>,
}
impl Nested<'_> {
    fn tick(&self) {
        let f = self.fuse.get();
        if f > 0 { self.fuse.set(f - 1); if f == 1 { panic!("VP: the caller's graph gives up") } }
        if self.budget.get() <= 0 { return }
        let mut r = match self.rng.try_borrow_mut() { Ok(mut r) => { if !r.chance(0.2) { return } Rng::new(r.next()) } Err(_) => return };
        self.budget.set(self.budget.get() - 1);
        let mut c = Ctx::new(1, false, String::new());
        let k = if r.coin() { self.fav } else { r.below(63) };
        let res = if k % 3 == 0 {
            let o = gen::random_order(&mut r, self.im);
            ask_lin(&mut c, &mut r, "the graph queried in between", &OrdGraph::with_ordering(self.inner, o.iter()), self.im, &o, k)
        } else { ask(&mut c, &mut r, "the graph queried in between", self.inner, self.im, k) };
        if let Err(e) = res { self.bad.borrow_mut().get_or_insert(e); }
    }
}
impl Graph for Nested<'_> {
    fn num_vertices(&self) -> usize { self.tick(); self.g.num_vertices() }
    fn num_edges(&self) -> usize { self.tick(); self.g.num_edges() }
    fn contains(&self, u: &Vertex) -> bool { self.tick(); self.g.contains(u) }
    fn adjacent(&self, u: &Vertex, v: &Vertex) -> bool { self.tick(); self.g.adjacent(u, v) }
    fn degree(&self, u: &Vertex) -> u32 { self.tick(); self.g.degree(u) }
    fn vertices<'a>(&'a self) -> Box<dyn Iterator<Item = &'a Vertex> + 'a> { Box::new(self.order.iter().map(|v| { self.tick(); v })) }
    fn neighbours<'a>(&'a self, u: &Vertex) -> Box<dyn Iterator<Item = &'a Vertex> + 'a> { self.tick(); Box::new(self.g.neighbours(u).map(|v| { self.tick(); v })) }
}
impl LinearGraph for Nested<'_> {
    fn index_of(&self, u: &Vertex) -> usize { self.tick(); self.pos[u] }
    fn left_neighbours(&self, u: &Vertex) -> Vec<Vertex> {
        self.tick();
        let mut l: Vec<V> = self.g.neighbours(u).cloned().filter(|v| self.pos[v] < self.pos[u]).collect();
        l.sort_by_key(|v| self.pos[v]);
        l
    }
    fn right_degree(&self, u: &Vertex) -> u32 { self.tick(); if !self.pos.contains_key(u) { return 0 } self.g.neighbours(u).filter(|v| self.pos[v] > self.pos[u]).count() as u32 }
}

/// a query, or a structure built from the graph and then queried
fn ask_nested(c: &mut Ctx, r: &mut Rng, what: &str, n: &Nested, m: &Model, k: usize) -> R {
    let o = n.order;
    match k % 16 {
        0..=9 => ask_lin(c, r, what, n, m, o, k / 16 + k % 16),
        10 => ask(c, r, what, n, m, k / 16),
        11 => { let x = OrdGraph::with_ordering(n, o.iter()); n.budget.set(0); let q = r.below(108); ask_ord(c, r, &format!("{what}, OrdGraph of it"), &x, m, o, q) }
        12 => { let x = DegenGraph::with_ordering(n, o.iter()); n.budget.set(0); let q = r.below(108); ask_degen(c, r, &format!("{what}, DegenGraph of it"), &x, m, o, q) }
        13 => { let d = DTFGraph::orient(n); dtf::distances(c, r, &d, m, 1, &format!("{what}, oriented")).map(|_| ()) }
        14 => {
            let s: BTreeSet<V> = { let p = r.f(); r.subset(o, p) }.into_iter().collect();
            let h: EditGraph = n.subgraph(s.iter());
            let q = r.below(7);
            ask(c, r, &format!("{what}, subgraph on {s:?}"), &h, &m.induced(&s), q)
        }
        _ => { let h: EditGraph = n.edges().collect(); let keep: BTreeSet<V> = m.edges().iter().flat_map(|e| [e.0, e.1]).collect(); let q = r.below(7); ask(c, r, &format!("{what}, edges collected"), &h, &m.induced(&keep), q) }
    }
}

/// queries while other queries are still under way, and after some that were cut short by a panic
fn nested(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let k = r.range(2, 12);
    let m = gen::random_model(&mut r, &gen::simple(k));
    if m.n() == 0 { return Ok(()) }
    let mut im = if r.coin() { m.clone() } else { gen::random_model(&mut r, &gen::simple(k)) };
    if r.coin() { variant(&mut r, &mut im); im.remove_loops(); }
    let (g, inner) = (gen::build(&mut r, &m), gen::build(&mut r, &im));
    let order = gen::random_order(&mut r, &m);
    let n = Nested { g: &g, order: &order, pos: order.iter().enumerate().map(|(i, v)| (*v, i)).collect(), inner: &inner, im: &im, fav: r.below(63),
        budget: Cell::new(0), fuse: Cell::new(0), rng: RefCell::new(Rng::new(r.next())), bad: RefCell::new(None) };
    let mut hist = vec![format!("graph {} order {order:?} other graph {}:", m.show(), im.show())];
    let fav = r.below(256);
    for s in 0..r.range(3, 8) {
        let q = if r.coin() { fav } else { r.below(256) };
        match r.below(5) {
            0 | 1 => { // questions within questions
                hist.push(format!("nested?{q}"));
                log(c, "nested queries", &hist);
                n.budget.set(12);
                ask_nested(c, &mut r, "a graph that asks others while it answers", &n, &m, q)?;
                c.bump("queries asked within a query", (12 - n.budget.get()) as u64);
                n.budget.set(0);
                if let Some(e) = n.bad.borrow_mut().take() { return Err(e) }
            }
            2 => { // a query that is cut short
                let at = r.range(1, 60);
                hist.push(format!("cut short?{q}@{at}"));
                log(c, "nested queries", &hist);
                n.fuse.set(at as i64);
                let res = catch_unwind(AssertUnwindSafe(|| ask_nested(c, &mut Rng::new(7), "cut short", &n, &m, q)));
                n.fuse.set(0);
                match res {
                    Ok(x) => x?,
                    Err(_) => { forget_panic(); c.bump("queries cut short by a panic", 1); n.budget.set(0); }
                }
            }
            3 => { // two iterations in lockstep, queries in between
                hist.push("lockstep".into());
                log(c, "nested queries", &hist);
                lockstep(c, &mut r, &g, &m, &inner, &im)?;
            }
            _ => {
                hist.push(format!("?{q}"));
                log(c, "nested queries", &hist);
                if r.coin() { ask_edit(c, &mut r, "graph", &g, &m, q)?; } else { ask_edit(c, &mut r, "other graph", &inner, &im, q)?; }
            }
        }
        c.bump("queries judged", 1);
        c.eval(s > 0, m.h() ^ mix(q as u64) ^ mix(hist.len() as u64));
    }
    log(c, "nested queries", &hist);
    n.budget.set(0);
    ask_nested(c, &mut r, "at the end", &n, &m, fav)?;
    graph_view(&mut r, &g, &m, Nb::Yes).map_err(|e| format!("at the end: {e}"))
}

fn lockstep(c: &mut Ctx, r: &mut Rng, g: &EditGraph, m: &Model, h: &EditGraph, hm: &Model) -> R {
    let (mut a, mut b, mut x, mut y) = (g.edges(), h.edges(), g.vertices_and_edges(), h.neighbourhoods());
    let (mut ga, mut gb, mut gv, mut ge, mut gy) = (vec![], vec![], BTreeSet::new(), BTreeSet::new(), std::collections::BTreeMap::new());
    let (mut done, mut last) = ([false; 4], None);
    while done != [true; 4] {
        let w = r.below(4);
        match w {
            0 => match a.next() { Some(e) => ga.push(e), None => done[0] = true },
            1 => match b.next() { Some(e) => gb.push(e), None => done[1] = true },
            2 => match x.next() {
                Some(VertexOrEdge::V(v)) => ensure!(gv.insert(v), "vertices_and_edges in lockstep yields vertex {v} twice"),
                Some(VertexOrEdge::E(e)) => ensure!(ge.insert(e), "vertices_and_edges in lockstep yields edge {e:?} twice"),
                None => done[2] = true },
            _ => match y.next() {
                Some((v, l)) => {
                    // the previous neighbourhood is still being read
                    if let Some((pv, pl)) = last.replace((v, l)) { let s: BTreeSet<V> = Iterator::cloned(pl).collect(); ensure!(gy.insert(pv, s).is_none(), "neighbourhoods in lockstep yields {pv} twice"); }
                }
                None => { done[3] = true; if let Some((pv, pl)) = last.take() { let s: BTreeSet<V> = Iterator::cloned(pl).collect(); ensure!(gy.insert(pv, s).is_none(), "neighbourhoods in lockstep yields {pv} twice"); } }
            },
        }
        if r.chance(0.1) { let q = r.below(7); if r.coin() { ask(c, r, "queried during iteration", g, m, q)? } else { ask(c, r, "other graph queried during iteration", h, hm, q)? } }
    }
    let norm = |l: Vec<(V, V)>| -> Vec<(V, V)> { let mut l: Vec<_> = l.into_iter().map(|(u, v)| (u.min(v), u.max(v))).collect(); l.sort(); l };
    ensure!(norm(ga) == m.edges(), "edges() in lockstep with another iteration is not the edge set");
    ensure!(norm(gb) == hm.edges(), "edges() of the other graph in lockstep is not its edge set");
    ensure!(gv.into_iter().collect::<Vec<_>>() == m.verts(), "vertices_and_edges() in lockstep misses vertices");
    ensure!(norm(ge.into_iter().collect()) == m.edges(), "vertices_and_edges() in lockstep is not the edge set");
    for v in hm.verts() { ensure!(gy.get(&v) == Some(&hm.nbrs(v).into_iter().collect()), "neighbourhoods() in lockstep gives {v} {:?}", gy.get(&v)); }
    ensure!(gy.len() == hm.n(), "neighbourhoods() in lockstep lists {} of {} vertices", gy.len(), hm.n());
    Ok(())
}

// ---------------------------------------------------------------- threads

struct Share<'a, T>(&'a T);
unsafe impl<T> Send for Share<'_, T> {}
unsafe impl<T> Sync for Share<'_, T> {}
impl<T> Clone for Share<'_, T> { fn clone(&self) -> Self { Share(self.0) } }
impl<'a, T> Share<'a, T> { fn get(&self) -> &'a T { self.0 } }

/// does the type allow being shared? (a type that does not is read by one thread only)
struct Probe<T>(PhantomData<T>);
#[allow(dead_code)]
impl<T: Sync> Probe<T> { const SYNC: bool = true; }
trait Fallback { const SYNC: bool = false; }
impl<T> Fallback for Probe<T> {}

type Job<'a, T> = &'a (dyn Fn(&mut Ctx, &mut Rng, &T, usize) -> R + Sync);

/// `n` readers of one structure at once; every answer judged where it is received
fn readers<T>(c: &mut Ctx, r: &mut Rng, what: &str, sync: bool, g: &T, queries: usize, range: usize, f: Job<T>) -> R {
    let n = if sync { r.range(2, if cfg!(miri) { 3 } else { 6 }) } else { 1 };
    if !sync { c.bump("types that cannot be shared", 1) }
    // some runs: everybody asks the same thing first, at the same moment
    let first = if r.coin() { Some(r.below(range)) } else { None };
    let plans: Vec<(Vec<usize>, Rng)> = (0..n).map(|_| {
        let mut p: Vec<usize> = (0..queries).map(|_| r.below(range)).collect();
        if let (Some(x), Some(y)) = (first, p.first_mut()) { *y = x }
        (p, Rng::new(r.next()))
    }).collect();
    let gate = Barrier::new(n);
    let h = Share(g);
    let res: Vec<std::thread::Result<R>> = std::thread::scope(|s| {
        let mut hs = vec![];
        for (t, (plan, mut rng)) in plans.into_iter().enumerate() {
            let (h, gate) = (h.clone(), &gate);
            hs.push(s.spawn(move || {
                let mut c = Ctx::new(1, false, String::new());
                gate.wait();
                for q in plan {
                    for _ in 0..rng.below(3) { std::thread::yield_now() }
                    f(&mut c, &mut rng, h.get(), q).map_err(|e| format!("reader {t} of {n}, query {q}: {e}"))?;
                }
                Ok(())
            }));
        }
        hs.into_iter().map(|h| h.join()).collect()
    });
    for x in res {
        match x { Ok(x) => x.map_err(|e| format!("{what} read by {n} threads: {e}"))?, Err(p) => std::panic::resume_unwind(p) }
    }
    c.bump("readers", n as u64);
    c.bump("queries by concurrent readers", (n * queries) as u64);
    c.max("readers of one structure", n as u64);
    Ok(())
}

fn shared(c: &mut Ctx, kind: usize) -> R {
    let mut r = c.rng.clone();
    let n = if cfg!(miri) { r.range(3, 5) } else if r.chance(0.1) { r.range(20, 60) } else { r.range(3, 16) };
    let m = gen::random_model(&mut r, &gen::simple(n));
    let q = if cfg!(miri) { 3 } else { r.range(4, 10) };
    let g = gen::build(&mut r, &m);
    let o = gen::random_order(&mut r, &m);
    c.input(format!("shared structure kind {} {} order {:?}", kind % 7, m.show(), &o[..o.len().min(60)]));
    match kind % 7 {
        0 => {
            readers(c, &mut r, "EditGraph", <Probe<EditGraph>>::SYNC, &g, q, 112, &|c, r, g, k| ask_edit(c, r, "shared graph", g, &m, k))?;
            graph_view(&mut r, &g, &m, Nb::Yes).map_err(|e| format!("after concurrent reading: {e}"))?;
        }
        1 => {
            let dm = gen::random_dimodel(&mut r, n, 0.2, u32::MAX);
            c.input(format!("shared {}", dm.show()));
            let d = gen::build_di(&mut r, &dm);
            readers(c, &mut r, "EditDigraph", <Probe<EditDigraph>>::SYNC, &d, q, 6, &|c, r, g, k| ask_di(c, r, "shared digraph", g, &dm, k))?;
            digraph_view(&mut r, &d, &dm).map_err(|e| format!("after concurrent reading: {e}"))?;
        }
        2 => {
            let og = OrdGraph::with_ordering(&g, o.iter());
            readers(c, &mut r, "OrdGraph", <Probe<OrdGraph>>::SYNC, &og, q, 108, &|c, r, g, k| ask_ord(c, r, "shared ordered graph", g, &m, &o, k))?;
            ord_all(&mut r, "after concurrent reading", &og, &m, &o)?;
        }
        3 => {
            let dg = DegenGraph::with_ordering(&g, o.iter());
            readers(c, &mut r, "DegenGraph", <Probe<DegenGraph>>::SYNC, &dg, q, 108, &|c, r, g, k| ask_degen(c, r, "shared compact graph", g, &m, &o, k))?;
            degen_view(&mut r, "after concurrent reading", &dg, &m, &o, true)?;
        }
        4 => {
            let rg = OrdGraph::with_ordering(&g, o.iter()).to_wreach_graph::<3>();
            let sets = wreach(&Idx::with_order(&m, &o), 3);
            readers(c, &mut r, "ReachGraph", <Probe<ReachGraph<3>>>::SYNC, &rg, q, 6, &|_, r, g, k| match k {
                0..=3 => reach_view(r, "shared reach graph", g, &m, &o, &sets),
                4 => colouring_ok("shared reach graph", &g.colour_greedy(), &m, &o),
                _ => { if let Some(want) = m.idx().max_cliques(20_000) { ensure!(g.count_max_cliques() == want, "{} maximal cliques instead of {want}", g.count_max_cliques()); } Ok(()) }
            })?;
            reach_view(&mut r, "after concurrent reading", &rg, &m, &o, &sets)?;
        }
        5 => {
            let mut d = DTFGraph::orient(&g);
            let dep = r.range(1, 4);
            d.augment(dep, r.below(3));
            let vs: BTreeSet<V> = m.verts().into_iter().collect();
            let t = dtf::read(&d, &vs);
            readers(c, &mut r, "DTFGraph", <Probe<DTFGraph>>::SYNC, &d, q, 4, &|c, r, g, k| ask_dtf(c, r, "shared augmentation", g, &m, &t, dep, k))?;
            ensure!(dtf::read(&d, &vs) == t, "the arcs changed by reading them");
        }
        _ => {
            let dg = DegenGraph::with_ordering(&g, o.iter());
            let or = SReachTraceOracle::for_graph(&dg);
            let both = (dg, or);
            let sync = <Probe<DegenGraph>>::SYNC && <Probe<SReachTraceOracle>>::SYNC;
            readers(c, &mut r, "trace oracle", sync, &both, q, 6, &|_, r, b, k| ask_oracle(r, "shared oracle", &b.1, &b.0, &m, &o, k))?;
        }
    }
    c.eval(m.m() > 0, m.h() ^ mix(kind as u64 % 7));
    Ok(())
}

/// every thread builds, edits and queries graphs of its own
fn own(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let n = if cfg!(miri) { 2 } else { r.range(2, 6) };
    let seeds: Vec<u64> = (0..n).map(|_| r.next()).collect();
    let kinds: Vec<usize> = { let k = r.below(6); let same = r.coin(); (0..n).map(|_| if same { k } else { r.below(6) }).collect() };
    let desc = format!("{n} threads with graphs of their own, kinds {kinds:?}, seeds {seeds:?}");
    c.input(desc.clone());
    let gate = Barrier::new(n);
    let res: Vec<std::thread::Result<(R, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds.iter().zip(&kinds).map(|(seed, kind)| { let gate = &gate; s.spawn(move || {
            let mut c = Ctx::new(1, false, String::new());
            c.rng = Rng::new(*seed);
            gate.wait();
            let r = match kind { 0 | 1 => edit_history(&mut c), 2 => di_history(&mut c), 3 => lin_history(&mut c, false), 4 => lin_history(&mut c, true), _ => dtf_history(&mut c) };
            (r, INPUT.with(|i| i.borrow().clone()))
        }) }).collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    for x in res {
        match x {
            Ok((Ok(()), _)) => {}
            Ok((Err(e), i)) => { c.input(format!("{desc}; the failing thread ran: {i}")); return Err(format!("beside {} other threads: {e}", n - 1)) }
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    c.bump("threads with graphs of their own", n as u64);
    c.eval(true, mix(seeds[0]));
    Ok(())
}
