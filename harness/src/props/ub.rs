//! C38: no undefined behaviour from safe use, misuse included. The oracle is
//! not in this file: it is the standard library's UB checks, the address
//! sanitizer and Miri, under which the driver runs it. Panics are allowed.
use super::Prop;
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::refgraph::*;
use crate::rng::{mix, Rng};
use graphbench::algorithms::*;
use graphbench::datastructures::SReachTraceOracle;
use graphbench::compare::SubgraphComparable;
use graphbench::degengraph::*;
use graphbench::dtfgraph::*;
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::io::*;
use graphbench::iterators::*;
use graphbench::operations::GraphOperations;
use graphbench::ordgraph::OrdGraph;
use graphbench::reachgraph::*;
use std::cell::Cell;
use std::hint::black_box;
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C38", quick: 16000, thorough: 640000, run: c38,
        rule: "safe-code use and misuse of every public structure: DegenGraph, ReachGraph, their builders and iterators, the trace oracle, OrdGraph and its algorithms, DTFGraph with its nodes and layers, edit graphs, colourings, loaders on hostile bytes and graphs whose trait implementation lies (empty graphs, repeated and out-of-order appends, queries that are unsorted, duplicated, absent or belong to another graph, depths and distances out of range, use after a caught panic) under std UB checks, ASan and Miri; non-trivial = a case on a non-empty graph or one of the empty-graph scenarios" });
}

fn guard<T>(c: &mut Ctx, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    c.bump("guarded calls", 1);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => { c.bump(&format!("{what}: returned"), 1); Some(x) }
        Err(_) => { forget_panic(); c.bump(&format!("{what}: panicked"), 1); None }
    }
}

fn walk(c: &mut Ctx, r: &mut Rng, d: &DegenGraph, probe: &[V]) {
    guard(c, "vertices", || { let mut s = 0u64; for v in d.vertices() { s = s.wrapping_add(*v as u64); } black_box(s); });
    guard(c, "iter", || { let mut s = 0u64; for (v, l) in d.iter() { s = s.wrapping_add(v as u64); for w in l { s = s.wrapping_add(*w as u64) } } black_box(s); });
    guard(c, "first", || black_box(d.first()));
    guard(c, "iterators used in other ways", || {
        let n = d.num_vertices();
        let k = [0, 1, 2, n.saturating_sub(1), n, n + 1, usize::MAX][r.below(7)];
        let mut it = d.vertices();
        let a = it.nth(k).cloned();
        let b = (it.next().cloned(), it.next().cloned(), it.size_hint(), it.count());
        let mut it = d.iter();
        let e = (it.nth(k).map(|(v, l)| (v, eat(l.iter()))), it.next().map(|(v, l)| (v, eat(l.iter()))), it.last().map(|(v, l)| (v, eat(l.iter()))));
        let f = (eat(d.vertices().skip(k)), eat(d.vertices().step_by(k.min(1000) + 1)), d.vertices().last().cloned(), d.iter().count(), d.vertices().max().cloned());
        // an iterator that is asked again after it ended
        let mut it = d.vertices();
        while it.next().is_some() {}
        black_box((a, b, e, f, it.next().cloned(), it.next().cloned(), it.size_hint()))
    });
    guard(c, "edges", || black_box(d.edges().count()));
    guard(c, "neighbourhoods", || black_box(d.neighbourhoods().map(|(_, n)| n.count()).sum::<usize>()));
    for v in probe {
        guard(c, "left_neighbours_slice", || black_box(d.left_neighbours_slice(v).iter().map(|x| *x as u64).sum::<u64>()));
        guard(c, "left_neighbours", || black_box(d.left_neighbours(v).len()));
        guard(c, "right_neighbours", || black_box(d.right_neighbours(v).len()));
        guard(c, "neighbours", || black_box(d.neighbours(v).count()));
        guard(c, "degrees", || black_box((d.degree(v), d.left_degree(v))));
        let k = r.range(1, 4) as u32;
        guard(c, "sreach_set", || black_box(d.sreach_set(v, k).len()));
        for w in probe.iter().take(4) { guard(c, "adjacent", || black_box((d.adjacent(v, w), d.adjacent_ordered(v, w)))); }
    }
}

fn ask(c: &mut Ctx, r: &mut Rng, o: &SReachTraceOracle, d: &DegenGraph, pool: &[V]) {
    for i in 0..4 {
        let k = r.below(pool.len().min(7) + 1);
        let mut q: Vec<V> = (0..k).filter_map(|_| r.pick(pool).cloned()).collect();
        if i == 0 { q.sort(); q.dedup(); }
        if i == 1 { q.sort(); q.dedup(); q.reverse(); }
        guard(c, "compute_traces", || black_box(o.compute_traces(&q, d).len()));
        guard(c, "compute_neighbour_count", || black_box(o.compute_neighbour_count(&q, d)));
        let kk = match r.below(4) { 0 => q.len() as u32, 1 => 70, 2 => 0, _ => q.len() as u32 + 1 };
        guard(c, "is_shattered", || black_box(o.is_shattered(q.iter(), kk, d)));
    }
    // and a query that is in graph order: always answered
    let mut q: Vec<V> = d.vertices().cloned().collect();
    let p = r.f();
    q = r.subset(&q, p);
    guard(c, "compute_traces in order", || black_box(o.compute_traces(&q, d).len()));
}

fn misbuild(c: &mut Ctx, r: &mut Rng, l: &[V]) -> DegenGraph {
    let mut b = DegenGraphBuilder::new();
    let mut seen: Vec<V> = vec![];
    let bad = r.below(5);
    for v in l {
        let mut n = { let p = r.f() * 0.6; r.subset(&seen, p) };
        match bad {
            1 if r.chance(0.2) => n.push(*l.last().unwrap_or(v)),                  // a later neighbour
            2 if r.chance(0.2) => n.push(r.u32()),                                  // an unknown one
            3 if r.chance(0.3) => { if let Some(x) = n.first().cloned() { for _ in 0..[1, 2, 9, 100][r.below(4)] { n.push(x) } } } // many times
            _ => {}
        }
        let u = if bad == 4 && r.chance(0.2) { seen.first().cloned().unwrap_or(*v) } else { *v }; // same vertex again
        guard(c, "append", || b.append(&u, &n));
        seen.push(u);
    }
    b.build()
}

const SCENARIOS: usize = 16;

/// Sums up what an iterator yields, so that every reference is followed.
fn eat<'a>(it: impl Iterator<Item = &'a V>) -> u64 { it.take(100_000).fold(0u64, |s, v| s.wrapping_mul(31).wrapping_add(*v as u64)) }

/// Some vertices of the graph, some that are not in it.
fn some_vertices(r: &mut Rng, pool: &[V], k: usize) -> Vec<V> {
    (0..k).map(|_| if r.chance(0.15) { r.u32() } else { r.pick(pool).cloned().unwrap_or(0) }).collect()
}

fn walk_reach<const D: usize>(c: &mut Ctx, r: &mut Rng, g: &ReachGraph<D>, probe: &[V]) {
    guard(c, "reach vertices", || black_box(eat(g.vertices())));
    guard(c, "reach iter", || { let mut s = 0u64; for (v, w) in g.iter().take(100_000) { s = s.wrapping_add(v as u64 + w.len() as u64); for d in 1..=D { s = s.wrapping_add(eat(w.at(d).iter())) } } black_box(s) });
    guard(c, "reach first", || black_box((g.first(), g.depth(), g.num_vertices(), g.num_edges())));
    guard(c, "half-consumed", || { let mut it = g.iter(); let x = it.next().map(|(v, w)| (v, w.len())); drop(it); black_box(x) });
    for v in probe {
        guard(c, "reachables_all", || black_box(eat(g.reachables_all(v).iter())));
        guard(c, "next_reachables", || black_box(g.next_reachables(v).map(|w| (w.len(), w.is_empty()))));
        for d in [0, 1, D, D + 1, usize::MAX, r.below(300)] {
            guard(c, "reachables at", || black_box(eat(g.reachables(v).at(d).iter())));
        }
        guard(c, "reach left_neighbours", || black_box(g.left_neighbours(v).len()));
        guard(c, "reach degrees", || black_box((g.degree(v), g.right_degree(v), g.contains(v))));
        guard(c, "reach left_degree", || black_box(g.left_degree(v)));
        guard(c, "reach neighbours", || black_box(eat(g.neighbours(v))));
        guard(c, "reach sreach", || black_box(g.sreach_set(v, 2).len()));
        for w in probe.iter().take(3) { guard(c, "reach adjacent", || black_box(g.adjacent(v, w))); }
    }
    guard(c, "reach cliques", || black_box(g.count_max_cliques()));
    guard(c, "reach colour", || black_box(g.colour_greedy().len()));
    guard(c, "reach edges", || black_box(g.edges().count()));
}

fn misbuild_reach<const D: usize>(c: &mut Ctx, r: &mut Rng, l: &[V]) -> ReachGraph<D> {
    let mut b = if r.coin() { ReachGraphBuilder::<D>::new() } else { Default::default() };
    let mut order: VertexMap<usize> = l.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    if r.chance(0.2) { if let Some(v) = r.pick(l) { order.remove(v); } }
    if r.chance(0.2) { for (_, i) in order.iter_mut() { *i = usize::MAX - *i % 3 } }
    let bad = r.below(6);
    let mut seen: Vec<V> = vec![];
    for v in l {
        let mut n: VertexMap<u32> = { let p = r.f() * 0.5; r.subset(&seen, p) }.into_iter().map(|w| (w, r.range(1, D.max(1)) as u32)).collect();
        if r.chance(0.25) {
            match bad {
                1 => { n.insert(*v, 1); }                                                   // itself
                2 => { n.insert(r.u32(), 1); }                                               // unknown
                3 => { n.insert(seen.last().cloned().unwrap_or(*v), 0); }                    // distance 0
                4 => { n.insert(seen.last().cloned().unwrap_or(*v), (D + 1 + r.below(40)) as u32); } // too far
                5 => { for x in l.iter().take(40) { n.insert(*x, if r.chance(0.1) { u32::MAX } else { 1 }); } }
                _ => {}
            }
        }
        // a distance of u32::MAX would be answered by pushing that many indices
        for (_, d) in n.iter_mut() { *d = (*d).min(60) }
        let u = if bad == 1 && r.chance(0.2) { seen.first().cloned().unwrap_or(*v) } else { *v };
        guard(c, "reach append", || b.append(&u, &n, &order));
        seen.push(u);
    }
    b.build()
}

/// A graph whose answers need not fit together and may change from call to call.
struct Liar { verts: Vec<V>, lists: Vec<Vec<V>>, n: usize, m: usize, t: Cell<usize>, mode: usize, inner: Option<EditGraph>, busy: Cell<bool> }
impl Liar {
    fn new(r: &mut Rng, m: &Model) -> Liar {
        let mut verts = m.verts();
        r.shuffle(&mut verts);
        let mut lists: Vec<Vec<V>> = verts.iter().map(|v| m.adj[v].iter().cloned().collect()).collect();
        let mode = r.below(8);
        for l in lists.iter_mut() {
            r.shuffle(l);
            if mode == 1 && r.chance(0.3) { l.extend(some_vertices(r, &verts, 2)) }
            if mode == 2 && r.chance(0.3) { l.pop(); }
            if mode == 3 && r.chance(0.3) { let x = l.first().cloned(); for _ in 0..r.range(1, 12) { l.extend(x) } }
        }
        if mode == 3 && r.coin() { let x = verts.first().cloned(); verts.extend(x); let y = lists.first().cloned(); lists.extend(y) }
        // never more than there are: degeneracy() would look for them for minutes
        let n = if mode == 4 { r.below(m.n() + 1) } else { m.n() };
        let inner = if mode >= 6 { let k = r.range(1, if cfg!(miri) { 9 } else { 40 }); let im = gen::random_model(r, &gen::simple(k)); Some(gen::build(r, &im)) } else { None };
        Liar { verts, lists, n, m: if r.coin() { m.m() } else { r.below(50) }, t: Cell::new(0), mode, inner, busy: Cell::new(false) }
    }
    /// Modes 6 and 7: the library is asked about another graph while it asks this one;
    /// mode 7 gives up at some point.
    fn nest(&self) {
        let Some(g) = &self.inner else { return };
        if self.busy.get() { return }
        let t = self.tick();
        if self.t.get() > if cfg!(miri) { 4 } else { 60 } && t % if cfg!(miri) { 1024 } else { 16 } != 0 { return }
        self.busy.set(true);
        match t / 1024 % 10 {
            0 => { black_box(g.degeneracy().2.len()); }
            1 => { black_box(g.components().len()); }
            2 => { black_box(matches!(g.is_bipartite(), BipartiteWitness::Bipartition(..))); }
            3 => { black_box(DegenGraph::from_graph(g).normalize().len()); }
            4 => { black_box(OrdGraph::by_degeneracy(g).wreach_sets(2).len()); }
            5 => { black_box(OrdGraph::by_degeneracy(g).domset(2, false).0.len()); }
            6 => { black_box(OrdGraph::by_degeneracy(g).to_wreach_graph::<2>().vertices().count()); }
            7 => { let mut d = DTFGraph::orient(g); d.augment(2, 1); black_box(d.num_edges()); }
            8 => { let d = DegenGraph::from_graph(g); let o = SReachTraceOracle::for_graph(&d); let q: Vec<V> = d.vertices().take(4).cloned().collect(); black_box(o.compute_traces(&q, &d).len()); }
            _ => { let d = DegenGraph::from_graph(g); black_box((if d.num_vertices() <= 14 { d.count_max_cliques() } else { 0 }, g.r_neighbourhood(g.vertices().take(2), 2).len())); }
        }
        self.busy.set(false);
        if self.mode == 7 && t % 97 == 0 { panic!("the caller's graph gives up") }
    }
    /// An algorithm that never stops asking is sent home: that it is fooled is no fault.
    fn patience(&self) { self.t.set(self.t.get() + 1); if self.t.get() > 5_000_000 { self.t.set(0); panic!("the caller's graph gives up") } }
    fn tick(&self) -> usize { self.patience(); mix(self.t.get() as u64) as usize }
}
impl Graph for Liar {
    fn num_vertices(&self) -> usize { self.n }
    fn num_edges(&self) -> usize { self.m }
    fn contains(&self, u: &Vertex) -> bool { self.nest(); self.verts.contains(u) }
    fn adjacent(&self, u: &Vertex, v: &Vertex) -> bool { if self.mode == 5 { self.tick() % 2 == 0 } else { self.neighbours(u).any(|x| x == v) } }
    fn degree(&self, u: &Vertex) -> u32 { self.nest(); let d = self.neighbours(u).count(); if self.mode == 5 { (d + self.tick() % 3) as u32 } else { d as u32 } }
    fn vertices<'a>(&'a self) -> Box<dyn Iterator<Item = &'a Vertex> + 'a> { Box::new(self.verts.iter()) }
    fn neighbours<'a>(&'a self, u: &Vertex) -> Box<dyn Iterator<Item = &'a Vertex> + 'a> {
        self.patience();
        self.nest();
        match self.verts.iter().position(|x| x == u) {
            Some(i) => { let k = if self.mode == 5 { self.tick() % 4 } else { 0 }; Box::new(self.lists[i].iter().skip(k)) }
            None => Box::new(std::iter::empty()),
        }
    }
}

fn hostile_bytes(r: &mut Rng, m: &Model) -> Vec<u8> {
    let mut s: Vec<u8> = m.edges().iter().map(|(u, v)| format!("{u} {v}\n")).collect::<String>().into_bytes();
    if r.chance(0.3) { s = m.verts().iter().map(|v| format!("{v}\n")).collect::<String>().into_bytes() }
    for _ in 0..r.below(5) {
        if s.is_empty() { break }
        let i = r.below(s.len());
        match r.below(6) {
            0 => s[i] = r.below(256) as u8,
            1 => s.insert(i, b" \t\r\n\x0b\x0c\x85\xa0"[r.below(8)]),
            2 => { s.truncate(i); }
            3 => { s.splice(i..i, b"4294967296".iter().cloned()); }
            4 => { s.splice(i..i, "\u{2028}\u{a0}\u{661}\u{1d7d9}".bytes()); }
            _ => { s.splice(i..i, std::iter::repeat(b'0').take(400)); }
        }
    }
    s
}

fn c38(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let small = cfg!(miri);
    let n = if small { 7 } else if case % 100 == 17 { 200 } else { 18 };
    let m = if case < 3 { Model::new() } else { gen::random_model(&mut r, &gen::simple(n)) };
    let order = gen::random_order(&mut r, &m);
    let g = gen::build(&mut r, &m);
    let mut probe = m.verts();
    r.shuffle(&mut probe);
    probe.truncate(if small { 3 } else { 8 });
    let absent = gen::absent(&mut r, &m);
    let mut pool = m.verts();
    pool.extend(absent.iter().take(2));
    c.input(format!("scenario {} {} order {:?}", case % SCENARIOS, m.show(), &order[..order.len().min(60)]));
    let mut d = match case % 3 { 0 => DegenGraph::with_ordering(&g, order.iter()), 1 => DegenGraph::from_graph(&g), _ => DegenGraph::with_ordering(&RefGraph::new(&mut r, &m), order.iter()) };
    match case % SCENARIOS {
        0 => { // empty and tiny graphs
            let e = DegenGraph::from_graph(&EditGraph::new());
            walk(c, &mut r, &e, &absent[..1]);
            let mut e2 = e.clone();
            guard(c, "normalize empty", || black_box(e2.normalize().len()));
            guard(c, "normalize empty", || black_box(e2.normalize().len()));
            walk(c, &mut r, &e2, &absent[..1]);
            let mut e3 = DegenGraphBuilder::new().build();
            guard(c, "normalize empty", || black_box(e3.normalize().len()));
            let mut e4 = DegenGraph::with_ordering(&RefGraph::new(&mut r, &Model::new()), Vec::<V>::new());
            guard(c, "normalize empty", || black_box(e4.normalize().len()));
            let mut e5 = OrdGraph::by_degeneracy(&EditGraph::new()).to_degeneracy_graph();
            guard(c, "normalize empty", || black_box(e5.normalize().len()));
            if let Some(o) = guard(c, "oracle", || SReachTraceOracle::for_graph(&e2)) {
                guard(c, "compute_traces", || black_box(o.compute_traces(&[], &e2).len()));
                ask(c, &mut r, &o, &e2, &pool);
            }
            let mut s = EditGraph::new();
            s.add_vertex(&r.u32());
            let mut s = DegenGraph::from_graph(&s);
            guard(c, "normalize one vertex", || black_box(s.normalize().len()));
            walk(c, &mut r, &s, &[0]);
        }
        1 => { // plain use, then normalised, then again
            walk(c, &mut r, &d, &probe);
            walk(c, &mut r, &d, &absent[..absent.len().min(2)]);
            let cl = d.clone();
            for _ in 0..2 { guard(c, "normalize", || black_box(d.normalize().len())); }
            let p: Vec<V> = (0..m.n().min(8) as u32 + 1).collect();
            walk(c, &mut r, &d, &p);
            drop(d);
            walk(c, &mut r, &cl, &probe);
        }
        2 | 3 => { // the builder, used wrongly; normalised, panicking midway or not; used again
            let l: Vec<V> = { let mut l = order.clone(); l.truncate(40); l };
            let mut b = misbuild(c, &mut r, &l);
            walk(c, &mut r, &b, &probe);
            guard(c, "normalize misbuilt", || black_box(b.normalize().len()));
            walk(c, &mut r, &b, &probe);
            let p: Vec<V> = (0..4).collect();
            walk(c, &mut r, &b, &p);
            guard(c, "normalize misbuilt", || black_box(b.normalize().len()));
            if let Some(o) = guard(c, "oracle of misbuilt", || SReachTraceOracle::for_graph(&b)) { ask(c, &mut r, &o, &b, &pool); }
        }
        4 => { // queries in no order, with repeats, with strangers
            if let Some(o) = guard(c, "oracle", || SReachTraceOracle::for_graph(&d)) {
                let vs = m.verts();
                ask(c, &mut r, &o, &d, &vs);
                ask(c, &mut r, &o, &d, &pool);
                ask(c, &mut r, &o, &d, &order);
            }
        }
        5 => { // an oracle used with another graph over the same vertices
            let m2 = { let mut x = gen::random_model(&mut r, &gen::simple(n)); let mut y = Model::new(); for v in m.verts() { y.add_vertex(v); } let l = m.verts(); let xs = x.verts(); for (a, b) in x.edges() { let (i, j) = (xs.binary_search(&a).unwrap_or(0), xs.binary_search(&b).unwrap_or(0)); if i < l.len() && j < l.len() && i != j { y.add_edge(l[i], l[j]); } } x = y; x };
            let g2 = gen::build(&mut r, &m2);
            let mut o2 = order.clone();
            if r.coin() { o2.reverse() }
            let d2 = DegenGraph::with_ordering(&g2, o2.iter());
            if let Some(o) = guard(c, "oracle", || SReachTraceOracle::for_graph(&d)) { ask(c, &mut r, &o, &d2, &pool); ask(c, &mut r, &o, &d2, &o2); }
            if let Some(o) = guard(c, "oracle", || SReachTraceOracle::for_graph(&d2)) { ask(c, &mut r, &o, &d, &order); }
        }
        6 => { // an oracle built before its graph is normalised
            if let Some(o) = guard(c, "oracle", || SReachTraceOracle::for_graph(&d)) {
                guard(c, "normalize", || black_box(d.normalize().len()));
                ask(c, &mut r, &o, &d, &pool);
                let p: Vec<V> = (0..m.n() as u32 + 1).collect();
                ask(c, &mut r, &o, &d, &p);
            }
        }
        8 => { // reach graphs, asked for depths and vertices they do not have
            let o = OrdGraph::with_ordering(&g, order.iter());
            let p: Vec<V> = probe.iter().cloned().take(3).chain(absent.first().cloned()).collect();
            if let Some(w) = guard(c, "wreach", || o.to_wreach_graph::<1>()) { walk_reach(c, &mut r, &w, &p); }
            if let Some(w) = guard(c, "wreach", || o.to_wreach_graph::<3>()) { walk_reach(c, &mut r, &w, &p); }
            if let Some(w) = guard(c, "sreach", || o.to_sreach_graph::<2>()) { walk_reach(c, &mut r, &w, &p); }
            let e = OrdGraph::by_degeneracy(&EditGraph::new());
            if let Some(w) = guard(c, "wreach of nothing", || e.to_wreach_graph::<2>()) { walk_reach(c, &mut r, &w, &p); }
            if let Some(w) = guard(c, "wreach of depth 0", || o.to_wreach_graph::<0>()) { walk_reach(c, &mut r, &w, &p[..1.min(p.len())]); }
            if let Some(w) = guard(c, "sreach of depth 0", || o.to_sreach_graph::<0>()) { walk_reach(c, &mut r, &w, &p[..1.min(p.len())]); }
        }
        9 => { // the reach graph builder, used wrongly
            let l: Vec<V> = { let mut l = order.clone(); l.truncate(if small { 5 } else { 30 }); l };
            let p: Vec<V> = probe.iter().cloned().take(3).chain(absent.first().cloned()).collect();
            match r.below(4) {
                0 => { let g = misbuild_reach::<0>(c, &mut r, &l); walk_reach(c, &mut r, &g, &p); }
                1 => { let g = misbuild_reach::<1>(c, &mut r, &l); walk_reach(c, &mut r, &g, &p); }
                2 => { let g = misbuild_reach::<2>(c, &mut r, &l); walk_reach(c, &mut r, &g, &p); }
                _ => { let g = misbuild_reach::<5>(c, &mut r, &l); walk_reach(c, &mut r, &g, &p); }
            }
        }
        10 => { // ordered graphs: strangers in swaps, orderings and targets
            let mut o = match r.below(4) {
                0 => { let mut l = order.clone(); l.push(absent[0]); l }
                1 => { let mut l = order.clone(); l.pop(); l }
                2 => { let mut l = order.clone(); l.extend(order.first()); l }
                _ => order.clone(),
            };
            if r.chance(0.2) { o.clear() }
            let mut og = guard(c, "ordgraph with a wrong ordering", || OrdGraph::with_ordering(&g, o.iter())).unwrap_or_else(|| OrdGraph::with_ordering(&g, order.iter()));
            for round in 0..if small { 1 } else { 3 } {
                let q = some_vertices(&mut r, &pool, 4);
                for v in &q {
                    guard(c, "ord right_neighbours", || black_box(og.right_neighbours(v).len()));
                    guard(c, "ord left_neighbours", || black_box(og.left_neighbours(v).len()));
                    guard(c, "ord degrees", || black_box((og.degree(v), og.left_degree(v), og.right_degree(v), eat(og.neighbours(v)))));
                    guard(c, "ord index_of", || black_box(og.index_of(v)));
                    let d = r.below(4) as u32;
                    guard(c, "right_bfs", || black_box(og.right_bfs(v, d).len()));
                    guard(c, "sreach_set", || black_box(og.sreach_set(v, d).len()));
                }
                guard(c, "leftmost", || black_box((og.leftmost(q.iter()), og.rightmost(q.iter()))));
                let d = r.below(4) as u32;
                guard(c, "wreach", || black_box((og.wreach_sets(d).len(), og.wreach_sizes(d).len(), og.sreach_sizes(d).len())));
                guard(c, "domset target", || black_box(og.domset_with_target(d, round == 1, q.iter()).0.len()));
                guard(c, "domset", || black_box(og.domset(d, round != 1).0.len()));
                let t: Vec<V> = q.iter().cloned().filter(|v| og.contains(v)).collect();
                guard(c, "scattered_colouring", || black_box(og.scattered_colouring(d, t.iter()).len()));
                guard(c, "cliques", || black_box((og.count_max_cliques(), og.colour_greedy().len())));
                guard(c, "to degen", || black_box(og.to_degeneracy_graph().iter().map(|(_, l)| eat(l.iter())).count()));
                for _ in 0..3 { let q = some_vertices(&mut r, &pool, 2); guard(c, "swap", || og.swap(&q[0], &q[1])); }
            }
        }
        11 => { // augmentations: depths, vertices and arcs out of range
            let mut a = DTFGraph::orient(&g);
            let e = EditGraph::new();
            if r.chance(0.1) { a = DTFGraph::orient(&e) }
            let top = if small { 3 } else { 4 };
            for _ in 0..if small { 1 } else { 2 } {
                let q = some_vertices(&mut r, &pool, 4);
                for w in 0..if small { 2 } else { 4 } {
                    let d = *r.pick(&[0, 1, 2, top, top + 1, 50, usize::MAX]).unwrap();
                    let (u, v) = (q[w], q[(w + 1) % 4]);
                    guard(c, "dtf has_arc_at", || black_box((a.has_arc_at(&u, &v, d), a.has_arc(&u, &v), a.adjacent(&u, &v))));
                    guard(c, "dtf in_neighbours_at", || black_box(eat(a.in_neighbours_at(&u, d))));
                    guard(c, "dtf in_neighbours", || black_box(eat(a.in_neighbours(&u))));
                    guard(c, "dtf arcs_at", || black_box(a.arcs_at(d).count()));
                    guard(c, "dtf num_arcs_at_depth", || black_box(a.num_arcs_at_depth(d)));
                    guard(c, "dtf arc depth", || black_box(a.get_arc_depth(&u, &v)));
                    guard(c, "small_distance", || black_box(a.small_distance(&u, &v)));
                    guard(c, "dtf degrees", || black_box((a.degree(&u), a.in_degree(&u), a.out_degree(&u))));
                    guard(c, "dtf neighbourhoods", || black_box(a.in_neighbourhoods_iter_at(d).map(|(_, n)| eat(n)).count()));
                    guard(c, "dtf out", || black_box(eat(a.out_neighbours(&u))));
                    let l = a.layer(d);
                    guard(c, "layer", || black_box((l.num_vertices(), l.contains(&u), l.has_arc(&u, &v))));
                    guard(c, "layer num_edges", || black_box(l.num_edges()));
                    guard(c, "layer degrees", || black_box((l.in_degree(&u), l.out_degree(&u))));
                    guard(c, "layer in_neighbours", || black_box(eat(l.in_neighbours(&u))));
                    let mut n = DTFNode::new(d.min(3));
                    guard(c, "node", || { n.reserve_depth(d.min(5)); black_box((n.has_in_neighbour_at(&u, d), n.in_degree_at(d), n.out_degree_at(d))) });
                    guard(c, "node in_neighbours_at", || black_box(eat(n.in_neighbours_at(d))));
                    guard(c, "node degrees", || black_box((n.degree(), n.get_arc_depth_from(&v))));
                }
                for _ in 0..3 {
                    let q = some_vertices(&mut r, &pool, 2);
                    let d = r.below(top + 2);
                    guard(c, "add_arc", || a.add_arc(&q[0], &q[1], d));
                    if r.coin() { guard(c, "add_vertex", || a.add_vertex(q[1])); }
                }
                let (d, f) = (r.below(top + 1), r.below(3));
                guard(c, "augment", || a.augment(d, f));
                let d = r.below(top + 1) as u32;
                guard(c, "dtf domset", || black_box(a.domset(d).len()));
                guard(c, "dtf arcs", || black_box((a.arcs().count(), a.to_undirected::<EditGraph>().num_edges())));
                guard(c, "edge_subgraph", || black_box(a.edge_subgraph(vec![(q[0], q[1]), (q[2], q[3])].into_iter()).num_edges()));
            }
            guard(c, "orient_deep", || black_box(DTFGraph::orient_deep(&g, r.below(4)).num_edges()));
        }
        12 => { // edit graphs and digraphs, colourings: strangers, loops, self-contractions
            let mut g = gen::build(&mut r, &m);
            let mut h = EditDigraph::from_iter(m.edges());
            for _ in 0..if small { 3 } else { 6 } {
                let q = some_vertices(&mut r, &pool, 4);
                let (u, v) = (q[0], q[1]);
                guard(c, "edit queries", || black_box((g.degree(&u), g.adjacent(&u, &v), g.contains(&u))));
                guard(c, "edit neighbours", || black_box(eat(g.neighbours(&u))));
                guard(c, "digraph neighbours", || black_box((eat(h.out_neighbours(&u)), eat(h.in_neighbours(&u)))));
                guard(c, "digraph degrees", || black_box((h.in_degree(&u), h.out_degree(&u), h.degree(&u))));
                guard(c, "neighbourhoods", || black_box((g.neighbourhood(q.iter()).len(), g.closed_neighbourhood(q.iter()).len(), g.r_neighbourhood(q.iter(), 3).len())));
                guard(c, "subgraph", || black_box(g.subgraph::<EditGraph, _, _>(q.iter()).num_edges()));
                match r.below(9) {
                    0 => { guard(c, "contract", || black_box(g.contract(q.iter()))); }
                    1 => { guard(c, "contract nothing", || black_box(g.contract(Vec::<V>::new().iter()))); }
                    2 => { guard(c, "contract_pair", || g.contract_pair(&u, &u)); }
                    3 => { guard(c, "contract_pair", || g.contract_pair(&u, &v)); }
                    4 => { guard(c, "contract_into", || g.contract_into(&u, q.iter())); }
                    5 => { guard(c, "edits", || black_box((g.add_edge(&u, &u), g.remove_edge(&u, &v), g.remove_vertex(&v)))); }
                    6 => { guard(c, "arc edits", || black_box((h.add_arc(&u, &u), h.remove_arc(&u, &v), h.remove_vertex(&v)))); }
                    7 => { guard(c, "cleanup", || black_box((g.remove_loops(), g.remove_isolates(), h.remove_loops(), h.remove_isolates()))); }
                    _ => { guard(c, "normalize", || black_box((g.normalize().1.len(), h.normalize().1.len()))); }
                }
                guard(c, "half-consumed", || { let mut it = g.edges(); it.next(); let mut a = h.arcs(); a.next(); let mut x = g.vertices_and_edges(); x.next(); x.next(); drop(it); black_box((a.count(), x.count())) });
            }
            let mut col: VertexColouring<u32> = VertexColouring::from_iter(pool.iter().map(|v| (*v, v % 3)));
            let o0 = VertexColouring::from_iter(absent.iter().map(|v| (*v, v % 2)));
            guard(c, "disjoint_extend", || { col.disjoint_extend(&o0); black_box(col.len()) });
            let q = some_vertices(&mut r, &pool, 4);
            guard(c, "colour of a stranger", || black_box(col[&q[0]]));
            guard(c, "colouring", || { col.insert(q[1], u32::MAX); black_box((col.majority_set().is_some(), col.invert().len())) });
            let other = col.subset(q.iter().filter(|v| pool.contains(v)));
            guard(c, "disjoint_extend", || { col.disjoint_extend(&other); black_box(col.len()) });
            guard(c, "colouring subset", || black_box(col.subset(q.iter()).len()));
            guard(c, "from_sets", || black_box(VertexColouring::<u32>::from_sets(vec![q.iter().cloned().collect(), VertexSet::default(), q.iter().take(1).cloned().collect()]).len()));
            let empty: VertexColouring<u32> = Default::default();
            guard(c, "empty colouring", || black_box((empty.majority_set().is_none(), empty.invert().len())));
        }
        13 => { // loaders fed with hostile bytes
            for _ in 0..3 {
                let b = hostile_bytes(&mut r, &m);
                guard(c, "EditGraph::from_buf", || black_box(EditGraph::from_buf(Box::new(Cursor::new(b.clone()))).map(|g| g.num_edges()).ok()));
                guard(c, "VertexSet::from_buf", || black_box(VertexSet::from_buf(Box::new(Cursor::new(b.clone()))).map(|g| g.len()).ok()));
                guard(c, "Vec::from_buf", || black_box(<Vec<V>>::from_buf(Box::new(Cursor::new(b.clone()))).map(|g| g.len()).ok()));
            }
            guard(c, "write_buf", || black_box((d.write_buf(Box::new(std::io::sink())).is_ok(), order.write_buf(Box::new(std::io::sink())).is_ok())));
        }
        14 => std::thread::scope(|s| { std::thread::Builder::new().stack_size(1 << 28).spawn_scoped(s, || { // graphs whose trait implementation lies, on a thread that has run nothing before
            let (c, mut r) = (&mut *c, r.clone());
            let l = Liar::new(&mut r, &m);
            guard(c, "liar components", || black_box(l.components().len()));
            guard(c, "liar is_bipartite", || black_box(matches!(l.is_bipartite(), BipartiteWitness::Bipartition(..))));
            if let Some((_, _, o, _)) = guard(c, "liar degeneracy", || l.degeneracy()) {
                guard(c, "liar ordgraph", || black_box(OrdGraph::with_ordering(&l, o.iter()).to_degeneracy_graph().vertices().count()));
            }
            for k in 0..2 {
                let d = if k == 0 { guard(c, "liar degen", || DegenGraph::from_graph(&l)) } else { guard(c, "liar degen", || DegenGraph::with_ordering(&l, order.iter())) };
                if let Some(mut d) = d {
                    walk(c, &mut r, &d, &probe);
                    if let Some(o) = guard(c, "oracle of a lie", || SReachTraceOracle::for_graph(&d)) { ask(c, &mut r, &o, &d, &pool); }
                    guard(c, "normalize a lie", || black_box(d.normalize().len()));
                    walk(c, &mut r, &d, &[0, 1, 2]);
                }
            }
            if let Some(mut a) = guard(c, "liar orient", || DTFGraph::orient(&l)) { guard(c, "liar domset", || black_box(a.domset(2).len())); }
            guard(c, "liar operations", || black_box((l.edges().count(), l.vertices_and_edges().count(), l.r_neighbourhood(probe.iter(), 2).len(), l.subgraph::<EditGraph, _, _>(probe.iter()).num_edges())));
            guard(c, "liar operations", || black_box((l.invert().num_edges(), l.subdivide(2).num_vertices())));
            let l2 = Liar::new(&mut r, &m);
            guard(c, "liar operations", || black_box((l.merge(&l2).num_edges(), l.intersect(&l2).num_edges())));
            if m.n() <= if small { 3 } else { 12 } { guard(c, "liar products", || black_box((l.cartesian_product(&l2).1.len(), l.lexicographic_product(&l2).1.len()))); }
            guard(c, "liar compare", || { l.compare_subgraph(&l2); });
            guard(c, "liar written", || black_box(l.write_buf(Box::new(std::io::sink())).is_ok()));
        }).expect("a thread").join().unwrap(); }),
        _ => { // orderings that miss or repeat vertices; half-consumed iterators; derived structures
            let mut o = order.clone();
            match r.below(3) { 0 => { o.pop(); } 1 => { if let Some(v) = r.pick(&order) { o.push(*v) } } _ => o.push(absent[0]) }
            if let Some(mut x) = guard(c, "with a wrong ordering", || DegenGraph::with_ordering(&g, o.iter())) {
                walk(c, &mut r, &x, &probe);
                guard(c, "normalize", || black_box(x.normalize().len()));
                walk(c, &mut r, &x, &probe);
            }
            guard(c, "half-consumed", || { let mut it = d.iter(); it.next(); let mut vs = d.vertices(); vs.next(); vs.next(); drop(it); black_box(vs.next().cloned()) });
            guard(c, "derived", || { let w = OrdGraph::with_ordering(&d, order.iter()).to_wreach_graph::<2>(); black_box((w.num_vertices(), d.wreach_sets(2).len(), d.sreach_sets(2).len())) });
            guard(c, "cliques", || black_box(d.count_max_cliques()));
            if let Some(o) = guard(c, "oracle", || SReachTraceOracle::for_graph(&d)) { ask(c, &mut r, &o, &d, &order); }
        }
    }
    c.max("vertices_in_one_graph", m.n() as u64);
    c.eval(m.n() > 0 || case % SCENARIOS == 0, m.h() ^ mix(case as u64));
    c.sample(|| format!("scenario {} {}", case % SCENARIOS, m.show()));
    Ok(())
}
