//! Workload generator: graph families, relabellings, orderings, construction
//! histories.
use crate::model::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};
use graphbench::editgraph::EditGraph;
use graphbench::editdigraph::EditDigraph;
use graphbench::graph::*;

/// A graph on 0..n.
#[derive(Clone, Debug)]
pub struct Abs { pub n: usize, pub e: Vec<(usize, usize)> }

impl Abs {
    fn new(n: usize) -> Abs { Abs { n, e: vec![] } }
    fn simple(mut self) -> Abs {
        let mut s = BTreeSet::new();
        for (u, v) in &self.e { if u != v { s.insert((*u.min(v), *u.max(v))); } }
        self.e = s.into_iter().collect();
        self
    }
}

pub const FAMILIES: usize = 36;

pub fn family(r: &mut Rng, k: usize, n: usize) -> Abs {
    let mut g = Abs::new(n);
    let full = |a: usize, b: usize, e: &mut Vec<(usize, usize)>| for i in a..b { for j in i + 1..b { e.push((i, j)) } };
    match k {
        0 => { let p = r.f() * r.f(); er(r, &mut g, p) }
        1 => { let p = (1.0 + 3.0 * r.f()) / (n.max(1) as f64); er(r, &mut g, p) }
        2 => { let p = 0.3 + 0.4 * r.f(); er(r, &mut g, p) }
        3 => { let p = 0.7 + 0.3 * r.f(); er(r, &mut g, p) }
        4 => for i in 1..n { g.e.push((i - 1, i)) },
        5 => { for i in 1..n { g.e.push((i - 1, i)) } if n > 2 { g.e.push((n - 1, 0)) } }
        6 => for i in 1..n { g.e.push((0, i)) },
        7 => full(0, n, &mut g.e),
        8 => { let s = if n > 1 { r.range(1, n - 1) } else { n }; for i in 0..s { for j in s..n { g.e.push((i, j)) } } }
        9 => { // complete multipartite
            let parts = r.range(2, 6);
            let cl: Vec<usize> = (0..n).map(|_| r.below(parts)).collect();
            for i in 0..n { for j in i + 1..n { if cl[i] != cl[j] { g.e.push((i, j)) } } }
        }
        10 => { // grid
            let w = r.range(1, (n as f64).sqrt() as usize + 2);
            for i in 0..n { if (i + 1) % w != 0 && i + 1 < n { g.e.push((i, i + 1)) } if i + w < n { g.e.push((i, i + w)) } }
        }
        11 => for i in 1..n { g.e.push((r.below(i), i)) },           // random tree
        12 => { // preferential attachment
            let k = r.range(1, 3);
            let mut ends = vec![0usize];
            for i in 1..n { for _ in 0..k { let t = ends[r.below(ends.len())]; g.e.push((t, i)); ends.push(t); } ends.push(i); }
        }
        13 => { let k = r.range(1, 5); for i in 1..n { for _ in 0..k { g.e.push((r.below(i), i)) } } }  // k-degenerate
        14 => { // sparse plus planted cliques
            let p = 1.5 / n.max(1) as f64; er(r, &mut g, p);
            for _ in 0..r.range(1, 3) { let s: Vec<usize> = (0..r.range(2, 7)).map(|_| r.below(n.max(1))).collect();
                if n > 0 { for i in 0..s.len() { for j in i + 1..s.len() { g.e.push((s[i], s[j])) } } } }
        }
        15 => { // split graph
            let s = n / 2; full(0, s, &mut g.e);
            let p = r.f(); for i in s..n { for j in 0..s { if r.chance(p) { g.e.push((i, j)) } } }
        }
        16 => { // disjoint union
            let parts = r.range(2, 4);
            let mut base = 0;
            for i in 0..parts {
                let sz = if i + 1 == parts { n - base } else { r.below(n - base + 1) };
                let f = r.below(16);
                let h = family(r, f, sz);
                for (u, v) in h.e { g.e.push((u + base, v + base)) }
                base += sz;
            }
        }
        17 => { // caterpillar
            let s = (n / 3).max(1); for i in 1..s.min(n) { g.e.push((i - 1, i)) } for i in s..n { g.e.push((r.below(s), i)) }
        }
        18 => { // complement of sparse
            let mut h = Abs::new(n); let p = 2.0 / n.max(1) as f64; er(r, &mut h, p);
            let s: BTreeSet<(usize, usize)> = h.simple().e.into_iter().collect();
            for i in 0..n { for j in i + 1..n { if !s.contains(&(i, j)) { g.e.push((i, j)) } } }
        }
        19 => {} // independent
        20 => { // subdivision of something
            let b = ((n as f64).sqrt() as usize + 2).min(n); let f = r.below(8); let h = family(r, f, b); let mut nx = b;
            for (u, v) in h.e { if nx < n && r.chance(0.8) { g.e.push((u, nx)); g.e.push((nx, v)); nx += 1 } else { g.e.push((u, v)) } }
        }
        21 => { for i in 1..n { g.e.push((0, i)) } for i in 2..n { g.e.push((i - 1, i)) } if n > 3 { g.e.push((n - 1, 1)) } } // wheel
        22 => { for i in 0..n { for b in 0..20 { let j = i ^ (1 << b); if j < n && i < j { g.e.push((i, j)) } } } } // hypercube
        23 => { // circulant
            let k = r.range(1, 3); if n > 0 { for _ in 0..k { let s = r.range(1, n.max(2) - 1); for i in 0..n { g.e.push((i, (i + s) % n)) } } }
        }
        24 => { for i in 0..n { for j in i + 1..n { if !(j == i + 1 && i % 2 == 0) { g.e.push((i, j)) } } } } // cocktail party
        25 => { // double broom
            let s = n / 3; for i in 1..s { g.e.push((i - 1, i)) } for i in s..n { if s > 0 { g.e.push((if r.coin() { 0 } else { s - 1 }, i)) } }
        }
        26 => { // hubs over sparse base
            let p = 1.0 / n.max(1) as f64; er(r, &mut g, p);
            for _ in 0..r.range(1, 3) { if n > 0 { let h = r.below(n); let q = r.f(); for i in 0..n { if r.chance(q) { g.e.push((h, i)) } } } }
        }
        27 => { // disjoint cliques / Moon-Moser complement
            let s = r.range(2, 5); for i in 0..n { for j in i + 1..n { if i / s != j / s { g.e.push((i, j)) } } }
            if r.coin() { g.e.clear(); for i in 0..n { for j in i + 1..n { if i / s == j / s { g.e.push((i, j)) } } } }
        }
        28 => { // long cycle with chords
            for i in 0..n { if n > 2 { g.e.push((i, (i + 1) % n)) } }
            for _ in 0..r.range(0, 3) { if n > 0 { g.e.push((r.below(n), r.below(n))) } }
        }
        29 => { // balanced b-ary tree
            let b = r.range(2, 5); for i in 1..n { g.e.push(((i - 1) / b, i)) }
        }
        30 => { // random k-tree
            let k = r.range(2, 4);
            full(0, n.min(k + 1), &mut g.e);
            let mut bags: Vec<Vec<usize>> = vec![(0..n.min(k + 1)).collect()];
            for i in k + 1..n { let mut b = bags[r.below(bags.len())].clone(); let x = r.below(b.len()); b.swap_remove(x); for j in &b { g.e.push((*j, i)) } b.push(i); bags.push(b); }
        }
        31 => { // blow-up: classes of twins
            let b = r.range(1, 6).min(n.max(1)); let f = r.below(8); let h = family(r, f, b);
            let cl: Vec<usize> = (0..n).map(|i| if i < b { i } else { r.below(b) }).collect();
            let solid: Vec<bool> = (0..b).map(|_| r.coin()).collect();
            for i in 0..n { for j in i + 1..n { if cl[i] == cl[j] { if solid[cl[i]] { g.e.push((i, j)) } } else if h.e.contains(&(cl[i], cl[j])) || h.e.contains(&(cl[j], cl[i])) { g.e.push((i, j)) } } }
        }
        32 => { // power of a path or cycle
            let k = r.range(2, 4); let cyc = r.coin();
            for i in 0..n { for d in 1..=k { if i + d < n { g.e.push((i, i + d)) } else if cyc && n > 2 * k { g.e.push((i, (i + d) % n)) } } }
        }
        33 => { // spider: legs of different lengths from one centre
            let legs = r.range(2, 6); for i in 1..n { g.e.push((if i <= legs { 0 } else { i - legs }, i)) }
        }
        34 => { // cliques strung together by paths
            let s = r.range(3, 6); let l = r.range(1, 4); let mut i = 0;
            while i < n { let j = (i + s).min(n); full(i, j, &mut g.e); let mut k = j; while k < n && k < j + l { g.e.push((k - 1, k)); k += 1; } if k < n { g.e.push((k - 1, k)); } i = k; }
        }
        _ => { // interval-like band graph
            let k = r.range(1, 5); for i in 0..n { for d in 1..=k { if i + d < n && r.chance(0.8) { g.e.push((i, i + d)) } } }
        }
    }
    let mut g = g.simple();
    // local perturbation
    if n > 1 && r.chance(0.3) {
        for _ in 0..r.range(1, 3) {
            if r.coin() && !g.e.is_empty() { let i = r.below(g.e.len()); g.e.swap_remove(i); }
            else { let (a, b) = (r.below(n), r.below(n)); g.e.push((a, b)); }
        }
        g = g.simple();
    }
    g
}

fn er(r: &mut Rng, g: &mut Abs, p: f64) {
    for i in 0..g.n { for j in i + 1..g.n { if r.chance(p) { g.e.push((i, j)) } } }
}

/// vertex labels for 0..n; `cap` bounds the largest label.
pub fn labels(r: &mut Rng, n: usize, cap: u32) -> Vec<V> {
    let mut s: Vec<V> = match r.below(12) {
        0 | 1 => (0..n as u32).collect(),
        2 => { let o = r.u32() % (cap - n as u32); (o..o + n as u32).collect() }
        3 => { let k = r.below(5) as u32; let o = r.below(3) as u32; (0..n as u32).map(|i| (i << k) + o).collect() }
        4 => { // high bits only
            let k = [8u32, 16, 20, 24][r.below(4)];
            let k = if ((n as u64) << k) < cap as u64 { k } else { 2 };
            (0..n as u32).map(|i| i << k).collect() }
        5 => { // extremes
            let mut b: BTreeSet<V> = BTreeSet::new();
            for x in [0u32, 1, cap, cap - 1, 1 << 31, (1 << 31) - 1, 1 << 16, (1 << 16) - 1, (1 << 16) + 1, 255, 256, 127, 128, 129] { if x <= cap { b.insert(x); } }
            while b.len() < n { let x = r.u32(); b.insert(if cap == u32::MAX { x } else { x % (cap + 1) }); }
            let mut v: Vec<V> = b.into_iter().collect(); r.shuffle(&mut v); v.truncate(n); v }
        6 => (0..n as u32).map(|i| cap - i).collect(),
        7 => { let o = (1u32 << 16) - (n as u32) / 2; (o..o + n as u32).collect() }
        8 => { // small dense range with gaps
            let mut b = BTreeSet::new(); while b.len() < n { b.insert(r.below(2 * n + 3) as u32); } b.into_iter().collect() }
        _ => { let mut b = BTreeSet::new(); while b.len() < n { let x = r.u32(); b.insert(if cap == u32::MAX { x } else { x % (cap + 1) }); } b.into_iter().collect() }
    };
    if r.chance(0.7) { r.shuffle(&mut s) }
    s
}

#[derive(Clone, Copy)]
pub struct Opt { pub max_n: usize, pub loops: f64, pub cap: u32, pub isolates: f64 }
pub const SIMPLE: Opt = Opt { max_n: 14, loops: 0.0, cap: u32::MAX, isolates: 0.25 };
pub fn simple(max_n: usize) -> Opt { Opt { max_n, ..SIMPLE } }
pub fn loopy(max_n: usize) -> Opt { Opt { max_n, loops: 0.4, ..SIMPLE } }

pub fn to_model(r: &mut Rng, g: &Abs, o: &Opt) -> Model {
    let l = labels(r, g.n, o.cap);
    let mut m = Model::new();
    for v in &l { m.add_vertex(*v); }
    for (u, v) in &g.e { m.add_edge(l[*u], l[*v]); }
    if o.loops > 0.0 && r.chance(o.loops) {
        let p = r.f();
        for v in &l { if r.chance(p) { m.add_edge(*v, *v); } }
    }
    m
}

pub fn size(r: &mut Rng, max_n: usize) -> usize {
    match r.below(10) { 0 => r.range(0, 3.min(max_n)), 1..=4 => r.range(1, (max_n / 2).max(1)), _ => r.range(1, max_n) }
}

pub fn random_abs(r: &mut Rng, max_n: usize, isolates: f64) -> Abs {
    let n = size(r, max_n);
    let k = r.below(FAMILIES);
    let mut g = family(r, k, n);
    if g.n > 0 && r.chance(isolates) { g.n += r.range(1, 3) }
    // hide the construction order
    if r.chance(0.7) {
        let mut p: Vec<usize> = (0..g.n).collect();
        r.shuffle(&mut p);
        for e in g.e.iter_mut() { *e = (p[e.0], p[e.1]) }
    }
    g
}

pub fn random_model(r: &mut Rng, o: &Opt) -> Model {
    let g = random_abs(r, o.max_n, o.isolates);
    to_model(r, &g, o)
}

/// the `code`-th labelled graph on n vertices
pub fn nth_graph(n: usize, code: u64) -> Abs {
    let mut g = Abs::new(n);
    let mut b = 0;
    for i in 0..n { for j in i + 1..n { if code >> b & 1 == 1 { g.e.push((i, j)) } b += 1; } }
    g
}
/// (n, code) of the i-th labelled graph in order of size, n = 0, 1, 2, ...
pub fn exhaustive(mut i: u64, max_n: usize) -> Option<Abs> {
    for n in 0..=max_n {
        let c = 1u64 << (n * n.saturating_sub(1) / 2);
        if i < c { return Some(nth_graph(n, i)) }
        i -= c;
    }
    None
}
pub fn exhaustive_count(max_n: usize) -> u64 { (0..=max_n).map(|n| 1u64 << (n * (n as u64 as usize).saturating_sub(1) / 2)).sum() }

pub fn random_order(r: &mut Rng, m: &Model) -> Vec<V> {
    let mut o = m.verts();
    match r.below(6) {
        0 => {}
        1 => o.reverse(),
        2 => o.sort_by_key(|u| m.degree(*u)),
        3 => { o.sort_by_key(|u| m.degree(*u)); o.reverse() }
        _ => r.shuffle(&mut o),
    }
    o
}

/// Build an EditGraph equal to `m` through one of several histories.
pub fn build(r: &mut Rng, m: &Model) -> EditGraph {
    let mut es = m.edges();
    let mut vs = m.verts();
    r.shuffle(&mut es);
    r.shuffle(&mut vs);
    for e in es.iter_mut() { if r.coin() { *e = (e.1, e.0) } }
    match r.below(6) {
        0 => { let mut g: EditGraph = es.iter().cloned().collect(); for v in &vs { g.add_vertex(v); } g }
        1 => { let mut g = EditGraph::with_capacity(r.below(2 * vs.len() + 2)); g.add_vertices(vs.iter()); g.add_edges(es.iter()); g }
        2 => { let mut g = EditGraph::new(); g.add_edges(es); g.add_vertices(vs); g.clone() }
        3 | 4 => { // detour: extra vertices and edges that are removed again
            let mut g = EditGraph::new();
            let mut ops: Vec<(V, V)> = es.clone();
            let mut extra_v = BTreeSet::new();
            let mut extra_e = vec![];
            for _ in 0..r.range(1, 6) { let x = r.u32(); if !m.has(x) { extra_v.insert(x); } }
            let ev: Vec<V> = extra_v.iter().cloned().collect();
            for _ in 0..r.range(1, 8) {
                let a = if r.coin() { r.pick(&ev).cloned() } else { r.pick(&vs).cloned() };
                let b = if r.coin() { r.pick(&ev).cloned() } else { r.pick(&vs).cloned() };
                if let (Some(a), Some(b)) = (a, b) { if !m.adjacent(a, b) { extra_e.push((a, b)); ops.push((a, b)) } }
            }
            r.shuffle(&mut ops);
            for (u, v) in &ops { g.add_edge(u, v); }
            for v in &vs { g.add_vertex(v); }
            for (u, v) in &extra_e { g.remove_edge(u, v); }
            for x in &ev { g.remove_vertex(x); }
            if r.coin() { // drop and restore one vertex
                if let Some(v) = r.pick(&vs) {
                    g.remove_vertex(v);
                    g.add_vertex(v);
                    for w in m.nbrs(*v) { g.add_edge(&w, v); }
                }
            }
            g
        }
        _ => { let mut g = EditGraph::new(); for v in &vs { g.add_vertex(v); } for (u, v) in &es { g.add_edge(u, v); } g }
    }
}

pub fn random_dimodel(r: &mut Rng, max_n: usize, loops: f64, cap: u32) -> DiModel {
    let m = random_model(r, &Opt { max_n, loops, cap, isolates: 0.25 });
    let mut d = DiModel::new();
    for v in m.verts() { d.add_vertex(v); }
    let both = r.f() * 0.5;
    let dir = r.below(3);
    for (u, v) in m.edges() {
        let (a, b) = match dir { 0 => (u, v), 1 => (v, u), _ => if r.coin() { (u, v) } else { (v, u) } };
        d.add_arc(a, b);
        if r.chance(both) { d.add_arc(b, a); }
    }
    d
}

pub fn build_di(r: &mut Rng, m: &DiModel) -> EditDigraph {
    let mut es = m.arcs();
    let mut vs = m.verts();
    r.shuffle(&mut es);
    r.shuffle(&mut vs);
    match r.below(5) {
        0 => { let mut g: EditDigraph = es.iter().cloned().collect(); for v in &vs { g.add_vertex(v); } g }
        1 => { let mut g = EditDigraph::with_capacity(r.below(2 * vs.len() + 2)); g.add_vertices(vs.iter()); g.add_arcs(es.iter()); g }
        2 => { let mut g = EditDigraph::new(); g.add_arcs(es); g.add_vertices(vs); g.clone() }
        3 => {
            let mut g = EditDigraph::new();
            let mut extra = vec![];
            for (u, v) in &es {
                g.add_arc(u, v);
                if r.chance(0.3) && !m.has_arc(*v, *u) { g.add_arc(v, u); extra.push((*v, *u)) }
            }
            for v in &vs { g.add_vertex(v); }
            for (u, v) in extra { g.remove_arc(&u, &v); }
            if let Some(v) = r.pick(&vs) {
                g.remove_vertex(v);
                g.add_vertex(v);
                for w in m.outs(*v) { g.add_arc(v, &w); }
                for w in m.ins(*v) { g.add_arc(&w, v); }
            }
            g
        }
        _ => { let mut g = EditDigraph::new(); for v in &vs { g.add_vertex(v); } for (u, v) in &es { g.add_arc(u, v); } g }
    }
}

/// labels not in the model, for negative queries
pub fn absent(r: &mut Rng, m: &Model) -> Vec<V> {
    let mut s = BTreeSet::new();
    for v in m.adj.keys().take(3).chain(m.adj.keys().rev().take(2)) {
        for d in [v.wrapping_add(1), v.wrapping_sub(1), v ^ (1 << 16), v ^ (1 << 31)] { if !m.has(d) { s.insert(d); } }
    }
    for _ in 0..2 { let x = r.u32(); if !m.has(x) { s.insert(x); } }
    for x in [0, u32::MAX] { if !m.has(x) { s.insert(x); } }
    s.into_iter().take(6).collect()
}

#[allow(dead_code)]
pub fn count_map<T: Ord>(it: impl Iterator<Item = T>) -> BTreeMap<T, usize> {
    let mut m = BTreeMap::new();
    for x in it { *m.entry(x).or_insert(0) += 1 }
    m
}
