//! Reference models: plain sets, plain breadth-first search, plain peeling.
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};

pub type V = u32;
pub const INF: u32 = u32::MAX;

/// Undirected graph with optional loops, as plain sets.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Model { pub adj: BTreeMap<V, BTreeSet<V>> }

impl Model {
    pub fn new() -> Model { Model::default() }
    pub fn from_parts(vs: &[V], es: &[(V, V)]) -> Model {
        let mut m = Model::new();
        for v in vs { m.add_vertex(*v); }
        for (u, v) in es { m.add_edge(*u, *v); }
        m
    }
    pub fn n(&self) -> usize { self.adj.len() }
    pub fn m(&self) -> usize {
        let mut c = 0;
        for (u, n) in &self.adj { for v in n { if u <= v { c += 1 } } }
        c
    }
    pub fn has(&self, u: V) -> bool { self.adj.contains_key(&u) }
    pub fn adjacent(&self, u: V, v: V) -> bool { self.adj.get(&u).map_or(false, |n| n.contains(&v)) }
    pub fn verts(&self) -> Vec<V> { self.adj.keys().cloned().collect() }
    pub fn edges(&self) -> Vec<(V, V)> {
        let mut r = vec![];
        for (u, n) in &self.adj { for v in n.range(*u..) { r.push((*u, *v)) } }
        r
    }
    pub fn degree(&self, u: V) -> u32 {
        match self.adj.get(&u) {
            None => 0,
            Some(n) => n.len() as u32 + if n.contains(&u) { 1 } else { 0 },
        }
    }
    pub fn nbrs(&self, u: V) -> BTreeSet<V> { self.adj.get(&u).cloned().unwrap_or_default() }
    pub fn add_vertex(&mut self, u: V) -> bool {
        if self.adj.contains_key(&u) { false } else { self.adj.insert(u, BTreeSet::new()); true }
    }
    pub fn remove_vertex(&mut self, u: V) -> bool {
        match self.adj.remove(&u) {
            None => false,
            Some(n) => {
                for v in n { if let Some(s) = self.adj.get_mut(&v) { s.remove(&u); } }
                true
            }
        }
    }
    pub fn add_edge(&mut self, u: V, v: V) -> bool {
        self.add_vertex(u);
        self.add_vertex(v);
        let a = self.adj.get_mut(&u).map_or(false, |s| s.insert(v));
        if let Some(s) = self.adj.get_mut(&v) { s.insert(u); }
        a
    }
    pub fn remove_edge(&mut self, u: V, v: V) -> bool {
        if !self.adjacent(u, v) { return false }
        if let Some(s) = self.adj.get_mut(&u) { s.remove(&v); }
        if let Some(s) = self.adj.get_mut(&v) { s.remove(&u); }
        true
    }
    pub fn remove_loops(&mut self) -> usize {
        let c: Vec<V> = self.adj.iter().filter(|(u, n)| n.contains(u)).map(|(u, _)| *u).collect();
        for u in &c { self.remove_edge(*u, *u); }
        c.len()
    }
    pub fn remove_isolates(&mut self) -> usize {
        let c: Vec<V> = self.adj.iter().filter(|(_, n)| n.is_empty()).map(|(u, _)| *u).collect();
        for u in &c { self.remove_vertex(*u); }
        c.len()
    }
    pub fn induced(&self, s: &BTreeSet<V>) -> Model {
        let mut r = Model::new();
        for u in s {
            if let Some(n) = self.adj.get(u) {
                r.adj.insert(*u, n.intersection(s).cloned().collect());
            }
        }
        r
    }
    pub fn has_loops(&self) -> bool { self.adj.iter().any(|(u, n)| n.contains(u)) }
    pub fn max_label(&self) -> Option<V> { self.adj.keys().next_back().cloned() }
    pub fn idx(&self) -> Idx { Idx::new(self) }
    pub fn show(&self) -> String {
        let iso: Vec<V> = self.adj.iter().filter(|(_, n)| n.is_empty()).map(|(u, _)| *u).collect();
        let mut e = self.edges();
        let m = e.len();
        let cut = e.len() > 400;
        e.truncate(400);
        format!("n={} m={} edges={:?}{} isolated={:?}", self.n(), m, e, if cut { " (cut)" } else { "" },
            if iso.len() > 60 { &iso[..60] } else { &iso[..] })
    }
    pub fn h(&self) -> u64 {
        let mut h = crate::rng::mix(self.n() as u64);
        for (u, n) in &self.adj {
            h = crate::rng::mix(h ^ *u as u64);
            for v in n.range(*u..) { h = crate::rng::mix(h.rotate_left(7) ^ ((*v as u64) << 20)); }
        }
        h
    }
}

/// Directed graph as a set of arcs.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct DiModel { pub out: BTreeMap<V, BTreeSet<V>>, pub inn: BTreeMap<V, BTreeSet<V>> }

impl DiModel {
    pub fn new() -> DiModel { DiModel::default() }
    pub fn n(&self) -> usize { self.out.len() }
    pub fn m(&self) -> usize { self.out.values().map(|s| s.len()).sum() }
    pub fn has(&self, u: V) -> bool { self.out.contains_key(&u) }
    pub fn has_arc(&self, u: V, v: V) -> bool { self.out.get(&u).map_or(false, |s| s.contains(&v)) }
    pub fn verts(&self) -> Vec<V> { self.out.keys().cloned().collect() }
    pub fn arcs(&self) -> Vec<(V, V)> {
        let mut r = vec![];
        for (u, n) in &self.out { for v in n { r.push((*u, *v)) } }
        r
    }
    pub fn add_vertex(&mut self, u: V) -> bool {
        if self.has(u) { return false }
        self.out.insert(u, BTreeSet::new());
        self.inn.insert(u, BTreeSet::new());
        true
    }
    pub fn add_arc(&mut self, u: V, v: V) -> bool {
        self.add_vertex(u);
        self.add_vertex(v);
        let a = self.out.entry(u).or_default().insert(v);
        self.inn.entry(v).or_default().insert(u);
        a
    }
    pub fn remove_arc(&mut self, u: V, v: V) -> bool {
        if !self.has_arc(u, v) { return false }
        self.out.entry(u).or_default().remove(&v);
        self.inn.entry(v).or_default().remove(&u);
        true
    }
    pub fn remove_vertex(&mut self, u: V) -> bool {
        if !self.has(u) { return false }
        let o = self.out.remove(&u).unwrap_or_default();
        let i = self.inn.remove(&u).unwrap_or_default();
        for v in o { if let Some(s) = self.inn.get_mut(&v) { s.remove(&u); } }
        for v in i { if let Some(s) = self.out.get_mut(&v) { s.remove(&u); } }
        true
    }
    pub fn remove_loops(&mut self) -> usize {
        let c: Vec<V> = self.out.iter().filter(|(u, n)| n.contains(u)).map(|(u, _)| *u).collect();
        for u in &c { self.remove_arc(*u, *u); }
        c.len()
    }
    pub fn remove_isolates(&mut self) -> usize {
        let c: Vec<V> = self.verts().into_iter()
            .filter(|u| self.outs(*u).is_empty() && self.ins(*u).is_empty()).collect();
        for u in &c { self.remove_vertex(*u); }
        c.len()
    }
    pub fn outs(&self, u: V) -> BTreeSet<V> { self.out.get(&u).cloned().unwrap_or_default() }
    pub fn ins(&self, u: V) -> BTreeSet<V> { self.inn.get(&u).cloned().unwrap_or_default() }
    pub fn undirected(&self) -> Model {
        let mut r = Model::new();
        for u in self.verts() { r.add_vertex(u); }
        for (u, v) in self.arcs() { r.add_edge(u, v); }
        r
    }
    pub fn show(&self) -> String {
        let mut a = self.arcs();
        a.truncate(300);
        let mut v = self.verts();
        v.truncate(300);
        format!("n={} m={} vertices={:?} arcs={:?}", self.n(), self.m(), v, a)
    }
    pub fn h(&self) -> u64 {
        let mut h = crate::rng::mix(self.n() as u64 ^ 0xD1);
        for (u, n) in &self.out {
            h = crate::rng::mix(h ^ *u as u64);
            for v in n { h = crate::rng::mix(h.rotate_left(9) ^ ((*v as u64) << 18)); }
        }
        h
    }
}

/// Index form of a model, for searches.
pub struct Idx { pub labels: Vec<V>, pub pos: HashMap<V, usize>, pub adj: Vec<Vec<usize>> }

impl Idx {
    pub fn new(m: &Model) -> Idx {
        let labels = m.verts();
        Idx::with_order(m, &labels)
    }
    /// positions follow the given order
    pub fn with_order(m: &Model, order: &[V]) -> Idx {
        let labels: Vec<V> = order.to_vec();
        let pos: HashMap<V, usize> = labels.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        let adj = labels.iter().map(|v| {
            let mut a: Vec<usize> = m.adj.get(v).map(|n| n.iter().filter_map(|x| pos.get(x).cloned()).collect()).unwrap_or_default();
            a.sort_unstable();
            a
        }).collect();
        Idx { labels, pos, adj }
    }
    pub fn n(&self) -> usize { self.labels.len() }
    pub fn bfs(&self, src: &[usize]) -> Vec<u32> { self.bfs_where(src, |_| true) }
    /// distances from the sources, entering only vertices accepted by `ok`
    pub fn bfs_where<F: Fn(usize) -> bool>(&self, src: &[usize], ok: F) -> Vec<u32> {
        let mut d = vec![INF; self.n()];
        let mut q = VecDeque::new();
        for s in src { if d[*s] == INF { d[*s] = 0; q.push_back(*s); } }
        while let Some(u) = q.pop_front() {
            for &w in &self.adj[u] {
                if d[w] == INF && ok(w) { d[w] = d[u] + 1; q.push_back(w); }
            }
        }
        d
    }
    pub fn all_dist(&self) -> Vec<Vec<u32>> { (0..self.n()).map(|i| self.bfs(&[i])).collect() }
    pub fn components(&self) -> Vec<usize> {
        let mut c = vec![usize::MAX; self.n()];
        let mut k = 0;
        for s in 0..self.n() {
            if c[s] != usize::MAX { continue }
            let mut st = vec![s];
            c[s] = k;
            while let Some(u) = st.pop() { for &w in &self.adj[u] { if c[w] == usize::MAX { c[w] = k; st.push(w) } } }
            k += 1;
        }
        c
    }
    pub fn bipartite(&self) -> bool {
        let mut c = vec![2u8; self.n()];
        for s in 0..self.n() {
            if c[s] != 2 { continue }
            c[s] = 0;
            let mut st = vec![s];
            while let Some(u) = st.pop() {
                for &w in &self.adj[u] {
                    if c[w] == 2 { c[w] = 1 - c[u]; st.push(w) } else if c[w] == c[u] { return false }
                }
            }
        }
        true
    }
    /// true core numbers by repeated minimum-degree removal (simple graphs)
    pub fn cores(&self) -> (u32, Vec<u32>) {
        let n = self.n();
        let mut deg: Vec<usize> = self.adj.iter().map(|a| a.len()).collect();
        let maxd = deg.iter().cloned().max().unwrap_or(0);
        let mut buckets: Vec<Vec<usize>> = vec![vec![]; maxd + 1];
        for v in 0..n { buckets[deg[v]].push(v) }
        let mut gone = vec![false; n];
        let mut core = vec![0u32; n];
        let mut k = 0;
        let mut d = 0;
        let mut left = n;
        while left > 0 {
            while d <= maxd && buckets[d].is_empty() { d += 1 }
            if d > maxd { break }
            let v = match buckets[d].pop() { Some(v) => v, None => break };
            if gone[v] || deg[v] != d { continue }
            k = k.max(d);
            core[v] = k as u32;
            gone[v] = true;
            left -= 1;
            for &w in &self.adj[v] {
                if !gone[w] { deg[w] -= 1; buckets[deg[w]].push(w); if deg[w] < d { d = deg[w] } }
            }
        }
        (k as u32, core)
    }
    /// number of maximal cliques (simple graphs), plain Bron-Kerbosch with pivoting
    /// None if the search would take more than `budget` steps
    pub fn max_cliques(&self, mut budget: u64) -> Option<u64> {
        let n = self.n();
        let words = (n + 63) / 64;
        let mut nb = vec![vec![0u64; words]; n];
        for u in 0..n { for &w in &self.adj[u] { if w != u { nb[u][w / 64] |= 1 << (w % 64) } } }
        let mut all = vec![0u64; words];
        for u in 0..n { all[u / 64] |= 1 << (u % 64) }
        if n == 0 { return Some(0) }
        fn rec(nb: &Vec<Vec<u64>>, mut p: Vec<u64>, mut x: Vec<u64>, budget: &mut u64) -> u64 {
            if *budget == 0 { return 0 }
            *budget -= 1;
            if p.iter().all(|w| *w == 0) { return if x.iter().all(|w| *w == 0) { 1 } else { 0 } }
            let n = nb.len();
            let mut best = (0u32, usize::MAX);
            for u in 0..n {
                if (p[u / 64] | x[u / 64]) >> (u % 64) & 1 == 1 {
                    let c: u32 = p.iter().zip(&nb[u]).map(|(a, b)| (a & b).count_ones()).sum();
                    if best.1 == usize::MAX || c > best.0 { best = (c, u) }
                }
            }
            let piv = best.1;
            let mut r = 0;
            for v in 0..n {
                if p[v / 64] >> (v % 64) & 1 == 1 && (nb[piv][v / 64] >> (v % 64)) & 1 == 0 {
                    let np = p.iter().zip(&nb[v]).map(|(a, b)| a & b).collect();
                    let nx = x.iter().zip(&nb[v]).map(|(a, b)| a & b).collect();
                    r += rec(nb, np, nx, budget);
                    p[v / 64] &= !(1 << (v % 64));
                    x[v / 64] |= 1 << (v % 64);
                }
            }
            r
        }
        let k = rec(&nb, all, vec![0u64; words], &mut budget);
        if budget == 0 { None } else { Some(k) }
    }
}
