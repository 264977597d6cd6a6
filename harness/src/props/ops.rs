//! C09-C13: set operations, subdivision, products, comparison, colourings.
use super::Prop;
use crate::ctx::*;
use crate::gen::{self, Opt};
use crate::model::*;
use crate::refgraph::*;
use crate::rng::{mix, Rng};
use crate::views::*;
use crate::{ensure, fail};
use graphbench::compare::*;
use graphbench::degengraph::DegenGraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::iterators::*;
use graphbench::operations::*;
use graphbench::ordgraph::OrdGraph;
use std::collections::{BTreeMap, BTreeSet};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C09", quick: 72000, thorough: 4320000, run: c09,
        rule: "invert/merge/intersect on overlapping random graphs in every representation, result and operands compared with set algebra; non-trivial = result with an edge" });
    v.push(Prop { id: "C10", quick: 45000, thorough: 2700000, run: c10,
        rule: "subdivide(0..7) of random simple graphs, result decomposed into inner paths; non-trivial = at least one edge and k>=1" });
    v.push(Prop { id: "C11", quick: 48000, thorough: 2880000, run: c11,
        rule: "Cartesian and lexicographic products of pairs of simple graphs, adjacency of all pairs of product vertices compared with the definition; non-trivial = both factors have an edge" });
    v.push(Prop { id: "C12", quick: 216000, thorough: 12960000, run: c12,
        rule: "pairs of graphs that are equal / one edit apart / sub- and supergraph / crossing, both operand orders, several representations; non-trivial = both graphs share an edge" });
    v.push(Prop { id: "C13", quick: 576000, thorough: 34560000, run: c13,
        rule: "random vertex maps and colourings over u8/u32/u64/i32/bool values, and all intersections of vertices/edges over a 4-vertex pool; non-trivial = at least two value classes" });
}

fn overlapping(r: &mut Rng, loops: f64, maxn: usize) -> (Model, Model) {
    let a = gen::random_model(r, &Opt { max_n: maxn, loops, ..gen::SIMPLE });
    let mut b = gen::random_model(r, &Opt { max_n: maxn, loops, ..gen::SIMPLE });
    match r.below(4) {
        0 => {}
        1 => { // perturbed copy
            b = a.clone();
            perturb(r, &mut b, 3);
        }
        2 => { // same ground set, independent edges
            let n = a.n();
            let vs = a.verts();
            b = Model::new();
            let mut abs = gen::random_abs(r, n.max(1), 0.0);
            abs.e.retain(|e| e.0 < n && e.1 < n);
            for v in vs.iter().take(abs.n) { b.add_vertex(*v); }
            for (x, y) in abs.e { b.add_edge(vs[x], vs[y]); }
        }
        _ => { // shared part
            for (u, v) in a.edges() { if r.chance(0.4) { b.add_edge(u, v); } }
            for u in a.verts() { if r.chance(0.2) { b.add_vertex(u); } }
        }
    }
    (a, b)
}

fn perturb(r: &mut Rng, m: &mut Model, k: usize) {
    for _ in 0..r.below(k + 1) {
        let vs = m.verts();
        let es = m.edges();
        match r.below(4) {
            0 => { if let Some(e) = r.pick(&es) { m.remove_edge(e.0, e.1); } }
            1 => { if let (Some(u), Some(v)) = (r.pick(&vs), r.pick(&vs)) { if u != v { m.add_edge(*u, *v); } } }
            2 => { let x = r.u32(); m.add_vertex(x); }
            _ => { if let Some(v) = r.pick(&vs) { m.remove_vertex(*v); } }
        }
    }
}

fn complement(m: &Model) -> Model {
    let vs = m.verts();
    let mut r = Model::new();
    for v in &vs { r.add_vertex(*v); }
    for (i, u) in vs.iter().enumerate() { for v in &vs[..i] { if !m.adjacent(*u, *v) { r.add_edge(*u, *v); } } }
    r
}
fn union(a: &Model, b: &Model) -> Model {
    let mut r = a.clone();
    for v in b.verts() { r.add_vertex(v); }
    for (u, v) in b.edges() { r.add_edge(u, v); }
    r
}
fn inter(a: &Model, b: &Model) -> Model {
    let mut r = Model::new();
    for v in a.verts() { if b.has(v) { r.add_vertex(v); } }
    for (u, v) in a.edges() { if b.adjacent(u, v) { r.add_edge(u, v); } }
    r
}

pub(super) fn setops<G: Graph>(what: &str, r: &mut Rng, g: &G, h: &G, a: &Model, b: &Model) -> R {
    let x = |s: &str, e: String| format!("{what} {s}: {e}");
    graph_view(r, &g.merge(h), &union(a, b), Nb::Yes).map_err(|e| x("merge", e))?;
    graph_view(r, &g.intersect(h), &inter(a, b), Nb::Yes).map_err(|e| x("intersect", e))?;
    if !a.has_loops() {
        let inv = g.invert();
        graph_view(r, &inv, &complement(a), Nb::Yes).map_err(|e| x("invert", e))?;
        graph_view(r, &inv.invert(), a, Nb::Yes).map_err(|e| x("invert twice", e))?;
    }
    graph_view(r, g, a, Nb::Yes).map_err(|e| x("first operand afterwards", e))?;
    graph_view(r, h, b, Nb::Yes).map_err(|e| x("second operand afterwards", e))
}

fn c09(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let lp = if r.coin() { 0.0 } else { 0.4 };
    let (a, b) = overlapping(&mut r, lp, if case % 400 == 7 { 120 } else { 13 });
    c.input(format!("A {} B {}", a.show(), b.show()));
    let (g, h) = (gen::build(&mut r, &a), gen::build(&mut r, &b));
    setops("EditGraph", &mut r, &g, &h, &a, &b)?;
    let (rg, rh) = (RefGraph::new(&mut r, &a), RefGraph::new(&mut r, &b));
    setops("foreign graph", &mut r, &rg, &rh, &a, &b)?;
    if !a.has_loops() && !b.has_loops() {
        let (oa, ob) = (gen::random_order(&mut r, &a), gen::random_order(&mut r, &b));
        setops("OrdGraph", &mut r, &OrdGraph::with_ordering(&g, oa.iter()), &OrdGraph::with_ordering(&h, ob.iter()), &a, &b)?;
        setops("DegenGraph", &mut r, &DegenGraph::with_ordering(&g, oa.iter()), &DegenGraph::with_ordering(&h, ob.iter()), &a, &b)?;
    }
    c.bump("operations judged", 12);
    c.eval(inter(&a, &b).m() > 0 || union(&a, &b).m() > 0, mix(a.h() ^ b.h().rotate_left(11)));
    c.sample(|| format!("A {} B {}", a.show(), b.show()));
    Ok(())
}

pub(super) fn read<G: Graph>(g: &G) -> Model {
    let mut m = Model::new();
    for v in g.vertices() { m.add_vertex(*v); }
    for (u, v) in g.edges() { m.add_edge(u, v); }
    m
}

pub(super) fn subdivided(h: &Model, m: &Model, k: u32) -> R {
    let new: BTreeSet<V> = h.verts().into_iter().filter(|v| !m.has(*v)).collect();
    for v in m.verts() { ensure!(h.has(v), "original vertex {v} is gone"); }
    ensure!(new.len() == m.m() * k as usize, "{} new vertices instead of {}", new.len(), m.m() * k as usize);
    ensure!(h.m() == m.m() * (k as usize + 1), "{} edges instead of {}", h.m(), m.m() * (k as usize + 1));
    for x in &new { ensure!(h.nbrs(*x).len() == 2 && !h.adjacent(*x, *x), "new vertex {x} has neighbours {:?}", h.nbrs(*x)); }
    let mut found: BTreeSet<(V, V)> = BTreeSet::new();
    for u in m.verts() {
        for first in h.nbrs(u) {
            let (mut prev, mut cur, mut inner) = (u, first, 0u32);
            while new.contains(&cur) && inner <= k {
                inner += 1;
                let nx = h.nbrs(cur).into_iter().find(|y| *y != prev);
                match nx { Some(y) => { prev = cur; cur = y } None => fail!("path from {u} over {first} ends at new vertex {cur}") }
            }
            ensure!(inner == k, "path from {u} over {first} has {inner} inner vertices instead of {k}");
            ensure!(m.adjacent(u, cur), "path joins {u} and {cur}, which are not adjacent in the original");
            if u < cur { ensure!(found.insert((u, cur)), "edge ({u},{cur}) is replaced by two paths"); }
        }
    }
    ensure!(found.len() == m.m(), "{} edges replaced instead of {}", found.len(), m.m());
    Ok(())
}

fn c10(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let k = match r.below(8) { 0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => r.range(10, 40) as u32, x => x as u32 };
    let cap = [1u32 << 30, 400, 70_000][r.below(3)];
    let m = gen::random_model(&mut r, &Opt { max_n: if case % 500 == 3 { 150 } else { 13 }, cap, ..gen::SIMPLE });
    c.input(format!("subdivide({k}) of {}", m.show()));
    let g = gen::build(&mut r, &m);
    let h = g.subdivide(k);
    let hm = read(&h);
    graph_view(&mut r, &h, &hm, Nb::Yes)?;
    if k == 0 { ensure!(hm == m, "subdividing zero times changed the graph"); }
    subdivided(&hm, &m, k)?;
    graph_view(&mut r, &g, &m, Nb::Yes).map_err(|e| format!("operand afterwards: {e}"))?;
    let rg = RefGraph::new(&mut r, &m);
    subdivided(&read(&rg.subdivide(k)), &m, k).map_err(|e| format!("foreign graph: {e}"))?;
    let o = gen::random_order(&mut r, &m);
    subdivided(&read(&OrdGraph::with_ordering(&g, o.iter()).subdivide(k)), &m, k).map_err(|e| format!("OrdGraph: {e}"))?;
    c.bump("paths traced", 3 * m.m() as u64);
    c.eval(m.m() > 0 && k > 0, mix(m.h() ^ k as u64));
    c.sample(|| format!("subdivide({k}) of {}", m.show()));
    Ok(())
}

fn product(what: &str, r: &mut Rng, p: &EditGraph, map: &VertexMap<(V, V)>, a: &Model, b: &Model, lex: bool) -> R {
    let mut pairs = BTreeSet::new();
    for (x, (u, v)) in map.iter() {
        ensure!(a.has(*u) && b.has(*v), "{what}: map sends {x} to the non-pair ({u},{v})");
        ensure!(pairs.insert((*u, *v)), "{what}: pair ({u},{v}) stands for two product vertices");
    }
    ensure!(pairs.len() == a.n() * b.n(), "{what}: map covers {} of {} pairs", pairs.len(), a.n() * b.n());
    let mut want = Model::new();
    for x in map.keys() { want.add_vertex(*x); }
    let xs: Vec<(V, (V, V))> = map.iter().map(|(x, p)| (*x, *p)).collect();
    for (i, (x, (u, v))) in xs.iter().enumerate() {
        for (y, (s, t)) in &xs[..i] {
            let e = if lex { b.adjacent(*v, *t) || (v == t && a.adjacent(*u, *s)) }
                else { (u == s && b.adjacent(*v, *t)) || (v == t && a.adjacent(*u, *s)) };
            if e { want.add_edge(*x, *y); }
        }
    }
    graph_view(r, p, &want, Nb::Yes).map_err(|e| format!("{what}: {e}"))
}

fn c11(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let mx = if case % 300 == 3 { 22 } else { 6 };
    let a = gen::random_model(&mut r, &gen::simple(mx));
    let b = gen::random_model(&mut r, &gen::simple(mx));
    c.input(format!("products of A {} B {}", a.show(), b.show()));
    let (g, h) = (gen::build(&mut r, &a), gen::build(&mut r, &b));
    let (p, map) = g.cartesian_product(&h);
    product("cartesian_product", &mut r, &p, &map, &a, &b, false)?;
    let (p, map) = g.lexicographic_product(&h);
    product("lexicographic_product", &mut r, &p, &map, &a, &b, true)?;
    graph_view(&mut r, &g, &a, Nb::Yes).map_err(|e| format!("first operand afterwards: {e}"))?;
    graph_view(&mut r, &h, &b, Nb::Yes).map_err(|e| format!("second operand afterwards: {e}"))?;
    let (g, h) = (RefGraph::new(&mut r, &a), RefGraph::new(&mut r, &b));
    let (p, map) = g.cartesian_product(&h);
    product("cartesian_product (foreign)", &mut r, &p, &map, &a, &b, false)?;
    let (p, map) = g.lexicographic_product(&h);
    product("lexicographic_product (foreign)", &mut r, &p, &map, &a, &b, true)?;
    c.bump("product vertices", 4 * (a.n() * b.n()) as u64);
    c.eval(a.m() > 0 && b.m() > 0, mix(a.h() ^ b.h().rotate_left(13)));
    c.sample(|| format!("A {} B {}", a.show(), b.show()));
    Ok(())
}

pub(super) fn relation(a: &Model, b: &Model) -> SubgraphRel {
    let sub = |x: &Model, y: &Model| x.verts().iter().all(|v| y.has(*v)) && x.edges().iter().all(|e| y.adjacent(e.0, e.1));
    match (sub(a, b), sub(b, a)) {
        (true, true) => SubgraphRel::Eq,
        (true, false) => SubgraphRel::Sub,
        (false, true) => SubgraphRel::Sup,
        _ => SubgraphRel::Incomp,
    }
}

pub(super) fn compare<G: Graph>(what: &str, g: &G, h: &G, a: &Model, b: &Model) -> R {
    let (x, y) = (g.compare_subgraph(h), h.compare_subgraph(g));
    ensure!(x == relation(a, b), "{what}: comparison says {x:?} instead of {:?}", relation(a, b));
    ensure!(y == relation(b, a), "{what}: reversed comparison says {y:?} instead of {:?}", relation(b, a));
    ensure!(g.compare_subgraph(g) == SubgraphRel::Eq, "{what}: a graph is not Eq to itself");
    Ok(())
}

fn c12(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let lp = if r.coin() { 0.0 } else { 0.3 };
    let a = gen::random_model(&mut r, &Opt { max_n: if case % 300 == 3 { 200 } else { 12 }, loops: lp, ..gen::SIMPLE });
    let mut b = a.clone();
    match r.below(8) {
        0 => {}
        1 => { let vs = b.verts(); if let (Some(u), Some(v)) = (r.pick(&vs), r.pick(&vs)) { b.add_edge(*u, *v); } }
        2 => { let es = b.edges(); if let Some(e) = r.pick(&es) { b.remove_edge(e.0, e.1); } }
        3 => { let x = r.u32(); b.add_vertex(x); }
        4 => { let vs = b.verts(); if let Some(v) = r.pick(&vs) { b.remove_vertex(*v); } }
        5 => { // extra vertex here, missing edge there
            let x = r.u32(); b.add_vertex(x);
            let es = a.edges(); if let Some(e) = r.pick(&es) { b.remove_edge(e.0, e.1); } }
        6 => { let (_, y) = overlapping(&mut r, lp, 10); b = y }
        _ => perturb(&mut r, &mut b, 4),
    }
    if r.coin() { b.remove_isolates(); }
    let (a, b) = if r.coin() { (a, b) } else { (b, a) };
    c.input(format!("compare A {} B {}", a.show(), b.show()));
    let (g, h) = (gen::build(&mut r, &a), gen::build(&mut r, &b));
    compare("EditGraph", &g, &h, &a, &b)?;
    compare("foreign graph", &RefGraph::new(&mut r, &a), &RefGraph::new(&mut r, &b), &a, &b)?;
    if !a.has_loops() && !b.has_loops() {
        let (oa, ob) = (gen::random_order(&mut r, &a), gen::random_order(&mut r, &b));
        compare("OrdGraph", &OrdGraph::with_ordering(&g, oa.iter()), &OrdGraph::with_ordering(&h, ob.iter()), &a, &b)?;
        compare("DegenGraph", &DegenGraph::with_ordering(&g, oa.iter()), &DegenGraph::with_ordering(&h, ob.iter()), &a, &b)?;
    }
    c.bump(&format!("relation {:?}", relation(&a, &b)), 1);
    c.eval(inter(&a, &b).m() > 0, mix(a.h() ^ b.h().rotate_left(17)));
    c.sample(|| format!("{:?}: A {} B {}", relation(&a, &b), a.show(), b.show()));
    Ok(())
}

fn classes<T: Copy + Ord>(m: &BTreeMap<V, T>) -> BTreeMap<T, BTreeSet<V>> {
    let mut r: BTreeMap<T, BTreeSet<V>> = BTreeMap::new();
    for (v, t) in m { r.entry(*t).or_default().insert(*v); }
    r
}

pub(super) fn map_ops<T, M>(what: &str, vm: &M, want: &BTreeMap<V, T>) -> R
where T: Copy + Ord + std::hash::Hash + std::fmt::Debug, M: VertexMapOperations<T> {
    let cl = classes(want);
    let inv = vm.invert();
    ensure!(inv.len() == cl.len(), "{what}: invert has {} groups instead of {}", inv.len(), cl.len());
    for (t, s) in &cl {
        match inv.get(t) { None => fail!("{what}: invert misses value {t:?}"), Some(x) => same_set(&format!("{what}: invert group {t:?}"), x, s)? }
    }
    match vm.majority_set() {
        None => ensure!(want.is_empty(), "{what}: no majority set for a non-empty map"),
        Some((s, t)) => {
            ensure!(!want.is_empty(), "{what}: majority set of the empty map");
            match cl.get(&t) { None => fail!("{what}: majority value {t:?} does not occur"), Some(x) => same_set(&format!("{what}: majority set"), &s, x)? }
            let best = cl.values().map(|s| s.len()).max().unwrap_or(0);
            ensure!(s.len() == best, "{what}: majority set has {} elements, largest group has {best}", s.len());
        }
    }
    Ok(())
}

fn random_map<T: Copy>(r: &mut Rng, n: usize, vals: &[T]) -> BTreeMap<V, T> {
    let l = gen::labels(r, n, u32::MAX);
    l.into_iter().map(|v| (v, vals[r.below(vals.len())])).collect()
}

fn colouring<T>(what: &str, r: &mut Rng, vals: &[T], shift: &[T]) -> Result<bool, String>
where T: Copy + Ord + std::hash::Hash + std::fmt::Debug + num_integer::Int {
    let n = r.below(14);
    let a = random_map(r, n, vals);
    let mut b = random_map(r, r.clone().below(14), shift);
    for v in a.keys() { if r.chance(0.3) { b.insert(*v, shift[r.below(shift.len())]); } }
    let mut col = T::col(&a);
    let other = T::col(&b);
    ensure!(col.len() == a.len(), "{what}: len {} instead of {}", col.len(), a.len());
    map_ops(what, &col, &a)?;
    let vs: BTreeSet<V> = a.keys().cloned().collect();
    exactly_once(&format!("{what}: vertices()"), col.vertices().cloned(), &vs)?;
    let cs: BTreeSet<T> = a.values().cloned().collect();
    exactly_once(&format!("{what}: colours()"), col.colours().cloned(), &cs)?;
    let it: BTreeSet<(V, T)> = a.iter().map(|(v, c)| (*v, *c)).collect();
    exactly_once(&format!("{what}: iter()"), col.iter().map(|(v, c)| (*v, *c)), &it)?;
    for (v, t) in &a { ensure!(col.get(v) == Some(t) && col.contains(v) && col[v] == *t, "{what}: colour of {v} is {:?}", col.get(v)); }
    // restriction
    let mut q: Vec<V> = a.keys().cloned().filter(|_| r.coin()).collect();
    q.extend(b.keys().take(3));
    if let Some(x) = q.first().cloned() { q.push(x) }
    let sub = if r.coin() { col.subset(q.iter()) } else { col.subset(q.clone()) };
    let want: BTreeMap<V, T> = a.iter().filter(|(v, _)| q.contains(v)).map(|(v, c)| (*v, *c)).collect();
    same_map(&format!("{what}: subset({q:?}) of {a:?}"), &sub.as_map(), &want)?;
    // extension
    T::extend(&mut col, &other);
    let ctxt = format!("{what}: {a:?} extended by {b:?}");
    let res: BTreeMap<V, T> = col.iter().map(|(v, c)| (*v, *c)).collect();
    ensure!(res.len() == col.len(), "{ctxt}: len disagrees with iteration");
    let keys: BTreeSet<V> = a.keys().chain(b.keys()).cloned().collect();
    ensure!(res.keys().cloned().collect::<BTreeSet<V>>() == keys, "{ctxt}: colours vertices {:?}", res.keys());
    for (v, t) in &a { ensure!(res.get(v) == Some(t), "{ctxt}: colour of {v} changed to {:?}", res.get(v)); }
    let fresh: Vec<V> = b.keys().filter(|v| !a.contains_key(v)).cloned().collect();
    for (i, u) in fresh.iter().enumerate() {
        ensure!(!cs.contains(&res[u]), "{ctxt}: new vertex {u} got the old colour {:?}", res[u]);
        for v in &fresh[..i] { ensure!((b[u] == b[v]) == (res[u] == res[v]), "{ctxt}: class of {u} and {v} not kept"); }
    }
    let oth: BTreeMap<V, T> = other.iter().map(|(v, c)| (*v, *c)).collect();
    ensure!(oth == b, "{ctxt}: the other colouring changed");
    Ok(cs.len() > 1)
}

/// The integer types a colouring is exercised with.
mod num_integer {
    use super::*;
    pub trait Int: Sized + Copy + std::hash::Hash + Eq {
        fn col(m: &BTreeMap<V, Self>) -> VertexColouring<Self>;
        fn extend(a: &mut VertexColouring<Self>, b: &VertexColouring<Self>);
    }
    macro_rules! imp { ($($t:ty),*) => { $(impl Int for $t {
        fn col(m: &BTreeMap<V, Self>) -> VertexColouring<Self> {
            match m.len() % 3 {
                0 => VertexColouring::from_iter(m.iter().map(|(v, c)| (*v, *c))),
                1 => VertexColouring::from(m.iter().map(|(v, c)| (*v, *c)).collect::<VertexMap<$t>>()),
                _ => { let mut r = VertexColouring::default(); for (v, c) in m { r.insert(*v, *c); } r }
            }
        }
        fn extend(a: &mut VertexColouring<Self>, b: &VertexColouring<Self>) { a.disjoint_extend(b) }
    })* } }
    imp!(u8, u32, u64, i32, usize);
}

fn c13(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    if case == 0 {
        // vertex/edge algebra, all pairs over a small pool
        use VertexOrEdge::*;
        let pool = [0u32, 1, 70_000, u32::MAX];
        let mut items = vec![];
        for a in pool { items.push(V(a)); for b in pool { items.push(E((a, b))) } }
        for x in &items {
            ensure!(x.is_vertex() == x.as_vertex().is_some() && x.is_edge() == x.as_edge().is_some() && x.is_vertex() != x.is_edge(), "as/is predicates disagree");
            match x { V(v) => ensure!(x.as_vertex() == Some(*v), "as_vertex"), E(e) => ensure!(x.as_edge() == Some(*e), "as_edge") }
            for y in &items {
                let got = x.intersection(*y);
                let show = |z: &VertexOrEdge| match z { V(v) => format!("V({v})"), E(e) => format!("E{e:?}") };
                let name = format!("intersection({}, {})", show(x), show(y));
                c.input(name.clone());
                ensure!(x.intersects(*y) == got.is_some(), "{name}: intersects disagrees");
                let want: BTreeSet<u32> = { let s = |z: &VertexOrEdge| -> BTreeSet<u32> { match z { V(v) => [*v].into(), E((a, b)) => [*a, *b].into() } }; s(x).intersection(&s(y)).cloned().collect() };
                let same_edge = match (x, y) { (E((a, b)), E((p, q))) => (a, b) == (p, q) || (a, b) == (q, p), _ => false };
                match got {
                    None => ensure!(want.is_empty(), "{name} is nothing although they share {want:?}"),
                    Some(E((a, b))) => ensure!(same_edge && [a, b].into_iter().collect::<BTreeSet<u32>>() == want, "{name} is the edge ({a},{b})"),
                    Some(V(v)) => ensure!(!same_edge && want.contains(&v), "{name} is the vertex {v}"),
                }
                c.bump("intersections", 1);
            }
        }
        c.eval(true, 1);
        return Ok(());
    }
    let k = r.range(1, 5);
    let nt = match case % 7 {
        0 => { let v: Vec<u32> = (0..k as u32).collect(); c.input("u32 colouring".into()); colouring("u32 colouring", &mut r, &v, &v)? }
        1 => { let v: Vec<u8> = (0..k as u8).map(|x| x * 7).collect(); let s: Vec<u8> = (0..4).collect(); c.input("u8 colouring".into()); colouring("u8 colouring", &mut r, &v, &s)? }
        2 => { let v: Vec<u64> = (0..k as u64).map(|x| x << 40).collect(); let s: Vec<u64> = vec![0, 3, 1 << 33]; colouring("u64 colouring", &mut r, &v, &s)? }
        3 => { let v: Vec<i32> = (0..k as i32).map(|x| x * 100).collect(); let (v, s): (Vec<i32>, Vec<i32>) = match r.below(3) { 0 => (v, vec![0, 1, 2]), 1 => (v.iter().map(|x| x - 200).collect(), vec![-7, 0, 1, -100]), _ => (vec![3, 2, 1, 0], vec![-1, -2, -3, -4]) }; colouring("i32 colouring", &mut r, &v, &s)? }
        4 => { let v: Vec<usize> = vec![5, 0, 9]; let s: Vec<usize> = (0..k).collect(); colouring("usize colouring", &mut r, &v, &s)? }
        5 => { // plain maps with non-integer values
            let n = r.below(30);
            let m = random_map(&mut r, n, &[true, false]);
            let vm: VertexMap<bool> = m.iter().map(|(v, t)| (*v, *t)).collect();
            map_ops("bool map", &vm, &m)?;
            let n = r.below(60);
            let vals: Vec<i64> = (0..k as i64).map(|x| -x).collect();
            let m = random_map(&mut r, n, &vals);
            let vm: VertexMap<i64> = m.iter().map(|(v, t)| (*v, *t)).collect();
            map_ops("i64 map", &vm, &m)?;
            k > 1
        }
        _ => { // from_sets
            let n = r.below(20);
            let l = gen::labels(&mut r, n, u32::MAX);
            let mut sets: Vec<VertexSet> = vec![VertexSet::default(); k];
            let mut want: BTreeMap<V, usize> = BTreeMap::new();
            for v in l { let i = r.below(k); sets[i].insert(v); want.insert(v, i); }
            c.input(format!("from_sets({sets:?})"));
            let col = VertexColouring::<u32>::from_sets(sets);
            ensure!(col.len() == want.len(), "from_sets colours {} of {} vertices", col.len(), want.len());
            for (u, i) in &want { for (v, j) in &want { ensure!((col.get(u) == col.get(v)) == (i == j) && col.get(u).is_some(), "from_sets: classes of {u} and {v} wrong"); } }
            k > 1
        }
    };
    c.bump("colourings and maps judged", 1);
    c.eval(nt, mix(case as u64 ^ c.seed.rotate_left(40)));
    Ok(())
}
