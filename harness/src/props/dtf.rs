//! C32-C34: the distance augmentation.
use super::Prop;
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::refgraph::*;
use crate::rng::Rng;
use crate::views::*;
use crate::{ensure, fail};
use graphbench::degengraph::DegenGraph;
use graphbench::dtfgraph::*;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::ordgraph::OrdGraph;
use std::collections::{BTreeMap, BTreeSet};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C32", quick: 62400, thorough: 3744000, run: c32,
        rule: "small_distance for all vertex pairs after augmenting to depth 1..6 with look-ahead 0..4, in one or several steps, against breadth-first search; non-trivial = a pair at distance >= 2 within the depth" });
    v.push(Prop { id: "C33", quick: 31500, thorough: 1890000, run: c33,
        rule: "histories of orient/augment/add_arc/add_vertex/layer calls, all arc tables, layers, undirected and restricted copies compared with one another and with the history; non-trivial = arcs of at least two weights" });
    v.push(Prop { id: "C34", quick: 72000, thorough: 4320000, run: c34,
        rule: "DTFGraph::domset for radii 0..5 after random prior augmentation, domination by breadth-first search, distance queries afterwards; non-trivial = graph with an edge and radius >= 1" });
}

pub(super) fn orient(r: &mut Rng, m: &Model) -> (&'static str, DTFGraph) {
    let g = gen::build(r, m);
    let o = gen::random_order(r, m);
    match r.below(6) {
        0 => ("foreign graph", DTFGraph::orient(&RefGraph::new(r, m))),
        1 => ("OrdGraph", DTFGraph::orient(&OrdGraph::with_ordering(&g, o.iter()))),
        2 => ("DegenGraph", DTFGraph::orient(&DegenGraph::with_ordering(&g, o.iter()))),
        3 => { let d = r.below(4); ("EditGraph, deep", DTFGraph::orient_deep(&g, d)) }
        _ => ("EditGraph", DTFGraph::orient(&g)),
    }
}
fn inst(r: &mut Rng, case: usize, n: usize, big: usize) -> Model {
    let ex = gen::exhaustive_count(4) as usize;
    if case < ex { if let Some(a) = gen::exhaustive(case as u64, 4) { return gen::to_model(r, &a, &gen::simple(4)) } }
    gen::random_model(r, &gen::simple(if case % 150 == 31 { big } else { n }))
}

pub(super) fn distances(c: &mut Ctx, r: &mut Rng, g: &DTFGraph, m: &Model, depth: usize, hist: &str) -> Result<bool, String> {
    let ix = m.idx();
    let mut far = false;
    for i in 0..ix.n() {
        if ix.n() > 40 && !r.chance(0.3) { continue }
        let d = ix.bfs(&[i]);
        for j in 0..ix.n() {
            let want = if d[j] as usize <= depth && d[j] != INF { Some(d[j]) } else { None };
            let got = g.small_distance(&ix.labels[i], &ix.labels[j]);
            ensure!(got == want, "{hist}: small_distance({},{}) is {got:?} instead of {want:?} at depth {depth}", ix.labels[i], ix.labels[j]);
            far |= d[j] != INF && d[j] >= 2 && d[j] as usize <= depth;
            c.bump("distance queries", 1);
        }
    }
    Ok(far)
}

fn c32(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let m = inst(&mut r, case, 20, 90);
    let (what, mut g) = orient(&mut r, &m);
    let mut hist = format!("orient({what})");
    let deep = m.n() <= 22 && 2 * m.edges().len() <= 3 * m.n() && r.chance(0.3);
    let maxd = if m.n() > 40 { 3 } else if deep { r.range(7, 14) } else { 6 };
    let mut depth = 1;
    let steps = r.below(4);
    c.input(format!("{hist} {}", m.show()));
    let mut far = distances(c, &mut r, &g, &m, 1, &hist)?;
    for _ in 0..=steps {
        let d = r.range(1, maxd);
        let f = r.below(5);
        hist += &format!("; augment({d},{f})");
        c.input(format!("{hist} {}", m.show()));
        g.augment(d, f);
        depth = depth.max(d);
        ensure!(g.get_depth() == depth, "{hist}: depth is {} instead of {depth}", g.get_depth());
        if r.chance(0.25) { let k = r.range(1, depth + 3); hist += &format!("; layer({k})"); c.input(format!("{hist} {}", m.show())); let _ = g.layer(k).num_edges(); }
        far |= distances(c, &mut r, &g, &m, depth, &hist)?;
        c.max("depth", depth as u64);
    }
    c.eval(far, m.h() ^ crate::rng::hash_bytes(hist.as_bytes()));
    c.sample(|| format!("{hist} {}", m.show()));
    Ok(())
}

// ---------------------------------------------------------------- C33

pub(super) type Arcs = BTreeSet<(V, V, usize)>;

pub(super) fn layer_view(what: &str, l: &DTFLayer, vs: &BTreeSet<V>, t: &Arcs, w: usize) -> R {
    let at: BTreeSet<(V, V)> = t.iter().filter(|a| a.2 == w).map(|a| (a.0, a.1)).collect();
    ensure!(l.num_vertices() == vs.len(), "{what}: layer({w}) has {} vertices", l.num_vertices());
    ensure!(l.num_edges() == at.len(), "{what}: layer({w}) reports {} arcs instead of {}", l.num_edges(), at.len());
    exactly_once(&format!("{what}: layer({w}).vertices()"), l.vertices().cloned(), vs)?;
    for u in vs {
        ensure!(l.contains(u), "{what}: layer({w}) lacks {u}");
        let i: BTreeSet<V> = at.iter().filter(|a| a.1 == *u).map(|a| a.0).collect();
        let o = at.iter().filter(|a| a.0 == *u).count();
        exactly_once(&format!("{what}: layer({w}).in_neighbours({u})"), l.in_neighbours(u).cloned(), &i)?;
        ensure!(l.in_degree(u) as usize == i.len(), "{what}: layer({w}).in_degree({u}) is {} instead of {}", l.in_degree(u), i.len());
        ensure!(l.out_degree(u) as usize == o, "{what}: layer({w}).out_degree({u}) is {} instead of {o}", l.out_degree(u));
        ensure!(l.degree(u) as usize == o + i.len(), "{what}: layer({w}).degree({u}) is {} instead of {}", l.degree(u), o + i.len());
        for v in vs {
            ensure!(l.has_arc(u, v) == at.contains(&(*u, *v)), "{what}: layer({w}).has_arc({u},{v}) is {}", l.has_arc(u, v));
            ensure!(l.adjacent(u, v) == (at.contains(&(*u, *v)) || at.contains(&(*v, *u))), "{what}: layer({w}).adjacent({u},{v}) is {}", l.adjacent(u, v));
        }
    }
    Ok(())
}

pub(super) fn tables(c: &mut Ctx, r: &mut Rng, what: &str, g: &mut DTFGraph, vs: &BTreeSet<V>, t: &Arcs) -> R {
    let depth = g.get_depth();
    let by = |w: usize| -> BTreeSet<(V, V)> { t.iter().filter(|a| a.2 == w).map(|a| (a.0, a.1)).collect() };
    let pairs: BTreeSet<(V, V)> = t.iter().map(|a| (a.0, a.1)).collect();
    let multi = pairs.len() != t.len();
    ensure!(t.iter().all(|a| a.2 <= depth), "{what}: an arc is heavier than the depth {depth}");
    ensure!(g.num_vertices() == vs.len(), "{what}: {} vertices instead of {}", g.num_vertices(), vs.len());
    exactly_once(&format!("{what}: vertices()"), g.vertices().cloned(), vs)?;
    ensure!(g.num_edges() == by(1).len(), "{what}: num_edges is {} with {} arcs of weight one", g.num_edges(), by(1).len());
    // arcs, all weights
    let mut left: BTreeMap<(V, V), usize> = BTreeMap::new();
    for a in t { *left.entry((a.0, a.1)).or_insert(0) += 1 }
    let mut seen = BTreeSet::new();
    for a in g.arcs() {
        match left.get_mut(&a) { Some(k) if *k > 0 => *k -= 1, _ => fail!("{what}: arcs() yields {a:?} which is no arc or was yielded before") }
        seen.insert(a);
    }
    ensure!(seen == pairs, "{what}: arcs() misses {:?}", pairs.difference(&seen).next());
    for w in 1..=depth + 2 {
        let at = by(w);
        exactly_once(&format!("{what}: arcs_at({w})"), g.arcs_at(w), &at)?;
        ensure!(g.num_arcs_at_depth(w) == at.len(), "{what}: num_arcs_at_depth({w}) is {} instead of {}", g.num_arcs_at_depth(w), at.len());
        let mut nv = BTreeSet::new();
        for (v, n) in g.in_neighbourhoods_iter_at(w) {
            ensure!(nv.insert(v), "{what}: in_neighbourhoods_iter_at({w}) repeats {v}");
            exactly_once(&format!("{what}: in_neighbourhoods_iter_at({w}) at {v}"), n.cloned(), &at.iter().filter(|a| a.1 == v).map(|a| a.0).collect())?;
        }
        ensure!(nv == *vs, "{what}: in_neighbourhoods_iter_at({w}) misses vertices");
    }
    let mut nv = BTreeSet::new();
    for (v, n) in g.in_neighbourhoods_iter() {
        ensure!(nv.insert(v), "{what}: in_neighbourhoods_iter repeats {v}");
        let want: BTreeSet<V> = pairs.iter().filter(|a| a.1 == v).map(|a| a.0).collect();
        let got: Vec<V> = n.cloned().collect();
        if multi { ensure!(got.iter().cloned().collect::<BTreeSet<V>>() == want, "{what}: in_neighbourhoods_iter at {v}") } else { exactly_once(&format!("{what}: in_neighbourhoods_iter at {v}"), got.into_iter(), &want)?; }
    }
    ensure!(nv == *vs, "{what}: in_neighbourhoods_iter misses vertices");
    if let (Some(x), Some(v)) = ((0..).map(|i| 900_000_000 + i).find(|x| !vs.contains(x)), vs.iter().next()) {
        ensure!(!g.contains(&x) && !g.has_arc(&x, v) && !g.has_arc(v, &x) && !g.has_arc_at(&x, v, 1) && !g.has_arc_at(v, &x, 1), "{what}: arcs at the absent vertex {x}");
    }
    for v in vs {
        let ins: Vec<&(V, V, usize)> = t.iter().filter(|a| a.1 == *v).collect();
        let outs = t.iter().filter(|a| a.0 == *v).count();
        ensure!(g.contains(v), "{what}: contains({v}) is false");
        ensure!(g.in_degree(v) as usize == ins.len(), "{what}: in_degree({v}) is {} instead of {}", g.in_degree(v), ins.len());
        ensure!(g.out_degree(v) as usize == outs, "{what}: out_degree({v}) is {} instead of {outs}", g.out_degree(v));
        ensure!(g.degree(v) as usize == ins.len() + outs, "{what}: degree({v}) is {} instead of {}", g.degree(v), ins.len() + outs);
        let want: BTreeSet<V> = ins.iter().map(|a| a.0).collect();
        let got: Vec<V> = g.in_neighbours(v).cloned().collect();
        ensure!(got.iter().cloned().collect::<BTreeSet<V>>() == want && (multi || got.len() == want.len()), "{what}: in_neighbours({v}) is {got:?} instead of {want:?}");
        let ww = g.in_neighbours_with_weights(v);
        ensure!(ww.len() == want.len(), "{what}: in_neighbours_with_weights({v}) has {} entries instead of {}", ww.len(), want.len());
        for (u, w) in &ww { ensure!(t.contains(&(*u, *v, *w as usize)), "{what}: in_neighbours_with_weights({v}) claims ({u},{v}) has weight {w}"); }
        for w in 1..=depth + 1 { exactly_once(&format!("{what}: in_neighbours_at({v},{w})"), g.in_neighbours_at(v, w).cloned(), &ins.iter().filter(|a| a.2 == w).map(|a| a.0).collect())?; }
        for u in vs {
            let a = pairs.contains(&(*u, *v));
            ensure!(g.has_arc(u, v) == a, "{what}: has_arc({u},{v}) is {}", !a);
            ensure!(g.adjacent(u, v) == (a || pairs.contains(&(*v, *u))), "{what}: adjacent({u},{v}) is {}", g.adjacent(u, v));
            match g.get_arc_depth(u, v) { None => ensure!(!a, "{what}: get_arc_depth({u},{v}) is None"), Some(w) => ensure!(t.contains(&(*u, *v, w as usize)), "{what}: get_arc_depth({u},{v}) is {w}") }
            for w in 1..=depth + 1 { ensure!(g.has_arc_at(u, v, w) == t.contains(&(*u, *v, w)), "{what}: has_arc_at({u},{v},{w}) is {}", g.has_arc_at(u, v, w)); }
        }
    }
    let und: EditGraph = g.to_undirected();
    let mut um = Model::new();
    for v in vs { um.add_vertex(*v); }
    for (u, v) in &pairs { um.add_edge(*u, *v); }
    graph_view(r, &und, &um, Nb::Yes).map_err(|e| format!("{what}: to_undirected: {e}"))?;
    for w in 1..=depth + 2 {
        layer_view(what, &g.layer(w), vs, t, w)?;
        layer_view(what, &DTFLayer::new(g, w), vs, t, w)?;
        ensure!(g.get_depth() == depth, "{what}: viewing layer({w}) changed the depth from {depth} to {}", g.get_depth());
        c.bump("layers compared", 1);
    }
    c.bump("arcs compared", t.len() as u64);
    Ok(())
}

fn restricted(c: &mut Ctx, r: &mut Rng, what: &str, g: &mut DTFGraph, vs: &BTreeSet<V>, t: &Arcs) -> R {
    let pairs: BTreeSet<(V, V)> = t.iter().map(|a| (a.0, a.1)).collect();
    let mut sel: Vec<(V, V)> = r.subset(&pairs.iter().cloned().collect::<Vec<_>>(), 0.6);
    for e in sel.iter_mut() { if r.coin() { *e = (e.1, e.0) } }
    let v: Vec<V> = vs.iter().cloned().collect();
    for _ in 0..3 { if let (Some(a), Some(b)) = (r.pick(&v), r.pick(&v)) { if a != b { sel.push((*a, *b)) } } }
    if r.coin() { let d = r.subset(&sel, 0.3); sel.extend(d) }
    r.shuffle(&mut sel);
    let want: Arcs = sel.iter().flat_map(|e| vec![(e.0, e.1), (e.1, e.0)]).filter(|e| pairs.contains(e)).map(|e| (e.0, e.1, 1)).collect();
    let mut s = g.edge_subgraph(sel.clone().into_iter());
    tables(c, r, &format!("{what}; edge_subgraph({sel:?})"), &mut s, vs, &want)
}

/// the arcs as the point queries tell them
pub(super) fn read(g: &DTFGraph, vs: &BTreeSet<V>) -> Arcs {
    let mut t = Arcs::new();
    for u in vs { for v in vs { for w in 1..=g.get_depth() { if g.has_arc_at(u, v, w) { t.insert((*u, *v, w)); } } } }
    t
}

fn c33(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let m = inst(&mut r, case, 12, 40);
    let mut vs: BTreeSet<V> = m.verts().into_iter().collect();
    let ix = m.idx();
    let dist = ix.all_dist();
    let (what, mut g) = orient(&mut r, &m);
    let mut hist = format!("orient({what})");
    c.input(format!("{hist} {}", m.show()));
    let mut t = read(&g, &vs);
    ensure!(t.len() == m.m(), "{hist}: {} arcs for {} edges", t.len(), m.m());
    for a in &t { ensure!(a.2 == 1 && m.adjacent(a.0, a.1) && !t.contains(&(a.1, a.0, 1)), "{hist}: wrong arc {a:?}"); }
    tables(c, &mut r, &hist, &mut g, &vs, &t)?;
    let mut pure = true;
    let steps = if m.n() > 20 { 2 } else { r.range(1, 6) };
    for _ in 0..steps {
        let old = g.get_depth();
        // augmenting is left out once the caller gave one arc two weights: no
        // augmentation does that itself, and what a further one adds is open
        let multi = t.iter().map(|a| (a.0, a.1)).collect::<BTreeSet<_>>().len() != t.len();
        match r.below(6) {
            0 | 1 if !multi => {
                let (d, f) = (r.range(1, 5), r.below(4));
                hist += &format!("; augment({d},{f})");
                c.input(format!("{hist} {}", m.show()));
                g.augment(d, f);
                ensure!(g.get_depth() == old.max(d), "{hist}: depth is {} instead of {}", g.get_depth(), old.max(d));
                let n = read(&g, &vs);
                ensure!(t.is_subset(&n), "{hist}: augmentation lost an arc");
                for a in n.difference(&t) {
                    ensure!(a.2 > old, "{hist}: augmentation from depth {old} added {a:?}");
                    ensure!(a.0 != a.1, "{hist}: augmentation added a loop {a:?}");
                    if pure { let x = dist[ix.pos[&a.0]][ix.pos[&a.1]]; ensure!(x != INF && x as usize <= a.2, "{hist}: arc {a:?} is lighter than the distance {x}"); }
                }
                t = n;
            }
            2 | 3 => {
                pure = false;
                for _ in 0..r.range(1, 4) {
                    let pool: Vec<V> = vs.iter().cloned().chain([r.u32(), 3]).collect();
                    let (u, v) = (pool[r.below(pool.len())], pool[r.below(pool.len())]);
                    if u == v { continue }
                    let w = match r.below(3) { 0 => r.range(1, old), 1 => old + r.range(0, 1), _ => r.range(1, 7) };
                    // one arc may be repeated, but keep one weight per arc most of the time
                    if t.iter().any(|a| a.0 == u && a.1 == v && a.2 != w) && r.chance(0.8) { continue }
                    hist += &format!("; add_arc({u},{v},{w})");
                    c.input(format!("{hist} {}", m.show()));
                    g.add_arc(&u, &v, w);
                    vs.insert(u);
                    vs.insert(v);
                    t.insert((u, v, w));
                    let d = g.get_depth();
                    ensure!(d >= w && d >= old, "{hist}: depth is {d}");
                    let n = read(&g, &vs);
                    ensure!(n == t, "{hist}: arcs are {n:?} instead of {t:?}");
                }
            }
            4 => { let u = if r.coin() { r.u32() } else { vs.iter().next().cloned().unwrap_or(0) }; hist += &format!("; add_vertex({u})"); c.input(format!("{hist} {}", m.show())); g.add_vertex(u); vs.insert(u); }
            _ => { let k = r.range(1, old + 3); hist += &format!("; layer({k})"); c.input(format!("{hist} {}", m.show())); let _ = g.layer(k).num_edges(); }
        }
        tables(c, &mut r, &hist, &mut g, &vs, &t)?;
    }
    if m.n() <= 20 { restricted(c, &mut r, &hist, &mut g, &vs, &t)?; }
    let ws: BTreeSet<usize> = t.iter().map(|a| a.2).collect();
    c.max("depth", g.get_depth() as u64);
    c.max("arcs in one augmentation", t.len() as u64);
    c.eval(ws.len() > 1, m.h() ^ crate::rng::hash_bytes(hist.as_bytes()));
    c.sample(|| format!("{hist} {}", m.show()));
    Ok(())
}

// ---------------------------------------------------------------- C34

fn c34(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let m = inst(&mut r, case, 26, 120);
    let (what, mut g) = orient(&mut r, &m);
    let mut hist = format!("orient({what})");
    let mut depth = 1;
    let ix = m.idx();
    let maxd = if m.n() > 40 { 3 } else { 5 };
    for _ in 0..r.range(1, 3) {
        if r.coin() { let (d, f) = (r.range(1, maxd), r.below(4)); hist += &format!("; augment({d},{f})"); c.input(format!("{hist} {}", m.show())); g.augment(d, f); depth = depth.max(d); }
        let rad = if r.chance(0.15) { 0 } else { r.range(1, maxd) as u32 };
        hist += &format!("; domset({rad})");
        c.input(format!("{hist} {}", m.show()));
        let d = g.domset(rad);
        depth = depth.max(rad as usize);
        let mut src = vec![];
        for v in &d { match ix.pos.get(v) { Some(p) => src.push(*p), None => fail!("{hist}: {v} is no vertex") } }
        let dist = ix.bfs(&src);
        for p in 0..ix.n() { ensure!(dist[p] != INF && dist[p] <= rad, "{hist}: {} is at distance {} from the set", ix.labels[p], dist[p]); }
        ensure!(g.get_depth() == depth, "{hist}: depth is {} instead of {depth}", g.get_depth());
        distances(c, &mut r, &g, &m, depth, &hist)?;
        c.bump("dominating sets", 1);
        c.max("largest dominating set", d.len() as u64);
        c.eval(m.m() > 0 && rad >= 1, m.h() ^ crate::rng::hash_bytes(hist.as_bytes()));
    }
    c.sample(|| format!("{hist} {}", m.show()));
    Ok(())
}
