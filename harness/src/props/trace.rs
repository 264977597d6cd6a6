//! C35-C37: the trace oracle.
use super::Prop;
use crate::ctx::*;
use crate::ensure;
use crate::gen;
use crate::model::*;
use crate::refgraph::*;
use crate::rng::{mix, Rng};
use graphbench::datastructures::SReachTraceOracle;
use graphbench::degengraph::*;
use graphbench::graph::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C35", quick: 31500, thorough: 1890000, run: c35,
        rule: "compute_traces of query sets of every size in graph order against brute force over all outside vertices, random and degeneracy orderings, normalised or not, contexts beyond 64 and 128 vertices; non-trivial = a trace of size >= 2" });
    v.push(Prop { id: "C36", quick: 36000, thorough: 2160000, run: c36,
        rule: "compute_neighbour_count against brute force on the same workload; non-trivial = at least one outside neighbour" });
    v.push(Prop { id: "C37", quick: 54000, thorough: 3240000, run: c37,
        rule: "is_shattered on planted shattered sets, near misses and random sets, k from |X| to far beyond 64, any listing order, against brute force; non-trivial = the answer is true or exactly one trace is short" });
}

fn oh(order: &[V], k: u64) -> u64 { order.iter().fold(k, |h, v| mix(h ^ *v as u64)) }

/// the ordered graph and its model after optional normalisation
pub(super) fn degen(r: &mut Rng, m: &Model) -> (Model, DegenGraph, Vec<V>) {
    let g = gen::build(r, m);
    let order = gen::random_order(r, m);
    let mut d = match r.below(5) {
        0 => DegenGraph::from_graph(&g),
        1 => { // incrementally, left neighbours listed in no particular order
            let mut b = DegenGraphBuilder::new();
            let mut seen: Vec<V> = vec![];
            for u in &order { let mut l: Vec<V> = seen.iter().filter(|v| m.adjacent(*u, **v)).cloned().collect(); r.shuffle(&mut l); b.append(u, &l); seen.push(*u); }
            b.build()
        }
        2 => DegenGraph::with_ordering(&RefGraph::new(r, m), order.iter()),
        _ => DegenGraph::with_ordering(&g, order.iter()),
    };
    let order: Vec<V> = d.vertices().cloned().collect();
    if m.n() > 0 && r.chance(0.3) {
        d.normalize();
        let back: HashMap<V, V> = order.iter().enumerate().map(|(i, v)| (*v, i as V)).collect();
        let mut nm = Model::new();
        for v in &order { nm.add_vertex(back[v]); }
        for (u, v) in m.edges() { nm.add_edge(back[&u], back[&v]); }
        return (nm, d, (0..order.len() as u32).collect());
    }
    (m.clone(), d, order)
}

pub(super) fn query(r: &mut Rng, m: &Model, order: &[V], maxq: usize) -> Vec<V> {
    let pos: HashMap<V, usize> = order.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let mut q: Vec<V> = match r.below(7) {
        0 => vec![],
        1 => order.to_vec(),
        2 => r.pick(order).cloned().into_iter().collect(),
        3 => match r.pick(order) { Some(v) => m.nbrs(*v).into_iter().collect(), None => vec![] },
        4 => match r.pick(order) { Some(v) => m.nbrs(*v).into_iter().chain([*v]).collect(), None => vec![] },
        5 => { let k = r.below(order.len() + 1); order[order.len() - k..].to_vec() }
        _ => { let p = r.f(); r.subset(order, p) }
    };
    r.shuffle(&mut q);
    q.truncate(maxq);
    q.sort_by_key(|v| pos[v]);
    q
}

pub(super) fn truth(m: &Model, q: &[V]) -> BTreeMap<Vec<V>, usize> {
    let s: BTreeSet<V> = q.iter().cloned().collect();
    let mut t = BTreeMap::new();
    for (y, n) in &m.adj {
        if s.contains(y) { continue }
        let tr: Vec<V> = q.iter().filter(|x| n.contains(x)).cloned().collect();
        *t.entry(tr).or_insert(0) += 1;
    }
    t
}

fn inst(r: &mut Rng, case: usize) -> Model {
    let ex = gen::exhaustive_count(4) as usize;
    if case < ex { if let Some(a) = gen::exhaustive(case as u64, 4) { return gen::to_model(r, &a, &gen::simple(4)) } }
    match case % 100 {
        13 => { // contexts beyond one and two machine words
            let n = r.range(70, 150);
            let f = [2, 3, 7, 9, 15, 18, 8][r.below(7)];
            let a = gen::family(r, f, n);
            gen::to_model(r, &a, &gen::simple(1))
        }
        57 => gen::random_model(r, &gen::simple(300)),
        _ => gen::random_model(r, &gen::simple(22)),
    }
}

fn c35(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let m0 = inst(&mut r, case);
    let (m, d, order) = degen(&mut r, &m0);
    let pos: HashMap<V, usize> = order.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    c.input(format!("{} order {:?}", m.show(), &order[..order.len().min(60)]));
    let o = SReachTraceOracle::for_graph(&d);
    let mut qs: Vec<Vec<V>> = vec![];
    if m.n() <= 4 { for b in 0..1u32 << m.n() { qs.push((0..m.n()).filter(|i| b >> i & 1 == 1).map(|i| order[i]).collect()) } }
    else { for _ in 0..if m.n() > 60 { 3 } else { 6 } { let k = if r.coin() { m.n() } else { r.range(1, 6) }; qs.push(query(&mut r, &m, &order, k)) } }
    for q in qs {
        c.input(format!("query {:?} {} order {:?}", &q[..q.len().min(160)], m.show(), &order[..order.len().min(160)]));
        let t = truth(&m, &q);
        let got = o.compute_traces(&q, &d);
        for (k, n) in &got {
            let mut s = k.clone();
            s.sort_by_key(|v| pos.get(v).cloned().unwrap_or(usize::MAX));
            s.dedup();
            ensure!(s.len() == k.len() && s.iter().all(|v| q.contains(v)), "trace {k:?} is no subset of the query {q:?}");
            ensure!(t.get(&s).cloned().unwrap_or(0) == *n, "trace {k:?} of {q:?} counted {n} times instead of {}", t.get(&s).cloned().unwrap_or(0));
        }
        for (k, n) in &t { ensure!(got.get(k) == Some(n), "trace {k:?} of {q:?} occurs {n} times, reported {:?}", got.get(k)); }
        c.bump("queries", 1);
        c.bump("distinct traces compared", t.len() as u64);
        c.max("query size", q.len() as u64);
        c.max("vertices_in_one_graph", m.n() as u64);
        c.eval(t.keys().any(|k| k.len() >= 2), m.h() ^ oh(&q, oh(&order, 1)));
    }
    c.sample(|| format!("{} order {:?}", m.show(), &order[..order.len().min(30)]));
    Ok(())
}

fn c36(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let m0 = inst(&mut r, case);
    let (m, d, order) = degen(&mut r, &m0);
    c.input(format!("{} order {:?}", m.show(), &order[..order.len().min(60)]));
    let o = SReachTraceOracle::for_graph(&d);
    let mut qs: Vec<Vec<V>> = vec![];
    if m.n() <= 4 { for b in 0..1u32 << m.n() { qs.push((0..m.n()).filter(|i| b >> i & 1 == 1).map(|i| order[i]).collect()) } }
    else { for _ in 0..if m.n() > 60 { 4 } else { 8 } { let k = if r.coin() { m.n() } else { r.range(1, 6) }; qs.push(query(&mut r, &m, &order, k)) } }
    for q in qs {
        c.input(format!("query {:?} {} order {:?}", &q[..q.len().min(160)], m.show(), &order[..order.len().min(160)]));
        let want: usize = truth(&m, &q).iter().filter(|(k, _)| !k.is_empty()).map(|(_, n)| *n).sum();
        let got = o.compute_neighbour_count(&q, &d);
        ensure!(got == want, "{got} neighbours of {q:?} reported, true number {want}");
        c.bump("queries", 1);
        c.max("query size", q.len() as u64);
        c.max("neighbour count", want as u64);
        c.eval(want > 0, m.h() ^ oh(&q, oh(&order, 1)));
    }
    c.sample(|| format!("{} order {:?}", m.show(), &order[..order.len().min(30)]));
    Ok(())
}

/// for every subset of a set of `s` vertices, `mult` vertices with that trace
/// (or a few less / more), plus noise among the trace vertices
fn planted(r: &mut Rng, s: usize, mult: usize) -> (Model, Vec<V>) {
    let n = s + (1 << s) * mult + r.below(4);
    let l = gen::labels(r, n + 8, u32::MAX);
    let mut m = Model::new();
    let x: Vec<V> = l[..s].to_vec();
    for v in &x { m.add_vertex(*v); }
    let mut next = s;
    for t in 0..1usize << s {
        for _ in 0..mult {
            m.add_vertex(l[next]);
            for (i, v) in x.iter().enumerate() { if t >> i & 1 == 1 { m.add_edge(*v, l[next]); } }
            next += 1;
        }
    }
    let outside: Vec<V> = l[s..next].to_vec();
    for _ in 0..r.below(6) { if let (Some(a), Some(b)) = (r.pick(&outside), r.pick(&outside)) { if a != b { m.add_edge(*a, *b); } } }
    for i in 0..s { for j in 0..i { if r.chance(0.3) { m.add_edge(x[i], x[j]); } } }
    match r.below(5) { // near misses
        0 => { if let Some(v) = r.pick(&outside) { m.remove_vertex(*v); } }
        1 => { if let (Some(a), Some(b)) = (r.pick(&x), r.pick(&outside)) { if m.adjacent(*a, *b) { m.remove_edge(*a, *b); } else { m.add_edge(*a, *b); } } }
        2 => { for _ in 0..r.below(4) { let v = l[n + r.below(8)]; m.add_vertex(v); if let Some(a) = r.pick(&x) { m.add_edge(v, *a); } } }
        _ => {}
    }
    (m, x)
}

fn c37(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let plant = case % 3 != 0;
    let (m0, x0) = if plant { let s = r.below(6); let e = r.below(3); planted(&mut r, s, if s < 5 { 1 << e } else { 1 }) } else { (inst(&mut r, case / 3), vec![]) };
    let g = gen::build(&mut r, &m0);
    // normalisation would rename the planted set; map it through
    let order = gen::random_order(&mut r, &m0);
    let mut d = if r.coin() { DegenGraph::with_ordering(&g, order.iter()) } else { DegenGraph::from_graph(&g) };
    let (mut m, mut x) = (m0.clone(), x0);
    let mut order: Vec<V> = d.vertices().cloned().collect();
    if m0.n() > 0 && r.chance(0.3) {
        d.normalize();
        let back: HashMap<V, V> = order.iter().enumerate().map(|(i, v)| (*v, i as V)).collect();
        m = Model::new();
        for v in &order { m.add_vertex(back[v]); }
        for (u, v) in m0.edges() { m.add_edge(back[&u], back[&v]); }
        x = x.iter().map(|v| back[v]).collect();
        order = (0..order.len() as u32).collect();
    }
    c.input(format!("{} order {:?}", m.show(), &order[..order.len().min(60)]));
    let o = SReachTraceOracle::for_graph(&d);
    for i in 0..5 {
        let mut q = if plant && i < 3 { x.clone() } else { let k = if r.chance(0.15) { m.n() } else { r.below(5) }; query(&mut r, &m, &order, k) };
        if plant && i == 2 { let p = r.f(); q = r.subset(&q, p) }
        r.shuffle(&mut q);
        let s = q.len() as u32;
        let k = match r.below(8) { 0 => s + [61, 62, 63, 64, 65, 127, 128, 1000][r.below(8)], 1 => u32::MAX, 2 => s + r.below(12) as u32, 3 => s, _ => s + r.below(4) as u32 };
        c.input(format!("X={:?} k={k} {} order {:?}", &q[..q.len().min(200)], m.show(), &order[..order.len().min(200)]));
        let t = truth(&m, &q);
        let (want, short) = if s >= 24 || k - s >= 40 { (false, usize::MAX) } else {
            let need = 1usize << (k - s);
            let have = t.values().filter(|n| **n >= need).count();
            let short = (1usize << s) - have;
            (short == 0, short)
        };
        let got = if r.coin() { o.is_shattered(q.iter(), k, &d) } else { o.is_shattered(q.clone(), k, &d) };
        ensure!(got == want, "is_shattered({q:?}, {k}) is {got} instead of {want} (traces {:?})", t.iter().take(40).collect::<Vec<_>>());
        if want { c.bump("shattered", 1) } else { c.bump("not shattered", 1) }
        if k > 64 { c.bump("multiplicity beyond 64 bits", 1) }
        c.max("set size", s as u64);
        c.eval(want || short == 1, m.h() ^ oh(&q, k as u64));
    }
    c.sample(|| format!("planted={plant} X={x:?} {}", m.show()));
    Ok(())
}
