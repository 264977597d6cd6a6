//! C01-C04: editing histories, equality/clone/collect, contraction.
use super::Prop;
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::rng::{mix, Rng};
use crate::views::*;
use crate::{ensure, fail};
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use std::collections::BTreeSet;

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C01", quick: 36000, thorough: 2160000, run: c01,
        rule: "edit histories on EditGraph (all op sequences of length 4/5 over two vertices, random histories over small/large id pools, hub/clique scale histories) stepped against a set model; non-trivial = history with at least one effective removal and one effective insertion" });
    v.push(Prop { id: "C02", quick: 36000, thorough: 2160000, run: c02,
        rule: "edit histories on EditDigraph (all op sequences of length 3/4 over two vertices, random and scale histories) stepped against an arc-set model; non-trivial = history with at least one effective removal and one effective insertion" });
    v.push(Prop { id: "C03", quick: 96000, thorough: 5760000, run: c03,
        rule: "pairs of graphs/digraphs built by different histories from equal or minimally different models, clones mutated on either side, edge lists collected in random order with repetitions; non-trivial = graph with an edge" });
    v.push(Prop { id: "C04", quick: 432000, thorough: 25920000, run: c04,
        rule: "contract / contract_into / contract_pair on random graphs (loops included) and random member sequences, whole graph compared with the definition; non-trivial = at least one member removed that had an edge" });
}

#[derive(Clone, Debug)]
pub(super) enum Op { AddV(V), RemV(V), AddE(V, V), RemE(V, V), AddVs(Vec<V>), AddEs(Vec<(V, V)>), Loops, Isos }

pub(super) fn apply(g: &mut EditGraph, m: &mut Model, op: &Op, byref: bool) -> Result<(usize, usize), String> {
    // returns (effective insertions, effective removals)
    Ok(match op {
        Op::AddV(u) => { let (a, b) = (g.add_vertex(u), m.add_vertex(*u)); ensure!(a == b, "add_vertex({u}) returned {a}"); (b as usize, 0) }
        Op::RemV(u) => { let (a, b) = (g.remove_vertex(u), m.remove_vertex(*u)); ensure!(a == b, "remove_vertex({u}) returned {a}"); (0, b as usize) }
        Op::AddE(u, v) => { let (a, b) = (g.add_edge(u, v), m.add_edge(*u, *v)); ensure!(a == b, "add_edge({u},{v}) returned {a}"); (b as usize, 0) }
        Op::RemE(u, v) => { let (a, b) = (g.remove_edge(u, v), m.remove_edge(*u, *v)); ensure!(a == b, "remove_edge({u},{v}) returned {a}"); (0, b as usize) }
        Op::AddVs(l) => {
            let a = if byref { g.add_vertices(l.iter()) } else { g.add_vertices(l.clone()) };
            let b = l.iter().filter(|u| m.add_vertex(**u)).count();
            ensure!(a as usize == b, "add_vertices({l:?}) returned {a} instead of {b}"); (b, 0)
        }
        Op::AddEs(l) => {
            let a = if byref { g.add_edges(l.iter()) } else { g.add_edges(l.clone()) };
            let b = l.iter().filter(|e| m.add_edge(e.0, e.1)).count();
            ensure!(a as usize == b, "add_edges({l:?}) returned {a} instead of {b}"); (b, 0)
        }
        Op::Loops => { let (a, b) = (g.remove_loops(), m.remove_loops()); ensure!(a == b, "remove_loops returned {a} instead of {b}"); (0, b) }
        Op::Isos => { let (a, b) = (g.remove_isolates(), m.remove_isolates()); ensure!(a == b, "remove_isolates returned {a} instead of {b}"); (0, b) }
    })
}

/// cheap check of everything an operation on `touch` could disturb
fn spot(g: &EditGraph, m: &Model, touch: &[V]) -> R {
    ensure!(g.num_vertices() == m.n() && g.num_edges() == m.m(), "counts ({},{}) instead of ({},{})", g.num_vertices(), g.num_edges(), m.n(), m.m());
    for u in touch {
        ensure!(g.contains(u) == m.has(*u), "contains({u}) is {}", g.contains(u));
        ensure!(g.degree(u) == m.degree(*u), "degree({u}) is {} instead of {}", g.degree(u), m.degree(*u));
        if m.has(*u) { exactly_once(&format!("neighbours({u})"), g.neighbours(u).cloned(), &m.nbrs(*u))?; }
        for v in touch { ensure!(g.adjacent(u, v) == m.adjacent(*u, *v), "adjacent({u},{v}) is {}", g.adjacent(u, v)); }
    }
    Ok(())
}

pub(super) fn touched(op: &Op) -> Vec<V> {
    match op {
        Op::AddV(u) | Op::RemV(u) => vec![*u],
        Op::AddE(u, v) | Op::RemE(u, v) => vec![*u, *v],
        Op::AddVs(l) => l.iter().take(6).cloned().collect(),
        Op::AddEs(l) => l.iter().take(4).flat_map(|e| [e.0, e.1]).collect(),
        _ => vec![],
    }
}

pub(super) fn pool(r: &mut Rng) -> Vec<V> {
    let k = match r.below(5) { 0 => 2, 1 => 3, 2 => r.range(4, 8), 3 => r.range(8, 25), _ => r.range(25, 60) };
    gen::labels(r, k, u32::MAX)
}

pub(super) fn random_op(r: &mut Rng, p: &[V], bias: usize) -> Op {
    let v = |r: &mut Rng| p[r.below(p.len())];
    // bias 0: growth, 1: balanced, 2: shrink, 3: loops
    let x = r.below(20);
    let (a, b) = (v(r), if (bias == 3 && r.chance(0.5)) || r.chance(0.08) { None } else { Some(v(r)) });
    let b = b.unwrap_or(a);
    match (bias, x) {
        (0, 0..=10) => Op::AddE(a, b),
        (2, 0..=9) => if r.coin() { Op::RemV(a) } else { Op::RemE(a, b) },
        (_, 0..=2) => Op::AddV(a),
        (_, 3..=4) => Op::RemV(a),
        (_, 5..=9) => Op::AddE(a, b),
        (_, 10..=13) => Op::RemE(a, b),
        (_, 14..=15) => { let k = r.below(6); Op::AddVs((0..k).map(|_| v(r)).collect()) }
        (_, 16..=17) => { let k = r.below(8); Op::AddEs((0..k).map(|_| (v(r), v(r))).collect()) }
        (_, 18) => Op::Loops,
        _ => Op::Isos,
    }
}

fn c01(c: &mut Ctx, case: usize) -> R {
    let (a, b) = (7u32, 300_000u32);
    let ops: Vec<Op> = vec![Op::AddV(a), Op::AddV(b), Op::RemV(a), Op::RemV(b), Op::AddE(a, b), Op::AddE(b, a), Op::AddE(a, a), Op::AddE(b, b),
        Op::RemE(a, b), Op::RemE(b, a), Op::RemE(a, a), Op::Loops, Op::Isos];
    let len = if c.thorough { 5 } else { 4 };
    if case < ops.len() * ops.len() {
        // exhaustive: all continuations of a two-operation prefix
        let k = ops.len();
        let rest = k.pow(len as u32 - 2);
        for t in 0..rest {
            let mut seq = vec![case / k, case % k];
            let mut x = t;
            for _ in 2..len { seq.push(x % k); x /= k; }
            let mut g = EditGraph::new();
            let mut m = Model::new();
            let (mut ins, mut rem) = (0, 0);
            for (i, o) in seq.iter().enumerate() {
                if i == 0 { c.input(format!("EditGraph ops {:?}", seq.iter().map(|o| &ops[*o]).collect::<Vec<_>>())); }
                let (x, y) = apply(&mut g, &mut m, &ops[*o], false)?;
                ins += x; rem += y;
                spot(&g, &m, &[a, b])?;
            }
            graph_view(&mut c.rng, &g, &m, Nb::Yes)?;
            c.bump("operations", len as u64);
            c.eval(ins > 0 && rem > 0, (case * rest + t) as u64);
        }
        return Ok(());
    }
    let case = case - ops.len() * ops.len();
    if case < 9 { return c01_scale(c, case); }
    let mut r = c.rng.clone();
    let p = pool(&mut r);
    let n = if r.chance(0.2) { r.range(100, 250) } else { r.range(5, 60) };
    let mut bias = r.below(4);
    let mut g = if r.coin() { EditGraph::new() } else { EditGraph::with_capacity(r.below(50)) };
    let mut m = Model::new();
    let (mut ins, mut rem) = (0, 0);
    let mut h = 0u64;
    let mut log: Vec<String> = vec![];
    for i in 0..n {
        if r.chance(0.08) { bias = r.below(4) }
        let op = random_op(&mut r, &p, bias);
        let s = format!("{op:?}");
        h = mix(h ^ crate::rng::hash_bytes(s.as_bytes()));
        log.push(s);
        INPUT.with(|x| *x.borrow_mut() = format!("EditGraph ops {}", log.join(" ")));
        let (x, y) = apply(&mut g, &mut m, &op, r.coin())?;
        ins += x; rem += y;
        spot(&g, &m, &touched(&op))?;
        if i % 16 == 7 || matches!(op, Op::Loops | Op::Isos) { graph_view(&mut r, &g, &m, Nb::Yes)?; c.bump("full sweeps", 1); }
        c.bump("operations", 1);
    }
    graph_view(&mut r, &g, &m, Nb::Yes)?;
    c.bump("full sweeps", 1);
    c.bump("effective insertions", ins as u64);
    c.bump("effective removals", rem as u64);
    c.max("largest graph reached (vertices)", m.n() as u64);
    c.eval(ins > 0 && rem > 0, h);
    c.sample(|| format!("{} ops over {} ids, ends with {}", n, p.len(), m.show()));
    Ok(())
}

fn c01_scale(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let mut g = EditGraph::new();
    let mut m = Model::new();
    c.input(format!("scale history {k}"));
    match k {
        0 => { // hub with 70_000 leaves
            for i in 1..=70_000u32 { ensure!(g.add_edge(&0, &i), "add_edge(0,{i}) false"); m.add_edge(0, i); }
            ensure!(g.degree(&0) == 70_000 && g.num_edges() == 70_000, "hub degree {} edges {}", g.degree(&0), g.num_edges());
            for i in 30_000..30_100u32 { ensure!(g.remove_edge(&i, &0), "remove_edge false"); m.remove_edge(i, 0); }
            ensure!(g.degree(&0) == 69_900, "hub degree {}", g.degree(&0));
            ensure!(g.remove_isolates() == 100, "remove_isolates count wrong"); m.remove_isolates();
            ensure!(g.remove_vertex(&0), "remove hub"); m.remove_vertex(0);
            ensure!(g.num_edges() == 0, "edges left: {}", g.num_edges());
            spot(&g, &m, &[0, 1, 30_005, 70_000])?;
            graph_view(&mut r, &g, &m, Nb::Yes)?;
            // hubs of many sizes, with and without a loop, taken out and brought back
            for d in [1u32, 30, 40, 70, 130, 260, 520, 1030, 2050, 4100, 9000] {
                for l in [false, true] {
                    for i in 0..d { g.add_edge(&0, &(200_000 + i)); m.add_edge(0, 200_000 + i); }
                    if l { g.add_edge(&0, &0); m.add_edge(0, 0); }
                    ensure!(g.remove_vertex(&0) == m.remove_vertex(0), "remove_vertex of a vertex of degree {d}");
                    spot(&g, &m, &[0, 200_000, 200_000 + d - 1])?;
                    if l { let (a, b) = (g.add_edge(&0, &200_000), m.add_edge(0, 200_000)); ensure!(a == b, "add_edge(0,200000) returned {a}"); } else { let (a, b) = (g.add_vertex(&0), m.add_vertex(0)); ensure!(a == b, "add_vertex(0) returned {a}"); }
                    spot(&g, &m, &[0, 200_000, 200_000 + d - 1])?;
                }
            }
            graph_view(&mut r, &g, &m, Nb::Yes)?;
        }
        1 => { // clique with loops on everything
            let l = gen::labels(&mut r, 130, u32::MAX);
            for u in &l { for v in &l { let (a, b) = (g.add_edge(u, v), m.add_edge(*u, *v)); ensure!(a == b, "add_edge({u},{v}) returned {a}"); } }
            graph_view(&mut r, &g, &m, Nb::Yes)?;
            let (a, b) = (g.remove_loops(), m.remove_loops());
            ensure!(a == b, "remove_loops returned {a}");
            for u in l.iter().step_by(2) { g.remove_vertex(u); m.remove_vertex(*u); }
            graph_view(&mut r, &g, &m, Nb::Yes)?;
        }
        2 => { // many vertices, bulk
            let l: Vec<V> = (0..70_000u32).map(|i| i.wrapping_mul(2_654_435_761)).collect();
            let a = g.add_vertices(l.iter());
            ensure!(a == 70_000, "add_vertices returned {a}");
            for v in &l { m.add_vertex(*v); }
            let es: Vec<(V, V)> = (0..l.len() - 1).map(|i| (l[i], l[i + 1])).collect();
            let a = g.add_edges(es.iter());
            ensure!(a == 69_999, "add_edges returned {a}");
            for e in &es { m.add_edge(e.0, e.1); }
            let a = g.add_edges(es.iter().map(|e| (e.1, e.0)));
            ensure!(a == 0, "re-adding edges returned {a}");
            graph_view(&mut r, &g, &m, Nb::Yes)?;
            for i in (0..l.len()).step_by(3) { g.remove_vertex(&l[i]); m.remove_vertex(l[i]); }
            graph_view(&mut r, &g, &m, Nb::Yes)?;
            let (a, b) = (g.remove_isolates(), m.remove_isolates());
            ensure!(a == b, "remove_isolates returned {a} instead of {b}");
            graph_view(&mut r, &g, &m, Nb::Yes)?;
        }
        3 | 4 => { // fill and drain repeatedly over one pool
            let l = gen::labels(&mut r, 90, u32::MAX);
            for round in 0..4 {
                for _ in 0..1500 { let (u, v) = (l[r.below(90)], l[r.below(90)]); let (a, b) = (g.add_edge(&u, &v), m.add_edge(u, v)); ensure!(a == b, "add_edge({u},{v}) returned {a}"); }
                graph_view(&mut r, &g, &m, Nb::Yes)?;
                if round % 2 == 0 { for _ in 0..3000 { let (u, v) = (l[r.below(90)], l[r.below(90)]); let (a, b) = (g.remove_edge(&u, &v), m.remove_edge(u, v)); ensure!(a == b, "remove_edge({u},{v}) returned {a}"); } }
                else { for u in l.iter().take(80) { let (a, b) = (g.remove_vertex(u), m.remove_vertex(*u)); ensure!(a == b, "remove_vertex({u}) returned {a}"); } }
                graph_view(&mut r, &g, &m, Nb::Yes)?;
            }
        }
        6 | 7 => { // one very long history over a small / a middling pool
            let p = gen::labels(&mut r, if k == 6 { 12 } else { 220 }, u32::MAX);
            let mut bias = 1;
            let mut recent: Vec<String> = vec![];
            for i in 0..if k == 6 { 80_000 } else { 40_000 } {
                if r.chance(0.002) { bias = r.below(4) }
                let op = random_op(&mut r, &p, bias);
                recent.push(format!("{op:?}"));
                if recent.len() > 6 { recent.remove(0); }
                INPUT.with(|x| *x.borrow_mut() = format!("EditGraph history of {} operations, the last of them {}", i + 1, recent.join(" ")));
                apply(&mut g, &mut m, &op, i % 2 == 0)?;
                spot(&g, &m, &touched(&op))?;
                if i % 4000 == 3999 { graph_view(&mut r, &g, &m, Nb::Yes)?; }
            }
            graph_view(&mut r, &g, &m, Nb::Yes)?;
            c.bump("operations in long histories", 40_000);
        }
        8 => { // long lists with repetitions, loops and both directions, handed over in bulk
            let p = gen::labels(&mut r, 400, u32::MAX);
            for _ in 0..4 {
                let l: Vec<V> = (0..900).map(|_| p[r.below(p.len())]).collect();
                let mut es: Vec<(V, V)> = (0..9000).map(|_| (p[r.below(p.len())], p[r.below(p.len())])).collect();
                for i in 0..2000 { let e = es[r.below(i + 1)]; es.push(if r.coin() { e } else { (e.1, e.0) }); }
                apply(&mut g, &mut m, &Op::AddVs(l), r.coin())?;
                apply(&mut g, &mut m, &Op::AddEs(es), r.coin())?;
                graph_view(&mut r, &g, &m, Nb::Yes)?;
                for _ in 0..120 { let u = p[r.below(p.len())]; apply(&mut g, &mut m, &Op::RemV(u), true)?; }
                apply(&mut g, &mut m, &Op::Loops, true)?;
                apply(&mut g, &mut m, &Op::Isos, true)?;
                graph_view(&mut r, &g, &m, Nb::Yes)?;
            }
        }
        _ => { // dense bipartite with 300-degree vertices, removed vertex by vertex
            for i in 0..300u32 { for j in 0..40u32 { g.add_edge(&i, &(1_000_000 + j)); m.add_edge(i, 1_000_000 + j); } }
            for j in 0..40u32 { let v = 1_000_000 + j; ensure!(g.remove_vertex(&v), "remove_vertex"); m.remove_vertex(v); spot(&g, &m, &[j, v])?; }
            graph_view(&mut r, &g, &m, Nb::Yes)?;
        }
    }
    c.bump("scale histories", 1);
    c.eval(true, 1 << 40 | k as u64);
    Ok(())
}

#[derive(Clone, Debug)]
pub(super) enum DOp { AddV(V), RemV(V), AddA(V, V), RemA(V, V), AddVs(Vec<V>), AddAs(Vec<(V, V)>), Loops, Isos }

pub(super) fn dapply(g: &mut EditDigraph, m: &mut DiModel, op: &DOp, byref: bool) -> Result<(usize, usize), String> {
    Ok(match op {
        DOp::AddV(u) => { let (a, b) = (g.add_vertex(u), m.add_vertex(*u)); ensure!(a == b, "add_vertex({u}) returned {a}"); (b as usize, 0) }
        DOp::RemV(u) => { let (a, b) = (g.remove_vertex(u), m.remove_vertex(*u)); ensure!(a == b, "remove_vertex({u}) returned {a}"); (0, b as usize) }
        DOp::AddA(u, v) => { let (a, b) = (g.add_arc(u, v), m.add_arc(*u, *v)); ensure!(a == b, "add_arc({u},{v}) returned {a}"); (b as usize, 0) }
        DOp::RemA(u, v) => { let (a, b) = (g.remove_arc(u, v), m.remove_arc(*u, *v)); ensure!(a == b, "remove_arc({u},{v}) returned {a}"); (0, b as usize) }
        DOp::AddVs(l) => {
            let a = if byref { g.add_vertices(l.iter()) } else { g.add_vertices(l.clone()) };
            let b = l.iter().filter(|u| m.add_vertex(**u)).count();
            ensure!(a as usize == b, "add_vertices({l:?}) returned {a} instead of {b}"); (b, 0)
        }
        DOp::AddAs(l) => {
            let a = if byref { g.add_arcs(l.iter()) } else { g.add_arcs(l.clone()) };
            let b = l.iter().filter(|e| m.add_arc(e.0, e.1)).count();
            ensure!(a as usize == b, "add_arcs({l:?}) returned {a} instead of {b}"); (b, 0)
        }
        DOp::Loops => { let (a, b) = (g.remove_loops(), m.remove_loops()); ensure!(a == b, "remove_loops returned {a} instead of {b}"); (0, b) }
        DOp::Isos => { let (a, b) = (g.remove_isolates(), m.remove_isolates()); ensure!(a == b, "remove_isolates returned {a} instead of {b}"); (0, b) }
    })
}

fn dspot(g: &EditDigraph, m: &DiModel, touch: &[V]) -> R {
    ensure!(g.num_vertices() == m.n() && g.num_edges() == m.m(), "counts ({},{}) instead of ({},{})", g.num_vertices(), g.num_edges(), m.n(), m.m());
    for u in touch {
        ensure!(g.contains(u) == m.has(*u), "contains({u}) is {}", g.contains(u));
        if m.has(*u) {
            ensure!(g.in_degree(u) as usize == m.ins(*u).len(), "in_degree({u}) is {} instead of {}", g.in_degree(u), m.ins(*u).len());
            ensure!(g.out_degree(u) as usize == m.outs(*u).len(), "out_degree({u}) is {} instead of {}", g.out_degree(u), m.outs(*u).len());
            ensure!(g.degree(u) == g.in_degree(u) + g.out_degree(u), "degree({u}) is {}", g.degree(u));
        } else { ensure!(g.degree(u) == 0, "degree({u}) is {} where there is no such vertex", g.degree(u)); }
        for v in touch {
            ensure!(g.has_arc(u, v) == m.has_arc(*u, *v), "has_arc({u},{v}) is {}", g.has_arc(u, v));
            let a = m.has_arc(*u, *v) || m.has_arc(*v, *u);
            ensure!(g.adjacent(u, v) == a, "adjacent({u},{v}) is {}", g.adjacent(u, v));
        }
    }
    Ok(())
}

/// the directed reading of an undirected operation, and the vertices it touches
pub(super) fn as_dop(op: Op) -> (DOp, Vec<V>) {
    let t = touched(&op);
    (match op {
        Op::AddV(u) => DOp::AddV(u), Op::RemV(u) => DOp::RemV(u), Op::AddE(u, v) => DOp::AddA(u, v), Op::RemE(u, v) => DOp::RemA(u, v),
        Op::AddVs(l) => DOp::AddVs(l), Op::AddEs(l) => DOp::AddAs(l), Op::Loops => DOp::Loops, Op::Isos => DOp::Isos,
    }, t)
}

fn c02(c: &mut Ctx, case: usize) -> R {
    let (a, b) = (5u32, 70_000u32);
    let ops: Vec<DOp> = vec![DOp::AddV(a), DOp::AddV(b), DOp::RemV(a), DOp::RemV(b), DOp::AddA(a, b), DOp::AddA(b, a), DOp::AddA(a, a), DOp::AddA(b, b),
        DOp::RemA(a, b), DOp::RemA(b, a), DOp::RemA(a, a), DOp::Loops, DOp::Isos];
    let len = if c.thorough { 5 } else { 4 };
    let k = ops.len();
    if case < k * k {
        let rest = k.pow(len as u32 - 2);
        for t in 0..rest {
            let mut seq = vec![case / k, case % k];
            let mut x = t;
            for _ in 2..len { seq.push(x % k); x /= k; }
            let mut g = EditDigraph::new();
            let mut m = DiModel::new();
            let (mut ins, mut rem) = (0, 0);
            c.input(format!("EditDigraph ops {:?}", seq.iter().map(|o| &ops[*o]).collect::<Vec<_>>()));
            for o in &seq {
                let (x, y) = dapply(&mut g, &mut m, &ops[*o], false)?;
                ins += x; rem += y;
                dspot(&g, &m, &[a, b])?;
            }
            digraph_view(&mut c.rng, &g, &m)?;
            c.bump("operations", len as u64);
            c.eval(ins > 0 && rem > 0, (case * rest + t) as u64);
        }
        return Ok(());
    }
    let case = case - k * k;
    let mut r = c.rng.clone();
    if case < 6 {
        c.input(format!("scale history {case}"));
        let mut g = EditDigraph::new();
        let mut m = DiModel::new();
        match case {
            0 => {
                for i in 1..=40_000u32 { g.add_arc(&0, &i); m.add_arc(0, i); g.add_arc(&(i + 100_000), &0); m.add_arc(i + 100_000, 0); }
                dspot(&g, &m, &[0, 1, 100_001])?;
                ensure!(g.remove_vertex(&0), "remove hub"); m.remove_vertex(0);
                dspot(&g, &m, &[0, 1, 100_001])?;
                let (x, y) = (g.remove_isolates(), m.remove_isolates());
                ensure!(x == y, "remove_isolates returned {x} instead of {y}");
            }
            1 => {
                let l = gen::labels(&mut r, 90, u32::MAX);
                for u in &l { for v in &l { if r.chance(0.9) { let (a, b) = (g.add_arc(u, v), m.add_arc(*u, *v)); ensure!(a == b, "add_arc({u},{v}) returned {a}"); } } }
                digraph_view(&mut r, &g, &m)?;
                let (x, y) = (g.remove_loops(), m.remove_loops());
                ensure!(x == y, "remove_loops returned {x} instead of {y}");
                for u in l.iter().step_by(2) { g.remove_vertex(u); m.remove_vertex(*u); }
            }
            3 | 4 => { // one very long history over a small / a middling pool
                let p = gen::labels(&mut r, if case == 3 { 12 } else { 220 }, u32::MAX);
                let mut bias = 1;
                let mut recent: Vec<String> = vec![];
                for i in 0..if case == 3 { 80_000 } else { 40_000 } {
                    if r.chance(0.002) { bias = r.below(4) }
                    let (op, touch) = as_dop(random_op(&mut r, &p, bias));
                    recent.push(format!("{op:?}"));
                    if recent.len() > 6 { recent.remove(0); }
                    INPUT.with(|x| *x.borrow_mut() = format!("EditDigraph history of {} operations, the last of them {}", i + 1, recent.join(" ")));
                    dapply(&mut g, &mut m, &op, i % 2 == 0)?;
                    dspot(&g, &m, &touch)?;
                    if i % 4000 == 3999 { digraph_view(&mut r, &g, &m)?; }
                }
                c.bump("operations in long histories", 40_000);
            }
            5 => { // long lists with repetitions, loops and both directions, handed over in bulk
                let p = gen::labels(&mut r, 300, u32::MAX);
                for _ in 0..4 {
                    let l: Vec<V> = (0..900).map(|_| p[r.below(p.len())]).collect();
                    let mut es: Vec<(V, V)> = (0..6000).map(|_| (p[r.below(p.len())], p[r.below(p.len())])).collect();
                    for i in 0..2000 { let e = es[r.below(i + 1)]; es.push(if r.coin() { e } else { (e.1, e.0) }); }
                    dapply(&mut g, &mut m, &DOp::AddVs(l), r.coin())?;
                    dapply(&mut g, &mut m, &DOp::AddAs(es), r.coin())?;
                    digraph_view(&mut r, &g, &m)?;
                    // both directions one after the other, into new vertices
                    for odd in 0..2u32 {
                        let b = 3_000_000 + r.below(1 << 20) as u32;
                        let mut es: Vec<(V, V)> = if odd == 1 { vec![(b, b)] } else { vec![] };
                        for i in 0..700u32 { let (x, y) = (b + 1 + i, b + 1 + i * 7 % 701); if x != y { es.push((x, y)); es.push((y, x)); } }
                        let mut vs: Vec<V> = es.iter().flat_map(|e| [e.0, e.1]).collect();
                        let (mut h, mut hm) = (EditDigraph::new(), DiModel::new());
                        dapply(&mut h, &mut hm, &DOp::AddAs(es), r.coin())?;
                        digraph_view(&mut r, &h, &hm)?;
                        r.shuffle(&mut vs);
                        for v in vs.into_iter().take(300) { dapply(&mut h, &mut hm, &DOp::RemV(v), true)?; dspot(&h, &hm, &[v])?; }
                        digraph_view(&mut r, &h, &hm)?;
                    }
                    for _ in 0..90 { let u = p[r.below(p.len())]; dapply(&mut g, &mut m, &DOp::RemV(u), true)?; }
                    dapply(&mut g, &mut m, &DOp::Loops, true)?;
                    dapply(&mut g, &mut m, &DOp::Isos, true)?;
                    digraph_view(&mut r, &g, &m)?;
                }
            }
            _ => {
                let es: Vec<(V, V)> = (0..70_000u32).map(|i| (i, (i * 7 + 1) % 70_000)).collect();
                let x = g.add_arcs(es.iter());
                let y = es.iter().filter(|e| m.add_arc(e.0, e.1)).count();
                ensure!(x as usize == y, "add_arcs returned {x} instead of {y}");
                for i in (0..70_000u32).step_by(5) { g.remove_arc(&es[i as usize].0, &es[i as usize].1); m.remove_arc(es[i as usize].0, es[i as usize].1); }
            }
        }
        digraph_view(&mut r, &g, &m)?;
        c.bump("scale histories", 1);
        c.eval(true, 1 << 40 | case as u64);
        return Ok(());
    }
    let p = pool(&mut r);
    let n = if r.chance(0.2) { r.range(100, 200) } else { r.range(5, 60) };
    let mut bias = r.below(4);
    let mut g = if r.coin() { EditDigraph::new() } else { EditDigraph::with_capacity(r.below(50)) };
    let mut m = DiModel::new();
    let (mut ins, mut rem, mut h) = (0, 0, 0u64);
    let mut log: Vec<String> = vec![];
    for i in 0..n {
        if r.chance(0.08) { bias = r.below(4) }
        let op = match random_op(&mut r, &p, bias) {
            Op::AddV(u) => DOp::AddV(u), Op::RemV(u) => DOp::RemV(u), Op::AddE(u, v) => DOp::AddA(u, v), Op::RemE(u, v) => DOp::RemA(u, v),
            Op::AddVs(l) => DOp::AddVs(l), Op::AddEs(l) => DOp::AddAs(l), Op::Loops => DOp::Loops, Op::Isos => DOp::Isos,
        };
        let s = format!("{op:?}");
        h = mix(h ^ crate::rng::hash_bytes(s.as_bytes()));
        log.push(s);
        INPUT.with(|x| *x.borrow_mut() = format!("EditDigraph ops {}", log.join(" ")));
        let t: Vec<V> = match &op { DOp::AddV(u) | DOp::RemV(u) => vec![*u], DOp::AddA(u, v) | DOp::RemA(u, v) => vec![*u, *v], _ => vec![] };
        let (x, y) = dapply(&mut g, &mut m, &op, r.coin())?;
        ins += x; rem += y;
        dspot(&g, &m, &t)?;
        if i % 16 == 7 || matches!(op, DOp::Loops | DOp::Isos) { digraph_view(&mut r, &g, &m)?; c.bump("full sweeps", 1); }
        c.bump("operations", 1);
    }
    digraph_view(&mut r, &g, &m)?;
    c.bump("full sweeps", 1);
    c.bump("effective insertions", ins as u64);
    c.bump("effective removals", rem as u64);
    c.eval(ins > 0 && rem > 0, h);
    c.sample(|| format!("{} ops over {} ids, ends with {}", n, p.len(), m.show()));
    Ok(())
}

fn c03(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let big = case % 500 == 3;
    if case % 2 == 0 {
        let m = if big { gen::random_model(&mut r, &gen::loopy(300)) } else { gen::random_model(&mut r, &gen::loopy(16)) };
        c.input(m.show());
        let (g, h) = (gen::build(&mut r, &m), gen::build(&mut r, &m));
        ensure!(g == h && h == g && g == g, "graphs with the same structure but different histories compare unequal");
        c.bump("equal pairs", 1);
        // minimally different models
        for d in variants(&mut r, &m) {
            let x = gen::build(&mut r, &d);
            ensure!(g != x && x != g, "compares equal to the different graph {}", d.show());
            c.bump("unequal pairs", 1);
        }
        // clone
        let mut g1 = g.clone();
        ensure!(g1 == g, "clone differs from original");
        graph_view(&mut r, &g1, &m, Nb::Yes)?;
        let mut g = g;
        let mut m1 = m.clone();
        let mut m0 = m.clone();
        let p: Vec<V> = { let mut p = m.verts(); p.push(12345); p.push(r.u32()); p };
        for _ in 0..6 {
            let op = { let b = r.below(4); random_op(&mut r, &p, b) };
            if r.coin() { apply(&mut g1, &mut m1, &op, true)?; } else { apply(&mut g, &mut m0, &op, true)?; }
        }
        graph_view(&mut r, &g1, &m1, Nb::Yes).map_err(|e| format!("clone after independent edits: {e}"))?;
        graph_view(&mut r, &g, &m0, Nb::Yes).map_err(|e| format!("original after independent edits: {e}"))?;
        // collect
        let mut l = vec![];
        for e in m.edges() { for _ in 0..r.range(1, 3) { l.push(if r.coin() { e } else { (e.1, e.0) }) } }
        r.shuffle(&mut l);
        let want = Model::from_parts(&[], &l);
        let col: EditGraph = l.iter().cloned().collect();
        graph_view(&mut r, &col, &want, Nb::Yes).map_err(|e| format!("collected from {l:?}: {e}"))?;
        c.eval(m.m() > 0, m.h());
        c.sample(|| m.show());
    } else {
        let m = if big { gen::random_dimodel(&mut r, 200, 0.4, u32::MAX) } else { gen::random_dimodel(&mut r, 14, 0.4, u32::MAX) };
        c.input(format!("digraph {}", m.show()));
        let (g, h) = (gen::build_di(&mut r, &m), gen::build_di(&mut r, &m));
        ensure!(g == h && h == g, "digraphs with the same structure but different histories compare unequal");
        c.bump("equal pairs", 1);
        for d in divariants(&mut r, &m) {
            let x = gen::build_di(&mut r, &d);
            ensure!(g != x && x != g, "compares equal to the different digraph {}", d.show());
            c.bump("unequal pairs", 1);
        }
        let mut g1 = g.clone();
        ensure!(g1 == g, "clone differs from original");
        digraph_view(&mut r, &g1, &m)?;
        let mut g = g;
        let (mut m0, mut m1) = (m.clone(), m.clone());
        let p: Vec<V> = { let mut p = m.verts(); p.push(12345); p.push(r.u32()); p };
        for _ in 0..6 {
            let (u, v) = (p[r.below(p.len())], p[r.below(p.len())]);
            let op = match r.below(5) { 0 => DOp::AddA(u, v), 1 => DOp::RemA(u, v), 2 => DOp::RemV(u), 3 => DOp::AddV(u), _ => DOp::Isos };
            if r.coin() { dapply(&mut g1, &mut m1, &op, true)?; } else { dapply(&mut g, &mut m0, &op, true)?; }
        }
        digraph_view(&mut r, &g1, &m1).map_err(|e| format!("clone after independent edits: {e}"))?;
        digraph_view(&mut r, &g, &m0).map_err(|e| format!("original after independent edits: {e}"))?;
        let mut l = vec![];
        for e in m.arcs() { for _ in 0..r.range(1, 3) { l.push(e) } }
        r.shuffle(&mut l);
        let mut want = DiModel::new();
        for e in &l { want.add_arc(e.0, e.1); }
        let col: EditDigraph = l.iter().cloned().collect();
        digraph_view(&mut r, &col, &want).map_err(|e| format!("collected from {l:?}: {e}"))?;
        c.eval(m.m() > 0, m.h());
    }
    Ok(())
}

fn variants(r: &mut Rng, m: &Model) -> Vec<Model> {
    let mut out = vec![];
    let es = m.edges();
    let vs = m.verts();
    if let Some(e) = r.pick(&es) { let mut d = m.clone(); d.remove_edge(e.0, e.1); out.push(d); }
    { let mut d = m.clone(); let x = r.u32(); if d.add_vertex(x) { out.push(d) } }
    if let (Some(u), Some(v)) = (r.pick(&vs), r.pick(&vs)) { let mut d = m.clone(); if d.add_edge(*u, *v) { out.push(d) } }
    // isolated vertex renamed: same counts, same edges
    if let Some(u) = vs.iter().find(|u| m.nbrs(**u).is_empty()) { let mut d = m.clone(); let x = r.u32(); if !m.has(x) { d.remove_vertex(*u); d.add_vertex(x); out.push(d) } }
    // degree-preserving switch
    for _ in 0..20 {
        if let (Some(&(a, b)), Some(&(x, y))) = (r.pick(&es), r.pick(&es)) {
            let s: BTreeSet<V> = [a, b, x, y].into_iter().collect();
            if s.len() == 4 && !m.adjacent(a, x) && !m.adjacent(b, y) {
                let mut d = m.clone();
                d.remove_edge(a, b); d.remove_edge(x, y); d.add_edge(a, x); d.add_edge(b, y);
                out.push(d);
                break;
            }
        }
    }
    out
}

fn divariants(r: &mut Rng, m: &DiModel) -> Vec<DiModel> {
    let mut out = vec![];
    let es = m.arcs();
    let vs = m.verts();
    if let Some(e) = r.pick(&es) { let mut d = m.clone(); d.remove_arc(e.0, e.1); out.push(d); }
    { let mut d = m.clone(); let x = r.u32(); if d.add_vertex(x) { out.push(d) } }
    if let (Some(u), Some(v)) = (r.pick(&vs), r.pick(&vs)) { let mut d = m.clone(); if d.add_arc(*u, *v) { out.push(d) } }
    if let Some(&(a, b)) = r.pick(&es) { if !m.has_arc(b, a) { let mut d = m.clone(); d.remove_arc(a, b); d.add_arc(b, a); out.push(d) } }
    { // all arcs reversed
        let mut d = DiModel::new(); for v in &vs { d.add_vertex(*v); } for (a, b) in &es { d.add_arc(*b, *a); } if d != *m { out.push(d) } }
    for _ in 0..20 { // in/out-degree preserving switch
        if let (Some(&(a, b)), Some(&(x, y))) = (r.pick(&es), r.pick(&es)) {
            if a != x && b != y && !m.has_arc(a, y) && !m.has_arc(x, b) {
                let mut d = m.clone();
                d.remove_arc(a, b); d.remove_arc(x, y); d.add_arc(a, y); d.add_arc(x, b);
                out.push(d);
                break;
            }
        }
    }
    for _ in 0..20 { // out-degree preserving retarget
        if let (Some(&(a, b)), Some(&w)) = (r.pick(&es), r.pick(&vs)) {
            if w != b && !m.has_arc(a, w) { let mut d = m.clone(); d.remove_arc(a, b); d.add_arc(a, w); out.push(d); break }
        }
    }
    out
}

fn c04(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let o = if case % 400 == 1 { gen::loopy(150) } else { gen::loopy(12) };
    let mut m = gen::random_model(&mut r, &o);
    while m.n() == 0 { m = gen::random_model(&mut r, &o) }
    let vs = m.verts();
    let centre = vs[r.below(vs.len())];
    let p = r.f();
    let mut mem = r.subset(&vs, p);
    if r.chance(0.3) { mem.truncate(2) }
    if r.chance(0.4) { for _ in 0..2 { if let Some(x) = r.pick(&mem).cloned() { mem.push(x) } } }
    if r.chance(0.3) { mem.push(centre) }
    r.shuffle(&mut mem);
    let mut g = gen::build(&mut r, &m);
    let members: BTreeSet<V>;
    let what;
    match r.below(3) {
        0 => {
            what = format!("contract_into({centre}, {mem:?})");
            c.input(format!("{what} on {}", m.show()));
            if r.coin() { g.contract_into(&centre, mem.iter()) } else { g.contract_into(&centre, mem.clone()) }
            members = mem.iter().cloned().filter(|x| *x != centre).collect();
        }
        1 => {
            let mut seq = vec![centre];
            seq.extend(&mem);
            what = format!("contract({seq:?})");
            c.input(format!("{what} on {}", m.show()));
            let u = if r.coin() { g.contract(seq.iter()) } else { g.contract(seq.clone()) };
            ensure!(u == centre, "{what} returned {u}");
            members = mem.iter().cloned().filter(|x| *x != centre).collect();
        }
        _ => {
            let v = if r.chance(0.1) { centre } else { vs[r.below(vs.len())] };
            what = format!("contract_pair({centre}, {v})");
            c.input(format!("{what} on {}", m.show()));
            g.contract_pair(&centre, &v);
            members = [v].into_iter().filter(|x| *x != centre).collect();
        }
    }
    // definition
    let mut want = m.clone();
    let mut new: BTreeSet<V> = BTreeSet::new();
    for x in &members { for y in m.nbrs(*x) { if !members.contains(&y) && y != centre { new.insert(y); } } }
    for x in &members { want.remove_vertex(*x); }
    for y in &new { want.add_edge(centre, *y); }
    if !want.has(centre) { fail!("oracle lost the centre") }
    graph_view(&mut r, &g, &want, Nb::Yes).map_err(|e| format!("after {what}: {e}"))?;
    c.bump("vertices contracted away", members.len() as u64);
    c.bump("edges gained by the centre", new.len() as u64);
    c.eval(members.iter().any(|x| !m.nbrs(*x).is_empty()), mix(m.h() ^ crate::rng::hash_bytes(what.as_bytes())));
    c.sample(|| format!("{what} on {}", m.show()));
    Ok(())
}
