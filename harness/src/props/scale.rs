//! Scale cases: a few executions per property beyond byte, 64-bit-word and
//! 16-bit boundaries (vertices, degrees, positions, distances, classes).
use super::{algo, build, dtf, io, iter, lin, ops, reach, trace};
use super::build::union_shape;
use crate::ctx::*;
use crate::gen;
use crate::model::*;
use crate::refgraph::*;
use crate::rng::Rng;
use crate::views::*;
use crate::{ensure, fail};
use graphbench::algorithms::*;
use graphbench::datastructures::SReachTraceOracle;
use graphbench::degengraph::*;
use graphbench::dtfgraph::*;
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::iterators::*;
use graphbench::operations::*;
use graphbench::ordgraph::OrdGraph;
use graphbench::reachgraph::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn count(id: &str) -> usize {
    match id {
        "C03" => 8, "C04" => 5, "C05" => 5, "C06" => 6, "C07" => 3, "C08" => 7, "C09" => 3, "C10" => 3, "C11" => 2, "C12" => 4, "C13" => 6, "C14" => 6, "C15" => 4,
        "C17" => 7, "C18" => 7, "C19" => 7, "C20" => 6, "C21" => 6, "C22" => 6, "C23" => 6, "C24" => 8,
        "C25" => 8, "C26" => 8, "C27" => 5, "C28" => 5, "C29" => 15, "C30" => 13, "C31" => 14,
        "C32" => 12, "C33" => 10, "C34" => 28, "C35" => 6, "C36" => 6, "C37" => 5,
        _ => 0,
    }
}

pub fn run(c: &mut Ctx, id: &str, k: usize) -> R {
    c.input(format!("scale case {k} of {id}"));
    c.bump("scale_cases", 1);
    match id {
        "C03" => c03(c, k), "C04" => c04(c, k), "C05" => c05(c, k), "C06" => c06(c, k), "C07" => c07(c, k), "C08" => c08(c, k), "C09" => c09(c, k), "C10" => c10(c, k), "C11" => c11(c, k),
        "C12" => c12(c, k), "C13" => c13(c, k), "C14" => io::c14_scale(c, k), "C15" => io::c15_scale(c, k), "C17" => c17(c, k), "C18" => c18(c, k), "C19" => c19(c, k), "C20" => c20(c, k),
        "C21" => c21(c, k), "C22" => c22(c, k), "C23" => c23(c, k), "C24" => c24(c, k), "C25" => c25(c, k), "C26" => c26(c, k),
        "C27" => c27(c, k), "C28" => c28(c, k), "C29" => c29(c, k), "C30" => c30(c, k), "C31" => c31(c, k), "C32" => c32(c, k),
        "C33" => c33(c, k), "C34" => c34(c, k), "C35" => c35(c, k), "C36" => c36(c, k), "C37" => c37(c, k),
        _ => Ok(()),
    }
}

// ------------------------------------------------------------ large inputs

fn labelled(r: &mut Rng, n: usize, e: &[(usize, usize)]) -> Model {
    let l: Vec<V> = match r.below(4) {
        0 => (0..n as u32).collect(),
        1 => (0..n as u32).map(|i| i.wrapping_mul(2_654_435_761)).collect(),
        2 => (0..n as u32).map(|i| u32::MAX - 3 * i).collect(),
        _ => { let mut l: Vec<V> = (0..n as u32).map(|i| i * 2 + 1).collect(); r.shuffle(&mut l); l }
    };
    let mut m = Model::new();
    for v in &l { m.add_vertex(*v); }
    for (u, v) in e { m.add_edge(l[*u], l[*v]); }
    m
}
fn path_e(n: usize) -> Vec<(usize, usize)> { (1..n).map(|i| (i - 1, i)).collect() }
fn cycle_e(n: usize) -> Vec<(usize, usize)> { let mut e = path_e(n); e.push((n - 1, 0)); e }
fn star_e(n: usize) -> Vec<(usize, usize)> { (1..n).map(|i| (0, i)).collect() }
fn clique_e(n: usize) -> Vec<(usize, usize)> { let mut e = vec![]; for i in 0..n { for j in 0..i { e.push((j, i)) } } e }
fn tree_e(r: &mut Rng, n: usize) -> Vec<(usize, usize)> { (1..n).map(|i| (r.below(i), i)).collect() }
fn sparse_e(r: &mut Rng, n: usize, k: usize) -> Vec<(usize, usize)> { (0..k).map(|_| (r.below(n), r.below(n))).filter(|e| e.0 != e.1).collect() }
/// loops at the vertex of greatest degree and at a fraction of the others
fn add_loops(r: &mut Rng, m: &mut Model, p: f64) {
    let vs = m.verts();
    if let Some(h) = vs.iter().max_by_key(|v| m.degree(**v)) { m.add_edge(*h, *h); }
    for v in vs { if r.chance(p) { m.add_edge(v, v); } }
}
/// vertices of a path-like model from one end to the other
fn along(m: &Model) -> Vec<V> {
    let start = m.adj.iter().find(|(_, n)| n.len() == 1).map(|(v, _)| *v).unwrap_or(0);
    let (mut o, mut prev, mut cur) = (vec![start], start, start);
    while let Some(x) = m.nbrs(cur).into_iter().find(|x| *x != prev) { if x == start || o.len() > m.n() { break } prev = cur; cur = x; o.push(x); }
    o
}
fn orders(r: &mut Rng, m: &Model, line: &[V]) -> Vec<Vec<V>> {
    let mut a = line.to_vec();
    if a.len() != m.n() { a = m.verts() }
    let mut b = a.clone(); b.reverse();
    let mut s = a.clone(); r.shuffle(&mut s);
    vec![a, b, s]
}
/// one large sparse graph: path, star, tree, random, cliques + hub
fn large(r: &mut Rng, k: usize, n: usize) -> Model {
    let e = match k % 5 {
        0 => path_e(n),
        1 => star_e(n),
        2 => tree_e(r, n),
        3 => sparse_e(r, n, 2 * n),
        _ => { let mut e = vec![]; for b in 0..n / 40 { for i in 0..6 { for j in 0..i { e.push((b * 40 + i, b * 40 + j)) } } } for i in (1..n).step_by(3) { e.push((0, i)) } e }
    };
    labelled(r, n, &e)
}

// ------------------------------------------------------------ C03, C04

fn c03(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let differ = |what: &str, g: &EditGraph, h: &EditGraph| -> R { ensure!(g != h && h != g, "{what}: different graphs compare equal"); Ok(()) };
    match k {
        0 => { // every graph on the vertices 0..5, pairs with the same degrees at the same vertices
            let n = 6u32;
            let prs: Vec<(V, V)> = (0..n).flat_map(|i| (0..i).map(move |j| (j, i))).collect();
            let mut buckets: HashMap<Vec<u32>, Vec<u32>> = HashMap::new();
            for code in 0..1u32 << prs.len() {
                let mut d = vec![0; n as usize];
                for (b, e) in prs.iter().enumerate() { if code >> b & 1 == 1 { d[e.0 as usize] += 1; d[e.1 as usize] += 1 } }
                buckets.entry(d).or_default().push(code);
            }
            let mk = |code: u32| -> EditGraph { let mut g = EditGraph::new(); for v in 0..n { g.add_vertex(&v); } for (b, e) in prs.iter().enumerate() { if code >> b & 1 == 1 { g.add_edge(&e.0, &e.1); } } g };
            let mut pairs = 0;
            let mut keys: Vec<_> = buckets.into_values().filter(|b| b.len() > 1).collect();
            keys.sort();
            for b in keys {
                let gs: Vec<EditGraph> = b.iter().map(|x| mk(*x)).collect();
                let lim = if gs.len() <= 12 { gs.len() * gs.len() } else { 120 };
                for t in 0..lim {
                    let (i, j) = if gs.len() <= 12 { (t / gs.len(), t % gs.len()) } else { (r.below(gs.len()), r.below(gs.len())) };
                    if i < j { c.input(format!("graphs {:b} and {:b} over {prs:?}", b[i], b[j])); differ("same degrees", &gs[i], &gs[j])?; pairs += 1 }
                }
            }
            c.bump("unequal pairs", pairs);
        }
        6 => { // graphs on 0..6 (and 1..7, and spread labels): pairs that agree, at every vertex, on a digest of the neighbourhood
            let n = 7usize;
            for (l, kind) in (0..4).flat_map(|l| (0..4).map(move |k| (l, k))) {
                let lab: Vec<u64> = (0..n as u64).map(|i| match l { 0 => i, 1 => i + 1, 2 => i * 3 + 65_534, _ => u32::MAX as u64 - i }).collect();
                let prs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..i).map(move |j| (j, i))).collect();
                let mut buckets: HashMap<[u64; 7], Vec<u32>> = HashMap::new();
                let step = if l == 0 { 1 } else { 9 };
                for code in (0..1u32 << prs.len()).step_by(step) {
                    let mut nb = [0u32; 7];
                    for (b, e) in prs.iter().enumerate() { if code >> b & 1 == 1 { nb[e.0] |= 1 << e.1; nb[e.1] |= 1 << e.0 } }
                    if nb.iter().map(|x| x.count_ones()).sum::<u32>() > 24 || kind == 3 && nb[0].count_ones() < 2 { continue }
                    let mut key = [0u64; 7];
                    for v in 0..n {
                        let it = (0..n).filter(|x| nb[v] >> x & 1 == 1).map(|x| lab[x]);
                        let d = nb[v].count_ones() as u64;
                        key[v] = match kind { 0 => it.sum::<u64>() << 3 | d, 1 => it.fold(0, |a, x| a ^ x) << 3 | d, 2 => it.fold(1, |a: u64, x| a.wrapping_mul(x + 1)) << 3 | d, _ => { let (mn, mx) = it.fold((99 << 32, 0), |a: (u64, u64), x| (a.0.min(x), a.1.max(x))); d | mn << 3 ^ mx << 36 } };
                    }
                    buckets.entry(key).or_default().push(code);
                }
                let mk = |code: u32| -> EditGraph { let mut g = EditGraph::new(); for v in &lab { g.add_vertex(&(*v as u32)); } for (b, e) in prs.iter().enumerate() { if code >> b & 1 == 1 { g.add_edge(&(lab[e.0] as u32), &(lab[e.1] as u32)); } } g };
                let mut bs: Vec<Vec<u32>> = buckets.into_values().filter(|b| b.len() > 1).collect();
                bs.sort();
                r.shuffle(&mut bs);
                for b in bs.iter().take(60) {
                    let (i, j) = (0, 1 + r.below(b.len() - 1));
                    c.input(format!("graphs {:b} and {:b} over {prs:?} with labels {lab:?}", b[i], b[j]));
                    differ(["same neighbour sums", "same neighbour xors", "same neighbour products", "same least and greatest neighbours"][kind], &mk(b[i]), &mk(b[j]))?;
                    c.bump("unequal pairs with equal digests", 1);
                }
            }
            // sides whose labels split into two halves with equal power sums (and equal xors): one graph joins
            // the equal halves, the other the opposite ones, so every vertex keeps its degree and these digests
            for t in 0..60u32 {
                let (la, lb) = (1u32 << r.range(2, 4), 1u32 << r.range(2, 4));
                let base = [0u32, 8, 64, 1 << 20, u32::MAX - 255][r.below(5)];
                let step = [1u32, 2, 3][r.below(3)];
                let la_at = |i: u32| base + i * step;
                let lb_at = |j: u32| base + (la + j) * step + (t % 3) * 8;
                let (mut g, mut h) = (EditGraph::new(), EditGraph::new());
                let (mut gd, mut hd) = (EditDigraph::new(), EditDigraph::new());
                for i in 0..la { for j in 0..lb {
                    let (u, v) = (la_at(i), lb_at(j));
                    for x in [u, v] { g.add_vertex(&x); h.add_vertex(&x); gd.add_vertex(&x); hd.add_vertex(&x); }
                    if (i.count_ones() + j.count_ones()) % 2 == 0 { g.add_edge(&u, &v); gd.add_arc(&u, &v); } else { h.add_edge(&u, &v); hd.add_arc(&u, &v); }
                } }
                // a common part
                for _ in 0..r.below(40) { let (i, j) = (r.below(la as usize) as u32, r.below(la as usize) as u32); if i != j { g.add_edge(&la_at(i), &la_at(j)); h.add_edge(&la_at(i), &la_at(j)); gd.add_arc(&la_at(i), &la_at(j)); hd.add_arc(&la_at(i), &la_at(j)); } }
                c.input(format!("halves of {la} + {lb} labels from {base} by {step}, joined alike and crosswise"));
                differ("same power sums", &g, &h)?;
                ensure!(gd != hd && hd != gd, "same power sums: different digraphs compare equal");
                c.bump("unequal pairs with equal digests", 1);
            }
        }
        7 => { // dense graphs and digraphs: edges exchanged between vertices of high degree only
            for t in 0..24 {
                let n = [40, 70, 100, 300][t % 4];
                let off = r.u32() >> r.below(30);
                let mut m = Model::new();
                let mut d = DiModel::new();
                for i in 0..n { m.add_vertex(off.wrapping_add(i)); d.add_vertex(off.wrapping_add(i)); for j in 0..i { if r.below(4) != 0 { m.add_edge(off.wrapping_add(j), off.wrapping_add(i)); }
                    if r.coin() { d.add_arc(off.wrapping_add(j), off.wrapping_add(i)); } if r.coin() { d.add_arc(off.wrapping_add(i), off.wrapping_add(j)); } } }
                let vs = m.verts();
                let (g, gd) = (gen::build(&mut r, &m), gen::build_di(&mut r, &d));
                let (mut x, mut y) = (m.clone(), d.clone());
                let (mut a, mut b) = (0, 0);
                for _ in 0..4000 {
                    let q: Vec<V> = (0..4).map(|_| vs[r.below(vs.len())]).collect();
                    if q.iter().collect::<BTreeSet<_>>().len() < 4 { continue }
                    if a == 0 && m.adjacent(q[0], q[1]) && m.adjacent(q[2], q[3]) && !m.adjacent(q[0], q[2]) && !m.adjacent(q[1], q[3]) {
                        x.remove_edge(q[0], q[1]); x.remove_edge(q[2], q[3]); x.add_edge(q[0], q[2]); x.add_edge(q[1], q[3]); a = 1;
                    }
                    if b == 0 && d.has_arc(q[0], q[1]) && d.has_arc(q[2], q[3]) && !d.has_arc(q[0], q[3]) && !d.has_arc(q[2], q[1]) {
                        y.remove_arc(q[0], q[1]); y.remove_arc(q[2], q[3]); y.add_arc(q[0], q[3]); y.add_arc(q[2], q[1]); b = 1;
                    }
                    if a + b == 2 { break }
                }
                c.input(format!("dense graphs on {n} vertices from {off}, one exchange of two edges"));
                if a == 1 { differ("dense, two edges exchanged", &g, &gen::build(&mut r, &x))?; }
                if b == 1 { let h = gen::build_di(&mut r, &y); ensure!(gd != h && h != gd, "dense digraphs, two arcs exchanged: different digraphs compare equal"); }
                ensure!(g == gen::build(&mut r, &m) && gd == gen::build_di(&mut r, &d), "dense graphs with the same structure compare unequal");
                c.bump("dense unequal pairs", a + b);
            }
        }
        1 => { // every graph with loops on 0..3: all pairs
            let prs: Vec<(V, V)> = (0..4u32).flat_map(|i| (0..=i).map(move |j| (j, i))).collect();
            let gs: Vec<EditGraph> = (0..1u32 << prs.len()).map(|code| { let mut g = EditGraph::new(); for v in 0..4 { g.add_vertex(&v); } for (b, e) in prs.iter().enumerate() { if code >> b & 1 == 1 { g.add_edge(&e.1, &e.0); } } g }).collect();
            for i in 0..gs.len() { for j in 0..=i {
                if (gs[i] == gs[j]) != (i == j) { fail!("graphs {i:b} and {j:b} over {prs:?}: equality is {}", gs[i] == gs[j]) }
            } }
            c.bump("unequal pairs", (gs.len() * gs.len() / 2) as u64);
        }
        2 => { // every digraph with loops on 0..2: all pairs; digraphs on 0..3 by random pairs
            let prs: Vec<(V, V)> = (0..3u32).flat_map(|i| (0..3u32).map(move |j| (i, j))).collect();
            let gs: Vec<EditDigraph> = (0..1u32 << prs.len()).map(|code| { let mut g = EditDigraph::new(); for v in 0..3 { g.add_vertex(&v); } for (b, e) in prs.iter().enumerate() { if code >> b & 1 == 1 { g.add_arc(&e.0, &e.1); } } g }).collect();
            for i in 0..gs.len() { for j in 0..gs.len() {
                if (gs[i] == gs[j]) != (i == j) { fail!("digraphs {i:b} and {j:b} over {prs:?}: equality is {}", gs[i] == gs[j]) }
            } }
            c.bump("unequal pairs", (gs.len() * gs.len() / 2) as u64);
        }
        3 | 4 => { // large graphs differing in one place
            let m = large(&mut r, [4, 1][k - 3], 20_000);
            let g = gen::build(&mut r, &m);
            ensure!(g == gen::build(&mut r, &m), "large graphs with the same structure compare unequal");
            let (es, vs) = (m.edges(), m.verts());
            let hub = *vs.iter().max_by_key(|v| m.degree(**v)).unwrap_or(&0);
            for t in 0..14 {
                let mut d = m.clone();
                match if t < 6 { t } else { 1 + (t - 6) % 5 } {
                    0 => { // one leaf of the hub exchanged for a non-neighbour; degrees repaired elsewhere
                        let (Some(a), Some(b)) = (vs.iter().find(|v| m.adjacent(hub, **v) && m.degree(**v) == 1), vs.iter().find(|v| !m.adjacent(hub, **v) && **v != hub)) else { continue };
                        d.remove_edge(hub, *a); d.add_edge(hub, *b); }
                    1 | 2 => { let mut done = false; for _ in 0..2000 { let (e, f) = (es[r.below(es.len())], es[r.below(es.len())]); let s: BTreeSet<V> = [e.0, e.1, f.0, f.1].into(); if s.len() == 4 && !m.adjacent(e.0, f.0) && !m.adjacent(e.1, f.1) { d.remove_edge(e.0, e.1); d.remove_edge(f.0, f.1); d.add_edge(e.0, f.0); d.add_edge(e.1, f.1); done = true; break } } if !done { continue } }
                    3 => { let e = es[r.below(es.len())]; d.remove_edge(e.0, e.1); d.add_edge(e.0, e.0); }
                    4 => { d.add_vertex(r.u32() | 1); if d.n() == m.n() { continue } }
                    _ => { let x = vs[r.below(vs.len())]; d.add_edge(x, x); }
                }
                c.input(format!("scale case {k}: large graph and a variant of kind {t}"));
                differ(&format!("large, kind {t}"), &g, &gen::build(&mut r, &d))?;
                c.bump("unequal pairs", 1);
            }
            let x = g.clone();
            ensure!(x == g, "clone of a large graph differs");
            graph_view(&mut r, &x, &m, Nb::Yes)?;
        }
        _ => { // digraph hubs: one arc turned round, one pair of arcs exchanged
            let mut d = DiModel::new();
            for i in 1..3000u32 { d.add_arc(0, i); d.add_arc(i, 5000); d.add_arc(i, i % 50 + 6000); }
            let g = gen::build_di(&mut r, &d);
            ensure!(g == gen::build_di(&mut r, &d), "large digraphs with the same structure compare unequal");
            for t in 0..4u32 {
                let mut e = d.clone();
                match t {
                    0 => { e.remove_arc(0, 77); e.add_arc(77, 0); }
                    1 => { e.remove_arc(78, 5000); e.add_arc(5000, 78); }
                    2 => { e.remove_arc(101, 6001); e.remove_arc(102, 6002); e.add_arc(101, 6002); e.add_arc(102, 6001); }
                    _ => { e.add_vertex(9999); }
                }
                let h = gen::build_di(&mut r, &e);
                ensure!(g != h && h != g, "large digraph, kind {t}: different digraphs compare equal");
            }
            let x = g.clone();
            ensure!(x == g, "clone of a large digraph differs");
            digraph_view(&mut r, &x, &d)?;
        }
    }
    c.eval(true, 1 << 61 | k as u64);
    Ok(())
}

fn c04(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let mut m = match k { 0 => large(&mut r, 1, 70_000), 1 => large(&mut r, 4, 6000), 2 => { let e = clique_e(260); labelled(&mut r, 260, &e) } 3 => large(&mut r, 0, 3000), _ => large(&mut r, 3, 3000) };
    if r.coin() { add_loops(&mut r, &mut m, 0.2); }
    let vs = m.verts();
    let hub = *vs.iter().max_by_key(|v| m.degree(**v)).unwrap_or(&0);
    for t in 0..4 {
        let (centre, mem): (V, Vec<V>) = match t {
            0 => { let x = vs[r.below(vs.len())]; (x, vec![hub]) } // the hub is merged into a leaf
            1 => (hub, r.subset(&vs, 0.3)),
            2 => { let x = vs[r.below(vs.len())]; (x, r.subset(&vs, 0.7)) }
            _ => (vs[r.below(vs.len())], vs.clone()), // everything
        };
        c.input(format!("scale case {k}: contraction of {} vertices into {centre}", mem.len()));
        let mut g = gen::build(&mut r, &m);
        let members: BTreeSet<V> = mem.iter().cloned().filter(|x| *x != centre).collect();
        if mem.len() == 1 { g.contract_pair(&centre, &mem[0]) } else if r.coin() { g.contract_into(&centre, mem.iter()) } else { let mut l = vec![centre]; l.extend(&mem); let u = g.contract(l.iter()); ensure!(u == centre, "contract returned {u} instead of {centre}"); }
        let mut want = m.clone();
        let mut new: BTreeSet<V> = BTreeSet::new();
        for x in &members { for y in m.nbrs(*x) { if !members.contains(&y) && y != centre { new.insert(y); } } }
        for x in &members { want.remove_vertex(*x); }
        for y in &new { want.add_edge(centre, *y); }
        graph_view(&mut r, &g, &want, Nb::Yes)?;
        c.bump("vertices contracted away", members.len() as u64);
        c.eval(true, 1 << 61 | (k * 16 + t) as u64);
    }
    Ok(())
}

fn c06(c: &mut Ctx, k: usize) -> R {
    match k {
        0 => { let n = 140_000u32; let g = EditGraph::matching(n); ensure!(g.num_vertices() == 280_000 && g.num_edges() == n as usize, "matching({n}): {} vertices {} edges", g.num_vertices(), g.num_edges());
            for i in 0..n { ensure!(g.adjacent(&i, &(i + n)) && g.degree(&i) == 1, "matching({n}) at {i}"); } }
        1 => { let n = 70_001u32; let g = EditDigraph::cycle(n); ensure!(g.num_vertices() == n as usize && g.num_edges() == n as usize, "directed cycle({n})");
            for i in 0..n { ensure!(g.has_arc(&i, &((i + 1) % n)), "directed cycle({n}) at {i}"); } }
        2 => { let n = 66_000u32; let g = EditDigraph::star(n); ensure!(g.num_vertices() == n as usize + 1 && g.num_edges() == n as usize && g.out_degree(&0) == n && g.in_degree(&0) == 0, "directed star({n})");
            let g = EditGraph::independent(n); ensure!(g.num_vertices() == n as usize && g.num_edges() == 0 && (0..n).all(|i| g.contains(&i)), "independent({n})");
            let g = EditDigraph::matching(n); ensure!(g.num_vertices() == 2 * n as usize && g.num_edges() == n as usize, "directed matching({n})");
            for i in 0..n { ensure!(g.has_arc(&i, &(i + n)), "directed matching({n}) at {i}"); } }
        3 => { // long thin grids
            for (s, t) in [(1u32, 70_000u32), (70_000, 1), (2, 33_000), (33_000, 2)] {
                let g = EditGraph::grid(s, t);
                ensure!(g.num_vertices() == (s * t) as usize && g.num_edges() == ((s - 1) * t + s * (t - 1)) as usize, "grid({s},{t}) has {} vertices {} edges", g.num_vertices(), g.num_edges());
                for y in 0..s { for x in 0..t { let u = y * t + x; ensure!(x + 1 >= t || g.adjacent(&u, &(u + 1)), "grid({s},{t}) at {u}"); ensure!(y + 1 >= s || g.adjacent(&u, &(u + t)), "grid({s},{t}) at {u}"); } }
            } }
        4 => { // lopsided bicliques
            for (s, t) in [(1u32, 70_000u32), (70_000, 1), (2, 40_000), (0, 66_000), (66_000, 0)] {
                let g = EditGraph::biclique(s, t);
                ensure!(g.num_vertices() == (s + t) as usize && g.num_edges() == (s * t) as usize, "biclique({s},{t}) has {} vertices {} edges", g.num_vertices(), g.num_edges());
                for u in 0..s { for v in s..s + t { ensure!(g.adjacent(&u, &v), "biclique({s},{t}) at {u} {v}"); } }
                let g = EditDigraph::biclique(s, t);
                ensure!(g.num_vertices() == (s + t) as usize && g.num_edges() == (s * t) as usize, "directed biclique({s},{t})");
            } }
        _ => { // k-partite graphs with many or large parts, empty ones anywhere
            let mut r = c.rng.clone();
            for sizes in [vec![1u32; 300], vec![0; 40], vec![0, 0, 5, 0, 0], vec![300, 0, 1, 270, 0], vec![2; 130], { let mut v = vec![1; 70]; v.extend([0, 0, 0]); v }, vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18]] {
                c.input(format!("complete_kpartite({sizes:?})"));
                let g = EditGraph::complete_kpartite(sizes.iter());
                let mut part = vec![];
                for (i, s) in sizes.iter().enumerate() { for _ in 0..*s { part.push(i) } }
                let mut m = Model::new();
                for i in 0..part.len() { m.add_vertex(i as V); }
                for i in 0..part.len() { for j in 0..i { if part[i] != part[j] { m.add_edge(i as V, j as V); } } }
                graph_view(&mut r, &g, &m, Nb::Yes)?;
            } }
    }
    c.bump("generator calls", 3);
    c.eval(true, 1 << 61 | k as u64);
    Ok(())
}

// ------------------------------------------------------------ C05

fn c05(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    match k {
        0 => { // dense subgraph of a large graph
            let n = 300;
            let mut e = clique_e(n);
            e.retain(|_| r.chance(0.6));
            let mut m = labelled(&mut r, n, &e);
            add_loops(&mut r, &mut m, 0.3);
            let g = gen::build(&mut r, &m);
            for p in [0.3, 0.7, 1.0] {
                let s: BTreeSet<V> = r.subset(&m.verts(), p).into_iter().collect();
                let h: EditGraph = g.subgraph(s.iter());
                graph_view(&mut r, &h, &m.induced(&s), Nb::Yes)?;
            }
        }
        1 => {
            let mut m = large(&mut r, 3, 70_000);
            add_loops(&mut r, &mut m, 0.01);
            let g = gen::build(&mut r, &m);
            let s: BTreeSet<V> = r.subset(&m.verts(), 0.95).into_iter().collect();
            let h: EditGraph = g.subgraph(s.iter());
            graph_view(&mut r, &h, &m.induced(&s), Nb::Yes)?;
            let (h, map) = g.normalize();
            let old = build::map_check(&map, &m.verts())?;
            let pos: HashMap<V, V> = old.iter().enumerate().map(|(i, v)| (*v, i as V)).collect();
            let mut want = Model::new();
            for i in 0..old.len() { want.add_vertex(i as V); }
            for (u, v) in m.edges() { want.add_edge(pos[&u], pos[&v]); }
            graph_view(&mut r, &h, &want, Nb::Yes)?;
        }
        2 => {
            let d = { let m = large(&mut r, 3, 70_000); let mut d = DiModel::new(); for v in m.verts() { d.add_vertex(v); } for (u, v) in m.edges() { if r.coin() { d.add_arc(u, v); } else { d.add_arc(v, u); } } d };
            let (h, map) = gen::build_di(&mut r, &d).normalize();
            let old = build::map_check(&map, &d.verts())?;
            let pos: HashMap<V, V> = old.iter().enumerate().map(|(i, v)| (*v, i as V)).collect();
            let mut want = DiModel::new();
            for i in 0..old.len() { want.add_vertex(i as V); }
            for (u, v) in d.arcs() { want.add_arc(pos[&u], pos[&v]); }
            digraph_view(&mut r, &h, &want)?;
        }
        3 => { // unions with wide gaps in the label space and edgeless members
            let pool: Vec<Model> = vec![
                Model::from_parts(&[], &[]),
                Model::from_parts(&[0, 1 << 28], &[]),
                Model::from_parts(&[(1 << 28) + 7], &[(3, 4), (4, 70_000), (70_000, 70_000)]),
                Model::from_parts(&[0], &[]),
                Model::from_parts(&[1 << 27], &[(0, 255), (255, 256), (256, 65_535), (65_535, 65_536)]),
                Model::from_parts(&[5, 6], &[(1 << 20, 1 << 26)]),
            ];
            let gs: Vec<EditGraph> = pool.iter().map(|m| gen::build(&mut r, m)).collect();
            for i in 0..pool.len() { for j in 0..pool.len() {
                c.input(format!("disj_union of {} and {}", pool[i].show(), pool[j].show()));
                let u = gs[i].disj_union(&gs[j]);
                union_shape(&ops::read(&u), &[pool[i].clone(), pool[j].clone()])?;
                for l in 0..pool.len() {
                    c.input(format!("disj_unions of {}, {} and {}", pool[i].show(), pool[j].show(), pool[l].show()));
                    let u = EditGraph::disj_unions([&gs[i], &gs[j], &gs[l]].into_iter());
                    union_shape(&ops::read(&u), &[pool[i].clone(), pool[j].clone(), pool[l].clone()])?;
                }
            } }
            for len in [6usize, 12, 40] {
                let ix: Vec<usize> = (0..len).map(|i| if i < 3 && len > 6 { [0, 3, 0][i] } else { [0, 3, 4, 5][r.below(4)] }).collect();
                let parts: Vec<Model> = ix.iter().map(|i| { let mut m = pool[*i].clone(); if *i == 4 { m.remove_vertex(1 << 27); } m }).collect();
                let g2: Vec<EditGraph> = parts.iter().map(|m| gen::build(&mut r, m)).collect();
                c.input(format!("disj_unions of {len} graphs, pool members {ix:?}"));
                let u = EditGraph::disj_unions(g2.iter());
                union_shape(&ops::read(&u), &parts)?;
            }
        }
        _ => {
            let a = large(&mut r, 4, 3000);
            let b = labelled(&mut r, 0, &[]);
            let small = Model::from_parts(&(0..40_000).collect::<Vec<_>>(), &(1..40_000u32).map(|i| (i - 1, i)).collect::<Vec<_>>());
            let _ = (a, b);
            let (g, h) = (gen::build(&mut r, &small), gen::build(&mut r, &small));
            let u = g.disj_union(&h);
            union_shape(&ops::read(&u), &[small.clone(), small.clone()])?;
        }
    }
    c.eval(true, 1 << 61 | k as u64);
    Ok(())
}

// ------------------------------------------------------------ C07 / C08

fn c07(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let mut m = large(&mut r, [4, 1, 3][k], 70_000);
    if k == 0 { m.add_edge(0, u32::MAX); m.add_edge(0, 0); m.add_edge(u32::MAX, u32::MAX); m.add_edge(u32::MAX, 1 << 31); }
    let g = gen::build(&mut r, &m);
    iter::iterate("EditGraph", &g, &m)?;
    iter::iterate("foreign graph", &RefGraph::new(&mut r, &m), &m)?;
    let mut s = m.clone();
    s.remove_loops();
    let g = gen::build(&mut r, &s);
    let order = gen::random_order(&mut r, &s);
    let og = OrdGraph::with_ordering(&g, order.iter());
    iter::iterate("OrdGraph", &og, &s)?;
    iter::left_iter("OrdGraph", &og, &s, &order)?;
    let dg = DegenGraph::with_ordering(&g, order.iter());
    iter::iterate("DegenGraph", &dg, &s)?;
    iter::left_iter("DegenGraph", &dg, &s, &order)?;
    c.eval(true, 1 << 61 | k as u64);
    Ok(())
}

fn ball_at<G: Graph>(what: &str, g: &G, ix: &Idx, src: &[usize], rr: usize) -> R {
    let d = ix.bfs(src);
    let want: BTreeSet<V> = (0..ix.n()).filter(|i| d[*i] != INF && d[*i] as usize <= rr).map(|i| ix.labels[i]).collect();
    let cs: Vec<V> = src.iter().map(|i| ix.labels[*i]).collect();
    same_set(&format!("{what}: r_neighbourhood({} centres, {rr})", cs.len()), &g.r_neighbourhood(cs.iter(), rr), &want)?;
    if let [v] = cs[..] { same_set(&format!("{what}: r_neighbours({v}, {rr})"), &g.r_neighbours(&v, rr), &want)?; }
    Ok(())
}

fn c08(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let (m, line) = match k {
        0 => { let m = labelled(&mut r, 900, &path_e(900)); let l = along(&m); (m, l) }
        1 => { let m = labelled(&mut r, 1401, &cycle_e(1401)); let l = m.verts(); (m, l) }
        2 => { let m = large(&mut r, 1, 70_000); let l = m.verts(); (m, l) }
        3 => { let m = large(&mut r, 4, 1_500); let l = m.verts(); (m, l) }
        4 => { // two hubs joined by a path of 300
            let mut e = path_e(300); for i in 0..400 { e.push((0, 300 + i)); e.push((299, 700 + i)); } let m = labelled(&mut r, 1100, &e); let l = m.verts(); (m, l) }
        5 => { let m = labelled(&mut r, 300, &clique_e(300)); let l = m.verts(); (m, l) }
        _ => { let m = labelled(&mut r, 11, &path_e(11)); let l = along(&m); (m, l) }
    };
    let ix = m.idx();
    let g = gen::build(&mut r, &m);
    let radii: Vec<usize> = match k { 2 => vec![0, 1, 2, 3, 9], 3 => vec![0, 1, 2, 3, 4, 5, 8, 33, 257], 5 => vec![0, 1, 2, 3, 17], 6 => vec![65_535, 65_536, 65_537, 131_073], _ => vec![0, 1, 2, 7, 31, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 301, 302, 511, 512, 513, 700, 898, 899, 900, 5000] };
    let first = ix.pos[&line[0]];
    for rr in radii {
        let some = ix.pos[&line[r.below(line.len())]];
        for src in [vec![first], vec![some], vec![first, some]] {
            c.input(format!("scale case {k}: {} vertices, radius {rr}, centres {:?}", m.n(), src.iter().map(|i| ix.labels[*i]).collect::<Vec<_>>()));
            ball_at("EditGraph", &g, &ix, &src, rr)?;
            if k != 6 && r.chance(0.3) { ball_at("foreign graph", &RefGraph::new(&mut r, &m), &ix, &src, rr)?; }
            c.bump("ball queries", 2);
        }
    }
    // many centres, and the open/closed neighbourhoods
    for p in [0.5, 0.9] {
        let s: Vec<V> = r.subset(&m.verts(), p);
        let set: BTreeSet<V> = s.iter().cloned().collect();
        let n1: BTreeSet<V> = s.iter().flat_map(|v| m.nbrs(*v)).filter(|v| !set.contains(v)).collect();
        same_set("neighbourhood of many vertices", &g.neighbourhood(s.iter()), &n1)?;
        let cl: BTreeSet<V> = n1.union(&set).cloned().collect();
        same_set("closed neighbourhood of many vertices", &g.closed_neighbourhood(s.iter()), &cl)?;
    }
    c.max("largest radius", 1 << 16);
    c.eval(true, 1 << 61 | k as u64);
    Ok(())
}

// ------------------------------------------------------------ C09 - C13

fn c09(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let (a, b) = match k {
        0 => (large(&mut r, 3, 70_000), large(&mut r, 0, 70_000)),
        1 => { let n = 330; let (mut e, mut f) = (clique_e(n), clique_e(n)); e.retain(|_| r.chance(0.5)); f.retain(|_| r.chance(0.5)); (labelled(&mut r, n, &e), labelled(&mut r, n, &f)) }
        _ => { let a = large(&mut r, 4, 30_000); let mut b = Model::new(); for (u, v) in a.edges() { if r.coin() { b.add_edge(u, v); } } b.add_edge(u32::MAX, 0); (a, b) }
    };
    let (g, h) = (gen::build(&mut r, &a), gen::build(&mut r, &b));
    if k == 1 { ops::setops("EditGraph", &mut r, &g, &h, &a, &b)?; }
    else {
        let mut u = a.clone();
        for v in b.verts() { u.add_vertex(v); }
        for (x, y) in b.edges() { u.add_edge(x, y); }
        graph_view(&mut r, &g.merge(&h), &u, Nb::Yes).map_err(|e| format!("merge: {e}"))?;
        let mut i = Model::new();
        for v in a.verts() { if b.has(v) { i.add_vertex(v); } }
        for (x, y) in a.edges() { if b.adjacent(x, y) { i.add_edge(x, y); } }
        graph_view(&mut r, &g.intersect(&h), &i, Nb::Yes).map_err(|e| format!("intersect: {e}"))?;
        graph_view(&mut r, &h.intersect(&g), &i, Nb::Yes).map_err(|e| format!("intersect: {e}"))?;
    }
    c.eval(true, 1 << 61 | k as u64);
    Ok(())
}

fn c10(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let (m, t) = match k {
        0 => (Model::from_parts(&[70_000], &[(0, 1), (1, 2), (0, 2), (2, 65_535), (65_535, 256)]), vec![7, 8, 9, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1000]),
        1 => { let e = sparse_e(&mut r, 20_000, 30_000); (Model::from_parts(&(0..20_000).collect::<Vec<_>>(), &e.iter().map(|e| (e.0 as V, e.1 as V)).collect::<Vec<_>>()), vec![1, 3]) }
        _ => (Model::from_parts(&[], &[(0, 1), (5, 1 << 20)]), vec![40_000]),
    };
    let g = gen::build(&mut r, &m);
    for x in t {
        c.input(format!("subdivide({x}) of {}", m.show()));
        let h = g.subdivide(x);
        let hm = ops::read(&h);
        if k == 0 { graph_view(&mut r, &h, &hm, Nb::Yes)?; }
        ops::subdivided(&hm, &m, x)?;
        c.eval(true, 1 << 61 | (k as u64) << 32 | x as u64);
    }
    Ok(())
}

fn c11(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let (a, b) = if k == 0 { (large(&mut r, 0, 300), large(&mut r, 0, 270)) } else { (large(&mut r, 3, 20), large(&mut r, 4, 150)) };
    let (g, h) = (gen::build(&mut r, &a), gen::build(&mut r, &b));
    for lex in [false, true] {
        if lex && k == 0 { continue }
        let (p, map) = if lex { g.lexicographic_product(&h) } else { g.cartesian_product(&h) };
        let what = if lex { "lexicographic_product" } else { "cartesian_product" };
        ensure!(map.len() == a.n() * b.n(), "{what}: map has {} entries", map.len());
        let mut back: HashMap<(V, V), V> = HashMap::new();
        for (x, q) in map.iter() { ensure!(a.has(q.0) && b.has(q.1) && back.insert(*q, *x).is_none(), "{what}: bad map entry {q:?}"); }
        let mut want = Model::new();
        for x in map.keys() { want.add_vertex(*x); }
        for ((u, v), x) in &back {
            for s in a.nbrs(*u) { want.add_edge(*x, back[&(s, *v)]); }
            if lex { for t in b.nbrs(*v) { for s in a.verts() { want.add_edge(*x, back[&(s, t)]); } } }
            else { for t in b.nbrs(*v) { want.add_edge(*x, back[&(*u, t)]); } }
        }
        graph_view(&mut r, &p, &want, Nb::Yes).map_err(|e| format!("{what}: {e}"))?;
        c.max("product vertices in one graph", want.n() as u64);
    }
    c.eval(true, 1 << 61 | k as u64);
    Ok(())
}

fn c12(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let a = match k { 0 => large(&mut r, 3, 70_000), 1 => large(&mut r, 1, 70_000), 2 => { let e = clique_e(300); labelled(&mut r, 300, &e) } _ => large(&mut r, 4, 3000) };
    let g = gen::build(&mut r, &a);
    let vs = a.verts();
    for t in 0..12 {
        let mut b = a.clone();
        match t {
            0 => {}
            6.. => { // as many edges, one of them (any) elsewhere
                let es = b.edges(); let e = es[r.below(es.len())]; b.remove_edge(e.0, e.1);
                if t < 10 { loop { let (x, y) = (vs[r.below(vs.len())], vs[r.below(vs.len())]); if (x, y) != e && (y, x) != e && b.add_edge(x, y) { break } if k == 2 { b.add_edge(x, x); break } } }
                else { b.add_edge(e.0, e.0); }
            }
            1 => { let es = b.edges(); let e = es[es.len() - 1 - r.below(es.len() / 2)]; b.remove_edge(e.0, e.1); }
            2 => { let x = r.u32(); b.add_vertex(x); }
            3 => { b.remove_vertex(vs[vs.len() - 1]); }
            4 => { b.add_edge(vs[r.below(vs.len())], vs[r.below(vs.len())]); }
            _ => { let es = b.edges(); let e = es[es.len() - 1]; b.remove_edge(e.0, e.1); let x = r.u32(); b.add_vertex(x); }
        }
        let h = gen::build(&mut r, &b);
        ops::compare("EditGraph", &g, &h, &a, &b).map_err(|e| format!("{e} (change {t})"))?;
        c.eval(true, 1 << 61 | (k * 8 + t) as u64);
    }
    Ok(())
}

fn c13(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    match k {
        0 => { // groups of more than 255 and more than 65535 members
            let mut m: BTreeMap<V, u32> = BTreeMap::new();
            for i in 0..66_000u32 { m.insert(i * 3, 7); }
            for i in 0..65_900u32 { m.insert(i * 3 + 1, 9); }
            for i in 0..300u32 { m.insert(i * 3 + 2, 1000 + i % 2); }
            let vm: VertexMap<u32> = m.iter().map(|(v, t)| (*v, *t)).collect();
            ops::map_ops("large map", &vm, &m)?;
            for big in [16u32, 33, 100, 127, 128, 129, 255, 256, 257, 300, 384, 511, 512, 1000, 1024, 4097, 32_768, 65_536, 65_537] {
                for small in [1, 2, 60, 127, 255, 256, big - 1] {
                    if small >= big { continue }
                    let (x, y) = if r.coin() { (0u32, 1u32) } else { (1, 0) };
                    let m: BTreeMap<V, u32> = (0..big + small).map(|i| (i, if i < big { x } else { y })).collect();
                    let vm: VertexMap<u32> = m.iter().map(|(v, t)| (*v, *t)).collect();
                    c.input(format!("groups of {big} and {small}"));
                    ops::map_ops("two groups", &vm, &m)?;
                    c.bump("group size pairs", 1);
                }
            }
        }
        1 => { // many values
            let m: BTreeMap<V, u64> = (0..5000u32).map(|i| (i, (i as u64 % 700) << 30)).collect();
            let vm: VertexMap<u64> = m.iter().map(|(v, t)| (*v, *t)).collect();
            ops::map_ops("map with 700 values", &vm, &m)?;
            let m: BTreeMap<V, u8> = (0..5000u32).map(|i| (i, (i % 256) as u8)).collect();
            let vm: VertexMap<u8> = m.iter().map(|(v, t)| (*v, *t)).collect();
            ops::map_ops("map with all bytes", &vm, &m)?;
            for gap in 0..6u32 { // close races between the largest groups
                let m: BTreeMap<V, u32> = (0..600 + gap).map(|i| (i * 7, if i < 300 { 1 } else { 2 })).collect();
                let vm: VertexMap<u32> = m.iter().map(|(v, t)| (*v, *t)).collect();
                ops::map_ops("two groups of about 300", &vm, &m)?;
            }
        }
        2 | 3 => { // extension with many colours on both sides
            let (na, nb) = if k == 2 { (700u32, 600u32) } else { (70_000, 66_000) };
            let a: BTreeMap<V, u32> = (0..3000u32.max(na)).map(|i| (i, i % na)).collect();
            let b: BTreeMap<V, u32> = (1000..1000 + nb * 2).map(|i| (i, i / 2)).collect();
            let mut col = VertexColouring::from_iter(a.iter().map(|(v, t)| (*v, *t)));
            let other = VertexColouring::from_iter(b.iter().map(|(v, t)| (*v, *t)));
            col.disjoint_extend(&other);
            let old: BTreeSet<u32> = a.values().cloned().collect();
            let mut cls: HashMap<u32, u32> = HashMap::new();
            let mut seen: HashMap<u32, u32> = HashMap::new();
            for (v, t) in &a { ensure!(col.get(v) == Some(t), "colour of {v} changed"); }
            for (v, t) in &b {
                if a.contains_key(v) { continue }
                let x = match col.get(v) { Some(x) => *x, None => fail!("{v} got no colour") };
                ensure!(!old.contains(&x), "new vertex {v} got the old colour {x}");
                ensure!(*cls.entry(*t).or_insert(x) == x && *seen.entry(x).or_insert(*t) == *t, "classes not kept at {v}");
            }
            let total = a.keys().chain(b.keys()).collect::<BTreeSet<_>>().len();
            ensure!(col.len() == total, "{} coloured vertices instead of {total}", col.len());
            let all: BTreeSet<V> = a.keys().chain(b.keys()).cloned().collect();
            exactly_once("vertices()", col.vertices().cloned(), &all)?;
        }
        4 => { // many sets, empty ones in between, large ones
            let mut sets: Vec<VertexSet> = vec![];
            let mut id: HashMap<V, usize> = HashMap::new();
            let mut next = 0u32;
            for i in 0..600 { let n = match i % 5 { 0 => 0, 1 => 1, 2 => 300, _ => 3 }; let mut s = VertexSet::default(); for _ in 0..n { s.insert(next); id.insert(next, i); next += 1 } sets.push(s) }
            let col = VertexColouring::<u32>::from_sets(sets.clone());
            ensure!(col.len() == next as usize, "from_sets colours {} of {next} vertices", col.len());
            let mut of: HashMap<u32, usize> = HashMap::new();
            let mut per: HashMap<usize, u32> = HashMap::new();
            for (v, i) in &id { let x = match col.get(v) { Some(x) => *x, None => fail!("from_sets leaves out {v}") }; ensure!(*of.entry(x).or_insert(*i) == *i && *per.entry(*i).or_insert(x) == x, "from_sets: class of {v} wrong"); }
        }
        _ => { // restriction to large subsets
            let a: BTreeMap<V, u32> = (0..20_000u32).map(|i| (i * 5, i % 300)).collect();
            let col = VertexColouring::from_iter(a.iter().map(|(v, t)| (*v, *t)));
            for p in [0.01, 0.5, 0.99, 1.0] {
                let q: Vec<V> = (0..100_000u32).filter(|_| r.chance(p)).collect();
                let want: BTreeMap<V, u32> = q.iter().filter_map(|v| a.get(v).map(|t| (*v, *t))).collect();
                same_map("subset of a large colouring", &col.subset(q.iter()).as_map(), &want)?;
            }
            let cs: BTreeSet<u32> = a.values().cloned().collect();
            exactly_once("colours()", col.colours().cloned(), &cs)?;
        }
    }
    c.eval(true, 1 << 61 | k as u64);
    Ok(())
}

// ------------------------------------------------------------ C17 - C19

fn c17(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let n = 70_000;
    let m = match k {
        0 => labelled(&mut r, n, &path_e(n)),
        1 => labelled(&mut r, n, &[]),
        2 => large(&mut r, 1, n),
        3 => { let e: Vec<(usize, usize)> = (0..n / 2).map(|i| (i, i + n / 2)).collect(); labelled(&mut r, n, &e) }
        5 => { // several very large components
            let mut e = path_e(70_000);
            for i in 70_001..145_000 { e.push((70_000 + r.below(i - 70_000), i)); }
            for i in 145_001..215_000 { e.push((145_000, i)); }
            labelled(&mut r, 215_010, &e)
        }
        6 => { // components of every size from 1 to 300, loops here and there
            let (mut e, mut n) = (vec![], 0);
            for s in 1..=300 { for i in 1..s { e.push((n + r.below(i), n + i)); } n += s; }
            let mut m = labelled(&mut r, n, &e);
            add_loops(&mut r, &mut m, 0.2);
            m
        }
        _ => { let e = sparse_e(&mut r, n, n / 2); labelled(&mut r, n, &e) }
    };
    let g = gen::build(&mut r, &m);
    algo::comps("EditGraph", &g, &m)?;
    if k % 2 == 0 { algo::comps("foreign graph", &RefGraph::new(&mut r, &m), &m)?; }
    let mut d = DiModel::new();
    for v in m.verts() { d.add_vertex(v); }
    for (u, v) in m.edges() { if r.coin() { d.add_arc(u, v); } else { d.add_arc(v, u); } }
    algo::comps("EditDigraph", &gen::build_di(&mut r, &d), &m)?;
    c.max("vertices_in_one_graph", m.n() as u64);
    c.eval(m.m() > 0, 1 << 61 | k as u64);
    Ok(())
}

fn c18(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let m = match k {
        0 => large(&mut r, 0, 70_000),
        1 => large(&mut r, 1, 70_000),
        2 => large(&mut r, 3, 70_000),
        3 => large(&mut r, 4, 30_000),
        5 => { // a core number above 1000, next to hubs of low core number
            let mut e = clique_e(1150); let mut n = 1150;
            for h in 0..4 { let hub = n; n += 1; e.push((hub, h)); for _ in 0..1400 * (h + 1) { e.push((hub, n)); n += 1; } }
            labelled(&mut r, n, &e) }
        6 => { // nested shells: cliques of growing size, each vertex tied to a few of the next one
            let (mut e, mut n) = (vec![], 0);
            for s in [3usize, 9, 33, 70, 127, 128, 129, 130, 131, 150, 200, 257, 300] {
                for i in 0..s { for j in 0..i { if r.chance(0.95) { e.push((n + j, n + i)) } } }
                if n > 0 { for i in 0..s / 2 { e.push((n + i, r.below(n))) } }
                n += s;
            }
            labelled(&mut r, n, &e) }
        _ => { // a small dense core behind a long fringe
            let mut e = clique_e(9); for i in 9..40_000 { e.push((i, if i < 20 { r.below(9) } else { i - 1 })); } for i in 0..3000 { e.push((r.below(9), 9 + i)); } labelled(&mut r, 40_000, &e) }
    };
    let g = gen::build(&mut r, &m);
    algo::degen(c, "EditGraph", &g, &m)?;
    algo::degen(c, "foreign graph", &RefGraph::new(&mut r, &m), &m)?;
    c.eval(true, 1 << 61 | k as u64);
    Ok(())
}

fn c19(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let m = match k {
        0 => labelled(&mut r, 10_001, &cycle_e(10_001)),
        1 => labelled(&mut r, 70_000, &cycle_e(70_000)),
        2 => { let mut e = path_e(3000); e.push((2999, 2701)); labelled(&mut r, 3000, &e) }   // even cycle far away
        3 => { let mut e = path_e(3000); e.push((2999, 2700)); e.push((10, 13)); labelled(&mut r, 3000, &e) } // odd... or even
        4 => { let mut e = tree_e(&mut r, 40_000); e.push((39_999, 12)); labelled(&mut r, 40_000, &e) }
        5 => { let mut e = vec![]; for i in 0..300 { for j in 300..580 { e.push((i, j)) } } e.push((3, 299)); labelled(&mut r, 580, &e) }
        _ => { let mut e = cycle_e(600); for i in 0..600 { e.push((i, 600 + i)); } e.push((800, 801)); labelled(&mut r, 1200, &e) }
    };
    let g = gen::build(&mut r, &m);
    algo::bip(c, "EditGraph", &g, &m)?;
    if k != 5 { algo::bip(c, "foreign graph", &RefGraph::new(&mut r, &m), &m)?; }
    // many components, the odd one among them
    let mut m2 = m.clone();
    let base = 4_000_000_000u32;
    for i in 0..400u32 { let a = base + 4 * i; if !m2.has(a) && !m2.has(a + 1) { m2.add_edge(a, a + 1); } }
    let g = gen::build(&mut r, &m2);
    algo::bip(c, "EditGraph", &g, &m2)?;
    c.eval(true, 1 << 61 | k as u64);
    Ok(())
}

// ------------------------------------------------------------ C20 - C24

fn big_ordered(r: &mut Rng, k: usize) -> (Model, Vec<V>) {
    let m = match k {
        0 => large(r, 0, 70_000),
        1 | 5 => large(r, 1, 70_000),
        2 => large(r, 3, 40_000),
        3 => { let n = 1100; let mut e = clique_e(n); e.retain(|e| e.1 > 1090 || e.0 < 3); labelled(r, n, &e) } // left sets of > 1024
        _ => large(r, 4, 30_000),
    };
    let mut o = m.verts();
    if k == 5 { o.sort_by_key(|v| m.degree(*v)) } // more than 65535 left neighbours
    else if k == 1 || k == 3 { // hubs at either end or in the middle
        o.sort_by_key(|v| m.degree(*v));
        if r.coin() { o.reverse() }
        if r.coin() && k == 1 { let h = o.iter().position(|v| m.degree(*v) > 2).unwrap_or(0); let j = o.len() / 2; o.swap(h, j) }
        if k == 3 && r.coin() { r.shuffle(&mut o) }
    } else { r.shuffle(&mut o) }
    (m, o)
}

fn c20(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let (m, order) = big_ordered(&mut r, k);
    let g = gen::build(&mut r, &m);
    lin::ord_all(&mut r, "with_ordering", &OrdGraph::with_ordering(&g, order.iter()), &m, &order)?;
    let bd = OrdGraph::by_degeneracy(&g);
    let o: Vec<V> = bd.vertices().cloned().collect();
    ensure!(o.len() == m.n(), "by_degeneracy lists {} of {} vertices", o.len(), m.n());
    lin::ord_all(&mut r, "by_degeneracy", &bd, &m, &o)?;
    let d = m.idx().cores().0;
    if d <= 128 { ensure!(bd.max_left_degree() <= d, "by_degeneracy has left degree {} in a {d}-degenerate graph", bd.max_left_degree()); }
    c.max("vertices_in_one_graph", m.n() as u64);
    c.eval(true, 1 << 61 | k as u64);
    Ok(())
}

fn c21(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    if k == 4 { // every pair of neighbouring positions, and every position with a random one, in a dense graph of some 300 vertices
        let mut e = vec![];
        for i in 0..300 { for j in 0..i { if i - j < 3 || r.chance(0.15) { e.push((j, i)) } } }
        let m = labelled(&mut r, 300, &e);
        let g0 = gen::build(&mut r, &m);
        let mut order = m.verts();
        r.shuffle(&mut order);
        let mut g = OrdGraph::with_ordering(&g0, order.iter());
        for i in 0..300 {
            for t in 0..3 {
                let j = match t { 0 => (i + 1) % 300, 1 => r.below(300), _ => { let n: Vec<V> = m.nbrs(order[i]).into_iter().collect(); let x = n[r.below(n.len())]; order.iter().position(|y| *y == x).unwrap_or(0) } };
                let (u, v) = (order[i], order[j]);
                c.input(format!("300 vertices, swap of the positions {i} and {j}"));
                g.swap(&u, &v);
                order.swap(i, j);
                let pos: HashMap<V, usize> = order.iter().enumerate().map(|(p, v)| (*v, p)).collect();
                for w in [u, v, order[(i + 5) % 300], order[(j + 299) % 300]] {
                    let p = pos[&w];
                    let mut l: Vec<V> = m.nbrs(w).into_iter().filter(|x| pos[x] < p).collect();
                    let mut h: Vec<V> = m.nbrs(w).into_iter().filter(|x| pos[x] > p).collect();
                    l.sort_by_key(|x| pos[x]);
                    h.sort_by_key(|x| pos[x]);
                    ensure!(g.left_neighbours(&w) == l && g.right_neighbours(&w) == h, "after swapping positions {i} and {j}: neighbours of {w} at position {p} are on the wrong sides");
                }
                c.bump("swaps", 1);
            }
            if i % 60 == 59 { lin::same_as_fresh(&mut r, &g, &m, &order, false)?; c.bump("states compared", 1); }
        }
        c.eval(true, 1 << 61 | k as u64);
        return Ok(());
    }
    let (m, mut order) = big_ordered(&mut r, [1, 2, 3, 4, 5, 5][k]);
    let g0 = gen::build(&mut r, &m);
    let mut g = OrdGraph::with_ordering(&g0, order.iter());
    let mut hub = m.verts();
    hub.sort_by_key(|v| std::cmp::Reverse(m.degree(*v)));
    for s in 0..30 {
        let es = m.nbrs(hub[0]);
        let nb: Vec<V> = es.into_iter().collect();
        let (u, v) = match s % 4 {
            0 => (hub[0], order[r.below(order.len())]),
            1 => (hub[0], nb[r.below(nb.len())]),
            2 => (order[r.below(order.len())], order[r.below(order.len())]),
            _ => { let w = order[r.below(order.len())]; let n: Vec<V> = m.nbrs(w).into_iter().collect(); match r.pick(&n) { Some(x) => (*x, w), None => (w, w) } }
        };
        g.swap(&u, &v);
        if u != v {
            let (i, j) = (order.iter().position(|x| *x == u), order.iter().position(|x| *x == v));
            if let (Some(i), Some(j)) = (i, j) { order.swap(i, j) }
        }
        c.bump("swaps", 1);
        if s == 7 || s == 29 { lin::same_as_fresh(&mut r, &g, &m, &order, false)?; c.bump("states compared", 1); }
    }
    c.eval(true, 1 << 61 | k as u64);
    Ok(())
}

fn c22(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let (m, order) = big_ordered(&mut r, k);
    for t in [0, 1, 2] {
        let (what, d, o, ordered) = lin::degen_build(&mut r, &m, &order, t);
        ensure!(o.len() == m.n(), "{what} lists {} of {} vertices", o.len(), m.n());
        lin::degen_view(&mut r, what, &d, &m, &o, ordered)?;
    }
    c.max("vertices_in_one_graph", m.n() as u64);
    c.eval(true, 1 << 61 | k as u64);
    Ok(())
}

fn c23(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let (m, order) = big_ordered(&mut r, k);
    for t in 0..if k == 5 { 3 } else { 1 } {
    let (what, mut d, o, _) = lin::degen_build(&mut r, &m, &order, (k + t) % 3);
    ensure!(o.len() == m.n(), "{what} lists {} of {} vertices", o.len(), m.n());
    for round in 0..2 {
        let map = d.normalize();
        let want: BTreeMap<V, V> = o.iter().enumerate().map(|(i, v)| (i as V, if round == 0 { *v } else { i as V })).collect();
        same_map(&format!("{what}: normalize() map"), &map, &want)?;
        let back: HashMap<V, V> = o.iter().enumerate().map(|(i, v)| (*v, i as V)).collect();
        let mut nm = Model::new();
        for v in &o { nm.add_vertex(back[v]); }
        for (u, v) in m.edges() { nm.add_edge(back[&u], back[&v]); }
        let no: Vec<V> = (0..m.n() as u32).collect();
        lin::degen_view(&mut r, &format!("{what} normalised"), &d, &nm, &no, true)?;
    }
    }
    c.eval(true, 1 << 61 | k as u64);
    Ok(())
}

fn c24(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let m = match k {
        0 => large(&mut r, 0, 3000),
        1 => large(&mut r, 1, 1000),
        2 => large(&mut r, 2, 3000),
        3 => labelled(&mut r, 3000, &path_e(3000)),
        4 => labelled(&mut r, 200, &path_e(200)),
        5 => { let mut e = star_e(400); for i in 400..800 { e.push((i - 399, i)) } labelled(&mut r, 800, &e) } // > 256 at distance 2
        6 => { let mut e = cycle_e(60); e.extend(star_e(60)); labelled(&mut r, 60, &e) }
        _ => { let e = clique_e(300); labelled(&mut r, 300, &e) }
    };
    let line = along(&m);
    let os = orders(&mut r, &m, &line);
    let g = gen::build(&mut r, &m);
    let mut pick = vec![os[2].clone()];
    if k >= 3 && k <= 4 { pick = os.clone() }
    if k == 5 { let mut o = m.verts(); o.sort_by_key(|v| m.degree(*v)); pick.push(o.clone()); o.reverse(); pick.push(o); }
    for order in pick {
        let og = OrdGraph::with_ordering(&g, order.iter());
        let ix = Idx::with_order(&m, &order);
        match k {
            3 => lin::reach_one::<9>(c, &mut r, &og, &m, &order, &ix)?,
            4 => { lin::reach_one::<12>(c, &mut r, &og, &m, &order, &ix)?; lin::reach_one::<70>(c, &mut r, &og, &m, &order, &ix)?; lin::reach_one::<300>(c, &mut r, &og, &m, &order, &ix)? }
            6 => { lin::reach_one::<16>(c, &mut r, &og, &m, &order, &ix)?; lin::reach_one::<33>(c, &mut r, &og, &m, &order, &ix)? }
            _ => { lin::reach_one::<1>(c, &mut r, &og, &m, &order, &ix)?; lin::reach_one::<2>(c, &mut r, &og, &m, &order, &ix)?; lin::reach_one::<3>(c, &mut r, &og, &m, &order, &ix)? }
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C25 - C31

fn c25(c: &mut Ctx, k: usize) -> R { reachsets(c, k, false) }
fn c26(c: &mut Ctx, k: usize) -> R { reachsets(c, k, true) }

fn reachsets(c: &mut Ctx, k: usize, strong: bool) -> R {
    let mut r = c.rng.clone();
    let m = match k {
        0 => labelled(&mut r, 600, &path_e(600)),
        1 => labelled(&mut r, 601, &cycle_e(601)),
        2 => large(&mut r, 1, 1500),
        3 => large(&mut r, 4, 600),
        5 => { let e: Vec<(usize, usize)> = (0..700).flat_map(|i| [(0, 1 + i), (1 + i, 701 + i)]).collect(); labelled(&mut r, 1401, &e) } // legs of length 2
        6 => { let e: Vec<(usize, usize)> = (0..300).flat_map(|i| [(0, 1 + i), (1 + i, 301 + i), (301 + i, 601 + i)]).collect(); labelled(&mut r, 901, &e) } // of length 3
        7 => { // layers of 300 vertices, each vertex tied to a few of the next layer
            let e: Vec<(usize, usize)> = (0..900).flat_map(|i| [(i, i + 300), (i, (i / 300 + 1) * 300 + r.below(300))]).chain((0..300).map(|i| (1200, i))).collect();
            labelled(&mut r, 1201, &e) }
        _ => { let e = clique_e(280); labelled(&mut r, 280, &e) }
    };
    let line = along(&m);
    let mut os = orders(&mut r, &m, &line);
    if k >= 5 { // one hub that sees hundreds of vertices to its left through hundreds to its right
        os.truncate(3);
        let hub = m.verts().into_iter().max_by_key(|v| m.degree(*v)).unwrap();
        let d = { let ix = m.idx(); let d = ix.bfs(&[ix.pos[&hub]]); m.verts().into_iter().map(|v| (v, d[ix.pos[&v]])).collect::<HashMap<V, u32>>() };
        let far = *d.values().max().unwrap();
        for inner in [false, true] {
            let mut left: Vec<V> = m.verts().into_iter().filter(|v| d[v] == far).collect();
            let mut right: Vec<V> = m.verts().into_iter().filter(|v| d[v] != far && *v != hub).collect();
            if inner { right.sort_by_key(|v| far - d[v]); r.shuffle(&mut left); } else { r.shuffle(&mut right); }
            left.push(hub); left.extend(right); os.push(left);
        }
    }
    { let mut o = m.verts(); o.sort_by_key(|v| m.degree(*v)); os.push(o) }
    if k == 0 { // the far ends are the two leftmost vertices
        let mut o = line.clone(); let l = o.len() - 1; o.swap(1, l); os.push(o); }
    let radii: &[u32] = match k { 0 | 1 => &[1, 63, 64, 65, 127, 128, 255, 256, 257, 599, 600, 1000], 2 => &[1, 2, 5], 3 => &[2, 4], 4 => &[1, 2, 300], _ => &[1, 2, 3, 4, 6] };
    for order in os {
        let ix = Idx::with_order(&m, &order);
        let g = gen::build(&mut r, &m);
        let og = OrdGraph::with_ordering(&g, order.iter());
        let dg = og.to_degeneracy_graph();
        for &rad in radii {
            c.input(format!("scale case {k}: {} vertices, radius {rad}, order {:?}..", m.n(), &order[..10.min(order.len())]));
            let deg = r.coin();
            if strong {
                let want = lin::sreach(&ix, rad);
                let (a, b) = if deg { (dg.sreach_sets(rad), dg.sreach_sizes(rad)) } else { (og.sreach_sets(rad), og.sreach_sizes(rad)) };
                reach::cmp_sets(&format!("sreach_sets({rad})"), &a, &want, &order)?;
                reach::cmp_sizes(&format!("sreach_sizes({rad})"), &b, &want, &order)?;
            } else {
                let want = lin::wreach(&ix, rad);
                let (a, b) = if deg { (dg.wreach_sets(rad), dg.wreach_sizes(rad)) } else { (og.wreach_sets(rad), og.wreach_sizes(rad)) };
                reach::cmp_sets(&format!("wreach_sets({rad})"), &a, &want, &order)?;
                reach::cmp_sizes(&format!("wreach_sizes({rad})"), &b, &want, &order)?;
            }
            c.max("largest radius", rad as u64);
            c.eval(true, 1 << 61 | (k as u64) << 32 | rad as u64);
        }
    }
    Ok(())
}

fn c27(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let (m, want) = match k {
        0 => { let mut e = clique_e(24); e.retain(|(i, j)| i / 3 != j / 3); (labelled(&mut r, 24, &e), 3u64.pow(8)) }
        1 => { let mut e = clique_e(24); e.retain(|(i, j)| i / 2 != j / 2); (labelled(&mut r, 24, &e), 1 << 12) }
        2 => { let mut e = clique_e(140); for i in 0..60 { e.push((i, 140 + i)) } (labelled(&mut r, 200, &e), 61) }
        3 => { let m = large(&mut r, 0, 3000); (m, 2999) }
        _ => { let m = { let n = 300; let e = sparse_e(&mut r, n, 5 * n); labelled(&mut r, n, &e) }; let w = match m.idx().max_cliques(2_000_000) { Some(w) => w, None => return Ok(()) }; (m, w) }
    };
    let g = gen::build(&mut r, &m);
    for t in 0..2 {
        let order = gen::random_order(&mut r, &m);
        let og = OrdGraph::with_ordering(&g, order.iter());
        let dg = og.to_degeneracy_graph();
        let a = if t == 0 { og.count_max_cliques() } else { dg.count_max_cliques() };
        ensure!(a == want, "{a} maximal cliques instead of {want}");
    }
    let a = OrdGraph::by_degeneracy(&g).count_max_cliques();
    ensure!(a == want, "by_degeneracy: {a} maximal cliques instead of {want}");
    c.max("cliques in one graph", want);
    c.eval(true, 1 << 61 | k as u64);
    Ok(())
}

fn c28(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let m = match k {
        0 => { let e = clique_e(300); labelled(&mut r, 300, &e) }
        1 => { let mut e = clique_e(320); e.retain(|_| r.chance(0.93)); labelled(&mut r, 320, &e) }
        2 => { let e = { let mut e = clique_e(300); e.retain(|(i, j)| i / 2 != j / 2); e }; labelled(&mut r, 300, &e) }
        3 => large(&mut r, 4, 40_000),
        _ => large(&mut r, 1, 70_000),
    };
    let g = gen::build(&mut r, &m);
    for t in 0..2 {
        let order = gen::random_order(&mut r, &m);
        let og = OrdGraph::with_ordering(&g, order.iter());
        reach::colouring_ok("OrdGraph", &og.colour_greedy(), &m, &order)?;
        if t == 0 { reach::colouring_ok("DegenGraph", &og.to_degeneracy_graph().colour_greedy(), &m, &order)?; }
    }
    c.eval(true, 1 << 61 | k as u64);
    Ok(())
}

fn dom_case(r: &mut Rng, k: usize) -> (Model, Vec<u32>) {
    match k {
        0 => (labelled(r, 700, &path_e(700)), vec![1, 2, 31, 63, 64, 127, 128, 255, 256, 300, 699, 700]),
        1 => (labelled(r, 701, &cycle_e(701)), vec![3, 64, 255, 300]),
        2 => { let e = star_e(1200); (labelled(r, 1200, &e), vec![0, 1, 2]) }
        3 => { // spiders: many centres, many leaves
            let mut e = vec![]; for s in 0..6 { for i in 0..290 { e.push((s * 300, s * 300 + 1 + i)); } if s > 0 { e.push((s * 300, s * 300 - 300)) } } (labelled(r, 1800, &e), vec![1, 2, 3]) }
        4 => { let e = clique_e(300); (labelled(r, 300, &e), vec![1, 2]) }
        5 => { let e = sparse_e(r, 600, 700); (labelled(r, 600, &e), vec![1, 2]) }
        6 => (labelled(r, 6, &path_e(6)), vec![16_383, 32_767, 32_768, 40_000, 65_536]),
        7 => { let e = sparse_e(r, 9, 7); (labelled(r, 9, &e), vec![30_000, 33_000]) }
        _ => { // a hub with several hundred legs of length 1 to 4, and pendants on the legs
            let mut e = vec![]; let mut nx = 1;
            for _ in 0..320 {
                let mut at = 0;
                for _ in 0..r.range(1, 4) { e.push((at, nx)); at = nx; nx += 1; if r.chance(0.4) { e.push((at, nx)); nx += 1; } }
            }
            (labelled(r, nx, &e), vec![1, 2, 3]) }
    }
}
/// the hub first, last, and the vertices by degree
fn dom_orders(r: &mut Rng, m: &Model, k: usize) -> Vec<Vec<V>> {
    let mut os = orders(r, m, &along(m));
    if k == 8 {
        let mut d = m.verts(); r.shuffle(&mut d); d.sort_by_key(|v| std::cmp::Reverse(m.degree(*v)));
        let h = d[0];
        for _ in 0..3 { let mut s = m.verts(); r.shuffle(&mut s); s.retain(|v| *v != h); s.insert(0, h); os.push(s); }
        let mut a = d.clone(); a.reverse();
        os.push(d); os.push(a);
    }
    os
}

/// one random order, one by degree, one that follows a search from a random vertex
fn hub_orders(r: &mut Rng, m: &Model) -> Vec<Vec<V>> {
    let mut a = m.verts(); r.shuffle(&mut a);
    let mut b = a.clone(); b.sort_by_key(|v| std::cmp::Reverse(m.degree(*v)));
    let mut s = vec![a[0]];
    let mut seen: BTreeSet<V> = s.iter().cloned().collect();
    let mut i = 0;
    while s.len() < a.len() {
        if i == s.len() { let x = a.iter().find(|v| !seen.contains(v)).cloned().unwrap_or(0); seen.insert(x); s.push(x); continue }
        let v = s[i]; i += 1;
        for u in m.nbrs(v) { if seen.insert(u) { s.push(u) } }
    }
    if r.coin() { s.reverse() }
    match r.below(3) { 0 => vec![a, b], 1 => vec![b, s], _ => vec![s, a] }
}

fn c29(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    if k >= 9 { // many middling graphs with hubs
        for _ in 0..50 {
            let m = if r.coin() { hub_blobs(&mut r) } else { hub_tree(&mut r) };
            let rad = [3, 2, 3, 1, 2, 4][r.below(6)];
            let os = hub_orders(&mut r, &m);
            c29_on(c, &mut r, k, &m, &[rad], os)?;
        }
        return Ok(());
    }
    let (m, radii) = dom_case(&mut r, k);
    let os = dom_orders(&mut r, &m, k);
    c29_on(c, &mut r, k, &m, &radii, os)
}

fn c29_on(c: &mut Ctx, r: &mut Rng, k: usize, m: &Model, radii: &[u32], os: Vec<Vec<V>>) -> R {
    let g = gen::build(r, m);
    for order in os {
        let ix = Idx::with_order(m, &order);
        let og = OrdGraph::with_ordering(&g, order.iter());
        for &rad in radii {
            let t = { let p = [0.02, 0.5, 1.0][r.below(3)]; r.subset(&order, p) };
            c.input(format!("scale case {k}: {} vertices, radius {rad}, {} targets", m.n(), t.len()));
            let d = if r.coin() { og.domset(rad, false) } else { og.domset(rad, rad < 3) };
            reach::judge_dom("OrdGraph", &(d.0, d.1, None), &ix, rad, None)?;
            let d = og.domset_with_target(rad, false, t.iter());
            reach::judge_dom("OrdGraph", &(d.0, d.1, None), &ix, rad, Some(&t))?;
            c.eval(true, 1 << 61 | (k as u64) << 32 | rad as u64);
        }
    }
    Ok(())
}

fn spread(what: &str, ix: &Idx, cls: &[Vec<usize>], far: u32) -> R {
    for vs in cls { for a in vs {
        let d = ix.bfs(&[*a]);
        for b in vs { ensure!(a == b || d[*b] == INF || d[*b] >= far, "{what}: {} and {} share a class at distance {} < {far}", ix.labels[*a], ix.labels[*b], d[*b]); }
    } }
    Ok(())
}

fn c30(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    if k >= 7 { // many middling graphs with hubs
        for _ in 0..50 {
            let m = if r.coin() { hub_blobs(&mut r) } else { hub_tree(&mut r) };
            let rad = [3, 2, 3, 1, 2, 4][r.below(6)];
            let os = hub_orders(&mut r, &m);
            c30_on(c, &mut r, k, &m, &[rad], os)?;
        }
        return Ok(());
    }
    let (m, mut radii) = dom_case(&mut r, if k >= 4 { k + 2 } else { k });
    radii.retain(|x| *x <= 128 || k >= 4);
    if k == 0 { radii = vec![1, 2, 63, 64, 127, 128] }
    let os = dom_orders(&mut r, &m, if k >= 4 { k + 2 } else { k });
    c30_on(c, &mut r, k, &m, &radii, os)
}

fn c30_on(c: &mut Ctx, r: &mut Rng, k: usize, m: &Model, radii: &[u32], os: Vec<Vec<V>>) -> R {
    let g = gen::build(r, m);
    for order in os {
        let ix = Idx::with_order(m, &order);
        let og = OrdGraph::with_ordering(&g, order.iter());
        for &rad in radii {
            c.input(format!("scale case {k}: {} vertices, radius {rad}", m.n()));
            let d = og.domset(rad, true);
            let col = match d.2 { Some(x) => x, None => fail!("no witness") };
            let mut cl: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
            for (v, x) in col.iter() { ensure!(d.0.contains(v), "witness vertex {v} is not in the dominating set"); cl.entry(*x).or_default().push(ix.pos[v]); }
            ensure!(!cl.is_empty(), "empty witness");
            spread("witness", &ix, &cl.into_values().collect::<Vec<_>>(), 2 * rad + 1)?;
            c.eval(true, 1 << 61 | (k as u64) << 32 | rad as u64);
        }
    }
    Ok(())
}

fn c31(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    if k >= 8 { // many middling graphs with hubs
        for _ in 0..50 {
            let m = if r.coin() { hub_blobs(&mut r) } else { hub_tree(&mut r) };
            let rad = [2, 3, 4, 5, 6, 7][r.below(6)];
            let os = hub_orders(&mut r, &m);
            c31_on(c, &mut r, k, &m, &[rad], os)?;
        }
        return Ok(());
    }
    let (m, mut dist) = dom_case(&mut r, if k >= 5 { k + 1 } else { k });
    if k == 0 { dist = vec![2, 63, 64, 65, 128, 255, 256, 257, 600] } else if k == 2 { dist = vec![1, 2, 3] }
    let os = dom_orders(&mut r, &m, if k >= 5 { k + 1 } else { k });
    c31_on(c, &mut r, k, &m, &dist, os)
}

fn c31_on(c: &mut Ctx, r: &mut Rng, k: usize, m: &Model, radii: &[u32], os: Vec<Vec<V>>) -> R {
    let g = gen::build(r, m);
    for order in os {
        let ix = Idx::with_order(m, &order);
        let og = OrdGraph::with_ordering(&g, order.iter());
        for &dd in radii {
            let p = if k == 2 { 0.25 } else if dd > 2 { 0.3 } else { 0.6 };
            let t = r.subset(&order, p);
            c.input(format!("scale case {k}: {} vertices, distance {dd}, {} targets", m.n(), t.len()));
            let classes = og.scattered_colouring(dd, t.iter());
            let mut seen = BTreeSet::new();
            for s in &classes { ensure!(!s.is_empty(), "empty class"); for v in s { ensure!(seen.insert(*v), "{v} is in two classes"); } }
            ensure!(seen == t.iter().cloned().collect::<BTreeSet<V>>(), "classes cover {} of {} targets", seen.len(), t.len());
            if dd >= 2 { spread("scattered_colouring", &ix, &classes.iter().map(|s| s.iter().map(|v| ix.pos[v]).collect()).collect::<Vec<_>>(), dd)?; }
            c.max("classes", classes.len() as u64);
            c.eval(true, 1 << 61 | (k as u64) << 32 | dd as u64);
        }
    }
    Ok(())
}

// ------------------------------------------------------------ C32 - C34

fn dtf_case(r: &mut Rng, k: usize, big: bool) -> (Model, Vec<(usize, usize)>) {
    match k {
        0 => (labelled(r, 60, &path_e(60)), vec![(4, 0), (12, 0), (20, 1)]),
        1 => { let e = star_e(420); (labelled(r, 420, &e), vec![(2, 0), (3, 1)]) }
        2 => { let mut e = star_e(150); for i in 150..300 { e.push((i - 149, i)) } for i in 300..330 { e.push((i - 150, i)) } (labelled(r, 330, &e), vec![(2, 0), (4, 2)]) }
        3 => (labelled(r, 45, &cycle_e(45)), vec![(9, 0), (22, 0), (25, 3)]),
        4 => { let mut e = vec![]; let w = if big { 26 } else { 11 }; for i in 0..w { for j in 0..w { if i > 0 { e.push((i * w + j - w, i * w + j)) } if j > 0 { e.push((i * w + j - 1, i * w + j)) } } } (labelled(r, w * w, &e), vec![(3, 1), (6, 2)]) }
        5 => { let n = if big { 1200 } else { 160 }; let e = tree_e(r, n); (labelled(r, n, &e), vec![(2, 2), (7, 1), (11, 0)]) }
        6 => { let n = if big { 900 } else { 150 }; let e = sparse_e(r, n, n * 5 / 4); (labelled(r, n, &e), vec![(3, 0), (6, 2)]) }
        7 => { // a clique with every edge subdivided, and a long tail
            let mut e = vec![]; let mut nx = 9; for i in 0..9 { for j in 0..i { e.push((i, nx)); e.push((nx, j)); nx += 1 } }
            for i in nx..nx + 40 { e.push((i - 1, i)) } (labelled(r, nx + 40, &e), vec![(4, 0), (9, 1)]) }
        8 => { // caterpillar: many leaves at every spine vertex
            let n = if big { 900 } else { 150 }; let mut e = path_e(30); for i in 30..n { e.push((r.below(30), i)) } (labelled(r, n, &e), vec![(2, 1), (10, 2), (16, 0)]) }
        9 => { let e = path_e(170); (labelled(r, 170, &e), vec![(35, 0), (70, 0)]) }
        10 => { // 26 dense blocks, every block joined to the same eight vertices
            let mut e = vec![]; let w = 54;
            for b in 0..26 { let o = 8 + b * w; for i in 0..27 { for j in 27..w { e.push((o + i, o + j)) } } for h in 0..8 { e.push((h, o + r.below(w))) } }
            (labelled(r, 8 + 26 * w, &e), vec![(2, 0), (3, 0)]) }
        _ => { // a hub joined to 260 vertices that are in a clique each
            let mut e = vec![]; for b in 0..260 { let o = 1 + b * 5; for i in 0..5 { for j in 0..i { e.push((o + i, o + j)) } } e.push((0, o)) }
            (labelled(r, 1301, &e), vec![(2, 0), (3, 1)]) }
    }
}

fn c32(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let (m, steps) = dtf_case(&mut r, k, true);
    let g0 = gen::build(&mut r, &m);
    let mut g = DTFGraph::orient(&g0);
    let mut depth = 1;
    for (d, f) in steps {
        c.input(format!("scale case {k}: {} vertices, augment({d},{f})", m.n()));
        g.augment(d, f);
        depth = depth.max(d);
        dtf::distances(c, &mut r, &g, &m, depth, &format!("scale case {k}: augment({d},{f})"))?;
        c.max("depth", depth as u64);
        c.eval(true, 1 << 61 | (k as u64) << 32 | d as u64);
    }
    Ok(())
}

fn c33(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    if k == 9 { return c33_hub(c) }
    let (m, steps) = dtf_case(&mut r, k, false);
    let vs: BTreeSet<V> = m.verts().into_iter().collect();
    let g0 = gen::build(&mut r, &m);
    let mut g = DTFGraph::orient(&g0);
    let hubs = k == 1 || k == 2;
    let lim = if m.n() > 100 { 1 } else { 2 };
    for (d, f) in steps.into_iter().take(lim) {
        c.input(format!("scale case {k}: {} vertices, augment({d},{f})", m.n()));
        if hubs { // leave the augmentation small
            let hub = m.adj.iter().max_by_key(|(_, n)| n.len()).map(|(v, _)| *v).unwrap_or(0);
            for v in m.verts() { if v != hub { g.add_arc(&v, &hub, 2 + (v % 3) as usize); } }
        } else { g.augment(d, f); }
        let t = dtf::read(&g, &vs);
        dtf::tables(c, &mut r, &format!("scale case {k}"), &mut g, &vs, &t)?;
        c.eval(true, 1 << 61 | (k as u64) << 32 | d as u64);
    }
    Ok(())
}

/// degrees beyond sixteen bits, at several weights
fn c33_hub(c: &mut Ctx) -> R {
    let mut r = c.rng.clone();
    let mut g = DTFGraph::orient(&EditGraph::new());
    let mut n = [[0u32; 2]; 3];
    let hub = 7u32;
    for i in 0..200_000u32 {
        let v = 1000 + i * 3; let w = [0, 1, 1, 2, 2, 2][r.below(6)]; let out = (i / 1000) % 2 == 0 || w == 2;
        if out { g.add_arc(&hub, &v, w + 1) } else { g.add_arc(&v, &hub, w + 1) }
        n[w][out as usize] += 1;
    }
    c.input("scale case 9: a hub with 200000 arcs".to_string());
    let tot = |i: usize| n[0][i] + n[1][i] + n[2][i];
    ensure!(g.num_vertices() == 200_001, "{} vertices", g.num_vertices());
    ensure!(g.in_degree(&hub) == tot(0) && g.out_degree(&hub) == tot(1) && g.degree(&hub) == tot(0) + tot(1), "degrees of the hub: {} + {} = {} with {} + {} arcs", g.in_degree(&hub), g.out_degree(&hub), g.degree(&hub), tot(0), tot(1));
    for w in 1..=3 {
        ensure!(g.num_arcs_at_depth(w) == (n[w - 1][0] + n[w - 1][1]) as usize, "num_arcs_at_depth({w}) is {}", g.num_arcs_at_depth(w));
        let l = g.layer(w);
        ensure!(l.in_degree(&hub) == n[w - 1][0] && l.out_degree(&hub) == n[w - 1][1], "layer({w}): hub degrees {} and {} with {} and {} arcs", l.in_degree(&hub), l.out_degree(&hub), n[w - 1][0], n[w - 1][1]);
        ensure!(l.in_neighbours(&hub).count() == n[w - 1][0] as usize, "layer({w}): in-neighbours of the hub");
    }
    c.eval(true, 1 << 61 | 9 << 32);
    Ok(())
}

/// one or two hubs with many legs that end in dense blobs, and plain legs
fn hub_blobs(r: &mut Rng) -> Model {
    let mut e = vec![]; let hubs = r.range(1, 3); let mut nx = hubs;
    let blob = r.range(2, 8);
    let top = r.range(1, 4);
    for h in 1..hubs { e.push((h - 1, h)) }
    for i in 0..r.range(20, 180) {
        let mut at = i % hubs;
        for _ in 0..r.range(1, top) { e.push((at, nx)); at = nx; nx += 1; }
        if i % 3 != 0 { let o = nx; nx += blob; for a in 0..blob { for b in 0..a { e.push((o + a, o + b)) } } e.push((at, o)); if i % 2 == 0 { e.push((at, o + blob - 1)) } }
        else { for _ in 0..r.range(0, 5) { e.push((at, nx)); at = nx; nx += 1; } }
    }
    labelled(r, nx, &e)
}

/// hubs joined by short paths into a tree, each with legs of one length
fn hub_tree(r: &mut Rng) -> Model {
    let mut e = vec![];
    let mut hubs = vec![0];
    let mut nx = 1;
    for _ in 1..r.range(2, 7) {
        let mut at = hubs[r.below(hubs.len())];
        for _ in 0..r.range(1, 4) { e.push((at, nx)); at = nx; nx += 1; }
        hubs.push(at);
    }
    let top = r.range(1, 4);
    for h in hubs {
        let (legs, len) = ([1, 3, 8, 20, 40, 45, 70][r.below(7)], r.range(1, top));
        for _ in 0..legs { let mut at = h; for _ in 0..len { e.push((at, nx)); at = nx; nx += 1; } }
        for _ in 0..[0, 0, 2, 6][r.below(4)] { let mut at = h; for _ in 0..r.range(1, 4) { e.push((at, nx)); at = nx; nx += 1; } }
    }
    labelled(r, nx, &e)
}

fn c34(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    if k >= 9 { for _ in 0..if k < 12 { 60 } else { 700 } { let m = if k < 12 { hub_blobs(&mut r) } else { hub_tree(&mut r) }; let rad = [3, 3, 3, 1, 2, 4][r.below(6)]; c34_judge(c, &mut r, k, &m, &[rad])?; } return Ok(()) }
    let (m, radii) = match k {
        0 => (labelled(&mut r, 60, &path_e(60)), vec![1u32, 7, 12, 15]),
        1 => { let e = star_e(2000); (labelled(&mut r, 2000, &e), vec![1, 0, 2]) }
        2 => { let mut e = vec![]; for s in 0..10 { for i in 0..90 { e.push((s * 100, s * 100 + 1 + i)); } if s > 0 { e.push((s * 100, s * 100 - 100)) } } (labelled(&mut r, 1000, &e), vec![1, 2]) }
        3 => { let e = sparse_e(&mut r, 15_000, 17_000); (labelled(&mut r, 15_000, &e), vec![1, 2]) }
        4 => { let mut e = vec![]; for i in 0..60 { for j in 0..60 { if i > 0 { e.push((i * 60 + j - 60, i * 60 + j)) } if j > 0 { e.push((i * 60 + j - 1, i * 60 + j)) } } } (labelled(&mut r, 3600, &e), vec![2, 1, 3, 5]) }
        5 => { let e = tree_e(&mut r, 20_000); (labelled(&mut r, 20_000, &e), vec![3, 5, 1]) }
        6 => { let e = path_e(400); (labelled(&mut r, 420, &e), vec![20, 1, 33]) }
        7 => { let e = sparse_e(&mut r, 4000, 4100); (labelled(&mut r, 4000, &e), vec![4, 2, 6]) }
        8 => { let mut e = path_e(60); for i in 60..700 { e.push((r.below(60), i)) } (labelled(&mut r, 720, &e), vec![1, 6, 2]) }
        _ => return Ok(()),
    };
    c34_judge(c, &mut r, k, &m, &radii)
}

fn c34_judge(c: &mut Ctx, r: &mut Rng, k: usize, m: &Model, radii: &[u32]) -> R {
    let ix = m.idx();
    let g0 = gen::build(r, m);
    let mut g = DTFGraph::orient(&g0);
    for rad in radii.iter().cloned() {
        c.input(format!("scale case {k}: {} vertices, radius {rad}", m.n()));
        let d = g.domset(rad);
        let mut src = vec![];
        for v in &d { match ix.pos.get(v) { Some(p) => src.push(*p), None => fail!("{v} is no vertex") } }
        let dist = ix.bfs(&src);
        for p in 0..ix.n() { ensure!(dist[p] != INF && dist[p] <= rad, "domset({rad}): {} is at distance {} from the set", ix.labels[p], dist[p]); }
        c.eval(true, 1 << 61 | (k as u64) << 32 | rad as u64);
    }
    Ok(())
}

// ------------------------------------------------------------ C35 - C37

fn oracle_case(r: &mut Rng, k: usize) -> (Model, Vec<V>) {
    let m = match k {
        0 => large(r, 1, 70_000),
        1 => { let e = star_e(600); labelled(r, 600, &e) }
        2 => { // K_{5,300}: left neighbourhoods of five
            let mut e = vec![]; for i in 0..5 { for j in 0..300 { if (j >> i) & 1 == 1 || j % 7 == 0 { e.push((i, 5 + j)) } } } labelled(r, 305, &e) }
        3 => large(r, 2, 3000),
        4 => { let mut e = clique_e(10); for i in 10..3000 { for _ in 0..3 { e.push((r.below(10), i)) } } labelled(r, 3000, &e) }
        _ => { let mut e = path_e(400); for i in (0..400).step_by(7) { for j in 0..4 { e.push((i, 400 + i * 4 + j)) } } labelled(r, 2000, &e) }
    };
    let mut o = m.verts();
    o.sort_by_key(|v| std::cmp::Reverse(m.degree(*v)));
    (m, o)
}

fn oracle_queries(r: &mut Rng, m: &Model, order: &[V]) -> Vec<Vec<V>> {
    let pos: HashMap<V, usize> = order.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let mut hubs: Vec<V> = m.verts();
    hubs.sort_by_key(|v| std::cmp::Reverse(m.degree(*v)));
    let mut qs: Vec<Vec<V>> = vec![vec![hubs[0]], hubs[..3.min(hubs.len())].to_vec(), hubs[..70.min(hubs.len())].to_vec(), hubs[..300.min(hubs.len())].to_vec(), order[order.len() - 300.min(order.len())..].to_vec()];
    for k in [2, 65, 130, 400] { let mut s = order.to_vec(); r.shuffle(&mut s); s.truncate(k); qs.push(s) }
    if m.n() <= 3100 { qs.push(order.to_vec()); }
    for q in qs.iter_mut() { q.sort_by_key(|v| pos[v]); q.dedup(); }
    qs
}

fn c35(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let (m, o) = oracle_case(&mut r, k);
    let g = gen::build(&mut r, &m);
    let d = if k % 2 == 0 { DegenGraph::with_ordering(&g, o.iter()) } else { DegenGraph::from_graph(&g) };
    let order: Vec<V> = d.vertices().cloned().collect();
    let orc = SReachTraceOracle::for_graph(&d);
    for q in oracle_queries(&mut r, &m, &order) {
        c.input(format!("scale case {k}: {} vertices, query of {}", m.n(), q.len()));
        let want = trace::truth(&m, &q);
        let got = orc.compute_traces(&q, &d);
        for (t, n) in &want { ensure!(got.get(t) == Some(n), "trace of size {} occurs {n} times, reported {:?}", t.len(), got.get(t)); }
        ensure!(got.values().filter(|n| **n > 0).count() == want.len(), "{} traces reported instead of {}", got.values().filter(|n| **n > 0).count(), want.len());
        c.max("query size", q.len() as u64);
        c.eval(true, 1 << 61 | (k as u64) << 32 | q.len() as u64);
    }
    Ok(())
}

fn c36(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    let (m, o) = oracle_case(&mut r, k);
    let g = gen::build(&mut r, &m);
    let d = if k % 2 == 0 { DegenGraph::with_ordering(&g, o.iter()) } else { DegenGraph::from_graph(&g) };
    let order: Vec<V> = d.vertices().cloned().collect();
    let orc = SReachTraceOracle::for_graph(&d);
    for q in oracle_queries(&mut r, &m, &order) {
        c.input(format!("scale case {k}: {} vertices, query of {}", m.n(), q.len()));
        let want: usize = trace::truth(&m, &q).iter().filter(|(t, _)| !t.is_empty()).map(|(_, n)| *n).sum();
        let got = orc.compute_neighbour_count(&q, &d);
        ensure!(got == want, "{got} neighbours reported instead of {want}");
        c.max("neighbour count", want as u64);
        c.eval(true, 1 << 61 | (k as u64) << 32 | q.len() as u64);
    }
    Ok(())
}

fn c37(c: &mut Ctx, k: usize) -> R {
    let mut r = c.rng.clone();
    // every trace of a set of s vertices occurs 2^(kk-s) times, or once less
    let (s, kk) = [(1usize, 17u32), (3, 12), (7, 9), (8, 8), (2, 11)][k];
    let need = 1usize << (kk as usize - s);
    for miss in [None, Some(0usize), Some((1 << s) - 1), Some(r.below(1 << s))] {
        let mut m = Model::new();
        let x: Vec<V> = (0..s as u32).map(|i| i * 1000 + 17).collect();
        for v in &x { m.add_vertex(*v); }
        let mut next = 1_000_000u32;
        for t in 0..1usize << s {
            let n = if miss == Some(t) { need - 1 } else { need };
            for _ in 0..n { m.add_vertex(next); for (i, v) in x.iter().enumerate() { if t >> i & 1 == 1 { m.add_edge(*v, next); } } next += 1; }
        }
        let g = gen::build(&mut r, &m);
        let mut o = m.verts();
        o.sort_by_key(|v| std::cmp::Reverse(m.degree(*v)));
        let d = if r.coin() { DegenGraph::with_ordering(&g, o.iter()) } else { DegenGraph::from_graph(&g) };
        let orc = SReachTraceOracle::for_graph(&d);
        for q in [kk, kk - 1, kk + 1] {
            if (q as usize) < s { continue }
            let want = match q.cmp(&kk) { std::cmp::Ordering::Greater => false, std::cmp::Ordering::Equal => miss.is_none(), _ => need > 1 };
            let mut xs = x.clone();
            r.shuffle(&mut xs);
            c.input(format!("set of {s}, k={q}, every trace {need} times except {miss:?} one less"));
            ensure!(orc.is_shattered(xs.iter(), q, &d) == want, "is_shattered of {s} vertices with k={q} is {} (every trace occurs {need} times, except {miss:?} once less)", !want);
            c.bump(if want { "shattered" } else { "not shattered" }, 1);
            c.eval(true, 1 << 61 | (k as u64) << 32 | (q as u64) << 8 | miss.is_some() as u64);
        }
    }
    let _ = EditDigraph::new();
    Ok(())
}
