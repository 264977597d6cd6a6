//! C25-C31: reachable sets and the algorithms built on them.
use super::lin::{sreach, wreach};
use super::Prop;
use crate::ctx::*;
use crate::gen::{self, Opt};
use crate::model::*;
use crate::refgraph::*;
use crate::rng::{mix, Rng};
use crate::{ensure, fail};
use graphbench::algorithms::*;
use graphbench::degengraph::DegenGraph;
use graphbench::graph::*;
use graphbench::ordgraph::OrdGraph;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C25", quick: 36000, thorough: 2160000, run: c25,
        rule: "right_bfs, wreach_sets and wreach_sizes for radii 0..9 and beyond the diameter on four ordered representations, against restricted breadth-first search; all graphs on <=4 vertices with random orders first; non-trivial = some weakly reachable vertex" });
    v.push(Prop { id: "C26", quick: 16000, thorough: 960000, run: c26,
        rule: "sreach_set, sreach_sets and sreach_sizes for radii 0..9 and beyond the diameter on four ordered representations, against restricted breadth-first search; non-trivial = some strongly reachable vertex" });
    v.push(Prop { id: "C27", quick: 10000, thorough: 600000, run: c27,
        rule: "count_max_cliques under several orderings and representations (ReachGraph included) against Bron-Kerbosch on bit sets; all graphs on <=5 vertices first, Moon-Moser and clique-rich families; non-trivial = a clique of size >= 3" });
    v.push(Prop { id: "C28", quick: 54000, thorough: 3240000, run: c28,
        rule: "colour_greedy on five ordered representations: total, proper, colours <= max left degree + 1; non-trivial = at least one edge" });
    v.push(Prop { id: "C29", quick: 22500, thorough: 1350000, run: c29,
        rule: "domset and domset_with_target for radii 0..6 and beyond the diameter, random/empty/full/repeated targets, with and without witness, on four representations; domination and every distance checked by breadth-first search; non-trivial = non-empty target and an edge" });
    v.push(Prop { id: "C30", quick: 13500, thorough: 810000, run: c30,
        rule: "witness colourings for radii 0..4 and random targets: support inside domset and target, same colour implies distance >= 2r+1; non-trivial = a colour class of two vertices or two colours" });
    v.push(Prop { id: "C31", quick: 54000, thorough: 3240000, run: c31,
        rule: "scattered_colouring for distances 0..9 and random targets: partition of the target, pairwise distances inside classes; non-trivial = a class with two vertices" });
}

pub enum Lin { Ord(OrdGraph), Degen(DegenGraph), Ref(RefLin) }
macro_rules! on { ($l:expr, $g:ident => $e:expr) => { match $l { Lin::Ord($g) => $e, Lin::Degen($g) => $e, Lin::Ref($g) => $e } } }

/// the same ordered graph in every representation that supports searches;
/// the last one carries labels 0..n-1
pub(super) fn reps(r: &mut Rng, m: &Model, order: &[V]) -> Vec<(&'static str, Lin)> {
    let g = gen::build(r, m);
    let og = OrdGraph::with_ordering(&g, order.iter());
    let dg = og.to_degeneracy_graph();
    vec![("OrdGraph", Lin::Ord(og)), ("DegenGraph", Lin::Degen(dg)), ("foreign ordered graph", Lin::Ref(RefLin::new(r, m, order)))]
}
pub(super) fn normalised(r: &mut Rng, m: &Model, order: &[V]) -> (Model, Vec<V>, Lin) {
    let g = gen::build(r, m);
    let mut d = DegenGraph::with_ordering(&g, order.iter());
    d.normalize();
    let back: HashMap<V, V> = order.iter().enumerate().map(|(i, v)| (*v, i as V)).collect();
    let mut nm = Model::new();
    for v in order { nm.add_vertex(back[v]); }
    for (u, v) in m.edges() { nm.add_edge(back[&u], back[&v]); }
    (nm, (0..order.len() as u32).collect(), Lin::Degen(d))
}

fn inst(r: &mut Rng, case: usize, n: usize, big: usize) -> (Model, Vec<V>) {
    let ex = gen::exhaustive_count(4) as usize;
    let m = if case < ex { match gen::exhaustive(case as u64, 4) { Some(a) => gen::to_model(r, &a, &gen::simple(4)), None => Model::new() } }
        else { let o = if case % 100 == 17 { gen::simple(big) } else { gen::simple(n) }; gen::random_model(r, &o) };
    let o = if r.chance(0.3) { let g = gen::build(r, &m); OrdGraph::by_degeneracy(&g).vertices().cloned().collect() } else { gen::random_order(r, &m) };
    (m, o)
}
fn oh(order: &[V], k: u64) -> u64 { order.iter().fold(k, |h, v| mix(h ^ *v as u64)) }
fn show(m: &Model, order: &[V]) -> String { format!("{} order {:?}", m.show(), &order[..order.len().min(80)]) }
fn radius(r: &mut Rng, n: usize) -> u32 { match r.below(8) { 0 => 0, 1 => 1, 2 => n as u32 + r.below(4) as u32, _ => r.range(1, 9) as u32 } }

pub(super) fn cmp_sets(what: &str, got: &VertexMap<VertexMap<u32>>, want: &[BTreeMap<V, u32>], order: &[V]) -> R {
    ensure!(got.len() == order.len(), "{what}: entries for {} of {} vertices", got.len(), order.len());
    for (i, u) in order.iter().enumerate() {
        let g = match got.get(u) { Some(g) => g, None => fail!("{what}: no entry for {u}") };
        crate::views::same_map(&format!("{what} of {u}"), g, &want[i])?;
    }
    Ok(())
}
pub(super) fn cmp_sizes(what: &str, got: &VertexMap<u32>, want: &[BTreeMap<V, u32>], order: &[V]) -> R {
    ensure!(got.len() == order.len(), "{what}: entries for {} of {} vertices", got.len(), order.len());
    for (i, u) in order.iter().enumerate() { ensure!(got.get(u) == Some(&(want[i].len() as u32)), "{what} of {u}: {:?} instead of {}", got.get(u), want[i].len()); }
    Ok(())
}

fn c25(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let (m, order) = inst(&mut r, case, 22, 160);
    let ix = Idx::with_order(&m, &order);
    let mut all = reps(&mut r, &m, &order);
    let k = r.below(all.len() + 1);
    let (m2, o2, l2) = normalised(&mut r, &m, &order);
    let ix2 = Idx::with_order(&m2, &o2);
    let mut jobs: Vec<(&str, Lin, &Idx, &[V])> = vec![];
    for (i, (n, l)) in all.drain(..).enumerate() { if m.n() <= 8 || i != k { jobs.push((n, l, &ix, &order)) } }
    jobs.push(("normalised DegenGraph", l2, &ix2, &o2));
    for _ in 0..2 {
        let rad = radius(&mut r, m.n());
        for (what, l, ix, order) in &jobs {
            let want = wreach(ix, rad);
            c.input(format!("{what} r={rad} {}", show(&m, order)));
            on!(l, g => {
                cmp_sets(&format!("{what}: wreach_sets({rad})"), &g.wreach_sets(rad), &want, order)?;
                cmp_sizes(&format!("{what}: wreach_sizes({rad})"), &g.wreach_sizes(rad), &want, order)?;
            });
            for (i, u) in order.iter().enumerate() {
                if m.n() > 30 && !r.chance(0.2) { continue }
                let d = ix.bfs_where(&[i], |w| w > i);
                let layers = on!(l, g => g.right_bfs(u, rad));
                let mut nonempty = 0;
                for (k, layer) in layers.iter().enumerate() {
                    let want: BTreeSet<V> = if k as u32 > rad { BTreeSet::new() } else { (0..ix.n()).filter(|j| d[*j] == k as u32).map(|j| ix.labels[j]).collect() };
                    crate::views::same_set(&format!("{what}: right_bfs({u},{rad}) layer {k}"), layer, &want)?;
                    if !want.is_empty() { nonempty = k + 1 }
                }
                let far = (0..ix.n()).filter(|j| d[*j] != INF && d[*j] <= rad).map(|j| d[j] as usize + 1).max().unwrap_or(0);
                ensure!(far <= layers.len() && nonempty == far, "{what}: right_bfs({u},{rad}) has {} layers, reaches {far}", layers.len());
            }
            c.bump("weakly reachable pairs", want.iter().map(|s| s.len() as u64).sum());
            c.max("largest radius", rad as u64);
            c.eval(want.iter().any(|s| !s.is_empty()), m.h() ^ oh(order, rad as u64));
        }
    }
    c.sample(|| show(&m, &order));
    Ok(())
}

fn c26(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let (m, order) = inst(&mut r, case, 22, 160);
    let ix = Idx::with_order(&m, &order);
    let all = reps(&mut r, &m, &order);
    let (m2, o2, l2) = normalised(&mut r, &m, &order);
    let ix2 = Idx::with_order(&m2, &o2);
    let mut jobs: Vec<(&str, Lin, &Idx, &[V])> = vec![];
    for (n, l) in all { jobs.push((n, l, &ix, &order)) }
    jobs.push(("normalised DegenGraph", l2, &ix2, &o2));
    for _ in 0..2 {
        let rad = radius(&mut r, m.n());
        for (what, l, ix, order) in &jobs {
            let want = sreach(ix, rad);
            c.input(format!("{what} r={rad} {}", show(&m, order)));
            on!(l, g => {
                cmp_sets(&format!("{what}: sreach_sets({rad})"), &g.sreach_sets(rad), &want, order)?;
                cmp_sizes(&format!("{what}: sreach_sizes({rad})"), &g.sreach_sizes(rad), &want, order)?;
                for (i, u) in order.iter().enumerate() {
                    if m.n() > 30 && !r.chance(0.2) { continue }
                    crate::views::same_map(&format!("{what}: sreach_set({u},{rad})"), &g.sreach_set(u, rad), &want[i])?;
                }
            });
            if rad == 0 { c.bump("radius zero", 1) }
            c.bump("strongly reachable pairs", want.iter().map(|s| s.len() as u64).sum());
            c.max("largest radius", rad as u64);
            c.eval(want.iter().any(|s| !s.is_empty()), m.h() ^ oh(order, rad as u64));
        }
    }
    c.sample(|| show(&m, &order));
    Ok(())
}

fn c27(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let ex = gen::exhaustive_count(5) as usize;
    let m = if case < ex { match gen::exhaustive(case as u64, 5) { Some(a) => gen::to_model(&mut r, &a, &gen::simple(5)), None => return Ok(()) } } else {
        match r.below(5) {
            0 => { // clique-rich: disjoint or overlapping blocks
                let n = r.range(3, 15);
                let f = [9, 14, 15, 24, 27, 18][r.below(6)];
                let a = gen::family(&mut r, f, n);
                gen::to_model(&mut r, &a, &gen::simple(1))
            }
            1 => gen::random_model(&mut r, &gen::simple(60)),
            _ => gen::random_model(&mut r, &gen::simple(16)),
        }
    };
    let want = match m.idx().max_cliques(40_000) { Some(k) if k <= 6000 => k, _ => { c.bump("graphs skipped for having too many cliques", 1); return Ok(()) } };
    let g = gen::build(&mut r, &m);
    let bad = |what: &str, got: u64, order: &[V]| -> R { ensure!(got == want, "{what}: {got} maximal cliques instead of {want} (order {order:?})"); Ok(()) };
    for _ in 0..2 {
        let order = gen::random_order(&mut r, &m);
        c.input(show(&m, &order));
        let og = OrdGraph::with_ordering(&g, order.iter());
        bad("OrdGraph", og.count_max_cliques(), &order)?;
        bad("DegenGraph", og.to_degeneracy_graph().count_max_cliques(), &order)?;
        bad("ReachGraph<1>", og.to_wreach_graph::<1>().count_max_cliques(), &order)?;
        if r.coin() { bad("ReachGraph<3>", og.to_sreach_graph::<3>().count_max_cliques(), &order)?; }
        bad("foreign ordered graph", RefLin::new(&mut r, &m, &order).count_max_cliques(), &order)?;
        let (_, o2, l) = normalised(&mut r, &m, &order);
        bad("normalised DegenGraph", on!(&l, g => g.count_max_cliques()), &o2)?;
        c.bump("counts compared", 5);
    }
    bad("by_degeneracy", OrdGraph::by_degeneracy(&g).count_max_cliques(), &[])?;
    bad("DegenGraph::from_graph", DegenGraph::from_graph(&g).count_max_cliques(), &[])?;
    c.max("cliques in one graph", want);
    let ix = m.idx();
    let tri = (0..ix.n()).any(|u| ix.adj[u].iter().any(|v| ix.adj[*v].iter().any(|w| ix.adj[u].binary_search(w).is_ok())));
    c.eval(tri, m.h());
    c.sample(|| format!("{want} maximal cliques in {}", m.show()));
    Ok(())
}

pub(super) fn colouring_ok(what: &str, col: &VertexColouring<u32>, m: &Model, order: &[V]) -> R {
    let pos: HashMap<V, usize> = order.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let maxl = order.iter().map(|u| m.nbrs(*u).iter().filter(|v| pos[v] < pos[u]).count()).max().unwrap_or(0);
    let mut cols: BTreeMap<V, u32> = BTreeMap::new();
    for (v, c) in col.iter() { ensure!(m.has(*v), "{what}: colours {v}, which is no vertex"); ensure!(cols.insert(*v, *c).is_none(), "{what}: two colours for {v}"); }
    for v in order { ensure!(cols.contains_key(v), "{what}: {v} has no colour"); }
    for (u, v) in m.edges() { ensure!(cols[&u] != cols[&v], "{what}: edge ({u},{v}) is monochromatic"); }
    let used: HashSet<u32> = cols.values().cloned().collect();
    ensure!(order.is_empty() || used.len() <= maxl + 1, "{what}: {} colours with maximum left degree {maxl}", used.len());
    Ok(())
}

fn c28(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let (m, order) = inst(&mut r, case, 24, 400);
    c.input(show(&m, &order));
    for (what, l) in reps(&mut r, &m, &order) { colouring_ok(what, &on!(&l, g => g.colour_greedy()), &m, &order)?; }
    let (m2, o2, l2) = normalised(&mut r, &m, &order);
    colouring_ok("normalised DegenGraph", &on!(&l2, g => g.colour_greedy()), &m2, &o2)?;
    let g = gen::build(&mut r, &m);
    if m.n() < 60 {
        let rg = OrdGraph::with_ordering(&g, order.iter()).to_wreach_graph::<2>();
        colouring_ok("ReachGraph", &rg.colour_greedy(), &m, &order)?;
    }
    c.bump("colourings checked", 5);
    c.eval(m.m() > 0, m.h() ^ oh(&order, 0));
    c.sample(|| show(&m, &order));
    Ok(())
}

/// random target list: full, empty, sparse, with repetitions
pub(super) fn target(r: &mut Rng, m: &Model) -> Vec<V> {
    let vs = m.verts();
    let mut t = match r.below(8) {
        0 => vec![],
        1 | 2 => vs.clone(),
        3 => r.pick(&vs).cloned().into_iter().collect(),
        _ => { let p = r.f(); r.subset(&vs, p) }
    };
    if r.chance(0.2) { let d = r.subset(&t, 0.5); t.extend(d) }
    r.shuffle(&mut t);
    t
}

pub(super) type Dom = (VertexSet, VertexMap<u32>, Option<VertexColouring<u32>>);
pub(super) fn run_dom(r: &mut Rng, l: &Lin, rad: u32, witness: bool, t: Option<&[V]>) -> Dom {
    match t {
        None => on!(l, g => g.domset(rad, witness)),
        Some(t) => if r.coin() { on!(l, g => g.domset_with_target(rad, witness, t.iter())) } else { let s: VertexSet = t.iter().cloned().collect(); on!(l, g => g.domset_with_target(rad, witness, s.clone())) },
    }
}
/// domination and the distance map; returns the number of distance entries
pub(super) fn judge_dom(what: &str, d: &Dom, ix: &Idx, rad: u32, t: Option<&[V]>) -> Result<usize, String> {
    let mut src = vec![];
    for v in &d.0 { match ix.pos.get(v) { Some(p) => src.push(*p), None => fail!("{what}: {v} in the dominating set is no vertex") } }
    let dist = ix.bfs(&src);
    let tv: Vec<V> = match t { Some(t) => t.to_vec(), None => ix.labels.clone() };
    if tv.is_empty() { ensure!(d.0.is_empty(), "{what}: non-empty set {:?} for an empty target", d.0); }
    for v in &tv { let p = ix.pos[v]; ensure!(dist[p] != INF && dist[p] <= rad, "{what}: target {v} is at distance {} from the set", if dist[p] == INF { "infinite".to_string() } else { dist[p].to_string() }); }
    let mut k = 0;
    for p in 0..ix.n() {
        if dist[p] == INF { continue }
        k += 1;
        ensure!(d.1.get(&ix.labels[p]) == Some(&dist[p]), "{what}: distance of {} reported as {:?}, true distance {}", ix.labels[p], d.1.get(&ix.labels[p]), dist[p]);
    }
    Ok(k)
}

fn c29(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let (m, order) = inst(&mut r, case, 26, 260);
    let ix = Idx::with_order(&m, &order);
    let rs = reps(&mut r, &m, &order);
    let (m2, o2, l2) = normalised(&mut r, &m, &order);
    let ix2 = Idx::with_order(&m2, &o2);
    for round in 0..2 {
        let rad = match r.below(8) { 0 => 0, 1 => m.n() as u32 + 1, _ => r.range(1, 6) as u32 };
        let witness = r.coin();
        let t = target(&mut r, &m);
        for tt in [None, Some(&t[..])] {
            c.input(format!("r={rad} witness={witness} target={:?} {}", tt.map(|t| &t[..t.len().min(60)]), show(&m, &order)));
            for (what, l) in &rs {
                if m.n() > 60 && r.below(2) == 0 { continue }
                let d = run_dom(&mut r, l, rad, witness, tt);
                let k = judge_dom(what, &d, &ix, rad, tt)?;
                ensure!(witness || d.2.is_none(), "{what}: witness without request");
                c.bump("distances compared", k as u64);
                c.bump("dominating sets", 1);
                c.max("largest dominating set", d.0.len() as u64);
            }
            c.eval(m.m() > 0 && tt.map_or(true, |t| !t.is_empty()), m.h() ^ oh(&order, rad as u64 ^ oh(tt.unwrap_or(&[]), 9)));
        }
        if round == 0 && m.n() <= 60 {
            c.input(format!("normalised r={rad} witness={witness} {}", show(&m2, &o2)));
            let d = run_dom(&mut r, &l2, rad, witness, None);
            judge_dom("normalised DegenGraph", &d, &ix2, rad, None)?;
        }
    }
    c.sample(|| show(&m, &order));
    Ok(())
}

fn c30(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let (m, order) = inst(&mut r, case, 40, 200);
    let ix = Idx::with_order(&m, &order);
    let dist = ix.all_dist();
    let rs = reps(&mut r, &m, &order);
    let mut nontrivial = false;
    let rad = match r.below(8) { 0 => 0, 1 => 4, _ => r.range(1, 3) as u32 };
    let t = target(&mut r, &m);
    for tt in [None, Some(&t[..])] {
        let ts: HashSet<V> = match tt { Some(t) => t.iter().cloned().collect(), None => m.verts().into_iter().collect() };
        c.input(format!("r={rad} witness target={:?} {}", tt.map(|t| &t[..t.len().min(60)]), show(&m, &order)));
        for (what, l) in &rs {
            let d = run_dom(&mut r, l, rad, true, tt);
            judge_dom(what, &(d.0.clone(), d.1.clone(), None), &ix, rad, tt).map_err(|e| format!("with witness requested, {e}"))?;
            let col = match &d.2 { Some(c) => c, None => fail!("{what}: witness requested but none returned") };
            let mut cl: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
            for (v, k) in col.iter() {
                ensure!(d.0.contains(v), "{what}: witness vertex {v} is not in the dominating set");
                ensure!(ts.contains(v), "{what}: witness vertex {v} is not in the target");
                cl.entry(*k).or_default().push(ix.pos[v]);
            }
            ensure!(!cl.is_empty() || ts.is_empty(), "{what}: empty witness for a non-empty target");
            for (k, vs) in &cl { for (i, a) in vs.iter().enumerate() { for b in &vs[..i] {
                ensure!(a != b && (dist[*a][*b] == INF || dist[*a][*b] >= 2 * rad + 1), "{what}: {} and {} share colour {k} at distance {} < {}", ix.labels[*a], ix.labels[*b], dist[*a][*b], 2 * rad + 1);
                c.bump("same-colour pairs checked", 1);
            } } }
            nontrivial |= cl.len() > 1 || cl.values().any(|v| v.len() > 1);
            c.max("largest witness class", cl.values().map(|v| v.len() as u64).max().unwrap_or(0));
            c.max("most witness colours", cl.len() as u64);
            let d = run_dom(&mut r, l, rad, false, tt);
            ensure!(d.2.is_none(), "{what}: a witness was returned without being requested");
        }
    }
    c.eval(nontrivial, m.h() ^ oh(&order, rad as u64) ^ oh(&t, 5));
    c.sample(|| format!("r={rad} {}", show(&m, &order)));
    Ok(())
}

fn c31(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let o: Opt = gen::simple(24);
    let (m, order) = inst(&mut r, case, o.max_n, 110);
    let ix = Idx::with_order(&m, &order);
    let dist = ix.all_dist();
    let rs = reps(&mut r, &m, &order);
    let mut nontrivial = false;
    let dd = match r.below(10) { 0 => 0, 1 => 1, 2 => m.n() as u32, _ => r.range(2, 9) as u32 };
    let t = target(&mut r, &m);
    let ts: BTreeSet<V> = t.iter().cloned().collect();
    c.input(format!("distance {dd} target={:?} {}", &t[..t.len().min(60)], show(&m, &order)));
    for (what, l) in &rs {
        let classes = if r.coin() { on!(l, g => g.scattered_colouring(dd, t.iter())) } else { on!(l, g => g.scattered_colouring(dd, t.clone())) };
        let mut seen = BTreeSet::new();
        for s in &classes {
            ensure!(!s.is_empty(), "{what}: empty class");
            let vs: Vec<V> = s.iter().cloned().collect();
            for v in &vs { ensure!(ts.contains(v), "{what}: {v} is not in the target"); ensure!(seen.insert(*v), "{what}: {v} is in two classes"); }
            for (i, a) in vs.iter().enumerate() { for b in &vs[..i] {
                let x = dist[ix.pos[a]][ix.pos[b]];
                ensure!(x == INF || x >= dd, "{what}: {a} and {b} share a class at distance {x} < {dd}");
                c.bump("same-class pairs checked", 1);
            } }
            nontrivial |= vs.len() > 1;
        }
        ensure!(seen.len() == ts.len(), "{what}: {} of {} target vertices covered", seen.len(), ts.len());
        c.max("classes", classes.len() as u64);
    }
    c.eval(nontrivial, m.h() ^ oh(&order, dd as u64) ^ oh(&t, 5));
    c.sample(|| format!("distance {dd} target {:?} {}", &t[..t.len().min(20)], show(&m, &order)));
    Ok(())
}
