//! C05: subgraph, relabelling, disjoint union.  C06: named generators.
use super::Prop;
use crate::ctx::*;
use crate::gen::{self, Opt};
use crate::model::*;
use crate::refgraph::*;
use crate::rng::mix;
use crate::views::*;
use crate::ensure;
use graphbench::degengraph::DegenGraph;
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::iterators::*;
use graphbench::ordgraph::OrdGraph;
use std::collections::{BTreeMap, BTreeSet};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C05", quick: 108000, thorough: 6480000, run: c05,
        rule: "induced subgraphs of EditGraph/OrdGraph/DegenGraph/foreign Graph implementations and of digraphs, normalisation of graphs and digraphs, disjoint unions of 0-5 graphs/digraphs, over random families and labels; non-trivial = an edge survives and the operation is not the identity" });
    v.push(Prop { id: "C06", quick: 1800, thorough: 14400, run: c06,
        rule: "every generator at every size 0..N (quick N=40 one-parameter, 11x11 two-parameter), random part-size lists incl. empty parts, and large sizes (70000 vertices); non-trivial = at least one edge" });
}

pub(super) fn map_check(map: &VertexMap<V>, old: &[V]) -> Result<Vec<V>, String> {
    // new id i must map to the i-th smallest old label
    ensure!(map.len() == old.len(), "normalize map has {} entries for {} vertices", map.len(), old.len());
    for (i, v) in old.iter().enumerate() {
        ensure!(map.get(&(i as u32)) == Some(v), "normalize maps {i} to {:?} instead of {v}", map.get(&(i as u32)));
    }
    Ok(old.to_vec())
}

fn c05(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let big = case % 700 == 5;
    let maxn = if big { 400 } else { 14 };
    match case % 4 {
        0 => {
            let lo = if r.coin() { gen::loopy(maxn) } else { gen::simple(maxn) };
            let m = gen::random_model(&mut r, &lo);
            let vs = m.verts();
            let p = match r.below(4) { 0 => 1.0, 1 => 0.0, _ => r.f() };
            let mut s = r.subset(&vs, p);
            let set: BTreeSet<V> = s.iter().cloned().collect();
            if r.coin() { for _ in 0..2 { if let Some(x) = r.pick(&s).cloned() { s.push(x) } } }
            r.shuffle(&mut s);
            c.input(format!("subgraph({s:?}) of {}", m.show()));
            let want = m.induced(&set);
            let g = gen::build(&mut r, &m);
            let h: EditGraph = if r.coin() { g.subgraph(s.iter()) } else { g.subgraph(s.clone()) };
            graph_view(&mut r, &h, &want, Nb::Yes).map_err(|e| format!("EditGraph subgraph: {e}"))?;
            graph_view(&mut r, &g, &m, Nb::Yes).map_err(|e| format!("original after subgraph: {e}"))?;
            let rg = RefGraph::new(&mut r, &m);
            let h: EditGraph = rg.subgraph(s.iter());
            graph_view(&mut r, &h, &want, Nb::Yes).map_err(|e| format!("foreign graph subgraph: {e}"))?;
            if !m.has_loops() {
                let o = gen::random_order(&mut r, &m);
                let h: EditGraph = OrdGraph::with_ordering(&g, o.iter()).subgraph(s.iter());
                graph_view(&mut r, &h, &want, Nb::Yes).map_err(|e| format!("OrdGraph subgraph: {e}"))?;
                let h: EditGraph = DegenGraph::with_ordering(&g, o.iter()).subgraph(s.iter());
                graph_view(&mut r, &h, &want, Nb::Yes).map_err(|e| format!("DegenGraph subgraph: {e}"))?;
            }
            let d = gen::random_dimodel(&mut r, maxn, 0.3, u32::MAX);
            let dv = d.verts();
            let s2: BTreeSet<V> = r.subset(&dv, p).into_iter().collect();
            let h: EditGraph = gen::build_di(&mut r, &d).subgraph(s2.iter());
            graph_view(&mut r, &h, &d.undirected().induced(&s2), Nb::Yes).map_err(|e| format!("undirected subgraph on {s2:?} of digraph {}: {e}", d.show()))?;
            c.bump("subgraphs", 3);
            c.eval(want.m() > 0 && want.n() < m.n(), mix(m.h() ^ want.h()));
            c.sample(|| format!("subgraph({set:?}) of {}", m.show()));
        }
        1 => {
            let m = gen::random_model(&mut r, &gen::loopy(maxn));
            c.input(format!("normalize {}", m.show()));
            let g = gen::build(&mut r, &m);
            let (h, map) = g.normalize();
            let old = map_check(&map, &m.verts())?;
            let pos: BTreeMap<V, V> = old.iter().enumerate().map(|(i, v)| (*v, i as V)).collect();
            let mut want = Model::new();
            for i in 0..old.len() { want.add_vertex(i as V); }
            for (u, v) in m.edges() { want.add_edge(pos[&u], pos[&v]); }
            graph_view(&mut r, &h, &want, Nb::Yes).map_err(|e| format!("normalized: {e}"))?;
            graph_view(&mut r, &g, &m, Nb::Yes).map_err(|e| format!("original after normalize: {e}"))?;
            let (h2, map2) = h.normalize();
            ensure!(h2 == h && map2.iter().all(|(a, b)| a == b), "normalising twice changes the graph");
            c.bump("normalisations", 1);
            c.eval(m.m() > 0 && want != m, m.h());
        }
        2 => {
            let d = gen::random_dimodel(&mut r, maxn, 0.3, u32::MAX);
            c.input(format!("normalize digraph {}", d.show()));
            let g = gen::build_di(&mut r, &d);
            let (h, map) = g.normalize();
            let old = map_check(&map, &d.verts())?;
            let pos: BTreeMap<V, V> = old.iter().enumerate().map(|(i, v)| (*v, i as V)).collect();
            let mut want = DiModel::new();
            for i in 0..old.len() { want.add_vertex(i as V); }
            for (u, v) in d.arcs() { want.add_arc(pos[&u], pos[&v]); }
            digraph_view(&mut r, &h, &want).map_err(|e| format!("normalized digraph: {e}"))?;
            digraph_view(&mut r, &g, &d).map_err(|e| format!("original after normalize: {e}"))?;
            c.bump("normalisations", 1);
            c.eval(d.m() > 0, d.h());
            // disjoint union of digraphs
            let k = r.range(1, 4);
            let cap = 1 << 28;
            let ds: Vec<DiModel> = (0..k + 1).map(|_| gen::random_dimodel(&mut r, 8, 0.3, cap)).collect();
            let gs: Vec<EditDigraph> = ds.iter().map(|d| gen::build_di(&mut r, d)).collect();
            c.input(format!("digraph disj_union {} WITH {}", ds[0].show(), ds[1].show()));
            let u = gs[0].disj_union(&gs[1]);
            let (und, arcs) = di_read(&u);
            let shift = union_shape(&und, &[ds[0].undirected(), ds[1].undirected()]).map_err(|e| format!("digraph disj_union: {e}"))?;
            for (a, b) in ds[0].arcs() { ensure!(arcs.contains(&(a, b)), "disj_union changed the first digraph: arc ({a},{b}) is gone"); }
            let first: BTreeSet<V> = ds[0].verts().into_iter().collect();
            ensure!(arcs.iter().filter(|(a, _)| first.contains(a)).count() == ds[0].m(), "disj_union changed the first digraph: extra arcs in it");
            let m1: BTreeMap<V, V> = shift[1].iter().cloned().collect();
            ensure!(u.num_edges() == arcs.len(), "disj_union: {} arcs counted, {} listed", u.num_edges(), arcs.len());
            let got: BTreeSet<(V, V)> = arcs.iter().filter(|(a, _)| !first.contains(a)).cloned().collect();
            let want: BTreeSet<(V, V)> = ds[1].arcs().into_iter().map(|(a, b)| (m1[&a], m1[&b])).collect();
            if got != want {
                // the one known way to get this wrong: every arc of the copy points upwards
                let up: BTreeSet<(V, V)> = want.iter().map(|(a, b)| (*a.min(b), *a.max(b))).collect();
                ensure!(got == up, "disj_union: the copy of {} has the arcs {got:?} instead of {want:?}", ds[1].show());
                c.finding("digraph-union-orientation", format!("EditDigraph::disj_union re-orients the arcs of the added digraph from the smaller to the larger id (e.g. {})", ds[1].show()));
            }
            let ud = EditDigraph::disj_unions(gs.iter());
            let (und, arcs) = di_read(&ud);
            union_shape(&und, &ds.iter().map(|d| d.undirected()).collect::<Vec<_>>()).map_err(|e| format!("digraph disj_unions of {}: {e}", ds.iter().map(|d| d.show()).collect::<Vec<_>>().join(" | ")))?;
            ensure!(ud.num_edges() == arcs.len(), "disj_unions: {} arcs counted, {} listed", ud.num_edges(), arcs.len());
            let degs = |a: &BTreeSet<(V, V)>| -> Vec<(usize, usize)> { let mut x: BTreeMap<V, (usize, usize)> = BTreeMap::new(); for (u, v) in a { x.entry(*u).or_default().0 += 1; x.entry(*v).or_default().1 += 1; } let mut y: Vec<_> = x.into_values().collect(); y.sort(); y };
            let mut want: Vec<(usize, usize)> = ds.iter().flat_map(|d| degs(&d.arcs().into_iter().collect())).collect();
            want.sort();
            if arcs.len() != ds.iter().map(|d| d.m()).sum::<usize>() || degs(&arcs) != want {
                ensure!(arcs.iter().all(|(a, b)| a <= b), "disj_unions of {}: arcs {arcs:?} are no copies", ds.iter().map(|d| d.show()).collect::<Vec<_>>().join(" | "));
                c.finding("digraph-union-orientation", format!("EditDigraph::disj_unions re-orients arcs from the smaller to the larger id (e.g. {})", ds[0].show()));
            }
            c.bump("disjoint unions", 2);
            c.eval(ds[0].m() > 0 && ds[1].m() > 0, mix(ds[0].h() ^ ds[1].h().rotate_left(3)));
        }
        _ => {
            let k = match r.below(6) { 0 => 0, 1 => 1, 2 => 2, x => x };
            let cap: u32 = if r.coin() { 1 << 28 } else { 5000 };
            let o = Opt { max_n: if big { 100 } else { 9 }, cap, loops: 0.2, isolates: 0.3 };
            let ms: Vec<Model> = (0..k.max(2)).map(|_| gen::random_model(&mut r, &o)).collect();
            let gs: Vec<EditGraph> = ms.iter().map(|m| gen::build(&mut r, m)).collect();
            c.input(format!("disj_union(s) of {}", ms.iter().map(|d| d.show()).collect::<Vec<_>>().join(" | ")));
            let u = gs[0].disj_union(&gs[1]);
            union_shape(&read(&u)?, &ms[..2]).map_err(|e| format!("disj_union: {e}"))?;
            graph_view(&mut r, &u, &read(&u)?, Nb::Yes)?;
            for i in 0..2 { graph_view(&mut r, &gs[i], &ms[i], Nb::Yes).map_err(|e| format!("operand after disj_union: {e}"))?; }
            let rg = RefGraph::new(&mut r, &ms[1]);
            let u = gs[0].disj_union(&rg);
            union_shape(&read(&u)?, &ms[..2]).map_err(|e| format!("disj_union with foreign graph: {e}"))?;
            let u = EditGraph::disj_unions(gs[..k].iter());
            union_shape(&read(&u)?, &ms[..k]).map_err(|e| format!("disj_unions of {k} graphs: {e}"))?;
            graph_view(&mut r, &u, &read(&u)?, Nb::Yes)?;
            c.bump("disjoint unions", 3);
            c.eval(ms[0].m() > 0 && ms[1].m() > 0, mix(ms[0].h() ^ ms[1].h().rotate_left(3)) ^ k as u64);
        }
    }
    Ok(())
}

pub(super) fn read(g: &EditGraph) -> Result<Model, String> {
    let mut m = Model::new();
    for v in g.vertices() { ensure!(m.add_vertex(*v), "vertices() repeats {v}"); }
    for (u, v) in g.edges() { ensure!(m.has(u) && m.has(v), "edge ({u},{v}) with a missing endpoint"); m.add_edge(u, v); }
    Ok(m)
}

fn di_read(g: &EditDigraph) -> (Model, BTreeSet<(V, V)>) {
    let mut m = Model::new();
    for v in Graph::vertices(g) { m.add_vertex(*v); }
    let arcs: BTreeSet<(V, V)> = g.arcs().collect();
    for (u, v) in &arcs { m.add_edge(*u, *v); }
    (m, arcs)
}

/// Is `u` the first part unchanged plus one vertex-disjoint isomorphic copy of
/// each further part?  Copies are recognised by sorted position (order
/// preserving relabelling), falling back to an isomorphism search by
/// backtracking over the leftover vertices. Returns the maps old -> new.
pub(super) fn union_shape(u: &Model, parts: &[Model]) -> Result<Vec<Vec<(V, V)>>, String> {
    let n: usize = parts.iter().map(|p| p.n()).sum();
    let e: usize = parts.iter().map(|p| p.m()).sum();
    ensure!(u.n() == n, "{} vertices instead of {n}", u.n());
    ensure!(u.m() == e, "{} edges instead of {e}", u.m());
    let mut maps = vec![];
    let mut used: BTreeSet<V> = BTreeSet::new();
    for (i, p) in parts.iter().enumerate() {
        if i == 0 {
            for v in p.verts() { ensure!(u.has(v), "vertex {v} of the first graph is missing"); used.insert(v); }
            for v in p.verts() { ensure!(u.nbrs(v) == p.nbrs(v), "neighbourhood of {v} of the first graph changed to {:?}", u.nbrs(v)); }
            maps.push(p.verts().into_iter().map(|v| (v, v)).collect());
            continue;
        }
        let free: Vec<V> = u.verts().into_iter().filter(|v| !used.contains(v)).collect();
        let pv = p.verts();
        // candidate: a uniform shift that lands on free vertices
        let mut found: Option<Vec<(V, V)>> = None;
        if pv.is_empty() { found = Some(vec![]) }
        else {
            for f in &free {
                let off = f.wrapping_sub(pv[0]);
                let mp: BTreeMap<V, V> = pv.iter().map(|v| (*v, v.wrapping_add(off))).collect();
                if !mp.values().all(|x| u.has(*x) && !used.contains(x)) { continue }
                if pv.iter().all(|v| u.nbrs(mp[v]) == p.nbrs(*v).iter().map(|w| mp[w]).collect::<BTreeSet<V>>()) {
                    found = Some(mp.into_iter().collect());
                    break;
                }
            }
        }
        match found {
            Some(m) => { for (_, x) in &m { used.insert(*x); } maps.push(m) }
            None => {
                // relabelled in some other way: compare the rest as a whole up to isomorphism
                let rest: BTreeSet<V> = free.iter().cloned().collect();
                let h = u.induced(&rest);
                let mut want = Model::new();
                let mut next = 0u32;
                let mut mps = vec![];
                for q in &parts[i..] {
                    let mp: BTreeMap<V, V> = q.verts().into_iter().map(|v| { next += 1; (v, next - 1) }).collect();
                    for x in mp.values() { want.add_vertex(*x); }
                    for (a, b) in q.edges() { want.add_edge(mp[&a], mp[&b]); }
                    mps.push(mp);
                }
                for v in &rest { ensure!(u.nbrs(*v).iter().all(|w| rest.contains(w)), "copies are joined to the earlier graphs at {v}"); }
                match crate::props::build::isomorphism(&want, &h) {
                    Some(iso) => { for mp in mps { maps.push(mp.iter().map(|(a, b)| (*a, iso[b])).collect()); } return Ok(maps) }
                    None => return Err(format!("no isomorphic copy of graph {i}: {}", p.show())),
                }
            }
        }
    }
    Ok(maps)
}

/// small backtracking isomorphism a -> b (loops respected)
pub fn isomorphism(a: &Model, b: &Model) -> Option<BTreeMap<V, V>> {
    if a.n() != b.n() || a.m() != b.m() { return None }
    let sig = |m: &Model, v: V| -> (u32, bool, Vec<u32>) {
        let mut d: Vec<u32> = m.nbrs(v).iter().map(|w| m.degree(*w)).collect();
        d.sort();
        (m.degree(v), m.adjacent(v, v), d)
    };
    let sa: BTreeMap<V, _> = a.verts().into_iter().map(|v| (v, sig(a, v))).collect();
    let sb: BTreeMap<V, _> = b.verts().into_iter().map(|v| (v, sig(b, v))).collect();
    let mut order = a.verts();
    order.sort_by_key(|v| std::cmp::Reverse(a.degree(*v)));
    let bv = b.verts();
    fn rec(i: usize, order: &[V], bv: &[V], a: &Model, b: &Model, sa: &BTreeMap<V, (u32, bool, Vec<u32>)>, sb: &BTreeMap<V, (u32, bool, Vec<u32>)>,
        mp: &mut BTreeMap<V, V>, used: &mut BTreeSet<V>, fuel: &mut u64) -> bool {
        if i == order.len() { return true }
        if *fuel == 0 { return true }
        let v = order[i];
        for x in bv {
            if used.contains(x) || sa[&v] != sb[x] { continue }
            *fuel = fuel.saturating_sub(1);
            if mp.iter().all(|(p, q)| a.adjacent(v, *p) == b.adjacent(*x, *q)) {
                mp.insert(v, *x); used.insert(*x);
                if rec(i + 1, order, bv, a, b, sa, sb, mp, used, fuel) { return true }
                mp.remove(&v); used.remove(x);
            }
        }
        false
    }
    let mut mp = BTreeMap::new();
    let mut used = BTreeSet::new();
    let mut fuel = 2_000_000;
    if rec(0, &order, &bv, a, b, &sa, &sb, &mut mp, &mut used, &mut fuel) { for v in a.verts() { mp.entry(v).or_insert(v); } Some(mp) } else { None }
}

fn c06(c: &mut Ctx, case: usize) -> R {
    let mut r = c.rng.clone();
    let top = if c.thorough { 140 } else { 40 };
    let two = if c.thorough { 15 } else { 11 };
    if case <= top {
        let n = case as u32;
        let seq = |k: u32| -> Vec<V> { (0..k).collect() };
        let chk = |c: &mut Ctx, what: String, g: EditGraph, vs: &[V], es: &[(V, V)]| -> R {
            c.input(what.clone());
            let m = Model::from_parts(vs, es);
            let mut r = c.rng.clone();
            graph_view(&mut r, &g, &m, Nb::Yes).map_err(|e| format!("{what}: {e}"))?;
            c.eval(m.m() > 0, crate::rng::hash_bytes(what.as_bytes()));
            c.sample(|| format!("{what} -> {}", m.show()));
            Ok(())
        };
        let dchk = |c: &mut Ctx, what: String, g: EditDigraph, vs: &[V], es: &[(V, V)]| -> R {
            c.input(what.clone());
            let mut m = DiModel::new();
            for v in vs { m.add_vertex(*v); }
            for (a, b) in es { m.add_arc(*a, *b); }
            let mut r = c.rng.clone();
            digraph_view(&mut r, &g, &m).map_err(|e| format!("{what}: {e}"))?;
            c.eval(m.m() > 0, crate::rng::hash_bytes(what.as_bytes()));
            Ok(())
        };
        let path: Vec<(V, V)> = (1..n).map(|i| (i - 1, i)).collect();
        let mut cyc = path.clone();
        if n >= 1 { cyc.push((n - 1, 0)) }
        let mat: Vec<(V, V)> = (0..n).map(|i| (i, i + n)).collect();
        let star: Vec<(V, V)> = (1..=n).map(|i| (0, i)).collect();
        let mut cl = vec![];
        for i in 0..n { for j in i + 1..n { cl.push((i, j)) } }
        chk(c, format!("path({n})"), EditGraph::path(n), &seq(n), &path)?;
        dchk(c, format!("directed path({n})"), EditDigraph::path(n), &seq(n), &path)?;
        if n != 1 { // a cycle on one vertex is a matter of taste
            chk(c, format!("cycle({n})"), EditGraph::cycle(n), &seq(n), &cyc)?;
            dchk(c, format!("directed cycle({n})"), EditDigraph::cycle(n), &seq(n), &cyc)?;
        } else {
            c.input("cycle(1)".into());
            ensure!(EditGraph::cycle(1).num_vertices() == 1 && EditDigraph::cycle(1).num_vertices() == 1, "cycle(1) does not have one vertex");
        }
        chk(c, format!("matching({n})"), EditGraph::matching(n), &seq(2 * n), &mat)?;
        dchk(c, format!("directed matching({n})"), EditDigraph::matching(n), &seq(2 * n), &mat)?;
        chk(c, format!("star({n})"), EditGraph::star(n), &seq(n + 1), &star)?;
        dchk(c, format!("directed star({n})"), EditDigraph::star(n), &seq(n + 1), &star)?;
        chk(c, format!("clique({n})"), EditGraph::clique(n), &seq(n), &cl)?;
        dchk(c, format!("directed clique({n})"), EditDigraph::clique(n), &seq(n), &cl)?;
        chk(c, format!("independent({n})"), EditGraph::independent(n), &seq(n), &[])?;
        dchk(c, format!("directed independent({n})"), EditDigraph::independent(n), &seq(n), &[])?;
        c.bump("generator calls", 14);
        return Ok(());
    }
    let case = case - top - 1;
    if case < two * two {
        let (s, t) = ((case / two) as u32, (case % two) as u32);
        return two_param(c, s, t);
    }
    let case = case - two * two;
    if case < 8 {
        c.input(format!("large generator {case}"));
        match case {
            0 => { let g = EditGraph::path(70_000); ensure!(g.num_vertices() == 70_000 && g.num_edges() == 69_999, "path(70000) has {} vertices {} edges", g.num_vertices(), g.num_edges());
                for i in 1..70_000u32 { ensure!(g.adjacent(&(i - 1), &i), "path(70000): {} not adjacent {i}", i - 1); } }
            1 => { let g = EditGraph::cycle(70_000); ensure!(g.num_vertices() == 70_000 && g.num_edges() == 70_000 && g.adjacent(&0, &69_999), "cycle(70000)");
                for i in 0..70_000u32 { ensure!(g.degree(&i) == 2 && g.adjacent(&i, &((i + 1) % 70_000)), "cycle(70000) at {i}"); } }
            2 => { let g = EditGraph::star(70_000); ensure!(g.num_vertices() == 70_001 && g.num_edges() == 70_000 && g.degree(&0) == 70_000, "star(70000)");
                for i in 1..=70_000u32 { ensure!(g.adjacent(&0, &i) && g.degree(&i) == 1, "star(70000) at {i}"); } }
            3 => { let g = EditGraph::matching(40_000); ensure!(g.num_vertices() == 80_000 && g.num_edges() == 40_000, "matching(40000)");
                for i in 0..40_000u32 { ensure!(g.adjacent(&i, &(i + 40_000)) && g.degree(&i) == 1, "matching(40000) at {i}"); } }
            4 => { let (s, t) = (300u32, 260u32); let g = EditGraph::grid(s, t); ensure!(g.num_vertices() == (s * t) as usize && g.num_edges() == ((s - 1) * t + s * (t - 1)) as usize, "grid({s},{t}) has {} vertices {} edges", g.num_vertices(), g.num_edges());
                for y in 0..s { for x in 0..t { let u = y * t + x; if x + 1 < t { ensure!(g.adjacent(&u, &(u + 1)), "grid at {u}"); } if y + 1 < s { ensure!(g.adjacent(&u, &(u + t)), "grid at {u}"); } } } }
            5 => { let g = EditGraph::clique(400); ensure!(g.num_vertices() == 400 && g.num_edges() == 400 * 399 / 2 && g.vertices().all(|v| g.degree(v) == 399 && *v < 400), "clique(400)"); }
            6 => { let g = EditGraph::biclique(300, 270); ensure!(g.num_vertices() == 570 && g.num_edges() == 300 * 270, "biclique(300,270)");
                for u in 0..300u32 { for v in 300..570u32 { ensure!(g.adjacent(&u, &v), "biclique at {u},{v}"); } } }
            _ => { let (s, t) = (260u32, 300u32); let g = EditDigraph::grid(s, t); ensure!(g.num_vertices() == (s * t) as usize && g.num_edges() == ((s - 1) * t + s * (t - 1)) as usize, "directed grid({s},{t})");
                for y in 0..s { for x in 0..t { let u = y * t + x; if x + 1 < t { ensure!(g.has_arc(&u, &(u + 1)), "directed grid at {u}"); } if y + 1 < s { ensure!(g.has_arc(&u, &(u + t)), "directed grid at {u}"); } } }
                let g = EditDigraph::path(70_000); ensure!(g.num_vertices() == 70_000 && g.num_edges() == 69_999, "directed path(70000)");
                for i in 1..70_000u32 { ensure!(g.has_arc(&(i - 1), &i), "directed path(70000) at {i}"); } }
        }
        c.bump("generator calls", 1);
        c.eval(true, 1 << 50 | case as u64);
        return Ok(());
    }
    if case % 3 == 0 {
        let (s, t) = (r.below(40) as u32, r.below(40) as u32);
        return two_param(c, s, t);
    }
    // complete k-partite
    let k = r.below(7);
    let sizes: Vec<u32> = (0..k).map(|_| if r.chance(0.25) { 0 } else { { let x = if r.chance(0.1) { 30 } else { 6 }; r.below(x) as u32 } }).collect();
    let what = format!("complete_kpartite({sizes:?})");
    c.input(what.clone());
    let g = EditGraph::complete_kpartite(sizes.iter());
    let mut part = vec![];
    for (i, s) in sizes.iter().enumerate() { for _ in 0..*s { part.push(i) } }
    let mut m = Model::new();
    for i in 0..part.len() { m.add_vertex(i as V); }
    for i in 0..part.len() { for j in 0..i { if part[i] != part[j] { m.add_edge(i as V, j as V); } } }
    graph_view(&mut r, &g, &m, Nb::Yes).map_err(|e| format!("{what}: {e}"))?;
    c.bump("generator calls", 1);
    c.eval(m.m() > 0, crate::rng::hash_bytes(what.as_bytes()));
    Ok(())
}

fn two_param(c: &mut Ctx, s: u32, t: u32) -> R {
    let mut r = c.rng.clone();
    let mut m = Model::new();
    let mut d = DiModel::new();
    for i in 0..s + t { m.add_vertex(i); d.add_vertex(i); }
    for u in 0..s { for v in s..s + t { m.add_edge(u, v); d.add_arc(u, v); } }
    c.input(format!("biclique({s},{t})"));
    graph_view(&mut r, &EditGraph::biclique(s, t), &m, Nb::Yes).map_err(|e| format!("biclique({s},{t}): {e}"))?;
    digraph_view(&mut r, &EditDigraph::biclique(s, t), &d).map_err(|e| format!("directed biclique({s},{t}): {e}"))?;
    let mut m2 = Model::new();
    let mut d2 = DiModel::new();
    for i in 0..s * t { m2.add_vertex(i); d2.add_vertex(i); }
    for y in 0..s { for x in 0..t {
        let u = y * t + x;
        if x + 1 < t { m2.add_edge(u, u + 1); d2.add_arc(u, u + 1); }
        if y + 1 < s { m2.add_edge(u, u + t); d2.add_arc(u, u + t); }
    } }
    c.input(format!("grid({s},{t})"));
    graph_view(&mut r, &EditGraph::grid(s, t), &m2, Nb::Yes).map_err(|e| format!("grid({s},{t}): {e}"))?;
    digraph_view(&mut r, &EditDigraph::grid(s, t), &d2).map_err(|e| format!("directed grid({s},{t}): {e}"))?;
    let what = format!("complete_kpartite([{s},{t}])");
    c.input(what.clone());
    graph_view(&mut r, &EditGraph::complete_kpartite([s, t].iter()), &m, Nb::Yes).map_err(|e| format!("{what}: {e}"))?;
    c.bump("generator calls", 5);
    c.eval(m.m() > 0, (s as u64) << 32 | t as u64 | 1 << 60);
    Ok(())
}
