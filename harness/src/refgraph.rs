//! Harness-owned implementations of the library's Graph and LinearGraph
//! traits with arbitrary iteration orders, to drive its generic algorithms
//! and default methods independently of its own containers.
use crate::model::*;
use crate::rng::Rng;
use graphbench::graph::*;
use std::collections::HashMap;

pub struct RefGraph { verts: Vec<V>, adj: HashMap<V, Vec<V>>, deg: HashMap<V, u32>, m: usize }

impl RefGraph {
    pub fn new(r: &mut Rng, m: &Model) -> RefGraph {
        let mut verts = m.verts();
        match r.below(3) { 0 => {}, 1 => verts.reverse(), _ => r.shuffle(&mut verts) }
        let mode = r.below(3);
        let adj = m.adj.iter().map(|(u, n)| {
            let mut a: Vec<V> = n.iter().cloned().collect();
            match mode { 0 => {}, 1 => a.reverse(), _ => r.shuffle(&mut a) }
            (*u, a)
        }).collect();
        RefGraph { verts, adj, deg: m.adj.keys().map(|u| (*u, m.degree(*u))).collect(), m: m.m() }
    }
}

impl Graph for RefGraph {
    fn num_vertices(&self) -> usize { self.verts.len() }
    fn num_edges(&self) -> usize { self.m }
    fn contains(&self, u: &Vertex) -> bool { self.adj.contains_key(u) }
    fn adjacent(&self, u: &Vertex, v: &Vertex) -> bool { self.adj.get(u).map_or(false, |a| a.contains(v)) }
    fn degree(&self, u: &Vertex) -> u32 { self.deg.get(u).cloned().unwrap_or(0) }
    fn vertices<'a>(&'a self) -> Box<dyn Iterator<Item = &'a Vertex> + 'a> { Box::new(self.verts.iter()) }
    fn neighbours<'a>(&'a self, u: &Vertex) -> Box<dyn Iterator<Item = &'a Vertex> + 'a> {
        match self.adj.get(u) {
            Some(a) => Box::new(a.iter()),
            None => panic!("GraphContract: neighbours() asked for a vertex that is not in the graph"),
        }
    }
}

/// Ordered graph with strided indices and unsorted neighbour lists.
pub struct RefLin { order: Vec<V>, ix: HashMap<V, usize>, adj: HashMap<V, Vec<V>>, m: usize }

impl RefLin {
    pub fn new(r: &mut Rng, m: &Model, order: &[V]) -> RefLin {
        let stride = r.range(1, 7);
        let base = r.below(5);
        let adj = m.adj.iter().map(|(u, n)| {
            let mut a: Vec<V> = n.iter().cloned().collect();
            r.shuffle(&mut a);
            (*u, a)
        }).collect();
        RefLin {
            order: order.to_vec(),
            ix: order.iter().enumerate().map(|(i, v)| (*v, base + i * stride)).collect(),
            adj, m: m.m(),
        }
    }
}

impl Graph for RefLin {
    fn num_vertices(&self) -> usize { self.order.len() }
    fn num_edges(&self) -> usize { self.m }
    fn contains(&self, u: &Vertex) -> bool { self.adj.contains_key(u) }
    fn adjacent(&self, u: &Vertex, v: &Vertex) -> bool { self.adj.get(u).map_or(false, |a| a.contains(v)) }
    fn degree(&self, u: &Vertex) -> u32 { self.adj.get(u).map_or(0, |a| a.len() as u32) }
    fn vertices<'a>(&'a self) -> Box<dyn Iterator<Item = &'a Vertex> + 'a> { Box::new(self.order.iter()) }
    fn neighbours<'a>(&'a self, u: &Vertex) -> Box<dyn Iterator<Item = &'a Vertex> + 'a> {
        match self.adj.get(u) {
            Some(a) => Box::new(a.iter()),
            None => panic!("GraphContract: neighbours() asked for a vertex that is not in the graph"),
        }
    }
}

impl LinearGraph for RefLin {
    fn index_of(&self, u: &Vertex) -> usize {
        match self.ix.get(u) {
            Some(i) => *i,
            None => panic!("GraphContract: index_of() asked for a vertex that is not in the graph"),
        }
    }
    fn left_neighbours(&self, u: &Vertex) -> Vec<Vertex> {
        let iu = self.index_of(u);
        let mut l: Vec<V> = self.adj.get(u).map(|a| a.iter().filter(|v| self.ix.get(v).map_or(false, |i| *i < iu)).cloned().collect()).unwrap_or_default();
        l.sort_by_key(|v| self.ix.get(v).cloned());
        l
    }
    fn right_degree(&self, u: &Vertex) -> u32 {
        match (self.ix.get(u), self.adj.get(u)) {
            (Some(iu), Some(a)) => a.iter().filter(|v| self.ix.get(v).map_or(false, |i| i > iu)).count() as u32,
            _ => 0,
        }
    }
}
