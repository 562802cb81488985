//! Shared scaffolding: a minimal graph through which real nodes are driven by the real
//! block scheduler, and scripted source nodes.
use glicol_synth::{Buffer, Input, Message, Node, NodeData, Processor};
use glv::*;
use hashbrown::HashMap;
use petgraph::data::{DataMap, DataMapMut};
use petgraph::visit::{Data, GraphBase, IntoNeighborsDirected, NodeIndexable, Visitable};
use petgraph::Direction;

pub type Nd<const N: usize> = NodeData<Slot<N>, N>;
/// tiny adjacency-list graph
pub struct G<const N: usize> {
    pub nodes: Vec<Nd<N>>,
    /// (from, to)
    pub edges: Vec<(usize, usize)>,
}
/// a node: either a scripted source (keeps its buffers) or the node under verification
pub enum Slot<const N: usize> {
    Src,
    Node(Box<dyn Node<N>>),
}
impl<const N: usize> Node<N> for Slot<N> {
    fn process(&mut self, i: &mut HashMap<usize, Input<N>>, o: &mut [Buffer<N>]) {
        match self {
            Slot::Src => {}
            Slot::Node(n) => n.process(i, o),
        }
    }
    fn send_msg(&mut self, m: Message) {
        match self {
            Slot::Src => {}
            Slot::Node(n) => n.send_msg(m),
        }
    }
}
#[derive(Default, Clone)]
pub struct Seen(Vec<bool>);
impl petgraph::visit::VisitMap<usize> for Seen {
    fn visit(&mut self, a: usize) -> bool {
        let r = !self.0[a];
        self.0[a] = true;
        r
    }
    fn is_visited(&self, a: &usize) -> bool {
        self.0[*a]
    }
}
impl<const N: usize> GraphBase for G<N> {
    type EdgeId = usize;
    type NodeId = usize;
}
impl<const N: usize> Visitable for G<N> {
    type Map = Seen;
    fn visit_map(&self) -> Seen {
        Seen(vec![false; self.nodes.len()])
    }
    fn reset_map(&self, m: &mut Seen) {
        m.0.clear();
        m.0.resize(self.nodes.len(), false);
    }
}
impl<const N: usize> Data for G<N> {
    type NodeWeight = Nd<N>;
    type EdgeWeight = ();
}
impl<const N: usize> DataMap for G<N> {
    fn node_weight(&self, i: usize) -> Option<&Nd<N>> {
        self.nodes.get(i)
    }
    fn edge_weight(&self, _: usize) -> Option<&()> {
        None
    }
}
impl<const N: usize> DataMapMut for G<N> {
    fn node_weight_mut(&mut self, i: usize) -> Option<&mut Nd<N>> {
        self.nodes.get_mut(i)
    }
    fn edge_weight_mut(&mut self, _: usize) -> Option<&mut ()> {
        None
    }
}
impl<const N: usize> NodeIndexable for G<N> {
    fn node_bound(&self) -> usize {
        self.nodes.len()
    }
    fn to_index(&self, a: usize) -> usize {
        a
    }
    fn from_index(&self, i: usize) -> usize {
        i
    }
}
pub struct Nb<'a> {
    e: &'a [(usize, usize)],
    i: usize,
    n: usize,
    inc: bool,
}
impl<'a> Iterator for Nb<'a> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        while self.i < self.e.len() {
            let (a, b) = self.e[self.i];
            self.i += 1;
            if self.inc && b == self.n {
                return Some(a);
            }
            if !self.inc && a == self.n {
                return Some(b);
            }
        }
        None
    }
}
impl<'a, const N: usize> petgraph::visit::IntoNeighbors for &'a G<N> {
    type Neighbors = Nb<'a>;
    fn neighbors(self, n: usize) -> Nb<'a> {
        Nb { e: &self.edges, i: 0, n, inc: false }
    }
}
impl<'a, const N: usize> IntoNeighborsDirected for &'a G<N> {
    type NeighborsDirected = Nb<'a>;
    fn neighbors_directed(self, n: usize, d: Direction) -> Nb<'a> {
        Nb { e: &self.edges, i: 0, n, inc: d == Direction::Incoming }
    }
}

/// The rig: sources 0..k-1 and the node under verification at index k.
pub struct Rig<const N: usize> {
    pub g: G<N>,
    pub p: Processor<G<N>, N>,
    pub k: usize,
}
impl<const N: usize> Rig<N> {
    /// `chans[i]`: number of channels of source i; `out`: channels of the node.
    pub fn new(chans: &[usize], out: usize, node: impl Node<N> + 'static) -> Self {
        let mut nodes = Vec::with_capacity(8);
        let mut edges = Vec::with_capacity(8);
        let k = chans.len();
        for (i, c) in chans.iter().enumerate() {
            nodes.push(NodeData::multi_chan_node(*c, Slot::Src));
            edges.push((i, k));
        }
        nodes.push(NodeData::multi_chan_node(out, Slot::Src));
        let mut r = Rig { g: G { nodes, edges }, p: Processor::with_capacity(8), k };
        // let the scheduler size its work areas before the node is put in place
        r.block();
        r.g.nodes[k].node = Slot::Node(Box::new(node));
        r
    }
    pub fn msg(&mut self, m: Message) {
        self.g.nodes[self.k].node.send_msg(m)
    }
    pub fn set(&mut self, src: usize, ch: usize, i: usize, v: f32) {
        self.g.nodes[src].buffers[ch][i] = v;
    }
    pub fn src(&self, src: usize, ch: usize, i: usize) -> f32 {
        self.g.nodes[src].buffers[ch][i]
    }
    /// arbitrary contents for every source, and arbitrary leftovers in the output buffers
    pub fn any_sources(&mut self) {
        for n in self.g.nodes.iter_mut() {
            for b in n.buffers.iter_mut() {
                for i in 0..N {
                    b[i] = any_f32();
                }
            }
        }
    }
    pub fn block(&mut self) {
        let k = self.k;
        self.p.process(&mut self.g, k)
    }
    pub fn out(&self, ch: usize, i: usize) -> f32 {
        self.g.nodes[self.k].buffers[ch][i]
    }
    pub fn out_chans(&self) -> usize {
        self.g.nodes[self.k].buffers.len()
    }
}

/// Establish the port order [a, b] of a two-input node in one of the ways the graph layers do.
pub fn any_order<const N: usize>(r: &mut Rig<N>, a: usize, b: usize) {
    match choose(5) {
        0 => {
            r.msg(Message::Index(a));
            r.msg(Message::Index(b));
        }
        1 => {
            r.msg(Message::Index(b));
            r.msg(Message::IndexOrder(0, a));
        }
        2 => {
            r.msg(Message::Index(b));
            r.msg(Message::Index(7));
            r.msg(Message::ResetOrder);
            r.msg(Message::Index(a));
            r.msg(Message::Index(b));
        }
        3 => {
            r.msg(Message::IndexOrder(0, a));
            r.msg(Message::IndexOrder(1, b));
        }
        _ => {
            r.msg(Message::Index(a));
            r.msg(Message::Index(7));
            r.msg(Message::IndexOrder(1, b));
        }
    }
}
/// a sample rate as used in practice
pub fn any_sr() -> usize {
    usize_in(1, 768_000)
}
pub fn any_channels(max: usize) -> usize {
    1 + choose(max)
}
/// split the proof into the cases x = 0, .., n-1
pub fn cases(x: usize, n: usize) {
    if is_symbolic() {
        let p = choose(n);
        assume(x == p);
    }
}
