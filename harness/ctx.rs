//! The audio context: adding, connecting, messaging, rendering.
use crate::util::*;
use glicol_synth::{AudioContext, AudioContextBuilder, BoxedNodeSend, Buffer, Input, Message, Node, NodeData};
use glv::*;
use hashbrown::HashMap;
use petgraph::graph::NodeIndex;

const MAX: usize = 8;
/// marks for the two nodes a context always has; probes are numbered from two
const DEST: usize = 0;
const INPUT: usize = 1;
struct Log {
    n: usize,
    alive: [bool; MAX],
    idx: [usize; MAX],
    ch: [usize; MAX],
    adj: [[bool; MAX]; MAX],
    runs: [usize; MAX],
    stamp: [usize; MAX],
    clock: usize,
    now: [[f32; 3]; MAX],
    /// input order as the node was told, and as it should be
    told: [[usize; 12]; MAX],
    ports: [usize; MAX],
    want: [[usize; 12]; MAX],
    wports: [usize; MAX],
    got: [usize; MAX],
    last: [f32; MAX],
    wgot: [usize; MAX],
    wlast: [f32; MAX],
}
fn insert(list: &mut [usize; 12], n: &mut usize, pos: usize, v: usize) {
    let mut i = *n;
    while i > pos {
        list[i] = list[i - 1];
        i -= 1;
    }
    list[pos] = v;
    *n += 1;
}
struct Probe {
    id: usize,
    log: *mut Log,
}
unsafe impl Send for Probe {}
impl<const N: usize> Node<N> for Probe {
    fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, out: &mut [Buffer<N>]) {
        let l = unsafe { &mut *self.log };
        let mut n = 0;
        for s in 0..l.n {
            if l.alive[s] && l.adj[s][self.id] && s != self.id {
                n += 1;
                match inputs.get(&l.idx[s]) {
                    Some(i) => {
                        check(i.buffers().len() == l.ch[s], "inputs have the channels of their source");
                        for c in 0..l.ch[s] {
                            check(i.buffers()[c][0].to_bits() == l.now[s][c].to_bits(), "inputs are what their source put out");
                        }
                    }
                    None => check(false, "a connected node is an input"),
                }
            }
        }
        check(inputs.len() == n, "nothing else is an input");
        check(out.len() == l.ch[self.id], "a node has the channels it was added with");
        for c in 0..l.ch[self.id] {
            let v = any_f32();
            out[c][0] = v;
            l.now[self.id][c] = v;
        }
        l.runs[self.id] += 1;
        l.clock += 1;
        l.stamp[self.id] = l.clock;
    }
    fn send_msg(&mut self, m: Message) {
        let l = unsafe { &mut *self.log };
        let d = self.id;
        match m {
            Message::SetToNumber(3, v) => {
                l.got[d] += 1;
                l.last[d] = v;
            }
            Message::Index(i) => {
                let p = l.ports[d];
                insert(&mut l.told[d], &mut l.ports[d], p, i);
            }
            Message::IndexOrder(p, i) => insert(&mut l.told[d], &mut l.ports[d], p, i),
            _ => check(false, "no other messages"),
        }
    }
}
struct World {
    c: AudioContext<1>,
    log: *mut Log,
    chans: usize,
}
impl World {
    fn l(&mut self) -> &mut Log {
        unsafe { &mut *self.log }
    }
    fn new(chans: usize) -> World {
        let log = Box::into_raw(Box::new(Log {
            n: 2,
            alive: [false; MAX],
            idx: [0; MAX],
            ch: [0; MAX],
            adj: [[false; MAX]; MAX],
            runs: [0; MAX],
            stamp: [0; MAX],
            clock: 0,
            now: [[0.0; 3]; MAX],
            told: [[0; 12]; MAX],
            ports: [0; MAX],
            want: [[0; 12]; MAX],
            wports: [0; MAX],
            got: [0; MAX],
            last: [0.0; MAX],
            wgot: [0; MAX],
            wlast: [0.0; MAX],
        }));
        let mut w = World { c: AudioContextBuilder::new().channels(chans).max_nodes(8).max_edges(16).build(), log, chans };
        w.fixed();
        w
    }
    fn fixed(&mut self) {
        let (d, i, ch) = (self.c.destination.index(), self.c.input.index(), self.chans);
        let l = self.l();
        for (k, x) in [(DEST, d), (INPUT, i)] {
            l.alive[k] = true;
            l.idx[k] = x;
            l.ch[k] = ch;
        }
    }
    fn probe(&mut self, ch: usize) -> (usize, Probe) {
        let log = self.log;
        let l = self.l();
        let id = l.n;
        l.n += 1;
        l.alive[id] = true;
        l.ch[id] = ch;
        (id, Probe { id, log })
    }
    fn add(&mut self, ch: usize, how: usize) {
        let (id, p) = self.probe(ch);
        let x = match how {
            0 => self.c.add_mono_node(p),
            1 => self.c.add_stereo_node(p),
            _ => self.c.add_multi_chan_node(ch, p),
        };
        self.l().idx[id] = x.index();
    }
    fn at(&mut self, k: usize) -> NodeIndex {
        NodeIndex::new(self.l().idx[k])
    }
    fn joined(&mut self, a: usize, b: usize, pos: Option<usize>) {
        let l = self.l();
        l.adj[a][b] = true;
        if b >= 2 {
            let p = pos.unwrap_or(l.wports[b]);
            let v = l.idx[a];
            insert(&mut l.want[b], &mut l.wports[b], p, v);
        }
    }
    /// any living node that can be listened to
    fn source(&mut self) -> usize {
        let n = self.l().n;
        let a = 1 + choose(n - 1);
        assume(self.l().alive[a]);
        a
    }
    fn sink(&mut self) -> usize {
        let n = self.l().n;
        let b = choose(n);
        assume(b != INPUT && self.l().alive[b]);
        b
    }
    fn pair(&mut self) -> Vec<NodeData<BoxedNodeSend<1>, 1>> {
        let (_, p) = self.probe(1);
        let (_, q) = self.probe(2);
        vec![NodeData::new1(BoxedNodeSend::new(p)), NodeData::new2(BoxedNodeSend::new(q))]
    }
    fn op(&mut self, k: usize) {
        match k {
            0 => {
                let (a, b) = (self.source(), self.sink());
                let (x, y) = (self.at(a), self.at(b));
                self.c.connect(x, y);
                self.joined(a, b, None);
            }
            1 => {
                let (a, b) = (self.source(), self.sink());
                let (x, y) = (self.at(a), self.at(b));
                let pos = choose(self.l().wports[b].min(2) + 1);
                self.c.connect_with_order(x, y, pos);
                self.joined(a, b, Some(pos));
            }
            2 => {
                let (a, b, d) = ([INPUT, 2, 3][choose(3)], [3, 4][choose(2)], [DEST, 2][choose(2)]);
                assume(self.l().alive[a] && self.l().alive[b] && self.l().alive[d]);
                let v = vec![self.at(a), self.at(b), self.at(d)];
                check(self.c.chain(v).len() == 2, "one connection per neighbouring pair");
                self.joined(a, b, None);
                self.joined(b, d, None);
            }
            3 | 4 => {
                let n = self.l().n;
                assume(n + 2 <= MAX);
                let v = self.pair();
                let (x, e) = if k == 3 { self.c.chain_boxed(v) } else { self.c.add_node_chain(v) };
                check(x.len() == 2 && e.len() == 1, "all nodes and connections are named");
                self.l().idx[n] = x[0].index();
                self.l().idx[n + 1] = x[1].index();
                self.joined(n, n + 1, None);
                let d = self.c.destination;
                self.c.connect(x[1], d);
                self.joined(n + 1, DEST, None);
            }
            5 => {
                let b = self.source();
                let v = any_f32();
                let x = self.at(b);
                self.c.send_msg(x, Message::SetToNumber(3, v));
                if b >= 2 {
                    self.l().wgot[b] += 1;
                    self.l().wlast[b] = v;
                }
            }
            6 => {
                let v = any_f32();
                self.c.send_msg_to_all(Message::SetToNumber(3, v));
                let l = self.l();
                for b in 2..l.n {
                    if l.alive[b] {
                        l.wgot[b] += 1;
                        l.wlast[b] = v;
                    }
                }
            }
            7 => {
                let b = self.source();
                assume(b >= 2);
                let x = self.at(b);
                self.c.graph.remove_node(x);
                let l = self.l();
                l.alive[b] = false;
                for o in 0..l.n {
                    l.adj[b][o] = false;
                    l.adj[o][b] = false;
                }
            }
            _ => {
                self.c.reset();
                let l = self.l();
                l.alive = [false; MAX];
                l.adj = [[false; MAX]; MAX];
                l.now[INPUT] = [0.0; 3];
                self.fixed();
            }
        }
    }
    fn block(&mut self) {
        let i = self.c.input;
        let chans = self.chans;
        let log = self.log;
        let l = unsafe { &mut *log };
        for c in 0..chans {
            let v = any_f32();
            self.c.graph[i].buffers[c][0] = v;
            l.now[INPUT][c] = v;
        }
        l.runs = [0; MAX];
        l.stamp = [0; MAX];
        l.clock = 0;
        let mut up = [[false; MAX]; MAX];
        for a in 0..l.n {
            for b in 0..l.n {
                up[a][b] = a == b || l.adj[a][b];
            }
        }
        for m in 0..l.n {
            for a in 0..l.n {
                for b in 0..l.n {
                    up[a][b] = up[a][b] || up[a][m] && up[m][b];
                }
            }
        }
        let out = self.c.next_block();
        check(out.len() == chans, "as many channels as configured");
        for c in 0..chans {
            let (mut y, mut size) = (0.0, 0.0);
            for s in 1..l.n {
                if l.alive[s] && l.adj[s][DEST] && (l.ch[s] == 1 || c < l.ch[s]) {
                    let v = l.now[s][if l.ch[s] == 1 { 0 } else { c }];
                    y = y + v;
                    size += v.abs();
                }
            }
            check_f32_tol(out[c][0], y, size, "the output is the sum of what is connected to it");
        }
        for a in 2..l.n {
            check(l.runs[a] == (l.alive[a] && up[a][DEST]) as usize, "what is heard runs, once");
            for b in 2..l.n {
                if a != b && l.adj[a][b] && up[b][DEST] && !up[b][a] {
                    check(l.stamp[a] < l.stamp[b], "sources run first");
                }
            }
            if l.alive[a] {
                check(l.ports[a] == l.wports[a], "a node is told each connection");
                for p in 0..l.wports[a] {
                    check(l.told[a][p] == l.want[a][p], "connections come in the order asked for");
                }
                check(l.got[a] == l.wgot[a] && l.last[a].to_bits() == l.wlast[a].to_bits(), "messages reach their addressee");
            }
        }
    }
}
fn ops(n: usize, first: &[usize], rest: &[usize]) {
    let mut w = World::new([2, 1][choose(2)]);
    w.add(1, 0);
    w.add(2, 1);
    w.add(3, 2);
    w.op(first[choose(first.len())]);
    for _ in 1..n {
        w.op(rest[choose(rest.len())]);
    }
    w.block();
    if !is_symbolic() {
        for _ in 0..choose(4) {
            w.op(choose(9));
            w.block();
        }
    }
    cover("end");
}
pub fn ctx_connect() {
    ops(2, &[0, 1], &[0, 1, 2])
}
pub fn ctx_chain() {
    ops(2, &[2, 3, 4], &[1, 5, 6])
}
/// after a removal or a reset nothing of what was there is left
pub fn ctx_remove() {
    let mut w = World::new(2);
    w.add(1, 0);
    w.add(2, 1);
    w.add(3, 2);
    w.op(2);
    w.block();
    w.op([7, 8][choose(2)]);
    w.block();
    if choose(2) == 1 {
        w.add(2, 1);
        w.op(0);
        w.block();
        w.op(6);
        w.block();
    } else {
        w.op(3);
        w.block();
    }
    cover("end");
}
