//! The block scheduler on arbitrary graphs, and the audio context built on it.
use crate::util::*;
use glicol_synth::{AudioContext, AudioContextBuilder, BoxedNodeSend, Buffer, Input, Message, Node, NodeData, Processor};
use glv::*;
use hashbrown::HashMap;

const MAX: usize = 8;
/// what the probes saw during a block
struct Log {
    k: usize,
    /// adj[a][b]: number of edges from a to b
    adj: [[u8; MAX]; MAX],
    /// position in the order of processing, counted from one
    stamp: [usize; MAX],
    runs: [usize; MAX],
    clock: usize,
    /// what each buffer holds now
    now: [f32; MAX],
    msgs: [usize; MAX],
    last: [f32; MAX],
    order: [[usize; 4]; MAX],
    ports: [usize; MAX],
}
impl Log {
    fn new(k: usize) -> Log {
        Log {
            k,
            adj: [[0; MAX]; MAX],
            stamp: [0; MAX],
            runs: [0; MAX],
            clock: 0,
            now: [0.0; MAX],
            msgs: [0; MAX],
            last: [0.0; MAX],
            order: [[99; 4]; MAX],
            ports: [0; MAX],
        }
    }
    fn clear(&mut self) {
        self.stamp = [0; MAX];
        self.runs = [0; MAX];
        self.clock = 0;
    }
    /// leads[a][b]: there is a path (possibly empty) from a to b
    fn closure(&self) -> [[bool; MAX]; MAX] {
        let mut r = [[false; MAX]; MAX];
        for a in 0..self.k {
            for b in 0..self.k {
                r[a][b] = a == b || self.adj[a][b] > 0;
            }
        }
        for m in 0..self.k {
            for a in 0..self.k {
                for b in 0..self.k {
                    r[a][b] = r[a][b] || (r[a][m] && r[m][b]);
                }
            }
        }
        r
    }
    fn check_block(&self, dest: usize) {
        let leads = self.closure();
        for a in 0..self.k {
            check(self.runs[a] == leads[a][dest] as usize, "exactly the nodes that reach the output run, once");
            for b in 0..self.k {
                if a != b && self.adj[a][b] > 0 && leads[b][dest] && !leads[b][a] {
                    check(self.stamp[a] < self.stamp[b], "a source runs before the node it feeds");
                }
            }
        }
    }
}
struct Probe {
    id: usize,
    log: *mut Log,
}
unsafe impl Send for Probe {}
impl<const N: usize> Node<N> for Probe {
    fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, out: &mut [Buffer<N>]) {
        let l = unsafe { &mut *self.log };
        let mut n = 0;
        for s in 0..l.k {
            if s != self.id && l.adj[s][self.id] > 0 {
                n += 1;
                match inputs.get(&s) {
                    Some(i) => {
                        check(i.node_id == s, "inputs name their source");
                        check(i.buffers().len() == 1, "inputs have the channels of their source");
                        check(i.buffers()[0][0].to_bits() == l.now[s].to_bits(), "inputs are the buffers of their source");
                    }
                    None => check(false, "every source is among the inputs"),
                }
            }
        }
        check(inputs.len() == n, "no other inputs");
        let v = any_f32();
        for x in out[0].iter_mut() {
            *x = v;
        }
        l.now[self.id] = v;
        l.runs[self.id] += 1;
        l.clock += 1;
        l.stamp[self.id] = l.clock;
    }
    fn send_msg(&mut self, m: Message) {
        let l = unsafe { &mut *self.log };
        match m {
            Message::SetToNumber(_, v) => {
                l.msgs[self.id] += 1;
                l.last[self.id] = v;
            }
            Message::Index(i) => {
                l.order[self.id][l.ports[self.id]] = i;
                l.ports[self.id] += 1;
            }
            Message::IndexOrder(p, i) => {
                for q in (p..3).rev() {
                    l.order[self.id][q + 1] = l.order[self.id][q];
                }
                l.order[self.id][p] = i;
                l.ports[self.id] += 1;
            }
            _ => {}
        }
    }
}
type Gr = G<1>;
fn graph(log: *mut Log, k: usize) -> Gr {
    G { nodes: (0..k).map(|id| NodeData::new1(Slot::Node(Box::new(Probe { id, log }) as Box<dyn Node<1>>))).collect(), edges: Vec::with_capacity(32) }
}
fn add(g: &mut Gr, l: &mut Log, a: usize, b: usize) {
    g.edges.push((a, b));
    l.adj[a][b] += 1;
}
fn block(g: &mut Gr, p: &mut Processor<Gr, 1>, log: *mut Log, dest: usize) {
    unsafe { (*log).clear() };
    p.process(g, dest);
    let l = unsafe { &*log };
    l.check_block(dest);
    for i in 0..l.k {
        check(g.nodes[i].buffers[0][0].to_bits() == l.now[i].to_bits(), "a buffer only changes when its node runs");
    }
}
fn run(k: usize, loops: bool, rev: bool, change: bool) {
    let log = Box::into_raw(Box::new(Log::new(k)));
    let mut g = graph(log, k);
    let l = unsafe { &mut *log };
    for e in 0..k * k {
        let e = if rev { k * k - 1 - e } else { e };
        let (a, b) = (e / k, e % k);
        if (a != b || loops) && choose(2) == 1 {
            add(&mut g, l, a, b);
        }
    }
    for i in 0..k {
        let v = any_f32();
        g.nodes[i].buffers[0][0] = v;
        l.now[i] = v;
    }
    let mut p = Processor::with_capacity(k);
    let dest = k - 1;
    block(&mut g, &mut p, log, dest);
    if change {
        let l = unsafe { &mut *log };
        match choose(4) {
            // an edge more (possibly a second one between the same nodes)
            0 => add(&mut g, l, 0, k - 1),
            1 => add(&mut g, l, k / 2, 0),
            // an edge less
            2 => {
                if let Some((a, b)) = g.edges.pop() {
                    l.adj[a][b] -= 1;
                }
            }
            _ => {}
        }
        block(&mut g, &mut p, log, [dest, 0][choose(2)]);
    }
    cover("end");
}
pub fn sched3() {
    if is_symbolic() {
        run(1 + choose(3), true, choose(2) == 1, false)
    } else {
        run(1 + choose(MAX), choose(3) == 0, choose(2) == 1, true)
    }
}
pub fn sched3_change() {
    if is_symbolic() {
        run(2 + choose(2), false, false, true)
    } else {
        sched3()
    }
}
pub fn sched4() {
    if is_symbolic() {
        run(4, false, false, false)
    } else {
        sched3()
    }
}
