//! Boxes merged across a simulated network: nodes hold a merged box (volatile) and a saved one
//! (durable), exchange copies of it in messages that are delayed, reordered, duplicated and lost,
//! crash and come back with what they saved, and retry merges that failed half-way.
use crate::plan::*;
use mazth::i_bound::IBound;
use mzops::*;
use mzrt::{fault, fired, rng::mix, shm, Rng, OUT0};

type M = Option<[f64; 6]>;
fn join(a: M, b: M) -> M {
    match (a, b) {
        (None, x) | (x, None) => x,
        (Some(a), Some(b)) => {
            let mut r = a;
            for i in 0..3 {
                if b[i] < r[i] {
                    r[i] = b[i];
                }
                if b[3 + i] > r[3 + i] {
                    r[3 + i] = b[3 + i];
                }
            }
            Some(r)
        }
    }
}
fn corners(o: &Obj) -> [f64; 6] {
    let b = o.bound().expect("bound");
    let d = lib(|| b.get_bound_data());
    let mut r = [0.0; 6];
    r.copy_from_slice(&d[..6]);
    r
}
struct Node {
    acc: Box<Obj>,
    m: M,
    saved: (Obj, M),
}
struct Msg {
    from: usize,
    to: usize,
    b: Obj,
    m: M,
    sent: u64,
}
struct Net<'a> {
    defs: &'a [OpDef],
    union_op: u16,
    canary: bool,
    nodes: Vec<Node>,
    msgs: Vec<Msg>,
    trace: u64,
    merges: u64,
}
fn raw_union(r: &mut Obj, v: &[&Obj], canary: bool) {
    let l: Vec<&dyn IBound> = v.iter().map(|o| o.bound().expect("bound")).collect();
    if let Obj::Aabb(t) = r {
        if canary {
            lib(|| canary::bad_union(t, &l));
        } else {
            lib(|| t.get_union(&l));
        }
    }
}
impl<'a> Net<'a> {
    /// node n takes in `new` (with the boxes they stand for); how: bit 0 own box last, bit 1 through
    /// participants, bit 2 every member twice, bit 3 own box in the middle
    fn merge(&mut self, n: usize, new: &[&Obj], ms: &[M], how: u32, fail: Option<(u32, bool)>, what: &str) {
        self.merges += 1;
        let own = (*self.nodes[n].acc).clone();
        let old = self.nodes[n].m;
        let mut list: Vec<&Obj> = new.to_vec();
        if how & 4 != 0 {
            let l = list.clone();
            list.extend(l);
        }
        let at = if how & 8 != 0 {
            list.len() / 2
        } else if how & 1 != 0 {
            list.len()
        } else {
            0
        };
        list.insert(at, &own);
        let want = ms.iter().fold(old, |a, &b| join(a, b));
        let acc = &mut self.nodes[n].acc;
        if how & 2 != 0 || fail.is_some() {
            let w = World { defs: self.defs, objs: list.clone(), specs: &[] };
            let mut s = STEP0.clone();
            s.op = self.union_op;
            s.list = (0..list.len() as u16).collect();
            if let Some((k, kind)) = fail {
                s.trig.push(Trig { at: k, act: if kind { Act::BadKind } else { Act::Panic } });
            }
            let mut o = OUT0;
            run_into(&w, &s, Some(acc), &mut o);
            if o.fl & (mzrt::FL_PANIC | mzrt::FL_BADKIND) != 0 {
                if o.status == S_VALUE {
                    shm().note(&format!("{}: a member failed while being merged, but the merge was reported as done", what));
                }
                if corners_m(acc) != corners_m(&own) {
                    shm().note(&format!("{}: node {} had {} before a merge that failed half-way, and {} after it", what, n, text(&own), text(acc)));
                }
                return;
            }
            if o.status != S_VALUE {
                shm().note(&format!("{}: merge of {} boxes ended in {}", what, list.len(), status_name(o.status)));
            }
        } else {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| raw_union(acc, &list, self.canary)));
            if r.is_err() {
                shm().note(&format!("{}: merge of {} boxes panicked", what, list.len()));
            }
        }
        self.nodes[n].m = want;
        let acc = &self.nodes[n].acc;
        let got = corners(acc);
        for x in got {
            self.trace = mix(self.trace ^ x.to_bits());
        }
        if let Some(w) = want {
            if got != w {
                let l: Vec<String> = list.iter().map(|o| text(o)).collect();
                shm().note(&format!("{}: node {} merged [{}] to {:?}, the smallest box containing them is {:?}", what, n, l.join(" "), got, w));
            }
        }
        // everything merged so far is still inside, and overlaps
        for (o, m) in new.iter().zip(ms).chain(std::iter::once((&&own, &old))) {
            let Some(m) = m else { continue };
            if (0..3).any(|i| got[i] > m[i] || got[3 + i] < m[3 + i]) {
                shm().note(&format!("{}: node {}: merged box {:?} lost {:?}", what, n, got, m));
            }
            if self.canary || (0..3).any(|i| m[i] > m[3 + i]) {
                continue;
            }
            let (x, y) = (acc.bound().unwrap(), o.bound().unwrap());
            if !(lib(|| x.intersect(y)) && lib(|| y.intersect(x))) {
                shm().note(&format!("{}: node {}: merged box {:?} is said not to overlap {:?}", what, n, got, m));
            }
        }
    }
}
fn corners_m(o: &Obj) -> [u64; 6] {
    corners(o).map(|x| x.to_bits())
}
fn text(o: &Obj) -> String {
    format!("{:?}", corners(o))
}
fn fresh(canary: bool) -> Obj {
    // the merge of nothing
    let mut o = Obj::Aabb(aabb(&[3.0, 4.0, 5.0, 3.5, 4.5, 5.5]));
    raw_union(&mut o, &[], canary);
    o
}
pub fn run(defs: &[OpDef], p: &Plan) {
    let items = build_all(&p.objs);
    let ms: Vec<M> = items
        .iter()
        .map(|o| match o.bound() {
            Some(_) => {
                let c = corners(o);
                if c.iter().any(|x| x.is_nan()) || (0..3).any(|i| c[i] > c[3 + i]) {
                    None
                } else {
                    Some(c)
                }
            }
            None => None,
        })
        .collect();
    let ok: Vec<usize> = (0..items.len()).filter(|&i| ms[i].is_some()).collect();
    if ok.is_empty() || p.nodes == 0 {
        return;
    }
    let n = p.nodes as usize;
    let mut net = Net {
        defs,
        union_op: op_index(defs, "AABB.get_union(AABB)").unwrap_or(0),
        canary: p.canary,
        nodes: (0..n).map(|_| Node { acc: Box::new(fresh(p.canary)), m: None, saved: (fresh(p.canary), None) }).collect(),
        msgs: vec![],
        trace: 0,
        merges: 0,
    };
    let mut cut = vec![false; n * n];
    let item = |i: u16| ok[i as usize % ok.len()];
    for (t, e) in p.evs.iter().enumerate() {
        let what = format!("event {}", t);
        let a = e.a as usize % n;
        net.trace = mix(net.trace ^ e.k as u64 ^ ((e.a as u64) << 8) ^ ((e.b as u64) << 24) ^ ((e.c as u64) << 40));
        match e.k {
            E_CONTRIBUTE => {
                let i = item(e.b);
                net.merge(a, &[&items[i]], &[ms[i]], e.c, None, &what);
            }
            E_BATCH => {
                let l: Vec<usize> = e.list.iter().map(|&x| item(x)).collect();
                let os: Vec<&Obj> = l.iter().map(|&i| &items[i]).collect();
                let m: Vec<M> = l.iter().map(|&i| ms[i]).collect();
                net.merge(a, &os, &m, e.c, None, &what);
            }
            E_FAIL => {
                let l: Vec<usize> = e.list.iter().map(|&x| item(x)).collect();
                let os: Vec<&Obj> = l.iter().map(|&i| &items[i]).collect();
                let m: Vec<M> = l.iter().map(|&i| ms[i]).collect();
                let h = (e.b & 9) as u32;
                net.merge(a, &os, &m, h, Some((e.c >> 1, e.c & 1 == 1)), &what);
                if e.b & 2 != 0 {
                    // others are merged first, as many of them as those that failed: not the failed merge gone on with
                    let l: Vec<usize> = e.list.iter().map(|&x| item(x.wrapping_add(1 + e.c as u16 % 7))).collect();
                    let os: Vec<&Obj> = l.iter().map(|&i| &items[i]).collect();
                    let m: Vec<M> = l.iter().map(|&i| ms[i]).collect();
                    let at = if e.b & 1 != 0 { a } else { (a + 1) % n };
                    net.merge(at, &os, &m, h | (e.c as u32 & 2), None, &what);
                }
                fired(fault::RETRY);
                if e.b & 4 != 0 {
                    // the retry brings the members in another order
                    let k = (e.c as usize / 2) % os.len().max(1);
                    let (os, m) = ([&os[k..], &os[..k]].concat(), [&m[k..], &m[..k]].concat());
                    net.merge(a, &os, &m, h ^ 1, None, &what);
                } else {
                    net.merge(a, &os, &m, h, None, &what);
                }
            }
            E_SEND => {
                let to = e.b as usize % n;
                net.msgs.push(Msg { from: a, to, b: (*net.nodes[a].acc).clone(), m: net.nodes[a].m, sent: t as u64 });
            }
            E_DELIVER | E_DUP => {
                if net.msgs.is_empty() {
                    continue;
                }
                let k = e.b as usize % net.msgs.len();
                if cut[net.msgs[k].from * n + net.msgs[k].to] {
                    fired(fault::PARTITION);
                    continue;
                }
                if k > 0 {
                    fired(fault::NET_REORDER);
                }
                if t as u64 - net.msgs[k].sent > 3 {
                    fired(fault::NET_DELAY);
                }
                if e.k == E_DUP {
                    fired(fault::NET_DUP);
                }
                let (b, m, to) = (net.msgs[k].b.clone(), net.msgs[k].m, net.msgs[k].to);
                if e.k == E_DELIVER {
                    net.msgs.remove(k);
                }
                net.merge(to, &[&b], &[m], e.c, None, &what);
            }
            E_DROP => {
                if !net.msgs.is_empty() {
                    let k = e.b as usize % net.msgs.len();
                    net.msgs.remove(k);
                    fired(fault::NET_DROP);
                }
            }
            E_CRASH => {
                fired(fault::CRASH);
                let (o, m) = net.nodes[a].saved.clone();
                net.nodes[a].acc = Box::new(o);
                net.nodes[a].m = m;
            }
            E_SAVE => {
                let c = ((*net.nodes[a].acc).clone(), net.nodes[a].m);
                net.nodes[a].saved = c;
            }
            E_PART => cut[a * n + e.b as usize % n] = true,
            _ => cut = vec![false; n * n],
        }
    }
    // faults stop: every box is contributed again by its owner, and everybody reports to node 0
    let mut r = Rng::new(p.seed ^ 0x909);
    let mut order = ok.clone();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    for &i in &order {
        let how = r.below(16) as u32;
        net.merge(i % n, &[&items[i]], &[ms[i]], how, None, "closing contribution");
    }
    for k in 1..n {
        let (b, m) = ((*net.nodes[k].acc).clone(), net.nodes[k].m);
        let how = r.below(16) as u32;
        net.merge(0, &[&b], &[m], how, None, "closing report");
    }
    let all = ok.iter().fold(None, |a, &i| join(a, ms[i]));
    let got = corners(&net.nodes[0].acc);
    if let Some(w) = all {
        if got != w {
            shm().note(&format!("after all boxes were merged node 0 holds {:?}, the smallest box containing all is {:?}", got, w));
        }
    }
    let s = shm();
    s.trace = net.trace;
    s.aux[0] = net.merges;
    s.vtime = p.evs.len() as u64;
}
