//! Two or more real threads that stop before every file operation; one of them moves at a time.

use crate::sys::{actor, Act, Op, World};
use std::sync::{Arc, Condvar, Mutex};
use vmc::Chooser;

#[derive(Default)]
struct St {
    waiting: Vec<Vec<(u64, Op)>>,
    grant: Option<u64>,
    done: Vec<bool>,
    next: u64,
    free: bool,
}
pub struct Sched(Mutex<St>, Condvar);

impl Sched {
    /// Stops every operation of the world's threads (actors 1.. of `n`).
    pub fn install(w: &'static World, n: usize) -> Arc<Sched> {
        let s = Arc::new(Sched(
            Mutex::new(St { waiting: vec![vec![]; n], done: vec![false; n], ..Default::default() }),
            Condvar::new(),
        ));
        let s2 = s.clone();
        w.set_hook(Some(Arc::new(move |op| s2.stop(op))));
        s
    }
    fn stop(&self, op: &Op) -> Act {
        let a = actor();
        let mut g = self.0.lock().unwrap();
        if g.free || a >= g.waiting.len() {
            return Act::Go;
        }
        let id = g.next;
        g.next += 1;
        g.waiting[a].push((id, op.clone()));
        self.1.notify_all();
        while g.grant != Some(id) && !g.free {
            g = self.1.wait(g).unwrap();
        }
        if g.grant == Some(id) {
            g.grant = None;
        }
        g.waiting[a].retain(|x| x.0 != id);
        self.1.notify_all();
        Act::Go
    }
    pub fn done(&self, a: usize) {
        self.0.lock().unwrap().done[a] = true;
        self.1.notify_all();
    }
    /// Chooses an order with at most `bound` preemptions.  Returns the schedule.
    pub fn drive(&self, ch: &mut Chooser, bound: usize) -> Vec<(usize, Op)> {
        let mut trace = vec![];
        let mut cur: Option<usize> = None;
        let mut used = 0;
        loop {
            let mut g = self.0.lock().unwrap();
            loop {
                let ready = (0..g.done.len()).all(|a| g.done[a] || !g.waiting[a].is_empty());
                if ready && g.grant.is_none() {
                    break;
                }
                let (g2, t) = self.1.wait_timeout(g, std::time::Duration::from_secs(20)).unwrap();
                g = g2;
                if t.timed_out() {
                    g.free = true;
                    self.1.notify_all();
                    panic!("the threads make no progress");
                }
            }
            let able: Vec<usize> = (0..g.done.len()).filter(|&a| !g.waiting[a].is_empty()).collect();
            if able.is_empty() {
                return trace;
            }
            drop(g);
            let pick = match cur.filter(|c| able.contains(c)) {
                Some(c) if used >= bound || able.len() == 1 => c,
                Some(c) => {
                    let mut o = vec![c];
                    o.extend(able.iter().copied().filter(|&a| a != c));
                    let p = o[ch.choose(o.len())];
                    if p != c {
                        used += 1;
                    }
                    p
                }
                None => *ch.pick(&able),
            };
            cur = Some(pick);
            let mut g = self.0.lock().unwrap();
            let (id, op) = g.waiting[pick][0].clone();
            trace.push((pick, op));
            g.grant = Some(id);
            self.1.notify_all();
        }
    }
    /// Lets everybody run on.
    pub fn release(&self) {
        self.0.lock().unwrap().free = true;
        self.1.notify_all();
    }
}
