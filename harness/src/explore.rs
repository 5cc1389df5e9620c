//! Stateless exhaustive exploration of choice trees.
//!
//! A body builds one execution (a document, an environment plan, a history) by asking a `Ch` for choices.
//! Every path of its choice tree is executed exactly once; the tree is split into subtrees that the
//! worker threads take from a queue.
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Ch {
    script: Vec<u32>,
    pub taken: Vec<(u32, u32)>,
}

impl Ch {
    pub fn new(script: Vec<u32>) -> Ch {
        Ch { script, taken: Vec::with_capacity(16) }
    }
    /// A choice among 0..n; 0 is the default.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        if n == 1 {
            return 0;
        }
        let i = self.taken.len();
        let c = self.script.get(i).copied().unwrap_or(0);
        assert!((c as usize) < n, "replay diverged: choice {c} of {n} at {i}");
        self.taken.push((c, n as u32));
        c as usize
    }
    pub fn pick<T: Clone>(&mut self, s: &[T]) -> T {
        s[self.choose(s.len())].clone()
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// A choice in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.choose(hi - lo + 1)
    }
    pub fn path(&self) -> Vec<u32> {
        self.taken.iter().map(|t| t.0).collect()
    }
}

#[derive(Default, Clone, Copy)]
pub struct Tree {
    pub paths: u64,
    pub edges: u64,
}

/// Runs `visit(worker, body(ch), path)` on every path of the choice tree of `body`.
pub fn explore<T>(
    threads: usize,
    body: &(dyn Fn(&mut Ch) -> Option<T> + Sync),
    visit: &(dyn Fn(usize, T, &[u32]) + Sync),
    stop: &(dyn Fn() -> bool + Sync),
) -> Tree {
    // Splits the tree.
    let mut edges = 0u64;
    let mut open: std::collections::VecDeque<Vec<u32>> = [vec![]].into();
    let mut jobs: Vec<Vec<u32>> = vec![];
    let target = threads * 24;
    let mut expansions = 0;
    while let Some(p) = open.pop_front() {
        if open.len() + jobs.len() >= target || expansions > 4000 {
            jobs.push(p);
            continue;
        }
        expansions += 1;
        let mut ch = Ch::new(p.clone());
        let _ = body(&mut ch);
        if ch.taken.len() <= p.len() {
            jobs.push(p);
            continue;
        }
        let n = ch.taken[p.len()].1;
        edges += n as u64;
        for c in 0..n {
            let mut q = p.clone();
            q.push(c);
            open.push_back(q);
        }
    }
    let next = AtomicUsize::new(0);
    let (paths, more) = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|w| {
                let (next, jobs) = (&next, &jobs);
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(s, move || {
                        let (mut paths, mut edges) = (0u64, 0u64);
                        loop {
                            let j = next.fetch_add(1, Ordering::Relaxed);
                            if j >= jobs.len() {
                                break;
                            }
                            let root = jobs[j].len();
                            let mut script = jobs[j].clone();
                            let mut known = root;
                            loop {
                                if stop() {
                                    return (paths, edges);
                                }
                                let mut ch = Ch::new(std::mem::take(&mut script));
                                let v = body(&mut ch);
                                let path = ch.path();
                                edges += path.len().saturating_sub(known) as u64;
                                if let Some(v) = v {
                                    paths += 1;
                                    visit(w, v, &path);
                                }
                                // Backtracks.
                                let mut t = ch.taken;
                                while t.len() > root && t.last().is_some_and(|&(c, n)| c + 1 >= n) {
                                    t.pop();
                                }
                                if t.len() <= root {
                                    break;
                                }
                                known = t.len() - 1;
                                t.last_mut().unwrap().0 += 1;
                                script = t.iter().map(|x| x.0).collect();
                            }
                        }
                        (paths, edges)
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1))
    });
    Tree { paths, edges: edges + more }
}
