//! Stateless exhaustive exploration by re-execution: an execution asks `choose(n)` at every
//! nondeterministic point; `explore` runs the body once for every sequence of answers,
//! within a bound on the total cost of the non-default answers (deviations).

pub struct Chooser {
    prefix: Vec<usize>,
    pos: usize,
    /// (choice, number of alternatives, cost of non-default alternative)
    pub log: Vec<(usize, usize, u32)>,
    pub spent: u32,
    pub bound: u32,
}

impl Chooser {
    pub fn replay(prefix: Vec<usize>, bound: u32) -> Self {
        Chooser { prefix, pos: 0, log: vec![], spent: 0, bound }
    }

    /// A free choice among `n` alternatives: all of them are explored.
    pub fn choose(&mut self, n: usize) -> usize {
        self.pick(n, 0)
    }

    /// Alternative 0 is the default; every other one costs one deviation.
    pub fn deviate(&mut self, n: usize) -> usize {
        let n = if self.spent >= self.bound { 1 } else { n };
        self.pick(n, 1)
    }

    fn pick(&mut self, n: usize, cost: u32) -> usize {
        assert!(n > 0);
        let c = if self.pos < self.prefix.len() { self.prefix[self.pos] } else { 0 };
        assert!(c < n, "divergence while replaying a prefix: choice {} of {}", c, n);
        self.pos += 1;
        if c > 0 {
            self.spent += cost;
        }
        self.log.push((c, n, cost));
        c
    }

    pub fn choices(&self) -> Vec<usize> {
        self.log.iter().map(|l| l.0).collect()
    }
}

pub struct Explored {
    /// executions
    pub runs: u64,
    /// choices made, over all executions
    pub choices: u64,
    /// distinct choice histories (nodes of the tree of executions)
    pub nodes: u64,
}

/// Runs `body` for every choice sequence. `body` returns false to stop the exploration.
pub fn explore(bound: u32, mut body: impl FnMut(&mut Chooser) -> bool) -> Explored {
    let mut prefix: Vec<usize> = vec![];
    let mut x = Explored { runs: 0, choices: 0, nodes: 1 };
    loop {
        let old = prefix.len().saturating_sub(1);
        let mut ch = Chooser::replay(prefix, bound);
        let go_on = body(&mut ch);
        x.runs += 1;
        x.choices += ch.log.len() as u64;
        x.nodes += (ch.log.len() - old.min(ch.log.len())) as u64;
        if !go_on {
            return x;
        }
        // next sequence in depth-first order
        let mut log = ch.log;
        loop {
            match log.pop() {
                None => return x,
                Some((c, n, _)) if c + 1 < n => {
                    prefix = log.iter().map(|l| l.0).collect();
                    prefix.push(c + 1);
                    break;
                }
                Some(_) => {}
            }
        }
    }
}
