//! Scenarios as text: one line of configuration, then one line per operation.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Op {
    pub k: &'static str,
    pub a: Vec<(&'static str, u64)>,
}

thread_local! {
    static NAMES: std::cell::RefCell<Vec<&'static str>> = const { std::cell::RefCell::new(Vec::new()) };
}
/// Interns a parsed name (scenarios are parsed once per process).
fn intern(s: &str) -> &'static str {
    NAMES.with(|n| {
        let mut n = n.borrow_mut();
        if let Some(x) = n.iter().find(|x| **x == s) {
            return *x;
        }
        let l: &'static str = Box::leak(s.to_owned().into_boxed_str());
        n.push(l);
        l
    })
}

impl Op {
    #[must_use]
    pub fn new(k: &'static str) -> Self {
        Self { k, a: Vec::new() }
    }
    /// Sets an argument; zero is the default and is left out.
    #[must_use]
    pub fn set(mut self, n: &'static str, v: u64) -> Self {
        self.put(n, v);
        self
    }
    pub fn put(&mut self, n: &'static str, v: u64) {
        self.a.retain(|(x, _)| *x != n);
        if v != 0 {
            self.a.push((n, v));
        }
    }
    #[must_use]
    pub fn get(&self, n: &str) -> u64 {
        self.a.iter().find(|(x, _)| *x == n).map_or(0, |(_, v)| *v)
    }
    #[must_use]
    pub fn us(&self, n: &str) -> usize {
        self.get(n) as usize
    }
    pub fn parse(line: &str) -> Option<Self> {
        let mut it = line.split_whitespace();
        let mut op = Self::new(intern(it.next()?));
        for p in it {
            let (n, v) = p.split_once('=')?;
            op.a.push((intern(n), v.parse().ok()?));
        }
        Some(op)
    }
}
impl std::fmt::Display for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.k)?;
        self.a.iter().try_for_each(|(n, v)| write!(f, " {n}={v}"))
    }
}

/// One execution, fully determined: `ops[0]` is the configuration.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Scenario {
    pub ops: Vec<Op>,
}
impl Scenario {
    #[must_use]
    pub fn text(&self) -> String {
        let mut s = String::new();
        for o in &self.ops {
            s.push_str(&o.to_string());
            s.push('\n');
        }
        s
    }
    pub fn parse(text: &str) -> Option<Self> {
        let ops = text
            .lines()
            .filter(|l| !l.trim().is_empty() && !l.starts_with('#'))
            .map(Op::parse)
            .collect::<Option<Vec<_>>>()?;
        (!ops.is_empty()).then_some(Self { ops })
    }
}

/// Simpler variants of a scenario, most aggressive first.
pub fn shrinks(s: &Scenario) -> Vec<Scenario> {
    let mut out = Vec::new();
    let n = s.ops.len();
    let mut chunk = (n - 1) / 2;
    while chunk >= 1 {
        let mut at = 1;
        while at < n {
            let end = (at + chunk).min(n);
            let mut ops = s.ops.clone();
            ops.drain(at..end);
            out.push(Scenario { ops });
            at += chunk;
        }
        chunk /= 2;
    }
    for i in 0..n {
        for (name, v) in &s.ops[i].a {
            // Configuration that selects the type and world is kept.
            if i == 0 && ["ty", "world", "sz"].contains(name) {
                continue;
            }
            let mut tries = vec![0];
            if *v < 1 << 20 {
                tries.extend([*v / 2, v.saturating_sub(8), v - 1]);
            } else {
                tries.extend([1, 2]);
            }
            tries.dedup();
            for t in tries {
                if t < *v {
                    let mut c = s.clone();
                    c.ops[i].put(name, t);
                    out.push(c);
                }
            }
        }
    }
    out
}

/// A broken property.
#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: &'static str,
    pub props: Vec<&'static str>,
    pub step: usize,
    pub msg: String,
}

/// What one execution came to.
pub struct Outcome {
    pub v: Option<Violation>,
    /// Hash of the event log.
    pub hash: u64,
    pub events: u64,
    /// Whether the run got anything done.
    pub nontrivial: bool,
}

// ---------------------------------------------------------------- counters

const SLOTS: usize = 160;
struct Table {
    n: usize,
    names: [&'static str; SLOTS],
    counts: [u64; SLOTS],
}
thread_local! {
    static TABLE: std::cell::RefCell<Table> = const {
        std::cell::RefCell::new(Table { n: 0, names: [""; SLOTS], counts: [0; SLOTS] })
    };
}
/// Adds to a named counter. Never allocates.
pub fn bump_by(name: &'static str, by: u64) {
    TABLE.with(|t| {
        let mut t = t.borrow_mut();
        let n = t.n;
        if let Some(i) = t.names[..n].iter().position(|x| *x == name) {
            t.counts[i] += by;
        } else if n < SLOTS {
            t.names[n] = name;
            t.counts[n] = by;
            t.n += 1;
        }
    });
}
pub fn bump(name: &'static str) {
    bump_by(name, 1);
}
pub fn counters() -> Vec<(&'static str, u64)> {
    TABLE.with(|t| {
        let t = t.borrow();
        (0..t.n).map(|i| (t.names[i], t.counts[i])).collect()
    })
}
