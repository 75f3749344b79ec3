//! Recording of observations and violations.
use crate::rng::hash_str;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::time::Instant;

pub struct Mon {
    pub seed: u64,
    pub thorough: bool,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub bins: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<(String, String, String)>,
    pub viol_count: u64,
    pub check_messages: bool,
    /// counted allocations while formatting are no violation
    pub may_allocate: bool,
    pub scale: usize,
    out: Option<String>,
    start: Instant,
    last: Instant,
    current: String,
    only: Option<String>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Runs code under test; a panic becomes `Err(message)`.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let guarded = GUARDED.try_with(|g| g.get() > 0).unwrap_or(false);
        if guarded {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let at = info.location().map(|l| l.to_string()).unwrap_or_default();
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("panic at {at}: {msg}"));
        } else {
            old(info);
        }
    }));
}

impl Mon {
    /// Usage: BIN OUT.json [CASE] with VERIF_SEED, VERIF_TIER, VRT_SCALE from the environment.
    pub fn from_env() -> Self {
        install_hook();
        let env = |k: &str| std::env::var(k).unwrap_or_default();
        let mut args = std::env::args().skip(1);
        Mon {
            seed: env("VERIF_SEED").parse().unwrap_or(1),
            thorough: env("VERIF_TIER") == "thorough",
            evals: 0,
            distinct: HashSet::new(),
            bins: BTreeMap::new(),
            samples: Vec::new(),
            viols: Vec::new(),
            viol_count: 0,
            may_allocate: false,
            check_messages: env("VRT_MESSAGES") == "1",
            scale: env("VRT_SCALE").parse().unwrap_or(1),
            out: args.next(),
            only: args.next(),
            start: Instant::now(),
            last: Instant::now(),
            current: String::new(),
        }
    }
    /// Notes which case is running, in case the process dies.
    pub fn begin(&mut self, case: &str) {
        let now = Instant::now();
        let spent = now.duration_since(self.last).as_millis();
        if spent > 2000 && !self.current.is_empty() {
            eprintln!("slow: {} {spent} ms", self.current);
        }
        self.last = now;
        self.current = case.to_string();
        if let Some(p) = &self.out {
            let _ = std::fs::write(format!("{p}.cur"), case);
        }
    }
    pub fn wants(&self, case: &str) -> bool {
        self.only.as_deref().is_none_or(|o| o == case)
    }
    /// One evaluation of an oracle; `key` identifies the observation.
    pub fn eval(&mut self, case: &str, key: &str, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            let h = hash_str(case).rotate_left(17) ^ hash_str(key);
            if self.distinct.insert(h) && self.distinct.len() % 4001 == 7 && self.samples.len() < 6 {
                self.samples.push(format!("{case}: {}", clip(key, 300)));
            }
        }
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 12 {
            self.samples.push(clip(&s, 400));
        }
    }
    pub fn bin(&mut self, name: &str) {
        self.bin_n(name, 1);
    }
    pub fn bin_n(&mut self, name: &str, n: u64) {
        if let Some(c) = self.bins.get_mut(name) {
            *c += n;
        } else {
            self.bins.insert(name.to_string(), n);
        }
    }
    pub fn violation(&mut self, case: &str, kind: &str, detail: String) {
        self.viol_count += 1;
        let same = self.viols.iter().filter(|v| v.0 == case).count();
        if self.viols.len() < 60 && same < 2 {
            self.viols.push((case.to_string(), kind.to_string(), clip(&detail, 4000)));
        }
    }
    /// Asserts a boolean oracle.
    pub fn check(&mut self, case: &str, key: &str, ok: bool, detail: impl FnOnce() -> String) {
        self.eval(case, key, true);
        if !ok {
            self.violation(case, "check", detail());
        }
    }
    /// A case that never ends: reports it and ends the process.
    pub fn stuck(&mut self, case: &str, detail: String) {
        self.violation(case, "does not finish", detail);
        self.write();
        std::process::exit(0);
    }
    pub fn finish(mut self) {
        self.begin("");
        self.write();
    }
    fn write(&self) {
        let mut o = String::from("{");
        let _ = write!(
            o,
            "\"evaluations\":{},\"distinct\":{},\"violations\":{},\"wall_ms\":{}",
            self.evals,
            self.distinct.len(),
            self.viol_count,
            self.start.elapsed().as_millis()
        );
        o.push_str(",\"bins\":{");
        for (i, (k, v)) in self.bins.iter().enumerate() {
            let _ = write!(o, "{}{}:{v}", if i > 0 { "," } else { "" }, js(k));
        }
        o.push_str("},\"samples\":[");
        for (i, s) in self.samples.iter().enumerate() {
            let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, js(s));
        }
        o.push_str("],\"found\":[");
        for (i, (c, k, d)) in self.viols.iter().enumerate() {
            let _ = write!(
                o,
                "{}{{\"case\":{},\"kind\":{},\"detail\":{}}}",
                if i > 0 { "," } else { "" },
                js(c),
                js(k),
                js(d)
            );
        }
        o.push_str("]}");
        match &self.out {
            Some(p) => std::fs::write(p, o).unwrap(),
            None => println!("{o}"),
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...({} bytes)", &s[..e], s.len())
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
