//! Threads racing on the first use of several types, and a checker over the recorded history.
use crate::{Bad, Case, Got, Mon, Rng, inputs, message};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, mpsc};
use std::thread;
use std::time::{Duration, Instant};

static SEQ: AtomicU64 = AtomicU64::new(0);

/// One finished operation of a history.
pub struct Ev {
    pub thread: usize,
    pub case: usize,
    pub input: usize,
    pub start: u64,
    pub end: u64,
    pub got: Got,
}

/// Runs the operations of every thread at once; None when some thread did not finish.
pub fn storm(
    ops: Vec<Vec<(usize, usize)>>,
    seed: u64,
    run: Arc<dyn Fn(usize, usize) -> Got + Send + Sync>,
) -> Result<Vec<Ev>, String> {
    let n = ops.len();
    let gate = Arc::new(AtomicUsize::new(0));
    let (tx, rx) = mpsc::channel();
    for (t, ops) in ops.into_iter().enumerate() {
        let (gate, run, tx) = (gate.clone(), run.clone(), tx.clone());
        thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                let mut r = Rng::new(seed ^ (t as u64) << 32);
                let mut out = Vec::with_capacity(ops.len());
                gate.fetch_add(1, Ordering::SeqCst);
                while gate.load(Ordering::SeqCst) < n {
                    thread::yield_now();
                }
                for _ in 0..r.below(300) {
                    std::hint::spin_loop();
                }
                for (i, (case, input)) in ops.into_iter().enumerate() {
                    let start = SEQ.fetch_add(1, Ordering::SeqCst);
                    let got = run(case, input);
                    let end = SEQ.fetch_add(1, Ordering::SeqCst);
                    out.push(Ev { thread: t, case, input, start, end, got });
                    if i % 7 == t % 7 {
                        thread::yield_now();
                    }
                }
                let _ = tx.send(out);
            })
            .expect("harness: spawn");
    }
    drop(tx);
    let until = Instant::now() + Duration::from_secs(if cfg!(miri) { 3000 } else { 60 });
    let mut all = Vec::new();
    for k in 0..n {
        match rx.recv_timeout(until.saturating_duration_since(Instant::now())) {
            Ok(v) => all.extend(v),
            Err(_) => return Err(format!("{} of {n} threads did not finish parsing within 60 s", n - k)),
        }
    }
    all.sort_by_key(|e| e.start);
    Ok(all)
}

/// What was observed of the races: how many first uses of a type overlapped another use of it.
pub fn observe(m: &mut Mon, id: &str, evs: &[Ev], cases: usize) {
    m.bin_n("operations in histories", evs.len() as u64);
    let mut order = String::new();
    for c in 0..cases {
        let mut first: Option<&Ev> = None;
        let mut racing = 0;
        for e in evs.iter().filter(|e| e.case == c) {
            match first {
                None => {
                    order += &format!("{c}:{}", e.thread);
                    first = Some(e);
                }
                Some(f) if e.start < f.end => {
                    racing += 1;
                    order += &format!("+{}", e.thread);
                }
                _ => {}
            }
        }
        if first.is_some() {
            m.bin(match racing {
                0 => "first uses alone",
                1 | 2 => "first uses raced by 1-2 threads",
                _ => "first uses raced by 3+ threads",
            });
        }
        order.push(';');
    }
    let overlaps = evs.windows(2).filter(|w| w[1].start < w[0].end).count();
    m.bin_n("overlapping neighbours in histories", overlaps as u64);
    m.eval(id, &format!("interleaving {order}"), true);
}

pub fn plan(r: &mut Rng, threads: usize, each: usize, sizes: &[usize]) -> Vec<Vec<(usize, usize)>> {
    // most threads begin with the same type
    let mut hot: Vec<usize> = (0..sizes.len()).collect();
    for i in (1..hot.len()).rev() {
        hot.swap(i, r.below(i + 1));
    }
    (0..threads)
        .map(|_| {
            let mut ops = Vec::new();
            for &h in &hot {
                let c = if r.chance(3, 4) { h } else { r.below(sizes.len()) };
                ops.push((c, r.below(sizes[c])));
            }
            while ops.len() < each {
                let c = r.below(sizes.len());
                // repeats of one string are part of the history
                let s = if r.chance(1, 4) { 0 } else { r.below(sizes[c]) };
                ops.push((c, s));
            }
            ops
        })
        .collect()
}

/// Races on the first use of the cases, against the model; then sequential histories.
pub fn race(m: &mut Mon, id: &'static str, cases: &'static [&'static Case], threads: usize, each: usize) {
    let mut r = Rng::for_case(m.seed, id);
    let mut strings: Vec<Vec<String>> = Vec::new();
    let mut want: Vec<Vec<Result<String, Bad>>> = Vec::new();
    for c in cases {
        let mut texts = Vec::new();
        if let Some(show) = c.show {
            for _ in 0..4 {
                texts.push(show(&mut r).want);
            }
        }
        let mut s = inputs(c.res, &texts, c.extra, &mut r, 14);
        s.truncate(24);
        let model = c.model.unwrap();
        want.push(s.iter().map(|x| model(x)).collect());
        strings.push(s);
    }
    let sizes: Vec<usize> = strings.iter().map(|s| s.len()).collect();
    let ops = plan(&mut r, threads, each, &sizes);
    let strings = Arc::new(strings);
    let run: Arc<dyn Fn(usize, usize) -> Got + Send + Sync> = {
        let strings = strings.clone();
        Arc::new(move |c, i| cases[c].parse.unwrap()(&strings[c][i]))
    };
    let evs = match storm(ops, r.next(), run.clone()) {
        Ok(e) => e,
        Err(e) => return m.stuck(id, e),
    };
    observe(m, id, &evs, cases.len());
    let mut seen: HashMap<(usize, usize), Got> = HashMap::new();
    let mut one = |m: &mut Mon, how: &str, c: usize, i: usize, got: Got| {
        let w = &want[c][i];
        m.eval(cases[c].id, &strings[c][i], true);
        let ok = match (&got, w) {
            (Ok(Ok(a)), Ok(b)) => a == b,
            (Ok(Err(e)), Err(b)) => !m.check_messages || message(b, cases[c].is_enum).contains(e),
            _ => false,
        };
        if !ok {
            m.violation(id, "parse result", format!("{how}: type {} input {:?}\n  from_str: {got:?}\n  declared: {w:?}", cases[c].id, strings[c][i]));
        }
        m.bin(if w.is_ok() { "parsed" } else { "rejected" });
        let first = seen.entry((c, i)).or_insert_with(|| got.clone());
        if *first != got {
            m.violation(id, "history", format!("{how}: type {} input {:?}\n  gave {first:?} before\n  now {got:?}", cases[c].id, strings[c][i]));
        }
    };
    for e in evs {
        let how = format!("thread {} operation {}..{}", e.thread, e.start, e.end);
        one(m, &how, e.case, e.input, e.got);
    }
    // a sequential history on this thread, which took no part in the first use
    for _ in 0..each {
        let c = r.below(cases.len());
        let i = r.below(sizes[c]);
        one(m, "later, sequential", c, i, run(c, i));
    }
    m.bin_n("later operations", each as u64);
}
