//! Repeats the same work and watches what memory and pattern building it costs.
use crate::{Case, Mon, Rng, allocs, drive, inputs, live};

/// Rounds before the measurement, and measured ones.
const WARM: usize = 2;
const ROUNDS: usize = 3;

/// Runs the case as `drive` does, then the same work again and again.
pub fn steady(m: &mut Mon, c: &Case) {
    if !m.wants(c.id) {
        return;
    }
    m.may_allocate = true;
    drive(m, c);
    m.may_allocate = false;
    let id = c.id;
    if let Some(show) = c.show {
        let n = c.values * m.scale;
        let seed = m.seed;
        let deltas = rounds(|| {
            let mut r = Rng::for_case(seed, id);
            for _ in 0..n {
                drop(show(&mut r));
            }
        });
        m.bin_n("values formatted again", (n * (WARM + ROUNDS)) as u64);
        if let Some(d) = least(&deltas) {
            m.violation(id, "memory kept by Display", format!("{d} bytes more after every round of the same {n} values: {deltas:?}"));
        }
    }
    let (Some(parse), Some(model)) = (c.parse, c.model) else { return };
    let mut r = Rng::for_case(m.seed ^ 0x51ead, id);
    let mut texts = Vec::new();
    if let Some(show) = c.show {
        for _ in 0..12 {
            texts.push(show(&mut r).want);
        }
    }
    let all = inputs(c.res, &texts, c.extra, &mut r, (c.strings / 2).max(8) * m.scale);
    let deltas = rounds(|| {
        for s in &all {
            drop(parse(s));
        }
    });
    m.bin_n("strings parsed again", (all.len() * (WARM + ROUNDS)) as u64);
    if let Some(d) = least(&deltas) {
        m.violation(id, "memory kept by FromStr", format!("{d} bytes more after every round of the same {} strings: {deltas:?}", all.len()));
    }
    // a long string that was never seen before in every round
    let long = 20_000;
    let base: Vec<char> = all[r.below(all.len())].chars().collect();
    let at = r.below(base.len() + 1);
    let mut round = 0;
    let deltas = rounds(|| {
        let mut s: String = base[..at].iter().collect();
        for i in 0..long {
            s.push(if i == 100 + round { '1' } else { '0' });
        }
        s.extend(&base[at..]);
        round += 1;
        drop(parse(&s));
    });
    m.bin_n("new long strings parsed", deltas.len() as u64);
    if let Some(d) = least(&deltas).filter(|d| *d >= long as i64 / 2) {
        m.violation(id, "memory kept by FromStr", format!("{d} bytes more after every new string of {long} bytes: {deltas:?}"));
    }
    // everything is built by now, here and in the model, which matches with a regex of its own
    for s in &all {
        drop(model(s));
        let a = allocs();
        drop(model(s));
        let b = allocs();
        drop(parse(s));
        let (want, got) = (b - a, allocs() - b);
        m.bin("repeated parses weighed");
        m.eval(id, s, true);
        m.bins.entry("allocations of derived code".into()).and_modify(|x| *x += got).or_insert(got);
        m.bins.entry("allocations of the model".into()).and_modify(|x| *x += want).or_insert(want);
        if got > 4 * want + 32 {
            m.violation(id, "cost of a repeated parse", format!("input {s:?}\n  {got} allocations, {want} of the same match with a regex built before"));
        }
    }
    if let Some(regex) = c.regex {
        let deltas = rounds(|| drop(regex()));
        m.bin("patterns published again");
        if let Some(d) = least(&deltas) {
            m.violation(id, "memory kept by from_str_regex", format!("{d} bytes more after every call: {deltas:?}"));
        }
    }
}

fn rounds(mut f: impl FnMut()) -> Vec<i64> {
    let mut out = Vec::with_capacity(ROUNDS);
    for i in 0..WARM + ROUNDS {
        let a = live();
        f();
        if i >= WARM {
            out.push(live() - a);
        }
    }
    out
}
/// What every round keeps at least (None: nothing).
fn least(d: &[i64]) -> Option<i64> {
    d.iter().copied().min().filter(|x| *x > 0)
}

/// How often things that should happen once have happened.
pub static ONCE: [std::sync::atomic::AtomicU32; 8192] = [const { std::sync::atomic::AtomicU32::new(0) }; 8192];
/// One more; takes a while, so that others can get in between.
pub fn once(i: usize) {
    ONCE[i].fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    for _ in 0..40 {
        std::thread::yield_now();
    }
}
pub fn onces(i: usize) -> u32 {
    ONCE[i].load(std::sync::atomic::Ordering::SeqCst)
}
