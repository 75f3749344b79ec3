//! Watches how the cost of a use grows with the length of the text.
use crate::{Case, Mon, Rng, bytes, inputs};
use std::time::Duration;

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
unsafe extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// Processor time of this thread: other threads and processes do not count.
pub fn thread_time() -> Duration {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    let r = unsafe { clock_gettime(3, &mut t) };
    assert_eq!(r, 0, "harness: no thread clock");
    Duration::new(t.sec as u64, t.nsec as u32)
}

#[derive(Debug, Clone, Copy)]
pub struct Cost {
    pub time: Duration,
    pub bytes: u64,
}
/// The least of `n` uses.
pub fn cost(n: usize, mut f: impl FnMut()) -> Cost {
    let mut best = Cost { time: Duration::MAX, bytes: u64::MAX };
    for i in 0..n {
        if i > 0 && best.time > MS * 2000 {
            break;
        }
        let (t, b) = (thread_time(), bytes());
        f();
        best.time = best.time.min(thread_time() - t);
        best.bytes = best.bytes.min(bytes() - b);
    }
    best
}

pub const STEP: usize = 8;
const MS: Duration = Duration::from_millis(1);

/// `large` costs more than a use of a text `STEP` times the size of that of `small` may, next to what the model takes for it.
pub fn steep(small: Cost, large: Cost, model: Cost) -> Option<String> {
    let time = large.time > small.time.max(MS / 5) * 3 * STEP as u32 && large.time > model.time * 40 + MS * 60;
    let mem = large.bytes > small.bytes.max(4096) * 3 * STEP as u64 && large.bytes > model.bytes * 40 + 4_000_000;
    let what = match (time, mem) {
        (true, _) => "time",
        (_, true) => "memory taken",
        _ => return None,
    };
    Some(format!("{what}: {small:?} for a text, {large:?} for one {STEP} times as long; {model:?} for the same by hand"))
}

/// Grows texts and watches the cost of parsing them.
pub fn weigh(m: &mut Mon, c: &Case, size: usize) {
    if !m.wants(c.id) {
        return;
    }
    m.bin("cases");
    let (Some(parse), Some(model)) = (c.parse, c.model) else { return };
    let mut r = Rng::for_case(m.seed, c.id);
    let mut texts = Vec::new();
    if let Some(show) = c.show {
        for _ in 0..8 {
            texts.push(show(&mut r).want);
        }
    }
    let all = inputs(c.res, &texts, c.extra, &mut r, c.strings.max(16));
    for s in all.iter().take(3) {
        // builds the pattern
        drop(parse(s));
        drop(model(s));
    }
    for _ in 0..c.values * m.scale {
        // prefer what still parses when it has grown: a long match takes longest
        let (mut head, mut piece, mut tail) = Default::default();
        let any = r.below(3) == 0;
        for _ in 0..if any { 1 } else { 12 } {
            let cs: Vec<char> = all[r.below(all.len())].chars().collect();
            let at = r.below(cs.len() + 1);
            let n = (r.below(4) + 1).min(cs.len() - at);
            piece = if n == 0 || r.below(4) == 0 { ["0", "a", " ", "{", "é"][r.below(5)].to_string() } else { cs[at..at + n].iter().collect::<String>() };
            head = cs[..at].iter().collect::<String>();
            tail = cs[at..].iter().collect::<String>();
            if model(&format!("{head}{}{tail}", piece.repeat(40))).is_ok() {
                break;
            }
        }
        let grown = |size: usize| format!("{head}{}{tail}", piece.repeat(size / piece.len()));
        let (s, l) = (grown(size), grown(size * STEP));
        let small = cost(3, || drop(parse(&s)));
        let mut large = cost(1, || drop(parse(&l)));
        let mut by_model = cost(1, || drop(model(&l)));
        if steep(small, large, by_model).is_some() && large.time < MS * 2000 {
            large = cost(2, || drop(parse(&l)));
            by_model = cost(2, || drop(model(&l)));
        }
        let ok = matches!(model(&l), Ok(_));
        m.bin(if ok { "long texts parsed" } else { "long texts rejected" });
        m.bin_n("microseconds of derived code", large.time.as_micros() as u64);
        m.bin_n("microseconds of the model", by_model.time.as_micros() as u64);
        let name = format!("{head:?} + {piece:?}... + {tail:?}");
        let e = steep(small, large, by_model);
        m.check(c.id, &name, e.is_none(), || format!("texts {name} of {} and {} bytes\n  {}", s.len(), l.len(), e.clone().unwrap()));
        if e.is_some() {
            // one is enough: the others may take as long
            break;
        }
    }
}

/// The same for other uses: `f(n)` makes what is weighed of size `n`, which `by_hand` does as well.
pub fn weigh_use<T>(m: &mut Mon, id: &'static str, what: &str, size: usize, make: impl Fn(usize) -> T, f: impl Fn(&T), by_hand: impl Fn(&T)) {
    let (s, l) = (make(size), make(size * STEP));
    f(&s);
    by_hand(&s);
    let small = cost(3, || f(&s));
    let mut large = cost(1, || f(&l));
    let mut hand = cost(1, || by_hand(&l));
    if steep(small, large, hand).is_some() && large.time < MS * 2000 {
        large = cost(2, || f(&l));
        hand = cost(2, || by_hand(&l));
    }
    m.bin("other uses");
    m.bin_n("microseconds of derived code", large.time.as_micros() as u64);
    m.bin_n("microseconds of the model", hand.time.as_micros() as u64);
    let e = steep(small, large, hand);
    m.check(id, what, e.is_none(), || format!("{what}\n  {}", e.clone().unwrap()));
}
