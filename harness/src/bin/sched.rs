//! C22: cooling schedules and acceptance.
use hx::common::*;
use hybridcvrp::solver::improvement::{Acceptance, AcceptanceCriterion, IterationSchedule, TemperatureAcceptance, TimeSchedule};
use hybridcvrp::utils::Random;
use std::time::Duration;

const MICRO: f64 = 1e6;

/// temperature in millionths of the start temperature
fn rel(t: f64, start: f64) -> i64 {
    if start == 0.0 {
        sc(t, MICRO)
    } else {
        sc((t / start * MICRO).round(), 1.0)
    }
}

fn iter_state(s: &IterationSchedule, start: f64) -> Value {
    json!([rel(s.temp(), start), s.completed(), format!("{:e}", s.temp())])
}

/// An iteration schedule, also as the criterion that ruin and recreate keeps
enum Iter {
    Bare(IterationSchedule),
    Wrapped(AcceptanceCriterion),
}

impl Iter {
    fn state(&self, start: f64) -> Value {
        match self {
            Iter::Bare(s) => iter_state(s, start),
            Iter::Wrapped(c) => match c {
                AcceptanceCriterion::Iteration(s) => json!([rel(s.temp(), start), c.completed(), format!("{:e}", s.temp())]),
                _ => panic!("another kind of schedule"),
            },
        }
    }
    fn update(&mut self) {
        match self {
            Iter::Bare(s) => s.update(),
            Iter::Wrapped(c) => c.update(),
        }
    }
    fn reset(&mut self) {
        match self {
            Iter::Bare(s) => s.reset(),
            Iter::Wrapped(c) => c.reset(),
        }
    }
}

enum Time {
    Bare(TimeSchedule),
    Wrapped(AcceptanceCriterion),
}

impl Time {
    fn state(&self, start: f64) -> Value {
        let (t, done) = match self {
            Time::Bare(s) => (s.temp(), s.completed()),
            Time::Wrapped(c) => match c {
                AcceptanceCriterion::Time(s) => (s.temp(), c.completed()),
                _ => panic!("another kind of schedule"),
            },
        };
        json!([rel(t.max(-1.0), start), done, t == start])
    }
    fn update(&mut self) {
        match self {
            Time::Bare(s) => s.update(),
            Time::Wrapped(c) => c.update(),
        }
    }
    fn reset(&mut self) {
        match self {
            Time::Bare(s) => s.reset(),
            Time::Wrapped(c) => c.reset(),
        }
    }
}

fn iteration(out: &mut Out, rng: &mut fastrand::Rng, start: f64, n: usize, ops: &[usize]) {
    // each op: number of updates, then a reset
    let s = IterationSchedule::new(start, n);
    let mut s = if rng.bool() { Iter::Bare(s) } else { Iter::Wrapped(s.into()) };
    let mut log = vec![s.state(start)];
    let mut what = Vec::new();
    for &o in ops {
        if o == 0 {
            s.reset();
            what.push("reset");
        } else {
            s.update();
            what.push("update");
        }
        log.push(s.state(start));
    }
    out.line(json!({"k": "iter", "n": n, "zero": start == 0.0, "ops": what, "st": log}));
}

/// share of accepted candidates that are `delta` more expensive, in thousandths
fn share(a: &dyn Fn(f64, f64, &Random) -> bool, old: f64, delta: f64, rng: &Random, n: usize) -> i64 {
    let k = (0..n).filter(|_| a(old + delta, old, rng)).count();
    (k * 1000 / n) as i64
}

fn main() {
    let o = &Opt::from_args();
    let mut out = Out::new(&o.out);
    let mut rng = o.rng(22);
    if let Some(path) = o.arg("replay") {
        let text = std::fs::read_to_string(path).expect("behaviours");
        out.line(json!({"k": "inst"}));
        for (i, line) in text.lines().enumerate() {
            let v: Value = serde_json::from_str(line).expect("behaviour");
            let n = v["n"].as_u64().unwrap() as usize;
            let ops: Vec<usize> = v["ops"].as_array().unwrap().iter().map(|x| if x == "reset" { 0 } else { 1 }).collect();
            if o.mine(i) {
                iteration(&mut out, &mut rng, 100.0, n, &ops);
            }
        }
        out.flush();
        return;
    }
    for i in 0..o.scale(64, 640) {
        if !o.mine(i) {
            continue;
        }
        out.line(json!({"k": "inst"}));
        for _ in 0..6 {
            let start = pick(&mut rng, &[0.0, 1.0, 10.0, 100.0, 0.37, 12345.0]);
            let n = pick(&mut rng, &[1, 2, 3, 7, 10, 20, 60, 100]);
            let len = rng.usize(1..=(3 * n).min(150));
            let rate = pick(&mut rng, &[5, 20, 1000]);
            let ops: Vec<usize> = (0..len).map(|_| if rng.usize(0..rate) == 0 { 0 } else { 1 }).collect();
            iteration(&mut out, &mut rng, start, n, &ops);
        }
        // acceptance
        let start = pick(&mut rng, &[1.0, 10.0, 50.0]);
        let random = Random::from_seed(rng.u64(1..1_000_000));
        let n = 20;
        let at = rng.usize(0..n);
        let mut it = IterationSchedule::new(start, n);
        let mut ti = TimeSchedule::new(start, Duration::from_secs(1_000_000));
        for _ in 0..at {
            it.update();
            ti.update();
        }
        let t_it = it.temp();
        let t_ti = ti.temp();
        let (ci, ct): (AcceptanceCriterion, AcceptanceCriterion) = (it.into(), ti.into());
        for (kind, c, t) in [("iteration", &ci, t_it), ("time", &ct, t_ti)] {
            let acc = |a: f64, b: f64, r: &Random| c.accept(a, b, r);
            let cost = pick(&mut rng, &[100.0, 27591.0, 3.0]);
            let better = (0..400).filter(|_| c.accept(cost - pick(&mut rng, &[0.25, 1.0, 1e-3, 40.0]), cost, &random)).count();
            out.line(json!({"k": "acc", "of": kind, "t": rel(t, start), "better": better, "of_better": 400,
                "half": share(&acc, cost, 0.5 * t, &random, 3000),
                "one": share(&acc, cost, t, &random, 3000),
                "three": share(&acc, cost, 3.0 * t, &random, 3000)}));
        }
        // temperature zero
        let zero = IterationSchedule::new(0.0, 10);
        let acc = |a: f64, b: f64, r: &Random| <IterationSchedule as Acceptance>::accept(&zero, a, b, r);
        out.line(json!({"k": "zero", "equal": share(&acc, 50.0, 0.0, &random, 200),
            "worse": share(&acc, 50.0, 0.25, &random, 200), "better": share(&acc, 50.0, -0.25, &random, 200)}));
        // time
        for _ in 0..2 {
            let start = pick(&mut rng, &[1.0, 100.0]);
            let rate = pick(&mut rng, &[1usize, 2, 5, 100]);
            let dur = pick(&mut rng, &["none", "long"]);
            let d = if dur == "none" { Duration::from_nanos(1) } else { Duration::from_secs(3_000_000) };
            let mut s = TimeSchedule::new(start, d);
            if rate != 100 {
                s.set_update_rate(rate);
            }
            let mut s = if rng.bool() { Time::Bare(s) } else { Time::Wrapped(s.into()) };
            let mut log = vec![s.state(start)];
            let mut what = Vec::new();
            let pause = || std::thread::sleep(Duration::from_micros(5));
            pause();
            let len = rng.usize(1..=(3 * rate + 3));
            let resets = pick(&mut rng, &[4, 1000]);
            for _ in 0..len {
                if rng.usize(0..resets) == 0 {
                    s.reset();
                    pause();
                    what.push("reset");
                } else {
                    s.update();
                    what.push("update");
                }
                log.push(s.state(start));
            }
            out.line(json!({"k": "time", "dur": dur, "rate": rate, "ops": what, "st": log}));
        }
        // a duration that passes while it runs
        if i % 4 == 0 {
            // the schedule starts between these two
            let ta = std::time::Instant::now();
            let mut s = TimeSchedule::new(100.0, Duration::from_millis(30));
            let tb = std::time::Instant::now();
            s.set_update_rate(1);
            let mut log = Vec::new();
            for _ in 0..12 {
                let before = tb.elapsed().as_micros() as i64;
                s.update();
                let after = ta.elapsed().as_micros() as i64;
                log.push(json!([before, after, rel(s.temp().max(-100.0), 100.0), s.completed()]));
                std::thread::sleep(Duration::from_millis(4));
            }
            out.line(json!({"k": "run", "dur": 30000, "log": log}));
        }
    }
    out.flush();
}
