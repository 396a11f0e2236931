//! C16: each case runs twice in this process and once in another one.
use hx::common::*;
use hx::text::*;
use hybridcvrp::config::Config;
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, GeneticAlgorithm, Individual};
use hybridcvrp::solver::improvement::{IterationSchedule, RuinRecreate};
use hybridcvrp::solver::{Context, Metaheuristic};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

struct Hash(u64);

impl Hash {
    fn new() -> Self {
        Hash(0xcbf29ce484222325)
    }
    fn u(&mut self, x: u64) {
        for b in x.to_le_bytes().iter() {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn f(&mut self, x: f64) {
        self.u(x.to_bits());
    }
    fn s(&mut self, x: &str) {
        for b in x.bytes() {
            self.u(b as u64);
        }
        self.u(1000);
    }
    fn routes(&mut self, r: &[Vec<usize>]) {
        for x in r {
            for c in x {
                self.u(*c as u64);
            }
            self.u(1 << 40);
        }
    }
    fn ind(&mut self, i: &Individual) {
        self.u(i.number);
        self.routes(&i.phenotype);
        for c in i.genotype.iter() {
            self.u(*c as u64);
        }
        self.f(i.penalized_cost());
        self.u(i.is_feasible() as u64);
    }
    fn hex(&self) -> String {
        format!("{:016x}", self.0)
    }
}

/// recorded solutions, events, the rest of the context
fn ctx_state(ctx: &Context) -> Vec<String> {
    let h = ctx.search_history.borrow();
    let mut a = Hash::new();
    for e in h.entries() {
        a.f(e.solution.cost);
    }
    if let Some(e) = h.last_entry() {
        a.routes(&e.solution.routes);
    }
    let mut b = Hash::new();
    for m in h.messages.iter() {
        b.s(&m.message);
    }
    let mut c = Hash::new();
    c.f(h.best_cost);
    c.f(ctx.config.borrow().penalty_capacity);
    c.u(*ctx.iteration.borrow());
    vec![a.hex(), b.hex(), c.hex()]
}

fn ga_state(ga: &GeneticAlgorithm) -> Vec<String> {
    let mut a = Hash::new();
    for i in ga.population.feasible.population.iter() {
        a.ind(i);
    }
    let mut b = Hash::new();
    for i in ga.population.infeasible.population.iter() {
        b.ind(i);
    }
    let mut c = Hash::new();
    c.ind(&ga.child);
    if let Some(x) = ga.best_solution.as_ref() {
        c.ind(x);
    }
    c.u(ga.iterations);
    vec![a.hex(), b.hex(), c.hex()]
}

struct Case {
    inst: Inst,
    cfg: Config,
    what: &'static str,
    extra: u64,
}

fn case(o: &Opt, i: usize) -> Case {
    let mut rng = o.rng(1_000_000 + i as u64);
    let what = ["ga", "varied", "elite", "rr", "restart", "decomposed", "varied", "plain"][(i / o.parts as usize) % 8];
    let n = match what {
        "decomposed" => rng.usize(4..=14),
        "rr" => rng.usize(2..=120),
        _ => rng.usize(1..=60),
    };
    let geo = pick(&mut rng, &[Geo::Arbitrary, Geo::Metric, Geo::Degenerate, Geo::Clustered, Geo::Euclid]);
    let inst = random_inst(&mut rng, n, geo, 1.0, 1.0);
    let seed = match rng.usize(0..6) {
        0 => rng.u64(0..=2),
        1 => rng.u64(1 << 32..1 << 63),
        _ => rng.u64(0..1 << 40),
    };
    let mut cfg = base_config(seed);
    cfg.round_distances = rng.bool();
    cfg.initial_individuals = rng.u64(1..=12);
    cfg.min_population_size = rng.u64(1..=6);
    cfg.population_lambda = rng.u64(1..=8);
    cfg.num_elites = rng.u64(0..=2);
    cfg.num_diversity_closest = rng.u64(1..=4);
    cfg.penalty_update_interval = rng.u64(1..=10);
    cfg.rr_mutation = what != "plain";
    cfg.ls_enabled = rng.usize(0..4) != 0;
    cfg.linear_split = rng.usize(0..4) != 0;
    cfg.rr_gamma = 0.5;
    cfg.rr_probability = pick(&mut rng, &[0.5, 1.0]);
    cfg.max_iterations = Some(rng.u64(5..=40));
    cfg.average_ruin_cardinality = rng.usize(1..=10);
    cfg.precompute_distance_size_limit = if rng.bool() { 2000 } else { 0 };
    match what {
        "elite" => {
            cfg.elite_education = true;
            cfg.elite_education_gamma = 30.0;
        }
        "restart" => cfg.max_iterations_without_improvement = rng.u64(0..=6),
        "decomposed" => {
            cfg.max_iterations = Some(rng.u64(1..=2));
            cfg.decomposed_problem_min_size = rng.u64(2..=8);
        }
        "varied" => {
            cfg.max_iterations = Some(rng.u64(1..=25));
            cfg.swap_star = rng.bool();
            cfg.tournament_size = rng.u64(1..=5);
            cfg.repair_probability = pick(&mut rng, &[0.0, 0.5, 1.0]);
            cfg.feasibility_proportion_target = rng.u64(10..=90) as f64 / 100.0;
            cfg.local_search_granularity = rng.u64(5..=30);
            cfg.dynamic_granularity = rng.bool();
            cfg.granularity_min = rng.u64(1..=5);
            cfg.elite_education = rng.usize(0..4) == 0;
            cfg.elite_education_problem_size_limit = rng.usize(0..n + 2);
            cfg.elite_education_gamma = 5.0;
            cfg.elite_education_start_temp = pick(&mut rng, &[0.0, 10.0]);
            cfg.rr_start_temp = pick(&mut rng, &[0.0, 10.0]);
            cfg.rr_final_temp = pick(&mut rng, &[0.5, 1.0]);
            cfg.max_ruin_string_length = rng.usize(1..=20);
            cfg.max_iterations_without_improvement = pick(&mut rng, &[3, 10_000]);
            cfg.num_elites = rng.u64(0..=4);
        }
        _ => {}
    }
    Case { inst, cfg, what, extra: rng.u64(0..1 << 30) }
}

/// A time so many seconds before now, if there is one
fn before(seconds: u64) -> Instant {
    let now = Instant::now();
    [seconds, 3600, 600, 60, 10].iter().find_map(|&s| now.checked_sub(Duration::from_secs(s))).unwrap_or(now)
}

/// The states a run goes through that has begun at the given time
fn run(c: &Case, begun: Instant) -> Vec<Vec<String>> {
    let ctx = context_at(&c.inst, c.cfg.clone(), None, None, begun);
    let mut v = vec![ctx_state(ctx)];
    match c.what {
        "rr" => {
            let mut rng = fastrand::Rng::with_seed(c.extra);
            let fleet = ctx.config.borrow().num_vehicles as usize;
            let r = packed_routes(&mut rng, &c.inst, fleet);
            let mut ind = individual(&r, 0);
            ind.evaluate(ctx);
            let mut rr = RuinRecreate::new(ctx);
            for _ in 0..3 {
                rr.set_acceptance(IterationSchedule::new(10.0, 1500).into());
                rr.load(ctx, &mut ind);
                while !rr.complete() {
                    rr.search();
                    let mut s = ctx_state(ctx);
                    let mut h = Hash::new();
                    for x in rr.solution.routes.iter() {
                        h.routes(&[x.nodes.clone()]);
                    }
                    h.f(rr.solution.cost);
                    s.push(h.hex());
                    v.push(s);
                }
                rr.get_best_solution(&mut ind);
                let mut h = Hash::new();
                h.ind(&ind);
                v.push(vec![h.hex()]);
            }
        }
        "decomposed" => {
            let mut m = DecomposedGeneticAlgorithm::new(ctx);
            while !m.terminated() {
                m.iterate(ctx);
                v.push(ctx_state(ctx));
            }
        }
        _ => {
            let mut m = GeneticAlgorithm::new(ctx);
            while !m.terminated() {
                m.iterate(ctx);
                let mut s = ctx_state(ctx);
                s.extend(ga_state(&m));
                v.push(s);
            }
        }
    }
    v
}

/// The whole run as one observation
fn fold(v: &[Vec<String>]) -> Vec<Vec<String>> {
    let mut h = Hash::new();
    for x in v.iter().flatten() {
        h.s(x);
    }
    vec![vec![h.hex()]]
}

fn main() {
    let o = &Opt::from_args();
    let child = o.arg("child").is_some();
    // very many runs, of which only those that differ are written down
    let screen = o.arg("screen").is_some();
    let mut out = Out::new(&o.out);
    let mut others: Vec<Value> = Vec::new();
    let cases: Vec<usize> = (if screen { 10_000 } else { 0 }..if screen { 10_000 + o.scale(1600, 24_000) } else { o.scale(160, 1600) }).filter(|&i| o.mine(i)).collect();
    if !child {
        let res = format!("{}.child", o.out);
        let tier = if o.thorough { "thorough" } else { "quick" };
        let p = Command::new(std::env::current_exe().unwrap())
            .env("TZ", "Asia/Kathmandu")
            .env("LANG", "tr_TR.UTF-8")
            .env("ELSEWHERE", "x".repeat(5000))
            .args(&[&res, &o.seed.to_string(), tier, &format!("{}/{}", o.part, o.parts), "child=1"])
            .arg(o.arg("screen").map_or("seen=1", |_| "screen=1"))
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::piped())
            .output()
            .expect("child");
        if !p.status.success() {
            eprintln!("{}", String::from_utf8_lossy(&p.stderr));
            std::process::exit(101);
        }
        others = std::fs::read_to_string(&res).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
        std::fs::remove_file(&res).unwrap();
    }
    for (j, &i) in cases.iter().enumerate() {
        let c = case(o, i);
        if child {
            // the cases the other way round must not matter either
            let v = run(&case(o, cases[cases.len() - 1 - j]), Instant::now());
            out.line(if screen { json!(fold(&v)) } else { json!(v) });
            continue;
        }
        // how long a run has been going on must not matter before its time is over
        let mut a = run(&c, Instant::now() + Duration::from_secs(3600));
        let mut b = run(&c, before([86_400, 3600, 600, 60][j % 4]));
        let other = &others[cases.len() - 1 - j];
        if screen {
            if a == b && *other == json!(fold(&a)) {
                continue;
            }
            if a == b {
                a = fold(&a);
                b = a.clone();
            }
            let c2 = if a == b { other.clone() } else { json!(a) };
            eprintln!("suspicious: {}", c.what);
            out.line(json!({"k": "rep", "case": i, "what": c.what, "n": c.inst.n(), "a": a, "b": b, "c": c2}));
            continue;
        }
        out.line(json!({"k": "rep", "case": i, "what": c.what, "n": c.inst.n(), "a": a, "b": b, "c": other}));
    }
    if screen && !child {
        out.line(json!({"k": "screened", "steps": cases.len()}));
    }
    if !child {
        if let Some(real) = o.arg("real") {
            programs(o, &real, &mut out);
        }
    }
    out.flush();
}

/// The complete program, twice
fn programs(o: &Opt, real: &str, out: &mut Out) {
    for i in 0..o.scale(16, 160) {
        if !o.mine(i) {
            continue;
        }
        let mut c = case(o, i + 500_000);
        c.cfg.decompose_limit = if i / o.parts as usize % 4 == 1 { 0 } else { 100_000 };
        if c.cfg.decompose_limit == 0 {
            c.cfg.max_iterations = Some(1);
        }
        let mut res = Vec::new();
        for _ in 0..3 {
            let dir = Scratch::new(o, "prog");
            std::fs::write(dir.file("x.vrp"), vrp(&c.inst)).unwrap();
            std::fs::write(dir.file("config.yml"), yaml(&c.cfg)).unwrap();
            let p = Command::new(real)
                .args(&["x.vrp", "-o", "x.sol", "-t", "1000"])
                .current_dir(&dir.0)
                .stdin(Stdio::null())
                .output()
                .expect("child");
            let mut h = Hash::new();
            h.s(&std::fs::read_to_string(dir.file("x.sol")).unwrap_or_default());
            // the events, without their times
            let mut e = Hash::new();
            for l in String::from_utf8_lossy(&p.stderr).lines() {
                if let Some(k) = l.find("New best: ") {
                    e.s(&l[k..]);
                }
            }
            res.push(vec![vec![p.status.code().unwrap_or(-1).to_string(), h.hex(), e.hex()]]);
        }
        out.line(json!({"k": "rep", "case": i, "what": "program", "n": c.inst.n(), "a": res[0], "b": res[1], "c": res[2]}));
    }
}
