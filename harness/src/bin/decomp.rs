//! C15 (and C01, C03, C13 for it): subproblems and the decomposed search.
use std::time::Instant;

use hx::common::*;
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, Decomposition, Individual};
use hybridcvrp::solver::{Context, Metaheuristic};

fn ind(i: &Individual, inst: &Inst) -> Value {
    json!({"R": i.phenotype, "g": i.genotype, "c": sc(i.penalized_cost(), inst.s), "x": i.is_feasible()})
}

/// The data of the subproblem, the way the solver sees it
fn data(ctx: &Context, inst: &Inst) -> Value {
    let m = ctx.problem.dim();
    let d: Vec<Vec<i64>> = (0..m)
        .map(|i| (0..m).map(|j| sc(ctx.matrix_provider.distance.get(i, j), inst.s)).collect())
        .collect();
    json!({
        "n": ctx.problem.num_customers(), "cap": sc(ctx.problem.vehicle.cap, inst.qs),
        "q": ctx.problem.nodes.iter().map(|x| sc(x.demand, inst.qs)).collect::<Vec<_>>(),
        "xy": ctx.problem.nodes.iter().map(|x| vec![sc(x.coord.lng, 1.0), sc(x.coord.lat, 1.0)]).collect::<Vec<_>>(),
        "d": d, "N": ctx.config.borrow().num_vehicles,
    })
}

fn random_sub(rng: &mut fastrand::Rng, n: usize, len: usize, room: usize) -> Vec<Vec<usize>> {
    let len = len.max(1);
    let used = rng.usize(1..=room.min(len).max(1));
    random_routes(rng, n, len, used)
}

/// Makes a result of a subproblem fit one of n customers and that many vehicles
fn fitted(s: Vec<Vec<usize>>, n: usize, room: usize) -> Vec<Vec<usize>> {
    let mut s: Vec<Vec<usize>> = s.into_iter().map(|r| r.into_iter().filter(|&c| c <= n).collect()).collect();
    s.retain(|r: &Vec<usize>| !r.is_empty());
    for c in 1..=n {
        if !s.iter().flatten().any(|&x| x == c) {
            s.push(vec![c]);
        }
    }
    while s.len() > room.max(1) {
        let last = s.pop().unwrap();
        s.last_mut().unwrap().extend(last);
    }
    s
}

/// Takes the given routes out and puts the given result back, round after round
fn replay(out: &mut Out, all: &[Value]) {
    let mut exact = 0;
    for (x, v) in all.iter().enumerate() {
        let inst = inst_of(v);
        let mut cfg = base_config(1);
        if x % 2 == 1 {
            cfg.precompute_distance_size_limit = 0;
        }
        let fleet = v["N"].as_u64().unwrap();
        let ctx = context(&inst, cfg, Some(fleet), Some(4.0));
        let mut head = inst_json(&inst, ctx, 4.0);
        head["what"] = json!("dec");
        head["maxit"] = json!(0);
        head["tl"] = json!(2_000_000_000);
        head["xy"] = json!(inst.xy.iter().map(|p| vec![sc(p.0, 1.0), sc(p.1, 1.0)]).collect::<Vec<_>>());
        out.line(head);
        let mut r = routes_json(&v["R"]);
        let k = r.len();
        r.rotate_left(x % k);
        let mut global = individual(&r, 0);
        global.evaluate(ctx);
        for op in v["ops"].as_array().unwrap() {
            let want: std::collections::BTreeSet<usize> =
                op["taken"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as usize).collect();
            ctx.config.borrow_mut().decomposed_problem_min_size = op["size"].as_u64().unwrap();
            let before = ind(&global, &inst);
            // which routes are taken depends on a random customer
            let mut seed = 0;
            for s in 0..24 {
                ctx.random.rng.replace(fastrand::Rng::with_seed(s * 977 + 5));
                let mut copy = global.clone();
                let d = Decomposition::new(&mut copy, ctx);
                seed = s;
                if d.mapping[1..].iter().cloned().collect::<std::collections::BTreeSet<usize>>() == want {
                    exact += 1;
                    break;
                }
            }
            ctx.random.rng.replace(fastrand::Rng::with_seed(seed * 977 + 5));
            let mut d = Decomposition::new(&mut global, ctx);
            out.line(json!({
                "k": "new", "before": before, "rest": json!({"R": d.global.phenotype, "g": d.global.genotype}),
                "sub": ind(&d.solution, &inst), "map": d.mapping, "data": data(&d.ctx, &inst),
            }));
            let room = fleet as usize - d.global.num_nonempty_routes();
            let result = fitted(routes_json(&op["S"]), d.mapping.len() - 1, room);
            d.solution.genotype = result.iter().flatten().cloned().collect();
            d.solution.phenotype = result;
            d.solution.evaluate(&d.ctx);
            out.line(json!({
                "k": "res", "kind": "any", "sub": ind(&d.solution, &inst), "ran": 0, "h": 0, "over": false,
                "ci": *ctx.iteration.borrow(), "gh": ctx.search_history.borrow().entries().len(),
            }));
            d.finish(ctx);
            out.line(json!({"k": "fin", "after": ind(&global, &inst), "pen": sc(ctx.config.borrow().penalty_capacity, inst.s)}));
        }
        out.line(json!({"k": "end"}));
    }
    eprintln!("{exact} of the rounds took the routes asked for");
}

/// Decompositions of a solution, one after another
fn part(rng: &mut fastrand::Rng, short: bool, real: bool, out: &mut Out) -> Inst {
    let n = if short { rng.usize(14..=22) } else { rng.usize(2..=14) };
    let s = 64.0;
    let geo = pick(rng, &[Geo::Arbitrary, Geo::Metric, Geo::Degenerate, Geo::Clustered, Geo::Euclid]);
    let mut inst = random_inst(rng, n, geo, 1.0, s);
    if rng.bool() {
        // more vehicles
        inst.cap = (inst.total() / rng.usize(1..=n) as f64).ceil().max(inst.q.iter().cloned().fold(1.0, f64::max));
    }
    let mut cfg = base_config(rng.u64(0..1 << 40));
    cfg.decomposed_problem_min_size = rng.u64(1..=n as u64 + 2);
    cfg.ls_enabled = rng.usize(0..4) != 0;
    cfg.rr_mutation = rng.bool();
    cfg.rr_gamma = 0.5;
    cfg.initial_individuals = rng.u64(1..=8);
    cfg.min_population_size = rng.u64(2..=4);
    cfg.population_lambda = rng.u64(1..=4);
    cfg.num_elites = 1;
    cfg.linear_split = rng.usize(0..4) != 0;
    cfg.elite_education = rng.usize(0..4) == 0;
    cfg.average_ruin_cardinality = rng.usize(1..=4);
    // every fourth one gets no time at all
    let none = rng.usize(0..4) == 0;
    let late = if none { rng.u64(0..=2) } else { 0 };
    cfg.time_limit = if none { late } else { 100_000 };
    if short {
        cfg.time_limit = 1;
        cfg.decomposed_problem_min_size = n as u64;
        cfg.ls_enabled = false;
        cfg.rr_mutation = false;
        cfg.elite_education = false;
        cfg.initial_individuals = 1_000_000_000;
    }
    cfg.precompute_distance_size_limit = if rng.bool() { 2000 } else { 0 };
    let fleet = inst.lb().max(1) + rng.u64(0..=3);
    let pen = 4.0;
    // the limit is a quarter of a second away
    let start = if short { Instant::now().checked_sub(std::time::Duration::from_millis(750)).unwrap() } else { ago(late) };
    let over = none && !short;
    let ctx = context_at(&inst, cfg, Some(fleet), Some(pen), start);
    let mut head = inst_json(&inst, ctx, pen);
    head["what"] = json!("dec");
    head["maxit"] = json!(0);
    head["xy"] = json!(inst.xy.iter().map(|p| vec![sc(p.0, 1.0), sc(p.1, 1.0)]).collect::<Vec<_>>());
    head["tl"] = json!(2_000_000_000);
    out.line(head);
    let mut r = packed_routes(rng, &inst, fleet as usize);
    if rng.usize(0..4) == 0 {
        let used = rng.usize(1..=fleet as usize);
        r = random_routes(rng, n, fleet as usize, used);
    }
    rng.shuffle(&mut r);
    let mut global = individual(&r, 0);
    global.evaluate(ctx);
    if short {
        // a good solution, if the local search finds a feasible one
        let mut ls = hybridcvrp::solver::improvement::LocalSearch::new(ctx, 1.0);
        ls.run(ctx, &mut global, 100.0);
    }
    for _ in 0..if short { 1 } else if real { 2 } else { 5 } {
        let before = ind(&global, &inst);
        let mut d = Decomposition::new(&mut global, ctx);
        let rest = json!({"R": d.global.phenotype, "g": d.global.genotype});
        let sub = ind(&d.solution, &inst);
        out.line(json!({
            "k": "new", "before": before, "rest": rest, "sub": sub, "map": d.mapping, "data": data(&d.ctx, &inst),
        }));
        let sn = d.mapping.len() - 1;
        let kind = if real {
            d.run();
            "run"
        } else {
            // any result that leaves enough vehicles
            let room = fleet as usize - d.global.num_nonempty_routes();
            if rng.usize(0..4) != 0 {
                let len = d.solution.phenotype.len().max(room) + rng.usize(0..3);
                d.solution.phenotype = random_sub(rng, sn, len, room);
                d.solution.genotype = d.solution.phenotype.iter().flatten().cloned().collect();
                d.solution.evaluate(&d.ctx);
            }
            "any"
        };
        let h = d.ctx.search_history.borrow().entries().len();
        out.line(json!({
            "k": "res", "kind": kind, "sub": ind(&d.solution, &inst), "ran": *d.ctx.iteration.borrow(), "h": h, "over": over,
            "ci": *ctx.iteration.borrow(), "gh": ctx.search_history.borrow().entries().len(),
        }));
        d.finish(ctx);
        out.line(json!({"k": "fin", "after": ind(&global, &inst), "pen": sc(ctx.config.borrow().penalty_capacity, s)}));
    }
    out.line(json!({"k": "end"}));
    unsafe { release(ctx) };
    inst
}

fn used(r: &[Vec<usize>]) -> Vec<Vec<usize>> {
    let mut u: Vec<Vec<usize>> = r.iter().filter(|q| !q.is_empty()).cloned().collect();
    u.sort();
    u
}

fn serves(r: &[Vec<usize>], n: usize) -> bool {
    let mut all: Vec<usize> = r.iter().flatten().cloned().collect();
    all.sort();
    all.into_iter().eq(1..=n)
}

fn tour_of(g: &Value, r: &[Vec<usize>]) -> bool {
    let mut g: Vec<u64> = g.as_array().map_or(Vec::new(), |a| a.iter().filter_map(|x| x.as_u64()).collect());
    let mut all: Vec<u64> = r.iter().flatten().map(|&x| x as u64).collect();
    g.sort();
    all.sort();
    g == all
}

fn evaluated(inst: &Inst, d: &[Vec<i64>], i: &Value, pen: f64) -> bool {
    let r = routes_json(&i["R"]);
    let feasible = r.iter().all(|q| q.iter().map(|&x| inst.q[x]).sum::<f64>() <= inst.cap);
    i["x"] == feasible && i["c"] == cost_of(inst, d, &r, pen)
}

/// Looks at recorded decompositions; the specification judges those that look wrong here
fn suspicious(inst: &Inst, lines: &[Value], fleet: usize, pen: f64) -> Option<&'static str> {
    let d = ref_dist(inst);
    for k in 0..lines.len() {
        if lines[k]["k"] != "new" {
            continue;
        }
        let (t, r, f) = (&lines[k], &lines[k + 1], &lines[k + 2]);
        let m: Vec<usize> = t["map"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let mut names = m.clone();
        names.sort();
        names.dedup();
        if m.len() < 2 || m[0] != 0 || names.len() != m.len() || names[m.len() - 1] > inst.n() {
            return Some("mapping");
        }
        let sub = routes_json(&t["sub"]["R"]);
        let rest = routes_json(&t["rest"]["R"]);
        if !serves(&sub, m.len() - 1) {
            return Some("sub");
        }
        let mapped = |s: &[Vec<usize>]| -> Vec<Vec<usize>> { s.iter().map(|q| q.iter().map(|&x| m[x]).collect()).collect() };
        let both = |s: &[Vec<usize>]| { let mut a = mapped(s); a.extend(rest.iter().cloned()); used(&a) };
        if both(&sub) != used(&routes_json(&t["before"]["R"])) || !tour_of(&t["rest"]["g"], &rest) || !tour_of(&t["sub"]["g"], &sub) {
            return Some("complete routes");
        }
        let small = Inst {
            xy: m.iter().map(|&x| inst.xy[x]).collect(), q: m.iter().map(|&x| inst.q[x]).collect(),
            d: None, cap: inst.cap, s: inst.s, qs: inst.qs, ..Default::default()
        };
        let sd: Vec<Vec<i64>> = m.iter().map(|&a| m.iter().map(|&b| d[a][b]).collect()).collect();
        let data = &t["data"];
        if data["n"] != m.len() - 1 || data["cap"] != sc(inst.cap, inst.qs)
            || data["q"] != json!(small.q.iter().map(|&x| sc(x, inst.qs)).collect::<Vec<_>>()) || data["d"] != json!(sd)
            || data["xy"] != json!(small.xy.iter().map(|p| vec![sc(p.0, 1.0), sc(p.1, 1.0)]).collect::<Vec<_>>())
            || !evaluated(&small, &sd, &t["sub"], pen) || !evaluated(&small, &sd, &r["sub"], pen) {
            return Some("data");
        }
        let res = routes_json(&r["sub"]["R"]);
        let after = routes_json(&f["after"]["R"]);
        if !serves(&res, m.len() - 1) || used(&res).len() + used(&rest).len() > fleet || r["ci"] != 0 || r["gh"] != 0 {
            return Some("result");
        }
        if after.len() != fleet || used(&after) != both(&res) || !serves(&after, inst.n())
            || !tour_of(&f["after"]["g"], &after) || !evaluated(inst, &d, &f["after"], pen) {
            return Some("merged");
        }
    }
    None
}

fn screen(o: &Opt, out: &mut Out) {
    let mut rng = o.rng(1500);
    let (mut recorded, mut steps) = (0, 0);
    for _ in 0..o.scale(100_000, 3_000_000) / o.parts as usize {
        let mut m = Out::memory();
        let inst = part(&mut rng, false, false, &mut m);
        steps += m.lines;
        let fleet = m.kept[0]["N"].as_u64().unwrap() as usize;
        if let Some(what) = suspicious(&inst, &m.kept[1..], fleet, 4.0) {
            eprintln!("suspicious: {what}");
            for l in m.kept {
                out.line(l);
            }
            recorded += 1;
            if recorded >= 3 {
                break;
            }
        }
    }
    out.line(json!({"k": "screened", "steps": steps}));
    out.flush();
}

/// A decomposed search from its beginning to three steps after its end
fn run(out: &mut Out, inst: &Inst, cfg: hybridcvrp::config::Config, start: Instant, maxit: u64, tl: i64) {
    let ctx = context_at(inst, cfg, None, None, start);
    let mut head = inst_json(inst, ctx, 0.0);
    head["what"] = json!("run");
    head["maxit"] = json!(maxit);
    head["tl"] = json!(tl);
    head["xy"] = json!([]);
    out.line(head);
    let mut ga = DecomposedGeneticAlgorithm::new(ctx);
    let mut after = 0;
    let mut steps = 0;
    let initial = ctx.config.borrow().penalty_capacity;
    let snap = |kind: &str, ga: &DecomposedGeneticAlgorithm, e0: f64, e1: f64| {
        let h = ctx.search_history.borrow();
        let pen = ctx.config.borrow().penalty_capacity;
        json!({
            "k": kind, "t": ga.terminated(), "ci": *ctx.iteration.borrow(),
            "hc": h.entries().iter().map(|e| sc(e.solution.cost, inst.s)).collect::<Vec<_>>(),
            "hl": h.last_entry().map(|e| e.solution.routes.clone()).unwrap_or_default(),
            "hb": if h.best_cost.is_finite() { sc(h.best_cost, inst.s) } else { -1 },
            "pini": (pen - initial).abs() <= 1.0e-6 * initial,
            "e0": (e0 * 1000.0).floor() as i64, "e1": (e1 * 1000.0).floor() as i64,
        })
    };
    let e = start.elapsed().as_secs_f64();
    out.line(snap("start", &ga, e, e));
    loop {
        let e0 = start.elapsed().as_secs_f64();
        ga.iterate(ctx);
        let e1 = start.elapsed().as_secs_f64();
        out.line(snap("it", &ga, e0, e1));
        steps += 1;
        if ga.terminated() {
            after += 1;
            if after == 3 {
                break;
            }
        }
        if e1 > 100.0 || steps > 200_000 {
            out.line(json!({"k": "hang", "steps": steps}));
            break;
        }
    }
    out.line(json!({"k": "end"}));
}

/// Complete decomposed searches on the given instances
fn replay_runs(o: &Opt, out: &mut Out, all: &[Value]) {
    for (x, v) in all.iter().enumerate() {
        let inst = inst_of(v);
        let k = x * o.parts as usize + o.part as usize;
        let mut cfg = varied_config(k);
        cfg.round_distances = true;
        cfg.max_iterations = Some(1 + k as u64 % 3);
        cfg.decomposed_problem_min_size = 1 + k as u64 % 5;
        let maxit = 1 + k as u64 % 3;
        run(out, &inst, cfg, Instant::now(), maxit, 2_000_000_000);
    }
}

fn main() {
    let o = &Opt::from_args();
    let mut out = Out::new(&o.out);
    if let Some(all) = behaviours(o) {
        if all.first().map_or(false, |v| v.get("ops").is_some()) {
            replay(&mut out, &all);
        } else {
            replay_runs(o, &mut out, &all);
        }
        out.flush();
        return;
    }
    if o.arg("screen").is_some() {
        return screen(o, &mut out);
    }
    let mut rng = o.rng(15);
    let what = o.arg("what").unwrap_or_default();

    for i in 0..o.scale(480, 4800) {
        if !o.mine(i) || what == "runs" {
            continue;
        }
        // some searches are cut short by the time limit long before they find anything good
        let short = i / o.parts as usize % 12 == 5;
        let real = i / o.parts as usize % 4 == 0 || short;
        part(&mut rng, short, real, &mut out);
    }

    for i in 0..o.scale(24, 160) {
        if !o.mine(i) || what == "parts" {
            continue;
        }
        let n = rng.usize(3..=16);
        let s = 64.0;
        let geo = pick(&mut rng, &[Geo::Arbitrary, Geo::Metric, Geo::Degenerate, Geo::Clustered, Geo::Euclid]);
        let mut inst = random_inst(&mut rng, n, geo, 1.0, s);
        inst.cap = (inst.total() / rng.usize(1..=4) as f64).ceil().max(inst.q.iter().cloned().fold(1.0, f64::max));
        let mut cfg = base_config(rng.u64(0..1 << 40));
        cfg.decomposed_problem_min_size = rng.u64(1..=n as u64);
        cfg.initial_individuals = rng.u64(1..=8);
        cfg.min_population_size = rng.u64(2..=4);
        cfg.population_lambda = rng.u64(1..=4);
        cfg.num_elites = 1;
        cfg.rr_mutation = rng.bool();
        cfg.rr_gamma = 0.5;
        cfg.average_ruin_cardinality = rng.usize(1..=3);
        cfg.max_iterations = Some(rng.u64(0..=3));
        let timed = i / o.parts as usize % 3 == 2;
        let mut start = Instant::now();
        if timed {
            cfg.max_iterations = None;
            cfg.time_limit = rng.u64(2..=3);
            start = ago(rng.u64(0..=cfg.time_limit));
        }
        let maxit = cfg.max_iterations.map_or(2_000_000_000, |x| x);
        let tl = if timed { cfg.time_limit as i64 * 1000 } else { 2_000_000_000 };
        run(&mut out, &inst, cfg, start, maxit, tl);
    }
    out.flush();
}
