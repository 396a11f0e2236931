//! C01, C03, C08, C11, C13, C14: runs of the genetic algorithm, step by step.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Instant;

use hx::common::*;
#[path = "../judge.rs"]
mod judge;
use hybridcvrp::config::Config;
use hybridcvrp::solver::genetic::{GeneticAlgorithm, Individual, SubPopulation};
use hybridcvrp::solver::improvement::{Ruin, RuinRecreateSolution};
use hybridcvrp::solver::{Context, Metaheuristic};

/// The recorded solutions that have been seen with their routes
#[derive(Default)]
struct Seen {
    entries: usize,
    recs: Vec<Value>,
    /// steps of ruin and recreate since the last record
    ruins: u32,
}

impl Seen {
    fn look(&mut self, ctx: &Context, s: f64) {
        let h = ctx.search_history.borrow();
        let e = h.entries();
        while self.entries < e.len() {
            let x = &e[self.entries];
            let last = self.entries + 1 == e.len();
            self.recs.push(json!({
                "seen": last, "c": sc(x.solution.cost, s),
                "R": if last { x.solution.routes.clone() } else { Vec::new() },
            }));
            self.entries += 1;
        }
    }
}

struct Spy {
    inner: Box<dyn Ruin>,
    seen: Rc<RefCell<Seen>>,
    s: f64,
}

impl Ruin for Spy {
    fn run(&self, ctx: &Context, solution: &mut RuinRecreateSolution) {
        self.seen.borrow_mut().look(ctx, self.s);
        self.seen.borrow_mut().ruins += 1;
        self.inner.run(ctx, solution);
    }
}

struct Dummy;
impl Ruin for Dummy {
    fn run(&self, _: &Context, _: &mut RuinRecreateSolution) {}
}

fn sub(p: &SubPopulation, s: f64) -> Value {
    json!({
        "m": p.population.iter().map(|i| i.number).collect::<Vec<_>>(),
        "c": p.population.iter().map(|i| sc(i.penalized_cost(), s)).collect::<Vec<_>>(),
        "x": p.population.iter().map(|i| i.is_feasible()).collect::<Vec<_>>(),
    })
}

fn ind(i: &Individual, s: f64) -> Value {
    json!({"m": i.number, "R": i.phenotype, "g": i.genotype, "c": sc(i.penalized_cost(), s), "x": i.is_feasible()})
}

fn clamp(p: f64) -> f64 {
    p.min(10_000_000.0).max(0.0001)
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}

struct Recorder {
    known: HashMap<u64, (Vec<Vec<usize>>, Vec<usize>)>,
    tot: u64,
    pen: f64,
    /// the initial penalty of the instance
    initial: f64,
}

#[allow(clippy::too_many_arguments)]
fn snapshot(
    kind: &str,
    ga: &GeneticAlgorithm,
    ctx: &Context,
    inst: &Inst,
    rec: &mut Recorder,
    seen: &Rc<RefCell<Seen>>,
    t: (f64, f64),
) -> Value {
    let s = inst.s;
    let p = &ga.population;
    if p.total_individuals_count < rec.tot {
        rec.known.clear();
    }
    rec.tot = p.total_individuals_count;
    let mut new = Vec::new();
    let mut changed = Vec::new();
    let mut now = HashMap::new();
    for i in p.feasible.population.iter().chain(p.infeasible.population.iter()) {
        let v = (i.phenotype.clone(), i.genotype.clone());
        match rec.known.get(&i.number) {
            None => new.push(ind(i, s)),
            Some(w) if *w != v => changed.push(i.number),
            _ => {}
        }
        now.insert(i.number, v);
    }
    rec.known = now;
    let cfg = ctx.config.borrow();
    let pen = cfg.penalty_capacity;
    let mut cls = Vec::new();
    if pen == rec.pen {
        cls.push("same");
    }
    if close(pen, clamp(rec.pen * cfg.penalty_inc_multiplier)) {
        cls.push("inc");
    }
    if close(pen, clamp(rec.pen * cfg.penalty_dec_multiplier)) {
        cls.push("dec");
    }
    rec.pen = pen;
    seen.borrow_mut().look(ctx, s);
    let recs: Vec<Value> = seen.borrow_mut().recs.drain(..).collect();
    let ruins = std::mem::take(&mut seen.borrow_mut().ruins);
    // 0 if the penalty is not on the grid of the run
    let mut pi = sc(pen, s / inst.qs);
    if pi < 1 || pi as f64 != pen * (s / inst.qs) || pi as f64 * inst.total() * inst.qs > 1.0e9 {
        pi = 0;
    }
    let h = ctx.search_history.borrow();
    let w = &p.feasible_history;
    json!({
        "k": kind, "t": ga.terminated(), "ci": *ctx.iteration.borrow(), "it": ga.iterations, "ni": ga.num_initialized,
        "tot": p.total_individuals_count, "bi": ga.best_iteration,
        "fe": sub(&p.feasible, s), "in": sub(&p.infeasible, s), "new": new, "changed": changed,
        "child": if ga.child.evaluation.routes.is_empty() { json!([]) } else { json!([ind(&ga.child, s)]) },
        "bs": ga.best_solution.as_ref().map(|b| vec![ind(b, s)]).unwrap_or_default(),
        "rrb": ga.rr.best_solution.as_ref()
            .map(|b| vec![json!({
                "x": b.is_feasible(), "c": sc(b.cost, s), "R": b.routes.iter().map(|r| r.nodes.clone()).collect::<Vec<_>>(),
            })]).unwrap_or_default(),
        "rrn": ruins,
        "rrd": ga.rr.complete(),
        "recs": recs,
        "hc": h.entries().iter().map(|e| sc(e.solution.cost, s)).collect::<Vec<_>>(),
        "hl": h.last_entry().map(|e| e.solution.routes.clone()).unwrap_or_default(),
        "hb": if h.best_cost.is_finite() { sc(h.best_cost, s) } else { -1 },
        "P": pi, "cls": cls, "pini": close(pen, rec.initial), "bnd": pen >= 0.0001 && pen <= 10_000_000.0,
        "w": [w.len(), w.iter().filter(|x| **x).count(), if *w.last().unwrap_or(&true) { 1 } else { 0 }],
        "e0": (t.0 * 1000.0).floor() as i64, "e1": (t.1 * 1000.0).floor() as i64,
    })
}

fn heading(inst: &Inst, ctx: &Context, c: &Config, pen: f64, what: &str, elite: bool, grid: bool, ox: bool, tl: i64) -> Value {
    let mut head = inst_json(inst, ctx, pen);
    head["what"] = json!(what);
    head["ini"] = json!(c.initial_individuals);
    head["min"] = json!(c.min_population_size);
    head["max"] = json!(c.min_population_size + c.population_lambda);
    head["maxit"] = json!(c.max_iterations.map_or(2_000_000_000, |x| x));
    head["noimp"] = json!(c.max_iterations_without_improvement);
    head["interval"] = json!(c.penalty_update_interval);
    head["target"] = json!((c.feasibility_proportion_target * 100.0).round() as i64);
    head["elite"] = json!(elite);
    head["grid"] = json!(grid);
    head["ox"] = json!(if ox { 1 } else { 0 });
    head["tl"] = json!(tl);
    head
}

/// Very many records one after the other, looked at now and then
fn many_offers(o: &Opt, out: &mut Out) {
    let mut rng = o.rng(1515);
    let n = 9;
    let s = 64.0;
    let mut inst = random_inst(&mut rng, n, Geo::Arbitrary, 1.0, s);
    inst.cap = inst.total();
    for i in 0..=n {
        for j in 0..i {
            let x = rng.i64(1..=6400) as f64 / s;
            let d = inst.d.as_mut().unwrap();
            d[i][j] = x;
            d[j][i] = x;
        }
    }
    let mut cfg = base_config(o.seed);
    cfg.round_distances = false;
    let ctx = context(&inst, cfg, Some(3), Some(1.0));
    let mut offers: Vec<(i64, Individual)> = (0..2600)
        .map(|_| {
            let mut i = individual(&random_routes(&mut rng, n, 3, 3), 0);
            i.evaluate(ctx);
            (sc(i.penalized_cost(), s), i)
        })
        .collect();
    offers.sort_by_key(|x| -x.0);
    out.line(inst_json(&inst, ctx, 1.0));
    let mut ga = GeneticAlgorithm::new(ctx);
    let last = offers.len() - 1;
    for (k, (_, i)) in offers.into_iter().enumerate() {
        let routes = i.phenotype.clone();
        ga.child = i;
        ga.update_best(ctx);
        if k % 200 == 0 || k == last {
            out.line(offered(&ga, ctx, s, "update", &routes));
        } else {
            out.line(json!({"k": "unseen", "o": "update", "R": routes}));
        }
    }
}

fn offered(ga: &GeneticAlgorithm, ctx: &Context, s: f64, kind: &str, routes: &[Vec<usize>]) -> Value {
    let h = ctx.search_history.borrow();
    json!({
        "k": "op", "o": kind, "R": routes,
        "hc": h.entries().iter().map(|e| sc(e.solution.cost, s)).collect::<Vec<_>>(),
        "hl": h.last_entry().map(|e| e.solution.routes.clone()).unwrap_or_default(),
        "hb": if h.best_cost.is_finite() { sc(h.best_cost, s) } else { -1 },
        "bs": ga.best_solution.as_ref().map(|b| vec![b.phenotype.clone()]).unwrap_or_default(),
        "fe": ga.population.feasible.population.iter().map(|i| i.phenotype.clone()).collect::<Vec<_>>(),
        "in": ga.population.infeasible.population.iter().map(|i| i.phenotype.clone()).collect::<Vec<_>>(),
        "tot": ga.population.total_individuals_count,
    })
}

/// Solutions offered to the records, with restarts in between
fn replay_offers(o: &Opt, out: &mut Out, all: &[Value]) {
    if o.part == 0 {
        many_offers(o, out);
    }
    for (x, v) in all.iter().enumerate() {
        let inst = inst_of(v);
        let fleet = v["N"].as_u64().unwrap();
        let mut cfg = base_config(o.seed * 1000 + x as u64);
        cfg.min_population_size = 3;
        cfg.population_lambda = 3;
        let ctx = context(&inst, cfg, Some(fleet), Some(1.0));
        out.line(inst_json(&inst, ctx, 1.0));
        let mut ga = GeneticAlgorithm::new(ctx);
        for op in v["ops"].as_array().unwrap() {
            let routes = routes_json(&op["R"]);
            let kind = op["o"].as_str().unwrap();
            if kind == "restart" {
                // what a restart does to the records
                ga.current_best_solution_cost = f64::INFINITY;
                ga.population = hybridcvrp::solver::genetic::Population::new(ctx);
            } else {
                let mut i = individual(&routes, 0);
                i.evaluate(ctx);
                if kind == "initial" {
                    ga.add_initial(ctx, i);
                } else {
                    ga.child = i;
                    ga.update_best(ctx);
                }
            }
            out.line(offered(&ga, ctx, inst.s, kind, &routes));
        }
    }
    out.flush();
}

/// Generations of populations that consist of the two parents given by the specification
fn replay_parents(o: &Opt, out: &mut Out, all: &[Value]) {
    let mut rng = o.rng(1414);
    let s = 64.0;
    for (x, v) in all.iter().enumerate() {
        let tour = |k: &str| routes_json(&json!([v[k]]))[0].clone();
        let (p1, p2) = (tour("p1"), tour("p2"));
        let n = p1.len();
        let mut inst = random_inst(&mut rng, n, Geo::Euclid, 1.0, s);
        // far away depot and room for everyone: the child is one route, its tour
        for k in 0..=n {
            inst.xy[k] = (rng.i64(0..=40) as f64, rng.i64(0..=40) as f64);
        }
        inst.xy[0] = (500.0, 700.0);
        inst.cap = inst.total();
        let mut cfg = base_config(o.seed * 1000 + x as u64);
        cfg.initial_individuals = 1;
        cfg.min_population_size = 2;
        cfg.population_lambda = 3;
        cfg.tournament_size = 1;
        cfg.ls_enabled = false;
        cfg.rr_mutation = false;
        cfg.repair_probability = 0.0;
        cfg.linear_split = true;
        cfg.max_iterations = Some(1_000_000);
        cfg.max_iterations_without_improvement = 100_000;
        let ctx = context(&inst, cfg.clone(), Some(1 + x as u64 % 2), Some(4.0));
        let mut ga = GeneticAlgorithm::new(ctx);
        let mut steps = 0;
        while *ctx.iteration.borrow() == 0 && steps < 40 {
            ga.iterate(ctx);
            steps += 1;
        }
        out.line(heading(&inst, ctx, &cfg, 4.0, "parents", false, false, true, 2_000_000_000));
        let seen = Rc::new(RefCell::new(Seen::default()));
        let mut rec = Recorder { known: HashMap::new(), tot: 0, pen: 4.0, initial: 4.0 };
        for k in 0..12 {
            if k % 2 == 0 {
                ga.population = hybridcvrp::solver::genetic::Population::new(ctx);
                for p in [&p1, &p2] {
                    let mut i = individual(&[p.clone()], 0);
                    i.evaluate(ctx);
                    ga.add_individual(ctx, i);
                }
                rec.known.clear();
                rec.tot = 0;
                let mut set = snapshot("set", &ga, ctx, &inst, &mut rec, &seen, (0.0, 0.0));
                set["g"] = json!({"ni": 1, "lb": 2147483647, "w": vec![1; 100], "idle": 0, "el": 0, "npu": 0, "bi": 0});
                out.line(set);
            }
            ga.iterate(ctx);
            out.line(snapshot("it", &ga, ctx, &inst, &mut rec, &seen, (0.0, 0.0)));
        }
        out.line(json!({"k": "end"}));
    }
    out.flush();
}

/// The algorithm in the states given by the specification
fn replay(o: &Opt, out: &mut Out, all: &[Value]) {
    let mut rng = o.rng(1313);
    for (x, v) in all.iter().enumerate() {
        let y = &v["y"];
        let int = |k: &str| y[k].as_i64().unwrap();
        let n = 3 + x % 4;
        let s = 4096.0;
        let geo = pick(&mut rng, &[Geo::Metric, Geo::Arbitrary, Geo::Clustered]);
        let mut inst = random_inst(&mut rng, n, geo, 1.0, s);
        let fleet = inst.lb().max(1) + rng.u64(0..=1);
        inst.cap = (inst.total() / fleet as f64 * 1.1).ceil().max(inst.q.iter().cloned().fold(0.0, f64::max));
        let mut cfg = base_config(o.seed * 1000 + x as u64);
        cfg.initial_individuals = 1 + x as u64 % 3;
        cfg.min_population_size = 5;
        cfg.population_lambda = 3;
        cfg.penalty_inc_multiplier = 2.0;
        cfg.penalty_dec_multiplier = 0.5;
        cfg.repair_probability = 0.0;
        cfg.rr_mutation = false;
        cfg.ls_enabled = rng.bool();
        cfg.max_iterations = Some(1_000_000);
        cfg.max_iterations_without_improvement = 100_000;
        cfg.feasibility_proportion_target = int("target") as f64 / 100.0;
        cfg.penalty_update_interval = int("interval") as u64;
        let ctx = context(&inst, cfg.clone(), Some(inst.lb().max(1) + x as u64 % 2), Some(1.0));
        let mut ga = GeneticAlgorithm::new(ctx);
        // up to the genetic phase
        let mut steps = 0;
        while *ctx.iteration.borrow() == 0 && steps < 40 {
            ga.iterate(ctx);
            steps += 1;
        }
        // the given state
        let pen = match int("pen") {
            1 => 0.0001,
            2 => 0.00015,
            3 => 4.0,
            4 => 7_000_000.0,
            _ => 10_000_000.0,
        };
        ctx.config.borrow_mut().penalty_capacity = pen;
        ctx.config.borrow_mut().max_iterations_without_improvement = int("noimp") as u64;
        cfg.max_iterations_without_improvement = int("noimp") as u64;
        let it = 50u64;
        ga.iterations = it;
        *ctx.iteration.borrow_mut() = it;
        ga.best_iteration = it - int("since") as u64;
        ga.next_penalty_update = (it as i64 + int("due")) as u64;
        ga.next_log_interval = it + x as u64 % 3;
        let w: Vec<bool> = v["w"].as_array().unwrap().iter().map(|b| b.as_i64().unwrap() == 1).collect();
        for i in ga.population.infeasible.population.iter_mut() {
            i.evaluate(ctx);
        }
        // infeasible ones, two of which change places when the penalty grows, and two when it falls
        let fleet = ctx.config.borrow().num_vehicles as usize;
        let drawn: Vec<Individual> = (0..60)
            .map(|_| {
                let mut routes = vec![Vec::new(); fleet];
                for c in 1..=n {
                    routes[rng.usize(0..fleet)].push(c);
                }
                let mut i = individual(&routes, 0);
                i.evaluate(ctx);
                i
            })
            .filter(|i| !i.is_feasible())
            .collect();
        let at = |i: &Individual, p: f64| {
            i.evaluation.routes.iter().map(|r| r.distance + p * r.overload.max(0.0)).sum::<f64>()
        };
        for p in [2.0 * pen, 0.5 * pen] {
            let pair = (0..drawn.len()).flat_map(|a| (0..drawn.len()).map(move |b| (a, b))).find(|&(a, b)| {
                at(&drawn[a], pen) < at(&drawn[b], pen) && at(&drawn[a], p) > at(&drawn[b], p)
            });
            if let Some((a, b)) = pair {
                ga.add_individual(ctx, drawn[a].clone());
                ga.add_individual(ctx, drawn[b].clone());
            }
        }
        ga.population.infeasible.population.sort();
        ga.population.feasible_history = w.clone();
        out.line(heading(&inst, ctx, &cfg, pen, "set", false, true, false, 2_000_000_000));
        let seen = Rc::new(RefCell::new(Seen::default()));
        let mut rec = Recorder { known: HashMap::new(), tot: 0, pen, initial: pen };
        let mut set = snapshot("set", &ga, ctx, &inst, &mut rec, &seen, (0.0, 0.0));
        let lb = ga.current_best_solution_cost;
        set["g"] = json!({
            "ni": ga.num_initialized, "lb": if lb.is_finite() { sc(lb, s) } else { 2147483647 }, "w": v["w"], "idle": 0, "el": 0,
            "npu": ga.next_penalty_update, "bi": ga.best_iteration,
        });
        out.line(set);
        for _ in 0..3 {
            ga.iterate(ctx);
            out.line(snapshot("it", &ga, ctx, &inst, &mut rec, &seen, (0.0, 0.0)));
        }
        out.line(json!({"k": "end"}));
    }
    out.flush();
}

/// A run of the algorithm from its beginning to three steps after its end
fn record_run(out: &mut Out, inst: &Inst, ctx: &'static Context, pen: f64, initial: f64, start: Instant, tl: u64, wait: bool) {
    let seen = Rc::new(RefCell::new(Seen::default()));
    let mut ga = GeneticAlgorithm::new(ctx);
    let inner = std::mem::replace(&mut ga.rr.ruin, Box::new(Dummy));
    ga.rr.ruin = Box::new(Spy { inner, seen: seen.clone(), s: inst.s });
    let mut rec = Recorder { known: HashMap::new(), tot: 0, pen, initial };
    let e = start.elapsed().as_secs_f64();
    out.line(snapshot("start", &ga, ctx, inst, &mut rec, &seen, (e, e)));
    let mut after = 0;
    let mut steps = 0;
    let t0 = Instant::now();
    loop {
        let e0 = start.elapsed().as_secs_f64();
        ga.iterate(ctx);
        let e1 = start.elapsed().as_secs_f64();
        // in a run up to the time limit most of the steps in between are of no interest
        steps += 1;
        if wait && !ga.terminated() && steps > 12 && e1 < tl as f64 - 0.004 {
            continue;
        }
        let skipped = wait && steps > 13;
        out.line(snapshot(if skipped { "far" } else { "it" }, &ga, ctx, inst, &mut rec, &seen, (e0, e1)));
        if ga.terminated() {
            after += 1;
            if after == 3 {
                break;
            }
        }
        if t0.elapsed().as_secs() > 60 || steps > 5_000_000 {
            out.line(json!({"k": "hang", "steps": steps}));
            break;
        }
    }
    out.line(json!({"k": "end"}));
}

/// Complete runs on the given instances
fn replay_runs(o: &Opt, out: &mut Out, all: &[Value]) {
    let times = o.scale(3, 6);
    for (x, v) in all.iter().enumerate() {
        for k in 0..times {
            let inst = inst_of(v);
            let mut cfg = varied_config((x * o.parts as usize + o.part as usize) * times + k);
            cfg.time_limit = 100_000;
            let elite = cfg.elite_education && inst.n() > cfg.elite_education_problem_size_limit;
            let ctx = context(&inst, cfg.clone(), None, None);
            let initial = ctx.config.borrow().penalty_capacity;
            ctx.config.borrow_mut().penalty_capacity = 4.0;
            out.line(heading(&inst, ctx, &cfg, 4.0, "whole", elite, !elite, false, 2_000_000_000));
            record_run(out, &inst, ctx, 4.0, initial, Instant::now(), cfg.time_limit, false);
        }
    }
    out.flush();
}

fn main() {
    let o = &Opt::from_args();
    let mut out = Out::new(&o.out);
    if let Some(b) = behaviours(o) {
        if b.first().map_or(false, |v| v.get("p1").is_some()) {
            replay_parents(o, &mut out, &b);
        } else if b.first().map_or(false, |v| v.get("ops").is_some()) {
            replay_offers(o, &mut out, &b);
        } else if b.first().map_or(false, |v| v.get("xy").is_some()) {
            replay_runs(o, &mut out, &b);
        } else {
            replay(o, &mut out, &b);
        }
        return;
    }
    if o.arg("screen").is_some() {
        return screen(o, &mut out);
    }
    let mut rng = o.rng(13);
    let only = o.arg("kind");
    for i in 0..o.scale(104, 780) {
        if !o.mine(i) {
            continue;
        }
        // what the run is about
        let kind = ["plain", "ox", "pen", "restart", "elite", "lo", "hi", "tiny", "long", "multi", "default", "time", "big"]
            [(i / o.parts as usize) % 13];
        if only.as_ref().map_or(false, |k| !k.split(',').any(|x| x == kind)) {
            continue;
        }
        one(&mut rng, kind, &mut out);
    }

    // initial penalties
    for i in 0..o.scale(400, 4000) {
        if !o.mine(i) || only.is_some() {
            continue;
        }
        let n = rng.usize(1..=8);
        let geo = pick(&mut rng, &[Geo::Arbitrary, Geo::Metric, Geo::Degenerate, Geo::Euclid]);
        let mut inst = random_inst(&mut rng, n, geo, 1.0, 1.0);
        match rng.usize(0..4) {
            0 => {
                // small demands
                inst.qs = 1000.0;
                for q in inst.q.iter_mut() {
                    *q /= 1000.0;
                }
                inst.cap /= 1000.0;
            }
            1 => {
                let k = rng.usize(1..=n);
                inst.q[k] = rng.u64(100_000..200_000) as f64;
                inst.cap = 2_000_000.0;
            }
            _ => {}
        }
        // the distances that count are the rounded ones
        if let Some(d) = inst.d.as_mut() {
            for i in 0..d.len() {
                for j in 0..i {
                    d[i][j] += rng.i64(0..=3) as f64 / 4.0;
                    d[j][i] = d[i][j];
                }
            }
        }
        let mut cfg = base_config(1);
        cfg.round_distances = true;
        let pre = rng.usize(0..4) != 0;
        cfg.precompute_distance_size_limit = if pre { rng.u64(n as u64 + 1..2000) } else { rng.u64(0..=n as u64) };
        let ctx = context(&inst, cfg, None, None);
        let p = ctx.config.borrow().penalty_capacity;
        if let Some(d) = inst.d.as_mut() {
            for x in d.iter_mut().flatten() {
                *x = x.round();
            }
        }
        let mut head = inst_json(&inst, ctx, 0.0);
        head["k"] = json!("pen");
        // the smallest distance in 1/1024 steps of the penalty per unit of demand
        head["p"] = json!(fl(p, 1024.0));
        head["low"] = json!(p == 0.0001);
        head["high"] = json!(p == 10_000.0);
        head["hundred"] = json!(p == 100.0);
        head["pre"] = json!(pre || inst.d.is_some());
        out.line(head);
    }
    out.flush();
}

/// A run of some kind
fn one(rng: &mut fastrand::Rng, kind: &str, out: &mut Out) -> Inst {
    let ox = kind == "ox" || kind == "multi";
    let n = match kind {
        "tiny" => rng.usize(1..=3),
        "long" => rng.usize(4..=8),
        "big" => rng.usize(6..=14),
        "ox" => rng.usize(2..=10),
        "multi" => rng.usize(4..=6),
        _ => rng.usize(4..=12),
    };
    let mut s = 64.0;
    let geo = pick(rng, &[Geo::Arbitrary, Geo::Metric, Geo::Degenerate, Geo::Clustered, Geo::Euclid]);
    let mut inst = random_inst(rng, n, geo, 1.0, s);
    let mut cfg = base_config(rng.u64(0..1 << 40));
    cfg.initial_individuals = rng.u64(1..=10);
    cfg.min_population_size = rng.u64(1..=5);
    cfg.population_lambda = rng.u64(1..=6);
    cfg.num_elites = rng.u64(0..=3);
    cfg.num_diversity_closest = rng.u64(1..=4);
    cfg.tournament_size = rng.u64(1..=4);
    cfg.repair_probability = pick(rng, &[0.0, 0.5, 1.0]);
    cfg.penalty_update_interval = rng.u64(1..=7);
    cfg.penalty_inc_multiplier = 2.0;
    cfg.penalty_dec_multiplier = 0.5;
    cfg.feasibility_proportion_target = pick(rng, &[0.2, 0.5, 0.8, 0.95]);
    cfg.linear_split = rng.usize(0..4) != 0;
    cfg.rr_mutation = rng.bool();
    cfg.rr_gamma = pick(rng, &[0.5, 2.0]);
    cfg.rr_probability = pick(rng, &[0.3, 1.0]);
    cfg.rr_start_temp = pick(rng, &[0.0, 5.0]);
    cfg.average_ruin_cardinality = rng.usize(1..=4);
    cfg.ls_enabled = rng.usize(0..5) != 0;
    cfg.swap_star = rng.bool();
    cfg.max_iterations = Some(rng.u64(0..=40));
    cfg.max_iterations_without_improvement = 100_000;
    let mut fleet = inst.lb().max(1) + rng.u64(0..=2);
    let mut pen = 4.0;
    let mut start = Instant::now();
    match kind {
        "ox" | "multi" => {
            cfg.ls_enabled = false;
            cfg.rr_mutation = false;
            cfg.repair_probability = 0.0;
            cfg.linear_split = true;
            cfg.max_iterations = Some(if kind == "ox" { 30 } else { 12 });
            // far away depot: fewer routes are always cheaper
            for k in 0..=n {
                inst.xy[k] = (rng.i64(0..=40) as f64, rng.i64(0..=40) as f64);
            }
            inst.xy[0] = (500.0, 700.0);
            inst.d = None;
            if kind == "ox" {
                inst.cap = inst.total();
            } else {
                cfg.initial_individuals = rng.u64(2..=4);
                cfg.min_population_size = 3;
                cfg.population_lambda = 2;
                inst.cap = (inst.total() / 2.0).ceil().max(inst.q.iter().cloned().fold(0.0, f64::max));
            }
            fleet = inst.lb().max(1) + rng.u64(0..=2);
        }
        "pen" | "default" => {
            cfg.max_iterations = Some(150);
            cfg.penalty_update_interval = rng.u64(1..=12);
            cfg.feasibility_proportion_target = rng.u64(10..=90) as f64 / 100.0;
            cfg.repair_probability = pick(rng, &[0.0, 0.5]);
            cfg.ls_enabled = rng.bool();
            // about as much room as decides whether a child is feasible
            inst.cap = (inst.total() / fleet as f64 * 1.15).ceil().max(inst.q.iter().cloned().fold(0.0, f64::max));
            fleet = inst.lb().max(1) + rng.u64(0..=1);
            if kind == "default" {
                cfg.penalty_inc_multiplier = 1.2;
                cfg.penalty_dec_multiplier = 0.85;
            } else {
                cfg.penalty_dec_multiplier = pick(rng, &[0.5, 0.25]);
                s = 4096.0;
                inst.s = s;
                pen = 16.0;
                cfg.max_iterations = Some(110);
            }
        }
        "long" => {
            // hundreds of individuals in one life
            cfg.max_iterations = Some(rng.u64(250..=500));
            cfg.penalty_update_interval = rng.u64(1..=40);
            cfg.penalty_inc_multiplier = 1.2;
            cfg.penalty_dec_multiplier = 0.85;
            cfg.rr_mutation = false;
            inst.cap = (inst.total() / fleet as f64 * 1.15).ceil().max(inst.q.iter().cloned().fold(0.0, f64::max));
            fleet = inst.lb().max(1) + rng.u64(0..=1);
        }
        "big" => {
            // as many individuals as with the settings the program comes with
            cfg.initial_individuals = rng.u64(30..=120);
            cfg.min_population_size = rng.u64(10..=30);
            cfg.population_lambda = rng.u64(10..=40);
            cfg.num_elites = rng.u64(0..=10);
            cfg.num_diversity_closest = rng.u64(1..=10);
            cfg.tournament_size = rng.u64(1..=10);
            cfg.max_iterations = Some(rng.u64(0..=60));
            if rng.bool() {
                inst.cap = (inst.total() / fleet as f64 * 1.3).ceil().max(inst.q.iter().cloned().fold(0.0, f64::max));
                fleet = inst.lb().max(1) + rng.u64(0..=1);
            }
        }
        "lo" => {
            s = 10_000.0;
            inst.cap = inst.total();
            pen = 64.0 / s;
            cfg.feasibility_proportion_target = 0.2;
            cfg.max_iterations = Some(60);
        }
        "hi" => {
            s = 1.0;
            let n = inst.n();
            inst.cap = 5.0;
            inst.q = (0..=n).map(|x| if x == 0 { 0.0 } else { 3.0 }).collect();
            fleet = inst.lb();
            pen = 1_250_000.0;
            cfg.max_iterations = Some(60);
            cfg.penalty_inc_multiplier = pick(rng, &[2.0, 4.0]);
        }
        "restart" => {
            cfg.max_iterations = Some(120);
            cfg.max_iterations_without_improvement = rng.u64(0..=15);
            cfg.initial_individuals = rng.u64(1..=5);
            cfg.elite_education = rng.usize(0..3) == 0;
        }
        "elite" => {
            cfg.elite_education = true;
        }
        "time" => {
            cfg.max_iterations = if rng.bool() { None } else { Some(1_000_000) };
            cfg.initial_individuals = 3;
            cfg.time_limit = rng.u64(1..=3);
            start = ago(cfg.time_limit - 1);
            if rng.bool() {
                cfg.time_limit = 0;
            }
        }
        _ => {}
    }
    inst.s = s;
    cfg.elite_education_problem_size_limit = if rng.usize(0..4) == 0 { n } else { rng.usize(0..n) };
    cfg.elite_education_time_based = false;
    cfg.elite_education_gamma = pick(rng, &[0.5, 20.0, 2200.0 / n as f64]);
    cfg.elite_education_start_temp = pick(rng, &[0.0, 5.0]);
    let wait = kind == "time";
    let tl = cfg.time_limit;
    let elite = cfg.elite_education && n > cfg.elite_education_problem_size_limit;
    let c2 = cfg.clone();
    let ctx = context_at(&inst, cfg, Some(fleet), None, start);
    let init_pen = ctx.config.borrow().penalty_capacity;
    ctx.config.borrow_mut().penalty_capacity = pen;
    // the elite phase leaves the initial penalty behind, and the default factors lead off the grid
    let grid = !elite && kind != "default" && kind != "long";
    let head = heading(&inst, ctx, &c2, pen, kind, elite, grid, ox, if wait { (tl * 1000) as i64 } else { 2_000_000_000 });
    out.line(head);
    record_run(out, &inst, ctx, pen, init_pen, start, tl, wait);
    inst
}

/// Very many runs, of which those that look wrong are written down
fn screen(o: &Opt, out: &mut Out) {
    let mut rng = o.rng(1300);
    let (mut recorded, mut steps) = (0, 0);
    for i in 0..o.scale(12_000, 360_000) / o.parts as usize {
        let kind = ["plain", "ox", "pen", "restart", "elite", "lo", "hi", "tiny", "plain", "multi", "default", ["long", "restart", "big", "restart", "big"][i / 12 % 5]][i % 12];
        let mut m = Out::memory();
        let inst = one(&mut rng, kind, &mut m);
        steps += m.lines;
        if let Some(what) = judge::judge(&inst, &m.kept[0], &m.kept[1..]) {
            eprintln!("suspicious: {kind} {what}");
            for l in m.kept {
                out.line(l);
            }
            recorded += 1;
            if recorded >= 3 {
                break;
            }
        }
    }
    out.line(json!({"k": "screened", "steps": steps}));
    out.flush();
}
