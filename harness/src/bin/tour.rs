//! C24: the order of the routes of solutions, and their giant tours.
use hx::common::*;
use hybridcvrp::solver::genetic::{Decomposition, GeneticAlgorithm, Individual, Split};
use hybridcvrp::solver::improvement::{LocalSearch, RuinRecreate};
use hybridcvrp::solver::{Context, Metaheuristic};

fn places(ctx: &Context) -> Vec<Vec<i64>> {
    ctx.problem.nodes.iter().map(|x| vec![sc(x.coord.lng, 1.0), sc(x.coord.lat, 1.0)]).collect()
}

fn ev(out: &mut Out, kind: &str, i: &Individual) {
    out.line(json!({"k": kind, "R": i.phenotype, "g": i.genotype}));
}

fn sorted(out: &mut Out, ctx: &Context, r: &[Vec<usize>]) {
    let mut i = individual(r, 1);
    i.sort_routes(ctx);
    out.line(json!({"k": "sort", "of": r, "R": i.phenotype, "g": i.genotype}));
}

/// A genetic search: all that enters the populations
fn genetic(out: &mut Out, ctx: &Context) {
    let mut ga = GeneticAlgorithm::new(ctx);
    let mut seen = std::collections::HashSet::new();
    let mut last = 0;
    while !ga.terminated() {
        ga.iterate(ctx);
        for i in ga.population.feasible.population.iter().chain(ga.population.infeasible.population.iter()) {
            if seen.insert(i.number) {
                ev(out, "member", i);
            }
        }
        if ga.iterations > last {
            last = ga.iterations;
            ev(out, "child", &ga.child);
        }
    }
}

fn main() {
    let o = &Opt::from_args();
    let mut out = Out::new(&o.out);
    if let Some(path) = o.arg("replay") {
        let text = std::fs::read_to_string(path).expect("behaviours");
        let mut at: Option<&'static Context> = None;
        for (i, line) in text.lines().enumerate() {
            if !o.mine(i) {
                continue;
            }
            let v: Value = serde_json::from_str(line).expect("behaviour");
            if at.is_none() {
                let xy: Vec<(f64, f64)> = v["xy"].as_array().unwrap().iter()
                    .map(|p| (p[0].as_f64().unwrap(), p[1].as_f64().unwrap()))
                    .collect();
                let mut rng = o.rng(24);
                let mut inst = random_inst(&mut rng, xy.len() - 1, Geo::Euclid, 1.0, 1.0);
                inst.xy = xy;
                let ctx = context(&inst, base_config(1), None, Some(1.0));
                out.line(json!({"k": "inst", "xy": places(ctx)}));
                at = Some(ctx);
            }
            sorted(&mut out, at.unwrap(), &routes_json(&v["R"]));
        }
        out.flush();
        return;
    }
    let mut rng = o.rng(24);
    for i in 0..o.scale(240, 3200) {
        if !o.mine(i) {
            continue;
        }
        let n = match rng.usize(0..6) {
            0 => rng.usize(1..=3),
            1 => rng.usize(30..=70),
            _ => rng.usize(4..=25),
        };
        let geo = pick(&mut rng, &[Geo::Euclid, Geo::Clustered, Geo::Degenerate, Geo::Metric]);
        let mut inst = random_inst(&mut rng, n, geo, 1.0, 1.0);
        if rng.bool() {
            // the depot aside
            let by = (rng.i64(-80..=80) as f64, rng.i64(-80..=80) as f64);
            inst.xy[0] = (inst.xy[0].0 + by.0, inst.xy[0].1 + by.1);
        }
        let mut cfg = varied_config(i);
        cfg.max_iterations = Some(6);
        // each way a solution is made, also on its own
        match i % 4 {
            0 => {
                cfg.rr_mutation = false;
                cfg.elite_education = false;
                cfg.ls_enabled = false;
            }
            1 => {
                cfg.rr_mutation = true;
                cfg.rr_probability = 1.0;
            }
            _ => {}
        }
        let ctx = context(&inst, cfg.clone(), None, None);
        let fleet = ctx.config.borrow().num_vehicles as usize;
        out.line(json!({"k": "inst", "xy": places(ctx)}));
        for _ in 0..6 {
            let used = rng.usize(1..=fleet);
            let r = random_routes(&mut rng, n, fleet, used);
            sorted(&mut out, ctx, &r);
        }
        genetic(&mut out, ctx);
        // the operations on their own
        let mut split = Split::new(ctx);
        let mut ls = LocalSearch::new(ctx, 1.0);
        let mut rr = RuinRecreate::new(ctx);
        for x in 0..3 {
            let used = rng.usize(1..=fleet);
            let r = random_routes(&mut rng, n, fleet, used);
            let mut ind = individual(&r, x);
            split.run(ctx, &mut ind, fleet as u64);
            ev(&mut out, "split", &ind);
            let used = rng.usize(1..=fleet);
            let mut ind = individual(&random_routes(&mut rng, n, fleet, used), x);
            ind.evaluate(ctx);
            ls.run(ctx, &mut ind, 1.0);
            ev(&mut out, "ls", &ind);
            let used = rng.usize(1..=fleet);
            let mut ind = individual(&random_routes(&mut rng, n, fleet, used), x);
            ind.evaluate(ctx);
            rr.load(ctx, &mut ind);
            rr.search();
            rr.get_solution(&mut ind);
            ev(&mut out, "rr", &ind);
            rr.get_best_solution(&mut ind);
            ev(&mut out, "rr", &ind);
        }
        // subproblems and what becomes of the solution they are part of
        if n >= 6 && i % 3 == 0 {
            ctx.config.borrow_mut().decomposed_problem_min_size = rng.u64(2..=n as u64 / 2);
            let used = rng.usize(2..=fleet.max(2)).min(fleet);
            let mut global = individual(&packed_routes(&mut rng, &inst, fleet), 1);
            if global.phenotype.iter().flatten().count() != n {
                global = individual(&random_routes(&mut rng, n, fleet, used), 1);
            }
            global.evaluate(ctx);
            for _ in 0..3 {
                global.sort_routes(ctx);
                let mut d = Decomposition::new(&mut global, ctx);
                out.line(json!({"k": "sub", "xy": places(&d.ctx), "R": d.solution.phenotype, "g": d.solution.genotype}));
                if rng.bool() {
                    d.ctx.config.borrow_mut().time_limit = 0;
                } 
                d.run();
                out.line(json!({"k": "sub", "xy": places(&d.ctx), "R": d.solution.phenotype, "g": d.solution.genotype}));
                d.finish(ctx);
                ev(&mut out, "global", &global);
            }
        }
    }
    out.flush();
}
