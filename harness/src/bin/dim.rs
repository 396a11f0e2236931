//! C20: what is printed in DIMACS mode. Built with the feature dimacs; every run is a process
//! of its own (case=I), whose standard output is compared with the history it ends with.
use std::process::{Command, Stdio};
use std::time::Instant;

use hx::common::*;
use hx::text::*;
use hybridcvrp::solver::genetic::{DecomposedGeneticAlgorithm, GeneticAlgorithm};
use hybridcvrp::solver::Metaheuristic;
use hybridcvrp::utils::write_solution_file;

struct Case {
    inst: Inst,
    cfg: hybridcvrp::config::Config,
    decomposed: bool,
}

fn case(o: &Opt, i: usize) -> Case {
    let mut rng = o.rng(2000 + i as u64);
    let decomposed = i % 3 == 2;
    let n = if decomposed { rng.usize(6..=18) } else { rng.usize(1..=25) };
    let geo = pick(&mut rng, &[Geo::Arbitrary, Geo::Metric, Geo::Clustered, Geo::Euclid]);
    let mut inst = random_inst(&mut rng, n, geo, 1.0, 1.0);
    let mut cfg = base_config(rng.u64(0..1 << 40));
    cfg.initial_individuals = rng.u64(1..=10);
    cfg.min_population_size = rng.u64(2..=4);
    cfg.population_lambda = rng.u64(1..=4);
    cfg.num_elites = 1;
    cfg.ls_enabled = rng.usize(0..3) != 0 || decomposed;
    cfg.rr_mutation = rng.bool();
    cfg.rr_gamma = 2.0;
    cfg.rr_start_temp = 0.0;
    cfg.elite_education = rng.usize(0..4) == 0;
    cfg.elite_education_gamma = 20.0;
    cfg.average_ruin_cardinality = rng.usize(1..=3);
    cfg.round_distances = rng.bool();
    cfg.max_iterations = Some(if decomposed { 2 } else { rng.u64(0..=80) });
    if decomposed {
        inst.cap = (inst.total() / rng.usize(2..=6) as f64).ceil().max(inst.q.iter().cloned().fold(1.0, f64::max));
        cfg.decomposed_problem_min_size = rng.u64(2..=n as u64 / 2 + 1);
    }
    Case { inst, cfg, decomposed }
}

fn child(o: &Opt, i: usize) {
    let mut c = case(o, i);
    let path = format!("{}.sol", o.out);
    c.cfg.solution_path = Some(path.clone());
    let ctx = context_at(&c.inst, c.cfg, None, None, Instant::now());
    if c.decomposed {
        let mut m = DecomposedGeneticAlgorithm::new(ctx);
        while !m.terminated() {
            m.iterate(ctx);
        }
    } else {
        let mut m = GeneticAlgorithm::new(ctx);
        while !m.terminated() {
            m.iterate(ctx);
        }
    }
    write_solution_file(ctx);
    let h = ctx.search_history.borrow();
    let mut out = Out::new(&o.out);
    out.line(json!({
        "hc": h.entries().iter().map(|e| split_cost(e.solution.cost)).collect::<Vec<_>>(),
        "hl": h.last_entry().map(|e| e.solution.routes.clone()).unwrap_or_default(),
        "sol": std::fs::read_to_string(&path).unwrap_or("? ?".into()),
    }));
    out.flush();
    std::fs::remove_file(&path).unwrap();
}

fn main() {
    let o = &Opt::from_args();
    if let Some(i) = o.arg("case") {
        child(o, i.parse().unwrap());
        return;
    }
    let mut out = Out::new(&o.out);
    for i in 0..o.scale(48, 480) {
        if !o.mine(i) {
            continue;
        }
        let c = case(o, i);
        let res = format!("{}.case", o.out);
        let p = Command::new(std::env::current_exe().unwrap())
            .args(&[&res, &o.seed.to_string(), "quick", &format!("{}/{}", o.part, o.parts), &format!("case={}", i)])
            .stdin(Stdio::null())
            .stderr(Stdio::piped())
            .stdout(Stdio::piped())
            .output()
            .expect("child");
        if !p.status.success() {
            eprintln!("{}", String::from_utf8_lossy(&p.stderr));
            std::process::exit(101);
        }
        let r: Value = serde_json::from_str(&std::fs::read_to_string(&res).unwrap()).unwrap();
        std::fs::remove_file(&res).unwrap();
        let s = 1.0;
        let ctx = context(&c.inst, c.cfg.clone(), None, None);
        let mut head = inst_json(&c.inst, ctx, 0.0);
        let round = c.cfg.round_distances;
        head["round"] = json!(round || c.inst.d.is_some());
        head["dec"] = json!(c.decomposed);
        out.line(head);
        // the solutions on standard output, anything else on it left aside
        let text = String::from_utf8_lossy(&p.stdout).to_string();
        let mut cur: Vec<Vec<String>> = Vec::new();
        let mut blocks = Vec::new();
        for l in tokens(&text) {
            match l.first().map(|x| x.as_str()) {
                Some("Route") => cur.push(l),
                Some("Cost") => {
                    cur.push(l);
                    blocks.push(json!({"lines": cur, "pc": printed_cost(&cur), "R": printed_routes(&cur)}));
                    cur = Vec::new();
                }
                _ => {}
            }
        }
        let lines = tokens(r["sol"].as_str().unwrap());
        out.line(json!({
            "k": "dim", "hc": r["hc"], "hl": r["hl"], "blocks": blocks, "open": cur.len(),
            "sol": {"lines": lines, "pc": printed_cost(&lines)}, "s": s,
        }));
    }
    out.flush();
}
