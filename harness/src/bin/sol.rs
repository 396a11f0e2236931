//! C20: the solution file.
use hx::common::*;
use hx::text::*;
use hybridcvrp::utils::write_solution_file;

fn replay(o: &Opt, out: &mut Out, all: &[Value]) {
    let dir = Scratch::new(o, "sol");
    let path = dir.file("x.sol");
    let inst = random_inst(&mut o.rng(1), 3, Geo::Metric, 1.0, 1.0);
    for v in all {
        let mut cfg = base_config(1);
        cfg.solution_path = Some(path.clone());
        let ctx = context(&inst, cfg, None, None);
        let _ = std::fs::remove_file(&path);
        let mut last = None;
        for op in v["ops"].as_array().unwrap() {
            match op["op"].as_str().unwrap() {
                "rec" => {
                    let r = routes_json(&op["R"]);
                    let c = op["c"].as_u64().unwrap() as f64 / 1000.0;
                    let mut ind = individual(&r, 0);
                    ind.evaluation.penalized_cost = c;
                    ind.evaluation.feasible = true;
                    ctx.search_history.borrow_mut().add(ctx, &ind);
                    last = Some((r, op["c"].as_i64().unwrap()));
                }
                "write" => {
                    write_solution_file(ctx);
                    let lines = tokens(&String::from_utf8(std::fs::read(&path).unwrap()).unwrap_or("? ?".into()));
                    let (r, c) = last.clone().unwrap_or_default();
                    let shown = last.as_ref().map(|_| tokens(&format!("{}", ctx.search_history.borrow().last_entry().unwrap().solution)));
                    out.line(json!({
                        "k": "sol", "none": last.is_none(), "R": r, "c": [c / 1_000_000_000, c % 1_000_000_000],
                        "pc": printed_cost(&lines), "lines": lines, "pre": 0, "shown": shown.unwrap_or_default(),
                    }));
                }
                _ => {
                    let old = std::fs::read_to_string(&path).unwrap_or_default();
                    std::fs::write(&path, format!("Route #1: 77\nx\n{}", old)).unwrap();
                }
            }
        }
    }
}

fn main() {
    let o = &Opt::from_args();
    let mut out = Out::new(&o.out);
    if let Some(all) = behaviours(o) {
        replay(o, &mut out, &all);
        out.flush();
        return;
    }
    let mut rng = o.rng(20);
    let dir = Scratch::new(o, "sol");
    for i in 0..o.scale(2000, 30000) {
        if !o.mine(i) {
            continue;
        }
        let n = if rng.usize(0..20) == 0 { rng.usize(1..=150) } else { rng.usize(1..=12) };
        let inst = random_inst(&mut rng, n, Geo::Euclid, 1.0, 1.0);
        let mut cfg = base_config(1);
        cfg.precompute_distance_size_limit = 0;
        let path = dir.file(&format!("{}.sol", i));
        cfg.solution_path = Some(path.clone());
        let ctx = context(&inst, cfg, None, None);
        // what is in the file already
        let pre = rng.usize(0..4);
        match pre {
            0 => {}
            1 => std::fs::write(&path, "x").unwrap(),
            2 => std::fs::write(&path, "Route #1: 77 78\n".repeat(200)).unwrap(),
            _ => std::fs::write(&path, vec![0u8; 5000]).unwrap(),
        }
        let times = if rng.usize(0..8) == 0 { 0 } else { rng.usize(1..=3) };
        let mut last = (Vec::new(), 0.0);
        let mut shown = Vec::new();
        for _ in 0..times {
            let fleet = rng.usize(1..=n + 4);
            let used = rng.usize(1..=fleet);
            let mut r = random_routes(&mut rng, n, fleet, used);
            rng.shuffle(&mut r);
            let mut ind = individual(&r, 0);
            let c = match rng.usize(0..4) {
                0 => rng.u64(0..2_000_000) as f64 / 1000.0,
                1 => rng.u64(0..2_000_000) as f64 / 2.0,
                2 => rng.u64(0..5_000_000_000_000) as f64 / 1000.0,
                _ => rng.u64(0..10_000) as f64,
            };
            ind.evaluation.penalized_cost = c;
            ind.evaluation.feasible = true;
            ctx.search_history.borrow_mut().add(ctx, &ind);
            last = (r, c);
            shown = tokens(&format!("{}", ctx.search_history.borrow().last_entry().unwrap().solution));
        }
        // a second writing of the same
        for _ in 0..rng.usize(1..=2) {
            write_solution_file(ctx);
        }
        let text = String::from_utf8(std::fs::read(&path).unwrap()).unwrap_or("? ?".into());
        let lines = tokens(&text);
        out.line(json!({
            "k": "sol", "none": times == 0, "R": last.0, "c": split_cost(last.1), "pc": printed_cost(&lines), "lines": lines,
            "pre": pre, "shown": shown,
        }));
        std::fs::remove_file(&path).unwrap();
    }
    out.flush();
}
