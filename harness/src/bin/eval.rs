//! C02: evaluations of routes, also repeated ones of the same object.
use hx::common::*;
use hybridcvrp::solver::genetic::Individual;

/// floor(s * distance) between integer points
fn floor_dist(inst: &Inst) -> Vec<Vec<i64>> {
    let m = inst.q.len();
    let s2 = (inst.s * inst.s) as i64;
    (0..m)
        .map(|i| {
            (0..m)
                .map(|j| {
                    let dx = (inst.xy[i].0 - inst.xy[j].0) as i64;
                    let dy = (inst.xy[i].1 - inst.xy[j].1) as i64;
                    let x = (dx * dx + dy * dy) * s2;
                    let mut r = (x as f64).sqrt() as i64;
                    while (r + 1) * (r + 1) <= x {
                        r += 1;
                    }
                    while r * r > x {
                        r -= 1;
                    }
                    r
                })
                .collect()
        })
        .collect()
}

/// Two evaluations of the same object, and the distances between the two solutions
fn replay(out: &mut Out, all: &[Value]) {
    for (x, v) in all.iter().enumerate() {
        let inst = inst_of(v);
        let mut cfg = base_config(1);
        if x % 2 == 1 {
            cfg.precompute_distance_size_limit = 0;
        }
        let ctx = context(&inst, cfg, v["N"].as_u64(), Some(1.0));
        let mut head = inst_json(&inst, ctx, 1.0);
        head["slack"] = json!(false);
        out.line(head);
        let mut ind = individual(&[], 1);
        let mut both = Vec::new();
        for k in ["A", "B"] {
            let pen = v[k]["P"].as_i64().unwrap();
            ctx.config.borrow_mut().penalty_capacity = pen as f64;
            let r = routes_json(&v[k]["R"]);
            ind.genotype = r.iter().flatten().copied().collect();
            ind.phenotype = r.clone();
            ind.evaluate(ctx);
            out.line(ev(&inst, &ind, pen));
            both.push(ind.clone());
        }
        out.line(json!({"k": "bp", "A": both[0].phenotype, "B": both[1].phenotype,
            "ab": both[0].calculate_broken_pairs_distance(&both[1]), "ba": both[1].calculate_broken_pairs_distance(&both[0])}));
    }
}

fn ev(inst: &Inst, ind: &Individual, pen: i64) -> Value {
    json!({
        "k": "ev", "R": ind.phenotype, "P": pen,
        "dist": ind.evaluation.routes.iter().map(|r| sc(r.distance, inst.s)).collect::<Vec<_>>(),
        "over": ind.evaluation.routes.iter().map(|r| sc(r.overload, inst.qs)).collect::<Vec<_>>(),
        "rc": ind.evaluation.routes.iter().map(|r| sc(r.penalized_cost, inst.s)).collect::<Vec<_>>(),
        "cost": sc(ind.penalized_cost(), inst.s),
        "feas": ind.is_feasible(),
        "succ": (1..=inst.n()).map(|x| ind.successor(x)).collect::<Vec<_>>(),
        "pred": (1..=inst.n()).map(|x| ind.predecessor(x)).collect::<Vec<_>>(),
        "rfeas": ind.evaluation.routes.iter().map(|r| r.is_feasible()).collect::<Vec<_>>(),
    })
}

/// Evaluations of one object on a random instance of at most so many customers
fn case(rng: &mut fastrand::Rng, most: usize, times: usize, out: &mut Out) -> Inst {
    let n = if rng.usize(0..5) == 0 { rng.usize(1..=2) } else { rng.usize(3..=most) };
    let unr = rng.usize(0..4) == 0 && most <= 14;
    let qs = pick(rng, &[1.0, 1.0, 2.0, 10.0]);
    let mut inst = match rng.usize(0..4) {
        0 if !unr => random_inst(rng, n, Geo::Arbitrary, qs, 4.0),
        1 => random_inst(rng, n, Geo::Degenerate, qs, 4.0),
        2 => random_inst(rng, n, Geo::Clustered, qs, 4.0),
        _ => random_inst(rng, n, Geo::Euclid, qs, 4.0),
    };
    // long distances, which need more digits
    if let Some(d) = inst.d.as_mut().filter(|_| most <= 15 && rng.usize(0..2) == 0) {
        let by = pick(rng, &[1_003.0, 100_003.0]);
        d.iter_mut().for_each(|r| r.iter_mut().for_each(|x| *x *= by));
    }
    let mut cfg = base_config(1);
    if unr {
        inst.s = 1000.0;
        cfg.round_distances = false;
    }
    if rng.usize(0..3) == 0 {
        cfg.precompute_distance_size_limit = 0;
    }
    let k = rng.usize(1..=if most > 14 { 20 } else { 6 });
    let unit = qs / inst.s.min(4.0);
    let ctx = context(&inst, cfg, Some(k as u64), Some(unit));
    let mut head = inst_json(&inst, ctx, unit);
    head["slack"] = json!(unr);
    if unr {
        head["d"] = json!(floor_dist(&inst));
    }
    out.line(head);
    let mut ind: Individual = individual(&[], 1);
    for _ in 0..times {
        let pen = unit * pick(rng, &[0.0, 1.0, 2.0, 8.0, 40.0, 1000.0]);
        ctx.config.borrow_mut().penalty_capacity = pen;
        let k = rng.usize(1..=if most > 14 { 20 } else { 7 });
        let used = rng.usize(1..=k);
        let r = match rng.usize(0..4) {
            0 if n > 0 => packed_routes(rng, &inst, k),
            1 => {
                // one customer moved
                let mut r = ind.phenotype.clone();
                if r.iter().filter(|x| !x.is_empty()).count() >= 2 {
                    let a = (0..r.len()).find(|&a| !r[a].is_empty()).unwrap();
                    let b = (0..r.len()).rev().find(|&b| !r[b].is_empty()).unwrap();
                    let x = r[a].pop().unwrap();
                    r[b].push(x);
                    r
                } else {
                    random_routes(rng, n, k, used)
                }
            }
            _ => random_routes(rng, n, k, used),
        };
        ind.genotype = r.iter().flatten().copied().collect();
        ind.phenotype = r.clone();
        ind.evaluate(ctx);
        let cost = |x: f64| if unr { fl(x, inst.s) } else { sc(x, inst.s) };
        out.line(json!({
            "k": "ev", "R": r, "P": pen_int(&inst, pen),
            "dist": ind.evaluation.routes.iter().map(|r| cost(r.distance)).collect::<Vec<_>>(),
            "over": ind.evaluation.routes.iter().map(|r| sc(r.overload, qs)).collect::<Vec<_>>(),
            "rc": ind.evaluation.routes.iter().map(|r| cost(r.penalized_cost)).collect::<Vec<_>>(),
            "cost": cost(ind.penalized_cost()),
            "feas": ind.is_feasible(),
            "succ": (1..=n).map(|x| ind.successor(x)).collect::<Vec<_>>(),
            "pred": (1..=n).map(|x| ind.predecessor(x)).collect::<Vec<_>>(),
            "rfeas": ind.evaluation.routes.iter().map(|r| r.is_feasible()).collect::<Vec<_>>(),
        }));
    }
    unsafe { release(ctx) };
    inst
}

fn list(v: &Value) -> Vec<i64> {
    v.as_array().map_or(Vec::new(), |a| a.iter().map(|x| x.as_i64().unwrap_or(BADINT)).collect())
}

/// Looks at an evaluation; the specification judges those that look wrong here
fn suspicious(inst: &Inst, d: &[Vec<i64>], t: &Value) -> bool {
    let r = routes_json(&t["R"]);
    let p = t["P"].as_i64().unwrap();
    let over: Vec<i64> = r.iter().map(|q| sc(q.iter().map(|&x| inst.q[x]).sum::<f64>() - inst.cap, inst.qs)).collect();
    let dist: Vec<i64> = r.iter().map(|q| cost_of(inst, d, &[q.clone()], 0.0)).collect();
    let rc: Vec<i64> = dist.iter().zip(&over).map(|(d, o)| d + p * o.max(&0)).collect();
    let n = inst.n();
    let (mut succ, mut pred) = (vec![0i64; n], vec![0i64; n]);
    for q in &r {
        for w in q.windows(2) {
            succ[w[0] - 1] = w[1] as i64;
            pred[w[1] - 1] = w[0] as i64;
        }
    }
    let feas: Vec<bool> = over.iter().map(|&x| x <= 0).collect();
    list(&t["over"]) != over || list(&t["dist"]) != dist || list(&t["rc"]) != rc
        || t["cost"] != rc.iter().sum::<i64>() || t["feas"] != feas.iter().all(|&x| x) || t["rfeas"] != json!(feas)
        || list(&t["succ"]) != succ || list(&t["pred"]) != pred
}

/// Very many more evaluations, also of larger solutions
fn screen(o: &Opt, out: &mut Out) {
    let mut rng = o.rng(200);
    let (mut recorded, mut steps) = (0, 0);
    for i in 0..o.scale(240_000, 6_000_000) / o.parts as usize {
        let mut m = Out::memory();
        let inst = case(&mut rng, [13, 12, 15, 80][i % 4], 12, &mut m);
        steps += m.lines;
        if m.kept[0]["slack"] == true {
            continue;
        }
        let d = ref_dist(&inst);
        if m.kept[1..].iter().any(|t| suspicious(&inst, &d, t)) {
            eprintln!("suspicious");
            for l in m.kept {
                out.line(l);
            }
            recorded += 1;
            if recorded >= 3 {
                break;
            }
        }
    }
    out.line(json!({"k": "screened", "steps": steps}));
    out.flush();
}

fn main() {
    let o = &Opt::from_args();
    let mut out = Out::new(&o.out);
    if let Some(b) = behaviours(o) {
        replay(&mut out, &b);
        out.flush();
        return;
    }
    if o.arg("screen").is_some() {
        return screen(o, &mut out);
    }
    let mut rng = o.rng(2);
    for i in 0..o.scale(240, 4000) {
        if !o.mine(i) {
            continue;
        }
        case(&mut rng, 14, o.scale(10, 16), &mut out);
    }
    out.flush();
}
