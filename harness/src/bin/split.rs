//! C07: splits of customer sequences.
use hx::common::*;
use hybridcvrp::solver::genetic::{Individual, Split};

/// Splits of the inputs given by the specification
fn replay(o: &Opt, out: &mut Out, all: &[Value]) {
    for (x, v) in all.iter().enumerate() {
        let inst = inst_of(v);
        let n = inst.q.len() - 1;
        let mut cfg = base_config(1);
        let fac = [(1, 1), (3, 2)][(x + o.seed as usize) % 2];
        cfg.split_capacity_factor = fac.0 as f64 / fac.1 as f64;
        let ctx = context(&inst, cfg, Some(n as u64), Some(0.25));
        let mut head = inst_json(&inst, ctx, 0.25);
        head["fac"] = json!([fac.0, fac.1]);
        out.line(head);
        let pen = v["pen"].as_i64().unwrap() as f64;
        let k = v["lim"].as_u64().unwrap();
        ctx.config.borrow_mut().penalty_capacity = pen;
        let mut split = Split::new(ctx);
        let g: Vec<usize> = (1..=n).collect();
        let mut ind = Individual::new(g.clone(), n as u64);
        for linear in [true, false] {
            ctx.config.borrow_mut().linear_split = linear;
            ind.genotype = g.clone();
            split.run(ctx, &mut ind, k);
            out.line(json!({
                "k": "sp", "G": g, "K": k, "lin": linear, "P": pen_int(&inst, pen),
                "R": ind.phenotype, "geno": ind.genotype, "ev": eval_json(&inst, &ind),
            }));
        }
    }
    out.flush();
}

/// Cost of the cheapest split into at most k routes, by the plain recursion. Decides only what is
/// recorded for the specification to judge.
fn cheapest(inst: &Inst, d: &[Vec<i64>], g: &[usize], k: usize, pen: f64, limit: i64) -> Option<i64> {
    let n = g.len();
    let p = pen_int(inst, pen);
    let cap = sc(inst.cap, inst.qs);
    let inf = i64::MAX / 4;
    let mut f = vec![inf; n + 1];
    f[0] = 0;
    for _ in 0..k {
        let mut h = f.clone();
        for i in 0..n {
            if f[i] >= inf {
                continue;
            }
            let (mut len, mut load, mut at) = (0, 0, 0);
            for j in i + 1..=n {
                let x = g[j - 1];
                len += d[at][x];
                load += sc(inst.q[x], inst.qs);
                at = x;
                if limit >= 0 && load > limit {
                    break;
                }
                h[j] = h[j].min(f[i] + len + d[at][0] + p * (load - cap).max(0));
            }
        }
        if h == f {
            break;
        }
        f = h;
    }
    if f[n] < inf { Some(f[n]) } else { None }
}

/// Many splits of which only the suspicious ones are recorded
fn screen(o: &Opt, out: &mut Out) {
    let mut rng = o.rng(77);
    let mut recorded = 0;
    let mut runs = 0;
    let groups = o.scale(240_000, 6_000_000) / o.parts as usize;
    for _ in 0..groups {
        let n = match rng.usize(0..8) { 0 | 1 => rng.usize(1..=4), 7 => rng.usize(25..=40), _ => rng.usize(4..=24) };
        let qs = pick(&mut rng, &[1.0, 2.0]);
        let geo = pick(&mut rng, &[Geo::Euclid, Geo::Arbitrary, Geo::Metric, Geo::Clustered, Geo::Degenerate]);
        let mut inst = random_inst(&mut rng, n, geo, qs, 4.0);
        if rng.usize(0..3) == 0 {
            for x in 1..=n {
                inst.q[x] = (inst.cap * qs * pick(&mut rng, &[0.55, 0.6, 0.4, 0.9, 1.0])).floor() / qs;
            }
            if inst.total() == 0.0 {
                inst.q[1] = inst.cap;
            }
        }
        let mut cfg = base_config(1);
        let fac = pick(&mut rng, &[(3, 2), (1, 1), (2, 1), (5, 4)]);
        cfg.split_capacity_factor = fac.0 as f64 / fac.1 as f64;
        let unit = qs / 4.0;
        let fleet = if rng.bool() { None } else { Some(inst.lb() + rng.u64(0..=2)) };
        let ctx = context(&inst, cfg, fleet, Some(unit));
        let fleet = ctx.config.borrow().num_vehicles;
        let d = ref_dist(&inst);
        let mut split = Split::new(ctx);
        let mut ind = Individual::empty();
        for _ in 0..6 {
            let pen = unit * pick(&mut rng, &[0.0, 1.0, 2.0, 8.0, 100.0, 1000.0]);
            ctx.config.borrow_mut().penalty_capacity = pen;
            let mut g: Vec<usize> = (1..=n).collect();
            rng.shuffle(&mut g);
            let k = match rng.usize(0..4) {
                0 => 1,
                1 => fleet,
                2 => inst.lb().min(fleet),
                _ => rng.u64(1..=fleet),
            };
            let linear = rng.usize(0..3) != 0;
            ctx.config.borrow_mut().linear_split = linear;
            if rng.bool() {
                ind = Individual::new(g.clone(), 3);
            } else {
                ind.genotype = g.clone();
            }
            runs += 1;
            split.run(ctx, &mut ind, k);
            let limit = inst.lb().max(k) as usize;
            let capped = (sc(inst.cap, inst.qs) * fac.0 as i64).div_euclid(fac.1 as i64);
            let want = if linear { None } else { cheapest(&inst, &d, &g, limit, pen, capped) }
                .or_else(|| cheapest(&inst, &d, &g, limit, pen, -1));
            let used: Vec<&Vec<usize>> = ind.phenotype.iter().filter(|r| !r.is_empty()).collect();
            let flat: Vec<usize> = ind.phenotype.iter().flatten().cloned().collect();
            let pieces = used.iter().all(|r| g.windows(r.len()).any(|w| w == r.as_slice()));
            let total = cost_of(&inst, &d, &ind.phenotype, pen);
            let mut sorted = flat.clone();
            sorted.sort();
            let feasible = ind.phenotype.iter().all(|r| r.iter().map(|&x| inst.q[x]).sum::<f64>() <= inst.cap);
            let fine = Some(total) == want && used.len() <= limit && ind.phenotype.len() as u64 == fleet
                && flat == ind.genotype && pieces && sorted.iter().cloned().eq(1..=n)
                && sc(ind.penalized_cost(), inst.s) == total && ind.is_feasible() == feasible;
            if !fine {
                let mut head = inst_json(&inst, ctx, unit);
                head["fac"] = json!([fac.0, fac.1]);
                out.line(head);
                out.line(json!({
                    "k": "sp", "G": g, "K": k, "lin": linear, "P": pen_int(&inst, pen),
                    "R": ind.phenotype, "geno": ind.genotype, "ev": eval_json(&inst, &ind),
                }));
                recorded += 1;
                break;
            }
        }
        if recorded >= 6 {
            break;
        }
        drop(split);
        unsafe { release(ctx) };
    }
    out.line(json!({"k": "screened", "runs": runs}));
    out.flush();
}

fn main() {
    let o = &Opt::from_args();
    let mut out = Out::new(&o.out);
    if let Some(b) = behaviours(o) {
        replay(o, &mut out, &b);
        return;
    }
    if o.arg("screen").is_some() {
        return screen(o, &mut out);
    }
    let mut rng = o.rng(7);
    for i in 0..o.scale(160, 3200) {
        if !o.mine(i) {
            continue;
        }
        let n = match rng.usize(0..8) {
            0 => rng.usize(1..=3),
            1..=5 => rng.usize(4..=8),
            _ => rng.usize(9..=14),
        };
        let qs = pick(&mut rng, &[1.0, 1.0, 2.0]);
        let geo = pick(&mut rng, &[Geo::Euclid, Geo::Arbitrary, Geo::Metric, Geo::Clustered, Geo::Degenerate]);
        let mut inst = random_inst(&mut rng, n, geo, qs, 4.0);
        if rng.usize(0..3) == 0 {
            // large customers: no packing at the lower bound
            for x in 1..=n {
                inst.q[x] = (inst.cap * qs * pick(&mut rng, &[0.55, 0.6, 0.4, 0.9, 1.0])).floor() / qs;
            }
            if inst.total() == 0.0 {
                inst.q[1] = inst.cap;
            }
        }
        let mut cfg = base_config(1);
        let fac = pick(&mut rng, &[(3, 2), (1, 1), (2, 1), (5, 4)]);
        cfg.split_capacity_factor = fac.0 as f64 / fac.1 as f64;
        cfg.precompute_distance_size_limit = pick(&mut rng, &[0, 2000]);
        let unit = qs / 4.0;
        let fleet = if rng.bool() { None } else { Some(inst.lb() + rng.u64(0..=2)) };
        let ctx = context(&inst, cfg, fleet, Some(unit));
        let fleet = ctx.config.borrow().num_vehicles;
        let mut head = inst_json(&inst, ctx, unit);
        head["fac"] = json!([fac.0, fac.1]);
        out.line(head);
        let mut split = Split::new(ctx);
        let mut ind = Individual::empty();
        for _ in 0..o.scale(8, 14) {
            let pen = unit * pick(&mut rng, &[0.0, 1.0, 2.0, 8.0, 100.0, 1000.0]);
            ctx.config.borrow_mut().penalty_capacity = pen;
            let mut g: Vec<usize> = (1..=n).collect();
            rng.shuffle(&mut g);
            let k = match rng.usize(0..4) {
                0 => 1,
                1 => fleet,
                2 => inst.lb().min(fleet),
                _ => rng.u64(1..=fleet),
            };
            let linear = rng.usize(0..3) != 0;
            ctx.config.borrow_mut().linear_split = linear;
            if rng.bool() {
                ind = Individual::new(g.clone(), 3);
            } else {
                ind.genotype = g.clone();
            }
            out.flush();
            split.run(ctx, &mut ind, k);
            out.line(json!({
                "k": "sp", "G": g, "K": k, "lin": linear, "P": pen_int(&inst, pen),
                "R": ind.phenotype, "geno": ind.genotype, "ev": eval_json(&inst, &ind),
            }));
        }
    }
    out.flush();
}
