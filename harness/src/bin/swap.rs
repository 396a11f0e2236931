//! C06: SWAP* calls, with any moves in between.
use hx::common::*;
#[path = "../links.rs"]
mod links;
use links::*;
use hybridcvrp::solver::improvement::*;

pub fn all_moves() -> Vec<Box<dyn Move>> {
    vec![
        Box::new(RelocateSingle),
        Box::new(RelocateDouble),
        Box::new(RelocateDoubleReverse),
        Box::new(SwapOneWithOne),
        Box::new(SwapTwoWithOne),
        Box::new(SwapTwoWithTwo),
        Box::new(TwoOptIntraReverse),
        Box::new(TwoOptInterReverse),
        Box::new(TwoOptInter),
    ]
}

/// Behaviours of the specification: one exchange between the first two routes
fn replay(out: &mut Out, all: &[Value]) {
    for b in all {
        let inst = inst_of(b);
        let pen = b["P"].as_i64().unwrap() as f64;
        let mut cfg = base_config(1);
        cfg.precompute_distance_size_limit = 2000;
        let ctx = context(&inst, cfg, b["N"].as_u64(), Some(pen));
        out.line(inst_json(&inst, ctx, pen));
        let mut ls = LocalSearch::new(ctx, 1.0);
        let mut r = routes_json(&b["R"]);
        unsafe {
            // both orders, each followed by the calls on what came out of it
            for (x, y) in [(0, 1), (1, 0)] {
                r[0].reverse();
                ls.reset();
                ls.load_individual(&individual(&r, 1));
                for _ in 0..3 {
                    let cur = routes_of(&ls);
                    if cur.iter().flatten().any(|&x| x < 0) || cur[0].is_empty() || cur[1].is_empty() {
                        break;
                    }
                    let pa = &mut ls.routes[x] as *mut LinkRoute;
                    let pb = &mut ls.routes[y] as *mut LinkRoute;
                    let ok = SwapStar::run(&mut ls, pa, pb);
                    out.line(json!({"k": "ss", "R": cur, "a": x + 1, "b": y + 1, "ok": ok,
                        "post": snapshot(&inst, &ls)}));
                    if !ok {
                        break;
                    }
                }
            }
        }
    }
}

/// The greatest gain of an exchange or relocation between two routes, by trying them all. Decides only
/// what is recorded for the specification to judge.
fn best_gain(inst: &Inst, d: &[Vec<i64>], a: &[usize], b: &[usize], pen: f64) -> i64 {
    let cost = |r: &[usize], extra: i64| {
        let mut at = 0;
        let mut c = extra;
        for &v in r {
            c += d[at][v];
            at = v;
        }
        c + d[at][0]
    };
    let over = |load: f64| sc((load - inst.cap).max(0.0), inst.qs) * pen_int(inst, pen);
    let insert = |r: &[usize], x: usize| {
        (0..=r.len())
            .map(|p| {
                let i = if p == 0 { 0 } else { r[p - 1] };
                let j = if p == r.len() { 0 } else { r[p] };
                d[i][x] + d[x][j] - if r.is_empty() { 0 } else { d[i][j] }
            })
            .min()
            .unwrap()
    };
    let load = |r: &[usize]| r.iter().map(|&x| inst.q[x]).sum::<f64>();
    let without = |r: &[usize], i: usize| {
        let mut q = r.to_vec();
        q.remove(i);
        q
    };
    let (la, lb) = (load(a), load(b));
    let before = cost(a, over(la)) + cost(b, over(lb));
    let mut best = i64::MAX;
    for i in 0..a.len() {
        let ra = without(a, i);
        let u = a[i];
        best = best.min(cost(&ra, 0) + cost(b, 0) + insert(b, u) + over(la - inst.q[u]) + over(lb + inst.q[u]));
        for j in 0..b.len() {
            let rb = without(b, j);
            let v = b[j];
            best = best.min(cost(&ra, 0) + insert(&ra, v) + cost(&rb, 0) + insert(&rb, u)
                + over(la - inst.q[u] + inst.q[v]) + over(lb - inst.q[v] + inst.q[u]));
        }
    }
    for j in 0..b.len() {
        let v = b[j];
        best = best.min(cost(&without(b, j), 0) + cost(a, 0) + insert(a, v) + over(lb - inst.q[v]) + over(la + inst.q[v]));
    }
    before - best
}

/// Many calls of which only the suspicious ones are recorded
fn screen(o: &Opt, out: &mut Out) {
    let mut rng = o.rng(66);
    let moves = all_moves();
    let mut recorded = 0;
    let groups = o.scale(320_000, 6_400_000) / o.parts as usize;
    let mut calls = 0;
    'all: for _ in 0..groups {
        let n = rng.usize(2..=16);
        let qs = pick(&mut rng, &[1.0, 2.0]);
        let mut inst = if rng.bool() {
            random_inst(&mut rng, n, Geo::Metric, qs, 4.0)
        } else {
            closed_euclid(&mut rng, n, qs, 4.0)
        };
        if rng.usize(0..5) == 0 {
            // zero demands, and several customers of the same
            for x in 1..=n {
                inst.q[x] = pick(&mut rng, &[0.0, 1.0, 1.0]);
            }
            inst.q[1] = 1.0;
        }
        let k = rng.usize(2..=4);
        let mut pen = pick(&mut rng, &[0.0, 0.25, 1.0, 2.0, 20.0]) * qs;
        let ctx = context(&inst, base_config(1), Some(k as u64), Some(pen));
        let d = ref_dist(&inst);
        let mut ls = LocalSearch::new(ctx, 1.0);
        for _ in 0..2 {
            let r0 = random_routes(&mut rng, n, k, k);
            pen = pick(&mut rng, &[0.0, 0.25, 1.0, 2.0, 20.0]) * qs;
            ctx.config.borrow_mut().penalty_capacity = pen;
            unsafe {
                ls.reset();
                ls.update_penalty(1.0);
                ls.load_individual(&individual(&r0, 1));
                for _ in 0..16 {
                    let cur = routes_of(&ls);
                    if cur.iter().flatten().any(|&x| x < 0) {
                        break;
                    }
                    let a = rng.usize(0..k);
                    let b = rng.usize(0..k);
                    if rng.usize(0..4) == 0 {
                        let u = rng.usize(1..=n);
                        let v = rng.usize(1..=n) as i64;
                        let m = &moves[rng.usize(0..moves.len())];
                        if v != u as i64 {
                            let pu = place(&mut ls, u as i64);
                            let pv = place(&mut ls, v);
                            let d = m.delta(&ls, pu, pv);
                            if d.abs() > 1e-6 && d.is_finite() {
                                ls.move_count += 1;
                                m.perform(&mut ls, pu, pv);
                            }
                        }
                        continue;
                    }
                    if a == b || cur[a].is_empty() || cur[b].is_empty() {
                        continue;
                    }
                    let (ra, rb) = (usizes(&cur[a]), usizes(&cur[b]));
                    let gain = best_gain(&inst, &d, &ra, &rb, pen);
                    let pa = &mut ls.routes[a] as *mut LinkRoute;
                    let pb = &mut ls.routes[b] as *mut LinkRoute;
                    let ok = SwapStar::run(&mut ls, pa, pb);
                    calls += 1;
                    let now = routes_of(&ls);
                    let fine = agrees(&inst, &d, pen, &ls) && ok == (gain > 0) && (ok || now == cur)
                        && cost_of(&inst, &d, &[ra, rb], pen) - gain.max(0)
                            == cost_of(&inst, &d, &[usizes(&now[a]), usizes(&now[b])], pen)
                        && (0..k).all(|r| r == a || r == b || now[r] == cur[r]);
                    if !fine {
                        out.line(inst_json(&inst, ctx, pen));
                        out.line(json!({"k": "ss", "R": cur, "a": a + 1, "b": b + 1, "ok": ok,
                            "post": snapshot(&inst, &ls)}));
                        recorded += 1;
                        if recorded >= 8 {
                            break 'all;
                        }
                        break;
                    }
                }
            }
        }
        drop(ls);
        unsafe { release(ctx) };
    }
    out.line(json!({"k": "screened", "calls": calls}));
    out.flush();
}

fn main() {
    let o = &Opt::from_args();
    let mut out = Out::new(&o.out);
    if let Some(b) = behaviours(o) {
        replay(&mut out, &b);
        out.flush();
        return;
    }
    if o.arg("screen").is_some() {
        return screen(o, &mut out);
    }
    let mut rng = o.rng(6);
    let moves = all_moves();
    for i in 0..o.scale(160, 2400) {
        if i as u64 % o.parts != o.part {
            continue;
        }
        let n = rng.usize(2..=12);
        let qs = pick(&mut rng, &[1.0, 1.0, 2.0]);
        let mut inst = if rng.bool() {
            random_inst(&mut rng, n, Geo::Metric, qs, 4.0)
        } else {
            closed_euclid(&mut rng, n, qs, 4.0)
        };
        if rng.usize(0..4) == 0 {
            // few different distances: many ties
            let m = n + 1;
            let mut d = vec![vec![0.0; m]; m];
            for i in 0..m {
                for j in 0..i {
                    d[i][j] = rng.i64(2..=4) as f64;
                    d[j][i] = d[i][j];
                }
            }
            inst.d = Some(d);
        }
        let k = rng.usize(2..=4);
        let pen = pick(&mut rng, &[0.0, 0.25, 1.0, 2.0, 20.0]) * qs;
        let ctx = context(&inst, base_config(1), Some(k as u64), Some(pen));
        out.line(inst_json(&inst, ctx, pen));
        let mut ls = LocalSearch::new(ctx, 1.0);
        for _ in 0..3 {
            let r0 = random_routes(&mut rng, n, k, k);
            unsafe {
                ls.reset();
                ls.load_individual(&individual(&r0, 1));
                out.line(json!({"k": "ld", "R": r0, "post": snapshot(&inst, &ls)}));
                for _ in 0..o.scale(14, 24) {
                    let cur = routes_of(&ls);
                    if cur.iter().flatten().any(|&x| x < 0) {
                        break;
                    }
                    let a = rng.usize(0..k);
                    let b = rng.usize(0..k);
                    if rng.usize(0..3) == 0 {
                        // any move in between, also worsening ones
                        let u = rng.usize(1..=n);
                        let v = rng.usize(1..=n) as i64;
                        let m = &moves[rng.usize(0..moves.len())];
                        if v != u as i64 {
                            let pu = place(&mut ls, u as i64);
                            let pv = place(&mut ls, v);
                            let d = m.delta(&ls, pu, pv);
                            if d.abs() > 1e-6 && d.is_finite() {
                                ls.move_count += 1;
                                m.perform(&mut ls, pu, pv);
                            }
                        }
                        continue;
                    }
                    if a == b || cur[a].is_empty() || cur[b].is_empty() {
                        continue;
                    }
                    let pa = &mut ls.routes[a] as *mut LinkRoute;
                    let pb = &mut ls.routes[b] as *mut LinkRoute;
                    let ok = SwapStar::run(&mut ls, pa, pb);
                    out.line(json!({"k": "ss", "R": cur, "a": a + 1, "b": b + 1, "ok": ok,
                        "post": snapshot(&inst, &ls)}));
                }
            }
        }
    }
    out.flush();
}
