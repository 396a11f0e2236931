//! C05: whole local searches.
use std::cell::RefCell;
use std::rc::Rc;

use hx::common::*;
#[path = "../links.rs"]
mod links;
use links::*;
use hybridcvrp::config::Config;
use hybridcvrp::solver::Context;
use hybridcvrp::solver::improvement::*;

type Log = Rc<RefCell<Vec<Value>>>;

struct LogMove {
    inner: Box<dyn Move>,
    log: Log,
}

impl Move for LogMove {
    fn move_name(&self) -> &'static str {
        self.inner.move_name()
    }
    unsafe fn delta(&self, ls: &LocalSearch, u: *mut LinkNode, v: *mut LinkNode) -> f64 {
        self.inner.delta(ls, u, v)
    }
    unsafe fn perform(&self, ls: &mut LocalSearch, u: *mut LinkNode, v: *mut LinkNode) {
        let a = routes_of(ls);
        let (pu, pv) = (place_of(ls, u), place_of(ls, v));
        self.inner.perform(ls, u, v);
        let b = routes_of(ls);
        if self.log.borrow().len() > 20_000 {
            panic!("more than 20000 moves in one local search");
        }
        self.log.borrow_mut().push(
            json!({"m": self.inner.move_name(), "u": pu, "v": pv, "a": a, "b": b}),
        );
    }
}

pub fn wrap_moves(ls: &mut LocalSearch, log: &Log) {
    let wrap = |v: &mut Vec<Box<dyn Move>>| {
        let old = std::mem::take(v);
        for m in old {
            v.push(Box::new(LogMove {
                inner: m,
                log: log.clone(),
            }));
        }
    };
    wrap(&mut ls.moves.neighbor);
    wrap(&mut ls.moves.depot);
    wrap(&mut ls.moves.empty_route);
}

fn enabled(c: &Config) -> Vec<&'static str> {
    let mut v = Vec::new();
    if c.relocate_single {
        v.push("RelocateSingle")
    }
    if c.relocate_double {
        v.push("RelocateDouble")
    }
    if c.relocate_double_reverse {
        v.push("RelocateDoubleReverse")
    }
    if c.swap_one_with_one {
        v.push("SwapOneWithOne")
    }
    if c.swap_two_with_one {
        v.push("SwapTwoWithOne")
    }
    if c.swap_two_with_two {
        v.push("SwapTwoWithTwo")
    }
    if c.two_opt_intra_reverse {
        v.push("TwoOptIntraReverse")
    }
    if c.two_opt_inter_reverse {
        v.push("TwoOptInterReverse")
    }
    if c.two_opt_inter {
        v.push("TwoOptInter")
    }
    v
}

fn head(inst: &Inst, ctx: &Context, cfg: &Config, pen: f64) -> Value {
    let n = inst.n();
    let mut head = inst_json(inst, ctx, pen);
    let nb: Vec<Vec<usize>> = (1..=n)
        .map(|u| {
            let c = ctx.matrix_provider.correlation.get(u);
            c[..c.len().min(cfg.local_search_granularity as usize)].to_vec()
        })
        .collect();
    head["nb"] = json!(nb);
    head["mv"] = json!(enabled(cfg));
    head["ss"] = json!(cfg.swap_star);
    head["gran"] = json!(cfg.local_search_granularity);
    head
}

fn searched(ls: &mut LocalSearch, log: &Log, inst: &Inst, ctx: &Context, r0: &Vec<Vec<usize>>, pen: f64, mult: f64) -> Value {
    let mut ind = individual(r0, 7);
    ind.evaluate(ctx);
    log.borrow_mut().clear();
    ls.run(ctx, &mut ind, mult);
    let last = unsafe { routes_of(ls) };
    json!({
        "k": "run", "R0": r0, "P": pen_int(inst, pen * mult), "steps": log.borrow().clone(),
        "last": last, "R": ind.phenotype, "geno": ind.genotype, "ev": eval_json(inst, &ind),
    })
}

fn run(out: &mut Out, ls: &mut LocalSearch, log: &Log, inst: &Inst, ctx: &Context, r0: &Vec<Vec<usize>>, pen: f64, mult: f64) -> Vec<Vec<usize>> {
    let line = searched(ls, log, inst, ctx, r0, pen, mult);
    let r = routes_json(&line["R"]);
    out.line(line);
    r
}

fn moves_named(cfg: &Config, skip: &[&str]) -> Vec<Box<dyn Move>> {
    let all: Vec<Box<dyn Move>> = vec![
        Box::new(RelocateSingle),
        Box::new(RelocateDouble),
        Box::new(RelocateDoubleReverse),
        Box::new(SwapOneWithOne),
        Box::new(SwapTwoWithOne),
        Box::new(SwapTwoWithTwo),
        Box::new(TwoOptIntraReverse),
        Box::new(TwoOptInterReverse),
        Box::new(TwoOptInter),
    ];
    let names = ["RelocateSingle", "RelocateDouble", "RelocateDoubleReverse", "SwapOneWithOne", "SwapTwoWithOne",
        "SwapTwoWithTwo", "TwoOptIntraReverse", "TwoOptInterReverse", "TwoOptInter"];
    let on = enabled(cfg);
    names.iter().zip(all).filter(|(n, _)| on.contains(n) && !skip.contains(n)).map(|x| x.1).collect()
}

/// Few different distances, of which any are metric: many moves leave the length of a route as it is
fn flat(rng: &mut fastrand::Rng, n: usize, qs: f64, s: f64) -> Inst {
    let mut inst = random_inst(rng, n, Geo::Metric, qs, s);
    let unit = pick(rng, &[1.0, 5.0]);
    let mut d = vec![vec![0.0; n + 1]; n + 1];
    for i in 0..=n {
        for j in 0..i {
            d[i][j] = if rng.usize(0..4) == 0 { 2.0 * unit } else { unit };
            d[j][i] = d[i][j];
        }
    }
    inst.d = Some(d);
    inst
}

/// Distances, and penalties, of the order of millions
fn huge(rng: &mut fastrand::Rng, n: usize) -> Inst {
    let mut inst = random_inst(rng, n, Geo::Metric, 1.0, 1.0);
    for x in inst.d.as_mut().unwrap().iter_mut().flatten() {
        *x *= 100_000.0;
    }
    for q in inst.q[1..].iter_mut() {
        *q = rng.u64(1..=3) as f64;
    }
    inst.cap = (inst.total() / rng.u64(2..=3) as f64).ceil().max(3.0);
    inst
}

/// Whether a move that the search should have made seems to be left. Decides only which of the many
/// searches are recorded, and judged by the specification.
unsafe fn suspicious(ls: &mut LocalSearch, cfg: &Config, ctx: &Context, changed: bool, worse: bool) -> bool {
    let eps = -1e-4;
    let swaps = ["SwapOneWithOne", "SwapTwoWithOne", "SwapTwoWithTwo", "TwoOptIntraReverse"];
    let neighbor = moves_named(cfg, &[]);
    let depot = moves_named(cfg, &swaps);
    let empty = moves_named(cfg, &[&swaps[..], &["TwoOptInterReverse"]].concat());
    let n = ls.nodes.len() - 1;
    for u in 1..=n {
        let pu = &mut ls.nodes[u] as *mut LinkNode;
        let c = ctx.matrix_provider.correlation.get(u);
        for &v in &c[..c.len().min(cfg.local_search_granularity as usize)] {
            let pv = &mut ls.nodes[v] as *mut LinkNode;
            if neighbor.iter().any(|m| m.delta(ls, pu, pv) < eps) {
                return true;
            }
            let d = (*pv).predecessor;
            if (*d).is_depot() && depot.iter().any(|m| m.delta(ls, pu, d) < eps) {
                return true;
            }
        }
    }
    if cfg.swap_star && changed {
        for r in 0..ls.routes.len() {
            if !ls.routes[r].is_empty() {
                continue;
            }
            let d = ls.routes[r].start_depot;
            for u in 1..=n {
                let pu = &mut ls.nodes[u] as *mut LinkNode;
                if empty.iter().any(|m| m.delta(ls, pu, d) < eps) {
                    return true;
                }
            }
        }
    }
    if cfg.swap_star {
        for a in 0..ls.routes.len() {
            for b in a + 1..ls.routes.len() {
                let (pa, pb) = (&mut ls.routes[a] as *mut LinkRoute, &mut ls.routes[b] as *mut LinkRoute);
                if !(*pa).is_empty() && !(*pb).is_empty() && (*pa).sector.overlaps(&(*pb).sector) && SwapStar::run(ls, pa, pb) {
                    return true;
                }
            }
        }
    }
    worse
}

/// Many searches of which only the suspicious ones are recorded
fn screen(o: &Opt, out: &mut Out) {
    let mut rng = o.rng(6);
    let mut recorded = 0;
    let runs = o.scale(80_000, 1_600_000) / o.parts as usize;
    for _ in 0..runs {
        let n = rng.usize(4..=18);
        let qs = pick(&mut rng, &[1.0, 2.0]);
        let kind = rng.usize(0..6);
        let inst = match kind {
            5 => flat(&mut rng, n, qs, 4.0),
            0 => random_inst(&mut rng, n, Geo::Arbitrary, qs, 4.0),
            1 => random_inst(&mut rng, n, Geo::Metric, qs, 4.0),
            _ => closed_euclid(&mut rng, n, qs, 4.0),
        };
        let metric = kind != 0;
        let d = ref_dist(&inst);
        let mut cfg = base_config(rng.u64(0..1_000_000));
        cfg.local_search_granularity = pick(&mut rng, &[3, 5, 8, 20]);
        cfg.relocate_double_reverse = rng.usize(0..3) == 0;
        if rng.usize(0..3) == 0 {
            cfg.swap_two_with_one = rng.bool();
            cfg.swap_two_with_two = rng.bool();
            cfg.two_opt_inter_reverse = rng.bool();
            cfg.two_opt_inter = rng.bool();
        }
        let fleet = inst.lb() as usize + rng.usize(0..=3);
        let pen = pick(&mut rng, &[0.5, 1.0, 3.0, 10.0]) * qs;
        let ctx = context(&inst, cfg.clone(), Some(fleet as u64), Some(pen));
        let log: Log = Rc::new(RefCell::new(Vec::new()));
        let mut ls = LocalSearch::new(ctx, 1.0);
        wrap_moves(&mut ls, &log);
        let mut lines: Vec<Value> = Vec::new();
        for j in 0..3 {
            let r0 = if rng.usize(0..3) == 0 {
                packed_routes(&mut rng, &inst, fleet)
            } else {
                let k = rng.usize(1..=fleet);
                random_routes(&mut rng, n, fleet, k)
            };
            let mult = if j % 2 == 1 { 10.0 } else { 1.0 };
            let line = searched(&mut ls, &log, &inst, ctx, &r0, pen, mult);
            let (from, to) = (cost_of(&inst, &d, &r0, pen * mult), cost_of(&inst, &d, &routes_json(&line["R"]), pen * mult));
            let changed = line["last"] != line["R0"];
            lines.push(line);
            let mut c2 = cfg.clone();
            c2.swap_star &= metric;
            if unsafe { suspicious(&mut ls, &c2, ctx, changed, to > from) } {
                out.line(head(&inst, ctx, &cfg, pen));
                for l in lines.drain(..) {
                    out.line(l);
                }
                recorded += 1;
                break;
            }
        }
        drop(ls);
        unsafe { release(ctx) };
        if recorded >= 5 {
            break;
        }
    }
    out.line(json!({"k": "screened", "runs": runs}));
    out.flush();
}

/// Searches from the solutions given by the specification
fn replay(o: &Opt, out: &mut Out, all: &[Value]) {
    let mut last: Option<(String, Inst, &'static Context, Config, LocalSearch, Log, f64)> = None;
    for (x, v) in all.iter().enumerate() {
        let key = json!([v["xy"], v["q"], v["cap"], v["P"], v["mv"], v["ss"]]).to_string();
        // the same local search object goes on with the next solution
        if last.as_ref().map_or(true, |l| l.0 != key) {
            let inst = inst_of(v);
            let mut cfg = base_config(o.seed * 1000 + x as u64);
            cfg.local_search_granularity = v["gran"].as_u64().unwrap();
            let names: Vec<&str> = v["mv"].as_array().unwrap().iter().map(|m| m.as_str().unwrap()).collect();
            let has = |m: &str| names.contains(&m);
            cfg.relocate_single = has("RelocateSingle");
            cfg.relocate_double = has("RelocateDouble");
            cfg.relocate_double_reverse = has("RelocateDoubleReverse");
            cfg.swap_one_with_one = has("SwapOneWithOne");
            cfg.swap_two_with_one = has("SwapTwoWithOne");
            cfg.swap_two_with_two = has("SwapTwoWithTwo");
            cfg.two_opt_intra_reverse = has("TwoOptIntraReverse");
            cfg.two_opt_inter_reverse = has("TwoOptInterReverse");
            cfg.two_opt_inter = has("TwoOptInter");
            cfg.swap_star = v["ss"].as_bool().unwrap();
            let pen = v["P"].as_i64().unwrap() as f64;
            let ctx = context(&inst, cfg.clone(), Some(v["N"].as_u64().unwrap()), Some(pen));
            let log: Log = Rc::new(RefCell::new(Vec::new()));
            let mut ls = LocalSearch::new(ctx, 1.0);
            wrap_moves(&mut ls, &log);
            out.line(head(&inst, ctx, &cfg, pen));
            last = Some((key, inst, ctx, cfg, ls, log, pen));
        }
        let (_, inst, ctx, _, ls, log, pen) = last.as_mut().unwrap();
        run(out, ls, log, inst, ctx, &routes_json(&v["R"]), *pen, 1.0);
    }
    out.flush();
}

fn main() {
    let o = &Opt::from_args();
    let mut out = Out::new(&o.out);
    if let Some(b) = behaviours(o) {
        replay(o, &mut out, &b);
        return;
    }
    if o.arg("screen").is_some() {
        screen(o, &mut out);
        return;
    }
    let mut rng = o.rng(5);
    for i in 0..o.scale(88, 1200) {
        if i as u64 % o.parts != o.part {
            continue;
        }
        let n = match rng.usize(0..10) {
            0 => rng.usize(1..=3),
            1..=6 => rng.usize(4..=9),
            _ => rng.usize(10..=14),
        };
        let qs = pick(&mut rng, &[1.0, 1.0, 2.0]);
        let kind = rng.usize(0..8);
        let qs = if kind == 7 { 1.0 } else { qs };
        let inst = match kind {
            6 => flat(&mut rng, n, qs, 4.0),
            7 => huge(&mut rng, n.min(9)),
            0 => random_inst(&mut rng, n, Geo::Degenerate, qs, 4.0),
            1 => random_inst(&mut rng, n, Geo::Arbitrary, qs, 4.0),
            2 => random_inst(&mut rng, n, Geo::Metric, qs, 4.0),
            _ => closed_euclid(&mut rng, n, qs, 4.0),
        };
        let mut cfg = base_config(rng.u64(0..1_000_000));
        cfg.local_search_granularity = pick(&mut rng, &[3, 5, 8, 20]);
        match rng.usize(0..4) {
            // all moves
            0 => cfg.relocate_double_reverse = true,
            // a few of them
            1 => {
                cfg.relocate_single = rng.bool();
                cfg.relocate_double = rng.bool();
                cfg.relocate_double_reverse = rng.bool();
                cfg.swap_one_with_one = rng.bool();
                cfg.swap_two_with_one = rng.bool();
                cfg.swap_two_with_two = rng.bool();
                cfg.two_opt_intra_reverse = rng.bool();
                cfg.two_opt_inter_reverse = rng.bool();
                cfg.two_opt_inter = rng.bool();
                cfg.swap_star = rng.usize(0..4) != 0;
            }
            // SWAP* alone
            2 if rng.usize(0..3) == 0 => {
                cfg.relocate_single = false;
                cfg.relocate_double = false;
                cfg.swap_one_with_one = false;
                cfg.swap_two_with_one = false;
                cfg.swap_two_with_two = false;
                cfg.two_opt_intra_reverse = false;
                cfg.two_opt_inter_reverse = false;
                cfg.two_opt_inter = false;
            }
            _ => {}
        }
        let fleet = (inst.lb() as usize + rng.usize(0..=2)).max(rng.usize(1..=3));
        let n = inst.n();
        let pen = if kind == 7 {
            pick(&mut rng, &[1_500_000.0, 4_000_000.0])
        } else {
            pick(&mut rng, &[0.0, 0.5, 1.0, 3.0, 20.0]) * qs
        };
        let ctx = context(&inst, cfg.clone(), Some(fleet as u64), Some(pen));
        out.line(head(&inst, ctx, &cfg, pen));
        let log: Log = Rc::new(RefCell::new(Vec::new()));
        let mut ls = LocalSearch::new(ctx, 1.0);
        wrap_moves(&mut ls, &log);
        let mut prev: Option<Vec<Vec<usize>>> = None;
        for j in 0..o.scale(5, 8) {
            let r0 = match (j, &prev) {
                // the result of the search before: nothing or little is left to do
                (2, Some(p)) => p.clone(),
                (3, _) => packed_routes(&mut rng, &inst, fleet),
                _ => random_routes(&mut rng, n, fleet, fleet),
            };
            let mult = if j % 2 == 1 { 10.0 } else { 1.0 };
            out.flush();
            let r = run(&mut out, &mut ls, &log, &inst, ctx, &r0, pen, mult);
            prev = Some(r);
        }
    }
    out.flush();
}

