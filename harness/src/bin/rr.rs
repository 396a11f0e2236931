//! C09, C10: ruin-and-recreate searches, step by step.
use std::cell::RefCell;
use std::rc::Rc;

use hx::common::*;
use hybridcvrp::solver::improvement::{Recreate, Ruin, RuinRecreate, RuinRecreateSolution};
use hybridcvrp::solver::Context;

type Log = Rc<RefCell<Vec<Value>>>;

struct Spy<T: ?Sized> {
    inner: Box<T>,
    log: Log,
    s: f64,
    qs: f64,
    /// checks instead of a log
    watch: Option<Rc<RefCell<Watch>>>,
}

type Routes = Vec<Vec<usize>>;

/// Checks the steps of a search instead of writing them down. Decides only which searches are run
/// again and recorded, for the specification to judge.
#[derive(Default)]
struct Watch {
    inst: Inst,
    d: Vec<Vec<i64>>,
    cavg: usize,
    lmax: usize,
    zero: bool,
    /// the first thing that looks wrong
    bad: Option<&'static str>,
    cur: Routes,
    cand: Option<(Routes, f64)>,
    best: Vec<Routes>,
    pre: Routes,
    mid: Routes,
    removed: Vec<usize>,
    ruined: Vec<usize>,
    steps: usize,
    total: usize,
    up: bool,
    pen: f64,
}

fn plain(sol: &RuinRecreateSolution) -> Routes {
    sol.routes.iter().map(|r| r.nodes.clone()).collect()
}

impl Watch {
    fn check(&mut self, ok: bool, what: &'static str) {
        if !ok && self.bad.is_none() {
            self.bad = Some(what);
        }
    }

    fn length(&self, r: &[usize]) -> i64 {
        let mut at = 0;
        let mut c = 0;
        for &v in r {
            c += self.d[at][v];
            at = v;
        }
        c + self.d[at][0]
    }

    fn load(&self, r: &[usize]) -> f64 {
        r.iter().map(|&x| self.inst.q[x]).sum()
    }

    fn cost(&self, r: &Routes, pen: f64) -> i64 {
        cost_of(&self.inst, &self.d, r, pen)
    }

    fn values(&self, sol: &RuinRecreateSolution, pen: Option<f64>) -> bool {
        let (s, qs) = (self.inst.s, self.inst.qs);
        let parts = sol.routes.iter().all(|r| sc(r.distance, s) == self.length(&r.nodes)
            && sc(r.overload, qs) == sc(self.load(&r.nodes) - self.inst.cap, qs));
        parts && match pen {
            None => true,
            Some(p) => sc(sol.cost, s) == self.cost(&plain(sol), p)
                && sol.unassigned.is_empty() && sol.ruined_routes.is_empty()
                && sol.routes.iter().enumerate().all(|(k, r)| r.nodes.iter().enumerate()
                    .all(|(i, &x)| sol.locations[x].route_index == k && sol.locations[x].node_index == i))
                && whole(&plain(sol), self.inst.n()),
        }
    }

    /// the search is at r now, the open candidate was accepted or not
    fn settle(&mut self, r: &Routes) {
        if let Some((cand, pen)) = self.cand.take() {
            let better = self.cost(&cand, pen) < self.cost(&self.cur, pen);
            let yes = *r == cand && (better || !self.zero);
            let no = *r == self.cur && !better;
            self.check(yes || no, "acceptance");
            if yes {
                let c = self.cost(&cand, pen);
                let dearer: Vec<bool> = self.best.iter().map(|b| self.cost(b, pen) > c).collect();
                let tie = self.best.iter().any(|b| self.cost(b, pen) >= c);
                let mut i = 0;
                self.best.retain(|_| { i += 1; no || !dearer[i - 1] });
                if tie && !self.best.contains(&cand) && self.best.len() < 200 {
                    self.best.push(cand);
                }
            }
            self.cur = r.clone();
        } else {
            let same = *r == self.cur;
            self.check(same, "current");
        }
    }

    fn ruined(&mut self, pre: &Routes, sol: &RuinRecreateSolution) {
        let mid = plain(sol);
        let n = self.inst.n();
        let half_up = |a: usize, b: usize| (2 * a + b) / (2 * b);
        let bound = half_up(n, pre.len()).min(self.lmax);
        let most = ((4 * self.cavg + bound) / (1 + bound)).saturating_sub(1).max(1);
        let missing = |k: usize| -> Vec<usize> { (0..pre[k].len()).filter(|&p| !mid[k].contains(&pre[k][p])).collect() };
        let mut changed = Vec::new();
        let mut gone = Vec::new();
        let mut shape = mid.len() == pre.len();
        for k in 0..pre.len().min(mid.len()) {
            if mid[k] != pre[k] {
                changed.push(k);
                let m = missing(k);
                let runs = m.iter().filter(|&&p| !m.contains(&(p + 1))).count();
                let rest: Vec<usize> = pre[k].iter().cloned().filter(|x| mid[k].contains(x)).collect();
                shape &= rest == mid[k] && m.len() <= bound.max(1) && runs <= 2;
                gone.extend(m.iter().map(|&p| pre[k][p]));
            }
        }
        let mut un = sol.unassigned.clone();
        un.sort();
        gone.sort();
        let mut ru: Vec<usize> = sol.ruined_routes.iter().cloned().collect();
        ru.sort();
        let near = shape && (changed.is_empty() || (1..=n).any(|c| {
            let nearest = |k: usize| pre[k].iter().filter(|&&x| x != c).map(|&x| self.d[c][x]).min();
            changed.iter().all(|&k| match nearest(k) {
                None => false,
                Some(dk) => {
                    let m = missing(k);
                    let runs = m.iter().filter(|&&p| !m.contains(&(p + 1))).count();
                    (0..pre.len()).all(|j| changed.contains(&j) || nearest(j).map_or(true, |dj| dk <= dj))
                        && pre[k].iter().enumerate().any(|(p, &x)| x != c && self.d[c][x] == dk
                            && p <= *m.last().unwrap() && (runs < 2 || p >= m[0]))
                }
            })
        }));
        let ok = self.values(sol, None);
        self.check(ok, "values after the ruin");
        self.check(shape, "strings");
        self.check(changed.len() <= most, "number of routes");
        self.check(n < 2 || !changed.is_empty(), "nothing removed");
        self.check(un == gone, "removed");
        self.check(ru == changed, "ruined");
        self.check(near, "around a seed");
        self.pre = pre.clone();
        self.mid = mid;
        self.removed = un;
        self.ruined = ru;
    }

    fn recreated(&mut self, sol: &RuinRecreateSolution, pen: f64) {
        let ok = self.values(sol, Some(pen));
        self.check(ok, "values after the recreation");
        let post = plain(sol);
        let without = |r: &Routes, out: &dyn Fn(usize) -> bool| -> Routes {
            r.iter().map(|q| q.iter().cloned().filter(|&x| !out(x)).collect()).collect()
        };
        let same = without(&post, &|x| self.removed.contains(&x)) == self.mid;
        self.check(same, "places");
        if same && ok && self.removed.len() <= 20 {
            let found = self.explained(&post, pen, 0, &mut Default::default(), &without);
            self.check(found, "cheapest insertion");
        }
        self.cand = Some((post, pen));
        self.steps += 1;
        self.total += 1;
    }

    /// Whether the customers not in the set can be inserted in some order, each at a cheapest place
    fn explained(&self, post: &Routes, pen: f64, set: u32, seen: &mut std::collections::HashSet<u32>,
                 without: &dyn Fn(&Routes, &dyn Fn(usize) -> bool) -> Routes) -> bool {
        if set + 1 == 1 << self.removed.len() {
            return true;
        }
        if !seen.insert(set) {
            return false;
        }
        let inset = |x: usize| self.removed.iter().position(|&y| y == x).map_or(true, |i| set >> i & 1 == 1);
        let now = without(post, &|x| !inset(x));
        let p = pen_int(&self.inst, pen);
        for (i, &c) in self.removed.iter().enumerate() {
            if set >> i & 1 == 1 {
                continue;
            }
            let k = post.iter().position(|r| r.contains(&c)).unwrap();
            let at = post[k].iter().take_while(|&&x| x != c).filter(|&&x| inset(x)).count();
            let detour = |r: &[usize], j: usize| {
                let a = if j == 0 { 0 } else { r[j - 1] };
                let b = if j == r.len() { 0 } else { r[j] };
                self.d[a][c] + self.d[c][b] - self.d[a][b]
            };
            let best = |j: usize| (0..=now[j].len()).map(|x| detour(&now[j], x)).min().unwrap();
            let room = |j: usize| self.load(&now[j]) + self.inst.q[c] <= self.inst.cap + 1e-9;
            let aff = |j: usize| self.ruined.contains(&j) || post[j].iter().any(|x| *x != c && self.removed.contains(x) && inset(*x));
            let over = |j: usize| p * sc((self.load(&now[j]) + self.inst.q[c] - self.inst.cap).max(0.0), self.inst.qs);
            let mine = detour(&now[k], at);
            let some = (0..now.len()).any(|j| aff(j) && room(j));
            let ok = if some {
                aff(k) && room(k) && (0..now.len()).all(|j| !(aff(j) && room(j)) || mine <= best(j))
            } else {
                (0..now.len()).all(|j| mine + over(k) <= best(j) + over(j))
            };
            if ok && self.explained(post, pen, set | 1 << i, seen, without) {
                return true;
            }
        }
        false
    }
}

fn whole(r: &Routes, n: usize) -> bool {
    let mut all: Vec<usize> = r.iter().flatten().cloned().collect();
    all.sort();
    all.into_iter().eq(1..=n)
}

/// A solution of the search as it is held, with its incrementally kept values
fn shot(sol: &RuinRecreateSolution, s: f64, qs: f64, full: bool) -> Value {
    let mut v = json!({
        "R": sol.routes.iter().map(|r| &r.nodes).collect::<Vec<_>>(),
        "dist": sol.routes.iter().map(|r| sc(r.distance, s)).collect::<Vec<_>>(),
        "over": sol.routes.iter().map(|r| sc(r.overload, qs)).collect::<Vec<_>>(),
        "un": sol.unassigned.len(),
        "ru": sol.ruined_routes.len(),
    });
    if full {
        v["cost"] = json!(sc(sol.cost, s));
        v["loc"] = json!(sol
            .locations
            .iter()
            .skip(1)
            .map(|l| [l.route_index + 1, l.node_index + 1])
            .collect::<Vec<_>>());
    }
    v
}

impl Ruin for Spy<dyn Ruin> {
    fn run(&self, ctx: &Context, solution: &mut RuinRecreateSolution) {
        if let Some(w) = &self.watch {
            let pen = ctx.config.borrow().penalty_capacity;
            let w = &mut *w.borrow_mut();
            let pre = plain(solution);
            let ok = w.values(solution, Some(pen));
            w.check(ok, "values before the ruin");
            w.settle(&pre);
            if w.up && (w.steps + 1) % 1000 == 0 {
                w.pen *= if w.cur.iter().all(|r| w.load(r) <= w.inst.cap) { 0.5 } else { 2.0 };
            }
            let ok = pen == w.pen;
            w.check(ok, "penalty");
            self.inner.run(ctx, solution);
            w.ruined(&pre, solution);
            return;
        }
        let pre = shot(solution, self.s, self.qs, true);
        self.inner.run(ctx, solution);
        let mut mid = shot(solution, self.s, self.qs, false);
        let mut un = solution.unassigned.clone();
        un.sort();
        let mut ru: Vec<usize> = solution.ruined_routes.iter().map(|r| r + 1).collect();
        ru.sort();
        mid["removed"] = json!(un);
        mid["ruined"] = json!(ru);
        let pen = ctx.config.borrow().penalty_capacity;
        self.log
            .borrow_mut()
            .push(json!({"k": "st", "pre": pre, "mid": mid, "P": sc(pen, self.s / self.qs)}));
    }
}

impl Recreate for Spy<dyn Recreate> {
    fn run(&self, ctx: &Context, solution: &mut RuinRecreateSolution) {
        self.inner.run(ctx, solution);
        if let Some(w) = &self.watch {
            w.borrow_mut().recreated(solution, ctx.config.borrow().penalty_capacity);
            return;
        }
        let post = shot(solution, self.s, self.qs, true);
        if let Some(last) = self.log.borrow_mut().last_mut() {
            last["post"] = post;
        }
    }
}

struct Dummy;
impl Ruin for Dummy {
    fn run(&self, _: &Context, _: &mut RuinRecreateSolution) {}
}
impl Recreate for Dummy {
    fn run(&self, _: &Context, _: &mut RuinRecreateSolution) {}
}

/// Proposes the given solutions one after another, and before them the current one again and again
struct Script {
    inst: Inst,
    todo: RefCell<Vec<Vec<Vec<usize>>>>,
    pad: RefCell<usize>,
    log: Log,
    same: RefCell<bool>,
}

struct Scripted(Rc<Script>);
impl Recreate for Scripted {
    fn run(&self, ctx: &Context, solution: &mut RuinRecreateSolution) {
        let (s, qs) = (self.0.inst.s, self.0.inst.qs);
        let pen = ctx.config.borrow().penalty_capacity;
        if *self.0.pad.borrow() > 0 {
            *self.0.pad.borrow_mut() -= 1;
            if let Some(last) = self.0.log.borrow_mut().last_mut() {
                if last["k"] == "skip" {
                    last["steps"] = json!(last["steps"].as_u64().unwrap() + 1);
                }
            }
            return;
        }
        let pre = shot(solution, s, qs, true);
        let hb = ctx.search_history.borrow().best_cost;
        let next = self.0.todo.borrow_mut().pop();
        if let Some(next) = next {
            for (r, nodes) in solution.routes.iter_mut().zip(&next) {
                r.nodes = nodes.clone();
                let stops: Vec<usize> = std::iter::once(0).chain(nodes.iter().cloned()).chain([0]).collect();
                r.distance = stops.windows(2).map(|w| ctx.matrix_provider.distance.get(w[0], w[1])).sum();
                r.overload = nodes.iter().map(|&c| self.0.inst.q[c]).sum::<f64>() - self.0.inst.cap;
            }
            let all: Vec<usize> = (0..next.len()).collect();
            solution.evaluate(ctx, all.iter());
        } else {
            *self.0.same.borrow_mut() = false; // more steps than there should be
        }
        self.0.log.borrow_mut().push(json!({"k": "st", "pre": pre, "post": shot(solution, s, qs, true), "P": sc(pen, s / qs),
            "hb": if hb.is_finite() { sc(hb, s) } else { -1 }}));
    }
}

/// Searches whose candidates are given
fn replay_search(out: &mut Out, all: &[Value]) {
    for (x, v) in all.iter().enumerate() {
        let inst = inst_of(v);
        let up = v["up"].as_bool().unwrap();
        let zero = v["zero"].as_bool().unwrap();
        let cands: Vec<_> = v["R"].as_array().unwrap().iter().map(routes_json).collect();
        let len = cands.len() - 1;
        let pad = if up { 999 - x % len } else { 0 };
        let steps = pad + len;
        let mut cfg = base_config(x as u64);
        cfg.penalty_inc_multiplier = 2.0;
        cfg.penalty_dec_multiplier = 0.5;
        let temp = if zero { 0.0 } else { 5.0 };
        cfg.rr_start_temp = temp;
        cfg.elite_education_start_temp = temp;
        cfg.rr_gamma = steps as f64 / inst.n() as f64;
        cfg.elite_education_gamma = cfg.rr_gamma;
        cfg.elite_education_time_based = false;
        let fleet = v["N"].as_u64().unwrap();
        let pen = v["P"].as_i64().unwrap() as f64;
        let ctx = context(&inst, cfg, Some(fleet), Some(pen));
        let mut head = inst_json(&inst, ctx, pen);
        head["cavg"] = json!(1);
        head["lmax"] = json!(1);
        out.line(head);
        let log: Log = Rc::new(RefCell::new(Vec::new()));
        let mut rr = RuinRecreate::new(ctx);
        if up {
            rr.setup_elite_education(ctx);
        } else {
            rr.setup_mutation(ctx);
        }
        let (s, qs) = (inst.s, inst.qs);
        let script = Rc::new(Script {
            inst: inst.clone(),
            todo: RefCell::new(cands[1..].iter().rev().cloned().collect()),
            pad: RefCell::new(pad),
            log: log.clone(),
            same: RefCell::new(true),
        });
        rr.ruin = Box::new(Dummy);
        rr.recreate = Box::new(Scripted(script.clone()));
        let mut ind = individual(&cands[0], 0);
        ind.evaluate(ctx);
        // nothing or something is recorded already
        let known = [None, Some(30.0), Some(26.0)][x / len % 3];
        ctx.search_history.borrow_mut().best_cost = known.unwrap_or(f64::INFINITY);
        rr.load(ctx, &mut ind);
        let rec = |ctx: &Context| {
            let h = ctx.search_history.borrow();
            json!({"hb": if h.best_cost.is_finite() { sc(h.best_cost, s) } else { -1 },
                   "hc": h.entries().iter().map(|e| sc(e.solution.cost, s)).collect::<Vec<_>>(),
                   "hl": h.last_entry().map(|e| e.solution.routes.clone()).unwrap_or_default()})
        };
        out.line(json!({
            "k": "load", "R": cands[0], "P": sc(pen, s / qs), "g4": steps, "zero": zero, "up": up,
            "cur": shot(&rr.current_solution, s, qs, true), "sol": shot(&rr.solution, s, qs, true), "done": rr.complete(),
            "rec": rec(ctx),
        }));
        if pad > 0 {
            log.borrow_mut().push(json!({"k": "skip", "steps": 0, "same": true}));
        }
        let mut calls = 0;
        while !rr.complete() && calls < 4 {
            rr.search();
            calls += 1;
            for mut w in log.borrow_mut().drain(..) {
                if w["k"] == "skip" {
                    w["same"] = json!(*script.same.borrow());
                }
                out.line(w);
            }
            let p = ctx.config.borrow().penalty_capacity;
            let mut res = individual(&vec![Vec::new(); fleet as usize], 7);
            rr.get_solution(&mut res);
            out.line(json!({
                "k": "pause", "P": sc(p, s / qs), "done": rr.complete(), "calls": calls,
                "cur": shot(&rr.current_solution, s, qs, true),
                "sol": shot(&rr.solution, s, qs, true),
                "res": {"R": res.phenotype, "g": res.genotype, "cost": sc(res.penalized_cost(), s)},
            }));
        }
        let p = ctx.config.borrow().penalty_capacity;
        let mut child = individual(&cands[0], 3);
        rr.get_best_solution(&mut child);
        out.line(json!({
            "k": "end", "P": sc(p, s / qs),
            "sol": shot(&rr.solution, s, qs, true),
            "best": rr.best_solution.as_ref().map(|b| shot(b, s, qs, true)),
            "bc": sc(rr.best_cost(), s),
            "child": {"R": child.phenotype, "g": child.genotype, "cost": sc(child.penalized_cost(), s),
                      "feas": child.is_feasible()},
            "recs": 0, "rec": rec(ctx),
        }));
    }
}

/// Single ruins of given solutions, and recreations of given partial ones
fn replay_steps(out: &mut Out, all: &[Value], times: usize) {
    for (x, v) in all.iter().enumerate() {
        let inst = inst_of(v);
        let (s, qs) = (inst.s, inst.qs);
        let fleet = v["N"].as_u64().unwrap();
        let pen = v["P"].as_i64().unwrap() as f64;
        let mut cfg = base_config(x as u64);
        let recreate = v.get("removed").is_some();
        let set = |k: &str| -> Vec<usize> { v[k].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as usize).collect() };
        if !recreate {
            cfg.average_ruin_cardinality = v["cavg"].as_u64().unwrap() as usize;
            cfg.max_ruin_string_length = v["lmax"].as_u64().unwrap() as usize;
        }
        let (cavg, lmax) = (cfg.average_ruin_cardinality, cfg.max_ruin_string_length);
        if x % 2 == 1 {
            cfg.precompute_distance_size_limit = 0;
        }
        let ctx = context(&inst, cfg, Some(fleet), Some(pen));
        let mut head = inst_json(&inst, ctx, pen);
        head["cavg"] = json!(cavg);
        head["lmax"] = json!(lmax);
        out.line(head);
        let rr = RuinRecreate::new(ctx);
        let routes = routes_json(&v["R"]);
        for _ in 0..times {
            // the order of the routes does not matter, but may matter to the code
            let turn = ctx.random.range_usize(0, routes.len());
            let mut r = routes.clone();
            r.rotate_left(turn);
            let mut ind = individual(&r, 0);
            ind.evaluate(ctx);
            let mut sol = RuinRecreateSolution::new(ctx);
            sol.load(&ind);
            let every: Vec<usize> = (0..r.len()).collect();
            sol.evaluate(ctx, every.iter());
            let mid = |sol: &RuinRecreateSolution| {
                let mut mid = shot(sol, s, qs, false);
                let mut un = sol.unassigned.clone();
                un.sort();
                let mut ru: Vec<usize> = sol.ruined_routes.iter().map(|r| r + 1).collect();
                ru.sort();
                mid["removed"] = json!(un);
                mid["ruined"] = json!(ru);
                mid
            };
            if recreate {
                sol.unassigned = set("removed");
                ctx.random.shuffle(&mut sol.unassigned);
                for k in set("ruined") {
                    sol.ruined_routes.insert((k - 1 + r.len() - turn) % r.len());
                }
                let mid = mid(&sol);
                rr.recreate.run(ctx, &mut sol);
                out.line(json!({"k": "re", "mid": mid, "post": shot(&sol, s, qs, true), "P": sc(pen, s / qs)}));
            } else {
                let pre = shot(&sol, s, qs, true);
                rr.ruin.run(ctx, &mut sol);
                out.line(json!({"k": "ru", "pre": pre, "mid": mid(&sol), "P": sc(pen, s / qs)}));
            }
        }
    }
}

fn main() {
    let o = &Opt::from_args();
    let mut out = Out::new(&o.out);
    if let Some(all) = behaviours(o) {
        if all.first().map_or(false, |v| v.get("zero").is_some()) {
            replay_search(&mut out, &all);
        } else {
            replay_steps(&mut out, &all, o.scale(12, 40));
        }
        out.flush();
        return;
    }
    if o.arg("screen").is_some() {
        return screen(o, &mut out);
    }
    let mut rng = o.rng(9);
    for i in 0..o.scale(96, 900) {
        if !o.mine(i) {
            continue;
        }
        let long = (i / o.parts as usize) % 12 == 11;
        group(&mut rng, Some(&mut out), long, 12);
    }
    out.flush();
}

/// A few searches on one instance: recorded, or looked at only. Tells whether something looks wrong.
fn group(rng: &mut fastrand::Rng, mut out: Option<&mut Out>, long: bool, most: usize) -> (Option<&'static str>, usize) {
    let s = 64.0;
    let n = if long {
        rng.usize(3..=6)
    } else if rng.usize(0..6) == 0 {
        rng.usize(1..=3)
    } else {
        rng.usize(4..=most)
    };
    let qs = pick(rng, &[1.0, 1.0, 2.0]);
    let geo = pick(
        rng,
        &[Geo::Arbitrary, Geo::Metric, Geo::Degenerate, Geo::Clustered, Geo::Euclid],
    );
    let inst = random_inst(rng, n, geo, qs, s);
    let mut cfg = base_config(rng.u64(0..1 << 40));
    cfg.average_ruin_cardinality = pick(rng, &[1, 2, 2, 3, 4]);
    cfg.max_ruin_string_length = pick(rng, &[1, 2, 3, 10]);
    cfg.penalty_inc_multiplier = 2.0;
    cfg.penalty_dec_multiplier = 0.5;
    cfg.rr_start_temp = pick(rng, &[0.0, 0.5, 5.0, 50.0]);
    // a whole number of quarters
    let g4 = if long { rng.u64(1200..3000) } else { rng.u64(0..=24) };
    cfg.rr_gamma = g4 as f64 / 4.0;
    cfg.elite_education_start_temp = pick(rng, &[0.0, 5.0]);
    cfg.elite_education_gamma = g4 as f64 / 4.0;
    cfg.elite_education_time_based = false;
    cfg.precompute_distance_size_limit = pick(rng, &[0, 2000]);
    let unit = qs / s;
    // stays a whole number when it is halved up to four times
    let pens: &[f64] = if long { &[16.0, 64.0, 640.0] } else { &[8.0, 64.0, 640.0] };
    let pen = unit * pick(rng, pens);
    let fleet = inst.lb().max(1) + rng.u64(0..=3);
    let (cavg, lmax) = (cfg.average_ruin_cardinality, cfg.max_ruin_string_length);
    let (t_mut, t_eli) = (cfg.rr_start_temp, cfg.elite_education_start_temp);
    let ctx = context(&inst, cfg, Some(fleet), Some(pen));
    let mut watch = None;
    if let Some(out) = out.as_deref_mut() {
        let mut head = inst_json(&inst, ctx, pen);
        head["cavg"] = json!(cavg);
        head["lmax"] = json!(lmax);
        out.line(head);
    } else {
        watch = Some(Rc::new(RefCell::new(Watch {
            inst: inst.clone(),
            d: ref_dist(&inst),
            cavg,
            lmax,
            ..Watch::default()
        })));
    }

    let log: Log = Rc::new(RefCell::new(Vec::new()));
    let mut rr = RuinRecreate::new(ctx);
    let inner = std::mem::replace(&mut rr.ruin, Box::new(Dummy));
    let spy: Spy<dyn Ruin> = Spy { inner, log: log.clone(), s, qs, watch: watch.clone() };
    rr.ruin = Box::new(spy);
    let inner = std::mem::replace(&mut rr.recreate, Box::new(Dummy));
    let spy: Spy<dyn Recreate> = Spy { inner, log: log.clone(), s, qs, watch: watch.clone() };
    rr.recreate = Box::new(spy);

    let loads = if long { rng.usize(1..=2) } else { rng.usize(1..=3) };
    // a search may be given up, and another one begun
    let given_up = long && loads > 1 && rng.bool();
    let mut last = false;
    for load in 0..loads {
        // the same search once more, without being set up again
        let again = load > 0 && (given_up || rng.usize(0..4) == 0);
        // after the search that adapts the penalty, one as long that does not
        let elite = if long { load == 0 && rng.usize(0..5) != 0 } else { rng.usize(0..4) == 0 };
        let elite = if again { last } else { elite };
        last = elite;
        if again {
        } else if elite {
            rr.setup_elite_education(ctx);
        } else if load > 0 || rng.bool() {
            rr.setup_mutation(ctx);
        } else {
            rr.update_penalty = false;
        }
        if rng.bool() || (long && load > 0) {
            let p = unit * pick(rng, pens);
            ctx.config.borrow_mut().penalty_capacity = p;
        }
        let routes = match rng.usize(0..3) {
            0 => packed_routes(rng, &inst, fleet as usize),
            1 => {
                let u = rng.usize(1..=fleet as usize);
                random_routes(rng, n, fleet as usize, u)
            }
            _ => random_routes(rng, n, fleet as usize, fleet as usize),
        };
        let mut ind = individual(&routes, load as u64);
        ind.evaluate(ctx);
        // The recorded solutions are looked at elsewhere: allow some and none
        if rng.bool() {
            ctx.search_history.borrow_mut().best_cost = f64::INFINITY;
        } else {
            ctx.search_history.borrow_mut().best_cost = 0.0;
        }
        let hist = ctx.search_history.borrow().entries().len();
        rr.load(ctx, &mut ind);
        let p0 = ctx.config.borrow().penalty_capacity;
        let zero = if elite { t_eli } else { t_mut } == 0.0;
        let steps = ((2 * g4 * n as u64 + 4) / 8) as usize;
        if let Some(w) = &watch {
            let w = &mut *w.borrow_mut();
            w.zero = zero;
            w.up = elite;
            w.pen = p0;
            w.steps = 0;
            w.cur = routes.clone();
            w.cand = None;
            w.best = vec![routes.clone()];
            let ok = w.values(&rr.solution, Some(p0)) && w.values(&rr.current_solution, Some(p0))
                && plain(&rr.solution) == routes && plain(&rr.current_solution) == routes && rr.complete() == (steps == 0);
            w.check(ok, "loaded");
        }
        emit(&mut out, &|| json!({
            "k": "load", "R": routes, "P": sc(p0, s / qs),
            "g4": g4, "zero": zero, "up": elite,
            "cur": shot(&rr.current_solution, s, qs, true),
            "sol": shot(&rr.solution, s, qs, true),
            "done": rr.complete(),
        }));
        let mut calls = 0;
        while !rr.complete() && !(given_up && load == 0 && calls > 0) {
            rr.search();
            calls += 1;
            for v in log.borrow_mut().drain(..) {
                emit(&mut out, &|| v.clone());
            }
            if let Some(w) = &watch {
                let w = &mut *w.borrow_mut();
                let ok = w.steps <= steps && rr.complete() == (w.steps == steps);
                w.check(ok, "number of steps");
                if w.bad.is_some() {
                    return (w.bad, w.total);
                }
            }
            let p = ctx.config.borrow().penalty_capacity;
            let mut res = individual(&vec![Vec::new(); fleet as usize], 7);
            rr.get_solution(&mut res);
            if let Some(w) = &watch {
                let w = &mut *w.borrow_mut();
                let at = plain(&rr.solution);
                w.settle(&at);
                let ok = w.values(&rr.solution, Some(p)) && w.values(&rr.current_solution, Some(p))
                    && plain(&rr.current_solution) == at && as_result(&res, &at) && p == w.pen
                    && sc(res.penalized_cost(), s) == w.cost(&at, p);
                w.check(ok, "pause");
            }
            emit(&mut out, &|| json!({
                "k": "pause", "P": sc(p, s / qs), "done": rr.complete(), "calls": calls,
                "cur": shot(&rr.current_solution, s, qs, true),
                "sol": shot(&rr.solution, s, qs, true),
                "res": {"R": res.phenotype, "g": res.genotype, "cost": sc(res.penalized_cost(), s)},
            }));
        }
        if !rr.complete() {
            continue;
        }
        let p = ctx.config.borrow().penalty_capacity;
        let mut child = individual(&routes, 3);
        rr.get_best_solution(&mut child);
        if let Some(w) = &watch {
            let w = &mut *w.borrow_mut();
            let best = rr.best_solution.as_ref().map(plain).unwrap_or_default();
            let ok = rr.best_solution.as_ref().map_or(false, |b| w.values(b, Some(p))) && w.values(&rr.solution, Some(p))
                && (w.best.contains(&best) || w.best.len() >= 200)
                && sc(rr.best_cost(), s) == w.cost(&best, p) && as_result(&child, &best)
                && (p != p0 || rr.best_cost() <= w.cost(&routes, p) as f64 / s + 1e-6)
                && sc(child.penalized_cost(), s) == w.cost(&best, p)
                && child.is_feasible() == best.iter().all(|r| w.load(r) <= inst.cap);
            w.check(ok, "end");
        }
        emit(&mut out, &|| json!({
            "k": "end", "P": sc(p, s / qs),
            "sol": shot(&rr.solution, s, qs, true),
            "best": rr.best_solution.as_ref().map(|b| shot(b, s, qs, true)),
            "bc": sc(rr.best_cost(), s),
            "child": {"R": child.phenotype, "g": child.genotype, "cost": sc(child.penalized_cost(), s),
                      "feas": child.is_feasible()},
            "recs": ctx.search_history.borrow().entries().len() - hist,
        }));
    }
    let res = watch.map_or((None, 0), |w| (w.borrow().bad, w.borrow().total));
    drop(rr);
    unsafe { release(ctx) };
    res
}

fn emit(out: &mut Option<&mut Out>, v: &dyn Fn() -> Value) {
    if let Some(out) = out.as_deref_mut() {
        out.line(v());
    }
}

fn as_result(ind: &hybridcvrp::solver::genetic::Individual, r: &Routes) -> bool {
    let set = |r: &Routes| {
        let mut q: Routes = r.clone();
        q.sort();
        q
    };
    set(&ind.phenotype) == set(r) && ind.genotype == ind.phenotype.concat()
}

/// Very many searches, of which the suspicious ones are run again and recorded
fn screen(o: &Opt, out: &mut Out) {
    let mut rng = o.rng(99);
    let (mut recorded, mut steps) = (0, 0);
    let groups = o.scale(48_000, 1_600_000) / o.parts as usize;
    for i in 0..groups {
        let seed = rng.u64(..);
        let most = if i % 8 == 7 { 24 } else { 14 };
        let long = i % 40 == 39;
        let (bad, k) = group(&mut fastrand::Rng::with_seed(seed), None, long, most);
        steps += k;
        if let Some(what) = bad {
            eprintln!("suspicious: {what}");
            group(&mut fastrand::Rng::with_seed(seed), Some(&mut *out), long, most);
            recorded += 1;
            if recorded >= 4 {
                break;
            }
        }
    }
    out.line(json!({"k": "screened", "steps": steps}));
    out.flush();
}
