//! C11, C12: populations.
use hx::common::*;
use hybridcvrp::solver::genetic::{Individual, Population, SubPopulation};
use hybridcvrp::config::Config;
use hybridcvrp::solver::Context;
use std::collections::{HashMap, HashSet};

fn sub(s: &SubPopulation, inst: &Inst) -> Value {
    let n = s.population.len() as f64;
    let f = if n > 1.0 { n * (n - 1.0) } else { 1.0 };
    let mut keys: Vec<u64> = s.diversity.keys().cloned().collect();
    keys.sort();
    json!({
        "m": s.population.iter().map(|i| i.number).collect::<Vec<_>>(),
        "c": s.population.iter().map(|i| sc(i.penalized_cost(), inst.s)).collect::<Vec<_>>(),
        "f": s.population.iter().map(|i| sc(i.fitness, f)).collect::<Vec<_>>(),
        "x": s.population.iter().map(|i| i.is_feasible()).collect::<Vec<_>>(),
        "dk": keys,
        "dd": keys.iter().map(|k| s.diversity[k].iter().map(|d| json!([d.distance, d.to_number])).collect::<Vec<_>>()).collect::<Vec<_>>(),
    })
}

fn state(p: &Population, inst: &Inst, known: &HashMap<u64, Vec<Vec<usize>>>) -> Value {
    let changed: Vec<u64> = p.feasible.population.iter().chain(p.infeasible.population.iter())
        .filter(|i| known.get(&i.number) != Some(&i.phenotype))
        .map(|i| i.number)
        .collect();
    json!({"fe": sub(&p.feasible, inst), "in": sub(&p.infeasible, inst), "tot": p.total_individuals_count, "changed": changed})
}

/// Insertions in the order given by the specification
fn replay(o: &Opt, out: &mut Out, all: &[Value]) {
    for (x, v) in all.iter().enumerate() {
        let inst = inst_of(v);
        let int = |k: &str| v[k].as_u64().unwrap();
        let mut cfg = base_config(o.seed * 1000 + x as u64);
        cfg.min_population_size = int("min");
        cfg.population_lambda = int("lambda");
        cfg.num_elites = int("el");
        cfg.num_diversity_closest = int("cl");
        let pen = int("P") as f64;
        let ctx = context(&inst, cfg.clone(), Some(int("N")), Some(pen));
        out.line(head(&inst, ctx, &cfg, pen));
        let mut p = Population::new(ctx);
        let mut known: HashMap<u64, Vec<Vec<usize>>> = HashMap::new();
        for r in v["add"].as_array().unwrap() {
            let r = routes_json(r);
            let mut ind: Individual = individual(&r, 999_999);
            ind.evaluate(ctx);
            let num = p.total_individuals_count;
            known.insert(num, r.clone());
            p.add_individual(ctx, ind, true);
            out.line(json!({"k": "add", "num": num, "R": r, "post": state(&p, &inst, &known)}));
        }
    }
    out.flush();
}

fn head(inst: &Inst, ctx: &Context, cfg: &Config, pen: f64) -> Value {
    let mut head = inst_json(inst, ctx, pen);
    head["min"] = json!(cfg.min_population_size);
    head["max"] = json!(cfg.min_population_size + cfg.population_lambda);
    head["el"] = json!(cfg.num_elites);
    head["cl"] = json!(cfg.num_diversity_closest);
    head
}

fn main() {
    let o = &Opt::from_args();
    let mut out = Out::new(&o.out);
    if let Some(b) = behaviours(o) {
        replay(o, &mut out, &b);
        return;
    }
    if o.arg("screen").is_some() {
        return screen(o, &mut out);
    }
    let mut rng = o.rng(11);
    for i in 0..o.scale(120, 1600) {
        if !o.mine(i) {
            continue;
        }
        group(&mut rng, Some(&mut out), &Size { most: 11, adds: o.scale(36, 60), parents: true, big: false, from: 0 });
    }
    out.flush();
}

fn emit(out: &mut Option<&mut Out>, v: &dyn Fn() -> Value) {
    if let Some(out) = out.as_deref_mut() {
        out.line(v());
    }
}

struct Size {
    /// customers
    most: usize,
    adds: usize,
    parents: bool,
    /// population size like the default one
    big: bool,
    /// the insertions before are not recorded
    from: usize,
}

/// Insertions into one population: recorded, or looked at only. Tells whether something looks wrong.
fn group(rng: &mut fastrand::Rng, mut out: Option<&mut Out>, size: &Size) -> (Option<&'static str>, usize) {
    let n = if size.big { rng.usize(12..=size.most) } else { rng.usize(3..=size.most) };
    let geo = pick(rng, &[Geo::Euclid, Geo::Clustered, Geo::Degenerate, Geo::Metric]);
    let mut inst = random_inst(rng, n, geo, 1.0, 4.0);
    // some room for feasible solutions
    let veh = rng.usize(2..=4) as f64;
    inst.cap = inst.cap.max((inst.total() / veh * 1.3).ceil());
    let mut cfg = base_config(rng.u64(1..1_000_000));
    cfg.min_population_size = rng.u64(2..=6);
    cfg.population_lambda = rng.u64(1..=5);
    if size.big {
        cfg.min_population_size = rng.u64(2..=30);
        cfg.population_lambda = rng.u64(30..=45);
    }
    cfg.num_elites = rng.u64(0..=4);
    cfg.num_diversity_closest = rng.u64(1..=6);
    let k = (inst.lb() as usize + rng.usize(1..=2)).max(2);
    let pen = pick(rng, &[0.25, 1.0, 5.0]);
    let ctx = context(&inst, cfg.clone(), Some(k as u64), Some(pen));
    emit(&mut out, &|| head(&inst, ctx, &cfg, pen));
    let mut watch = if out.is_some() { None } else { Some(Watch::new(&inst, &cfg, pen)) };
    let mut total = 0;
    let mut p = Population::new(ctx);
    let mut known: HashMap<u64, Vec<Vec<usize>>> = HashMap::new();
    let mut hist: Vec<Vec<Vec<usize>>> = Vec::new();
    for x in 0..size.adds {
        if x == size.from && x > 0 {
            let of: Vec<Value> = p.feasible.population.iter().chain(p.infeasible.population.iter())
                .map(|i| json!([i.number, known[&i.number]]))
                .collect();
            emit(&mut out, &|| json!({"k": "set", "of": of, "post": state(&p, &inst, &known)}));
        }
        let mut r = match rng.usize(0..10) {
            0..=2 if !hist.is_empty() => hist[rng.usize(0..hist.len())].clone(),
            3..=5 if !hist.is_empty() => {
                // a small change
                let mut r = hist[rng.usize(0..hist.len())].clone();
                for _ in 0..rng.usize(1..=2) {
                    let a = rng.usize(0..k);
                    if !r[a].is_empty() {
                        let q = rng.usize(0..r[a].len());
                        let x = r[a].remove(q);
                        let b = rng.usize(0..k);
                        let q = rng.usize(0..=r[b].len());
                        r[b].insert(q, x);
                    }
                }
                r
            }
            6..=7 => random_routes(rng, n, k, k),
            _ => packed_routes(rng, &inst, k),
        };
        // the same solution in another form
        if rng.bool() {
            rng.shuffle(&mut r);
            for q in r.iter_mut() {
                if rng.bool() {
                    q.reverse();
                }
            }
        }
        let mut ind: Individual = individual(&r, 999_999);
        ind.evaluate(ctx);
        hist.push(r.clone());
        let num = p.total_individuals_count;
        known.insert(num, r.clone());
        let up = rng.bool();
        let before = if watch.is_some() { Some(watch.as_ref().unwrap().members(&p)) } else { None };
        if let Some(out) = out.as_deref_mut() {
            out.flush();
        }
        let quiet = x < size.from;
        p.add_individual(ctx, ind, up);
        if let Some(w) = watch.as_mut() {
            total += 1;
            if let Some(what) = w.added(before.unwrap(), &p, num, &r) {
                return (Some(what), total);
            }
        }
        if !quiet {
            emit(&mut out, &|| json!({"k": "add", "num": num, "R": r, "post": state(&p, &inst, &known)}));
        }
        // parents
        let parents = size.parents;
        let size = p.size();
        if parents && size >= 2 && rng.usize(0..8) == 0 {
            ctx.config.borrow_mut().tournament_size = 1;
            let mut seen: Vec<u64> = (0..60 * size).map(|_| p.get_parent(ctx).number).collect();
            seen.sort();
            seen.dedup();
            ctx.config.borrow_mut().tournament_size = 60 * size as u64;
            let win = p.get_parent(ctx).number;
            ctx.config.borrow_mut().tournament_size = 2;
            let mut cnt: HashMap<u64, usize> = HashMap::new();
            for _ in 0..40 * size * size {
                *cnt.entry(p.get_parent(ctx).number).or_insert(0) += 1;
            }
            let all = |f: &dyn Fn(&Individual) -> Value| -> Vec<Value> {
                p.feasible.population.iter().chain(p.infeasible.population.iter()).map(|i| f(i)).collect()
            };
            // order of the fitness values, equal values share a place
            let mut fit: Vec<f64> = p.feasible.population.iter().chain(p.infeasible.population.iter()).map(|i| i.fitness).collect();
            fit.sort_by(|a, b| a.partial_cmp(b).unwrap());
            emit(&mut out, &|| json!({"k": "par", "m": all(&|i| json!(i.number)),
                "rank": all(&|i| json!(fit.iter().filter(|&&x| x < i.fitness - 1e-9).count())),
                "one": seen, "win": win,
                "two": all(&|i| json!(cnt.get(&i.number).cloned().unwrap_or(0)))}));
        }
        // one survivor selection on its own, also with members at distance zero
        if rng.usize(0..6) == 0 {
            let mut q = SubPopulation::new(ctx);
            let src = if p.feasible.size() >= p.infeasible.size() { &p.feasible } else { &p.infeasible };
            if src.size() < 3 {
                continue;
            }
            let max = (cfg.min_population_size + cfg.population_lambda) as usize;
            for ind in src.population.iter().take(max - 1) {
                q.add_individual(ctx, ind.clone());
            }
            if q.size() < 3 {
                continue;
            }
            for _ in 0..rng.usize(0..=2) {
                let a = q.population[rng.usize(0..q.size())].number;
                let b = q.population[rng.usize(0..q.size())].number;
                if a != b {
                    for (x, y) in [(a, b), (b, a)] {
                        if let Some(v) = q.diversity.get_mut(&x) {
                            for d in v.iter_mut() {
                                if d.to_number == y {
                                    d.distance = 0;
                                }
                            }
                            v.sort();
                        }
                    }
                }
            }
            let pre = sub(&q, &inst);
            let removable: Vec<u64> = {
                let clone = |i: &Individual| q.diversity[&i.number].iter().any(|d| d.distance == 0);
                let some = q.population.iter().skip(1).any(|i| clone(i));
                let from: Vec<&Individual> = q.population.iter().skip(1).filter(|i| !some || clone(i)).collect();
                from.iter().filter(|i| from.iter().all(|j| j.fitness <= i.fitness + 1e-9)).map(|i| i.number).collect()
            };
            let all: Vec<u64> = q.population.iter().map(|i| i.number).collect();
            q.natural_selection(ctx);
            if watch.is_some() {
                let left: Vec<u64> = q.population.iter().map(|i| i.number).collect();
                let fine = removable.iter().any(|a| all.iter().filter(|b| *b != a).eq(left.iter()));
                if !fine {
                    return (Some("selection"), total);
                }
            }
            if quiet {
                continue;
            }
            emit(&mut out, &|| json!({"k": "ns", "pre": pre, "post": sub(&q, &inst)}));
        }
    }
    drop(p);
    unsafe { release(ctx) };
    (None, total)
}

/// Very many populations, of which the suspicious ones are filled again and recorded
fn screen(o: &Opt, out: &mut Out) {
    let mut rng = o.rng(112);
    let (mut recorded, mut adds) = (0, 0);
    for i in 0..o.scale(40_000, 1_200_000) / o.parts as usize {
        let seed = rng.u64(..);
        let big = i % 200 == 0;
        let most = if big || i % 4 == 0 { 20 } else { 9 };
        let long = if big || i % 16 == 0 { 200 } else { 50 };
        let (bad, k) = group(&mut fastrand::Rng::with_seed(seed), None, &Size { most, adds: long, parents: false, big, from: 0 });
        adds += k;
        if let Some(what) = bad {
            eprintln!("suspicious: {what}");
            // the same insertions up to the one that looks wrong
            let from = if big { k - 1 } else { 0 };
            group(&mut fastrand::Rng::with_seed(seed), Some(&mut *out), &Size { most, adds: k, parents: false, big, from });
            recorded += 1;
            if recorded >= 4 {
                break;
            }
        } else if big && i == 200 {
            // the last of them, with a large population
            group(&mut fastrand::Rng::with_seed(seed), Some(&mut *out), &Size { most, adds: k, parents: false, big, from: k - 2 });
        }
    }
    out.line(json!({"k": "screened", "adds": adds}));
    out.flush();
}

/// Looks at a population after each insertion. Decides only which populations are recorded, for the
/// specification to judge.
struct Watch {
    inst: Inst,
    d: Vec<Vec<i64>>,
    pen: f64,
    min: usize,
    max: usize,
    el: usize,
    cl: usize,
    routes: HashMap<u64, Vec<Vec<usize>>>,
    nbrs: HashMap<u64, Vec<(usize, usize)>>,
}

/// The order in which more members than this are removed at once is left open
const ONE_BY_ONE: usize = 8;

type Members = [Vec<(u64, i64)>; 2];

impl Watch {
    fn new(inst: &Inst, cfg: &Config, pen: f64) -> Self {
        Watch {
            inst: inst.clone(),
            d: ref_dist(inst),
            pen,
            min: cfg.min_population_size as usize,
            max: (cfg.min_population_size + cfg.population_lambda) as usize,
            el: cfg.num_elites as usize,
            cl: cfg.num_diversity_closest as usize,
            routes: HashMap::new(),
            nbrs: HashMap::new(),
        }
    }

    fn members(&self, p: &Population) -> Members {
        let of = |s: &SubPopulation| s.population.iter().map(|i| (i.number, sc(i.penalized_cost(), self.inst.s))).collect();
        [of(&p.feasible), of(&p.infeasible)]
    }

    fn broken(&self, a: u64, b: u64) -> i64 {
        let (a, b) = (&self.nbrs[&a], &self.nbrs[&b]);
        (1..=self.inst.n())
            .map(|x| (a[x].1 != b[x].1 && a[x].1 != b[x].0) as i64 + (a[x].0 == 0 && b[x].0 != 0 && b[x].1 != 0) as i64)
            .sum()
    }

    fn added(&mut self, before: Members, p: &Population, num: u64, r: &[Vec<usize>]) -> Option<&'static str> {
        let mut nb = vec![(0, 0); self.inst.n() + 1];
        for q in r {
            for (i, &x) in q.iter().enumerate() {
                nb[x] = (if i == 0 { 0 } else { q[i - 1] }, if i + 1 == q.len() { 0 } else { q[i + 1] });
            }
        }
        self.nbrs.insert(num, nb);
        self.routes.insert(num, r.to_vec());
        let after = self.members(p);
        let class = if r.iter().all(|q| q.iter().map(|&x| self.inst.q[x]).sum::<f64>() <= self.inst.cap) { 0 } else { 1 };
        if p.total_individuals_count != num + 1 {
            return Some("identities");
        }
        if before[1 - class] != after[1 - class] {
            return Some("other class");
        }
        let cost = cost_of(&self.inst, &self.d, r, self.pen);
        for (k, s) in [&p.feasible, &p.infeasible].into_iter().enumerate() {
            if let Some(what) = self.sub_ok(s, k == 0) {
                return Some(what);
            }
        }
        let s = if class == 0 { &p.feasible } else { &p.infeasible };
        if s.population.iter().any(|i| i.number == num && sc(i.penalized_cost(), self.inst.s) != cost) {
            return Some("cost");
        }
        let (pre, post) = (&before[class], &after[class]);
        let kept = |a: u64| post.iter().any(|m| m.0 == a);
        let same = pre == post;
        let clone = pre.iter().any(|m| self.broken(num, m.0) == 0 && self.broken(m.0, num) == 0);
        let mayclone = pre.iter().any(|m| self.broken(num, m.0) == 0 || self.broken(m.0, num) == 0);
        let inserted = if pre.len() + 1 < self.max {
            post.len() == pre.len() + 1 && kept(num) && pre.iter().all(|m| kept(m.0))
        } else {
            post.len() == self.min && (pre.len() + 1 - self.min > ONE_BY_ONE
                && post.iter().all(|m| m.0 == num || pre.iter().any(|b| b.0 == m.0))
                || (0..=pre.len()).any(|j| {
                if (j > 0 && pre[j - 1].1 > cost) || (j < pre.len() && cost > pre[j].1) {
                    return false;
                }
                let mut seq: Vec<u64> = pre.iter().map(|m| m.0).collect();
                seq.insert(j, num);
                self.can_become(&seq, &|a| kept(a), post.len(), &mut HashSet::new())
            }))
        };
        let ok = if clone { same } else { (mayclone && same) || inserted };
        if ok { None } else { Some("insertion") }
    }

    fn dist(&self, a: u64, b: u64) -> i64 {
        // the one added later is the argument
        if a < b { self.broken(a, b) } else { self.broken(b, a) }
    }

    fn can_become(&self, seq: &[u64], kept: &dyn Fn(u64) -> bool, goal: usize, seen: &mut HashSet<Vec<u64>>) -> bool {
        if !seen.insert(seq.to_vec()) {
            return false;
        }
        if seq.len() == goal {
            return seq.iter().all(|&a| kept(a));
        }
        let n = seq.len();
        let w = n.saturating_sub(self.el) as i64;
        let close: Vec<i64> = seq.iter().map(|&a| {
            let mut d: Vec<i64> = seq.iter().filter(|&&b| b != a).map(|&b| self.dist(a, b)).collect();
            d.sort();
            d.iter().take(self.cl).sum()
        }).collect();
        let low = |k: usize| close.iter().filter(|&&c| c > close[k]).count() as i64;
        let high = |k: usize| close.iter().filter(|&&c| c >= close[k]).count() as i64 - 1;
        let fmin = |k: usize| n as i64 * k as i64 + w * low(k);
        let fmax = |k: usize| n as i64 * k as i64 + w * high(k);
        let zero: Vec<usize> = (1..n).filter(|&k| (0..n).any(|j| j != k && self.dist(seq[j], seq[k]) == 0)).collect();
        let from: Vec<usize> = if zero.is_empty() { (1..n).collect() } else { zero };
        from.iter().any(|&k| {
            from.iter().all(|&j| fmin(j) <= fmax(k)) && !kept(seq[k]) && {
                let mut q = seq.to_vec();
                q.remove(k);
                self.can_become(&q, kept, goal, seen)
            }
        })
    }

    fn sub_ok(&self, s: &SubPopulation, feasible: bool) -> Option<&'static str> {
        let m = &s.population;
        let n = m.len();
        if m.windows(2).any(|w| w[0].penalized_cost() > w[1].penalized_cost()) {
            return Some("order");
        }
        if m.iter().any(|i| i.is_feasible() != feasible) || n >= self.max {
            return Some("class or size");
        }
        if m.iter().any(|i| self.routes.get(&i.number) != Some(&i.phenotype)) {
            return Some("changed");
        }
        if s.diversity.keys().any(|k| m.iter().all(|i| i.number != *k)) {
            return Some("distances of others");
        }
        let empty = Vec::new();
        for i in m {
            let d = s.diversity.get(&i.number).unwrap_or(&empty);
            if d.len() + 1 != n || d.windows(2).any(|w| w[0].distance > w[1].distance) {
                return Some("number of distances");
            }
            for j in m.iter().filter(|j| j.number != i.number) {
                let e: Vec<_> = d.iter().filter(|e| e.to_number == j.number).collect();
                let back = s.diversity.get(&j.number).and_then(|b| b.iter().find(|e| e.to_number == i.number));
                let right = e.len() == 1 && back.map_or(false, |b| b.distance == e[0].distance)
                    && (e[0].distance == self.broken(i.number, j.number) || e[0].distance == self.broken(j.number, i.number));
                if !right {
                    return Some("distance");
                }
            }
        }
        if n == 0 {
            return None;
        }
        let f: Vec<i64> = m.iter().map(|i| sc(i.fitness, if n > 1 { (n * (n - 1)) as f64 } else { 1.0 })).collect();
        let w = n as i64 - self.el as i64;
        let dr: Vec<i64> = (0..n).map(|k| f[k] - (n * k) as i64).collect();
        let ok = if n == 1 {
            f[0] == 0
        } else if w <= 0 {
            dr.iter().all(|&x| x == 0)
        } else {
            let close: Vec<i64> = m.iter().map(|i| s.diversity[&i.number].iter().take(self.cl).map(|d| d.distance).sum()).collect();
            let mut sorted = dr.clone();
            sorted.sort();
            sorted.iter().enumerate().all(|(r, &x)| x == w * r as i64)
                && (0..n).all(|j| (0..n).all(|k| close[j] <= close[k] || dr[j] < dr[k]))
        };
        if ok { None } else { Some("fitness") }
    }
}
