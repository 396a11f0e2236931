//! Shared parts of the drivers: instances, contexts and the ndjson trace.
use std::fs::File;
use std::io::{BufWriter, Write};
use std::time::{Duration, Instant};

use hybridcvrp::config::Config;
use hybridcvrp::models::{Coordinate, Node, ProblemBuilder, Vehicle};
use hybridcvrp::solver::genetic::Individual;
use hybridcvrp::solver::Context;
use hybridcvrp::utils::ProblemParser;
pub use serde_json::{json, Value};

pub struct Opt {
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub args: Vec<String>,
    /// Worker `part` of `parts`: drivers run as several processes
    pub part: u64,
    pub parts: u64,
}

impl Opt {
    /// OUT SEED TIER PART/PARTS [key=value...]
    pub fn from_args() -> Self {
        let args: Vec<String> = std::env::args().collect();
        if args.len() < 5 {
            eprintln!("usage: DRIVER OUT SEED TIER PART/PARTS [key=value...]");
            std::process::exit(3);
        }
        let pp: Vec<u64> = args[4].split('/').map(|x| x.parse().unwrap()).collect();
        Opt {
            out: args[1].clone(),
            seed: args[2].parse().expect("seed"),
            thorough: args[3] == "thorough",
            part: pp[0],
            parts: pp[1],
            args: args[5..].to_vec(),
        }
    }
    pub fn mine(&self, i: usize) -> bool {
        i as u64 % self.parts == self.part
    }
    pub fn rng(&self, salt: u64) -> fastrand::Rng {
        fastrand::Rng::with_seed(
            self.seed
                .wrapping_mul(0x9E37_79B9_7F4A_7C15)
                .wrapping_add(salt.wrapping_mul(0xD1B5_4A32_D192_ED03))
                .wrapping_add(self.part.wrapping_mul(0xA24B_AED4_963E_E407)),
        )
    }
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn arg(&self, key: &str) -> Option<String> {
        let pre = format!("{}=", key);
        self.args
            .iter()
            .find(|a| a.starts_with(&pre))
            .map(|a| a[pre.len()..].to_string())
    }
}

/// The trace. Every line is an object with a kind "k"; a group starts with a line whose
/// kind is "inst", and a group can be checked on its own.
pub struct Out {
    w: Option<BufWriter<File>>,
    pub lines: usize,
    /// the lines of a trace that is not written to a file
    pub kept: Vec<Value>,
}

impl Out {
    pub fn new(path: &str) -> Self {
        Self {
            w: Some(BufWriter::with_capacity(1 << 20, File::create(path).expect("cannot create trace"))),
            lines: 0,
            kept: Vec::new(),
        }
    }
    pub fn memory() -> Self {
        Self { w: None, lines: 0, kept: Vec::new() }
    }
    pub fn line(&mut self, v: Value) {
        match self.w.as_mut() {
            Some(w) => writeln!(w, "{}", v).expect("cannot write trace"),
            None => self.kept.push(v),
        }
        self.lines += 1;
    }
    pub fn flush(&mut self) {
        if let Some(w) = self.w.as_mut() {
            w.flush().expect("cannot write trace");
        }
    }
}

pub const BADINT: i64 = -2_000_000_011;

/// x * s as an exact integer, or BADINT if it is none (or does not fit)
pub fn sc(x: f64, s: f64) -> i64 {
    let y = x * s;
    let r = y.round();
    if !y.is_finite() || (y - r).abs() > 1e-4 || r.abs() > 2.0e9 {
        BADINT
    } else {
        r as i64
    }
}

/// floor(x * s) clamped, for values that are not on the grid
pub fn fl(x: f64, s: f64) -> i64 {
    let y = (x * s).floor();
    if y.is_nan() {
        BADINT
    } else {
        y.max(-2.0e9).min(2.0e9) as i64
    }
}

#[derive(Clone, Debug, Default)]
pub struct Inst {
    pub xy: Vec<(f64, f64)>,
    pub q: Vec<f64>,
    pub cap: f64,
    /// full explicit matrix, or None for (rounded) Euclidean distances
    pub d: Option<Vec<Vec<f64>>>,
    /// scale of distances and costs
    pub s: f64,
    /// scale of demands
    pub qs: f64,
}

impl Inst {
    pub fn n(&self) -> usize {
        self.q.len() - 1
    }
    pub fn parser(&self) -> ProblemParser {
        let nodes = (0..self.q.len())
            .map(|i| Node {
                id: i + 1,
                coord: Coordinate {
                    lng: self.xy[i].0,
                    lat: self.xy[i].1,
                },
                demand: self.q[i],
            })
            .collect();
        let vehicle = Vehicle {
            id: 1,
            cap: self.cap,
        };
        let matrix = self.d.as_ref().map(|d| {
            (1..d.len())
                .map(|i| (0..i).map(|j| d[i][j]).collect())
                .collect()
        });
        ProblemParser {
            problem: Some(ProblemBuilder::new(nodes, vehicle).build()),
            matrix,
        }
    }
    pub fn total(&self) -> f64 {
        self.q.iter().sum()
    }
    pub fn lb(&self) -> u64 {
        (self.total() / self.cap).ceil() as u64
    }
}

/// The instance of a behaviour of the specification: integers, explicit distances or points
pub fn inst_of(v: &Value) -> Inst {
    let ints = |x: &Value| -> Vec<f64> { x.as_array().unwrap().iter().map(|y| y.as_i64().unwrap() as f64).collect() };
    let q = ints(&v["q"]);
    let m = q.len();
    let d = v.get("d").map(|d| d.as_array().unwrap().iter().map(|r| ints(r)).collect());
    let xy = match v.get("xy") {
        Some(xy) => xy.as_array().unwrap().iter().map(|p| (ints(p)[0], ints(p)[1])).collect(),
        None => (0..m).map(|i| if i == 0 { (0.0, 0.0) } else { ((i * 7) as f64, 1.0) }).collect(),
    };
    Inst { xy, q, cap: v["cap"].as_i64().unwrap() as f64, d, s: 1.0, qs: 1.0 }
}

pub fn routes_json(v: &Value) -> Vec<Vec<usize>> {
    v.as_array().unwrap().iter()
        .map(|r| r.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect())
        .collect()
}

/// The behaviours of the specification this process has to replay
pub fn behaviours(o: &Opt) -> Option<Vec<Value>> {
    let path = o.arg("replay")?;
    let text = std::fs::read_to_string(path).expect("behaviours");
    Some(text.lines().enumerate().filter(|(i, _)| o.mine(*i)).map(|(_, l)| serde_json::from_str(l).expect("behaviour")).collect())
}

pub fn base_config(seed: u64) -> Config {
    let mut c = Config::default();
    c.deterministic = true;
    c.seed = seed;
    c.time_limit = 100_000;
    c.elite_education = false;
    c.local_search_granularity = 20;
    c
}

/// A configuration for the x-th run: each switch is on and off in combination with the others
pub fn varied_config(x: usize) -> Config {
    let mut cfg = base_config(x as u64);
    let bits = (x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40;
    let bit = |k: u64| bits >> k & 1 == 1;
    cfg.ls_enabled = !(bit(0) && bit(1));
    cfg.swap_star = bit(2);
    cfg.rr_mutation = bit(3);
    cfg.rr_gamma = 2.0;
    cfg.rr_start_temp = if bit(4) { 0.0 } else { 5.0 };
    cfg.elite_education = bit(5);
    cfg.elite_education_problem_size_limit = if bit(6) { 0 } else { 2 };
    cfg.elite_education_time_based = false;
    cfg.elite_education_gamma = 4.0;
    cfg.linear_split = bit(7);
    cfg.round_distances = bit(8);
    cfg.precompute_distance_size_limit = if bit(9) { 0 } else { 2000 };
    cfg.local_search_granularity = if bit(10) { 1 } else { 20 };
    cfg.dynamic_granularity = bit(11);
    cfg.granularity_min = 1 + (bits >> 12 & 3);
    cfg.initial_individuals = 1 + (bits >> 13 & 3);
    cfg.min_population_size = 1 + (bits >> 14 & 3);
    cfg.population_lambda = 1 + (bits >> 16 & 3);
    cfg.num_elites = bits >> 15 & 1;
    cfg.max_iterations_without_improvement = if bit(17) { 5 } else { 1000 };
    cfg.average_ruin_cardinality = 1 + (bits >> 18 & 3) as usize;
    cfg.max_ruin_string_length = 1 + (bits >> 19 & 3) as usize;
    cfg.penalty_update_interval = 1 + (bits >> 20 & 3);
    cfg.log_interval = 1 + (bits >> 21 & 3) * 5;
    cfg.penalty_inc_multiplier = 2.0;
    cfg.penalty_dec_multiplier = 0.5;
    cfg.max_iterations = Some(12);
    cfg
}

/// A leaked context, with the fleet and the penalty set as asked
pub fn context(inst: &Inst, cfg: Config, fleet: Option<u64>, pen: Option<f64>) -> &'static Context {
    context_at(inst, cfg, fleet, pen, Instant::now())
}

pub fn context_at(
    inst: &Inst,
    cfg: Config,
    fleet: Option<u64>,
    pen: Option<f64>,
    start: Instant,
) -> &'static Context {
    let ctx = Context::new(inst.parser(), cfg, start);
    if let Some(f) = fleet {
        ctx.config.borrow_mut().num_vehicles = f;
    }
    if let Some(p) = pen {
        ctx.config.borrow_mut().penalty_capacity = p;
    }
    Box::leak(Box::new(ctx))
}

/// Frees a leaked context nothing refers to any more
pub unsafe fn release(ctx: &'static Context) {
    drop(Box::from_raw(ctx as *const Context as *mut Context));
}

pub fn usizes(r: &[i64]) -> Vec<usize> {
    r.iter().map(|&x| x as usize).collect()
}

pub fn ago(secs: u64) -> Instant {
    Instant::now()
        .checked_sub(Duration::from_secs(secs))
        .expect("the clock does not go back that far")
}

/// Penalty per scaled unit of demand in scaled cost
pub fn pen_int(inst: &Inst, pen: f64) -> i64 {
    sc(pen, inst.s / inst.qs)
}

/// The independently computed distances of an instance (the reference, not the code's)
pub fn ref_dist(inst: &Inst) -> Vec<Vec<i64>> {
    let m = inst.q.len();
    let mut out = vec![vec![0i64; m]; m];
    for i in 0..m {
        for j in 0..m {
            if i == j {
                continue;
            }
            out[i][j] = match &inst.d {
                Some(d) => sc(d[i.max(j)][i.min(j)], inst.s),
                None => {
                    let dx = inst.xy[i].0 - inst.xy[j].0;
                    let dy = inst.xy[i].1 - inst.xy[j].1;
                    // nearest integer to the square root of an integer, exactly
                    let s = (dx * dx + dy * dy).round() as i64;
                    let mut r = (s as f64).sqrt() as i64;
                    while (2 * r + 1) * (2 * r + 1) <= 4 * s {
                        r += 1;
                    }
                    while r > 0 && (2 * r - 1) * (2 * r - 1) > 4 * s {
                        r -= 1;
                    }
                    r * inst.s as i64
                }
            };
        }
    }
    out
}

/// Penalized cost, computed from the reference distances, scaled
pub fn cost_of(inst: &Inst, d: &[Vec<i64>], routes: &[Vec<usize>], pen: f64) -> i64 {
    let mut c = 0;
    for r in routes {
        let mut at = 0;
        let mut load = 0.0;
        for &v in r {
            c += d[at][v];
            load += inst.q[v];
            at = v;
        }
        c += d[at][0] + sc((load - inst.cap).max(0.0), inst.qs) * pen_int(inst, pen);
    }
    c
}

pub fn inst_json(inst: &Inst, ctx: &Context, pen: f64) -> Value {
    let ang: Vec<i64> = (0..inst.q.len())
        .map(|i| ref_angle(inst, i) as i64)
        .collect();
    json!({
        "k": "inst",
        "n": inst.n(),
        "cap": sc(inst.cap, inst.qs),
        "q": inst.q.iter().map(|&x| sc(x, inst.qs)).collect::<Vec<_>>(),
        "d": ref_dist(inst),
        "N": ctx.config.borrow().num_vehicles,
        "P": pen_int(inst, pen),
        "ang": ang,
        "S": inst.s as i64,
        "Q": inst.qs as i64,
    })
}

pub fn ref_angle(inst: &Inst, i: usize) -> i32 {
    let x = inst.xy[i].0 - inst.xy[0].0;
    let y = inst.xy[i].1 - inst.xy[0].1;
    (((y.atan2(x) / std::f64::consts::PI) * 32768.0).round() as i32).rem_euclid(65536)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Geo {
    Euclid,
    Metric,
    Arbitrary,
    Clustered,
    Degenerate,
}

/// Random instance. Demands are at least 0, at most cap, and cap leaves `tight` slack.
pub fn random_inst(rng: &mut fastrand::Rng, n: usize, geo: Geo, qs: f64, s: f64) -> Inst {
    let m = n + 1;
    let size = [8i64, 30, 100][rng.usize(0..3)];
    let mut xy: Vec<(f64, f64)> = match geo {
        Geo::Clustered => {
            let c: Vec<(i64, i64)> = (0..3)
                .map(|_| (rng.i64(-size..=size), rng.i64(-size..=size)))
                .collect();
            (0..m)
                .map(|_| {
                    let k = rng.usize(0..3);
                    (
                        (c[k].0 + rng.i64(-4..=4)) as f64,
                        (c[k].1 + rng.i64(-4..=4)) as f64,
                    )
                })
                .collect()
        }
        _ => (0..m)
            .map(|_| {
                (
                    rng.i64(-size..=size) as f64,
                    rng.i64(-size..=size) as f64,
                )
            })
            .collect(),
    };
    if geo == Geo::Degenerate {
        for i in 0..m {
            if rng.usize(0..3) == 0 {
                xy[i] = xy[rng.usize(0..m)];
            }
        }
    }
    let dm = [2i64, 5, 12][rng.usize(0..3)];
    let mut q: Vec<f64> = (0..m)
        .map(|i| {
            if i == 0 {
                0.0
            } else {
                let lo = if geo == Geo::Degenerate { 0 } else { 1 };
                rng.i64(lo..=dm * qs as i64) as f64 / qs
            }
        })
        .collect();
    if q.iter().sum::<f64>() == 0.0 {
        q[1] = 1.0;
    }
    let total: f64 = q.iter().sum();
    let maxq = q.iter().cloned().fold(0.0, f64::max);
    // capacity for between 1 and about n/2 vehicles
    let veh = rng.usize(1..=(n / 2).max(1)) as f64;
    let mut cap = ((total / veh) * qs).ceil() / qs;
    if rng.bool() {
        cap = ((cap * 1.25) * qs).ceil() / qs;
    }
    cap = cap.max(maxq).max(1.0 / qs);
    let d = match geo {
        Geo::Metric | Geo::Arbitrary => {
            let hi = [6i64, 20, 60][rng.usize(0..3)];
            let mut d = vec![vec![0f64; m]; m];
            for i in 0..m {
                for j in 0..i {
                    let x = rng.i64(1..=hi) as f64;
                    d[i][j] = x;
                    d[j][i] = x;
                }
            }
            if geo == Geo::Metric {
                for k in 0..m {
                    for i in 0..m {
                        for j in 0..m {
                            if d[i][k] + d[k][j] < d[i][j] {
                                d[i][j] = d[i][k] + d[k][j];
                            }
                        }
                    }
                }
            }
            Some(d)
        }
        _ => None,
    };
    Inst {
        xy,
        q,
        cap,
        d,
        s,
        qs,
    }
}

/// A Euclidean instance whose rounded distances are turned into an explicit metric matrix
pub fn closed_euclid(rng: &mut fastrand::Rng, n: usize, qs: f64, s: f64) -> Inst {
    let geo = [Geo::Euclid, Geo::Clustered][rng.usize(0..2)];
    let mut inst = random_inst(rng, n, geo, qs, s);
    let d = ref_dist(&inst);
    let m = n + 1;
    let mut f: Vec<Vec<f64>> = d
        .iter()
        .map(|r| r.iter().map(|&x| x as f64 / s).collect())
        .collect();
    for k in 0..m {
        for i in 0..m {
            for j in 0..m {
                if f[i][k] + f[k][j] < f[i][j] {
                    f[i][j] = f[i][k] + f[k][j];
                }
            }
        }
    }
    inst.d = Some(f);
    inst
}

pub fn pick<T: Copy>(rng: &mut fastrand::Rng, xs: &[T]) -> T {
    xs[rng.usize(0..xs.len())]
}

/// Random routes over the fleet
pub fn random_routes(rng: &mut fastrand::Rng, n: usize, fleet: usize, used: usize) -> Vec<Vec<usize>> {
    let mut c: Vec<usize> = (1..=n).collect();
    rng.shuffle(&mut c);
    let used = used.max(1).min(fleet);
    let mut r = vec![Vec::new(); fleet];
    for x in c {
        let k = rng.usize(0..used);
        let p = rng.usize(0..=r[k].len());
        r[k].insert(p, x);
    }
    rng.shuffle(&mut r);
    r
}

/// Routes filled up to the capacity in random order (often feasible), rest anywhere
pub fn packed_routes(rng: &mut fastrand::Rng, inst: &Inst, fleet: usize) -> Vec<Vec<usize>> {
    let mut c: Vec<usize> = (1..=inst.n()).collect();
    rng.shuffle(&mut c);
    let mut r: Vec<Vec<usize>> = vec![Vec::new(); fleet];
    let mut l = vec![0f64; fleet];
    for x in c {
        let fit: Vec<usize> = (0..fleet)
            .filter(|&k| l[k] + inst.q[x] <= inst.cap)
            .collect();
        let k = if fit.is_empty() {
            rng.usize(0..fleet)
        } else if rng.usize(0..3) == 0 {
            fit[rng.usize(0..fit.len())]
        } else {
            fit[0]
        };
        l[k] += inst.q[x];
        r[k].push(x);
    }
    r
}

pub fn individual(routes: &[Vec<usize>], number: u64) -> Individual {
    let mut ind = Individual::empty();
    ind.number = number;
    ind.genotype = routes.iter().flatten().copied().collect();
    ind.phenotype = routes.to_vec();
    ind
}

pub fn eval_json(inst: &Inst, ind: &Individual) -> Value {
    json!({
        "cost": sc(ind.evaluation.penalized_cost, inst.s),
        "feas": ind.evaluation.feasible,
        "dist": ind.evaluation.routes.iter().map(|r| sc(r.distance, inst.s)).collect::<Vec<_>>(),
        "over": ind.evaluation.routes.iter().map(|r| sc(r.overload, inst.qs)).collect::<Vec<_>>(),
        "rc": ind.evaluation.routes.iter().map(|r| sc(r.penalized_cost, inst.s)).collect::<Vec<_>>(),
    })
}
