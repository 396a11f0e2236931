//! C21: complete runs of the program on small and odd instances. real=PATH is the program to
//! run, kind=asan says that it was built with the address sanitizer (so fewer runs).
use hx::common::*;
use hx::text::*;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn main() {
    let o = &Opt::from_args();
    let mut out = Out::new(&o.out);
    let real = o.arg("real").expect("real");
    let asan = o.arg("kind").map_or(false, |k| k == "asan");
    if let Some(all) = behaviours(o) {
        for (x, v) in all.iter().enumerate() {
            let inst = inst_of(v);
            let mut cfg = varied_config(x * o.parts as usize + o.part as usize);
            let decomposed = x % 24 == 7;
            if decomposed {
                cfg.decompose_limit = 0;
                cfg.decomposed_problem_min_size = 1 + x as u64 / 24 % 3;
                cfg.max_iterations = Some(1);
            }
            let r = Run { real: &real, asan, decomposed, shape: "replayed", tl: 1000 };
            out.line(r.go(o, &inst, cfg));
        }
        out.flush();
        return;
    }
    let mut rng = o.rng(if asan { 212 } else { 21 });
    let total = if asan { o.scale(240, 3000) } else { o.scale(640, 8000) };
    for i in 0..total {
        if !o.mine(i) {
            continue;
        }
        let n = match rng.usize(0..6) {
            0 | 1 => rng.usize(1..=3),
            2 | 3 => rng.usize(1..=8),
            4 => rng.usize(5..=25),
            _ => [19, 20, 21, 22, 23, 30, 45][rng.usize(0..7)],
        };
        let geo = pick(&mut rng, &[Geo::Arbitrary, Geo::Metric, Geo::Degenerate, Geo::Clustered, Geo::Euclid]);
        let mut inst = random_inst(&mut rng, n, geo, 1.0, 1.0);
        let shape = ["none", "none", "same-place", "at-depot", "zero-demand", "all-zero", "full", "huge", "line", "large-numbers"]
            [rng.usize(0..10)];
        match shape {
            "same-place" => inst.xy = (0..=n).map(|k| if k == 0 { (0.0, 0.0) } else { (3.0, 4.0) }).collect(),
            "at-depot" => inst.xy = vec![(7.0, 7.0); n + 1],
            "zero-demand" => {
                for k in 1..=n {
                    if rng.bool() {
                        inst.q[k] = 0.0;
                    }
                }
            }
            "all-zero" => inst.q = vec![0.0; n + 1],
            "full" => {
                inst.cap = 7.0;
                inst.q = (0..=n).map(|k| if k == 0 { 0.0 } else { 7.0 }).collect();
            }
            "huge" => inst.cap = 1_000_000.0,
            "line" => inst.xy = (0..=n).map(|k| (k as f64 * 3.0, 0.0)).collect(),
            "large-numbers" => {
                for p in inst.xy.iter_mut() {
                    *p = (p.0 * 1000.0, p.1 * 1000.0);
                }
            }
            _ => {}
        }
        if !matches!(shape, "none" | "zero-demand" | "all-zero" | "full" | "huge") {
            inst.d = None;
        } else if inst.d.is_some() && rng.usize(0..6) == 0 {
            // no distance at all
            inst.d = Some(vec![vec![0.0; n + 1]; n + 1]);
        }
        let mut cfg = base_config(rng.u64(0..1 << 40));
        cfg.deterministic = rng.bool();
        cfg.local_search_granularity = pick(&mut rng, &[1, 2, 3, 5, 10, 20, 21, 40, 100]);
        cfg.dynamic_granularity = rng.usize(0..4) == 0;
        cfg.granularity_min = rng.u64(1..=10);
        cfg.linear_split = rng.usize(0..3) != 0;
        cfg.round_distances = rng.usize(0..4) != 0;
        cfg.precompute_distance_size_limit = if rng.usize(0..4) == 0 { 0 } else { 2000 };
        cfg.initial_individuals = rng.u64(1..=20);
        cfg.min_population_size = rng.u64(1..=8);
        cfg.population_lambda = rng.u64(1..=8);
        cfg.num_elites = rng.u64(0..=4);
        cfg.max_iterations_without_improvement = pick(&mut rng, &[1, 5, 20_000]);
        cfg.average_ruin_cardinality = rng.usize(1..=15);
        cfg.max_ruin_string_length = rng.usize(1..=12);
        cfg.ls_enabled = rng.usize(0..8) != 0;
        cfg.swap_star = rng.usize(0..4) != 0;
        cfg.relocate_double_reverse = rng.bool();
        cfg.rr_mutation = rng.usize(0..4) != 0;
        cfg.elite_education = rng.bool();
        cfg.elite_education_gamma = rng.u64(0..=200) as f64;
        cfg.elite_education_time_based = rng.usize(0..6) == 0;
        cfg.elite_education_time_fraction = 0.00005;
        cfg.max_iterations = Some(rng.u64(1..=60));
        let mut decomposed = rng.usize(0..12) == 0;
        if decomposed {
            cfg.decompose_limit = 0;
            cfg.decomposed_problem_min_size = rng.u64(1..=10);
            cfg.max_iterations = Some(1);
            decomposed = true;
        }
        let tl = if rng.usize(0..24) == 0 {
            cfg.max_iterations = None;
            1
        } else {
            1000
        };
        let r = Run { real: &real, asan, decomposed, shape, tl };
        out.line(r.go(o, &inst, cfg));
    }
    out.flush();
}

struct Run<'a> {
    real: &'a str,
    asan: bool,
    decomposed: bool,
    shape: &'a str,
    tl: u64,
}

impl Run<'_> {
    /// A complete run of the program
    fn go(&self, o: &Opt, inst: &Inst, mut cfg: hybridcvrp::config::Config) -> Value {
        let Run { real, asan, decomposed, shape, tl } = *self;
        let gran = cfg.local_search_granularity;
        // no time-based part of a run that is not limited by time
        if tl == 1000 {
            cfg.time_limit = 1000;
        }
        let dir = Scratch::new(o, "e2e");
        std::fs::write(dir.file("x.vrp"), vrp(inst)).unwrap();
        std::fs::write(dir.file("config.yml"), yaml(&cfg)).unwrap();
        let t0 = Instant::now();
        let mut p = Command::new(real)
            .args(&["x.vrp", "-o", "x.sol", "-t", &tl.to_string()])
            .env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=99")
            .current_dir(&dir.0)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(dir.file("err")).unwrap())
            .spawn()
            .expect("program");
        let limit = Duration::from_secs(60);
        let mut rc = -2;
        while t0.elapsed() < limit {
            if let Some(s) = p.try_wait().unwrap() {
                rc = s.code().unwrap_or(-1);
                break;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        if rc == -2 {
            let _ = p.kill();
            let _ = p.wait();
        }
        let ms = t0.elapsed().as_millis() as i64;
        let err = String::from_utf8_lossy(&std::fs::read(dir.file("err")).unwrap()).to_string();
        let found = err.contains("New best: ");
        let lines = tokens(&std::fs::read_to_string(dir.file("x.sol")).unwrap_or("? ?".into()));
        let ctx = context(inst, base_config(1), None, None);
        let mut rec = inst_json(inst, ctx, 0.0);
        rec["k"] = json!("prog");
        rec["rc"] = json!(rc);
        rec["ms"] = json!(ms);
        rec["maxms"] = json!(if tl == 1 { 11_000 } else { 60_000 });
        rec["lines"] = json!(lines);
        rec["pc"] = json!(printed_cost(&lines));
        rec["R"] = json!(printed_routes(&lines));
        rec["found"] = json!(found);
        rec["round"] = json!(cfg.round_distances || inst.d.is_some());
        rec["what"] = json!({"shape": shape, "granularity": gran, "decomposed": decomposed, "asan": asan, "timed": tl == 1});
        if rc != 0 {
            let k = err.find("panicked at").or_else(|| err.find("ERROR: AddressSanitizer")).unwrap_or(err.len().saturating_sub(1500));
            rec["err"] = json!(err[k..].chars().take(1500).collect::<String>());
            rec["instance"] = json!(vrp(inst));
            rec["config"] = json!(yaml(&cfg));
        }
        rec
    }
}
