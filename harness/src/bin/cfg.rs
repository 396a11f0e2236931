//! C18: effective configuration. Child processes read config.yml in their working directory
//! and the arguments they are given, the way main does.
use hx::common::*;
use hx::text::*;
use hybridcvrp::cli::Args;
use hybridcvrp::config::Config;
use std::process::{Command, Stdio};

/// A value in a form that does not depend on how it is written
fn canon(v: &Value) -> String {
    match v {
        Value::Number(n) => format!("{:?}", n.as_f64().unwrap()),
        Value::String(s) => format!("'{}'", s),
        Value::Null => "null".into(),
        v => v.to_string(),
    }
}

fn all(c: &Config) -> Value {
    match serde_json::to_value(c).unwrap() {
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), json!(canon(v)))).collect()),
        _ => unreachable!(),
    }
}

/// Complete runs: two customers on a line, 5 with rounded distances and 6 without
fn runs(o: &Opt, real: &str, out: &mut Out, rng: &mut fastrand::Rng) {
    for i in 0..o.scale(64, 640) {
        if !o.mine(i) {
            continue;
        }
        let dir = Scratch::new(o, "run");
        std::fs::write(
            dir.file("x.vrp"),
            "NAME: x\nDIMENSION: 3\nCAPACITY: 2\nEDGE_WEIGHT_TYPE: EUC_2D\nNODE_COORD_SECTION\n1 0 0\n2 1 1\n3 2 2\n\
             DEMAND_SECTION\n1 0\n2 1\n3 1\nDEPOT_SECTION\n1\n-1\nEOF\n",
        )
        .unwrap();
        let mut y = serde_json::Map::new();
        let mut a = serde_json::Map::new();
        let mut text = String::from("max_iterations: 20\ninitial_individuals: 3\nelite_education: false\n");
        let mut args = vec!["x.vrp".to_string()];
        let mut set = |k: &str, v: Value| {
            text += &format!("{}: {}\n", k, v);
            y.insert(k.into(), json!(canon(&v)));
        };
        if rng.bool() {
            set("round_distances", json!(rng.bool()));
        }
        if rng.bool() {
            set("time_limit", json!(pick(rng, &[0, 50])));
        }
        if rng.bool() {
            set("solution_path", json!(format!("y{}.sol", i)));
        }
        if rng.usize(0..4) == 0 {
            set("deterministic", json!(true));
        }
        let mut opt = |k: &str, f: &str, v: Value, t: String| {
            a.insert(k.into(), json!(canon(&v)));
            args.push(f.into());
            args.push(t);
        };
        if rng.bool() {
            let b = rng.bool();
            opt("round_distances", "-r", json!(b), b.to_string());
        }
        if rng.bool() {
            let x = pick(rng, &[0, 50]);
            opt("time_limit", "-t", json!(x), x.to_string());
        }
        if rng.bool() {
            opt("solution_path", "-o", json!("a.sol"), "a.sol".into());
        }
        if rng.bool() {
            let x = rng.u64(5..100);
            opt("max_iterations_without_improvement", "-i", json!(x), x.to_string());
        }
        std::fs::write(dir.file("config.yml"), &text).unwrap();
        let p = Command::new(real).args(&args).current_dir(&dir.0).stdin(Stdio::null()).output().expect("child");
        let mut files: Vec<String> = std::fs::read_dir(&dir.0)
            .unwrap()
            .map(|e| e.unwrap().file_name().to_string_lossy().to_string())
            .filter(|f| f.ends_with(".sol"))
            .collect();
        files.sort();
        let lines = files.first().map(|f| tokens(&std::fs::read_to_string(dir.file(f)).unwrap())).unwrap_or_default();
        out.line(json!({
            "k": "run", "def": all(&Config::default()), "yaml": y, "arg": a, "rc": p.status.code().unwrap_or(-1),
            "files": files.iter().map(|f| format!("'{}'", f)).collect::<Vec<_>>(), "lines": lines.len(),
            "cost": printed_cost(&lines)[1], "rounded": 5, "exact": 6, "cmd": args, "text": text,
            "err": if p.status.success() { String::new() } else { String::from_utf8_lossy(&p.stderr).to_string() },
        }));
    }
}

/// The plain text of a value in canonical form
fn plain(v: &Value) -> String {
    v.as_str().unwrap().trim_end_matches(".0").trim_matches('\'').to_string()
}

/// Behaviours of the specification: files, arguments and resets one after the other
fn replay(o: &Opt, out: &mut Out, all_ops: &[Value]) {
    let dir = Scratch::new(o, "ops");
    for b in all_ops {
        let ops = b["ops"].as_array().unwrap();
        let mut args = vec!["unused.vrp".to_string()];
        let mut plan = String::new();
        for (i, op) in ops.iter().enumerate() {
            let name = op[0].as_str().unwrap();
            plan += &format!("{} ", name);
            let map = op[1].as_object().unwrap();
            if name == "args" {
                args.clear();
                for (k, v) in map {
                    let flag = match k.as_str() {
                        "instance_path" => "",
                        "solution_path" => "-o",
                        "time_limit" => "-t",
                        "round_distances" => "-r",
                        "max_iterations_without_improvement" => "-i",
                        k => panic!("no flag for {}", k),
                    };
                    if !flag.is_empty() {
                        args.push(flag.into());
                    }
                    args.push(plain(v));
                }
            } else {
                let text: String = map.iter().map(|(k, v)| format!("{}: {}\n", k, plain(v))).collect();
                std::fs::write(dir.file(&format!("{}.yml", i)), text).unwrap();
            }
        }
        let p = Command::new(std::env::current_exe().unwrap())
            .args(&args)
            .env("HX_CHILD", &plan)
            .current_dir(&dir.0)
            .stdin(Stdio::null())
            .output()
            .expect("child");
        if !p.status.success() {
            eprintln!("operations {}\n{}", b, String::from_utf8_lossy(&p.stderr));
            std::process::exit(101);
        }
        let eff: Value = serde_json::from_str(&String::from_utf8_lossy(&p.stdout)).unwrap();
        out.line(json!({"k": "chain", "def": all(&Config::default()), "ops": ops, "eff": eff}));
    }
}

fn child_ops(plan: &str) {
    let mut config = Config::default();
    for (i, op) in plan.split_whitespace().enumerate() {
        let file = format!("{}.yml", i);
        match op {
            "load" => config = Config::load_yaml_file(&file),
            "update" => config.update_from_yaml_file(&file),
            "reset" => config.reset(),
            _ => config.update_from_args(&Args::parse()),
        }
    }
    println!("{}", all(&config));
}

fn main() {
    if let Ok(plan) = std::env::var("HX_CHILD") {
        if plan != "1" {
            return child_ops(&plan);
        }
        let mut config = Config::load_yaml_file("config.yml");
        let args = Args::parse();
        config.update_from_args(&args);
        println!("{}", all(&config));
        return;
    }
    let o = &Opt::from_args();
    let mut out = Out::new(&o.out);
    let mut rng = o.rng(18);
    if let Some(b) = behaviours(o) {
        replay(o, &mut out, &b);
        out.flush();
        return;
    }
    let dir = Scratch::new(o, "cfg");
    if let Some(real) = o.arg("real") {
        runs(o, &real, &mut out, &mut rng);
        out.flush();
        return;
    }
    let defaults = match serde_json::to_value(Config::default()).unwrap() {
        Value::Object(m) => m,
        _ => unreachable!(),
    };
    for i in 0..o.scale(1200, 16000) {
        if !o.mine(i) {
            continue;
        }
        let mut yaml = String::new();
        let mut given = serde_json::Map::new();
        let density = rng.usize(1..=10);
        let mut keys: Vec<&String> = defaults.keys().collect();
        rng.shuffle(&mut keys);
        for k in keys {
            if rng.usize(0..10) >= density {
                continue;
            }
            let d = &defaults[k];
            // floats, booleans, paths and numbers by the kind of the default
            let (text, val) = match d {
                Value::Bool(_) => {
                    let b = rng.bool();
                    (b.to_string(), json!(b))
                }
                Value::Number(n) if n.is_f64() => {
                    let x = rng.u64(0..4000) as f64 / 8.0;
                    let t = if x.fract() == 0.0 && rng.bool() { format!("{}", x as u64) } else { format!("{:?}", x) };
                    (t, json!(x))
                }
                Value::Null if k == "bks" => {
                    let x = rng.u64(1..4000) as f64 / 4.0;
                    (format!("{:?}", x), json!(x))
                }
                Value::Null if k == "solution_path" => {
                    if rng.usize(0..6) == 0 {
                        ("null".into(), Value::Null)
                    } else {
                        let p = format!("from/yaml{}.sol", rng.u64(0..100));
                        (if rng.bool() { p.clone() } else { format!("\"{}\"", p) }, json!(p))
                    }
                }
                Value::Null => {
                    if rng.usize(0..6) == 0 {
                        ("null".into(), Value::Null)
                    } else {
                        let x = rng.u64(0..1 << 40);
                        (x.to_string(), json!(x))
                    }
                }
                Value::String(_) => (format!("yaml{}.vrp", i), json!(format!("yaml{}.vrp", i))),
                _ => {
                    let x = if rng.bool() { rng.u64(0..1000) } else { rng.u64(0..1 << 40) };
                    (x.to_string(), json!(x))
                }
            };
            yaml += &format!("{}: {}\n", k, text);
            given.insert(k.clone(), json!(canon(&val)));
            if rng.usize(0..8) == 0 {
                yaml += ["# time_limit: 17\n", "\n", "blink_probability: 0.01\n", "Time_limit: 3\n", "rounded: false\n", "iterations: 5\n", "extra: [1, 2]\n"]
                    [rng.usize(0..2)];
            }
        }
        for (j, u) in ["ruin_alpha: 0.5", "timelimit: 3", "rounded: false", "iterations: 5", "extra: {time_limit: 4}", "output: x.sol"].iter().enumerate() {
            if rng.usize(0..6) == 0 || (yaml.is_empty() && j == 5) {
                yaml = if rng.bool() { format!("{}{}\n", yaml, u) } else { format!("{}\n{}", u, yaml) };
            }
        }
        std::fs::write(dir.0.join("config.yml"), &yaml).unwrap();
        // arguments
        let mut args: Vec<Vec<String>> = Vec::new();
        let mut by_arg = serde_json::Map::new();
        let inst = format!("some/dir/instance{}.vrp", rng.u64(0..100));
        by_arg.insert("instance_path".into(), json!(canon(&json!(inst))));
        args.push(vec![inst]);
        let mut opt = |key: &str, flag: &str, v: Value, text: String, rng: &mut fastrand::Rng| {
            by_arg.insert(key.into(), json!(canon(&v)));
            args.push(if rng.bool() { vec![flag.to_string(), text] } else { vec![format!("{}{}", flag, text)] });
        };
        if rng.bool() {
            let p = format!("by/arg{}.sol", rng.u64(0..100));
            opt("solution_path", "-o", json!(p), p.clone(), &mut rng);
        }
        if rng.bool() {
            let x = if rng.bool() { rng.u64(0..100) } else { rng.u64(0..1 << 40) };
            opt("max_iterations_without_improvement", "-i", json!(x), x.to_string(), &mut rng);
        }
        if rng.bool() {
            let x = if rng.bool() { rng.u64(0..100) } else { rng.u64(0..1 << 40) };
            opt("time_limit", "-t", json!(x), x.to_string(), &mut rng);
        }
        if rng.bool() {
            let b = rng.bool();
            opt("round_distances", "-r", json!(b), b.to_string(), &mut rng);
        }
        rng.shuffle(&mut args);
        let flat: Vec<String> = args.into_iter().flatten().collect();
        let p = Command::new(std::env::current_exe().unwrap())
            .args(&flat)
            .env("HX_CHILD", "1")
            .current_dir(&dir.0)
            .stdin(Stdio::null())
            .output()
            .expect("child");
        if !p.status.success() {
            eprintln!("arguments {:?} config {}\n{}", flat, yaml, String::from_utf8_lossy(&p.stderr));
            std::process::exit(101);
        }
        let eff: Value = serde_json::from_str(&String::from_utf8_lossy(&p.stdout)).unwrap();
        out.line(json!({"k": "cfg", "def": all(&Config::default()), "yaml": given, "arg": by_arg, "eff": eff,
                        "cmd": flat, "text": yaml}));
    }
    out.flush();
}
