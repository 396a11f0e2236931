//! C19: instance files.
use hx::common::*;
use hx::text::*;
use hybridcvrp::solver::Context;
use hybridcvrp::utils::ProblemParser;
use std::collections::BTreeMap;
use std::time::Instant;

/// A number written in some way: its text and its value in parts of 1 / unit
fn number(rng: &mut fastrand::Rng, lo: i64, hi: i64, whole: bool, unit: i64) -> (String, i64) {
    let v = if whole { rng.i64(lo..=hi) * unit } else { rng.i64(lo * unit..=hi * unit) };
    let (neg, a) = (v < 0, v.abs());
    let (i, f) = (a / unit, a % unit);
    let digits = unit.to_string().len() - 1;
    let sign = if neg { "-" } else if rng.usize(0..12) == 0 { "+" } else { "" };
    let t = if f == 0 {
        match rng.usize(0..10) {
            0 => format!("{}.0", i),
            1 => format!("{}.", i),
            2 => format!("0{}", i),
            3 => format!("{}.000000", i),
            4 if i % 10 == 0 && i > 0 => format!("{}e1", i / 10),
            5 => format!("{}E0", i),
            6 if i % 10 == 0 => format!("{}.0e+01", i / 10),
            7 if i % 1000 == 0 => format!("{}e3", i / 1000),
            _ => format!("{}", i),
        }
    } else {
        let frac = format!("{:0w$}", f, w = digits);
        match rng.usize(0..8) {
            0 => format!("{}e-{}", a, digits),
            1 | 2 => format!("{}.{}", i, frac.trim_end_matches('0')),
            3 if i == 0 => format!(".{}", frac),
            4 if i > 9 => format!("{}.{}{}e+1", i / 10, i % 10, frac),
            5 => format!("{}.{}000", i, frac),
            _ => format!("{}.{}", i, frac),
        }
    };
    (format!("{}{}", sign, t), v)
}

struct Text {
    lines: Vec<Vec<String>>,
    nums: BTreeMap<String, i64>,
}

impl Text {
    fn num(&mut self, n: (String, i64)) -> String {
        self.nums.insert(n.0.clone(), n.1);
        n.0
    }
    fn push(&mut self, ws: &[&str]) {
        self.lines.push(ws.iter().map(|x| x.to_string()).collect());
    }
}

/// The file as text, in some spacing
fn render(rng: &mut fastrand::Rng, parts: &[Vec<Vec<String>>], t: &mut Text) -> String {
    // as text
    let style = rng.usize(0..5);
    let eol = if rng.usize(0..5) == 0 { "\r\n" } else { "\n" };
    let mut text = String::new();
    for part in parts {
        for (k, line) in part.iter().enumerate() {
            let section = part.len() > 1;
            let ws: Vec<&str> = line.iter().map(|x| x.as_str()).collect();
            t.push(&ws);
            let mut s = String::new();
            if rng.usize(0..6) == 0 && style > 0 {
                s += [" ", "\t", "   "][rng.usize(0..3)];
            }
            for (j, w) in line.iter().enumerate() {
                if j > 0 || (k == 0 && !section && line.len() == 1) {
                    s += match (style, k == 0 && j <= 1 && !section) {
                        (0, true) => " : ",
                        (0, false) => " ",
                        (1, true) => ": ",
                        (1, false) => "\t",
                        (2, true) => ":",
                        (2, false) => "  ",
                        (_, true) => [" : ", ":", ": ", " :", "\t:\t", " "][rng.usize(0..6)],
                        (_, false) => [" ", "\t", "    ", " \t"][rng.usize(0..4)],
                    };
                }
                if !(k == 0 && !section && line.len() == 1) || j == 0 {
                    s += w;
                }
            }
            if rng.usize(0..6) == 0 && style > 0 {
                s += [" ", "\t", "  "][rng.usize(0..3)];
            }
            text += &s;
            text += eol;
        }
        if style > 2 && rng.usize(0..6) == 0 {
            t.lines.push(Vec::new());
            text += eol;
        }
    }
    if rng.usize(0..6) == 0 {
        // no end of the last line
        while text.ends_with('\n') || text.ends_with('\r') {
            text.pop();
        }
    }
    text
}

/// Reads it with the real code
fn read(out: &mut Out, dir: &Scratch, text: String, t: &Text, explicit: bool, m: usize) {
    let u = t.nums[""] as f64;
    let path = dir.file("x.vrp");
    std::fs::write(&path, &text).unwrap();
    let mut cfg = base_config(1);
    cfg.instance_path = path;
    cfg.round_distances = false;
    let mut p = ProblemParser::new();
    p.parse(&mut cfg);
    let matrix = p.matrix.clone();
    let ctx = Context::new(p, cfg, Instant::now());
    let pr = &ctx.problem;
    let nums: Value = Value::Object(t.nums.iter().map(|(k, v)| (k.clone(), json!(v))).collect());
    out.line(json!({
        "k": "file", "lines": t.lines, "num": nums, "text": if text.len() < 1500 { text } else { String::new() },
        "got": {
            "n": pr.num_customers(), "dim": pr.dim(), "cap": sc(pr.vehicle.cap, u),
            "xy": pr.nodes.iter().map(|x| vec![sc(x.coord.lng, u), sc(x.coord.lat, u)]).collect::<Vec<_>>(),
            "q": pr.nodes.iter().map(|x| sc(x.demand, u)).collect::<Vec<_>>(),
            "explicit": matrix.is_some(),
            "rows": matrix.unwrap_or_default().iter()
                .map(|r| r.iter().map(|&x| sc(x, u)).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "d": if explicit {
                (0..m).map(|a| (0..m).map(|b| sc(ctx.matrix_provider.distance.get(a, b), u)).collect::<Vec<_>>()).collect::<Vec<_>>()
            } else { Vec::new() },
            "N": ctx.config.borrow().num_vehicles,
            "lb": ctx.vehicle_lower_bound(),
        },
    }));
}

/// The files of the specification
fn replay(o: &Opt, out: &mut Out, all: &[Value]) {
    let mut rng = o.rng(1919);
    let dir = Scratch::new(o, "parsed");
    for v in all {
        let strs = |x: &Value| -> Vec<String> { x.as_array().unwrap().iter().map(|w| w.as_str().unwrap().to_string()).collect() };
        let parts: Vec<Vec<Vec<String>>> =
            v["parts"].as_array().unwrap().iter().map(|p| p.as_array().unwrap().iter().map(|l| strs(l)).collect()).collect();
        let mut t = Text { lines: Vec::new(), nums: BTreeMap::new() };
        for (k, x) in v["num"].as_object().unwrap() {
            t.nums.insert(k.clone(), x.as_i64().unwrap());
        }
        let text = render(&mut rng, &parts, &mut t);
        read(out, &dir, text, &t, v["explicit"].as_bool().unwrap(), v["m"].as_u64().unwrap() as usize);
    }
    out.flush();
}

fn main() {
    let o = &Opt::from_args();
    let mut out = Out::new(&o.out);
    if let Some(b) = behaviours(o) {
        replay(o, &mut out, &b);
        return;
    }
    let mut rng = o.rng(19);
    let dir = Scratch::new(o, "parse");
    for i in 0..o.scale(1600, 24000) {
        if !o.mine(i) {
            continue;
        }
        let m = match rng.usize(0..64) {
            0 => rng.usize(200..=400),
            1..=4 => rng.usize(2..=60),
            _ => rng.usize(2..=12),
        };
        let explicit = m < 100 && rng.bool();
        // what the numbers are counted in: they have few decimals, many, or none but are large
        let unit = [100, 100, 1_000_000, 1][rng.usize(0..4)];
        let whole = rng.bool();
        let mut t = Text { lines: Vec::new(), nums: BTreeMap::new() };
        t.nums.insert(String::new(), unit);
        let cap = {
            let w = whole || rng.bool();
            number(&mut rng, 20, [900, 900_000_000][(unit == 1) as usize], w, unit)
        };
        // the parts of the file, each with its lines
        let mut parts: Vec<Vec<Vec<String>>> = Vec::new();
        let mut one = |k: &str, v: &[String]| {
            let mut l = vec![k.to_string()];
            l.extend(v.iter().cloned());
            parts.push(vec![l]);
        };
        let words = ["DIMENSION", "7", "CAPACITY", "no", "EUC_2D", "(best", "1000)", "EXPLICIT", "NODE_COORD_SECTION"];
        if rng.usize(0..8) != 0 {
            one("NAME", &[format!("X-n{}-k3", m)]);
        }
        if rng.usize(0..8) != 0 {
            let k = rng.usize(0..4);
            let v: Vec<String> = (0..k).map(|_| words[rng.usize(0..words.len())].to_string()).collect();
            one("COMMENT", &v);
        }
        if rng.usize(0..8) != 0 {
            one("TYPE", &["CVRP".to_string()]);
        }
        let dim = t.num((m.to_string(), m as i64 * unit));
        one("DIMENSION", &[dim]);
        let c = t.num(cap.clone());
        one("CAPACITY", &[c]);
        one("EDGE_WEIGHT_TYPE", &[if explicit { "EXPLICIT" } else { "EUC_2D" }.to_string()]);
        if explicit {
            one("EDGE_WEIGHT_FORMAT", &["LOWER_ROW".to_string()]);
        }
        if rng.bool() {
            rng.shuffle(&mut parts);
        }
        let head = parts.len();
        let range = match unit {
            1 => [1000, 20_000_000, 1_900_000_000][rng.usize(0..3)],
            100 => [30, 1000, 100_000][rng.usize(0..3)],
            _ => [1, 30, 1900][rng.usize(0..3)],
        };
        let neg = if rng.bool() { -range } else { 0 };
        let mut sec = vec![vec!["NODE_COORD_SECTION".to_string()]];
        for k in 1..=m {
            let x = number(&mut rng, neg, range, whole, unit);
            let y = number(&mut rng, neg, range, whole, unit);
            sec.push(vec![k.to_string(), t.num(x), t.num(y)]);
        }
        parts.push(sec);
        let mut sec = vec![vec!["DEMAND_SECTION".to_string()]];
        let mut total = 0;
        let edge = rng.bool();
        for k in 1..=m {
            // in quarters, which add up exactly
            let w = whole || rng.bool();
            let q = if k == 1 {
                ("0".to_string(), 0)
            } else if unit == 1 && k == m && edge {
                // the sum is a multiple of the capacity, or just misses it
                let k = total / cap.1 + 1;
                let v = (k * cap.1 + rng.i64(-1..=1) - total).max(0);
                (format!("{v}"), v)
            } else if unit == 1 {
                number(&mut rng, 0, [20, (1_000_000_000 / m as i64).min(cap.1 * 300 / m as i64)][(cap.1 > 1_000_000) as usize], true, unit)
            } else if w {
                number(&mut rng, 0, 20.min(1000 / m as i64), true, unit)
            } else if unit > 100 && cap.1 % unit != 0 {
                // (the capacity has so many digits that the sum is no multiple of it but by chance)
                number(&mut rng, 0, 20.min(1000 / m as i64), false, unit)
            } else {
                let v = rng.i64(0..=20.min(1000 / m as i64) * 4);
                (format!("{}", v as f64 / 4.0), v * unit / 4)
            };
            total += q.1;
            sec.push(vec![k.to_string(), t.num(q)]);
        }
        parts.push(sec);
        if unit > 100 && total % cap.1 == 0 && total > 0 {
            continue;
        }
        if explicit {
            let mut sec = vec![vec!["EDGE_WEIGHT_SECTION".to_string()]];
            for k in 1..m {
                let row: Vec<(String, i64)> = (0..k).map(|_| number(&mut rng, 0, range, whole, unit)).collect();
                sec.push(row.into_iter().map(|x| t.num(x)).collect());
            }
            parts.push(sec);
        }
        if rng.usize(0..8) != 0 {
            parts.push(vec![vec!["DEPOT_SECTION".into()], vec!["1".into()], vec!["-1".into()]]);
        }
        match rng.usize(0..4) {
            // any order
            0 => rng.shuffle(&mut parts),
            1 => rng.shuffle(&mut parts[head..]),
            _ => {}
        }
        if rng.usize(0..8) != 0 {
            parts.push(vec![vec!["EOF".into()]]);
        }
        let text = render(&mut rng, &parts, &mut t);
        read(&mut out, &dir, text, &t, explicit, m);
    }
    out.flush();
}
