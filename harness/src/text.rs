//! Texts as lines of tokens, and scratch directories.
use crate::common::*;
use std::path::PathBuf;

/// Lines as tokens; empty lines at the end are dropped
pub fn tokens(text: &str) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = text
        .split('\n')
        .map(|l| l.split_whitespace().map(String::from).collect())
        .collect();
    while v.last().map_or(false, |l: &Vec<String>| l.is_empty()) {
        v.pop();
    }
    v
}

/// A cost as [millions, rest in thousandths rounded down]
pub fn split_cost(c: f64) -> Vec<i64> {
    let m = (c / 1_000_000.0).floor();
    if !(c >= 0.0) || m > 2.0e9 {
        return vec![-1, -1];
    }
    vec![m as i64, ((c - m * 1_000_000.0) * 1000.0).floor() as i64]
}

/// A cost as printed, as [millions, rest], or [-1, -1]
pub fn printed_cost(lines: &[Vec<String>]) -> Vec<i64> {
    match lines.last() {
        Some(l) if l.len() == 2 && l[1].bytes().all(|b| b.is_ascii_digit()) && l[1].len() < 16 => {
            let x: u64 = l[1].parse().unwrap();
            vec![(x / 1_000_000) as i64, (x % 1_000_000) as i64]
        }
        _ => vec![-1, -1],
    }
}

/// The customers of printed routes, 0 for what is no number
pub fn printed_routes(lines: &[Vec<String>]) -> Vec<Vec<u64>> {
    lines
        .iter()
        .filter(|l| l.first().map_or(false, |t| t == "Route"))
        .map(|l| l.iter().skip(2).map(|t| t.parse().unwrap_or(0)).collect())
        .collect()
}

pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(o: &Opt, name: &str) -> Self {
        let p = PathBuf::from(format!("{}.{}.d", o.out, name));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn file(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// The instance as a file the program reads
pub fn vrp(inst: &Inst) -> String {
    let mut s = format!(
        "NAME : test\nCOMMENT : none\nTYPE : CVRP\nDIMENSION : {}\nEDGE_WEIGHT_TYPE : {}\n",
        inst.n() + 1,
        if inst.d.is_some() { "EXPLICIT" } else { "EUC_2D" }
    );
    if inst.d.is_some() {
        s += "EDGE_WEIGHT_FORMAT : LOWER_ROW\n";
    }
    s += &format!("CAPACITY : {}\n", inst.cap);
    if let Some(d) = &inst.d {
        s += "EDGE_WEIGHT_SECTION\n";
        for i in 1..d.len() {
            let r: Vec<String> = (0..i).map(|j| d[i][j].to_string()).collect();
            s += &(r.join(" ") + "\n");
        }
    }
    s += "NODE_COORD_SECTION\n";
    for (i, p) in inst.xy.iter().enumerate() {
        s += &format!("{} {} {}\n", i + 1, p.0, p.1);
    }
    s += "DEMAND_SECTION\n";
    for (i, q) in inst.q.iter().enumerate() {
        s += &format!("{} {}\n", i + 1, q);
    }
    s += "DEPOT_SECTION\n1\n-1\nEOF\n";
    s
}

/// The configuration as a YAML file
pub fn yaml(cfg: &hybridcvrp::config::Config) -> String {
    match serde_json::to_value(cfg).unwrap() {
        Value::Object(m) => m
            .iter()
            .filter(|(k, v)| !v.is_null() && k.as_str() != "instance_path")
            .map(|(k, v)| format!("{}: {}\n", k, v))
            .collect(),
        _ => unreachable!(),
    }
}
