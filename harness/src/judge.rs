//! Looks at the records of a run of the genetic algorithm. Decides only which of very many runs are
//! handed to the specification, which judges them.
use std::collections::HashMap;

use hx::common::*;

fn ints(v: &Value) -> Vec<i64> {
    v.as_array().map_or(Vec::new(), |a| a.iter().map(|x| x.as_i64().unwrap_or(BADINT)).collect())
}

fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or(BADINT)
}

fn list(v: &Value) -> &[Value] {
    v.as_array().map_or(&[], |a| a.as_slice())
}

const INF: i64 = 2_147_483_647;

struct Life {
    ni: i64,
    lb: i64,
    w: Vec<i64>,
    idle: i64,
    /// steps of the elite phase
    el: i64,
    npu: i64,
    /// possible generations of the last improvement
    bi: Vec<i64>,
    /// bound of the cost of the best solution, which may not have been seen
    lo: i64,
}

fn life(at: i64) -> Life {
    Life { ni: 0, lb: INF, w: vec![1; 100], idle: 0, el: 0, npu: at, bi: vec![at], lo: INF }
}

fn feasible(inst: &Inst, fleet: i64, r: &[Vec<usize>]) -> bool {
    let mut all: Vec<usize> = r.iter().flatten().cloned().collect();
    all.sort();
    all.into_iter().eq(1..=inst.n()) && r.iter().filter(|q| !q.is_empty()).count() as i64 <= fleet
        && r.iter().all(|q| q.iter().map(|&x| inst.q[x]).sum::<f64>() <= inst.cap)
}

fn is_child(g: &[usize], tours: &[&Vec<usize>]) -> bool {
    let n = g.len();
    for p1 in tours {
        for s in 0..n {
            for e in 0..n {
                if (s == e && n > 1) || g[s] != p1[s] || g[e] != p1[e] {
                    continue;
                }
                let inside = |k: usize| if s <= e { s <= k && k <= e } else { k >= s || k <= e };
                if (0..n).any(|k| inside(k) && g[k] != p1[k]) {
                    continue;
                }
                let fill: Vec<usize> = (1..=n).map(|j| (e + j) % n).filter(|&k| !inside(k)).map(|k| g[k]).collect();
                if tours.iter().any(|p2| p2.iter().filter(|x| fill.contains(x)).eq(fill.iter())) {
                    return true;
                }
            }
        }
    }
    n == 1
}

fn orders(r: &[Vec<usize>]) -> Vec<Vec<usize>> {
    if r.is_empty() {
        return vec![Vec::new()];
    }
    let mut out = Vec::new();
    for i in 0..r.len() {
        let mut rest = r.to_vec();
        let last = rest.remove(i);
        for mut o in orders(&rest) {
            o.extend(last.iter());
            out.push(o);
        }
    }
    out
}

pub fn judge(inst: &Inst, head: &Value, lines: &[Value]) -> Option<&'static str> {
    let d = ref_dist(inst);
    let dist = |r: &[Vec<usize>]| cost_of(inst, &d, r, 0.0);
    let excess = |r: &[Vec<usize>]| -> i64 {
        r.iter().map(|q| sc((q.iter().map(|&x| inst.q[x]).sum::<f64>() - inst.cap).max(0.0), inst.qs)).sum()
    };
    let set = |k: &str| int(&head[k]);
    let fleet = set("N");
    let n = inst.n();
    let (elite, grid, ox) = (head["elite"] == true, head["grid"] == true, set("ox") == 1);
    let mut g = life(0);
    let mut mem: HashMap<i64, (i64, i64, Vec<usize>)> = HashMap::new();
    for k in 0..lines.len() {
        let t = &lines[k];
        let kind = t["k"].as_str().unwrap_or("");
        if kind == "end" {
            continue;
        }
        if kind == "hang" {
            return Some("hang");
        }
        let start = kind == "start";
        let p = if start { t } else { &lines[k - 1] };
        let (hc, phc) = (ints(&t["hc"]), ints(&p["hc"]));
        // C01, C03
        for r in list(&t["recs"]) {
            if r["seen"] == true {
                let x = routes_json(&r["R"]);
                if !feasible(inst, fleet, &x) || int(&r["c"]) != dist(&x) {
                    return Some("recorded");
                }
            }
        }
        let hb = int(&t["hb"]);
        if let Some(&last) = hc.last() {
            let x = routes_json(&t["hl"]);
            if !feasible(inst, fleet, &x) || last != dist(&x) || x.len() as i64 > fleet || hb != last {
                return Some("delivered");
            }
        } else if hb != -1 {
            return Some("best cost");
        }
        if list(&t["bs"]).iter().any(|b| !feasible(inst, fleet, &routes_json(&b["R"]))) {
            return Some("best individual");
        }
        if !hc.starts_with(&phc) || (hc.len() == phc.len() && t["hl"] != p["hl"]) || hc.windows(2).any(|w| w[1] >= w[0]) {
            return Some("history");
        }
        let missed = |c: i64| hb == -1 || c < hb;
        let fec = ints(&t["fe"]["c"]);
        let inc = ints(&t["in"]["c"]);
        let of = |key: &str| list(&t[key]).iter().any(|x| x["x"] == true && missed(int(&x["c"])));
        if fec.iter().any(|&c| missed(c)) || of("child") || of("rrb") || of("new") {
            return Some("missed");
        }
        // C11
        let (fem, inm) = (ints(&t["fe"]["m"]), ints(&t["in"]["m"]));
        let mut all: Vec<i64> = fem.iter().chain(&inm).cloned().collect();
        let members = all.clone();
        all.sort();
        let rising = |c: &[i64]| c.windows(2).all(|w| w[0] <= w[1]);
        let pen = int(&t["P"]);
        if !rising(&fec) || (grid && pen > 0 && !rising(&inc)) || all.windows(2).any(|w| w[0] == w[1])
            || list(&t["fe"]["x"]).iter().any(|x| *x != true) || list(&t["in"]["x"]).iter().any(|x| *x != false)
            || fem.len() as i64 >= set("max") || inm.len() as i64 >= set("max") {
            return Some("populations");
        }
        // C08
        for c in list(&t["child"]) {
            let r = routes_json(&c["R"]);
            let mut all: Vec<usize> = r.iter().flatten().cloned().collect();
            all.sort();
            let mut g: Vec<i64> = ints(&c["g"]);
            g.sort();
            if !all.into_iter().eq(1..=n) || !g.into_iter().eq(1..=n as i64) {
                return Some("permutation");
            }
        }
        if t["changed"] != json!([]) {
            return Some("changed");
        }
        let same = |key: &str| t[key] == p[key];
        let generation = !same("ci");
        let tot = int(&t["tot"]);
        let restarted = generation && tot == 0;
        let initial = !generation && !same("ni");
        let cls: Vec<&str> = list(&t["cls"]).iter().filter_map(|x| x.as_str()).collect();
        let members_same = same("fe") && same("in") && same("tot");
        let quiet = !generation && !initial && members_same && same("P") && same("hc") && same("child") && cls.contains(&"same");
        let elite_step = !generation && !initial && !quiet;
        if ox && kind == "it" && generation {
            let r = routes_json(&t["child"][0]["R"]);
            let used: Vec<Vec<usize>> = r.into_iter().filter(|q| !q.is_empty()).collect();
            let tours: Vec<&Vec<usize>> = ints(&p["fe"]["m"]).iter().chain(&ints(&p["in"]["m"])).filter_map(|x| mem.get(x)).map(|m| &m.2).collect();
            if !orders(&used).iter().any(|o| is_child(o, &tours)) {
                return Some("crossover");
            }
        }
        if start {
            g = life(0);
            mem.clear();
        }
        for x in list(&t["new"]) {
            let r = routes_json(&x["R"]);
            let tour = ints(&x["g"]).iter().map(|&y| y as usize).collect();
            mem.insert(int(&x["m"]), (dist(&r), excess(&r), tour));
        }
        mem.retain(|x, _| members.contains(x));
        if t["bnd"] != true && !(elite && int(&t["ni"]) == 0 && !generation) {
            return Some("bounds");
        }
        if start {
            continue;
        }
        // C13
        let limit = int(&p["ci"]) >= set("maxit");
        let unchanged = members_same && ["P", "hc", "hl", "child", "ci", "it", "ni", "w"].iter().all(|k| same(k)) && cls.contains(&"same");
        if p["t"] == true {
            if t["t"] != true || !unchanged {
                return Some("after the end");
            }
            continue;
        }
        if t["t"] == true {
            if !limit || !unchanged {
                return Some("end");
            }
            continue;
        }
        // C10
        if let Some(b) = list(&t["rrb"]).first() {
            let used = |v: &Value| -> Vec<Vec<usize>> {
                let mut r: Vec<Vec<usize>> = routes_json(&v["R"]).into_iter().filter(|q| !q.is_empty()).collect();
                r.sort();
                r
            };
            let best = used(b);
            let ruined = int(&t["rrn"]) > 0;
            let done = elite_step && g.el > 0 && p["rrd"] == true;
            let child = (generation && !restarted && ruined) || done;
            let last = (initial && ruined) || done;
            if child && list(&t["child"]).first().map_or(true, |c| used(c) != best)
                || last && list(&t["new"]).iter().any(|x| int(&x["m"]) == tot - 1 && used(x) != best) {
                return Some("best of the search");
            }
        }
        let it = int(&p["it"]);
        let added = tot - int(&p["tot"]);
        let fresh = generation || (elite && int(&t["ni"]) == 0);
        let mut low = fec.first().cloned().unwrap_or(INF);
        if fresh {
            if let Some(c) = list(&t["child"]).first() {
                if c["x"] == true {
                    low = low.min(int(&c["c"]));
                }
            }
        }
        let unseen = !restarted && (int(&p["tot"])..tot).any(|x| {
            !members.contains(&x) && (x < tot - 1 || (!fresh && (!initial || int(&t["w"][2]) == 1)))
        });
        let due_at = |b: i64| it - b > set("noimp");
        let mut bi = g.bi.clone();
        if low < g.lo {
            bi = vec![it];
        } else if low < g.lb || unseen {
            bi.push(it);
        }
        let ni = int(&t["ni"]);
        let pni = int(&p["ni"]);
        if limit
            || (generation && !(int(&t["ci"]) == int(&p["ci"]) + 1 && int(&t["it"]) == it + 1 && pni == set("ini")))
            || (generation && !restarted && !((1..=2).contains(&added) && ni == pni))
            || (initial && !(ni == pni + 1 && (1..=2).contains(&added) && int(&t["it"]) == it && pni < set("ini")))
            || (elite_step && !(elite && pni == 0 && (0..=2).contains(&added) && int(&t["it"]) == it))
            || (generation && bi.iter().all(|&b| restarted != due_at(b)))
            || (restarted && !(ni == 0 && members.is_empty() && int(&t["w"][1]) == 100)) {
            return Some("phases");
        }
        // C14
        let due = it >= g.npu;
        let last: Vec<i64> = if generation {
            vec![(t["child"][0]["x"] == true) as i64]
        } else if fem.contains(&(tot - 1)) {
            vec![1]
        } else if inm.contains(&(tot - 1)) {
            vec![0]
        } else {
            vec![0, 1]
        };
        let push = |w: &[i64], x: i64| -> Vec<i64> { w[1..].iter().cloned().chain([x]).collect() };
        let w2 = push(&g.w, if restarted { last[0] } else { int(&t["w"][2]) });
        if !elite_step && !(generation && due) && !cls.contains(&"same") {
            return Some("penalty changes");
        }
        if elite_step && g.el > 0 && p["rrd"] == true && t["pini"] != true {
            return Some("penalty after elite education");
        }
        if generation && due {
            let c = 100 * w2.iter().sum::<i64>();
            let (lo, hi) = ((set("target") - 5) * 100, (set("target") + 5) * 100);
            let ok = (c <= lo && cls.contains(&"inc")) || (c >= hi && cls.contains(&"dec"))
                || (c >= lo && c <= hi && cls.contains(&"same"));
            if !ok {
                return Some("direction");
            }
        }
        if ((generation && !restarted) || initial) && !last.contains(&int(&t["w"][2])) {
            return Some("window");
        }
        if grid && pen > 0 && inm.iter().zip(&inc).any(|(m, &c)| mem.get(m).map_or(true, |x| x.0 + pen * x.1 != c)) {
            return Some("costs of the infeasible");
        }
        if generation && due && pen > 0 && !rising(&inc) {
            return Some("order of the infeasible");
        }
        // on with the life
        if restarted {
            g = life(it);
        } else {
            g.lb = g.lb.min(low);
            g.lo = g.lo.min(low);
            if unseen && hb != -1 {
                g.lo = g.lo.min(hb);
            }
            if generation {
                bi.retain(|&b| !due_at(b));
            }
            g.bi = bi;
            g.ni = ni;
            if generation {
                g.w = push(&g.w, int(&t["w"][2]));
                if due {
                    g.npu += set("interval");
                }
            } else if initial {
                g.w = push(&g.w, int(&t["w"][2]));
            } else if quiet {
                g.idle += 1;
            } else {
                g.el += 1;
            }
        }
        if g.idle > 3 + if elite { 6 } else { 0 } {
            return Some("idle");
        }
        if int(&t["w"][0]) != 100 || int(&t["w"][1]) != g.w.iter().sum::<i64>() {
            return Some("share");
        }
    }
    None
}
