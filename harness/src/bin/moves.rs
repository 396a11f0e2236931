//! C04: every move, its predicted change and its effect on the linked routes.
use hx::common::*;
#[path = "../links.rs"]
mod links;
use links::*;
use hybridcvrp::solver::improvement::*;

pub fn all_moves() -> Vec<Box<dyn Move>> {
    vec![
        Box::new(RelocateSingle),
        Box::new(RelocateDouble),
        Box::new(RelocateDoubleReverse),
        Box::new(SwapOneWithOne),
        Box::new(SwapTwoWithOne),
        Box::new(SwapTwoWithTwo),
        Box::new(TwoOptIntraReverse),
        Box::new(TwoOptInterReverse),
        Box::new(TwoOptInter),
    ]
}
fn to_depot(name: &str) -> bool {
    matches!(
        name,
        "RelocateSingle"
            | "RelocateDouble"
            | "RelocateDoubleReverse"
            | "TwoOptInterReverse"
            | "TwoOptInter"
    )
}

/// Whether the move may be performed at all (the specification decides this on its own; here
/// it only keeps the driver from performing what the code never performs).
fn may_perform(name: &str, r: &[Vec<usize>], u: usize, v: i64) -> bool {
    let at = |x: usize| -> (usize, usize) {
        for (k, q) in r.iter().enumerate() {
            for (p, &y) in q.iter().enumerate() {
                if x == y {
                    return (k, p + 1);
                }
            }
        }
        (usize::MAX, 0)
    };
    let (ka, i) = at(u);
    let (kb, j) = if v < 0 {
        ((-v - 1) as usize, 0)
    } else {
        at(v as usize)
    };
    let (same, la, lb) = (ka == kb, r[ka].len(), r[kb].len());
    let reloc = |w: usize| !same || !(j + 1 >= i && j < i + w);
    let swap = |w: usize, z: usize| {
        j > 0 && i + w <= la + 1 && j + z <= lb + 1 && (!same || i + w < j || j + z < i)
    };
    match name {
        "RelocateSingle" => reloc(1),
        "RelocateDouble" | "RelocateDoubleReverse" => i < la && reloc(2),
        "SwapOneWithOne" => swap(1, 1),
        "SwapTwoWithOne" => swap(2, 1),
        "SwapTwoWithTwo" => swap(2, 2),
        "TwoOptIntraReverse" => same && j > i + 1,
        _ => !same,
    }
}

fn arrangements(n: usize, k: usize) -> Vec<Vec<Vec<usize>>> {
    fn rec(x: usize, n: usize, cur: &mut Vec<Vec<usize>>, out: &mut Vec<Vec<Vec<usize>>>) {
        if x > n {
            out.push(cur.clone());
            return;
        }
        for r in 0..cur.len() {
            for p in 0..=cur[r].len() {
                cur[r].insert(p, x);
                rec(x + 1, n, cur, out);
                cur[r].remove(p);
            }
        }
    }
    let mut out = Vec::new();
    rec(1, n, &mut vec![Vec::new(); k], &mut out);
    out
}

unsafe fn step(
    out: &mut Out,
    inst: &Inst,
    ls: &mut LocalSearch,
    m: &dyn Move,
    routes: &[Vec<usize>],
    u: usize,
    v: i64,
    improving_only: bool,
) -> bool {
    let pu = place(ls, u as i64);
    let pv = place(ls, v);
    let delta = m.delta(ls, pu, pv);
    let do_it = may_perform(m.move_name(), routes, u, v) && (delta < -1e-9 || (!improving_only && delta > 1e-9));
    let mut rec = json!({
        "k": "mv", "m": m.move_name(), "u": u, "v": v,
        "R": routes, "delta": sc(delta, inst.s), "neg": delta < -1e-6, "done": do_it,
    });
    if do_it {
        ls.move_count += 1;
        m.perform(ls, pu, pv);
        rec["post"] = snapshot(inst, ls);
    }
    out.line(rec);
    do_it
}

/// Behaviours of the specification: from some routes, a few moves that apply
fn replay(out: &mut Out, all: &[Value]) {
    let moves = all_moves();
    let mut head = Value::Null;
    let mut at: Option<(Inst, LocalSearch)> = None;
    for b in all {
        let this = json!([b["d"], b["q"], b["cap"], b["P"], b["N"]]);
        if this != head {
            head = this;
            let inst = inst_of(b);
            let pen = b["P"].as_i64().unwrap() as f64;
            let ctx = context(&inst, base_config(1), b["N"].as_u64(), Some(pen));
            out.line(inst_json(&inst, ctx, pen));
            at = Some((inst, LocalSearch::new(ctx, 1.0)));
        }
        let (inst, ls) = at.as_mut().unwrap();
        let r0 = routes_json(&b["R"]);
        let mut cur = r0.clone();
        unsafe {
            ls.reset();
            ls.load_individual(&individual(&r0, 1));
            for op in b["ops"].as_array().unwrap() {
                let m = moves.iter().find(|m| m.move_name() == op[0].as_str().unwrap()).expect("move");
                let (u, v) = (op[1].as_i64().unwrap(), op[2].as_i64().unwrap());
                let (pu, pv) = (place(ls, u), place(ls, v));
                let delta = m.delta(ls, pu, pv);
                ls.move_count += 1;
                m.perform(ls, pu, pv);
                out.line(json!({"k": "mv", "m": m.move_name(), "u": u, "v": v, "R": cur,
                    "delta": sc(delta, inst.s), "neg": delta < -1e-6, "done": true, "post": snapshot(inst, ls)}));
                let next = routes_of(ls);
                if next.iter().flatten().any(|&x| x < 0) {
                    break;
                }
                cur = next.iter().map(|q| q.iter().map(|&x| x as usize).collect()).collect();
            }
        }
    }
}

/// The routes after a move that may be performed. Decides only what is recorded for the specification
/// to judge.
fn moved(name: &str, r: &[Vec<usize>], u: usize, v: i64) -> Vec<Vec<usize>> {
    let at = |x: usize| r.iter().enumerate().find_map(|(k, q)| q.iter().position(|&y| y == x).map(|p| (k, p))).unwrap();
    let (ka, i) = at(u);
    // v at index j of route kb; j1 elements of it up to and with v
    let (kb, j1) = if v < 0 { ((-v - 1) as usize, 0) } else { let (k, p) = at(v as usize); (k, p + 1) };
    let mut out = r.to_vec();
    let relocate = |w: usize, rev: bool| {
        let mut part: Vec<usize> = r[ka][i..i + w].to_vec();
        let mut out = r.to_vec();
        out[ka].drain(i..i + w);
        let p = if v < 0 { 0 } else { out[kb].iter().position(|&y| y == v as usize).unwrap() + 1 };
        if rev {
            part.reverse();
        }
        out[kb].splice(p..p, part);
        out
    };
    let swap = |w: usize, z: usize| {
        let a = r[ka][i..i + w].to_vec();
        let b = r[kb][j1 - 1..j1 - 1 + z].to_vec();
        let mut out = r.to_vec();
        // the later one first, so that the indices stay right
        if ka == kb && i > j1 - 1 {
            out[ka].splice(i..i + w, b);
            out[kb].splice(j1 - 1..j1 - 1 + z, a);
        } else if ka == kb {
            out[kb].splice(j1 - 1..j1 - 1 + z, a);
            out[ka].splice(i..i + w, b);
        } else {
            out[ka].splice(i..i + w, b);
            out[kb].splice(j1 - 1..j1 - 1 + z, a);
        }
        out
    };
    match name {
        "RelocateSingle" => relocate(1, false),
        "RelocateDouble" => relocate(2, false),
        "RelocateDoubleReverse" => relocate(2, true),
        "SwapOneWithOne" => swap(1, 1),
        "SwapTwoWithOne" => swap(2, 1),
        "SwapTwoWithTwo" => swap(2, 2),
        "TwoOptIntraReverse" => {
            out[ka][i + 1..j1].reverse();
            out
        }
        "TwoOptInterReverse" => {
            // u - next(u), v - next(v)  |->  u - v, next(u) - next(v)
            let (ha, ta) = r[ka].split_at(i + 1);
            let (hb, tb) = r[kb].split_at(j1);
            out[ka] = ha.iter().chain(hb.iter().rev()).cloned().collect();
            out[kb] = ta.iter().rev().chain(tb.iter()).cloned().collect();
            out
        }
        _ => {
            let (ha, ta) = r[ka].split_at(i + 1);
            let (hb, tb) = r[kb].split_at(j1);
            out[ka] = ha.iter().chain(tb.iter()).cloned().collect();
            out[kb] = hb.iter().chain(ta.iter()).cloned().collect();
            out
        }
    }
}

/// Many walks of which only the suspicious steps are recorded
fn screen(o: &Opt, out: &mut Out) {
    let mut rng = o.rng(44);
    let moves = all_moves();
    let mut recorded = 0;
    let mut steps = 0;
    let walks = o.scale(320_000, 8_000_000) / o.parts as usize;
    'all: for _ in 0..walks {
        let n = rng.usize(3..=16);
        let geo = pick(&mut rng, &[Geo::Euclid, Geo::Arbitrary, Geo::Metric, Geo::Clustered, Geo::Degenerate]);
        let qs = pick(&mut rng, &[1.0, 2.0]);
        let inst = random_inst(&mut rng, n, geo, qs, 4.0);
        let d = ref_dist(&inst);
        let k = rng.usize(1..=5);
        let pen = pick(&mut rng, &[0.0, 0.25, 1.0, 3.0, 20.0]) * qs;
        let ctx = context(&inst, base_config(1), Some(k as u64), Some(pen));
        let mult = pick(&mut rng, &[1.0, 10.0]);
        let pen = pen * mult;
        let mut ls = LocalSearch::new(ctx, mult);
        let r0 = random_routes(&mut rng, n, k, k);
        unsafe {
            ls.reset();
            ls.load_individual(&individual(&r0, 1));
            let mut cur = r0;
            for _ in 0..40 {
                steps += 1;
                if k >= 2 && rng.usize(0..8) == 0 {
                    let (a, b) = (rng.usize(0..k), rng.usize(0..k));
                    if a != b && !cur[a].is_empty() && !cur[b].is_empty() {
                        let pa = &mut ls.routes[a] as *mut LinkRoute;
                        let pb = &mut ls.routes[b] as *mut LinkRoute;
                        let ok = SwapStar::run(&mut ls, pa, pb);
                        let now = routes_of(&ls);
                        if !agrees(&inst, &d, pen, &ls) {
                            out.line(inst_json(&inst, ctx, pen));
                            out.line(json!({"k": "ss", "R": cur, "a": a + 1, "b": b + 1, "ok": ok, "post": snapshot(&inst, &ls)}));
                            recorded += 1;
                            break;
                        }
                        cur = now.iter().map(|x| usizes(x)).collect();
                    }
                    continue;
                }
                let u = rng.usize(1..=n);
                let m = &moves[rng.usize(0..moves.len())];
                let name = m.move_name();
                let v = if to_depot(name) && rng.usize(0..4) == 0 {
                    -(rng.usize(1..=k) as i64)
                } else {
                    rng.usize(1..=n) as i64
                };
                if v == u as i64 {
                    continue;
                }
                let pu = place(&mut ls, u as i64);
                let pv = place(&mut ls, v);
                let delta = m.delta(&ls, pu, pv);
                let may = may_perform(name, &cur, u, v);
                let want = if may { moved(name, &cur, u, v) } else { cur.clone() };
                let exact = cost_of(&inst, &d, &want, pen) - cost_of(&inst, &d, &cur, pen);
                let right = if may { sc(delta, inst.s) == exact } else { delta > -1e-6 };
                let do_it = may && delta.abs() > 1e-9;
                if do_it {
                    ls.move_count += 1;
                    m.perform(&mut ls, pu, pv);
                }
                let same = (0..k).all(|r| forward(&ls, r).iter().map(|&x| x as usize).eq(want[r].iter().cloned()));
                if !right || (do_it && (!same || !agrees(&inst, &d, pen, &ls))) {
                    out.line(inst_json(&inst, ctx, pen));
                    let mut rec = json!({"k": "mv", "m": name, "u": u, "v": v, "R": cur,
                        "delta": sc(delta, inst.s), "neg": delta < -1e-6, "done": do_it});
                    if do_it {
                        rec["post"] = snapshot(&inst, &ls);
                    }
                    out.line(rec);
                    recorded += 1;
                    break;
                }
                if do_it {
                    cur = want;
                }
            }
            if recorded >= 8 {
                break 'all;
            }
            drop(ls);
            release(ctx);
        }
    }
    out.line(json!({"k": "screened", "steps": steps}));
    out.flush();
}

fn main() {
    let o = &Opt::from_args();
    let mut out = Out::new(&o.out);
    if let Some(b) = behaviours(o) {
        replay(&mut out, &b);
        out.flush();
        return;
    }
    if o.arg("screen").is_some() {
        return screen(o, &mut out);
    }
    let mut rng = o.rng(4);
    let moves = all_moves();
    let pens = [0.0, 0.25, 1.0, 3.0, 20.0];

    // Exhaustive: all arrangements of n customers on the routes, all moves, all places
    let small: Vec<(usize, usize)> = if o.thorough {
        vec![(1, 2), (2, 2), (2, 3), (3, 3), (4, 2), (4, 3), (5, 2)]
    } else {
        vec![(1, 2), (2, 2), (3, 2), (3, 3), (4, 2)]
    };
    let mut combo = 0u64;
    for (n, k) in small {
        let arr = arrangements(n, k);
        for (ci, chunk) in arr.chunks(24).enumerate() {
            combo += 1;
            // the larger ones only in part, a different part for every seed
            if n >= 4 && !o.thorough && (ci as u64 + o.seed) % 2 != 0 {
                continue;
            }
            if combo % o.parts != o.part {
                continue;
            }
            let geo = pick(&mut rng, &[Geo::Euclid, Geo::Arbitrary, Geo::Metric, Geo::Arbitrary]);
            let qs = pick(&mut rng, &[1.0, 1.0, 2.0]);
            let inst = random_inst(&mut rng, n, geo, qs, 4.0);
            let pen = pick(&mut rng, &pens) * qs;
            let ctx = context(&inst, base_config(1), Some(k as u64), Some(pen));
            let mut ls = LocalSearch::new(ctx, 1.0);
            out.line(inst_json(&inst, ctx, pen));
            for r in chunk {
                let ind = individual(r, 1);
                unsafe {
                    ls.load_individual(&ind);
                    out.line(json!({"k": "ld", "R": r, "post": snapshot(&inst, &ls)}));
                    for m in moves.iter() {
                        for u in 1..=n {
                            for v in (-(k as i64))..=(n as i64) {
                                if v == 0 || v == u as i64 || (v < 0 && !to_depot(m.move_name())) {
                                    continue;
                                }
                                if step(&mut out, &inst, &mut ls, m.as_ref(), r, u, v, false) {
                                    ls.load_individual(&ind);
                                }
                            }
                        }
                    }
                }
            }
        }
    }

    // Walks: moves one after the other on the same linked routes, with reloads and other
    // penalties in between
    let walks = o.scale(40, 600);
    for w in 0..walks {
        if (w as u64) % o.parts != o.part {
            continue;
        }
        let n = rng.usize(4..=11);
        let geo = pick(
            &mut rng,
            &[Geo::Euclid, Geo::Arbitrary, Geo::Metric, Geo::Clustered, Geo::Degenerate],
        );
        let qs = pick(&mut rng, &[1.0, 1.0, 2.0]);
        let inst = random_inst(&mut rng, n, geo, qs, 4.0);
        let k = rng.usize(1..=5);
        let pen = pick(&mut rng, &pens) * qs;
        let ctx = context(&inst, base_config(1), Some(k as u64), Some(pen));
        let mult = pick(&mut rng, &[1.0, 10.0]);
        let mut ls = LocalSearch::new(ctx, mult);
        let mut head = inst_json(&inst, ctx, pen * mult);
        head["walk"] = json!(w);
        out.line(head);
        for _ in 0..2 {
            let r0 = random_routes(&mut rng, n, k, k);
            let ind = individual(&r0, 1);
            unsafe {
                ls.reset();
                ls.load_individual(&ind);
                out.line(json!({"k": "ld", "R": r0, "post": snapshot(&inst, &ls)}));
                for _ in 0..o.scale(30, 60) {
                    let cur = routes_of(&ls);
                    if cur.iter().flatten().any(|&x| x < 0) {
                        break;
                    }
                    let cur: Vec<Vec<usize>> = cur
                        .iter()
                        .map(|q| q.iter().map(|&x| x as usize).collect())
                        .collect();
                    if k >= 2 && rng.usize(0..6) == 0 {
                        // a SWAP* exchange in between
                        let a = rng.usize(0..k);
                        let b = rng.usize(0..k);
                        if a != b && !cur[a].is_empty() && !cur[b].is_empty() {
                            let pa = &mut ls.routes[a] as *mut LinkRoute;
                            let pb = &mut ls.routes[b] as *mut LinkRoute;
                            let ok = SwapStar::run(&mut ls, pa, pb);
                            out.line(json!({"k": "ss", "R": cur, "a": a + 1, "b": b + 1, "ok": ok,
                                "post": snapshot(&inst, &ls)}));
                            continue;
                        }
                    }
                    let u = rng.usize(1..=n);
                    let m = &moves[rng.usize(0..moves.len())];
                    let v = if to_depot(m.move_name()) && rng.usize(0..3) == 0 {
                        -(rng.usize(1..=k) as i64)
                    } else {
                        rng.usize(1..=n) as i64
                    };
                    if v == u as i64 {
                        continue;
                    }
                    step(&mut out, &inst, &mut ls, m.as_ref(), &cur, u, v, false);
                }
            }
        }
    }
    out.flush();
}
