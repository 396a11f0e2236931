//! C23: sectors of angle sequences, of pairs, and of the routes of a local search; angles.
use hx::common::*;
use hybridcvrp::models::CircleSector;
use hybridcvrp::solver::improvement::LocalSearch;

fn angle(rng: &mut fastrand::Rng) -> i32 {
    match rng.usize(0..4) {
        0 => pick(rng, &[0, 1, 65535, 65534, 32768, 32767, 16384, 49152]),
        1 => rng.i32(0..40),
        2 => rng.i32(65500..65536),
        _ => rng.i32(0..65536),
    }
}

fn arr(s: &CircleSector) -> Value {
    json!({"s": s.start, "e": s.end})
}

fn behaviour(s: &mut CircleSector, out: &mut Out, rng: &mut fastrand::Rng, a: &[i32]) {
    let mut steps = Vec::new();
    for &x in a {
        s.extend(x);
        steps.push(arr(s));
    }
    let mut probes: Vec<i32> = (0..4).map(|_| angle(rng)).collect();
    for d in [-1i32, 0, 1] {
        probes.push((s.start + d).rem_euclid(65536));
        probes.push((s.end + d).rem_euclid(65536));
    }
    let enc: Vec<bool> = probes.iter().map(|&x| s.is_enclosed(x)).collect();
    out.line(json!({"k": "ext", "a": a, "steps": steps, "probes": probes, "enc": enc}));
}

fn main() {
    let o = &Opt::from_args();
    let mut out = Out::new(&o.out);
    let mut rng = o.rng(23);
    // behaviours given by the specification: lines of angles
    if let Some(path) = o.arg("replay") {
        let text = std::fs::read_to_string(path).expect("behaviours");
        out.line(json!({"k": "inst"}));
        let mut s = CircleSector::new();
        for (i, line) in text.lines().enumerate() {
            let v: Value = serde_json::from_str(line).expect("behaviour");
            let a: Vec<i32> = v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as i32).collect();
            if o.mine(i) {
                s.reset();
                behaviour(&mut s, &mut out, &mut rng, &a);
            }
        }
        out.flush();
        return;
    }
    for i in 0..o.scale(80, 1200) {
        if !o.mine(i) {
            continue;
        }
        out.line(json!({"k": "inst"}));
        let mut s = CircleSector::new();
        for _ in 0..25 {
            let n = rng.usize(1..=7);
            let a: Vec<i32> = (0..n).map(|_| angle(&mut rng)).collect();
            match rng.usize(0..3) {
                0 => s = CircleSector::new(),
                1 => s.reset(),
                _ => {
                    s.reset();
                    s.extend(angle(&mut rng));
                    s.reset();
                }
            }
            behaviour(&mut s, &mut out, &mut rng, &a);
        }
        for _ in 0..25 {
            let mut x = CircleSector::new();
            let mut y = CircleSector::new();
            let near = angle(&mut rng);
            for s in [&mut x, &mut y] {
                for _ in 0..rng.usize(1..=3) {
                    let a = if rng.bool() { (near + rng.i32(-3..=3)).rem_euclid(65536) } else { angle(&mut rng) };
                    s.extend(a);
                }
            }
            out.line(json!({"k": "ov", "x": arr(&x), "y": arr(&y), "xy": x.overlaps(&y), "yx": y.overlaps(&x)}));
        }
        // routes of a local search
        let n = rng.usize(2..=9);
        let geo = pick(&mut rng, &[Geo::Euclid, Geo::Degenerate, Geo::Clustered]);
        let mut inst = random_inst(&mut rng, n, geo, 1.0, 4.0);
        for x in 1..=n {
            // on the axes from the depot, and exactly at it
            match rng.usize(0..6) {
                0 => inst.xy[x].1 = inst.xy[0].1,
                1 => inst.xy[x].0 = inst.xy[0].0,
                2 if rng.bool() => inst.xy[x] = inst.xy[0],
                _ => {}
            }
        }
        let k = rng.usize(1..=4);
        let ctx = context(&inst, base_config(1), Some(k as u64), Some(1.0));
        let ang: Vec<i32> = (0..=n).map(|x| ctx.problem.get_angle(x)).collect();
        out.line(json!({"k": "ang", "ang": ang, "ref": (0..=n).map(|x| ref_angle(&inst, x)).collect::<Vec<_>>(),
            "xy": inst.xy.iter().map(|p| json!([(p.0 - inst.xy[0].0) as i64, (p.1 - inst.xy[0].1) as i64])).collect::<Vec<_>>()}));
        let mut ls = LocalSearch::new(ctx, 1.0);
        for _ in 0..6 {
            let r = random_routes(&mut rng, n, k, k);
            ls.reset();
            ls.load_individual(&individual(&r, 1));
            let secs: Vec<Value> = (0..k).map(|j| arr(&ls.routes[j].sector)).collect();
            out.line(json!({"k": "rt", "R": r, "ang": ang, "sec": secs}));
        }
    }
    out.flush();
}
