//! C17: distances and neighbour lists, in all storage modes and through subproblems.
use hx::common::*;
use hybridcvrp::solver::Context;

/// base: the distances of the whole instance as another storage mode gives them
fn rows(out: &mut Out, mode: &str, ctx: &Context, map: &[usize], base: &[Vec<f64>], scale: f64, floor: bool, rng: &mut fastrand::Rng) {
    let m = map.len();
    let pick_rows: Vec<usize> = if m <= 16 {
        (0..m).collect()
    } else {
        let mut v: Vec<usize> = (0..3).map(|_| rng.usize(0..m)).collect();
        v.push(0);
        v.push(m - 1);
        v
    };
    for i in pick_rows {
        let d: Vec<i64> = (0..m)
            .map(|j| {
                let x = ctx.matrix_provider.distance.get(i, j);
                if floor {
                    fl(x, scale)
                } else {
                    sc(x, scale)
                }
            })
            .collect();
        out.line(json!({"k": "row", "mode": mode, "i": i, "map": map, "d": d,
            "sym": (0..m).all(|j| ctx.matrix_provider.distance.get(i, j) == ctx.matrix_provider.distance.get(j, i)),
            "same": (0..m).all(|j| (ctx.matrix_provider.distance.get(i, j) - base[map[i]][map[j]]).abs() < 1e-6),
            "nb": ctx.matrix_provider.correlation.get(i),
            "len": ctx.matrix_provider.distance.size()}));
    }
}

fn exact(ctx: &Context, m: usize) -> Vec<Vec<f64>> {
    (0..m).map(|i| (0..m).map(|j| ctx.matrix_provider.distance.get(i, j)).collect()).collect()
}

/// The placements and subproblems of the specification, at both sides of the limit for precomputing
fn replay(o: &Opt, out: &mut Out, all: &[Value]) {
    let mut rng = o.rng(1717);
    for v in all {
        let ints = |x: &Value| -> Vec<i64> { x.as_array().unwrap().iter().map(|y| y.as_i64().unwrap()).collect() };
        let pts: Vec<Vec<i64>> = v["xy"].as_array().unwrap().iter().map(|p| ints(p)).collect();
        let map: Vec<usize> = ints(&v["map"]).iter().map(|&x| x as usize).collect();
        let m = pts.len();
        let inst = Inst {
            xy: pts.iter().map(|p| (p[0] as f64 / 2.0, p[1] as f64 / 2.0)).collect(),
            q: (0..m).map(|i| if i == 0 { 0.0 } else { 1.0 }).collect(),
            cap: m as f64,
            d: None,
            s: 1.0,
            qs: 1.0,
        };
        let rounded = v["rounded"].as_bool().unwrap();
        out.line(json!({"k": "inst", "n": m - 1, "rounded": rounded, "explicit": false, "wide": false, "xy": pts, "given": []}));
        let whole: Vec<usize> = (0..m).collect();
        let (scale, floor) = if rounded { (1.0, false) } else { (100.0, true) };
        let mut base = Vec::new();
        for limit in [m - 1, m] {
            let mut cfg = base_config(3);
            cfg.round_distances = rounded;
            cfg.precompute_distance_size_limit = limit as u64;
            let ctx = context(&inst, cfg, None, None);
            if base.is_empty() {
                base = exact(ctx, m);
            }
            rows(out, "whole", ctx, &whole, &base, scale, floor, &mut rng);
            rows(out, "sub", &ctx.from_mapping(&map), &map, &base, scale, floor, &mut rng);
        }
    }
}

/// Points far apart, some of them at almost the same distance from the depot or from a customer
fn spread(rng: &mut fastrand::Rng, n: usize) -> Vec<(f64, f64)> {
    let size = pick(rng, &[2000i64, 7000]);
    let mut p: Vec<(i64, i64)> = (0..=n).map(|_| (rng.i64(-size..=size), rng.i64(-size..=size))).collect();
    for k in 2..=n {
        if rng.bool() {
            continue;
        }
        // another place at nearly the distance of p[k - 1] from c
        let c = p[rng.usize(0..k - 1)];
        let s = (p[k - 1].0 - c.0).pow(2) + (p[k - 1].1 - c.1).pow(2);
        let near = (0..6000)
            .filter_map(|_| {
                let x = rng.i64(-size..=size);
                let rest = s - (x - c.0).pow(2);
                if rest < 0 {
                    return None;
                }
                let y = c.1 + (rest as f64).sqrt().round() as i64 * if rng.bool() { 1 } else { -1 };
                let off = ((x - c.0).pow(2) + (y - c.1).pow(2) - s).abs();
                if y.abs() <= size && off > 0 { Some((off, x, y)) } else { None }
            })
            .min();
        if let Some((_, x, y)) = near {
            p[k] = (x, y);
        }
    }
    p.iter().map(|q| (q.0 as f64, q.1 as f64)).collect()
}

fn main() {
    let o = &Opt::from_args();
    let mut out = Out::new(&o.out);
    if let Some(b) = behaviours(o) {
        replay(o, &mut out, &b);
        out.flush();
        return;
    }
    let mut rng = o.rng(17);
    let big = o.scale(8, 40);
    for i in 0..o.scale(240, 4000) + big {
        if !o.mine(i) {
            continue;
        }
        let n = if i < big { rng.usize(199..=206) } else { rng.usize(1..=12) };
        let geo = if i < big { Geo::Euclid } else {
            pick(&mut rng, &[Geo::Euclid, Geo::Clustered, Geo::Degenerate, Geo::Arbitrary, Geo::Metric])
        };
        let mut inst = random_inst(&mut rng, n, geo, 1.0, 1.0);
        let wide = geo == Geo::Euclid && n <= 12 && rng.bool();
        if wide {
            inst.xy = spread(&mut rng, n);
        }
        let half = rng.bool();
        if half {
            for p in inst.xy.iter_mut() {
                if rng.bool() {
                    p.0 += 0.5;
                }
                if rng.bool() {
                    p.1 -= 0.5;
                }
            }
        }
        if let Some(d) = inst.d.as_mut() {
            for i in 0..d.len() {
                for j in 0..i {
                    d[i][j] += rng.i64(0..=3) as f64 / 4.0;
                    d[j][i] = d[i][j];
                }
            }
        }
        let explicit = inst.d.is_some();
        let rounded = rng.bool();
        let mut settings = base_config(3);
        settings.round_distances = rounded;
        let (scale, floor) = match (explicit, rounded) {
            (_, true) => (1.0, false),
            (true, false) => (4.0, false),
            (false, false) if wide => (1.0, true),
            (false, false) => (100.0, true),
        };
        let head = json!({"k": "inst", "n": n, "rounded": rounded, "explicit": explicit, "wide": wide,
            "xy": inst.xy.iter().map(|p| json!([sc(p.0, 2.0), sc(p.1, 2.0)])).collect::<Vec<_>>(),
            "given": inst.d.as_ref().map(|d| d.iter().map(|r| r.iter().map(|&x| sc(x, 4.0)).collect::<Vec<_>>()).collect::<Vec<_>>()).unwrap_or_default()});
        out.line(head);
        // the same far away from the origin
        if !explicit && rng.bool() {
            let (x, y) = (rng.i64(-5_000_000..=5_000_000) as f64 + 0.37, rng.i64(-5_000_000..=5_000_000) as f64 - 0.11);
            for p in inst.xy.iter_mut() {
                *p = (p.0 + x, p.1 + y);
            }
        }
        let all: Vec<usize> = (0..=n).collect();
        let mut base = Vec::new();
        for lazy in [false, true] {
            let mut cfg = settings.clone();
            cfg.precompute_distance_size_limit = if lazy { rng.usize(0..=n) as u64 } else { (n + 1) as u64 + rng.u64(0..3) };
            let ctx = context(&inst, cfg, None, None);
            let mode = if lazy { "lazy" } else { "precomputed" };
            if base.is_empty() {
                base = exact(ctx, n + 1);
            }
            rows(&mut out, mode, ctx, &all, &base, scale, floor, &mut rng);
            // subproblems, and subproblems of subproblems
            if n >= 2 {
                let mut c: Vec<usize> = (1..=n).collect();
                rng.shuffle(&mut c);
                let k = rng.usize(1..=n);
                let mut map = vec![0];
                map.extend(&c[..k]);
                let sub = ctx.from_mapping(&map);
                rows(&mut out, "sub", &sub, &map, &base, scale, floor, &mut rng);
                let mut m2: Vec<usize> = (1..=k).collect();
                rng.shuffle(&mut m2);
                let k2 = rng.usize(1..=k);
                let mut idx = vec![0];
                idx.extend(&m2[..k2]);
                let subsub = sub.from_mapping(&idx);
                let map2: Vec<usize> = idx.iter().map(|&x| map[x]).collect();
                rows(&mut out, "subsub", &subsub, &map2, &base, scale, floor, &mut rng);
            }
        }
    }
    out.flush();
}
