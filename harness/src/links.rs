//! Reading the linked routes of a LocalSearch, without trusting them.
#![allow(dead_code)]
use hx::common::*;
use hybridcvrp::solver::improvement::{LinkNode, LocalSearch};

/// Node codes in the trace: customers are positive, -1000 is a depot that does not belong to
/// the route it was reached from, -2000 means the walk did not end.
pub unsafe fn forward(ls: &LocalSearch, r: usize) -> Vec<i64> {
    let mut out = Vec::new();
    let start = ls.routes[r].start_depot;
    let end = &ls.end_depots[r] as *const LinkNode;
    let mut p = (*start).successor as *const LinkNode;
    let mut steps = 0;
    while p != end {
        if p.is_null() || (*p).number == 0 {
            out.push(-1000);
            return out;
        }
        out.push((*p).number as i64);
        p = (*p).successor;
        steps += 1;
        if steps > ls.nodes.len() + 2 {
            out.push(-2000);
            return out;
        }
    }
    out
}

pub unsafe fn backward(ls: &LocalSearch, r: usize) -> Vec<i64> {
    let mut out = Vec::new();
    let start = &ls.start_depots[r] as *const LinkNode;
    let mut p = ls.end_depots[r].predecessor as *const LinkNode;
    let mut steps = 0;
    while p != start {
        if p.is_null() || (*p).number == 0 {
            out.push(-1000);
            return out;
        }
        out.push((*p).number as i64);
        p = (*p).predecessor;
        steps += 1;
        if steps > ls.nodes.len() + 2 {
            out.push(-2000);
            return out;
        }
    }
    out.reverse();
    out
}

pub unsafe fn routes_of(ls: &LocalSearch) -> Vec<Vec<i64>> {
    (0..ls.routes.len()).map(|r| forward(ls, r)).collect()
}

/// Everything the local search keeps about its routes
pub unsafe fn snapshot(inst: &Inst, ls: &LocalSearch) -> Value {
    let k = ls.routes.len();
    let f: Vec<Vec<i64>> = routes_of(ls);
    let b: Vec<Vec<i64>> = (0..k).map(|r| backward(ls, r)).collect();
    let node = |x: i64| -> Option<&LinkNode> {
        if x >= 1 && (x as usize) < ls.nodes.len() {
            Some(&ls.nodes[x as usize])
        } else {
            None
        }
    };
    let per = |g: &dyn Fn(&LinkNode) -> i64| -> Vec<Vec<i64>> {
        f.iter()
            .map(|r| {
                r.iter()
                    .map(|&x| node(x).map(|n| g(n)).unwrap_or(BADINT))
                    .collect()
            })
            .collect()
    };
    let base = ls.routes.as_ptr() as usize;
    let size = std::mem::size_of_val(&ls.routes[0]);
    let route_no = |n: &LinkNode| -> i64 {
        let p = n.route as usize;
        if p < base || (p - base) % size != 0 || (p - base) / size >= k {
            BADINT
        } else {
            ((p - base) / size) as i64 + 1
        }
    };
    let mut empty: Vec<usize> = ls.empty_routes.iter().map(|&x| x + 1).collect();
    empty.sort();
    json!({
        "f": f,
        "b": b,
        "num": ls.routes.iter().map(|r| r.num_customers).collect::<Vec<_>>(),
        "dist": ls.routes.iter().map(|r| sc(r.distance, inst.s)).collect::<Vec<_>>(),
        "load": ls.routes.iter().map(|r| sc(r.load, inst.qs)).collect::<Vec<_>>(),
        "over": ls.routes.iter().map(|r| sc(r.overload, inst.qs)).collect::<Vec<_>>(),
        "cost": ls.routes.iter().map(|r| sc(r.cost, inst.s)).collect::<Vec<_>>(),
        "pos": per(&|n| n.position as i64),
        "cd": per(&|n| sc(n.cum_distance, inst.s)),
        "cl": per(&|n| sc(n.cum_load, inst.qs)),
        "rt": per(&route_no),
        "ends": (0..k).map(|r| {
            let e = &ls.end_depots[r];
            let s = &ls.start_depots[r];
            json!([s.predecessor.is_null() && e.successor.is_null()
                   && s.number == 0 && e.number == 0,
                   sc(e.cum_distance, inst.s), sc(e.cum_load, inst.qs),
                   sc(s.cum_distance, inst.s), sc(s.cum_load, inst.qs),
                   route_no(s), route_no(e)])
        }).collect::<Vec<_>>(),
        "empty": empty,
    })
}

/// The node a place stands for: a customer, or -k for the start of route k (1-based)
pub unsafe fn place(ls: &mut LocalSearch, v: i64) -> *mut LinkNode {
    if v > 0 {
        &mut ls.nodes[v as usize] as *mut LinkNode
    } else {
        &mut ls.start_depots[(-v - 1) as usize] as *mut LinkNode
    }
}

pub unsafe fn place_of(ls: &LocalSearch, p: *mut LinkNode) -> i64 {
    if (*p).number != 0 {
        return (*p).number as i64;
    }
    for r in 0..ls.start_depots.len() {
        if p as *const LinkNode == &ls.start_depots[r] as *const LinkNode {
            return -(r as i64) - 1;
        }
        if p as *const LinkNode == &ls.end_depots[r] as *const LinkNode {
            return -(r as i64) - 1 - 100_000;
        }
    }
    BADINT
}

/// Whether everything kept about the routes agrees with the routes, recomputed. Decides only what is
/// recorded for the specification to judge.
pub unsafe fn agrees(inst: &Inst, d: &[Vec<i64>], pen: f64, ls: &LocalSearch) -> bool {
    let base = ls.routes.as_ptr() as usize;
    let size = std::mem::size_of_val(&ls.routes[0]);
    let route_no = |n: &LinkNode| (n.route as usize).wrapping_sub(base) / size;
    let mut seen = vec![false; inst.n() + 1];
    let mut empty: Vec<usize> = Vec::new();
    for r in 0..ls.routes.len() {
        let f = forward(ls, r);
        if f.iter().any(|&x| x < 0) || f != backward(ls, r) {
            return false;
        }
        if f.is_empty() {
            empty.push(r);
        }
        let (mut at, mut cd, mut cl) = (0, 0, 0.0);
        for (i, &x) in f.iter().enumerate() {
            let x = x as usize;
            if x >= seen.len() || std::mem::replace(&mut seen[x], true) {
                return false;
            }
            cd += d[at][x];
            cl += inst.q[x];
            at = x;
            let n = &ls.nodes[x];
            if n.position as usize != i + 1 || sc(n.cum_distance, inst.s) != cd
                || sc(n.cum_load, inst.qs) != sc(cl, inst.qs) || route_no(n) != r {
                return false;
            }
        }
        cd += d[at][0];
        let over = sc(cl - inst.cap, inst.qs);
        let (q, s, e) = (&ls.routes[r], &ls.start_depots[r], &ls.end_depots[r]);
        if q.num_customers as usize != f.len() || sc(q.distance, inst.s) != cd
            || sc(q.load, inst.qs) != sc(cl, inst.qs) || sc(q.overload, inst.qs) != over
            || sc(q.cost, inst.s) != cd + over.max(0) * pen_int(inst, pen)
            || !s.predecessor.is_null() || !e.successor.is_null() || s.number != 0 || e.number != 0
            || sc(e.cum_distance, inst.s) != cd || sc(e.cum_load, inst.qs) != sc(cl, inst.qs)
            || s.cum_distance != 0.0 || s.cum_load != 0.0 || route_no(s) != r || route_no(e) != r {
            return false;
        }
    }
    let mut kept: Vec<usize> = ls.empty_routes.iter().cloned().collect();
    kept.sort();
    seen[1..].iter().all(|&x| x) && kept == empty
}
