#!/usr/bin/env python3
"""Mutation testing of the specification: breaks one operator of spec/ at a time, in a scratch copy of
/verif, and runs the checks that rest on it against the unchanged /repo. A check that still passes has not
noticed that its specification says something else. Survivors are to be looked at: some mutants say the
same thing (a bound that is never reached), some only ask for less (a conjunct dropped: it cannot be noticed
on correct code), and the rest show behaviour that the drivers or the explored behaviours never exercise.

    tools/spec_mutants.py SCRATCH [--seed N] [--count N] [--cores N] [Module...]

SCRATCH is created, e.g. /tmp/specmut (and left to the caller to remove). Not part of any check."""
import argparse, json, os, random, re, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "CVRP": "C02 C04 C01 C19", "Adjacency": "C12 C02", "Moves": "C04 C05", "LinkState": "C04", "LinkedRoutes": "C05 C04",
    "LocalSearch": "C05", "SwapStar": "C06", "Sector": "C23", "Split": "C07", "Distances": "C17",
    "Population": "C11 C12 C14", "Genetic": "C08 C13 C14 C03", "RuinRecreate": "C09 C10", "Schedule": "C22 C10",
    "Decomposition": "C15", "Output": "C20", "InstanceFile": "C19", "Settings": "C18",
    "T_Cfg": "C18", "T_Decomp": "C15", "T_Dist": "C17", "T_Eval": "C02", "T_File": "C19", "T_GA": "C13 C14 C08 C03 C11",
    "T_History": "C03", "T_LS": "C05", "T_Moves": "C04", "T_Out": "C20", "T_Pop": "C11 C12", "T_Prog": "C21",
    "T_Repro": "C16", "T_Ruin": "C09", "T_Sched": "C22", "T_Search": "C10", "T_Sector": "C23", "T_Split": "C07", "T_Swap": "C06",
}
SUBS = [(r"(?<![=<>/\\:]) < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" > ", " < "),
        (r" = ", " # "), (r" # ", " = "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" \+ 1\b", ""), (r" - 1\b", ""),
        (r" /\\ ", " \\\\/ "), (r" \\/ ", " /\\\\ "), (r"\\A ", "\\\\E "), (r"\\E ", "\\\\A "), (r"\bTRUE\b", "FALSE"), (r"\bFALSE\b", "TRUE"),
        (r" \\in ", " \\\\notin "), (r" \\notin ", " \\\\in "), (r"\bMax\(", "Min("), (r"\bMin\(", "Max("), (r"\b0\b", "1"), (r"\b1\b", "2"),
        (r"\\cup", "\\\\cap"), (r"\\cap", "\\\\cup"), (r"~", "")]


def mutants(path):
    src = open(path).read().split("\n")
    out, block = [], False
    for i, l in enumerate(src):
        s = l.strip()
        if s.startswith("(*") or block:
            block = "*)" not in s
            continue
        if not s or s.startswith(("\\*", "----", "====", "EXTENDS", "CONSTANT", "VARIABLE", "ASSUME", "LOCAL INSTANCE", "RECURSIVE", "INSTANCE")):
            continue
        code = re.split(r"\\\*", l)[0]
        body = code.index("==") + 2 if "==" in code else 0
        for a, b in SUBS:
            for m in re.finditer(a, code):
                if m.start() < body or "(*" in code[:m.start()]:
                    continue
                new = code[:m.start()] + re.sub(a, b, m.group(0)) + code[m.end():]
                out.append((i, l, new))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("scratch"); ap.add_argument("modules", nargs="*")
    ap.add_argument("--seed", type=int, default=1); ap.add_argument("--count", type=int, default=60)
    ap.add_argument("--cores", type=int, default=4)
    a = ap.parse_intermixed_args()
    dst = a.scratch + "/verif"
    os.makedirs(dst, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", ".work", "--exclude", "evidence", "--exclude", ".git", HERE + "/", dst + "/"], check=True)
    p = dst + "/bin/vlib.py"
    s = open(p).read()
    open(p, "w").write(re.sub(r"^CORES = \d+", "CORES = %d" % a.cores, s, flags=re.M))
    mods = a.modules or sorted(CHECKS)
    todo = []
    for m in mods:
        f = f"{dst}/spec/{m}.tla"
        todo += [(m, f) + x for x in mutants(f)]
    rng = random.Random(a.seed)
    rng.shuffle(todo)
    # the same number for each module, as far as it has them
    seen, per, pick = set(), {}, []
    cap = max(1, -(-a.count // len(mods)))
    for t in todo:
        if per.get(t[0], 0) < cap and (t[0], t[2]) not in seen:
            seen.add((t[0], t[2])); per[t[0]] = per.get(t[0], 0) + 1; pick.append(t)
    tally = {}
    for m, f, i, old, new in pick:
        src = open(f).read(); lines = src.split("\n"); lines[i] = new
        open(f, "w").write("\n".join(lines))
        res, t = [], time.time()
        try:
            for c in CHECKS[m].split():
                try:
                    r = subprocess.run([dst + "/bin/check", c, "quick"], capture_output=True, text=True, timeout=900)
                    rc, o = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    rc, o = 99, ""
                if rc:
                    what = re.search(r"first: ([^\n]*)", o)
                    res = [c, rc, (what.group(1) if what else o[-160:])[:160]]
                    break
        finally:
            open(f, "w").write(src)
        st = "noticed" if res and res[1] == 1 else ("error" if res else "SURVIVED")
        tally[st] = tally.get(st, 0) + 1
        print(json.dumps(dict(st=st, module=m, line=i + 1, old=old.strip(), new=new.strip(), by=res, secs=round(time.time() - t))), flush=True)
    print(tally)


main()
