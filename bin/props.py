"""What each property's check runs."""
PROPS = {}
NOTES = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


def screen(r, module, driver, env=None):
    """Very many more cases, of which the driver records those that look wrong to it; the specification judges"""
    r.validate(module, r.drive(driver, args=("screen=1",)), env_extra=env or {}, sample_kinds=())


@prop("C04")
def c04(r):
    for cfg in ["MC_Moves.cfg"] + (["MC_Moves2.cfg", "MC_Moves3.cfg", "MC_Moves5.cfg"] if r.thorough else []):
        path = r.behaviours("MC_Moves", cfg, at_least=3000)
        r.validate("T_Moves", r.drive("moves", args=("replay=" + path,)), sample_kinds=())
    files = r.drive("moves")
    r.validate("T_Moves", files, sample_kinds=("mv", "ss"))
    screen(r, "T_Moves", "moves")
    r.need(mv=5000, ld=100, ss=20, screened=1)


@prop("C05")
def c05(r):
    r.background(("MC_LocalSearch", "MC_LocalSearch.cfg", 3), ("MC_LocalSearch", "MC_LocalSearchEnds.cfg", 1))
    if r.thorough:
        r.background(("MC_LocalSearch", "MC_LocalSearch3.cfg", 4), ("MC_LocalSearch", "MC_LocalSearch4.cfg", 4))
    for cfg in ["B_LocalSearch.cfg", "B_LocalSearch43.cfg"] + (["B_LocalSearch4.cfg"] if r.thorough else []):
        path = r.behaviours("MC_LocalSearch", cfg, at_least=1000)
        r.validate("T_LS", r.drive("ls", args=("replay=" + path,)), sample_kinds=())
    files = r.drive("ls")
    r.validate("T_LS", files)
    screen(r, "T_LS", "ls")
    r.need(run=200, screened=1)


@prop("C06")
def c06(r):
    cfgs = ["MC_SwapStar.cfg", "MC_SwapStar5.cfg"]
    for cfg in cfgs + (["MC_SwapStar4q.cfg", "MC_SwapStar6.cfg"] if r.thorough else []):
        path = r.behaviours("MC_SwapStar", cfg, at_least=1000)
        r.validate("T_Swap", r.drive("swap", args=("replay=" + path,)), sample_kinds=())
    files = r.drive("swap")
    r.validate("T_Swap", files, sample_kinds=("ss",))
    screen(r, "T_Swap", "swap")
    r.need(ss=800, screened=1)


@prop("C02")
def c02(r):
    for cfg in ["MC_Eval.cfg"] + (["MC_Eval33.cfg", "MC_Eval4.cfg"] if r.thorough else []):
        path = r.behaviours("MC_Eval", cfg, at_least=3000)
        r.validate("T_Eval", r.drive("eval", args=("replay=" + path,)), sample_kinds=())
    r.validate("T_Eval", r.drive("eval"))
    screen(r, "T_Eval", "eval")
    r.need(ev=2000, screened=1)


@prop("C07")
def c07(r):
    for cfg in ["MC_Split.cfg"] + (["MC_Split4.cfg", "MC_Split5.cfg"] if r.thorough else []):
        path = r.behaviours("MC_Split", cfg, at_least=1000)
        r.validate("T_Split", r.drive("split", args=("replay=" + path,)), sample_kinds=())
    r.validate("T_Split", r.drive("split"))
    screen(r, "T_Split", "split")
    r.need(sp=1000, screened=1)


@prop("C17")
def c17(r):
    for cfg, k in [("MC_Distances.cfg", 3000), ("MC_DistancesF.cfg", 200)] + ([("MC_Distances6.cfg", 10000)] if r.thorough else []):
        path = r.behaviours("MC_Distances", cfg, at_least=k)
        r.validate("T_Dist", r.drive("matrix", args=("replay=" + path,)), sample_kinds=())
    r.validate("T_Dist", r.drive("matrix"))
    r.need(row=5000)


@prop("C23")
def c23(r):
    for cfg in ["MC_Sector.cfg"] + (["MC_Sector16.cfg"] if r.thorough else []):
        path = r.behaviours("MC_Sector", cfg, at_least=4000)
        r.validate("T_Sector", r.drive("sector", args=("replay=" + path,)), sample_kinds=())
    r.validate("T_Sector", r.drive("sector"))
    r.need(ext=1000, ov=1000, rt=200)


@prop("C24")
def c24(r):
    path = r.behaviours("MC_Tour", at_least=8000)
    r.validate("T_Tour", r.drive("tour", args=("replay=" + path,)), sample_kinds=())
    r.validate("T_Tour", r.drive("tour"))
    r.need(sort=9000, member=1000, child=500, split=500, ls=500, rr=1000, sub=100, **{"global": 60})


@prop("C22")
def c22(r):
    r.background(("MC_Schedule", None, 2))
    path = r.behaviours("MC_Schedule", "B_Schedule.cfg", at_least=2000)
    r.validate("T_Sched", r.drive("sched", args=("replay=" + path,)), sample_kinds=())
    r.validate("T_Sched", r.drive("sched"))
    r.need(iter=200, acc=50, time=60, run=8)



def populations(r):
    for cfg in ["MC_Population.cfg"] + (["MC_Population6.cfg", "MC_PopulationW.cfg"] if r.thorough else []):
        path = r.behaviours("MC_Population", cfg, at_least=5000)
        r.validate("T_Pop", r.drive("pop", args=("replay=" + path,)), sample_kinds=())


@prop("C12")
def c12(r):
    populations(r)
    path = r.behaviours("MC_Eval", "MC_Eval.cfg", at_least=3000)
    r.validate("T_Eval", r.drive("eval", args=("replay=" + path,)), sample_kinds=())
    r.validate("T_Pop", r.drive("pop"))
    screen(r, "T_Pop", "pop")
    r.need(add=2000, ns=100, par=100, screened=1)


@prop("C09")
def c09(r):
    for cfg, k in [("MC_Ruin.cfg", 400), ("MC_Ruin3.cfg", 70), ("MC_Ruin52.cfg", 500)] + ([("MC_Ruin5.cfg", 1000)] if r.thorough else []):
        path = r.behaviours("MC_Ruin", cfg, at_least=k)
        r.validate("T_Ruin", r.drive("rr", args=("replay=" + path,)), sample_kinds=())
    r.validate("T_Ruin", r.drive("rr"), sample_kinds=("st",))
    screen(r, "T_Ruin", "rr")
    r.need(st=4000, screened=1)


def searches(r, env=None, only=""):
    """Searches with given candidates"""
    for cfg, k in [("MC_Search.cfg", 3000), ("MC_SearchHot.cfg", 300), ("MC_SearchUp.cfg", 500)] + (
            [("MC_Search5.cfg", 10000), ("MC_SearchHot4.cfg", 1000)] if r.thorough else []):
        if only not in cfg:
            continue
        path = r.behaviours("MC_Search", cfg, at_least=k)
        r.validate("T_Search", r.drive("rr", args=("replay=" + path,)), env_extra=env, sample_kinds=())


@prop("C10")
def c10(r):
    searches(r)
    r.validate("T_Search", r.drive("rr"), sample_kinds=("load", "end"))
    screen(r, "T_Search", "rr")
    # what the genetic algorithm does with the result
    r.validate("T_GA", r.drive("ga"), env_extra={"FOCUS": "C10"}, sample_kinds=("it",))
    screen(r, "T_GA", "ga", {"FOCUS": "C10"})
    r.need(st=4000, load=100, end=100, it=3000, screened=2)


def ga(pid, decomposed=False, **need):
    """Runs of the genetic algorithm, and of the decomposed one"""
    def f(r):
        if pid in ("C03", "C13", "C14"):
            r.background(("MC_Genetic", "MC_Genetic.cfg", 1), ("MC_Genetic", "MC_GeneticElite.cfg", 1), ("MC_Genetic", "MC_GeneticEnds.cfg", 1))
            if r.thorough:
                r.background(("MC_Genetic", "MC_Genetic9.cfg", 4))
        if pid in ("C13", "C14"):
            path = r.behaviours("B_Genetic", "B_Genetic14.cfg" if r.thorough else "B_Genetic.cfg", at_least=500)
            r.validate("T_GA", r.drive("ga", args=("replay=" + path,)), env_extra={"FOCUS": pid}, sample_kinds=())
        if pid == "C03":
            for cfg in ["MC_History.cfg", "MC_History3.cfg"] + (["MC_History4.cfg", "MC_History5.cfg"] if r.thorough else []):
                path = r.behaviours("MC_History", cfg, at_least=1000)
                r.validate("T_History", r.drive("ga", args=("replay=" + path,)), sample_kinds=())
            searches(r, {"FOCUS": "C03"})
        if pid == "C14":
            # the searches that adapt the penalty, and those that do not
            searches(r, {"FOCUS": "C14"}, only="Up")
            r.validate("T_Search", r.drive("rr"), env_extra={"FOCUS": "C14"}, sample_kinds=())
            screen(r, "T_Search", "rr", {"FOCUS": "C14"})
        if pid in ("C01", "C03"):
            path = r.behaviours("MC_Whole", "MC_Whole.cfg" if r.thorough and pid == "C01" else "MC_Whole3.cfg", at_least=200)
            r.validate("T_GA", r.drive("ga", args=("replay=" + path,)), env_extra={"FOCUS": pid}, sample_kinds=())
        if decomposed:
            path = r.behaviours("MC_Whole", "MC_Whole.cfg" if r.thorough else "MC_Whole3.cfg", at_least=200)
            r.validate("T_Decomp", r.drive("decomp", args=("replay=" + path,)), env_extra={"FOCUS": pid}, sample_kinds=())
        if pid == "C08":
            for cfg in ["MC_Crossover4.cfg", "MC_Crossover.cfg"] + (["MC_Crossover3.cfg", "MC_Crossover6.cfg"] if r.thorough else []):
                path = r.behaviours("MC_Crossover", cfg, at_least=6)
                r.validate("T_GA", r.drive("ga", args=("replay=" + path,)), env_extra={"FOCUS": pid}, sample_kinds=())
        r.validate("T_GA", r.drive("ga"), env_extra={"FOCUS": pid}, sample_kinds=("it",))
        screen(r, "T_GA", "ga", {"FOCUS": pid})
        r.need(it=3000, screened=1, **need)
        if decomposed:
            before = r.kinds["it"]
            decomp(r, pid, "" if pid == "C13" else "runs")
            r.need(it=before + 40)
    PROPS[pid] = f


def decomp(r, pid, what):
    r.validate("T_Decomp", r.drive("decomp", args=(f"what={what}",) if what else ()), env_extra={"FOCUS": pid},
               sample_kinds=("fin", "it"), samples=1)


@prop("C15")
def c15(r):
    for cfg in ["MC_Decomp.cfg", "MC_Decomp3.cfg"] + (["MC_Decomp5.cfg", "MC_Decomp33.cfg"] if r.thorough else []):
        path = r.behaviours("MC_Decomp", cfg, at_least=3000)
        r.validate("T_Decomp", r.drive("decomp", args=("replay=" + path,)), env_extra={"FOCUS": "C15"}, sample_kinds=())
    path = r.behaviours("MC_Whole", "MC_Whole.cfg" if r.thorough else "MC_Whole3.cfg", at_least=200)
    r.validate("T_Decomp", r.drive("decomp", args=("replay=" + path,)), env_extra={"FOCUS": "C15"}, sample_kinds=())
    decomp(r, "C15", "")
    screen(r, "T_Decomp", "decomp", {"FOCUS": "C15"})
    r.need(new=500, fin=500, it=40, screened=1)


ga("C01", decomposed=True)
ga("C03", decomposed=True)
ga("C08")
ga("C13", decomposed=True, far=2)
ga("C14", decomposed=True, pen=200)


@prop("C11")
def c11(r):
    populations(r)
    r.validate("T_Pop", r.drive("pop"))
    screen(r, "T_Pop", "pop")
    path = r.behaviours("B_Genetic", "B_Genetic14.cfg" if r.thorough else "B_Genetic.cfg", at_least=500)
    r.validate("T_GA", r.drive("ga", args=("replay=" + path,)), env_extra={"FOCUS": "C11"}, sample_kinds=())
    r.validate("T_GA", r.drive("ga"), env_extra={"FOCUS": "C11"}, sample_kinds=("it",))
    screen(r, "T_GA", "ga", {"FOCUS": "C11"})
    r.need(add=2000, ns=100, par=100, it=3000)


@prop("C20")
def c20(r):
    for cfg, k in [("MC_Output.cfg", 100), ("MC_OutputSeq.cfg", 500)] + ([("MC_OutputSeq4.cfg", 5000)] if r.thorough else []):
        path = r.behaviours("MC_Output", cfg, at_least=k)
        r.validate("T_Out", r.drive("sol", args=("replay=" + path,)), sample_kinds=())
    r.validate("T_Out", r.drive("sol"), sample_kinds=("sol",))
    r.validate("T_Out", r.drive("dim", dimacs=True), sample_kinds=("dim",), samples=1)
    r.need(sol=1500, dim=40)


@prop("C19")
def c19(r):
    for cfg in ["MC_File.cfg"] + (["MC_FileEuc.cfg"] if r.thorough else []):
        path = r.behaviours("MC_File", cfg, at_least=5000)
        r.validate("T_File", r.drive("parse", args=("replay=" + path,)), sample_kinds=())
    r.validate("T_File", r.drive("parse"))
    r.need(file=1500)


@prop("C18")
def c18(r):
    path = r.behaviours("MC_Settings", "MC_Settings4.cfg" if r.thorough else "MC_Settings.cfg", at_least=2000)
    r.validate("T_Cfg", r.drive("cfg", args=("replay=" + path,)), samples=1)
    r.validate("T_Cfg", r.drive("cfg"))
    r.validate("T_Cfg", r.drive("cfg", args=("real=" + r.bin("real"),)))
    r.need(cfg=1000, run=50, chain=2000)


@prop("C16")
def c16(r):
    r.validate("T_Repro", r.drive("repro", args=("real=" + r.bin("real"),)), samples=1)
    screen(r, "T_Repro", "repro")
    r.need(rep=150, screened=1)


@prop("C21")
def c21(r):
    path = r.behaviours("MC_Whole", "MC_WholeL.cfg" if r.thorough else "MC_Whole.cfg", at_least=700)
    r.validate("T_Prog", r.drive("e2e", args=("replay=" + path, "real=" + r.bin("real"))), sample_kinds=())
    r.validate("T_Prog", r.drive("e2e", args=("kind=asan", "replay=" + path, "real=" + r.bin("real", asan=True)), mem_gb=10 ** 5), sample_kinds=())
    r.validate("T_Prog", r.drive("e2e", args=("real=" + r.bin("real"),)))
    # the same program with the address sanitizer watching its memory
    r.validate("T_Prog", r.drive("e2e", args=("kind=asan", "real=" + r.bin("real", asan=True)), mem_gb=10 ** 5))
    r.need(prog=500)
