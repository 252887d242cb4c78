"""One function per property: which models are checked, which behaviours are
executed on the real library, and which trace specification judges them."""
import json, os, random, re, shutil, subprocess
import naming
from vlib import *



def ops_cfg(known):
    """The arithmetic trace specification, allowing exactly the recorded deviations."""
    ks = ",".join('"%s %s %s %s"' % (k["op"], k["a"], k["b"], k["deviation"]) for k in known)
    return "SPECIFICATION Spec\nCONSTANT Accept <- Ops\nCONSTANT Known = {%s}\nCHECK_DEADLOCK TRUE\n" % ks


def known_ops():
    return [k for k in load_known() if "deviation" in k]


def demonstrate_known(c, exe):
    """Show each recorded finding of this property on the real code: the strict specification rejects the call."""
    for k in load_known(c.pid):
        plan, trace = c.path("known.txt"), c.path("known.ndjson")
        with open(plan, "w") as f:
            f.write("%s %s %s 2 S2 1\n" % (k["op"], k["a"], k["b"]))
        c.record(exe, plan, trace)
        code, _ = c.tlc("TraceOps", cfg=ops_cfg([]), env={"TRACE": trace}, workers=1, count=False)
        if code == 11:
            print("KNOWN-FINDING: property=%s %s" % (c.pid, k["text"]))


def plan_ops(c, ops, every, name="plan"):
    """Let TLC enumerate the planned calls; returns them as lists."""
    cfg = ("SPECIFICATION Spec\nCONSTANTS Ops = {%s}\n NStrata = 22\n NRel = 13\n Phase = %d\n Every = %d\nINVARIANT Defined\n"
           % (",".join('"%s"' % o for o in ops), c.seed, every))
    dump = c.path(name)
    c.model("PlanOps", ring="ring_int", cfg=cfg, args=["-dump", dump])
    return parse_dump(dump + ".dump", "p")


def run_ops(c, ops, every, reps_bin, reps_un, builds):
    items = plan_ops(c, ops, every)
    plan = c.path("plan.txt")
    with open(plan, "w") as f:
        for op, t, u, s, m, k in items:
            f.write("%s %s %s %d %s%d %d\n" % (op, t, u, s, m, k, reps_un if u == "-" else reps_bin))
    c.counts["planned_calls"] = len(items)
    for n, (cxx, opt) in enumerate(builds):
        exe = c.build_cpp("drv_ops%d" % n, ["drv_ops.cpp"], cxx=cxx, opt=opt)
        trace = c.record(exe, plan, c.path("ops%d.ndjson" % n))
        for rej in c.judge(trace, "TraceOps", ops_cfg(known_ops())):
            c.report(rej, "call not allowed by Engabra.tla (%s %s)" % (cxx, opt))
            return
        if n == 0:
            demonstrate_known(c, exe)


def builds(c):
    return [("g++", "-O2")] if not c.thorough else [("g++", "-O2"), ("g++", "-O0"), ("clang++", "-O3"), ("g++", "-O3")]


def C01(c):
    c.dyadic_selftest()
    c.model("Laws", ring="ring_int")
    run_ops(c, ["mul", "sq", "cube"], 1 if c.thorough else 5, 2 if c.thorough else 1, 8 if c.thorough else 4, builds(c))
    run_pipe(c, ["mul", "sq", "cube"])


def C02(c):
    c.dyadic_selftest()
    run_ops(c, ["add", "sub"], 1 if c.thorough else 2, 2 if c.thorough else 1, 1, builds(c))
    run_pipe(c, ["add", "sub"])


def C03(c):
    c.dyadic_selftest()
    c.model("Laws", ring="ring_int")
    run_ops(c, ["neg", "reverse", "oddverse", "dirverse", "dual"], 1, 1, 14 if c.thorough else 2, builds(c))
    run_pipe(c, ["neg", "reverse", "oddverse", "dirverse", "dual"])


def run_fn(c, fns, reps, only=None):
    """Execute the planned function calls and judge them by EngabraFn.tla."""
    cfg = "SPECIFICATION Spec\nCONSTANTS Fns = {%s}\n NStrata = 22\n" % ",".join('"%s"' % f for f in fns)
    dump = c.path("planfn")
    c.model("PlanFn", ring="ring_int", cfg=cfg, args=["-dump", dump])
    items = parse_dump(dump + ".dump", "p")
    plan = c.path("planfn.txt")
    with open(plan, "w") as f:
        for op, t, s, m in items:
            if only is None or t in only:
                f.write("%s %s %d %d %d\n" % (op, t, s, m, reps))
    c.counts["planned_calls"] = c.counts.get("planned_calls", 0) + len(items)
    for n, (cxx, opt) in enumerate(builds(c)):
        exe = c.build_cpp("drv_fn%d" % n, ["drv_fn.cpp"], cxx=cxx, opt=opt)
        trace = c.record(exe, plan, c.path("fn%d.ndjson" % n))
        for rej in c.judge(trace, "TraceFn", "SPECIFICATION Spec\nCONSTANT Accept <- Fn\nCHECK_DEADLOCK TRUE\n"):
            c.report(rej, "call not allowed by EngabraFn.tla (%s %s)" % (cxx, opt))
            return


def C06(c):
    c.dyadic_selftest()
    run_fn(c, ["magSq", "magnitude", "pairMagDir", "direction"], 160 if c.thorough else 30)
    run_pipe(c, ["magSq", "magnitude", "pairMagDir", "direction"])


def C07(c):
    c.dyadic_selftest()
    c.model("Laws", ring="ring_int")
    run_fn(c, ["ampSq", "amplitude"], 250 if c.thorough else 50)
    run_pipe(c, ["ampSq", "amplitude"])


def C08(c):
    c.dyadic_selftest()
    c.model("LawsInv", ring="ring_int")
    run_fn(c, ["inverse"], 800 if c.thorough else 80)
    run_pipe(c, ["inverse"])


def C09(c):
    c.dyadic_selftest()
    c.model("SeriesTest")
    run_fn(c, ["exp"], 900 if c.thorough else 320, only=["BiVector", "Spinor"])
    run_pipe(c, ["exp"], only=["BiVector", "Spinor"])


def C10(c):
    c.dyadic_selftest()
    c.model("SeriesTest")
    run_fn(c, ["exp"], 1200 if c.thorough else 400, only=["MultiVector"])
    run_pipe(c, ["exp"], only=["MultiVector"])


def C11(c):
    c.dyadic_selftest()
    c.model("SeriesTest")
    run_fn(c, ["log"], 1000 if c.thorough else 400)
    run_pipe(c, ["log", "logPlane"])


def C12(c):
    c.dyadic_selftest()
    run_fn(c, ["sqrt"], 4000 if c.thorough else 1500)
    run_pipe(c, ["sqrt", "sqrtPlane"])


def C13(c):
    c.dyadic_selftest()
    c.model("SeriesTest")
    out = c.model("RotGroup", ring="ring_int", cfg="SPECIFICATION gSpec\nCONSTANT MaxLen=0\nINVARIANTS Proper SignedPerm\nCHECK_DEADLOCK FALSE\n")
    if c.models[-1]["distinct_states"] != 24:
        raise MachineryError("the rotation group model does not have 24 states")
    dump = c.path("paths")
    c.model("Rotations", ring="ring_int", args=["-dump", dump],
            cfg="SPECIFICATION Spec\nCONSTANT MaxLen=%d\nINVARIANTS Proper Composes Inverse\nCHECK_DEADLOCK FALSE\n" % (5 if c.thorough else 4))
    paths = parse_dump(dump + ".dump", "path")
    plan = c.path("rot.txt")
    with open(plan, "w") as f:
        for p in paths:
            if p:
                f.write("turns " + " ".join("%d %d" % (k, d) for k, d in p) + "\n")
        for sb in range(20):
            for sv in (0, 1, 2, 3, 5, 6, 8, 9, 10, 13, 16, 19):
                f.write("rot %d %d %d\n" % (sb, sv, 300 if c.thorough else 50))
            for n in (2, 3, 8):
                f.write("chain %d %d %d\n" % (sb, n, 300 if c.thorough else 40))
    for n, (cxx, opt) in enumerate(builds(c)):
        exe = c.build_cpp("drv_rot%d" % n, ["drv_rot.cpp"], cxx=cxx, opt=opt)
        trace = c.record(exe, plan, c.path("rot%d.ndjson" % n))
        for rej in c.judge(trace, "TraceRot", "SPECIFICATION Spec\nCONSTANT Accept <- Rot\nCHECK_DEADLOCK TRUE\n"):
            c.report(rej, "rotation not allowed by TraceRot.tla (%s %s)" % (cxx, opt))
            return


PIPE_OPS = ["mul", "add", "sub", "neg", "reverse", "oddverse", "dirverse", "dual", "sq", "cube", "magSq", "magnitude", "pairMagDir", "direction", "ampSq", "amplitude",
            "inverse", "exp", "log", "sqrt", "logPlane", "sqrtPlane", "near", "eq", "isValid", "text", "embed", "part"]


def pipe_plan(c, focus, num, depth):
    """Programs of Pipe.tla, simulated by TLC, as a plan for drv_pipe."""
    sim = c.path("pipe")
    os.makedirs(sim)
    ops = ",".join('"%s"' % f for f in focus)
    c.model("Pipe", ring="ring_int", workers=1, cfg="SPECIFICATION Spec\nCONSTANTS NReg=6\n Focus={%s}\nINVARIANT WellTyped\nCHECK_DEADLOCK FALSE\n" % ops,
            args=["-simulate", "num=%d,file=%s/t" % (num, sim), "-depth", str(depth), "-seed", str(c.seed)])
    plan = c.path("pipe.txt")
    with open(plan, "w") as f:
        for name in sorted(os.listdir(sim)):
            for n, st in enumerate(parse_states(os.path.join(sim, name), r"^STATE_\d+ ==\s*\n")):
                a = st["last"]
                if n == 0:
                    f.write("prog " + " ".join(st["ty"]) + "\n")
                elif a["op"] == "load":
                    f.write("load %d %s %d\n" % (a["d"], a["t"], a["s"]))
                else:
                    f.write("call %s %d %d %d %s\n" % (a["op"], a["d"], a["i"], a["j"], a["t"]))
    shutil.rmtree(sim)
    return plan


def run_pipe(c, focus, num=60, depth=50, only=None):
    """Programs that feed results to later calls; the calls of `focus` are judged."""
    if c.violations:
        return
    plan = pipe_plan(c, focus, num * (10 if c.thorough else 1), depth)
    ops = ",".join('"%s"' % f for f in focus)
    cfg = ops_cfg(known_ops()).replace("CONSTANT Accept <- Ops\n", "CONSTANTS Judged = {%s}\n JudgedTypes %s\n" % (ops, "= {%s}" % ",".join('"%s"' % t for t in only) if only else "<- Types"))
    for n, (cxx, opt) in enumerate(builds(c)):
        exe = c.build_cpp("drv_pipe%d" % n, ["drv_pipe.cpp"], cxx=cxx, opt=opt)
        trace = c.record(exe, plan, c.path("pipe%d.ndjson" % n))
        for rej in c.judge_programs(trace, "TracePipe", cfg):
            c.report(rej, "a call in a program is not allowed by the specification (%s %s)" % (cxx, opt))
            return


def trace_cfg(op):
    return "SPECIFICATION Spec\nCONSTANT Accept <- %s\nCHECK_DEADLOCK TRUE\n" % op


def planned(c, module, cfg=None, var="p", ring="ring_int"):
    """The states of a planning specification, enumerated by TLC."""
    dump = c.path("dump_" + module)
    c.model(module, ring=ring, cfg=cfg or "SPECIFICATION Spec\n", args=["-dump", dump])
    items = parse_dump(dump + ".dump", var)
    os.unlink(dump + ".dump")
    c.counts["planned_calls"] = c.counts.get("planned_calls", 0) + len(items)
    return items


def write_plan(c, items, name="plan.txt"):
    path = c.path(name)

    def flat(x):
        return " ".join(flat(y) for y in x) if isinstance(x, list) else str(x)
    with open(path, "w") as f:
        for it in items:
            f.write(flat(it) + "\n")
    return path


def run_driver(c, driver, plan, module, op, what, extra=(), flags=()):
    for n, (cxx, opt) in enumerate(builds(c)):
        exe = c.build_cpp("%s%d" % (driver, n), [driver + ".cpp"], cxx=cxx, opt=opt, flags=flags)
        trace = c.record(exe, plan, c.path("%s%d.ndjson" % (driver, n)), *extra)
        for rej in c.judge(trace, module, trace_cfg(op)):
            c.report(rej, "%s (%s %s)" % (what, cxx, opt))
            return


def C14(c):
    c.dyadic_selftest()
    plan = write_plan(c, planned(c, "PlanValid"))
    run_driver(c, "drv_valid", plan, "TraceValid", "Valid", "validity not as specified by TraceValid.tla", extra=[30 if c.thorough else 4])
    run_pipe(c, ["isValid"])


def cmp_cfg(part):
    return 'SPECIFICATION Spec\nCONSTANTS NRef=12\n NRel=20\n NTol=14\n NEqRel=14\n Part="%s"\n' % part


def C15(c):
    c.dyadic_selftest()
    plan = write_plan(c, planned(c, "PlanCmp", cmp_cfg("near")))
    run_driver(c, "drv_cmp", plan, "TraceCmp", "Cmp", "comparison not allowed by EngabraCmp.tla", extra=[15 if c.thorough else 3])
    run_pipe(c, ["near"])


def C16(c):
    c.dyadic_selftest()
    plan = write_plan(c, planned(c, "PlanCmp", cmp_cfg("eq")))
    run_driver(c, "drv_cmp", plan, "TraceCmp", "Cmp", "equality not as specified by EngabraCmp.tla", extra=[40 if c.thorough else 6])
    run_pipe(c, ["eq"])


def stream_items(c):
    """The extractions to perform: the initial states of StreamIn.tla."""
    dump = c.path("streamin")
    c.model("StreamIn", ring="ring_int", args=["-dump", dump],
            cfg="SPECIFICATION Spec\nCONSTANT Phase=%d\nINVARIANTS InOrder Complete Marked\nCHECK_DEADLOCK FALSE\n" % (c.seed % 27))
    items = [[int(s["failed0"]), len(s["prog"]), s["prog"], s["toks"]] for s in parse_states(dump + ".dump")
             if s["ent"] == 1 and s["comp"] == 1 and s["pos"] == 1 and s["fail"] == s["failed0"] and s["out"][0][0] == -1]
    os.unlink(dump + ".dump")
    c.counts["planned_calls"] = c.counts.get("planned_calls", 0) + len(items)
    return items


def C17(c):
    c.dyadic_selftest()
    items = stream_items(c)
    run_driver(c, "drv_in", write_plan(c, items), "TraceIn", "In", "extraction not allowed by Extraction.tla", extra=[40 if c.thorough else 10])
    run_pipe(c, ["text"])


def C18(c):
    c.dyadic_selftest()
    counts = "0,1,2,3,4,6,9,12,15,17,20,35,70" if c.thorough else "0,1,3,6,13,15,24,60"
    plan = write_plan(c, planned(c, "PlanFmt", "SPECIFICATION Spec\nCONSTANTS NStrata=22\n NKind=8\n Counts={%s}\n" % counts))
    run_driver(c, "drv_fmt", plan, "TraceFmt", "Fmt", "text not allowed by Format.tla", extra=[2 if c.thorough else 1])
    run_pipe(c, ["text"])


def machine_plan(c, num, depth):
    """Behaviours of Machine.tla, simulated by TLC, as a plan for drv_mach."""
    sim = c.path("sim")
    os.makedirs(sim)
    c.model("Machine", ring="ring_int", workers=1, cfg="SPECIFICATION Spec\nCONSTANTS NReg=5\n Bound=100\nINVARIANT WellTyped\nPROPERTY Frame\nCHECK_DEADLOCK FALSE\n",
            args=["-simulate", "num=%d,file=%s/t" % (num, sim), "-depth", str(depth), "-seed", str(c.seed)])
    path = c.path("programs.txt")

    def val(v):
        return v["t"] + " " + " ".join(str(x) for x in v["c"])
    with open(path, "w") as f:
        for name in sorted(os.listdir(sim)):
            for n, st in enumerate(parse_states(os.path.join(sim, name), r"^STATE_\d+ ==\s*\n")):
                last = st["last"]
                if n == 0:
                    f.write("prog " + " ".join(val(v) for v in st["reg"]) + "\n")
                elif last["op"] == "load":
                    f.write("load %d %s\n" % (last["d"], val(st["reg"][last["d"] - 1])))
                else:
                    f.write("call %s %d %d %d\n" % (last["op"], last["d"], last["i"], last["j"]))
    shutil.rmtree(sim)
    return path


def with_witness(traces, out):
    """Give every line the first recorded execution of the same planned call as its witness."""
    first = {}
    with open(out, "w") as o:
        for t in traces:
            for line in open(t, errors="replace"):
                e = json.loads(line)
                if e["op"] == "hist":
                    if e["id"] >= 0:
                        e["w"] = first.setdefault(e["id"], {k: e[k] for k in ("f", "a", "b", "r", "text")})
                o.write(json.dumps(e, separators=(",", ":")) + "\n")
    return out


def C04(c):
    c.dyadic_selftest()
    known = ops_cfg(known_ops()).replace("CONSTANT Accept <- Ops\n", "")
    progs = machine_plan(c, 1500 if c.thorough else 150, 60 if c.thorough else 40)
    calls = write_plan(c, planned(c, "PlanCalls"), "calls.txt")
    for n, (cxx, opt) in enumerate(builds(c)):
        exe = c.build_cpp("drv_mach%d" % n, ["drv_mach.cpp"], cxx=cxx, opt=opt)
        trace = c.record(exe, progs, c.path("mach%d.ndjson" % n))
        for rej in c.judge_programs(trace, "TraceMach", known):
            c.report(rej, "not a behaviour of Machine.tla (%s %s)" % (cxx, opt))
            return
        exe = c.build_cpp("drv_hist%d" % n, ["drv_hist.cpp"], cxx=cxx, opt=opt)
        # the same calls in three orders, each in a fresh process
        traces = [c.record(exe, calls, c.path("hist%d_%d.ndjson" % (n, k)), 6 if c.thorough else 2, k,
                           (20000000 if c.thorough else 1000000) if k == 2 else 0) for k in range(3)]
        for rej in c.judge(with_witness(traces, c.path("hist%d.ndjson" % n)), "TraceHist", trace_cfg("Hist")):
            c.report(rej, "the result of a call depends on more than its operands (%s %s)" % (cxx, opt))
            return


def C05(c):
    conc = "SPECIFICATION Spec\nCONSTANTS Impl=\"%s\"\n NStep=%d\n NCall=2\n MaxSwitch=%d\nINVARIANT Sequential\nCHECK_DEADLOCK FALSE\n"
    nstep, nsw = 4, 3
    dump = c.path("conc")
    c.model("Conc", cfg=conc % ("pure", nstep, nsw), args=["-dump", dump])
    # the schedule family is discriminating: designs with hidden state are refuted by it
    for bad in ("scratch", "cache"):
        code, _ = c.tlc("Conc", cfg=conc % (bad, nstep, nsw), workers=1, count=False)
        if code != 12:
            raise MachineryError("the model of a %s is not refuted (%d)" % (bad, code))
    scheds = sorted({tuple((t, k) for t, k in s["sched"]) for s in parse_states(dump + ".dump") if s["n"] == [3, 3]})
    os.unlink(dump + ".dump")
    random.Random(c.seed).shuffle(scheds)
    c.counts["schedules"] = len(scheds)
    splan = write_plan(c, [[nstep] + [list(r) for r in s] for s in scheds], "schedules.txt")
    calls = write_plan(c, planned(c, "PlanCalls"), "calls.txt")
    exe = c.build_cpp("drv_conc", ["drv_conc.cpp"])
    trace = c.record(exe, calls, c.path("conc.ndjson"), 4 if c.thorough else 1, "run", splan, 24 if c.thorough else 4, 450 if c.thorough else 120, timeout=800)
    for rej in c.judge(trace, "TraceHist", trace_cfg("Hist")):
        c.report(rej, "a concurrent call did not return what it returns alone")
        return
    # the thread sanitizer: a race report is an event no behaviour of the model contains
    exe = c.build_cpp("drv_race", ["drv_conc.cpp"], flags=["-fsanitize=thread", "-g"], opt="-O1")
    trace = c.path("race.ndjson")
    rc, _, err = c.run(exe, [calls, trace, c.seed, 1, "free", "-", 3000 if c.thorough else 200], timeout=700,
                       env={"TSAN_OPTIONS": "exitcode=66 halt_on_error=1 report_signal_unsafe=0"})
    text = err.decode(errors="replace")
    if rc != 0:
        drop_partial_line(trace)
        if "data race" not in text and "unexpected memory mapping" in text:
            c.assumptions.append("the thread sanitizer could not run in this sandbox")
        else:
            with open(trace, "a") as f:
                f.write(json.dumps({"op": "race", "status": str(rc), "report": text[:3000]}) + "\n")
    for rej in c.judge(trace, "TraceRace", trace_cfg("Race")) if os.path.getsize(trace) else []:
        c.report(rej, "unsynchronised access to shared state")
        return


def store_plan(c, num, depth):
    """Programs of Store.tla, simulated by TLC, as a plan for drv_store."""
    sim = c.path("simstore")
    os.makedirs(sim)
    c.model("Store", ring="ring_int", workers=1,
            cfg="SPECIFICATION Spec\nCONSTANTS NSlot=6\n NTok=15\n ZeroCell=0\nINVARIANTS Typed Whole\nPROPERTY Frame\nCHECK_DEADLOCK FALSE\n",
            args=["-simulate", "num=%d,file=%s/t" % (num, sim), "-depth", str(depth), "-seed", str(c.seed)])
    plan = c.path("store.txt")

    def row(v):
        return "%d %s" % (len(v), " ".join(map(str, v)))
    with open(plan, "w") as f:
        for name in sorted(os.listdir(sim)):
            for n, st in enumerate(parse_states(os.path.join(sim, name), r"^STATE_\d+ ==\s*\n")):
                a = st["last"]
                if n == 0:
                    f.write("prog " + " ".join(o["t"] + " " + row(o["c"]) for o in st["slot"]) + "\n")
                else:
                    f.write("step %s %d %d %d %s %s %s\n" % (a["a"], a["d"], a["x"], a["y"], a["t"], row(a["v"]), " ".join(map(str, a["s"]))))
    shutil.rmtree(sim)
    return plan


def C19(c):
    plan = store_plan(c, 1500 if c.thorough else 200, 60 if c.thorough else 40)
    for n, (cxx, opt) in enumerate(builds(c)):
        exe = c.build_cpp("drv_store%d" % n, ["drv_store2.cpp", "drv_store1.cpp", "drv_store.cpp"], cxx=cxx, opt=opt)
        consts = c.path("const%d.ndjson" % n)
        trace = c.record(exe, plan, c.path("store%d.ndjson" % n), consts)
        drop_partial_line(consts)
        for rej in c.judge(consts, "TraceConst", trace_cfg("Const")) if os.path.getsize(consts) else []:
            c.report(rej, "a constant does not have its value (%s %s)" % (cxx, opt))
            return
        for rej in c.judge_programs(trace, "TraceStore", "SPECIFICATION Spec\nCONSTANT ZeroCell <- PlusZero\nCHECK_DEADLOCK TRUE\n"):
            c.report(rej, "not a behaviour of Store.tla (%s %s)" % (cxx, opt))
            return
    run_pipe(c, ["embed", "part"])


def C20(c):
    c.model("TypeGrowth", ring="ring_int", cfg="SPECIFICATION Spec\nINVARIANTS Typed Carries\nCHECK_DEADLOCK FALSE\n")
    c.model("TypeGrowth", ring="ring_int", cfg="SPECIFICATION Spec\nINVARIANTS Unique Symmetric Associative DualDual\nCONSTRAINT First\nCHECK_DEADLOCK FALSE\n")
    plan = write_plan(c, planned(c, "PlanTypes"))
    heads = planned(c, "PlanHeaders", cfg="SPECIFICATION Spec\nCONSTANT Pairs=%d\n" % c.thorough)
    consts = planned(c, "PlanConstants")
    stds = ["-std=c++17"] + (["-std=c++20"] if c.thorough else [])
    for n, (cxx, std) in enumerate([(x, y) for x in ("g++", "clang++") for y in stds]):
        what = "%s %s" % (cxx, std)
        try:
            c.build_cpp("one%d" % n, ["tu_one.cpp"], cxx=cxx, flags=[std], opt="-O0")
        except HarnessBuildError as e:
            if cxx == "g++":
                builds_line(c, n, what, e)
                return
            c.assumptions.append("%s does not compile the library's headers here" % what)
            continue
        trace = c.path("heads%d.ndjson" % n)
        with open(trace, "w") as f, ThreadPoolExecutor(8) as ex:
            for (h, g), (ok, msg) in zip(heads, ex.map(lambda h: c.compiles('#include "%s"\n#include "%s"\nint main() { return 0; }\n' % tuple(h), cxx, [std]), heads)):
                f.write(json.dumps({"op": "include", "first": h, "then": g, "with": what, "ok": int(ok), "msg": msg[-1500:]}) + "\n")
        for rej in c.judge(trace, "TraceTypes", trace_cfg("Typing")):
            c.report(rej, "a documented header cannot be included on its own (%s)" % what)
            return
        # constants in constant expressions
        trace = c.path("consts%d.ndjson" % n)

        def constant(k):
            name, t = k
            ty = t if t == "double" else "engabra::g3::" + t
            call = "engabra::g3::" + name + ("" if name not in ("null", "zero", "one") else "<%s>()" % ty)
            return c.compiles('#include "Engabra"\nconstexpr %s theValue = %s;\nint main() { return 0; }\n' % (ty, call), cxx, [std])
        with open(trace, "w") as f, ThreadPoolExecutor(8) as ex:
            for (name, t), (ok, msg) in zip(consts, ex.map(constant, consts)):
                f.write(json.dumps({"op": "constant", "name": name, "t": t, "with": what, "ok": int(ok), "msg": msg[-1500:]}) + "\n")
        for rej in c.judge(trace, "TraceTypes", trace_cfg("Typing")):
            c.report(rej, "a constant cannot be used in a constant expression (%s)" % what)
            return
        # a program of two translation units
        err = None
        for srcs in (["tu_a.cpp", "tu_b.cpp"], ["tu_b.cpp", "tu_a.cpp"]):
            try:
                exe = c.build_cpp("two%d" % n, srcs, cxx=cxx, flags=[std], opt="-O1" if c.thorough else "-O0")
                rc, _, _ = c.run(exe, [])
                if rc != 0:
                    err = "the program of two translation units ends with %s" % rc
            except HarnessBuildError as e:
                err = e
            if err is not None:
                break
        if builds_line(c, n, what, err):
            return
        # the compiler's answers
        try:
            exe = c.build_cpp("drv_types%d" % n, ["drv_types.cpp"], cxx=cxx, flags=[std], opt="-O0")
        except HarnessBuildError as e:
            builds_line(c, n, what, e)
            return
        trace = c.record(exe, plan, c.path("types%d.ndjson" % n))
        for rej in c.judge(trace, "TraceTypes", trace_cfg("Typing")):
            c.report(rej, "not as TypeRules.tla (%s)" % what)
            return


def builds_line(c, n, what, err):
    """Judge whether a program built; True if that is a violation."""
    trace = c.path("build%d.ndjson" % n)
    with open(trace, "w") as f:
        f.write(json.dumps({"op": "build", "with": what, "ok": 0 if err is not None else 1, "msg": str(err or "")[-2500:]}) + "\n")
    for rej in c.judge(trace, "TraceTypes", trace_cfg("Typing")):
        c.report(rej, "a program using the library does not build (%s)" % what)
        return True
    return False


MONITOR = ["-D_GLIBCXX_ASSERTIONS", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]


def C21(c):
    foot = "SPECIFICATION Spec\nCONSTANTS Impl=\"%s\"\n MaxLen=%d\nINVARIANT NoFault\nCHECK_DEADLOCK FALSE\n"
    c.model("Footprint", cfg=foot % ("sound", 6 if c.thorough else 5))
    for bad in ("overrun", "partial", "dangling"):
        code, _ = c.tlc("Footprint", cfg=foot % (bad, 5), workers=1, count=False)
        if code != 12:
            raise MachineryError("the design with a %s is not refuted (%d)" % (bad, code))
    deep = 4 if c.thorough else 1
    # the programs: those of the other specifications
    plans = {}
    plans["wild"] = (write_plan(c, planned(c, "PlanCalls"), "calls.txt"), ["drv_wild.cpp"], [30 * deep])
    plans["valid"] = (write_plan(c, planned(c, "PlanValid"), "valid.txt"), ["drv_valid.cpp"], [deep])
    plans["fmt"] = (write_plan(c, planned(c, "PlanFmt", "SPECIFICATION Spec\nCONSTANTS NStrata=22\n NKind=8\n Counts={0,6,15}\n"), "fmt.txt"), ["drv_fmt.cpp"], [deep])
    plans["in"] = (write_plan(c, stream_items(c), "in.txt"), ["drv_in.cpp"], [2 * deep])
    plans["pipe"] = (pipe_plan(c, PIPE_OPS, 100 * deep, 60), ["drv_pipe.cpp"], [])
    plans["store"] = (store_plan(c, 100 * deep, 40), ["drv_store2.cpp", "drv_store1.cpp", "drv_store.cpp"], [c.path("consts.ndjson")])
    plans["ops"] = (write_plan(c, [[op, t, u, s, "%s%d" % (m, k), 2 if u == "-" else 1] for op, t, u, s, m, k in
                                   plan_ops(c, ["mul", "add", "sub", "neg", "reverse", "oddverse", "dirverse", "dual", "sq", "cube"], 5 if c.thorough else 25, "planops")], "ops.txt"), ["drv_ops.cpp"], [])
    plans["fn"] = (write_plan(c, [[*p, 2 * deep] for p in planned(c, "PlanFn", "SPECIFICATION Spec\nCONSTANTS Fns = {%s}\n NStrata = 22\n" %
                                  ",".join('"%s"' % f for f in ("magSq", "magnitude", "pairMagDir", "direction", "ampSq", "amplitude", "inverse", "exp", "log", "sqrt")))], "fn.txt"), ["drv_fn.cpp"], [])
    plans["cmp"] = (write_plan(c, planned(c, "PlanCmp", cmp_cfg("eq")) + planned(c, "PlanCmp", cmp_cfg("near")), "cmp.txt"), ["drv_cmp.cpp"], [1])

    # the builds
    jobs = [(name, mon, srcs) for name, (_, srcs, _) in plans.items() for mon in ("plain", "address")]
    with ThreadPoolExecutor(4) as ex:
        exes = dict(zip([j[:2] for j in jobs], ex.map(lambda j: c.build_cpp("%s_%s" % j[:2], j[2], flags=MONITOR if j[1] == "address" else ["-g1"], opt="-O1"), jobs)))
    asan = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:exitcode=66:handle_abort=1", "UBSAN_OPTIONS": "exitcode=66:print_stacktrace=1"}
    valgrind = ["valgrind", "-q", "--error-exitcode=66", "--exit-on-first-error=yes"]
    have_vg = memcheck_works(c)
    small = c.path("few.txt")
    sessions = []

    def session(name, mon, planned_calls, plain):
        plan, _, extra = plans[name]
        trace = c.path("%s_%s.ndjson" % (name, mon))
        extra = [str(x) + "_" + mon if str(x).endswith(".ndjson") else x for x in extra]
        if mon == "memcheck":
            with open(plan) as f, open(c.path(name + "_few.txt"), "w") as g:
                g.writelines(thin(f.readlines(), 1 if c.thorough else 3, c.seed))
            plan = c.path(name + "_few.txt")
            exe, pre, env = exes[name, "plain"], valgrind, {}
        else:
            exe, pre, env = exes[name, "plain" if mon != "address" else mon], [], (asan if mon == "address" else {"MALLOC_PERTURB_": "165", "PADDING": "x" * 4099} if mon == "layout" else {})
        args = [exe, plan, trace, c.seed] + extra
        rc, _, err = c.run((pre + args)[0], (pre + args)[1:], timeout=(1 if not c.thorough else 2) * {"memcheck": 300, "address": 150}.get(mon, 80), env=env)
        with open(trace, errors="replace") as f:
            calls = sum(1 for _ in f)
        end = "clean" if rc == 0 else str(rc)
        if mon == "memcheck":
            rc2, _, _ = c.run(exe, [plan, trace + ".bare", c.seed] + extra, timeout=300)
            with open(trace + ".bare", errors="replace") as f:
                planned_calls = sum(1 for _ in f)
        if mon == "layout" and rc == 0:
            with open(trace, "rb") as f, open(plain, "rb") as g:
                if f.read() != g.read():
                    end = "another result in another memory layout"
        return {"op": "session", "program": name, "monitor": mon, "calls": calls, "planned": planned_calls if planned_calls is not None else calls,
                "end": end, "report": err.decode(errors="replace")[:3000] if rc != 0 else ""}

    def all_sessions(name):
        plain = session(name, "plain", None, None)
        res = [plain]
        if plain["end"] != "clean":
            return res
        trace = c.path(name + "_plain.ndjson")
        for mon in ["address", "layout"] + (["memcheck"] if have_vg else []):
            res.append(session(name, mon, plain["calls"], trace))
        return res
    with ThreadPoolExecutor(4) as ex:
        for res in ex.map(all_sessions, plans):
            sessions += res
    trace = c.path("sessions.ndjson")
    with open(trace, "w") as f:
        for s in sessions:
            f.write(json.dumps(s) + "\n")
    c.counts["monitored_calls"] = sum(s["calls"] for s in sessions if s["monitor"] in ("address", "memcheck"))
    for t in (trace, c.path("wild_address.ndjson")):
        drop_partial_line(t)
        for rej in c.judge(t, "TraceFoot", trace_cfg("Foot")) if os.path.getsize(t) else []:
            c.report(rej, "a call touched what it may not, or did not return")
            return

CONSUMER = """cmake_minimum_required(VERSION 3.13)
project(Consumer LANGUAGES CXX)
set(CMAKE_CXX_STANDARD %(std)s)
set(CMAKE_CXX_STANDARD_REQUIRED ON)
find_package(Threads REQUIRED)
find_package(Engabra %(request)s NO_MODULE)
if(Engabra_FOUND)
  file(WRITE ${CMAKE_BINARY_DIR}/found.txt "${Engabra_VERSION}")
  foreach(h %(headers)s)
    add_library(only_${h} OBJECT only_${h}.cpp)
    target_link_libraries(only_${h} PRIVATE Engabra::Engabra)
  endforeach()
  add_executable(program %(harn)s/pkg_main.cpp %(harn)s/pkg_other.cpp)
  target_link_libraries(program PRIVATE Engabra::Engabra Threads::Threads)
  if(%(ops)d)
    add_executable(ops %(harn)s/drv_ops.cpp)
    target_include_directories(ops PRIVATE %(harn)s)
    target_link_libraries(ops PRIVATE Engabra::Engabra)
  endif()
endif()
"""


def package_life(c, n, life, headers, ops):
    """Carry out one planned life of the package in a scratch directory; returns what it showed."""
    cxx, kind, ident, via, moved, dropped, ccxx, std, request = life
    top = c.path("life%d" % n)
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    src, tree, prefix = (os.path.join(top, x) for x in ("src", "build", "prefix"))
    shutil.copytree(REPO, src, ignore=shutil.ignore_patterns(".git", "_build"), symlinks=True)
    given = "v%d.%d-%d-gfeed" % (n, c.seed, n)
    log = []

    def sh(cmd, cwd=top):
        try:
            r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=240)
        except subprocess.TimeoutExpired:
            log.append(" ".join(cmd)[:200] + ": timed out")
            return 124
        if r.returncode:
            log.append(" ".join(cmd)[:200] + "\n" + (r.stdout + r.stderr)[-1500:])
        return r.returncode
    common = ["-DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON", "-DCMAKE_FIND_PACKAGE_NO_PACKAGE_REGISTRY=ON"]
    ev = {"op": "deliver", "cxx": cxx, "kind": kind, "ident": ident, "via": via, "moved": moved, "dropped": dropped,
          "consumer": ccxx, "std": std, "request": request, "given": given, "configured": 0, "built": 0, "delivered": 0}
    ev["configured"] = int(sh(["cmake", "-S", src, "-B", tree, "-G", "Ninja", "-DCMAKE_CXX_COMPILER=" + cxx, "-DCMAKE_BUILD_TYPE=" + kind, "-DCMAKE_INSTALL_PREFIX=" + prefix,
                               "-DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON", "-DCMAKE_SKIP_INSTALL_ALL_DEPENDENCY=ON"] + common + (["-DaSourceIdentity=" + given] if ident == "given" else [])) == 0)
    if ev["configured"]:
        ev["built"] = int(sh(["cmake", "--build", tree, "--target", "Engabra"]) == 0)
    if ev["built"]:
        if via == "install":
            ok = sh(["cmake", "--install", tree]) == 0
        else:
            ok = sh(["cpack", "-G", "DEB"], tree) == 0
            debs = [x for x in (os.listdir(tree) if ok else []) if x.endswith(".deb")]
            ok = len(debs) == 1 and sh(["dpkg-deb", "-x", os.path.join(tree, debs[0]), os.path.join(top, "unpacked")]) == 0
            prefix = os.path.join(top, "unpacked") + prefix
        ev["delivered"] = int(ok)
    ev["log"] = "\n".join(log)[-2500:]
    if not ev["delivered"]:
        shutil.rmtree(top, ignore_errors=True)
        return [ev], None
    project = ""
    with open(os.path.join(tree, "CMakeCache.txt")) as f:
        for line in f:
            if line.startswith("CMAKE_PROJECT_VERSION:"):
                project = line.strip().split("=", 1)[1]
    if moved:
        os.makedirs(os.path.join(top, "elsewhere"))
        os.rename(prefix, os.path.join(top, "elsewhere", "there"))
        prefix = os.path.join(top, "elsewhere", "there")
    if dropped:
        shutil.rmtree(src)
        shutil.rmtree(tree)
    v = [int(x) for x in re.findall(r"\d+", project)[:3]] + [0, 0, 0]
    want = {"any": "", "same": project, "older": "%d.%d" % (v[0], max(v[1] - 1, 0)), "newer": "%d.%d" % (v[0], v[1] + 1), "other": "%d.0" % (v[0] + 1)}[request]
    con, out = os.path.join(top, "consumer"), os.path.join(top, "cbuild")
    os.makedirs(con)
    for h in headers:
        with open(os.path.join(con, "only_%s.cpp" % h), "w") as f:
            f.write("#include <%s>\nint only();\nint only() { return 0; }\n" % h)
    with open(os.path.join(con, "CMakeLists.txt"), "w") as f:
        f.write(CONSUMER % {"std": std, "request": want, "headers": " ".join(headers), "harn": HARN, "ops": ops})
    del log[:]
    use = dict(ev, op="consume", project=project, found="", headers=[], linked=0, ended=-1, versions=[], identities=[])
    configured = sh(["cmake", "-S", con, "-B", out, "-G", "Ninja", "-DCMAKE_CXX_COMPILER=" + ccxx, "-DCMAKE_BUILD_TYPE=" + kind, "-DCMAKE_PREFIX_PATH=" + prefix] + common) == 0
    found = os.path.join(out, "found.txt")
    trace = None
    if configured and os.path.exists(found):
        with open(found) as f:
            use["found"] = f.read()
        sh(["ninja", "-C", out, "-j", "4", "-k", "0"])
        use["headers"] = [[h, int(os.path.exists(os.path.join(out, "CMakeFiles", "only_%s.dir" % h, "only_%s.cpp.o" % h)))] for h in headers]
        exe = os.path.join(out, "program")
        use["linked"] = int(os.path.exists(exe) and (not ops or os.path.exists(os.path.join(out, "ops"))))
        if use["linked"]:
            said = os.path.join(top, "said.json")
            use["ended"] = sh([exe, said])
            if use["ended"] == 0:
                with open(said) as f:
                    use.update(json.load(f))
            if ops:
                trace = c.record(os.path.join(out, "ops"), c.path("ops.txt"), c.path("life_ops%d.ndjson" % n))
    use["log"] = "\n".join(log)[-2500:]
    shutil.rmtree(top, ignore_errors=True)
    return [ev, use], trace


def C22(c):
    c.dyadic_selftest()
    design = "SPECIFICATION Spec\nCONSTANT Impl=\"%s\"\nINVARIANTS Kept Builds\nCHECK_DEADLOCK FALSE\n"
    c.model("Package", cfg=design % "sound")
    for bad in ("forgot", "fixed", "sources", "flags", "compiler"):
        code, _ = c.tlc("Package", cfg=design % bad, workers=1, count=False)
        if code != 12:
            raise MachineryError("the design '%s' is not refuted (%d)" % (bad, code))
    every = 8 if c.thorough else 64
    lives = planned(c, "PlanPackage", "SPECIFICATION PlanSpec\nCONSTANTS Impl=\"sound\"\n Phase=%d\n Every=%d\n" % (c.seed * 7, every))
    headers = sorted({h[0] for h in planned(c, "PlanHeaders", cfg="SPECIFICATION Spec\nCONSTANT Pairs=0\n")})
    write_plan(c, [[op, t, u, s, "%s%d" % (m, k), 1] for op, t, u, s, m, k in
                   plan_ops(c, ["mul", "add", "sub", "neg", "reverse", "dual"], 9 if c.thorough else 40, "planops")], "ops.txt")
    works = [n for n, life in enumerate(lives) if life[8] in ("any", "same", "older")]
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda x: package_life(c, x[0], x[1], headers, int(x[0] in works[:4 if c.thorough else 1])), enumerate(lives)))
    trace = c.path("lives.ndjson")
    with open(trace, "w") as f:
        for evs, _ in res:
            for e in evs:
                f.write(json.dumps(e) + "\n")
    c.counts["lives"] = len(lives)
    c.counts["consumed"] = len(works)
    for rej in c.judge(trace, "TracePackage", trace_cfg("Life")):
        c.report(rej, "the package was not delivered, or did not serve its consumer")
        return
    for _, t in res:
        if t:
            for rej in c.judge(t, "TraceOps", ops_cfg(known_ops())):
                c.report(rej, "a consumer of the package computed something else")
                return



def name_groups(c):
    """The cases of NameCases.tla, by group; those of a group that go into one program together."""
    cases = {g: planned(c, "PlanNames", 'SPECIFICATION Spec\nCONSTANT What="%s"\n' % g) for g in ("name", "operator", "function", "bare", "convert")}
    words = further_words(c, {k[0] for k in cases["name"]})
    c.counts["words"] = len({k[0] for k in cases["name"]}) + len(words)
    cases["name"] += [[w, kind, scope, "declared"] for w in words for kind in sorted({k[1] for k in cases["name"]}) for scope in ("global", "mine")]
    groups = []
    for header, position, directive in planned(c, "PlanNames", 'SPECIFICATION Spec\nCONSTANT What="programs"\n'):
        for g, all_cases in sorted(cases.items()):
            if g == "name":
                if directive == "none":
                    for kind in sorted({k[1] for k in all_cases}):
                        groups.append((header, position, directive, g, [k for k in all_cases if k[1] == kind]))
            elif g == "operator":
                groups.append((header, position, directive, g, [k for k in all_cases if k[6] == position]))
            elif g == "function" and directive == "g3":
                groups.append((header, position, directive, g, [k for k in all_cases if k[2] == "free"]))
            else:
                groups.append((header, position, directive, g, all_cases))
    return groups


def further_words(c, words):
    def pre(text):
        r = subprocess.run(["g++", "-std=c++17", "-E", "-dD", "-I", os.path.join(REPO, "include"), "-x", "c++", "-"], input=text, capture_output=True, text=True, errors="replace")
        if r.returncode:
            raise HarnessBuildError("preprocessing the library's headers:\n" + r.stderr[-1500:])
        return r.stdout
    sources = ""
    for name in sorted(os.listdir(os.path.join(REPO, "include"))):
        with open(os.path.join(REPO, "include", name), errors="replace") as f:
            sources += f.read() + "\n"
    heads = naming.STD + "".join(naming.include(h[0]) for h in planned(c, "PlanHeaders", cfg="SPECIFICATION Spec\nCONSTANT Pairs=0\n"))
    return naming.found_words(pre(heads), pre(naming.STD), words, sources, os.path.join(REPO, "include"))


def without_library(group):
    """The cases of a group that make sense without the library (its entities not mentioned)."""
    _, position, _, g, cases = group
    if g == "operator":
        return [k for k in cases if k[3] in ("self", "double", "stream")]
    return [k for k in cases if k[1] in naming.BARE and k[2] in naming.BARE] if g == "bare" else [] if g == "convert" else cases


def C23(c):
    c.dyadic_selftest()
    design = "SPECIFICATION Spec\nCONSTANTS Impl=\"%s\"\n MaxDecls=%d\nINVARIANT Transparent\nCHECK_DEADLOCK FALSE\n"
    c.model("Names", cfg=design % ("sound", 3 if c.thorough else 2))
    for bad in ("leaky", "alias", "greedy", "mixed", "implicit", "macro"):
        code, _ = c.tlc("Names", cfg=design % (bad, 2), workers=2, count=False)
        if code != 12:
            raise MachineryError("the design '%s' is not refuted (%d)" % (bad, code))
    groups = name_groups(c)
    c.counts["programs"] = c.counts["cases"] = 0
    for n, (cxx, std) in enumerate([(x, y) for x in ("g++", "clang++") for y in ["-std=c++17"] + (["-std=c++20"] if c.thorough else [])]):
        what = "%s %s" % (cxx, std)
        # every header with the first compiler; the main ones with the other
        todo = [g for g in groups if n == 0 or c.thorough or g[0] in ("Engabra", "g3publish.hpp", "g3io.hpp", "g3func.hpp")]
        # the programs hold without the library
        base = [g for g in todo if g[0] == "Engabra" and g[2] == "none" and g[3] != "convert"]

        stdhead = c.path("std%d.hpp" % n)
        with open(stdhead, "w") as f:
            f.write(naming.STD)
        c.precompile(stdhead, cxx, [std])

        def attempt(group, cases=None):
            h, position, directive, g, all_cases = group
            return c.compiles(naming.PROGRAM[g](h, position, directive, cases or all_cases), cxx, [std, "-include", stdhead])
        with ThreadPoolExecutor(8) as ex:
            for g, (ok, msg) in zip(base, ex.map(lambda g: attempt(("",) + g[1:], without_library(g)), base)):
                if not ok:
                    raise MachineryError("the cases %s/%s do not hold without the library (%s):\n%s" % (g[3], g[1], what, msg[-2000:]))
            res = list(zip(todo, ex.map(attempt, todo)))
        lines = []
        for g, (ok, msg) in res:
            h, position, directive, name, cases = g
            head = {"header": h, "position": position, "directive": directive, "group": name, "with": what}
            c.counts["programs"] += 1
            c.counts["cases"] += len(cases)
            if not ok and not any(x["op"] == "case" for x in lines):
                # which cases?  each in a program of its own
                with ThreadPoolExecutor(8) as ex:
                    for k, (ok1, msg1) in zip(cases, ex.map(lambda k: attempt(g, [k]), cases)):
                        if not ok1:
                            lines.append(dict(head, op="case", case=k, ok=0, msg=msg1[:1500]))
                            break
            lines.append(dict(head, op="cases", cases=len(cases), ok=int(ok), msg=msg[:1500]))
        trace = c.path("names%d.ndjson" % n)
        with open(trace, "w") as f:
            for x in lines:
                f.write(json.dumps(x) + "\n")
        for rej in c.judge(trace, "TraceNames", trace_cfg("Transparent")):
            c.report(rej, "including the library changes the meaning of a program's own names or calls (%s)" % what)
            return
    # what the library computes for a program that has such names before it
    with open(c.path("prelude.hpp"), "w") as f:
        f.write(naming.prelude(planned(c, "PlanNames", 'SPECIFICATION Spec\nCONSTANT What="prelude"\n')))
    plan = write_plan(c, [[op, t, u, s, "%s%d" % (m, k), 1] for op, t, u, s, m, k in
                          plan_ops(c, ["mul", "add", "sub", "neg", "reverse", "oddverse", "dirverse", "dual", "sq", "cube"], 7 if c.thorough else 40, "planops")][::1 if c.thorough else 8], "ops.txt")
    fns = ["magnitude", "pairMagDir", "direction", "amplitude", "inverse", "exp", "log", "sqrt"]
    fplan = write_plan(c, [[op, t, s, m, 8 if c.thorough else 2] for op, t, s, m in
                           planned(c, "PlanFn", "SPECIFICATION Spec\nCONSTANTS Fns = {%s}\n NStrata = 22\n" % ",".join('"%s"' % f for f in fns))], "fns.txt")
    for n, (driver, p, module, cfg) in enumerate([("drv_ops", plan, "TraceOps", ops_cfg(known_ops())), ("drv_fn", fplan, "TraceFn", trace_cfg("Fn")),
                                                  ("drv_in", write_plan(c, stream_items(c)[c.seed % 9::9], "in.txt"), "TraceIn", trace_cfg("In"))]):
        try:
            exe = c.build_cpp("prelude_" + driver, [driver + ".cpp"], flags=["-include", c.path("prelude.hpp")])
        except HarnessBuildError as e:
            # the same without the prelude tells whether that is what breaks it
            c.build_cpp("bare_" + driver, [driver + ".cpp"])
            builds_line(c, n, "declarations of the program's own before the library", e)
            return
        trace = c.record(exe, p, c.path("prelude_%s.ndjson" % driver), *([4] if driver == "drv_in" else []))
        for rej in c.judge(trace, module, cfg):
            c.report(rej, "with declarations of the program's own before it, the library computes something else")
            return


def memcheck_works(c):
    """Does valgrind run here, and see an uninitialised read?"""
    src = c.path("undef.cpp")
    with open(src, "w") as f:
        f.write("#include <cstdlib>\nint main(int argc, char **) { int * p = (int *)std::malloc(4); volatile int z = argc; int v = *p; if (z > 5) v = 1; return v == 12345 ? 4 : 0; }\n")
    try:
        exe = c.build_cpp("undef", [src], opt="-O0")
        rc, _, _ = c.run("valgrind", ["-q", "--error-exitcode=66", exe], timeout=60)
    except (OSError, MachineryError, HarnessBuildError):
        rc = -1
    if rc != 66:
        c.assumptions.append("valgrind does not run here: uninitialised reads are seen only where they change a result")
    return rc == 66


def thin(lines, every, seed):
    """One line in `every`, or whole programs of that proportion."""
    if not any(x.startswith("prog ") for x in lines):
        return [x for n, x in enumerate(lines) if (n + seed) % every == 0]
    out, n = [], -1
    for x in lines:
        n += x.startswith("prog ")
        if (n + seed) % every == 0:
            out.append(x)
    return out


CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
