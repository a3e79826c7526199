"""C27: callers side by side."""
from core import tla
from clientchecks import certs, netenv

PLANRS = "<<<<2, <<1, 1>>>>, <<3, <<1>>>>, <<5, <<1>>>>, <<10, <<1, 2>>>>, <<13, <<1>>>>>>"
PLANRQ = "<<<<1, <<1>>>>, <<2, <<1, 1>>>>, <<3, <<1>>>>, <<5, <<1>>>>, <<13, <<1>>>>>>"

class Raw(str):
    pass

def op(k, side="", seed=1, dens=0, ver=203, omit="none", ws=0, damage=""):
    plan = PLANRQ if side == "rq" else PLANRS
    return '[k |-> "%s", side |-> "%s", seed |-> %d, plan |-> %s, dens |-> %d, ver |-> %d, omit |-> "%s", ws |-> %d, damage |-> "%s"]' % (k, side, seed, plan, dens, ver, omit, ws, damage)

def ops(seed, dens):
    s = seed * 40
    return [op("parse", "rs", s, dens, 102, "all", 1), op("parse", "rs", s + 1, dens, 203, "none", 2), op("parse", "rs", s + 2, dens, 151, "mix", 3),
            op("parse", "rs", s + 3, dens, 103, "all", 0, "cut"), op("parse", "rs", s + 4, dens, 211, "none", 1, "stray"),
            op("marshal", "rq", s + 5, dens, 102, ws=3), op("marshal", "rq", s + 6, dens, 203, ws=1), op("marshal", "rs", s + 7, dens, 103), op("marshal", "rs", s + 8, dens, 220),
            op("marshal", "rq", s + 9, dens, 160, damage="uid"), op("valid", "rs", s + 10, dens, 203, damage="uid"), op("valid", "rq", s + 11, dens, 102),
            op("send", "rq", s + 12, dens, 102, "basic", 2), op("send", "rq", s + 13, dens, 203, "vanguard", 1), op("send", "rq", s + 14, dens, 151, "discover", 0),
            op("select"), op("leafs"), op("status"), op("uid")]

def conc(ctx, label, mode, theops, threads, steps, share, reps=8, width=4, simulate=None):
    recs = ctx.tlc("MCConc", cfg="SPECIFICATION Spec\nVIEW View\n", inv=["NoRace", "Alone", "Emitted"], label=label, workers=8, simulate=simulate, depth=threads * steps + 1,
                   consts=dict(Ops="<<" + ", ".join(theops) + ">>", Threads=str(threads), Steps=str(steps), Mode='"%s"' % mode, Share=str(share)))
    # An operation tells itself alike every time.
    seen, out = set(), []
    for r in recs:
        if r["op"] == "op":
            if r["i"] in seen:
                continue
            seen.add(r["i"])
        out.append(r)
    name = "".join(c for c in label if c.isalnum())
    p, tr = ctx.write_cases(name + ".cases", out), ctx.path(name + ".trace")
    ctx.run(["conc", p, certs(ctx), tr, reps, width], race=(mode == "progs"), env=netenv(ctx), timeout=800)
    ctx.cov["traces_validated_against_impl"] += sum(r["op"] in ("prog", "sched") for r in out)
    ctx.sample(*[r for r in out if r["op"] == mode[:-1] or r["op"] == mode][:2])
    ctx.trace("TraceConc", tr, label="TraceConc: " + label, heap="8g")
    return out

def c27(ctx):
    o = ops(ctx.seed, ctx.q(25, 40))
    conc(ctx, "pairs at once", "progs", o, 2, 1, 1, reps=ctx.q(6, 30), width=4)
    conc(ctx, "pairs step by step", "sched", o, 2, 4, ctx.q(5, 1))
    if ctx.thorough:
        conc(ctx, "threes at once", "progs", o, 3, 1, 4, reps=10, width=3)
        conc(ctx, "threes step by step", "sched", o[:12:2] + o[12:14], 3, 3, 20)

CHECKS = {"C27": c27}
