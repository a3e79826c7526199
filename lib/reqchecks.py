"""C08-C11: headers, and requests as they are written."""
from core import setc
from validchecks import replay

def heads(ctx, label, vers, depth, onein):
    recs = ctx.tlc("MCHead", inv=["Plain", "Sane", "Needed", "Spaced", "Emitted"], cfg="SPECIFICATION Spec\nVIEW View\n", label=label, workers=8,
                   consts=dict(Depth=str(depth), OneIn=str(onein), Vers=setc(vers)))
    replay(ctx, label, "head", recs)
    return recs

def c11(ctx):
    recs = heads(ctx, "headers of every version", ["102", "103", "151", "160", "200", "201", "202", "203", "210", "211", "220"], 1, 1)
    recs += heads(ctx, "headers with two deviations", ctx.q(["103", "211"], ["102", "103", "151", "160", "200", "203", "210", "220"]), 2, ctx.q(5, 2))
    if ctx.thorough:
        recs += heads(ctx, "headers with three deviations", ["160", "203"], 3, 60)
    p, tr = ctx.write_cases("heads.cases", [r for r in recs if r["devs"].count('"') <= 2]), ctx.path("heads.trace")
    ctx.run(["record-head", p, ctx.seed, ctx.q(6000, 60000), tr])
    ctx.trace("TraceHead", tr, label="TraceHead over randomly damaged headers")
    st = ctx.cov.setdefault("verdicts", {})
    for r in recs:
        k = r["st"] + (" 1.x" if r["sgml"] else " 2.x" if r["st"] == "ok" else "")
        st[k] = st.get(k, 0) + 1

def requests(ctx, label, reqs, mode, count):
    recs = ctx.tlc("MCReq", inv=["Agrees", "Nested", "Usable", "Stable", "Emitted"], cfg="SPECIFICATION Spec\nVIEW View\n", label=label, workers=8, consts=dict(Reqs=reqs))
    name = "".join(c for c in label if c.isalnum())
    p, res, tr = ctx.write_cases(name + ".cases", recs), ctx.path(name + ".res"), ctx.path(name + ".trace")
    ctx.run(["req", p, res, tr, mode, count])
    ctx.results(res, recs)
    ctx.sample(*recs[:1])
    with open(ctx.path("all.trace"), "a", encoding="utf8") as fh:
        fh.write(open(tr, encoding="utf8").read())

ALLV = "{102, 103, 151, 160, 200, 201, 202, 203, 210, 211, 220}"
def families(ctx, mode, count):
    s = ctx.seed * 70
    requests(ctx, "every element", "TargetReqs(%d)" % s, mode, count)
    requests(ctx, "every element and all after it", "RestReqs(%d)" % (s + 7), mode, count)
    requests(ctx, "requests at random", "RandReqs(%d, %d, 50, 4, %s)" % (s, s + ctx.q(80, 400), ctx.q("{102, 203, 220}", ALLV)), mode, count)
    requests(ctx, "several of everything", "NearReqs(%d, %d, 40, {220})" % (s + 900, s + ctx.q(900, 912)), mode, count)
    requests(ctx, "sparse and full requests", 'FullReqs(%d, {"min", "all"}) \\cup RandReqs(%d, %d, 15, 6, {220})' % (s, s + 500, s + 500 + ctx.q(60, 300)), mode, count)

def c08(ctx):
    families(ctx, "doc", ctx.q(3, 12))
    ctx.trace("TraceWire", ctx.path("all.trace"), label="TraceWire over marshalled requests")

def c09(ctx):
    families(ctx, "variants", ctx.q(7, 44))
    ctx.trace("TraceWire", ctx.path("all.trace"), label="TraceWire over variants of requests")

def histories(ctx, label, bases, objects, length, last, share, spec="Spec", simulate=None):
    fs = [(102, True, False), (103, False, True), (160, False, False), (200, True, True), (203, False, False), (220, True, False)]
    recs = ctx.tlc("MCHist", inv=["BasesValid", "Functional", "Emitted"], cfg="SPECIFICATION %s\nVIEW View\n" % spec, label=label, workers=8,
                   simulate=simulate, depth=length + 1, consts=dict(
        Bases="<<" + ", ".join('[side |-> "%s", seed |-> %d, plan |-> %s, dens |-> %d]' % b for b in bases) + ">>",
        Formats="{" + ", ".join("[ver |-> %d, indent |-> %s, cr |-> %s]" % (v, str(i).upper(), str(c).upper()) for v, i, c in fs) + "}",
        Objects="<<" + ", ".join(map(str, objects)) + ">>", Length=str(length), Last="TRUE" if last else "FALSE", Share=str(share)))
    name = "".join(c for c in label if c.isalnum())
    p, res, tr = ctx.write_cases(name + ".cases", recs), ctx.path(name + ".res"), ctx.path(name + ".trace")
    ctx.run(["hist", p, res, tr])
    ctx.results(res, recs, sum(r["op"] == "hist" for r in recs))
    ctx.sample(*[r for r in recs if r["op"] == "hist"][:1])
    ctx.trace("TraceHist", tr, label="TraceHist: " + label, heap="8g")

def c10(ctx):
    s = ctx.seed * 70
    full = "<<<<1, <<1>>>>, <<2, <<1, 1>>>>, <<3, <<1>>>>, <<5, <<1>>>>, <<10, <<1>>>>, <<13, <<1, 1>>>>>>"
    rs = "<<<<2, <<1>>>>, <<3, <<1>>>>, <<10, <<1>>>>, <<13, <<1>>>>>>"
    bases = [("rq", s, full, 60), ("rq", s + 1, "<<<<13, <<1>>>>, <<2, <<1>>>>>>", 20), ("rs", s + 2, rs, 30), ("rq", s + 3, "<<>>", 0), ("rs", s + 4, "<<<<2, <<1>>>>>>", 40)]
    histories(ctx, "short histories of two", bases, [1, 3], ctx.q(3, 4), True, ctx.q(1, 6))
    histories(ctx, "short histories of one", bases, [2], ctx.q(4, 5), True, ctx.q(1, 6))
    histories(ctx, "long histories", bases, [1, 2, 3, 4, 5, 1], 60, False, 1, "SpecOften", simulate=ctx.q(100, 1500))

CHECKS = {"C10": c10, "C08": c08, "C09": c09, "C11": c11}
