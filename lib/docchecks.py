"""C12-C17: response documents, read and written."""
import json

INV = ["Faithful", "NoEarlyEnd", "CutRejected", "Foreign", "StrayFatal", "SignonFirst", "StackOk", "NestingOk", "Emitted"]
X = "Xml(%d)"
VERS = [102, 103, 151, 160, 200, 201, 202, 203, 210, 211, 220]

def st(v, omit="none", ws=1):
    return '[v |-> %d, omit |-> "%s", ws |-> %d]' % (v, omit, ws)

def styles(*xs):
    return "{" + ", ".join(xs) + "}"

def gen(ctx, label, docs, faults=(), onein=1, workers=8, heap="6g"):
    recs = ctx.tlc("MCDoc", inv=INV, cfg="SPECIFICATION Spec\nVIEW View\n", label=label, workers=workers, heap=heap, consts=dict(
        Docs=docs, Faults="{" + ", ".join('"%s"' % f for f in faults) + "}", FaultOneIn=str(onein)))
    return recs

def replay(ctx, label, recs, trunc=0):
    name = "".join(c for c in label if c.isalnum())
    p = ctx.write_cases(name + ".cases", recs)
    res = ctx.path(name + ".res")
    ctx.run(["doc", p, res, trunc])
    ctx.results(res, recs, len(recs))
    ctx.sample(*recs[:1])
    return p

def docs(ctx, label, fam, faults=(), onein=1, trunc=0, heap="6g"):
    return replay(ctx, label, gen(ctx, label, fam, faults, onein, heap=heap), trunc)

def rounds(ctx, label, fam):
    recs = gen(ctx, label, fam)
    name = "".join(c for c in label if c.isalnum())
    p = ctx.write_cases(name + ".cases", recs)
    rc, out, err = ctx.run(["round", p, ctx.path(name + ".res")])
    ctx.results(ctx.path(name + ".res"), recs, len(recs))
    try:
        ctx.cov["runs"][-1].update(json.loads(out))
    except ValueError:
        pass
    ctx.sample(*recs[:1])

def span(ctx, n, base=0):
    lo = base + (ctx.seed % 50) * 400 + 1
    return lo, lo + n - 1

def rand(ctx, n, dens, sets, sty, valid=False, base=0):
    lo, hi = span(ctx, n, base)
    return "RandDocs(%d, %d, %d, %d, %s, %s)" % (lo, hi, dens, sets, sty, "TRUE" if valid else "FALSE")

def targets(ctx, sty, pred=None, fam="TargetDocs"):
    t = "%s(%s, %d)" % (fam, sty, ctx.seed * 17)
    return "{t \\in %s : %s}" % (t, pred) if pred else t

def near(ctx, n, dens, sty, valid=False, base=0, aggs="RsAggs"):
    lo, hi = span(ctx, n, base)
    return "NearDocs(%s, %d, %d, %d, %s, %s)" % (aggs, lo, hi, dens, sty, "TRUE" if valid else "FALSE")

def long(ctx, n, dens, sty, valid=False, base=0):
    lo, hi = span(ctx, n, base)
    return "LongDocs(%d, %d, %d, 3, %s, %s)" % (lo, hi, dens, sty, "TRUE" if valid else "FALSE")

FOREIGN = ["unkagg", "unkleaf", "unkempty", "unknest"]

def c12(ctx):
    sx, ss = st(203), st(102, "all")
    docs(ctx, "pairs of sets", "PairDocs(%d, %s)" % (ctx.q(2, 3), ctx.q(styles(sx), styles(sx, ss))))
    docs(ctx, "every message in every place", "SetDocs(1, %s)" % styles(sx, ss),
         ["anymsg", "nosign", "latesign", "twosign", "sonsign", "stmtsign", "emptysign", "badset", "rqset", "rqmsg", "stmt", "emptyset"])
    docs(ctx, "random sets", rand(ctx, ctx.q(60, 400), 12, 7, ctx.q(styles(sx), styles(sx, ss))), trunc=0)
    docs(ctx, "random sets damaged", rand(ctx, ctx.q(12, 60), 10, 6, styles(sx), base=300),
         ["anymsg", "badset", "rqset", "rqmsg", "stmt", "emptyset", "dup", "rename"], ctx.q(9, 4))
    docs(ctx, "many messages in every set", "SetDocs(%d, %s)" % (ctx.q(150, 600), styles(sx)))
    docs(ctx, "all sets at once", 'FullDocs(%d, "min", %s)' % (ctx.seed, styles(sx, ss)))
    if ctx.thorough:
        docs(ctx, "all sets full", 'FullDocs(%d, "all", %s)' % (ctx.seed, styles(sx)))

def c13(ctx):
    docs(ctx, "every element", targets(ctx, styles(st(203, ws=0))))
    if ctx.thorough:
        for k in range(1, 6):
            docs(ctx, "every element again %d" % k, "TargetDocs(%s, %d)" % (styles(st(220, ws=k % 4)), 1000 * k + ctx.seed))
    if ctx.thorough:
        docs(ctx, "everything", 'FullSets(%d, "all", 2, %s)' % (ctx.seed, styles(st(203))))
    docs(ctx, "investment account types", targets(ctx, styles(st(203)), 't.m.ta = "InvAcctInfo"'), ["corporate"])
    docs(ctx, "random content", rand(ctx, ctx.q(50, 300), 45, 3, styles(st(203), st(102, "mix", 3))))
    docs(ctx, "several of everything", near(ctx, ctx.q(1, 8), 30, styles(st(203))))
    docs(ctx, "several of everything, dense", near(ctx, ctx.q(1, 6), 65, styles(st(102, "mix", 2)), base=50))
    docs(ctx, "long lists", "CrowdDocs(%d, %s, %d)" % (ctx.q(130, 400), styles(st(203)), ctx.seed))
    docs(ctx, "long texts", long(ctx, ctx.q(12, 100), 35, styles(st(203), st(102, "mix"))))
    docs(ctx, "unsupported elements", rand(ctx, ctx.q(10, 60), 35, 3, styles(st(203), st(103, "mix", 1)), base=200),
         FOREIGN + ["blank", "swap", "renameboth"], ctx.q(4, 1))

def c14(ctx):
    sg = styles(st(102, "all", 0), st(160, "mix", 3), *([] if not ctx.thorough else [st(151, "none", 2), st(103, "all", 3), st(102, "mix", 1)]))
    docs(ctx, "every element in 1.x", targets(ctx, sg))
    docs(ctx, "every leaf left open before its neighbours", targets(ctx, styles(st(102, "all", 0), *([] if not ctx.thorough else [st(160, "mix", 1)])), fam="RestDocs"))
    everyst = styles(*[st(v, o, w) for v, o in ((102, "all"), (103, "mix"), (151, "none"), (160, "all"), (203, "none"), (220, "none")) for w in (0, 3)])
    docs(ctx, "one content many spellings", rand(ctx, ctx.q(10, 80), 40, 3, everyst))
    docs(ctx, "several of everything", near(ctx, ctx.q(1, 5), 40, styles(st(103, "all", 0), st(151, "mix", 3)), base=90))
    if ctx.thorough:
        docs(ctx, "everything in 1.x", 'FullSets(%d, "all", 2, %s)' % (ctx.seed, styles(st(102, "all", 3), st(160, "mix", 0), st(103, "none", 2))))
    docs(ctx, "long lists in 1.x", "CrowdDocs(%d, %s, %d)" % (ctx.q(70, 300), styles(st(103, "all", 0)), ctx.seed + 50))
    docs(ctx, "long texts left open", long(ctx, ctx.q(12, 100), 35, styles(st(102, "all", 0), st(160, "mix", 3)), base=30))
    docs(ctx, "reordered and blank leaves in 1.x", rand(ctx, ctx.q(8, 50), 40, 2, styles(st(102, "all", 1), st(102, "mix", 0)), base=250),
         ["swap", "blank", "badval", "unkagg", "renameboth"], ctx.q(3, 1))

def c15(ctx):
    rounds(ctx, "every element", targets(ctx, styles(st(220)), fam="ValidTargets"))
    rounds(ctx, "every version", rand(ctx, ctx.q(30, 250), 30, 3, styles(*[st(v, "all" if v < 200 else "none") for v in VERS]), True))
    rounds(ctx, "dense", rand(ctx, ctx.q(20, 200), 70, 2, styles(st(220), st(160, "mix", 3)), True, base=200))
    rounds(ctx, "several of everything", near(ctx, ctx.q(1, 8), 35, styles(st(220)), True, 20))
    rounds(ctx, "several of everything in 1.x", near(ctx, ctx.q(1, 4), 60, styles(st(160, "all", 1)), True, 60))
    rounds(ctx, "long texts", long(ctx, ctx.q(16, 100), 35, styles(st(220), st(102, "all")), True))
    if ctx.thorough:
        for k in range(1, 5):
            rounds(ctx, "every element again %d" % k, "ValidTargets(%s, %d)" % (styles(st(220), st(102, "all")), 1000 * k + ctx.seed))

def c16(ctx):
    mixed = '(t.m.ta \\in {a \\in DOMAIN Schema : MixName[a] # ""} \\/ \\E a \\in {a \\in DOMAIN Schema : MixName[a] # ""} : \\E j \\in 1..Len(Mix[MixName[a]]) : Mix[MixName[a]][j].a = t.m.ta)'
    docs(ctx, "every alternative", targets(ctx, styles(st(203), st(102, "all")), mixed))
    docs(ctx, "several alternatives", near(ctx, ctx.q(3, 20), 30, styles(st(203), st(102, "all", 1)), base=120, aggs='{a \\in RsAggs : MixName[a] # ""}'))
    rounds(ctx, "every alternative written", targets(ctx, styles(st(220)), mixed, fam="ValidTargets"))
    docs(ctx, "every entry in every list", "{t \\in RandDocs(%d, %d, 30, 4, %s, FALSE) : \\E i \\in 1..Len(t.plan) : RsSets[t.plan[i][1]].slot \\in {\"InvStmt\", \"SecList\"}}"
         % (*span(ctx, ctx.q(12, 60), 700), styles(st(203))), ["anymix"], ctx.q(11, 3))
    docs(ctx, "strangers in lists", "{t \\in RandDocs(%d, %d, 40, 4, %s, FALSE) : \\E i \\in 1..Len(t.plan) : RsSets[t.plan[i][1]].slot \\in {\"InvStmt\", \"SecList\", \"Prof\"}}"
         % (*span(ctx, ctx.q(40, 300)), styles(st(203), st(102, "mix"))), ["badsec", "unkagg", "unkempty", "unkleaf", "stmt", "rename"], ctx.q(9, 4))
    if ctx.thorough:
        docs(ctx, "every alternative many times", 'UNION {FullSets(n, "all", 2, %s) : n \\in {%d, %d, %d}}' % (styles(st(203)), ctx.seed, ctx.seed + 100, ctx.seed + 200))

DAMAGE = ["drop", "cut", "dup", "rename", "renameboth", "badval", "blank", "swap", "swapend", "listed"] + FOREIGN
def c17(ctx):
    docs(ctx, "damaged documents", rand(ctx, ctx.q(20, 120), 35, 3, styles(st(203), st(102, "mix"))), DAMAGE, ctx.q(7, 2))
    docs(ctx, "values of every element damaged", targets(ctx, styles(st(203, ws=0)), "t.m.ti %% %d = %d" % (ctx.q(5, 1), ctx.seed % ctx.q(5, 1))), ["badval", "swapend"], ctx.q(5, 1), heap="12g")
    docs(ctx, "cut after every byte", "{t \\in %s : (t.seed %% %d) = %d}" % (targets(ctx, styles(st(203, ws=0), st(160, "all", 1))), ctx.q(16, 3), ctx.seed % ctx.q(16, 3)), trunc=1)
    p = docs(ctx, "material", rand(ctx, ctx.q(25, 100), 40, 3, styles(st(203), st(102, "mix"), st(160, "all", 3)), base=100))
    tr = ctx.path("doc.trace")
    ctx.run(["record-doc", p, ctx.seed, ctx.q(6000, 60000), tr])
    ctx.trace("TraceDoc", tr, label="TraceDoc over randomly damaged documents", heap="12g")

CHECKS = {"C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17}
