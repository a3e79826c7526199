"""C07, C18-C21: validity of requests and responses."""
from docchecks import st, styles, rand, span, docs, gen

VINV = ["BaseValid", "Monotone", "GateMeansNoBad", "Emitted"]

def objects(ctx, label, bases, pair=50, depth=1, wide=False, heap="6g"):
    recs = ctx.tlc("MCValid", inv=VINV, cfg="SPECIFICATION Spec\nVIEW View\n", label=label, workers=8, heap=heap,
                   consts=dict(Bases=bases, PairOneIn=str(pair), Depth=str(depth), Wide="TRUE" if wide else "FALSE"))
    name = "".join(c for c in label if c.isalnum())
    p = ctx.write_cases(name + ".cases", recs)
    ctx.run(["valid", p, ctx.path(name + ".res")])
    ctx.results(ctx.path(name + ".res"), recs, len(recs))
    ctx.sample(*[r for r in recs if r["op"] == "valid" and r["edits"]][:1])
    return recs

def base(side, n, plan, dens):
    return 'Base("%s", %d, %s, %d)' % (side, n, plan, dens)

def bases(*bs):
    return "{" + ", ".join(bs) + "}"

BANK, CC, INV = 2, 3, 5
def plan(*xs):
    return "<<" + ", ".join("<<%d, <<%s>>>>" % (i, ", ".join(str(k) for k in ks)) for i, ks in xs) + ">>"
ALLRS = "Every(RsSets)"
ALLRQ = "Every(RqSets)"

def rich(n, side, seed, plan, dens, *paths):
    return 'Rich(%d, "%s", %d, %s, %d, {%s})' % (n, side, seed, plan, dens, ", ".join('"%s"' % p for p in paths))

TL, PL, BL = "Bank[0].BankTranList.Transactions#", "Bank[0].BankTranListP.Transactions#", "Bank[0].BalList#"
def c19(ctx):
    s = ctx.seed * 70
    objects(ctx, "bank statements, two changes", " \\cup ".join([rich(ctx.q(1, 3), "rs", s, plan((BANK, [1])), 50, TL, PL), rich(ctx.q(1, 3), "rs", s + 500, plan((BANK, [1])), 25, TL)]), ctx.q(12, 3), 2)
    objects(ctx, "statements", " \\cup ".join([rich(ctx.q(2, 8), "rs", s + 1000, plan((BANK, [1, 1]), (CC, [1])), 45, TL),
                                              rich(ctx.q(1, 4), "rs", s + 1500, plan((BANK, [1, 1])), 75, TL, BL)]), wide=True)
    if ctx.thorough:
        objects(ctx, "bank statements, three changes", rich(1, "rs", s + 2000, plan((BANK, [1])), 25, TL), 150, 3, heap="16g")

def c20(ctx):
    s = ctx.seed * 70
    bank = plan((BANK, [1]))
    objects(ctx, "bank requests, two changes", " \\cup ".join([rich(ctx.q(1, 3), "rq", s, bank, 50), rich(1, "rq", s + 300, bank, 10, "Signon.UserKey")]), ctx.q(3, 1), 2)
    objects(ctx, "requests of every kind", bases(*[base("rq", s + 500 + k, ALLRQ, d) for k, d in enumerate(ctx.q((50, 15), (50, 15, 30, 70, 90)))]), wide=True)
    if ctx.thorough:
        objects(ctx, "requests of every kind, two changes", bases(base("rq", s + 600, ALLRQ, 40)), 10, 2)
        objects(ctx, "bank requests, three changes", rich(1, "rq", s + 400, bank, 40), 20, 3, heap="16g")

def replay(ctx, label, cmd, recs):
    name = "".join(c for c in label if c.isalnum())
    p = ctx.write_cases(name + ".cases", recs)
    ctx.run([cmd, p, ctx.path(name + ".res")])
    ctx.results(ctx.path(name + ".res"), recs, len(recs))
    ctx.sample(*recs[:1])

def c07(ctx):
    recs = ctx.tlc("MCGate", inv=["Strangers", "Sound", "Emitted"], cfg="SPECIFICATION Spec\nVIEW View\n", label="messages in every slot", workers=8,
                   consts=dict(Len2OneIn=str(ctx.q(150, 10)), Depth="2", Rows=ctx.q("{3, 9}", "{3, 4, 5, 8, 9, 17, 33, 65}")))
    replay(ctx, "slots", "valid", recs)
    s = ctx.seed * 70
    objects(ctx, "objects of every kind", bases(base("rq", s, ALLRQ, 40), base("rs", s + 1, ALLRS, ctx.q(12, 40))))
    objects(ctx, "bank objects, two changes", " \\cup ".join([rich(1, "rq", s + 100, plan((BANK, [1])), 30), rich(1, "rs", s + 200, plan((BANK, [1])), 20, TL)]), ctx.q(30, 3), 2)
    if ctx.thorough:
        recs = ctx.tlc("MCGate", inv=["Strangers", "Sound", "Emitted"], cfg="SPECIFICATION Spec\nVIEW View\n", label="three messages", workers=8,
                       consts=dict(Len2OneIn="400", Depth="3", Rows="{}"))
        replay(ctx, "three messages", "valid", recs)

def c21(ctx):
    recs = ctx.tlc("MCStatus", inv=["OneSeverity", "Emitted"], label="status codes", consts=dict(Lo="0", Hi=str(ctx.q(17000, 100000))))
    replay(ctx, "status", "status", recs)
    s = ctx.seed * 70
    objects(ctx, "statuses of responses", bases(base("rs", s, ALLRS, 5)))

def c18(ctx):
    for k, (n, dens, nsets, valid, vers) in enumerate(ctx.q([(200, 35, 3, "TRUE", "{220}"), (100, 20, 2, "FALSE", "{102, 160, 203, 220}"), (80, 40, 6, "TRUE", "{102}")],
                                     [(900, 35, 3, "TRUE", "{220}"), (200, 20, 2, "FALSE", "{102, 103, 151, 160, 200, 203, 210, 220}"), (200, 40, 6, "TRUE", "{102, 211}"), (60, 60, 10, "TRUE", "{220}"), (100, 10, 5, "FALSE", "{203}")])):
        lo = ctx.seed * 300 + 1000 * k
        recs = ctx.tlc("MCParse", inv=["InRange", "Laxer", "EmittedBad"], cfg="SPECIFICATION Spec\nVIEW View\n", label="flawed documents %d" % (k + 1), workers=8, heap="6g",
                       consts=dict(Docs="Rules(%d..%d, %d, %d, %s, %s)" % (lo, lo + n, dens, nsets, valid, vers), Faults="{}", FaultOneIn="1"))
        replay(ctx, "flawed%d" % k, "parse", recs)
        ctx.cov.setdefault("invalid_parts", {})
        for r in recs:
            ctx.cov["invalid_parts"][str(r["bad"])] = ctx.cov["invalid_parts"].get(str(r["bad"]), 0) + 1

CHECKS = {"C18": c18, "C07": c07, "C19": c19, "C20": c20, "C21": c21}
