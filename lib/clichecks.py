"""C28-C30: the command-line tool."""
from core import setc, tla
from clientchecks import certs

LISTS = ["transactions-bank", "transactions-cc", "transactions-inv", "get-accounts"]
DOWN = ["download-bank", "download-cc", "download-inv", "download-profile"]

def play(ctx, label, recs, n):
    name = "".join(c for c in label if c.isalnum())
    p, res, tr = ctx.write_cases(name + ".cases", recs), ctx.path(name + ".res"), ctx.path(name + ".trace")
    ctx.run(["cli", p, res, certs(ctx), tr, ctx.ofxcli()], timeout=800)
    ctx.results(res, recs, n)
    ctx.sample(*recs[:1])
    import os
    if os.path.getsize(tr):
        ctx.trace("TraceCli", tr, label="TraceCli: " + label, heap="8g")

def cases(ctx, label, fam, only=None):
    recs = ctx.tlc("MCCli", inv=["Readable", "Whole", "Safe", "Emitted"], label=label, workers=8, heap="8g", consts=dict(Cases=fam))
    if only:
        recs = [r for r in recs if only(r)]
    runs = ctx.cov["runs"][-1]
    for r in recs:
        runs[r["want"]] = runs.get(r["want"], 0) + 1
    play(ctx, label, recs, len(recs))
    return recs

def c28(ctx):
    s = ctx.seed
    ls = setc(LISTS)
    lo = (s % 50) * 600 + 1
    cases(ctx, "smallest and largest", "PlainLists(%s, %d)" % (ls, s))
    cases(ctx, "every element", "TargetLists(%s, %d, %d)" % (ls, 1, s))
    cases(ctx, "several of everything", "NearLists(%s, %d, %d, 35) \\cup NearLists(%s, %d, %d, 65)" % (ls, lo, lo + ctx.q(2, 40), ls, lo + 50, lo + ctx.q(50, 60)))
    cases(ctx, "random", "RandLists(%s, %d, %d, 35) \\cup RandLists(%s, %d, %d, 12)" % (ls, lo, lo + ctx.q(24, 300), ls, lo + 300, lo + ctx.q(310, 400)))
    cases(ctx, "other messages", "AroundLists(%s, %d)" % (ls, s))
    cases(ctx, "statuses", "CodeLists(%s, %d, %d)" % (ls, s, ctx.q(9, 1)))
    cases(ctx, "no answers", "FailLists(%s, %d)" % (ls, s))

def c29(ctx):
    s = ctx.seed * 500
    cases(ctx, "replies and files", "Saving(%s, {\"prior\", \"new\"})" % setc(DOWN))
    cases(ctx, "every flag", "Asking(%s, Singles, \"prior\", FALSE) \\cup Without(%s, \"prior\", FALSE)" % (setc(DOWN + LISTS), setc(DOWN + LISTS)))
    cases(ctx, "many flags", "Asking(%s, Multis(%d, %d) \\cup Tames(%d, %d), \"prior\", FALSE)" % (setc(DOWN), s, s + ctx.q(30, 400), s, s + ctx.q(70, 600)))

def c30(ctx):
    s = ctx.seed * 500
    cases(ctx, "dry: every flag", "Asking(%s, Singles, \"prior\", TRUE) \\cup Without(%s, \"new\", TRUE)" % (setc(DOWN + LISTS), setc(DOWN + LISTS)))
    cases(ctx, "dry: many flags", "Asking(%s, Multis(%d, %d) \\cup Tames(%d, %d), \"prior\", TRUE)" % (setc(DOWN + LISTS), s, s + ctx.q(15, 200), s, s + ctx.q(40, 400)))
    detect(ctx, "detect: everywhere", "{0} \\cup {k \\in 1..1188 : k < 5 \\/ k > 1184 \\/ (k + %d) %% %d = 0}" % (ctx.seed * 7, ctx.q(37, 5)), [1, 5, 3, 2, 4, 6, 11, 7, 9, 10, 8])
    detect(ctx, "detect: early", "0..%d" % ctx.q(50, 100), [5, 8, 11, 7, 1, 10, 3])

def detect(ctx, label, accepts, kinds):
    fs = [dict(username="a user", password="s3cret", org="ORG & co", fid="12"), dict(username="anonymous", password="x~e~")]
    n = len(ctx.cov["runs"])
    recs = ctx.tlc("MCDetect", inv=["Right", "Exhausted", "AllPairs", "Emitted"], label=label, workers=8, consts=dict(
        Accepts=accepts, Kinds="<<" + ", ".join(map(str, kinds)) + ">>", Flagsets="{" + ", ".join("[" + ", ".join('%s |-> "%s"' % kv for kv in f.items()) + "]" for f in fs[:ctx.q(1, 2)]) + "}"))
    play(ctx, label, recs, len(recs))

CHECKS = {"C28": c28, "C29": c29, "C30": c30}
