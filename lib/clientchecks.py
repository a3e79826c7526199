"""C01-C06: clients against servers of our own."""
import json, os
from core import setc
from validchecks import replay

CINV = ["OnlyVerified", "Refused", "OnePost", "Invalid", "Success", "Tries", "Retry", "NoHops", "Bounded", "Emitted"]
HTTPS = ["tls", "query", "escaped", "nopath", "untrusted", "wronghost", "expired", "dead", "garbled", "tonowhere", "plainport"]
OTHER = ["plain", "upper", "empty", "bare", "ftp", "space", "httpslash", "noslashes"]
ALL = ["basic", "own", "stay", "veto", "allow", "discover", "vanguard"]

def certs(ctx):
    d = ctx.path("certs")
    if not os.path.exists(d):
        ctx.run(["certs", d])
    return d

def netenv(ctx):
    return {"SSL_CERT_FILE": os.path.join(certs(ctx), "ca.pem"), "NO_PROXY": "*", "HTTPS_PROXY": "", "https_proxy": "", "HTTP_PROXY": "", "http_proxy": ""}

def behaviours(ctx, label, kinds, calls, urls, kind0, max0, onein=1, times=1, want=None, simulate=None, depth=None):
    recs = ctx.tlc("MCClient", inv=CINV, label=label, workers=8, simulate=simulate, depth=depth,
                   consts=dict(Kinds=setc(kinds), CallNames=setc(calls), Urls=setc(urls), Kind0='"%s"' % kind0, Max0=str(max0), OneIn=str(onein)))
    name = "".join(c for c in label if c.isalnum())
    p, res = ctx.write_cases(name + ".cases", recs), ctx.path(name + ".res")
    ctx.run(["client", p, res, certs(ctx), times], env=netenv(ctx), timeout=800)
    n = 0
    for r in ctx.read(res):
        if want is None or r["sig"].split(":")[0] in want or r["sig"].split(":")[0] in ("panic", "hang"):
            ctx.violation(r["sig"], r["why"], recs[r["id"] - 1])
        else:
            n += 1
    if n:
        ctx.cov.setdefault("differences_left_to_other_checks", {})[label] = n
    ctx.cov["traces_validated_against_impl"] += len(recs) * times
    ctx.sample(*recs[:1])
    return recs

CALLS = ["request", "noparse", "raw"]

def c01(ctx):
    behaviours(ctx, "every address", ALL, CALLS, HTTPS + OTHER, "few", 1, want=["plain"])
    behaviours(ctx, "every first answer", ["basic", "own", "allow", "discover", "vanguard"], CALLS, ["tls"], "first", ctx.q(2, 3), ctx.q(4, 6), want=["plain"])
    behaviours(ctx, "chains", ["basic", "own", "allow", "vanguard"], CALLS, ["tls"], "few", ctx.q(4, 5), ctx.q(40, 100), want=["plain"])

def c03(ctx):
    ks = ["basic", "own", "stay", "veto", "allow", "discover"]
    behaviours(ctx, "every address", ks, CALLS, HTTPS + OTHER, "few", 1, want=["plain", "posts", "outcome"])
    behaviours(ctx, "every first answer", ks, CALLS, ["tls", "query"], "first", ctx.q(2, 3), ctx.q(4, 4), want=["posts", "outcome"])
    behaviours(ctx, "chains of redirections", ks, CALLS, ["tls"], "chain", 12, want=["posts", "outcome"])
    # the outcome is decided alike for the client that may post twice; its posts are C04's
    behaviours(ctx, "outcomes of the Vanguard client", ["vanguard"], CALLS, ["tls", "plain", "dead"], "first", ctx.q(1, 2), ctx.q(1, 4), want=["outcome"])

def c04(ctx):
    behaviours(ctx, "every first answer", ["vanguard"], CALLS, ["tls", "query"], "first", ctx.q(2, 3), ctx.q(2, 2), want=["posts", "outcome"])
    behaviours(ctx, "sequences of answers", ["vanguard"], CALLS, ["tls"], "few", ctx.q(4, 5), ctx.q(10, 20), want=["posts", "outcome"])
    behaviours(ctx, "chains of redirections", ["vanguard"], CALLS, ["tls"], "chain", 12, want=["posts", "outcome"])

def c05(ctx):
    t = ctx.q(5, 8)
    behaviours(ctx, "every first answer", ALL, CALLS, ["tls"], "first", ctx.q(2, 3), ctx.q(8, 8), times=t, want=["leak"])
    behaviours(ctx, "sequences of answers", ["own", "allow", "vanguard"], CALLS, ["tls"], "few", ctx.q(3, 4), ctx.q(8, 10), times=t, want=["leak"])
    behaviours(ctx, "every address", ALL, CALLS, HTTPS + OTHER, "few", 1, ctx.q(2, 1), times=t, want=["leak"])

CHECKS = {"C01": c01, "C03": c03, "C04": c04, "C05": c05}

def selections(ctx, label, wide, length, onein, simulate=None):
    recs = ctx.tlc("MCSelect", inv=["Exact", "Total", "Emitted"], label=label, workers=8, simulate=simulate, depth=length + 1,
                   consts=dict(Wide="TRUE" if wide else "FALSE", Length=str(length), OneIn=str(onein)))
    replay(ctx, label, "select", recs)

def c06(ctx):
    selections(ctx, "one client", True, 1, 1)
    selections(ctx, "two clients", False, 2, 1)
    selections(ctx, "three clients", False, 3, ctx.q(3, 1))
    selections(ctx, "many clients", True, 12, ctx.q(400, 100), simulate=ctx.q(12, 100))

CHECKS["C06"] = c06

def cfg(kind, ver=0, id="", appver="", noindent=False, cr=False):
    return dict(kind=kind, ver=ver, id=id, appver=appver, noindent=noindent, cr=cr)

def sends(ctx, label, bases, lineups, length, share, spec="Spec", simulate=None):
    from core import tla
    recs = ctx.tlc("MCSend", inv=["Settled", "Fine", "Emitted"], cfg="SPECIFICATION %s\nVIEW View\n" % spec, label=label, workers=8, simulate=simulate, depth=length + 1, consts=dict(
        Bases="<<" + ", ".join('[seed |-> %d, plan |-> %s, dens |-> %d]' % b for b in bases) + ">>", Lineups="{" + ", ".join(tla(x) for x in lineups) + "}", Length=str(length), Share=str(share)))
    name = "".join(c for c in label if c.isalnum())
    p, res, tr = ctx.write_cases(name + ".cases", recs), ctx.path(name + ".res"), ctx.path(name + ".trace")
    ctx.run(["send", p, res, certs(ctx), tr], env=netenv(ctx), timeout=800)
    ctx.results(res, recs, sum(r["op"] == "sends" for r in recs))
    ctx.sample(*[r for r in recs if r["op"] == "sends"][:1])
    ctx.trace("TraceSend", tr, label="TraceSend: " + label, heap="8g")

def c02(ctx):
    s = ctx.seed * 70
    bases = [(s, "<<>>", 0), (s + 1, "<<<<1, <<1>>>>, <<2, <<1, 1>>>>, <<3, <<1>>>>>>", 40), (s + 2, "<<<<13, <<1>>>>>>", 30)]
    ks = ["basic", "own", "discover", "vanguard"]
    vers = [0, 999, 102, 103, 151, 160, 200, 201, 202, 203, 210, 211, 220]
    ids, avs = ["", "QWIN", "OFXGO", "A&<>\"", "Q", "SIXSIX", "qX", "q x", "+1.0", "0"], ["", "2400", "0001", "1", "12345", "1 1", "007", "v1"]
    every = [[cfg(ks[(i + j + k) % 4], v, ids[(i + k) % 10], avs[(i + k // 2) % 8], (i + k) % 2 == 0, (i // 2 + k) % 2 == 0)] for i, v in enumerate(vers) for j in range(1) for k in range(ctx.q(12, 60))]
    sends(ctx, "every configuration", bases[1:2], every, 1, 1)
    lineups = [[cfg("basic"), cfg("basic", 102, "QWIN", "2400", True, True)],
               [cfg("discover", 220, "", "1", False, True), cfg("vanguard", 151, "Money", "", True, False)],
               [cfg("own", 999, "SIXSIX", "", False, False), cfg("vanguard", 0, "", "", False, True)]]
    sends(ctx, "short histories", bases, lineups, 3, ctx.q(4, 1))
    if ctx.thorough:
        sends(ctx, "longer histories", bases[:2], lineups, 4, 25)
    mixed = [[cfg(ks[(i + j) % 4], vers[(3 * i + 5 * j) % 13], ids[(i + 2 * j) % 10], avs[(i + j) % 8], (i + j) % 2 == 0, (i // 2 + j) % 2 == 0) for j in range(4)] for i in range(13)]
    sends(ctx, "long histories", bases, mixed, 40, ctx.q(25, 25), "SpecOften", simulate=ctx.q(40, 400))

CHECKS["C02"] = c02
