from core import setc

def leaf_replay(ctx, recs, name):
    """Replay generated leaf behaviours into the real codecs; what they write is validated later."""
    cases = ctx.write_cases(name + ".cases", recs)
    res, tr = ctx.path(name + ".res"), ctx.path(name + ".trace")
    ctx.run(["leaf", cases, res, tr])
    ctx.results(res, recs, len(recs))
    with open(ctx.path("all.trace"), "a", encoding="utf8") as fh:
        fh.write(open(tr, encoding="utf8").read())
    ctx.sample(*recs[:2])

def finish_trace(ctx):
    ctx.trace("TraceLeaf", ctx.path("all.trace"), label="TraceLeaf over written values")

def record(ctx, kinds, n):
    tr = ctx.path("rec.trace")
    rc, out, err = ctx.run(["record-leaf", ",".join(kinds), ctx.seed, n, tr])
    for l in out.splitlines():
        if l.startswith("PANIC"):
            ctx.violation("panic", l)
    ctx.trace("TraceLeaf", tr, label="TraceLeaf over random " + "/".join(kinds))

PRECS = [8, 10, 12, 14, 18]
STYLES = ["none", "plain", "plus", "pad", "frac"]

def dates(ctx, label, years, days, times, offs, names, layers, precs=PRECS, styles=STYLES):
    recs = ctx.tlc("MCDate", inv=["Faithful", "OffsetExact", "Emitted"], label="dates: " + label, consts=dict(
        Years=setc(years), Days=days, Times=times, Offsets=offs if isinstance(offs, str) else setc(offs),
        Names=setc(names), Layers=setc(layers), Precs=setc(precs), Styles=setc(styles)))
    leaf_replay(ctx, recs, label.replace(" ", ""))

def c22(ctx):
    dates(ctx, "calendar edges", ctx.q([2000, 2023], [1, 1900, 1970, 2000, 2023, 2100, 9999]), "DaysEdge", "TimesEdge",
          [0, -330, 345], ["", "EST"], ["read"])
    dates(ctx, "every offset", [2016], "DaysOne", "TimesOne", "-720..840", ["", "NZST"], ["read", "write"], [14], ["plain"])
    dates(ctx, "names", ctx.q([1969, 2000], [1, 1969, 2000, 9999]), "DaysFew", "TimesFew", [0, -30, -60, -210, 330, 840, -720, 1, -1],
          ["", "GMT", "UTC", "Z", "EST", "EASTERN", "CEST", "AEDT", "-03", "+0530", "Local Time", "PST8PDT", "x"], ["write"])
    dates(ctx, "near misses", [2016], "DaysOne", "TimesOne", ctx.q([-330], [-330, 0, 60, 345]), ctx.q(["EST"], ["", "EST"]), ["read", "mutate"])
    dates(ctx, "every day", ctx.q([2000, 2001], [1900, 1904, 1999, 2000, 2001, 2100, 2400]), "DaysAll", "TimesOne",
          [0], [""], ["read", "write"], [8], ["none"])
    record(ctx, ["date"], ctx.q(6000, 60000))
    finish_trace(ctx)


def generic(ctx, label, kinds, alphabet, maxlen, seeds, damage):
    recs = ctx.tlc("MCLeaf", inv=["RoundTrip", "TrimInvariant", "Emitted"], label=label, consts=dict(
        Kinds=setc(kinds), Alphabet=setc(alphabet), MaxLen=maxlen, Seeds=setc(seeds), Damage=setc(damage)))
    leaf_replay(ctx, recs, label.replace(" ", "").replace(":", "").replace("/", ""))

def c23(ctx):
    fr38 = "31415926535897932384626433832795028841"
    recs = ctx.tlc("MCAmount", inv=["RoundTrip", "Canonical", "Emitted"], label="amounts: spellings", consts=dict(
        Signs=setc(["", "+", "-"]), Seps=setc(["", ".", ","]),
        Ints=setc(["", "0", "7", "00", "10", "123", "0012", "900", "9" * 40, "1" + "0" * 30]),
        Fracs=setc(["", "0", "5", "50", "01", "005", "100", fr38, "0" * 49 + "1", "0" * 99 + "1", "9" * 100, "12345678901234567890" * 5]),
        Pairs="TRUE"))
    leaf_replay(ctx, recs, "spell")
    generic(ctx, "amounts: all short texts", ["amt"], ctx.q(["0", "1", "5", ".", ",", "-", "+"], ["0", "1", "5", ".", ",", "-", "+", " ", "e", "/", "_", "$"]),
            ctx.q(5, 5), ["0"], ["drop"])
    generic(ctx, "amounts: near misses", ["amt"], [], 0, ["-1234.50", "+0.001", "1,5", "1000000", ".25", "17.", "$12.00", "1.234,56", "12USD", "", "(5.00)", "0x10", "1e5", "NaN", "Inf", "--5", "1 000"],
            ["drop", "dup", "cut", "-", "+", ".", ",", " ", "$", "G", "9"])
    record(ctx, ["amt"], ctx.q(6000, 60000))
    finish_trace(ctx)

def c24(ctx):
    recs = ctx.tlc("MCEnum", inv=["Bijection", "Emitted"], label="enumerated types", consts=dict(Types="Enums", Deep=ctx.q("FALSE", "TRUE")))
    leaf_replay(ctx, recs, "enums")
    import re as _re, os
    kinds = _re.findall(r"^  (\w+) \|->", open(os.path.join(os.path.dirname(__file__), "..", "spec", "OfxEnums.tla")).read(), _re.M)
    record(ctx, sorted(set(kinds)), ctx.q(5000, 50000))
    finish_trace(ctx)

def c25(ctx):
    recs = ctx.tlc("MCUid", inv=["RecImpliesValid", "Agree", "Emitted"], label="uids", consts=dict(
        Lengths=ctx.q("{0, 1, 2, 12, 13, 18, 19, 34, 35, 36, 37, 38, 60}", "0..60"), Fills='{<<"a",1>>, <<"Z",1>>, <<"\u00e9",2>>, <<"\u6f22",3>>}'))
    leaf_replay(ctx, recs, "uids")
    for k in range(2):      # two processes: nothing may repeat across them either
        ctx.run(["record-uid", ctx.q(2000, 20000), ctx.path("u%d" % k)])
        open(ctx.path("all.trace"), "a").write(open(ctx.path("u%d" % k)).read())
    finish_trace(ctx)

def c26(ctx):
    generic(ctx, "integers: all short texts", ["int"], ["0", "1", "9", "-", "+", "."], ctx.q(5, 6), ["0"], ["drop"])
    generic(ctx, "integers: limits and near misses", ["int"], [], 0,
            ["9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "00012", "18446744073709551615",
             "+9223372036854775807", "2147483648", "-2147483649", "4294967296", "9007199254740993", "010", "0x1F", "1e3", "1_000", "", "12 3", "99999999999999999999999"],
            ["drop", "dup", "cut", "-", "+", ".", ",", " ", "_", "a", "9"])
    generic(ctx, "booleans: all short texts", ["bool"], ["Y", "N", "y", "n", "T", "1", " "], ctx.q(3, 5), ["YES", "NO", "true", "0"], ["drop", "dup"])
    generic(ctx, "currencies", ["cur"], ["U", "S", "D", "E", "R"], ctx.q(4, 4), ["USD", "EUR", "JPY", "CAD", "", "XXX", "GBP", "US$", "12A"], ["drop", "dup", "cut", "9", "$", " "])
    recs = ctx.tlc("MCText", inv=["EscapeInverts", "Emitted"], label="text pieces", consts=dict(
        Pieces="AllPieces", MaxPieces=ctx.q(3, 4), Kinds=ctx.q('{"str"}', '{"str", "uid"}')))
    leaf_replay(ctx, recs, "text")
    record(ctx, ["int", "bool", "cur", "str", "uid"], ctx.q(6000, 60000))
    finish_trace(ctx)

CHECKS = {"C22": c22, "C23": c23, "C24": c24, "C25": c25, "C26": c26}
