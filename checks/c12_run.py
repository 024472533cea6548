import json
import math
from fractions import Fraction
from resistics.window import WindowSetup, WindowParameters


def run_sizes(case, ctx):
    rates = list(case["fs"])
    if case["dec"]:
        rates = [rates[0] / case["dec"] ** i for i in range(len(rates))]
    n = len(rates)
    kw = {}
    if case["wins"] is not None:
        kw["win_sizes"] = list(case["wins"])
    if case["olaps"] is not None:
        kw["olap_sizes"] = list(case["olaps"])
    setup = WindowSetup(
        min_size=case["min_size"], min_olap=case["min_olap"], win_factor=case["factor"],
        olap_proportion=case["prop"], min_n_wins=case["min_n"], **kw
    )
    before = setup.json()
    given = list(rates)
    short = any(len(x) < n for x in (case["wins"], case["olaps"]) if x is not None)
    if short:
        ctx.raises(ValueError, lambda: setup.run(n, rates), "too few sizes for %d levels" % n)
        ctx.eq(setup.json(), before, "setup after a refused run")
        ctx.nontrivial()
        ctx.label("refused")
        return
    p = setup.run(n, rates)
    ctx.eq(setup.json(), before, "setup after a run")
    ctx.eq(rates, given, "rates given")
    ctx.eq((p.n_levels, p.min_n_wins, len(p.win_sizes), len(p.olap_sizes)), (n, case["min_n"], n, n), "counts")
    for lev in range(n):
        win, olap = p.get_win_size(lev), p.get_olap_size(lev)
        ctx.eq((win, olap), (p.win_sizes[lev], p.olap_sizes[lev]), "level %d through the getters" % lev)
        ctx.check(type(win) is int and type(olap) is int, "level %d: sizes are whole: %r, %r" % (lev, win, olap))
        if case["wins"] is not None:
            ctx.eq(win, case["wins"][lev], "level %d: explicit size" % lev)
        else:
            x = Fraction(rates[lev]) / case["factor"]
            ok = {max(case["min_size"], math.floor(x))}
            if abs(x - round(x)) < Fraction(1, 10**9) * max(1, x):
                ok |= {max(case["min_size"], round(x) - 1), max(case["min_size"], round(x))}
            ctx.check(win in ok, "level %d at %r Hz: window %d, expected %s" % (lev, rates[lev], win, sorted(ok)))
        if case["olaps"] is not None:
            ctx.eq(olap, case["olaps"][lev], "level %d: explicit overlap" % lev)
        else:
            y = win * Fraction(case["prop"])
            ok = {max(case["min_olap"], math.floor(y))}
            if abs(y - round(y)) < Fraction(1, 10**9) * max(1, y):
                ok |= {max(case["min_olap"], round(y) - 1), max(case["min_olap"], round(y))}
            ctx.check(olap in ok, "level %d: overlap %d of window %d, expected %s" % (lev, olap, win, sorted(ok)))
    # fewer levels from the same setup, then the first result again
    if n > 1:
        q = setup.run(n - 1, rates[:-1])
        ctx.eq((q.win_sizes, q.olap_sizes), (p.win_sizes[:-1], p.olap_sizes[:-1]), "one level fewer")
    ctx.eq(setup.run(n, rates).json(), p.json(), "second run")
    for lev in (-1, n, n + 5):
        ctx.raises(ValueError, lambda: p.get_win_size(lev), "window size of level %d of %d" % (lev, n))
        ctx.raises(ValueError, lambda: p.get_olap_size(lev), "overlap of level %d of %d" % (lev, n))
    ctx.eq(json.loads(WindowParameters.parse_raw(p.json()).json()), json.loads(p.json()), "parameters through JSON")
    ctx.nontrivial(n > 1 or bool(kw))
    ctx.label("explicit", bool(kw))
