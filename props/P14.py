import vlib, concurrent.futures as cf
from vlib import B
from P07 import tok, badtok, good, join

ASSUMPTIONS = ["double quote support is specified for the plain and compressing column rules", "reading a cell through a row object is only defined for columns of that row",
               "the lower column limit of a grid without rows is left open"]


def text(R, nr, nc, dl, rl, cells):
    t = []
    for r in range(nr):
        n = max(1, nc + R.choice([0, 0, 0, 1, -1, -2]))
        for c in range(n):
            t += R.choice(cells)
            if c < n - 1 or R.random() < .1:
                t += [R.choice(dl)] * R.choice([1, 1, 1, 2])
        if r < nr - 1 or R.random() < .5:
            t += [R.choice(rl)] * R.choice([1, 1, 2])
    return t


def core(R):
    """every arity of the typed row readers: the right row and every single bad value"""
    out = []
    for n in range(1, 11):
        at = R.sample(range(13), n)
        for bad in [0] + [k for k in range(1, n + 1) if k % 3 != 2]:
            vs = [good(k) if k != bad else B("x!") for k in range(1, n + 1)]
            wide = [B("z%d" % c) for c in range(13)]
            for k, c in enumerate(at):
                wide[c] = vs[k]
            for row, e in ((vs, ["vals", n]), (vs + [B("more")], ["vals", n]), (wide, ["vals_at", at])):
                out.append({"o": "grid_row", "i": [B("x,y\n") + join(row, 44) + B("\nq"), [10], [44], 0, 0, 0, 1, e]})
    return out


def gen(ctx):
    R = ctx.rng
    out = core(R)
    for _ in range(250 if ctx.quick else 4000):
        rl = R.choice([[10], [13, 10], [59], [0]])
        dl = R.choice([[44], B(",|"), [9, 32], [255, 44]])
        plain = R.random() < .2
        if plain:
            rl, dl = B("\n\r"), B(R.choice([",|;\t ", ",|;\t"]))
        cells = [[], B("a"), B("12"), B("-7"), [R.randrange(1, 256)], tok(R, 1), badtok(R, 1), tok(R, 2)]
        cells = [[c for c in x if c not in rl and c not in dl] for x in cells]
        dq = R.random() < .4 and not plain
        opt = R.choice([0, 1]) if dq else 1 if plain else R.choice([0, 1, 1, 2, 3, 4, 5])
        if dq:
            cells += [B('"'), B('"x' + chr(dl[0]) + 'y"'), B('""'), B('"q"'), B('a"b'), B('"' + chr(dl[-1]))]
        t = text(R, R.randint(0, 5), R.randint(1, 5), dl, rl, cells)
        c = [t, rl, dl, opt, int(dq), int(dq and R.random() < .5)]
        out.append({"o": "grid_load", "i": c})
        # rows
        u = text(R, 3, R.randint(1, 11), [44], [10], [tok(R, k % 3) if R.random() < .8 else badtok(R, k % 3) for k in range(6)] + ([[]] if R.random() < .3 else []))
        u = [x if x not in (10,) or True else x for x in u]
        rows = [r for r in bytes(u).split(b"\n") if r]
        if not rows:
            continue
        ri = R.randrange(len(rows))
        n = rows[ri].count(b",") + 1
        i = [u, [10], [44], 0, 0, 0, ri]
        a, b = R.randint(0, n + 1), R.randint(0, n + 1)
        for e in (["vals", min(n, R.randint(1, 10))], ["vals_at", [R.randrange(n) for _ in range(R.randint(1, 10))]], ["ints", a, b], ["ints", 0, n], ["ints_n", R.randint(0, n + 2)],
                  ["ints_ok"], ["cols", a, b], ["cols", 0, n], ["cols", R.randrange(n), n], ["misc"]):
            out.append({"o": "grid_row", "i": i + [e]})
    # typed rows of the right shape
    for n in range(1, 11):
        for _ in range(3 if ctx.quick else 40):
            r = []
            for k in range(1, n + 1):
                r += (tok(R, k % 3) if R.random() < .96 else badtok(R, k % 3)) + [44]
            r = [c for c in r if c != 10]
            if b",," in bytes(r):
                continue
            u = B("x,y\n") + r[:-1]
            out.append({"o": "grid_row", "i": [u, [10], [44], 0, 0, 0, 1, ["vals", n]]})
            out.append({"o": "grid_row", "i": [u, [10], [44], 0, 0, 0, 1, ["ints", 0, n]]})
    # hundreds of rows, of columns, and long cells
    for rows, cols in [(300, 2), (2, 300), (20, 20), (2, 8)] * (1 if ctx.quick else 5):
        t = text(R, rows, cols, [44], [10], [B("a"), B("12"), B("x" * 300) if cols == 8 else B("bc"), tok(R, 1), B("q")])
        out.append({"o": "grid_load", "i": [t, [10], [44], R.choice([0, 1]), 0, 0]})
        t = text(R, rows, cols, [44], [10], [B("1"), B("-22"), tok(R, 1)])
        ls = [r for r in bytes(t).split(b"\n") if r]
        ri = R.choice([len(ls) - 1, R.randrange(len(ls))])
        n = ls[ri].count(b",") + 1
        for e in (["ints", 0, n], ["ints_n", n], ["ints_n", min(n, 256)], ["ints_ok"], ["cols", 0, n], ["cols", n // 2, n], ["misc"], ["vals_at", [R.randrange(max(0, n - 9), n) for _ in range(5)]])[R.randrange(2)::2]:
            out.append({"o": "grid_row", "i": [t, [10], [44], 0, 0, 0, ri, e]})
    for n in [1, 3] + [65537 + R.randint(0, 9999)] + [R.choice([32768, 65536, 70001]) + R.randint(-2, 2) for _ in range(1 if ctx.quick else 12)]:
        for dq in (0, 1):
            cells = [[], B("a"), B("12"), tok(R, 1)] + [B('"x,y"'), B('"'), B('""')] * dq
            cells = [[c for c in x if c not in (10, 44)] if x != B('"x,y"') else x for x in cells]
            t = B("h,") + text(R, R.randint(1, 3), R.randint(1, 3), [44], [10], [c for c in cells if c != B('"')] if dq else cells)
            out.append({"o": "grid_tall", "i": [t + [10], [10], [44], R.choice([0, 1]), dq, dq, n]})
    for n in [1, 3] + [65537 + R.randint(0, 9999)] + [R.choice([32768, 65536, 70001]) + R.randint(-2, 2) for _ in range(1 if ctx.quick else 12)]:
        opt = R.choice([0, 1])
        u = B("x") + [R.choice(B("ab,,")) for _ in range(R.randint(0, 5))] + [44]
        out.append({"o": "grid_wide", "i": [u, [10], [44], opt, 0, 0, n, B("end")]})
    # cells of hundreds and of tens of thousands of bytes
    out += vlib.stretched(R, out, {"grid_load": [(0,)], "grid_row": [(0,)]}, 60 if ctx.quick else 900)
    misc = [r for r in out if r["o"] == "grid_row" and r["i"][7][0] == "misc"]
    return out + vlib.stretched(R, misc, {"grid_row": [(0,)]}, 20 if ctx.quick else 300)


def canary(r):
    if r["o"] == "grid_load" and r["r"][0][0]:
        r["r"][0][0][0][0] = r["r"][0][0][0][0] + [120]
        return r
    return None


CFG = ("CONSTANTS Alphabet = {%s}\nMaxLen = %d\nOpts = {%s}\nQuotes = {%s}\nSPECIFICATION Spec\nINVARIANTS Loaded NoEmptyRow Content\nPROPERTY Terminates\n")


def run(ctx):
    q = ctx.quick
    with cf.ThreadPoolExecutor(2) as ex:
        hb = ex.submit(vlib.build, ctx, ["gridload.cpp", "gridrow.cpp"])
        em = vlib.model_check(ctx, "MCGridLoad", CFG % ("97,44,10", 6 if q else 8, "0,1", "0"))
        em += vlib.model_check(ctx, "MCGridLoad", CFG % ("97,44,10,34", 4 if q else 6, "0,1", "1"))
        exe = hb.result()
    vlib.bind(ctx, exe, "GridTrace", em, gen(ctx), canary)
