"""Random statements as text: deep conditions in any spelling, and texts a few
characters away from a SELECT (which, whatever they mean, change nothing)."""
import sqltext

INTS = [-2147483647, -32768, -32767, -5, -1, 0, 1, 2, 3, 10, 32767, 32768, 2147483647]
COLS = {"T": ["K", "L"], "U": ["K", "N"], "V": ["A", "B", "D"]}
CHARS = list(" \t\n\f\r!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~0123456789abklnADKLNé") + ["AND", " OR ", " NOT ", "NULL", "--", "''", "``", " IS ", "= ", "1 ", "(", ")"]


def col(r, ts):
    t = r.choice(ts)
    c = r.choice(COLS[t])
    return ["c", t if r.random() < .6 or len(ts) > 1 else "", c]


def cond(r, ts, d):
    x = r.random()
    if d and x < .6:
        return [r.choice(["and", "or"]), cond(r, ts, d - 1), cond(r, ts, d - 1)]
    if x < .72:
        return [r.choice(["null", "notnull"]), col(r, ts)]
    o = col(r, ts) if r.random() < .3 else ["i", r.choice(INTS) if r.random() < .5 else r.randint(-1, 3)]
    return ["cmp", r.choice(["=", "<>", "<", ">", "<=", ">="]), col(r, ts), o]


def script(r, pre, n):
    st = sqltext.Style(r)
    ops = list(pre)
    for _ in range(n):
        ts = r.choice([["T"], ["V"], ["U"], ["V"], ["T", "U"], ["U", "V"]])
        cs = [["*"]] if r.random() < .3 else [col(r, ts) for _ in range(r.randint(1, 3))]
        a = ["select", r.random() < .2, cs, ts, cond(r, ts, r.choice([0, 1, 2, 3, 4])) if r.random() < .9 else ["true"],
             [] if r.random() < .7 else [col(r, ts)]]
        t = st.sql(a)
        if r.random() < .6:
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                i = r.randint(0, len(t))
                x = r.random()
                if x < .35:
                    t = t[:i] + t[i + r.choice([1, 1, 1, 2, 5]):]
                elif x < .7:
                    t = t[:i] + r.choice(CHARS) + t[i:]
                else:
                    t = t[:i] + r.choice(CHARS) + t[i + 1:]
        if "``" in t or t.count(" T") > 1 and t.upper().count("FROM") != 1:
            continue
        if len(t) < 2000:
            ops.append(["text", "A", t, []])
    ops.append(["snap", "A"])
    return ops
