"""D10: text archives against spec/Idt.tla (tables) and spec/MsiSum.tla (summary information)."""
import build, dbexec, idtgen, model, sumexec

WORDS = ["", "x", "tab\there", "two\r\nlines\n", "\t", " a ", "é", "日本語", "Intel;1033", "'q' \"r\"", "12"]
DATES = ["0", "131000000000000000", "131000000000000001", "4294967296", "18446744073709551615", "116444736000000000",
         "130478202000000000", "131119155980000000", "2650467743999999999", "2650467744000000000"]
INSIDE = ["131000000000000000", "131000000000000001", "116444736000000000", "130478202000000000", "131119155980000000"]    # dates in every time zone
LINES = ["2\tx~y|\n", "3\t\r\n", "12\t2009/04/12 15:46:11\r\n", "10\t1601/01/01 00:00:00\n", "14\t-5\n", "1\t65001\n", "19\t2\n", "18\t^it's|\n",
         "13\t2024/02/29 23:59:59\n", "9\t{X}\n", "11\t1900/12/31 00:00:01\n"]
BADLINES = ["12\tyesterday\n", "12\t2009-04-12 15:46:11\n", "2\n", "2\ta\tb\n", "17\tx\n", "0\tx\n", "20\tx\n", "12\t\n", "13\t2009/04/12\n", "12\t2009/04/12 15:46\n"]
HEAD = "PropertyId\tValue\ni2\tl255\n_SummaryInformation\tPropertyId\n"
ZONES = ["UTC", "America/New_York", "Europe/Berlin", "Asia/Kolkata"]


def script(rng, n, texts):
    ops = [["open", "A", "p", "create"], ["open", "B", "q", "create"]]
    open_ = {"A": "p", "B": "q"}
    sis = {}
    while len(ops) < n:
        x = rng.random()
        h = rng.choice("AB")
        if x < .1 or not sis:
            s = rng.choice("STU")
            ops.append(["sinew", s, h, 20])
            sis[s] = h
        elif x < .55:
            s = rng.choice(sorted(sis))
            p = rng.choice(list(range(1, 17)) + [18, 19])
            if p in (1, 14, 15, 16, 19):
                ops.append(["siseti", s, p, rng.choice([0, -1, 1252, 32767, -32768, 200, 65001] if p == 1 else [0, -1, 70000, 200])])
            elif p in range(10, 14):
                ops.append(["sisett", s, p, rng.choice(DATES if texts else INSIDE)] if rng.random() < .5 or not texts else ["sisett", s, p, "%d" % rng.randrange(2650467744 * 10 ** 9)])
            else:
                ops.append(["sisets", s, p, rng.choice(WORDS)])
        elif x < .65:
            ops.append(["sipersist", rng.choice(sorted(sis))])
        elif x < .75 and texts:
            ops.append(["siexport", h])
        elif x < .85 and texts:
            ls = [rng.choice(LINES) for _ in range(rng.randint(0, 4))]
            if rng.random() < .3:
                ls.insert(rng.randrange(len(ls) + 1), rng.choice(BADLINES))
            ops.append(["siimport", h, HEAD + "".join(ls)])
        elif x < .93:
            ops.append(["siexim", h, "A" if h == "B" else "B"])
        else:
            ops.append(["commit", h])
            ops.append(["disk", open_[h]])
    for h in "AB":
        ops += [["commit", h], ["disk", open_[h]]]
    return ops


def known_blank(ck, d):
    """the row of a one-column table that is NULL is an empty line, which importing passes over"""
    col = {"n": "K", "t": "str", "sz": 8, "nn": False, "loc": False, "tmp": False}
    ops = [["open", "A", "p", "create", ""], ["open", "B", "q", "create", ""], ["sql", "A", ["create", "T", [col], ["K"], False], []],
           ["sql", "A", ["insert", "T", ["K"], [["?", 1]], False], [["n"]]], ["exim", "A", "T", "B"], ["snap", "B"]]
    tr, crash = dbexec.Runner(d, 1).execute(ops)
    rej, _ = ck.validate("DbTrace", [tr])
    if (crash or rej) and not ck.known("idt-blank-row", ""):
        ck.violation("the NULL row of a one-column table is lost by export and import", {"ops": ops, "trace": tr, "crash": crash})


def run(ck):
    d = build.lib()
    pre, beh, st = model.explore("MC_Idt", {"DEPTH": 2} if ck.quick else {"DEPTH": 3, "WIDE": 1}, workers=1 if ck.quick else 8)
    ck.model(st)
    runs = model.traces(pre, beh, [["snap", "A"]], independent=False)
    ck.decide("MC_Idt", lambda it: dbexec.Runner(d, it[0]).execute(it[1]), [(ck.seed * 1009 + i, r) for i, r in enumerate(runs)])
    n = 250 if ck.quick else 4000
    for k in range(0, n, 500):
        ck.decide("tables", lambda sd: dbexec.Runner(d, sd).execute(idtgen.run(sd, 55)), [ck.seed * 1000003 + i for i in range(k, min(n, k + 500))])
        if ck.violations:
            break
    pre, beh, st = model.explore("MC_Sum", {"DEPTH": 3 if ck.quick else 5, "TEXT": 1}, workers=1 if ck.quick else 8)
    ck.model(st)
    items = []
    for b in beh:
        for ops in [b["stay"]] + [[o] for o in b["move"]]:
            texts = [o for o in ops if o[0] in ("siimport", "siexport")]
            if texts:
                items.append(pre + b["h"] + texts + ([["commit", "A"], ["disk", "p"]] if "open" in str(pre) and not any(o[0] == "close" for o in b["h"][-1:]) else []))
    ck.decide("MC_Sum", lambda ops: sumexec.execute(d, ops), items, module="SumTrace")
    n = 120 if ck.quick else 2000
    ck.decide("summary", lambda i: sumexec.execute(d, script(ck.rng("u", i), 70, True)), list(range(n)), module="SumTrace")
    ck.decide("zones", lambda i: sumexec.execute(d, script(ck.rng("z", i), 70, False), env={"TZ": ZONES[i % len(ZONES)]}), list(range(n // 3)), module="SumTrace")
    known_blank(ck, d)
    ck.assumptions += ["dates are compared to the second; the hour that clocks repeat when daylight saving time ends is left out",
                       "values hold no characters 0x10, 0x11 and 0x19, which stand for tab, CR and LF in the format; stream names hold no slash"]
