"""Encodes transform files (.mst): MsiSys!DoApply says what they mean."""
import struct

CH = {c: i for i, c in enumerate("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz._")}


def encname(n, table):
    out = "\u4840" if table else ""
    i = 0
    while i < len(n):
        if n[i] in CH:
            if i + 1 < len(n) and n[i + 1] in CH:
                out += chr(0x3800 + CH[n[i]] + (CH[n[i + 1]] << 6))
                i += 2
            else:
                out += chr(0x4800 + CH[n[i]])
                i += 1
        else:
            out += n[i]
            i += 1
    return out


class Pool:
    def __init__(self, wide, page=65001, enc="utf8"):
        self.ids, self.strs, self.wide, self.page, self.enc = {}, [""], wide, page, enc

    def ref(self, s):
        if not s:
            n = 0
        elif s in self.ids:
            n = self.ids[s]
        else:
            n = self.ids[s] = len(self.strs)
            self.strs.append(s)
        return struct.pack("<I", n)[:3 if self.wide else 2]

    def streams(self):
        pool = struct.pack("<HH", self.page & 0xffff, (self.page >> 16) | (0x8000 if self.wide else 0))
        data = b""
        for s in self.strs[1:]:
            b = s.encode(self.enc)
            if len(b) > 0xffff:
                pool += struct.pack("<HHHH", 0, 1, len(b) & 0xffff, len(b) >> 16)
            else:
                pool += struct.pack("<HH", len(b), 1)
            data += b
        return pool, data


def bits(c, key):
    b = {"int2": 0x502, "int4": 0x104, "bin": 0x900, "str": 0xd00 + c["sz"]}[c["t"]]
    return b + (0x2000 if key else 0) + (0 if c["nn"] else 0x1000) + (0x200 if c["loc"] else 0)


def text(v):
    return "" if v[0] == "n" else str(v[1])


def stream(t, cols, nk, vals):
    return ".".join([t] + [text(v) for v in vals[:nk]])


def encode(op, numbers=False, wide=False, streams=True):
    """op = ["apply", h, news, adds, changes]: the compound file's streams [(name, bytes)].
    news [[t, cols, nkeys]], adds [[t, col, number]],
    changes [[t, cols, nkeys, "add"|"set"|"del", which columns, values]]"""
    _, _, news, adds, changes, drops = op
    p = Pool(wide)
    tabs = b""
    cs = b""
    out = {}
    i2 = lambda v: struct.pack("<H", 0 if v is None else (v + 0x8000) & 0xffff)
    for t, cols, nk in news:
        tabs += struct.pack("<H", 0x101) + p.ref(t)
        for k, c in enumerate(cols):
            cs += struct.pack("<H", 0x401) + p.ref(t) + (i2(k + 1) if numbers else i2(None)) + p.ref(c["n"]) + i2(bits(c, k < nk) - 0x10000 if bits(c, k < nk) > 0x7fff else bits(c, k < nk))
    for t, c, n in adds:
        cs += struct.pack("<H", 0x401) + p.ref(t) + i2(n) + p.ref(c["n"]) + i2(bits(c, False))
    for t, ncols in drops:
        tabs += struct.pack("<H", 0) + p.ref(t)
        for k in range(ncols):
            cs += struct.pack("<H", 0) + p.ref(t) + i2(k + 1)
    rows = {}
    for t, cols, nk, kind, which, vals in changes:
        # which: the columns (from 1) that are given, besides the keys
        if kind == "add":
            b = struct.pack("<H", 1 | len(vals) << 8)
        else:
            b = struct.pack("<H", sum(1 << (k - 1) for k in which if k > nk) if kind == "set" else 0)
        for k, c in enumerate(cols):
            if not (kind == "add" or k < nk or (kind == "set" and k + 1 in which)):
                continue
            if kind == "add" and k >= len(vals):
                break
            v = vals[k]
            if c["t"] == "str":
                b += p.ref(text(v))
            elif c["t"] == "int2":
                b += i2(None if v[0] == "n" else v[1])
            elif c["t"] == "int4":
                b += struct.pack("<I", 0 if v[0] == "n" else (v[1] & 0xffffffff) ^ 0x80000000)
            else:
                b += struct.pack("<H", 0 if v[0] == "n" else 1)
                if v[0] == "b":
                    out[encname(stream(t, cols, nk, vals), False)] = bytes.fromhex(v[1])
        rows[t] = rows.get(t, b"") + b
    if tabs:
        out[encname("_Tables", True)] = tabs
    if cs:
        out[encname("_Columns", True)] = cs
    for t, b in rows.items():
        out[encname(t, True)] = b
    pool, data = p.streams()
    if streams:
        out[encname("_StringPool", True)] = pool
        out[encname("_StringData", True)] = data
    return sorted(out.items())
