"""Writes and reads cabinet files (MS-CAB)."""
import struct, zlib


def checksum(data, seed=0):
    c = seed
    n = len(data) // 4
    for v in struct.unpack("<%dI" % n, data[:n * 4]):
        c ^= v
    rest = data[n * 4:]
    v = 0
    for b in rest:
        v = v << 8 | b
    return c ^ v


def dosdate(y, mo, d, h=0, mi=0, s=0):
    return (y - 1980) << 9 | mo << 5 | d, h << 11 | mi << 5 | s // 2


def write(files, zip=False, split=0):
    """files: [(name, bytes, (y, m, d, h, mi, s))]; split: files per folder (0: one folder)"""
    groups = [files[i:i + split] for i in range(0, len(files), split)] if split else [files]
    if not files:
        groups = []
    folders, entries = [], b""
    for gi, g in enumerate(groups):
        data, off = b"", 0
        for name, body, when in g:
            d, t = dosdate(*when)
            utf = any(ord(c) > 127 for c in name)
            entries += struct.pack("<IIHHHH", len(body), off, gi, d, t, 0x20 | (0x80 if utf else 0)) + name.encode("utf8") + b"\0"
            off += len(body)
            data += body
        blocks = []
        for i in range(0, len(data), 32768):
            raw = data[i:i + 32768]
            if zip:
                z = zlib.compressobj(9, zlib.DEFLATED, -15)
                c = b"CK" + z.compress(raw) + z.flush()
            else:
                c = raw
            h = struct.pack("<HH", len(c), len(raw))
            blocks.append(struct.pack("<I", checksum(h, checksum(c))) + h + c)
        folders.append(blocks)
    at = 36 + 8 * len(folders)
    coff = at
    at += len(entries)
    heads = b""
    for b in folders:
        heads += struct.pack("<IHH", at, len(b), 1 if zip else 0)
        at += sum(map(len, b))
    return (struct.pack("<4sIIIIIBBHHHHH", b"MSCF", 0, at, 0, coff, 0, 3, 1, len(folders), len(files), 0, 0x1234, 0)
            + heads + entries + b"".join(x for b in folders for x in b))


def read(b):
    """-> [(name, bytes, folder)]"""
    sig, _, size, _, coff, _, _, _, nfold, nfile, flags, _, _ = struct.unpack_from("<4sIIIIIBBHHHHH", b)
    assert sig == b"MSCF", "no cabinet"
    at = 36
    if flags & 4:
        h, f, d = struct.unpack_from("<HBB", b, at)
        at += 4 + h
    fold = []
    for i in range(nfold):
        off, n, kind = struct.unpack_from("<IHH", b, at)
        at += 8
        out, p, hist = b"", off, b""
        for _ in range(n):
            cs, c, u = struct.unpack_from("<IHH", b, p)
            raw = b[p + 8:p + 8 + c]
            p += 8 + c
            if kind & 15 == 0:
                d = raw
            elif kind & 15 == 1:
                z = zlib.decompressobj(-15, zdict=hist) if hist else zlib.decompressobj(-15)
                d = z.decompress(raw[2:])
                hist = (hist + d)[-32768:]
            else:
                raise ValueError("compression %d" % kind)
            assert len(d) == u, "block size"
            out += d
        fold.append(out)
    res, at = [], coff
    for i in range(nfile):
        n, off, f, d, t, a = struct.unpack_from("<IIHHHH", b, at)
        e = b.index(b"\0", at + 16)
        res.append((b[at + 16:e].decode("utf8"), fold[f][off:off + n], f))
        at = e + 1
    return res
