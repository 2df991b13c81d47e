"""Independent IC3 (V2/V3) file parser and writer, from the documented layout; shares nothing with the package."""
import struct

import numpy as np

MAGIC = 123581321
C = dict(COUNTS=10, I0=11, D0=12, FA_CHECK=20, NOOFA=21, CVOFA=22, FA_ZONE=23, FA_D1=24, FA_D3=25, FA_II1=26, NO_CHECK=30, X_NO=31,
         NO_D1=32, NO_D3=33, NO_II1=34, CV_CHECK=40, CV_PART=41, CV_D1=42, CV_D3=43, CV_D33=44, CV_II1=45, DATA=50, EOF=51)
KIND = {"boundary": 1, "perio_cart": 2, "perio_cylx": 3, "perio_cyly": 4, "perio_cylz": 5, "internal": 6}
DATA_IDS = {24: ("face", "d", ()), 25: ("face", "d", (3,)), 26: ("face", "q", ()), 32: ("node", "d", ()), 33: ("node", "d", (3,)),
            34: ("node", "q", ()), 42: ("cell", "d", ()), 43: ("cell", "d", (3,)), 44: ("cell", "d", (3, 3)), 45: ("cell", "q", ())}


class Bad(Exception):
    """the file is not a well-formed IC3 file"""


def need(c, msg):
    if not c:
        raise Bad(msg)


def section(e, name, code, idata=(), rdata=(), payload=b""):
    idata = list(idata) + [0] * (8 - len(idata))
    rdata = list(rdata) + [0.0] * (16 - len(rdata))
    return struct.pack(e + "52siq8q16d", name.encode(), code, 256 + len(payload), *idata, *rdata) + payload


def sections(data):
    """-> (endian, version, [(name, code, idata, rdata, payload)]), checking the chaining of the sizes"""
    need(len(data) >= 8, "no file header")
    for e in "<>":
        m, version = struct.unpack(e + "ii", data[:8])
        if m == MAGIC:
            break
    else:
        raise Bad("no magic number")
    out, pos = [], 8
    while True:
        need(pos + 256 <= len(data), f"truncated section header at {pos}")
        f = struct.unpack(e + "52siq8q16d", data[pos:pos + 256])
        raw = f[0]
        name = raw.split(b"\0")[0].decode()
        need(raw.strip(b"\0") == name.encode(), f"garbage in section name {raw!r}")
        code, skip, idata, rdata = f[1], f[2], f[3:11], f[11:27]
        need(code in C.values(), f"unknown section id {code} ({name})")
        need(skip >= 256 and pos + skip <= len(data), f"section {name} of size {skip} overruns the file")
        out.append((name, code, idata, rdata, data[pos + 256:pos + skip]))
        pos += skip
        if code == C["EOF"]:
            need(name in ("EOF", "DEOF") and skip == 256, "bad EOF section")
            break
    need(pos == len(data), f"{len(data) - pos} bytes after the EOF section")
    return e, version, out


def parse(data):
    """strict parse into a model"""
    e, version, secs = sections(data)
    need(version in (2, 3), f"version {version}")
    m = dict(endian=e, version=version, zones=[], params={}, data=[], order=[s[0] for s in secs])
    only = {}
    for s in secs:
        if s[1] in (C["COUNTS"], C["NOOFA"], C["CVOFA"], C["X_NO"], C["CV_PART"], C["NO_CHECK"], C["FA_CHECK"], C["CV_CHECK"]):
            need(s[1] not in only, f"section {s[0]} twice")
            only[s[1]] = s
    for k in ("COUNTS", "NOOFA", "CVOFA", "X_NO", "CV_PART"):
        need(C[k] in only, f"no {k} section")
    s = only[C["COUNTS"]]
    need(len(s[4]) == 0, "COUNTS has a payload")
    nno, nfa, ncv, nofa = s[2][:4]
    m.update(nno=nno, nfa=nfa, ncv=ncv, noofa_count=nofa)

    def ints(s, n):
        need(len(s[4]) == 4 * n, f"{s[0]}: {len(s[4])} bytes instead of {4 * n}")
        return list(struct.unpack(f"{e}{n}i", s[4]))

    for k, n in (("NO_CHECK", nno), ("FA_CHECK", nfa), ("CV_CHECK", ncv)):
        if version == 2:
            need(C[k] in only, f"no {k} in a V2 file")
            need(only[C[k]][2][0] == n and ints(only[C[k]], n) == list(range(n)), f"{k} is not 0..{n - 1}")
        else:
            need(C[k] not in only, f"{k} in a V3 file")
    s = only[C["NOOFA"]]
    need(s[2][:2] == (nfa, nofa), f"NOOFA sizes {s[2][:2]}")
    v = ints(s, nfa + nofa)
    sizes, val = v[:nfa], v[nfa:]
    need(sum(sizes) == nofa and all(x > 0 for x in sizes), "NOOFA counts")
    need(all(0 <= x < nno for x in val), "node number out of range")
    faces, p = [], 0
    for n in sizes:
        faces.append(tuple(val[p:p + n]))
        p += n
    s = only[C["CVOFA"]]
    need(s[2][:2] == (nfa, 2), f"CVOFA sizes {s[2][:2]}")
    v = ints(s, 2 * nfa)
    cv = list(zip(v[::2], v[1::2]))
    need(all(0 <= a < ncv and b < ncv for a, b in cv), "cell number out of range")
    s = only[C["CV_PART"]]
    need(s[2][0] == ncv, "CV_PART size")
    part = ints(s, ncv)
    s = only[C["X_NO"]]
    need(s[2][:2] == (nno, 3) and len(s[4]) == 24 * nno, "X_NO size")
    xyz = np.frombuffer(s[4], e + "f8").reshape(nno, 3).astype("f8")
    m.update(faces=faces, cvofa=cv, npart=only[C["CV_PART"]][2][1], part=part, xyz=xyz)
    for name, code, idata, rdata, payload in secs:
        if code == C["FA_ZONE"]:
            need(not payload, "FA_ZONE payload")
            m["zones"].append((name, idata[0], idata[1], idata[2], tuple(rdata)))
        elif code == C["I0"]:
            need(not payload and name not in m["params"], f"parameter {name}")
            m["params"][name] = int(idata[0])
        elif code == C["D0"]:
            need(not payload and name not in m["params"], f"parameter {name}")
            m["params"][name] = float(rdata[0])
        elif code in DATA_IDS:
            loc, ch, shp = DATA_IDS[code]
            n = {"node": nno, "face": nfa, "cell": ncv}[loc]
            need(idata[0] == n, f"{name}: size {idata[0]} for {n} {loc}s")
            ndof = 1
            if loc == "cell" and version >= 3:
                ndof = idata[1]
                need(ndof >= 1, f"{name}: {ndof} degrees of freedom")
            k = n * ndof * int(np.prod(shp, dtype=int))
            need(len(payload) == 8 * k, f"{name}: {len(payload)} bytes instead of {8 * k}")
            a = np.frombuffer(payload, e + ("f8" if ch == "d" else "i8")).astype("f8" if ch == "d" else "i8")
            m["data"].append((loc, name, ndof, a.reshape((n * ndof,) + shp)))
    return m


def check_zones(m):
    """boundary zones are contiguous ranges tiling the boundary faces, then one internal zone tiles the rest"""
    nxt, used = 0, []
    nb = sum(1 for a, b in m["cvofa"] if b < 0)
    need(m["zones"], "no zone")
    for name, kind, f, l, _ in m["zones"]:
        need(kind in range(1, 7), f"zone {name} kind {kind}")
        need(0 <= f and l < m["nfa"], f"zone {name} range {f}-{l}")
        used += range(f, l + 1)
    need(sorted(used) == list(range(m["nfa"])), "zones do not cover every face once")
    inter = [z for z in m["zones"] if z[1] == 6]
    need(len(inter) == 1 and inter[0] is m["zones"][-1], "the internal zone is not unique and last")
    need((inter[0][2], inter[0][3]) == (nb, m["nfa"] - 1), f"internal zone {inter[0]} but {nb} boundary faces")
    need(all(b < 0 for a, b in m["cvofa"][:nb]) and all(b >= 0 for a, b in m["cvofa"][nb:]), "boundary faces are not first")
    return {z[0]: z for z in m["zones"]}


def secs_of(m):
    """model -> list of section tuples in the usual order (name, code, idata, rdata, payload)"""
    e, v = m["endian"], m["version"]
    out = []
    nno, nfa, ncv = len(m["xyz"]), len(m["faces"]), m["ncv"]
    nofa = sum(len(f) for f in m["faces"])
    i4 = lambda l: struct.pack(f"{e}{len(l)}i", *l)
    out.append(("NO_FA_CV_NOOFA_COUNTS", C["COUNTS"], (nno, nfa, ncv, nofa), (), b""))
    if v == 2:
        out.append(("NO_CHECK", C["NO_CHECK"], (nno,), (), i4(range(nno))))
        out.append(("FA_CHECK", C["FA_CHECK"], (nfa,), (), i4(range(nfa))))
        out.append(("CV_CHECK", C["CV_CHECK"], (ncv,), (), i4(range(ncv))))
    out.append(("NOOFA_I_AND_V", C["NOOFA"], (nfa, nofa), (), i4([len(f) for f in m["faces"]] + [x for f in m["faces"] for x in f])))
    out.append(("CVOFA", C["CVOFA"], (nfa, 2), (), i4([x for c in m["cvofa"] for x in c])))
    for name, kind, f, l, rd in m["zones"]:
        out.append((name, C["FA_ZONE"], (kind, f, l), rd, b""))
    out.append(("CV_PART", C["CV_PART"], (ncv, m["npart"]), (), i4(m["part"])))
    out.append(("X_NO", C["X_NO"], (nno, 3), (), np.asarray(m["xyz"], "f8").astype(e + "f8").tobytes()))
    out.append(("DATA", C["DATA"], (), (), b""))
    for k, val in m["params"].items():
        if isinstance(val, int):
            out.append((k, C["I0"], (val,), (), b""))
        else:
            out.append((k, C["D0"], (), (val,), b""))
    for loc, name, ndof, a in m["data"]:
        n = {"node": nno, "face": nfa, "cell": ncv}[loc]
        shp = a.shape[1:]
        ch = "q" if a.dtype.kind == "i" else "d"
        code = [k for k, (l2, c2, s2) in DATA_IDS.items() if (l2, c2, s2) == (loc, ch, shp)][0]
        assert a.shape[0] == n * ndof
        if loc == "cell" and v >= 3:
            idata = (n, ndof) + ((3,) if len(shp) == 2 else ())
        else:
            idata = (n,) + shp
        out.append((name, code, idata, (), a.astype(e + ("i8" if ch == "q" else "f8")).tobytes()))
    out.append(("EOF", C["EOF"], (), (), b""))
    return out


def emit(m, secs=None):
    e = m["endian"]
    return struct.pack(e + "ii", MAGIC, m["version"]) + b"".join(section(e, *s) for s in (secs_of(m) if secs is None else secs))
