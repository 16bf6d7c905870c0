"""Behaviours of spec/DDEngine.tla as scripts for harness/dd_driver.cpp."""


def val(v, u=None):
    out = [u or v.get("u", "raw"), v["k"], v["m"], len(v["a"])]
    for e in v["a"]:
        out += e
    return out


def gate(g):
    out = [g["name"], len(g["x"])]
    for a in g["x"]:
        out += a
    for key in ("T", "P", "Q"):
        out += [len(g[key])] + list(g[key])
    return out


def weights(w):
    out = [len(w)]
    for p in w:
        out += p
    return out


def mdim(x):
    return (len(x["a"]).bit_length() - 1) // 2


def line(r):
    o = r["op"]
    if o == "new":
        t = [r["d"], r["n"], r["one"]] + val(r["v"])
    elif o == "loadv":
        t = [r["d"]] + val(r["v"])
    elif o == "loadm":
        t = [r["d"], mdim(r["x"])] + val(r["x"])
    elif o == "vgate":
        t = [r["d"], r["s"]] + gate(r["g"]) + [r["f"]] + val(r["v"])
    elif o == "mgate":
        t = [r["d"], r["n"]] + gate(r["g"]) + [r["f"]] + val(r["x"])
    elif o == "mlarge":
        t = [r["d"], r["n"], len(r["T"])] + r["T"] + val(r["y"]) + val(r["x"])
    elif o in ("mmul", "madd", "mkron"):
        t = [r["d"], r["l"], r["r"]] + val(r["x"])
    elif o == "mapply":
        t = [r["d"], r["l"], r["s"]] + val(r["v"])
    elif o in ("vadd", "vkron"):
        t = [r["d"], r["l"], r["r"]] + val(r["v"])
    elif o == "measure":
        t = [r["d"], r["s"], r["q"], r["b"]] + weights(r["w"]) + val(r["v"])
    elif o == "measureall":
        t = [r["d"], r["s"], r["i"]] + weights(r["w"]) + val(r["v"])
    elif o == "query":
        t = [r["s"], r["q"], r["kind"]] + weights(r["w"]) + val(r["v"])
    elif o in ("gcv", "gcm"):
        t = [len(r["keep"])] + r["keep"] + [r["force"]]
        for v in r["vs" if o == "gcv" else "xs"]:
            t += val(v)
    elif o == "store":
        t = [r["d"], r["s"], r["kind"]] + val(r["v"])
    elif o == "dnew":
        t = [r["d"], r["n"], r["one"]] + val(r["v"])
    elif o == "dgate":
        t = [r["d"], r["s"]] + gate(r["g"]) + [r["f"], r["top"], r["sch"]] + val(r["v"])
    elif o == "dapply":
        t = [r["d"], r["l"], r["s"], r["top"], r["sch"]] + val(r["v"])
    elif o == "dadd":
        t = [r["d"], r["l"], r["r"]] + val(r["v"])
    elif o == "dmeasure":
        t = [r["d"], r["s"], r["q"], r["b"]] + weights(r["w"]) + val(r["v"])
    elif o == "dquery":
        t = [r["s"], r["q"], r["kind"]] + weights(r["w"]) + val(r["v"])
    elif o == "dgcv":
        t = [len(r["keep"])] + r["keep"] + [r["force"]]
        for v in r["vs"]:
            t += val(v)
    elif o in ("chkv", "dchkv"):
        t = [r["d"]] + val(r["v"])
    elif o == "chkm":
        t = [r["d"], mdim(r["x"])] + val(r["x"])
    else:
        raise ValueError(o)
    return " ".join(str(x) for x in [o] + t)


def handles(records):
    """Live handles and their exact values after the records."""
    V, M = {}, {}
    for r in records:
        o = r["op"]
        if o in ("gcv", "dgcv"):
            V = dict(zip(r["keep"], r["vs"]))
        elif o == "gcm":
            M = dict(zip(r["keep"], r["xs"]))
        elif "d" in r:
            if "x" in r and o not in ("measure",):
                M[r["d"]] = r["x"]
            else:
                V[r["d"]] = r["v"]
    return V, M


def behaviour(tid, t, strict):
    out = ["T %d" % tid] + [line(r) for r in t["t"]]
    V, M = handles(t["t"])
    for h, v in sorted(V.items()):
        out.append(line({"op": "chkv", "d": h, "v": v}))
    for h, x in sorted(M.items()):
        out.append(line({"op": "chkm", "d": h, "x": x}))
    s = ["share", int(strict)]
    for key in ("v", "m"):
        s.append(len(t["share"][key]))
        for q in t["share"][key]:
            s += q
    out.append(" ".join(str(x) for x in s))
    out.append("E")
    return "\n".join(out) + "\n"


def minimal(r, before):
    """The failing operation alone, its operands rebuilt from their exact values."""
    V, M = handles(before)
    out = []
    need_v, need_m = set(), set()
    o = r["op"]
    if o in ("vgate", "measure", "measureall", "query", "store"):
        need_v.add(r["s"])
    if o in ("mmul", "madd", "mkron"):
        need_m |= {r["l"], r["r"]}
    if o == "mapply":
        need_m.add(r["l"])
        need_v.add(r["s"])
    if o in ("vadd", "vkron"):
        need_v |= {r["l"], r["r"]}
    if o == "gcv":
        need_v |= set(r["keep"])
    if o == "gcm":
        need_m |= set(r["keep"])
    for h in sorted(need_v):
        out.append({"op": "loadv", "d": h, "v": V[h]})
    for h in sorted(need_m):
        out.append({"op": "loadm", "d": h, "x": M[h]})
    return "T 0\n" + "".join(line(x) + "\n" for x in out + [r]) + "E\n"


def distributed(tid, t):
    out = ["T %d" % tid] + [line(r) for r in t["t"]]
    V, M = handles(t["t"])
    out += [line({"op": "dchkv", "d": h, "v": v}) for h, v in sorted(V.items())]
    out += [line({"op": "chkm", "d": h, "x": x}) for h, x in sorted(M.items())]
    return "\n".join(out + ["E"]) + "\n"
