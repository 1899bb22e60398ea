"""Queries over the dumped MIR: construction sites, calls, call graph."""


def stmts(body):
    for bi, bb in enumerate(body["blocks"]):
        if bb.get("c"):
            continue
        for s in bb["s"]:
            yield bi, s


def terms(body):
    for bi, bb in enumerate(body["blocks"]):
        if bb.get("c"):
            continue
        yield bi, bb["t"]


def agg_sites(D, adt):
    """(crate, key, body, span) of every direct construction of an ADT value"""
    for c, d in D.items():
        for key, b in d["bodies"].items():
            for _, s in stmts(b):
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][3] == adt:
                    yield c, key, b, s[-1]


def place_adts(d, body, place):
    """ADT types walked through by the field projections of a place: (adt path, field index)"""
    out = []
    ty = body["locals"][place["l"]]
    return out


# ---------------------------------------------------------------- call graph
def callee_name(t):
    return t["f"].get("rpath") or t["f"].get("path") or ""


def closure_keys(d, body):
    """keys of the closures a body constructs"""
    for _, s in stmts(body):
        if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "closure":
            k = d["types"][s[2][3]].get("key")
            if k:
                yield k


def fn_values(d, body):
    """keys of functions used as values (passed to calls by path)"""
    for t in body["locals"]:
        j = d["types"][t]
        if j["k"] == "fndef" and j["callee"].get("key"):
            yield j["callee"]["key"]
    for _, t in terms(body):
        if t["k"] == "call":
            for a in list(t.get("at", ())) + list(t["f"].get("args", ())) + list(t["f"].get("rargs", ())):
                if not isinstance(a, int):
                    continue
                j = d["types"][a]
                if j["k"] == "fndef" and j["callee"].get("key"):
                    yield j["callee"]["key"]
                if j["k"] == "closure" and j.get("key"):
                    yield j["key"]


def call_graph(d):
    g = {}
    for key, b in d["bodies"].items():
        out = set()
        for _, t in terms(b):
            f = t["f"] if t["k"] == "call" else None
            while f:
                if f.get("key") in d["bodies"]:
                    out.add(f["key"])
                f = f.get("via")
        for k in list(closure_keys(d, b)) + list(fn_values(d, b)):
            if k in d["bodies"]:
                out.add(k)
        g[key] = out
    return g


def sccs(nodes, succ):
    """strongly connected components with a cycle"""
    idx, low, on, st, out = {}, {}, set(), [], []
    cnt = [0]
    nodes = set(nodes)
    for root in sorted(nodes, key=str):
        if root in idx:
            continue
        work = [(root, iter(sorted((x for x in succ(root) if x in nodes), key=str)))]
        idx[root] = low[root] = cnt[0]
        cnt[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted((x for x in succ(w) if x in nodes), key=str))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in set(succ(v)):
                        out.append(c)
    return out


# ---------------------------------------------------------------- loops
def succ(body, b):
    t = body["blocks"][b]["t"]
    k = t["k"]
    if k in ("goto", "drop", "assert"):
        return [t["t"]]
    if k == "call":
        return [] if t["t"] is None else [t["t"]]
    if k == "switch":
        return list(dict.fromkeys([x[1] for x in t["ts"]] + [t["o"]]))
    return []


INFINITE = {"core::iter::sources::repeat::Repeat", "core::iter::sources::repeat_with::RepeatWith", "core::iter::adapters::cycle::Cycle", "core::iter::sources::successors::Successors",
            "core::ops::range::RangeFrom"}
UNKNOWN = {"core::iter::sources::from_fn::FromFn"}
INNER = {"map::Map", "filter::Filter", "filter_map::FilterMap", "enumerate::Enumerate", "skip::Skip", "peekable::Peekable", "inspect::Inspect", "cloned::Cloned", "copied::Copied", "rev::Rev", "step_by::StepBy",
         "fuse::Fuse", "flatten::Flatten", "flatten::FlatMap", "skip_while::SkipWhile", "by_ref_sized::ByRefSized"}
CUT = {"take_while::TakeWhile", "map_while::MapWhile", "scan::Scan"}


def finite(d, ty):
    """True: every iteration over a value of this type ends; False: it never does by itself; None: not known"""
    j = d["types"][ty]
    if j["k"] == "ref":
        return finite(d, j["e"])
    if j["k"] != "adt":
        return True
    p = j["path"]
    if p in INFINITE:
        return False
    if p in UNKNOWN:
        return None
    short = "::".join(p.split("::")[-2:])
    if not p.startswith("core::iter::adapters"):
        return True
    a = j["args"]
    if short == "take::Take":
        return True
    if short == "zip::Zip":
        x, y = finite(d, a[0]), finite(d, a[1])
        return True if x or y else None if x is None or y is None else False
    if short == "chain::Chain":
        x, y = finite(d, a[0]), finite(d, a[1])
        return False if x is False or y is False else x and y
    if short in CUT:
        x = finite(d, a[0])
        if x is False and d["types"][a[0]].get("path") == "core::ops::range::RangeFrom":
            return None
        return x
    if short in INNER:
        return finite(d, a[0])
    return True


def base_of(body, op, depth=0):
    """the local behind an operand that is a (re)borrowed reference"""
    if op[0] not in ("mv", "cp", "copy", "move"):
        return None
    l = op[1]["l"]
    if [p for p in op[1]["p"] if p[0] != "d"]:
        return None
    while depth < 8:
        depth += 1
        defs = [s for _, s in stmts(body) if s[0] == "=" and s[1]["l"] == l and not s[1]["p"]]
        if len(defs) != 1:
            return l
        rv = defs[0][2]
        if rv[0] == "ref" and not [p for p in rv[2]["p"] if p[0] != "d"]:
            l = rv[2]["l"]
        elif rv[0] == "use" and rv[1][0] in ("mv", "cp", "copy", "move") and not [p for p in rv[1][1]["p"] if p[0] != "d"]:
            l = rv[1][1]["l"]
        else:
            return l
    return l


def writes(body, blocks):
    """locals assigned as a whole in some blocks"""
    out = set()
    for b in blocks:
        bb = body["blocks"][b]
        for s in bb["s"]:
            if s[0] == "=" and not s[1]["p"]:
                out.add(s[1]["l"])
        t = bb["t"]
        if t["k"] == "call" and not t["d"]["p"]:
            out.add(t["d"]["l"])
    return out


def next_sites(d, body, comp):
    """(block, iterator type, finite?) of every iterator step in a component whose exhaustion leaves it"""
    w = writes(body, comp)
    for b in sorted(comp):
        t = body["blocks"][b]["t"]
        if t["k"] != "call" or t["t"] is None:
            continue
        f = t["f"]
        last = (f.get("path") or "").split("::")[-1]
        if last not in ("next", "next_back", "next_key", "next_element", "next_entry") or not f.get("args"):
            continue
        base = base_of(body, t["a"][0]) if t["a"] else None
        if base is None or base in w:
            continue
        # exhaustion leaves the loop
        cur, left, dest = t["t"], None, {t["d"]["l"]}
        for _ in range(8):
            for s in body["blocks"][cur]["s"]:
                if s[0] == "=" and s[2][0] == "use" and s[2][1][0] in ("mv", "cp", "copy", "move") and s[2][1][1]["l"] in dest:
                    dest.add(s[1]["l"])
            x = body["blocks"][cur]["t"]
            if x["k"] == "switch":
                dl = x["d"][1]["l"] if x["d"][0] in ("mv", "cp", "copy", "move") else None
                src = [s for s in body["blocks"][cur]["s"] if s[0] == "=" and s[1]["l"] == dl and s[2][0] == "discr"]
                if src:
                    j = d["types"][body["locals"][src[-1][2][1]["l"]]]
                    flow = j.get("path", "")
                    want = "1" if flow.endswith("ControlFlow") else "0"
                    if flow == "core::result::Result":
                        want = "0"
                    tgt = dict((k, v) for k, v in x["ts"]).get(want, x["o"])
                    if tgt not in comp:
                        left = True
                        break
                    if flow == "core::result::Result" or flow.endswith("ControlFlow"):
                        # Ok / Continue carries the option, looked at next
                        tgt = dict((k, v) for k, v in x["ts"]).get("0", x["o"])
                        cur = tgt
                        continue
                    left = False
                break
            if x["k"] in ("goto", "drop") or (x["k"] == "call" and x["t"] is not None):
                cur = x["t"]
                if cur not in comp:
                    left = None
                    break
                continue
            break
        yield b, f["args"][0], finite(d, f["args"][0]), left


def _local(op):
    return op[1]["l"] if op[0] in ("mv", "cp") and not op[1]["p"] else None


def _defs(body, blocks, l):
    """(block, rvalue) of the assignments to a local; calls give None"""
    out = []
    for b in blocks:
        bb = body["blocks"][b]
        out += [(b, s[2]) for s in bb["s"] if s[0] == "=" and s[1]["l"] == l and not s[1]["p"]]
        if bb["t"]["k"] == "call" and bb["t"]["d"]["l"] == l and not bb["t"]["d"]["p"]:
            out.append((b, None))
    return out


def _origin(body, comp, l):
    """through copies"""
    live = [b for b in range(len(body["blocks"])) if not body["blocks"][b].get("c")]
    for _ in range(8):
        ds = _defs(body, live, l)
        if len(ds) == 1 and ds[0][1] is not None and ds[0][1][0] == "use" and _local(ds[0][1][1]) is not None:
            l = _local(ds[0][1][1])
        else:
            break
    return l


def _step(body, comp, l, rv):
    """+1 / -1 when the right-hand side is l plus / minus a non-zero constant"""
    if rv is None:
        return 0
    if rv[0] == "use" and rv[1][0] in ("mv", "cp") and rv[1][1]["p"] and rv[1][1]["p"][0][:2] == ["f", 0]:
        ds = _defs(body, comp, rv[1][1]["l"])
        if len(ds) != 1 or ds[0][1] is None:
            return 0
        rv = ds[0][1]
    elif rv[0] == "use" and _local(rv[1]) is not None:
        ds = _defs(body, comp, _local(rv[1]))
        return _step(body, comp, l, ds[0][1]) if len(ds) == 1 and ds[0][1] is not None and ds[0][1][0] != "use" else 0
    if rv[0] in ("bin", "cbin", "chk") and len(rv) > 3:
        op = rv[1]
        if rv[3][0] == "c" and rv[3][1].get("v") not in (None, "0") and _local(rv[2]) is not None and _origin(body, comp, _local(rv[2])) == l:
            return 1 if op.startswith("Add") else -1 if op.startswith("Sub") else 0
    return 0


def int_test(d, body, b):
    """(op, left local or None, right local or None) of the integer comparison a block switches on"""
    t = body["blocks"][b]["t"]
    if t["k"] != "switch":
        return None
    dl = _local(t["d"])
    for s in reversed(body["blocks"][b]["s"]):
        if s[0] == "=" and s[1]["l"] == dl and s[2][0] == "bin" and s[2][1] in ("Lt", "Le", "Gt", "Ge", "Ne", "Eq"):
            if isinstance(s[2][4], int) and d["types"][s[2][4]]["k"] not in ("int", "uint"):
                return None
            return s[2][1], _local(s[2][2]), _local(s[2][3])
    return None


def counted(d, body, comp):
    """blocks that move an integer towards the bound it is tested against at an exit"""
    for b in sorted(comp):
        outs = [x for x in succ(body, b) if x not in comp]
        it = int_test(d, body, b) if outs else None
        if it is None:
            continue
        op, x, y = it
        t = body["blocks"][b]["t"]
        false_out = dict((k, v) for k, v in t["ts"]).get("0", t["o"]) not in comp
        if op in ("Gt", "Ge"):
            op, x, y = {"Gt": "Lt", "Ge": "Le"}[op], y, x
        # stays in the loop while x op y (or its negation)
        up, down = (x, y) if false_out else (y, x)
        if op in ("Eq",) or (op == "Ne" and not false_out):
            continue
        for l, sign in ((up, 1), (down, -1)):
            if l is None:
                continue
            l = _origin(body, comp, l)
            other = down if sign == 1 else up
            ds = _defs(body, comp, l)
            if ds and all(_step(body, comp, l, rv) == sign for _, rv in ds):
                if other is None or not _defs(body, comp, _origin(body, comp, other)) or op == "Lt" or op == "Le":
                    if other is not None and _defs(body, comp, _origin(body, comp, other)):
                        continue
                    return b, {q for q, _ in ds}
    return None


def from_floats(d, body, comp, op, depth):
    """the operand is computed in the loop from floating point values only"""
    if depth > 12:
        return False
    if op[0] not in ("mv", "cp", "copy", "move"):
        return False
    l = op[1]["l"]
    k = d["types"][body["locals"][l]]["k"]
    got = False
    for b in range(len(body["blocks"])):
        bb = body["blocks"][b]
        if bb.get("c"):
            continue
        for s in bb["s"]:
            if s[0] == "=" and s[1]["l"] == l and not s[1]["p"]:
                rv = s[2]
                if rv[0] == "bin":
                    tj = d["types"][rv[4]]["k"] if isinstance(rv[4], int) else None
                    if tj == "float":
                        got = True
                        continue
                    if tj == "bool" and all(from_floats(d, body, comp, o, depth + 1) or o[0] == "c" for o in rv[2:4]):
                        got = True
                        continue
                    return False
                if rv[0] == "un" and from_floats(d, body, comp, rv[2], depth + 1):
                    got = True
                    continue
                if rv[0] == "use" and rv[1][0] == "c" and k == "bool":
                    continue
                if rv[0] == "use" and from_floats(d, body, comp, rv[1], depth + 1):
                    got = True
                    continue
                return False
        t = bb["t"]
        if t["k"] == "call" and t["d"]["l"] == l and not t["d"]["p"]:
            kinds = [value_kind(d, a) for a in t.get("at", ())]
            if k == "bool" and kinds and all(x == "float" for x in kinds):
                got = True
                continue
            return False
    return got


def value_kind(d, ty):
    j = d["types"][ty]
    while j["k"] == "ref":
        j = d["types"][j["e"]]
    if j["k"] == "float" or (j["k"] == "adt" and j["path"].startswith("nalgebra::")):
        return "float"
    return j["k"]


def loops(d, body):
    """(component, verdict, detail) of every loop, inner ones after the block that bounds the outer one is cut; verdict: True bounded, False unbounded, None unknown"""
    live = [b for b in range(len(body["blocks"])) if not body["blocks"][b].get("c")]

    def go(nodes):
        for comp in sccs(nodes, lambda b: succ(body, b)):
            best, why = None, None
            for b, ty, fin, left in next_sites(d, body, comp):
                if fin and left:
                    # rounds that avoid this step are loops of the rest, looked at on their own
                    best, why = b, "iterates over %s" % d["types"][ty]["s"][:120]
                    break
            if best is None:
                c = counted(d, body, comp)
                if c is not None:
                    yield comp, True, "counts an integer to its bound"
                    # rounds that avoid the test or the counting are loops of the rest
                    yield from go(comp - {c[0]})
                    yield from go(comp - c[1])
                    continue
            if best is not None:
                yield comp, True, why
                yield from go(comp - {best})
                continue
            if float_only_exits_or_infinite(d, body, comp):
                yield comp, False, "no exit of the loop is bounded by a count or a finite sequence"
            else:
                yield comp, None, "the exits of the loop are not recognised"
    yield from go(live)


def float_only_exits_or_infinite(d, body, comp):
    """exits decided by floats, or by the exhaustion of a sequence that is never exhausted"""
    inf = {b for b, ty, fin, left in next_sites(d, body, comp) if fin is False}
    for b in sorted(comp):
        t = body["blocks"][b]["t"]
        outs = [x for x in succ(body, b) if x not in comp and body["blocks"][x]["t"]["k"] != "unreach"]
        if not outs or t["k"] == "assert":
            continue
        if t["k"] != "switch":
            return False
        if from_floats(d, body, comp, t["d"], 0):
            continue
        it = int_test(d, body, b)
        if it is not None and (it[1] is None or not _defs(body, comp, _origin(body, comp, it[1]))) and (it[2] is None or not _defs(body, comp, _origin(body, comp, it[2]))):
            # an integer test that nothing in the loop changes
            continue
        # discriminant of the result of an infinite iterator
        dl = t["d"][1]["l"] if t["d"][0] in ("mv", "cp", "copy", "move") else None
        src = [s for s in body["blocks"][b]["s"] if s[0] == "=" and s[1]["l"] == dl and s[2][0] == "discr"]
        if src and any(body["blocks"][x]["t"]["d"]["l"] == src[-1][2][1]["l"] for x in inf):
            continue
        return False
    return True
