"""C28: results are a function of the arguments."""
from vlib import graph
from vlib.dump import CRATES
from vlib.spec import *

TECHNIQUE = "effect analysis of the compiled program: every static, every type's stored fields, every unsafe block, every call of every function body, and a taint analysis of what is decided by the logging level"
RULE = ("no static is mutable or has interior mutability, no type of the interface stores a cell, a lock or an atomic, there is no unsafe code, no body calls a clock, random source, environment, file, process, thread or "
        "network routine, walks a randomly ordered hash table or turns an address into a number, and neither a result nor anything written through a reference depends on the logging level")
FLOOR = 40
TRUSTED = ("nalgebra, arrayvec, num-traits, float-ord and the core library compute functions of their arguments", "functions passed in by the caller are the caller's business")
EFFECT = ("std::time::", "std::env::", "std::fs::", "std::io::stdio::", "std::io::", "std::process::", "std::thread::", "std::net::", "std::os::", "std::random::", "std::sys::", "core::random::",
          "rand::", "rand_core::", "getrandom::", "fastrand::", "libc::", "std::hash::random::RandomState::new", "chrono::", "core::arch::")
PURE = ("std::io::error::",)
CELLS = ("core::cell::", "std::cell::", "core::sync::atomic::", "std::sync::", "spin::", "once_cell::", "lazy_static::", "parking_lot::", "core::pin::unsafe_pinned")
# computed once, the same for everybody
LAZY = ("std::sync::lazy_lock::LazyLock", "std::sync::once_lock::OnceLock", "std::sync::LazyLock", "std::sync::OnceLock", "once_cell::sync::Lazy", "once_cell::sync::OnceCell")
HASHED = ("std::collections::hash::map::", "std::collections::hash::set::")
WALK = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "retain", "next", "extract_if", "fmt", "extend", "collect"}
LEVEL = ("log::max_level", "log::logger", "log::__private_api::enabled", "log::Log::enabled", "log::log_enabled")
QUIET = ("log::", "core::fmt::", "alloc::fmt::", "<log::", "core::panic::", "alloc::string::", "<alloc::string::", "<T as alloc::string")


def short(p):
    return p.split("::<")[0]


def bodies(ctx):
    lib = set(CRATES)
    for c in CRATES:
        for key, b in ctx.D[c]["bodies"].items():
            if b["crate"] == c or (b["crate"] in lib and key not in ctx.D[b["crate"]]["bodies"]):
                yield c, ctx.D[c], key, b


def names(t):
    f = t["f"]
    while f:
        for k in ("rpath", "path"):
            if f.get(k):
                yield f[k].lstrip("<")
        f = f.get("via")


def effects(ctx):
    for c, d, key, b in bodies(ctx):
        ctx.fns.add(b["path"])
        bad = 0
        for _, t in graph.terms(b):
            if t["k"] != "call":
                continue
            ctx.count("calls")
            sp = t.get("sp") or b["span"]
            for p in dict.fromkeys(names(t)):
                last = p.rsplit("::", 1)[-1]
                if p.startswith(EFFECT) and not p.startswith(PURE) or "::LocalKey" in p:
                    ctx.violate("effect in %s" % b["path"], "%s calls %s: what it returns or does depends on more than its arguments" % (b["path"], short(p)), sp)
                    bad = 1
                elif p.startswith(HASHED) and last in WALK:
                    ctx.violate("effect in %s" % b["path"], "%s walks a hash table in its random order (%s)" % (b["path"], short(p)), sp)
                    bad = 1
                elif last in ("addr", "expose_provenance") and ("core::ptr::" in p):
                    ctx.violate("effect in %s" % b["path"], "%s uses the address of a value as a number" % b["path"], sp)
                    bad = 1
                elif "hash::map::HashMap" in p and last in WALK and "RandomState" in str([d["types"][x].get("s") for x in t.get("at", ()) if isinstance(x, int)]):
                    ctx.violate("effect in %s" % b["path"], "%s walks a hash table in its random order (%s)" % (b["path"], short(p)), sp)
                    bad = 1
            if t["f"].get("unsafe") and not next(names(t), "").startswith(("core::fmt::", "log::")):
                ctx.violate("unsafe in %s" % b["path"], "%s calls the unsafe function %s" % (b["path"], next(names(t), "?")), sp)
                bad = 1
        for _, s in graph.stmts(b):
            if s[0] == "=" and s[2][0] == "cast" and "Expose" in str(s[2][1]):
                ctx.violate("effect in %s" % b["path"], "%s turns an address into a number" % b["path"], s[-1])
                bad = 1
        r = level(d, b)
        if r:
            ctx.violate("logging in %s" % b["path"], "%s: %s depends on the logging level" % (b["path"], r[0]), r[1])
            bad = 1
        elif r is not None:
            ctx.count("logging branches that decide nothing else")
        if not bad:
            ctx.ok("effects of %s" % b["path"])


# ---------------------------------------------------------------- what the logging level decides
def places(x, out):
    """locals read by a nested rvalue or operand"""
    if isinstance(x, dict):
        if "l" in x:
            out.add(x["l"])
            for q in x.get("p", ()):
                places(q, out)
        else:
            for v in x.values():
                places(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            places(v, out)
    return out


def region(b, s):
    """blocks between a branch and where its ways meet again"""
    pd = postdoms(b)
    meet = None
    for x in pd[s] - {s}:
        # the nearest: postdominated by every other
        if all(y in pd[x] for y in pd[s] - {s}):
            meet = x
    out, st = set(), [x for x in graph.succ(b, s) if x != meet]
    while st:
        x = st.pop()
        if x in out or x == meet:
            continue
        out.add(x)
        st += graph.succ(b, x)
    return out


def postdoms(b):
    if "_pd" in b:
        return b["_pd"]
    n = len(b["blocks"])
    live = [i for i in range(n) if not b["blocks"][i].get("c")]
    ends = [i for i in live if not graph.succ(b, i)]
    full = set(live) | {-1}
    pd = {i: set(full) for i in live}
    pd[-1] = {-1}
    nx = {i: (graph.succ(b, i) or [-1]) for i in live}
    ch = True
    while ch:
        ch = False
        for i in reversed(live):
            new = set.intersection(*[pd.get(s, {-1}) for s in nx[i]]) | {i}
            if new != pd[i]:
                pd[i] = new
                ch = True
    b["_pd"] = pd
    return pd


def level(d, b):
    """None: the level is not asked for; (): it decides nothing but what is logged; (what, span): it decides that"""
    src = [(i, t) for i, t in graph.terms(b) if t["k"] == "call" and any(p.startswith(LEVEL) for p in names(t))]
    if not src:
        return None
    T_, blocks = {t["d"]["l"] for _, t in src}, set()
    bad = None
    ch = True
    while ch:
        ch = False

        def add(l):
            nonlocal ch
            if l not in T_:
                T_.add(l)
                ch = True
        for i, bb in enumerate(b["blocks"]):
            if bb.get("c"):
                continue
            inside = i in blocks
            for s in bb["s"]:
                if s[0] != "=":
                    continue
                pl, rv = s[1], s[2]
                if rv[0] == "use" and rv[1][0] == "c" and rv[1][1].get("k") == "zst":
                    continue
                if inside or places(rv, set()) & T_:
                    if any(isinstance(q, (list, tuple)) and q and q[0] == "d" for q in pl.get("p", ())):
                        # written through a reference: fine for a local of the region, otherwise seen from outside
                        if pl["l"] not in T_ or inside and not local_only(b, pl["l"], blocks):
                            bad = bad or ("what is written through a reference", s[-1])
                    add(pl["l"])
            t = bb["t"]
            if t["k"] == "call":
                ps = list(names(t))
                a = places(t["a"], set())
                if inside or a & T_ or i in [x for x, _ in src]:
                    if d["types"][t["dt"]].get("s") not in ("()", "!"):
                        add(t["d"]["l"])
                    if inside and not any(p.startswith(QUIET) for p in ps):
                        for o, ty in zip(t["a"], t.get("at", ())):
                            tj = d["types"][ty] if isinstance(ty, int) else {}
                            if tj.get("k") == "ref" and tj.get("mut") and not all(local_only(b, l, blocks) for l in places(o, set())):
                                # a value from outside the logging is handed over to be changed
                                bad = bad or ("what %s changes" % short(next(iter(ps), "?")), t.get("sp") or b["span"])
            elif t["k"] == "switch":
                if places(t, set()) & T_:
                    new = region(b, i) - blocks
                    if new:
                        blocks |= new
                        ch = True
            elif t["k"] == "return" and inside:
                bad = bad or ("whether it returns", b["span"])
    if 0 in T_:
        bad = bad or ("the result", b["span"])
    return bad or ()


def local_only(b, l, blocks):
    """the local is assigned only inside the given blocks, from values that are"""
    got = False
    for i, bb in enumerate(b["blocks"]):
        if bb.get("c"):
            continue
        for s in bb["s"]:
            if s[0] == "=" and s[1]["l"] == l:
                got = True
                if i not in blocks:
                    return False
                rv = s[2]
                if rv[0] == "ref":
                    x = rv[2]["l"]
                    if x != l and not local_only(b, x, blocks):
                        return False
                elif rv[0] == "use":
                    for x in places(rv, set()):
                        if x != l and not local_only(b, x, blocks):
                            return False
        t = bb["t"]
        if t["k"] == "call" and t["d"]["l"] == l:
            got = True
            if i not in blocks:
                return False
    return got


# ---------------------------------------------------------------- storage
def cells(d, adts, s, seen):
    """the cell type a stored type contains, looking through the crate's own types"""
    for x in CELLS:
        if x in s:
            return s[s.index(x):].split("<")[0].split(",")[0].split(">")[0]
    for p, a in adts.items():
        if p in s and p not in seen:
            seen.add(p)
            for v in a["variants"]:
                for f in v["fields"]:
                    r = cells(d, adts, f["ty"], seen)
                    if r:
                        return r
    return None


def storage(ctx):
    adts = {}
    for c in CRATES:
        for i in ctx.D[c]["items"]:
            if i["k"] == "adt":
                adts[i["path"]] = i
    for c in CRATES:
        d = ctx.D[c]
        for i in d["items"]:
            if i["k"] == "static":
                nm = "static %s" % i["path"]
                if i["mut"]:
                    ctx.violate(nm, "%s is a mutable static" % i["path"], i["span"])
                elif not i["freeze"] and not any(x in i["ty"] for x in LAZY):
                    ctx.violate(nm, "%s is a static that can change (%s): calls are not independent of each other" % (i["path"], i["ty"]), i["span"])
                elif not i["freeze"]:
                    ctx.undecided(nm, "a value computed once on first use")
                else:
                    ctx.ok(nm)
            if i["k"] == "adt" and i.get("reach"):
                bad = None
                for v in i["variants"]:
                    for f in v["fields"]:
                        bad = bad or (cells(d, adts, f["ty"], {i["path"]}) and (f["name"], cells(d, adts, f["ty"], {i["path"]})))
                nm = "fields of %s" % i["path"]
                if bad:
                    ctx.violate(nm, "%s stores a %s in %s, which changes behind a shared reference" % (i["path"], bad[1], bad[0]), i["span"])
                else:
                    ctx.ok(nm)
        if d["unsafe"]:
            for u in d["unsafe"]:
                if "|macro" in u:
                    ctx.undecided("unsafe code in %s" % c, "in the expansion of a macro at %s" % u.split("|")[0])
                else:
                    ctx.violate("unsafe code in %s" % c, "an unsafe block in %s" % c, u)
        else:
            ctx.ok("unsafe code in %s" % c)
        # a thread-local key is a constant of that type
        tl = [t.get("s") for t in d["types"] if t.get("path") == "std::thread::local::LocalKey" or "thread::local::LocalKey" in str(t.get("s", ""))]
        if tl:
            ctx.violate("thread-local state in %s" % c, "%s keeps thread-local state (%s)" % (c, tl[0]), "")
        else:
            ctx.ok("thread-local state in %s" % c)


def check(ctx):
    with ctx.part("storage"):
        storage(ctx)
    with ctx.part("effects"):
        effects(ctx)
