"""Obligation bookkeeping, verdicts, evidence and known findings for one property check."""
import contextlib
import hashlib
import json
import os
import signal
import sys
import time
import traceback
from . import alg, witness
from .alg import N, T, F
from .values import *
from .interp import Interp, Ty, Unsupported, Diverge
from .dump import get_dump, BuildError, VERIF, REPO, CRATES

EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.txt")


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout("time limit of one analysis")


class Res:
    def __init__(self, value, state, ip, args, root):
        self.value, self.state, self.ip, self.args, self.root = value, state, ip, args, root

    def after(self, i):
        """value behind a `&mut` argument when the function returns"""
        return self.state.m.get(("arg", i))

    def read(self, v):
        return self.ip.strip(self.state, v)

    @property
    def pc(self):
        """condition under which the function returns"""
        return self.state.pc if self.state is not None else F


class Ctx:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.broken = False
        self.obl = []           # (name, status, note)
        self.viol = []          # (key, text, where)
        self.fns = set()
        self.analysed = []
        self.notes = []
        self.counts = {}
        self.D = get_dump()
        self.rootidx = {c: {} for c in self.D}
        for c, d in self.D.items():
            for r in d["roots"]:
                self.rootidx[c].setdefault(r["path"], r)
        self.limit = 100 if tier == "quick" else 600

    # ------------------------------------------------------------ anchors
    def find(self, crate, path):
        return self.rootidx[crate].get(path)

    def roots(self, crate=None, pred=None):
        for c in ([crate] if crate else CRATES):
            for r in self.D[c]["roots"]:
                if pred is None or pred(r):
                    yield c, r

    def anchor(self, crate, path):
        r = self.find(crate, path)
        if r is None:
            self.violate("anchor:%s" % path, "public operation `%s` of crate %s is missing, the property has nothing to hold on" % (path, crate), "")
        return r

    def where(self, root):
        return root["span"]

    def adt(self, crate, path):
        for it in self.D[crate]["items"]:
            if it["k"] == "adt" and it["path"] == path:
                return it
        return None

    def fields(self, path):
        for c in CRATES:
            a = self.adt(c, path)
            if a is not None:
                return [f["name"] for f in a["variants"][0]["fields"]]
        raise KeyError("type %s" % path)

    def fld(self, v, *names):
        """field of a struct value by name"""
        for n in names:
            while isinstance(v, Ref):
                v = v.v
            v = v.f[self.fields(v.tag).index(n)]
        return v

    def mk(self, path, **kw):
        """struct value by field names"""
        fs = self.fields(path)
        if set(fs) != set(kw):
            raise KeyError("fields of %s are %s" % (path, fs))
        return Agg(path, [kw[f] for f in fs])

    def upd(self, v, **kw):
        while isinstance(v, Ref):
            v = v.v
        fs = self.fields(v.tag)
        for k in kw:
            if k not in fs:
                raise KeyError("%s has no field %s" % (v.tag, k))
        return Agg(v.tag, [kw.get(f, x) for f, x in zip(fs, v.f)])

    def ty(self, crate, path, i):
        """type of the i-th argument of a function (None: its result)"""
        r = self.find(crate, path)
        return Ty(self.D[crate], r["output"] if i is None else r["inputs"][i])

    def tj(self, crate, tid):
        return self.D[crate]["types"][tid]

    @contextlib.contextmanager
    def part(self, name):
        """one section of a check: an unforeseen form of the code leaves this section undecided, and only it"""
        try:
            yield
        except (Unsupported, alg.TooBig, Diverge, Timeout, RecursionError, AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError, MemoryError) as e:
            self.broken = True
            self.undecided(name, "%s: %s" % (type(e).__name__, str(e)[:200]))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()

    def same(self, a, b):
        ps, bad = flatten_pairs(a, b)
        return bad is None and all(alg.same(x, y, u) for _, x, y, u in ps)

    # ------------------------------------------------------------ analysis
    def interp(self, crate, hooks=None, unroll=None):
        ip = Interp(self.D, crate, hooks)
        if unroll is not None:
            ip.unroll = unroll
        return ip

    def fresh_args(self, ip, crate, root, over=None):
        over = over or {}
        d = self.D[crate]
        return [over[i] if i in over else ip.fresh(Ty(d, t), "a%d" % i) for i, t in enumerate(root["inputs"])]

    def run(self, crate, path, over=None, hooks=None, unroll=None, pc=T, optional=False, key=None, limit=None, ip=None, quiet=False):
        """abstractly interpret a function on symbolic arguments; None when the analysis does not apply"""
        root = self.find(crate, path) if optional else self.anchor(crate, path)
        if root is None:
            return None
        ip = ip or self.interp(crate, hooks, unroll)
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit or self.limit)
        try:
            args = self.fresh_args(ip, crate, root, over)
            v, st = ip.analyse(key or root["key"], args, pc)
            signal.alarm(0)
        except (Unsupported, alg.TooBig, Diverge, Timeout, RecursionError, AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError, MemoryError) as e:
            signal.alarm(0)
            self.last_error = e
            if not quiet:
                self.undecided("analyse %s" % path, "%s: %s (%s)" % (type(e).__name__, str(e)[:160], getattr(e, "where", "")))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            return None
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        self.fns |= ip.fns_seen
        self.analysed.append(path)
        return Res(v, st, ip, args, root)

    # ------------------------------------------------------------ obligations
    def ok(self, name, note=""):
        self.obl.append((name, "proved", note))

    def undecided(self, name, why):
        self.obl.append((name, "undecided", why))

    def violate(self, key, text, where):
        self.obl.append((key, "violated", text))
        self.viol.append((key, text, where))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def holds(self, name, cond, text, where=""):
        """a syntactic or graph fact that is either true or a definite violation"""
        if cond:
            self.ok(name)
        else:
            self.violate(name, text, where)
        return bool(cond)

    def eq(self, name, got, want, where="", under=T, uf=False, ranges=None, text=None, fix=None, tries=None):
        """abstract values equal wherever `under` holds"""
        pairs, bad = flatten_pairs(got, want)
        if bad is not None:
            kind, msg = bad
            if kind == "shape":
                self.violate(name, (text + ": " if text else "") + msg, where)
                return False
            self.undecided(name, msg)
            return None
        res = True
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.limit)
        try:
            todo = []
            late = None
            try:
                for n_, (p, a, b, u) in enumerate(pairs):
                    uu = alg.band(under, u)
                    if uu is F:
                        continue
                    if alg.same(a, b, uu):
                        continue
                    try:
                        if alg.differs(a, b, uu) is F:
                            continue
                    except alg.TooBig:
                        pass
                    todo.append((p, a, b, uu))
            except (Timeout, alg.TooBig) as e:
                # not settled by normal forms in time: look for a valuation all the same
                late = e
                todo += [(p, a, b, alg.band(under, u)) for p, a, b, u in pairs[n_:]]
                signal.alarm(self.limit)
            if not todo:
                self.ok(name)
                return True
            for p, a, b, uu in todo:
                info, seen = witness.refute(a, b, uu, seed=self.seed, uf=uf, ranges=ranges, fix=fix, tries=tries or (60 if self.tier == "quick" else 200))
                if info is not None:
                    self.violate(name, "%s%s: component %s is %s where the specification gives %s (e.g. %s gives %s instead of %s)" % (
                        text + ": " if text else "", where.split(":")[0], p, alg.show(a, 3)[:400], alg.show(b, 3)[:400],
                        ", ".join("%s=%s" % kv for kv in list(info["at"].items())[:12]), info["got"], info["want"]), where)
                    return False
                res = None
            self.undecided(name, "component %s: normal forms differ, no separating valuation (%d tried)" % (todo[0][0], seen) if late is None else "%s: %s" % (type(late).__name__, late))
            return None
        except (alg.TooBig, Timeout, Unsupported, RecursionError) as e:
            self.undecided(name, "%s: %s" % (type(e).__name__, e))
            return None
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def eq_any(self, name, got, wants, where="", under=T, uf=False, ranges=None, text=None):
        """equal to one of several forms of the same specification"""
        for w in wants:
            pairs, bad = flatten_pairs(got, w)
            if bad is None:
                try:
                    if all(alg.same(a, b, alg.band(under, u)) for _, a, b, u in pairs):
                        self.ok(name)
                        return True
                except alg.TooBig:
                    pass
        return self.eq(name, got, wants[0], where, under, uf, ranges, text)

    def true(self, name, cond, where="", under=T, uf=False, text=None, ranges=None):
        return self.eq(name, cond, T, where, under, uf, ranges, text)

    def accessors(self, crate, adt):
        """conversions and dereferencing of a one-field wrapper read and write the stored field itself"""
        n = 0
        short = adt.split("::")[-1]
        for c, q in self.roots(crate, lambda q: q["name"] in ("as_ref", "as_mut", "deref", "deref_mut", "from", "into") and len(q["inputs"]) == 1):
            ti, to = self.tj(c, q["inputs"][0]), self.tj(c, q["output"])
            mut = ti.get("k") == "ref" and ti.get("mut")
            if ti.get("k") == "ref":
                ti, to = self.tj(c, ti["e"]), self.tj(c, to["e"]) if to.get("k") == "ref" else to
            if adt not in (ti.get("path"), to.get("path")):
                continue
            a = self.adt(crate, adt)
            ft = a["variants"][0]["fields"][0]["ty"]
            other = to if ti.get("path") == adt else ti
            if other.get("s") != ft:
                continue
            r = self.run(c, q["path"])
            if not r:
                continue
            n += 1

            def un(v):
                v = r.read(v)
                while isinstance(v, Agg) and v.tag == adt:
                    v = r.read(v.f[0])
                return v
            self.eq("%s %s %s" % (short, q["name"], "&mut" if mut else ""), un(r.value), un(r.args[0]), q["span"])
        self.count("%s accessors" % short, n)

    # ------------------------------------------------------------ finish
    def findings(self):
        out = {}
        if os.path.exists(FINDINGS):
            for l in open(FINDINGS):
                l = l.strip()
                if l.startswith("finding: "):
                    rest = l[len("finding: "):]
                    d = dict(x.split("=", 1) for x in rest.split(" ")[:2])
                    if d["property"] == self.prop:
                        out[d["key"]] = rest.split(" ", 2)[2]
        return out

    def finish(self, technique, rule, floor=1, trusted=()):
        known = self.findings()
        att = len(self.obl)
        if att < floor and not self.broken:
            self.violate("floor", "only %d obligations were generated, at least %d are expected: the rule no longer sees the code it is about" % (att, floor), "")
        newv, seen = [], set()
        for key, text, where in self.viol:
            kk = key.replace(" ", "_")
            if kk in known:
                if kk not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, known[kk]))
                seen.add(kk)
            else:
                newv.append((key, text, where))
        st = {}
        for _, s, _ in self.obl:
            st[s] = st.get(s, 0) + 1
        os.makedirs(EVID, exist_ok=True)
        cov = dict(explanation="%s. Rule: %s" % (technique, rule),
                   obligations=att, discharged=st.get("proved", 0), undecided=st.get("undecided", 0), violated=st.get("violated", 0),
                   functions_analysed=sorted(self.fns), roots_analysed=sorted(set(self.analysed)),
                   obligation_list=[dict(name=n, status=s, **({"note": t[:300]} if t else {})) for n, s, t in self.obl][:400],
                   counts=self.counts, notes=self.notes[:50])
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="other", coverage=cov,
                  assumptions=list(trusted) or ["values are compared as real-number formulas: floating-point rounding is not modelled",
                                                "nalgebra, core, arrayvec and num-traits operations have the meaning given to them in vlib/models.py"],
                  wall_s=round(time.time() - self.t0, 2), violations=len(newv))
        with open(os.path.join(EVID, "%s.json" % self.prop), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d proved, %d undecided, %d violated; %d functions analysed; %.1fs" % (
            self.prop, att, st.get("proved", 0), st.get("undecided", 0), st.get("violated", 0), len(self.fns), time.time() - self.t0))
        for n, s, t in self.obl:
            if s == "undecided":
                print("  undecided: %s — %s" % (n, t[:300]))
        for key, text, where in newv:
            h = hashlib.sha1(key.encode()).hexdigest()[:10]
            rp = os.path.join(EVID, "%s-%s.txt" % (self.prop, h))
            with open(rp, "w") as f:
                f.write("property %s\nobligation %s\nat %s\n%s\n\nre-run: cd %s && ./check %s\n" % (self.prop, key, where, text, VERIF, self.prop))
            print("  %s [%s] %s" % (key, where, text[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        return 1 if newv else 0


def flatten_pairs(a, b, p="", u=T):
    """[(path, got, want, condition)], or ('shape'|'unknown', message)"""
    out = []

    def unref(x):
        while isinstance(x, Ref):
            x = x.v
        return x

    def go(x, y, p, u):
        if u is F:
            return None
        x, y = unref(x), unref(y)
        if x is None and y is None:
            return None
        if isinstance(x, N) and isinstance(y, N):
            out.append((p or "value", x, y, u))
            return None
        if isinstance(x, Mat) and isinstance(y, Mat):
            if (x.r, x.c) != (y.r, y.c):
                return "unknown", "%s: %dx%d against %dx%d" % (p, x.r, x.c, y.r, y.c)
            for i in range(x.r):
                for j in range(x.c):
                    out.append((p + ("[%d]" % i if x.c == 1 else "[%d,%d]" % (i, j)), x.at(i, j), y.at(i, j), u))
            return None
        if isinstance(x, Agg) and isinstance(y, Agg):
            # transparent single-field wrappers
            if len(x.f) == 1 and len(y.f) != 1 and x.tag != y.tag:
                return go(x.f[0], y, p, u)
            if len(x.f) != len(y.f):
                return "unknown", "%s: %s against %s" % (p, x.tag, y.tag)
            for i, (s, t) in enumerate(zip(x.f, y.f)):
                r = go(s, t, "%s.%d" % (p, i), u)
                if r:
                    return r
            return None
        if isinstance(x, Agg) and len(x.f) == 1 and not isinstance(y, Agg):
            return go(x.f[0], y, p, u)
        if isinstance(y, Agg) and len(y.f) == 1 and not isinstance(x, Agg):
            return go(x, y.f[0], p, u)
        if isinstance(x, Enum) and isinstance(y, Enum) and x.path == y.path:
            out.append((p + ".variant", x.discr, y.discr, u))
            px, py = x.payd(), y.payd()
            for k in set(px) | set(py):
                c = alg.band(u, is_variant(x, k), is_variant(y, k))
                if c is F or k not in px or k not in py:
                    continue
                for i, (s, t) in enumerate(zip(px[k], py[k])):
                    r = go(s, t, "%s.v%d.%d" % (p, k, i), c)
                    if r:
                        return r
            return None
        if isinstance(x, Lst) and isinstance(y, Lst):
            ix, iy = x.items(), y.items()
            if ix is not None and iy is not None:
                if len(ix) != len(iy):
                    return "shape", "%s has %d elements instead of %d" % (p or "the sequence", len(ix), len(iy))
                for i, (s, t) in enumerate(zip(ix, iy)):
                    r = go(s, t, "%s[%d]" % (p, i), u)
                    if r:
                        return r
                return None
            if len(x.segs) == len(y.segs) and all(s[0] == t[0] and (s[0] == "i" or s[2] == t[2]) for s, t in zip(x.segs, y.segs)):
                for i, (s, t) in enumerate(zip(x.segs, y.segs)):
                    if s[0] == "mu":
                        if s != t:
                            return "unknown", "unknown sequence"
                        continue
                    out.append(("%s[%d].present" % (p, i), s[1], t[1], u))
                    r = go(s[-1], t[-1], "%s[%d]" % (p, i), alg.band(u, s[1], t[1]))
                    if r:
                        return r
                return None
            return "unknown", "%s: sequences of different form" % p
        if type(x) is type(y) and x == y:
            return None
        return "unknown", "%s: %s against %s" % (p, type(x).__name__, type(y).__name__)
    bad = go(a, b, p, u)
    return out, bad
