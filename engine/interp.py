"""Forward abstract interpretation of MIR over the value-numbering domain of terms.py.

One pass per function body in reverse post order; states are merged at joins (gated phi),
every natural loop is collapsed to a summary (sums, comprehensions, quantified guards), so
no path is enumerated and nothing is executed or solved.
"""
import os, sys, time
from .terms import *
from . import terms as TM

MAX_DEPTH = 48


class Budget(Exception):
    pass


class Unsup(Exception):
    pass


# ---------------------------------------------------------------- program
class Program(object):
    def __init__(self, facts):
        self.crates = facts
        self.fns = {}
        self.types = {}
        self.adts = {}
        self.consts = {}
        self.impls = []
        self.derived = set()
        for c, F in facts.items():
            for f in F["fns"]:
                f["_c"] = c
                f["_types"] = F["types"]
                self.fns.setdefault(f["key"], f)
            for a in F["adts"]:
                self.adts[a["p"]] = a
                if len(a["v"]) > 1:
                    TM.ENUMS[a["p"]] = [x[0] for x in a["v"]]
            self.consts.update(F["consts"])
            for i in F["impls"]:
                i["_c"] = c
                self.impls.append(i)
        self._info = {}

    def fn(self, key):
        return self.fns.get(key)

    def info(self, f):
        k = f["key"]
        r = self._info.get(k)
        if r is None:
            r = FnInfo(f)
            self._info[k] = r
        return r


class FnInfo(object):
    """CFG, reverse post order, loops, liveness"""

    def __init__(self, f):
        self.f = f
        bb = f["bb"]
        n = len(bb)
        self.flags = self._dropflags(f)
        succ = [[] for _ in range(n)]
        for i, b in enumerate(bb):
            if b is None:
                continue
            succ[i] = self._succ(b["t"])
        self.succ = succ
        self.forced = {}
        # drop-flag switches: follow the branch that drops (it rejoins)
        for i, b in enumerate(bb):
            if b is None:
                continue
            t = b["t"]
            if t[0] == "switch":
                op = t[1]
                if op[0] in ("c", "m") and len(op[1]) == 1 and op[1][0] in self.flags:
                    tgt = None
                    for s in succ[i]:
                        x = s
                        if bb[x] is not None and bb[x]["t"][0] == "drop":
                            tgt = s
                    if tgt is None:
                        tgt = t[3]
                    self.forced[i] = tgt
                    succ[i] = [tgt]
        # rpo
        seen = set()
        order = []
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            u, itr = st[-1]
            for v in itr:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(succ[v])))
                    break
            else:
                order.append(u)
                st.pop()
        order.reverse()
        self.rpo = order
        self.pos = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                pred[s].append(b)
        self.pred = pred
        # dominators
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while self.pos[x] > self.pos[y]:
                                    x = idom[x]
                                while self.pos[y] > self.pos[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in order:
            for s in succ[b]:
                if self.dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stk.extend(pred[x])
        self._liveness()

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom.get(b)
            if n is None or n == b:
                return False
            b = n

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return list(dict.fromkeys([x[1] for x in t[2]] + [t[3]]))
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    @staticmethod
    def _dropflags(f):
        named = set()
        for nm, p in f.get("names", []):
            if isinstance(p, list) and p:
                named.add(p[0])
        assigns = {}
        bad = set()
        types = f["_types"]
        sw = set()
        for b in f["bb"]:
            if b is None:
                continue
            for p, r in b["s"]:
                if len(p) == 1:
                    if r[0] == "use" and r[1][0] == "k" and "v" in r[1][1]:
                        assigns.setdefault(p[0], 0)
                        assigns[p[0]] += 1
                    else:
                        bad.add(p[0])
                for o in _ops(r):
                    if o[0] in ("c", "m"):
                        bad.add(o[1][0])
            t = b["t"]
            if t[0] == "switch" and t[1][0] in ("c", "m") and len(t[1][1]) == 1:
                sw.add(t[1][1][0])
            elif t[0] == "call":
                for o in t[2]:
                    if o[0] in ("c", "m"):
                        bad.add(o[1][0])
                if len(t[3]) == 1:
                    bad.add(t[3][0])
        out = set()
        for l in sw:
            if l in assigns and l not in bad and l not in named and l > f["args"]:
                if types[f["locals"][l]] == "bool":
                    out.add(l)
        # flags form the tail of the locals
        res = set()
        for l in range(len(f["locals"]) - 1, -1, -1):
            if l in out or (l in assigns and l not in bad and l not in named and l not in sw and types[f["locals"][l]] == "bool"):
                res.add(l)
            else:
                break
        # a real temporary used for `a && b` is assigned on several paths and may also sit at
        # the tail; it is a flag only if every switch on it leads straight to a drop
        fin = set()
        for l in res & out:
            ok = True
            for b in f["bb"]:
                if b is None:
                    continue
                t = b["t"]
                if t[0] == "switch" and t[1][0] in ("c", "m") and t[1][1] == [l]:
                    tg = [x[1] for x in t[2]] + [t[3]]
                    if not any(f["bb"][x] is not None and f["bb"][x]["t"][0] == "drop" for x in tg):
                        ok = False
            if ok:
                fin.add(l)
        return fin

    def _liveness(self):
        f = self.f
        bb = f["bb"]
        borrowed = set()
        use = {}
        de = {}
        for i in self.rpo:
            u, d = set(), set()

            def rd(l):
                if l not in d:
                    u.add(l)

            b = bb[i]
            for p, r in b["s"]:
                for l in _rv_locals(r):
                    rd(l)
                if r[0] in ("ref", "raw") and r[1] == "mut":
                    pl = r[2]
                    if not (len(pl) > 1 and pl[1][0] in ("*", "*r")):
                        borrowed.add(pl[0])
                if len(p) == 1:
                    d.add(p[0])
                else:
                    rd(p[0])
                    for e in p[1:]:
                        if e[0] == "i":
                            rd(e[1])
            t = b["t"]
            if t[0] == "switch":
                for l in _op_locals(t[1]):
                    rd(l)
            elif t[0] == "assert":
                for l in _op_locals(t[1]):
                    rd(l)
                for o in t[3][1:]:
                    if isinstance(o, list):
                        for l in _op_locals(o):
                            rd(l)
            elif t[0] == "call":
                for o in [t[1]] + t[2]:
                    for l in _op_locals(o):
                        rd(l)
                p = t[3]
                if len(p) == 1:
                    d.add(p[0])
                else:
                    rd(p[0])
                    for e in p[1:]:
                        if e[0] == "i":
                            rd(e[1])
            elif t[0] == "ret":
                rd(0)
            use[i] = u
            de[i] = d
        live_in = {i: set() for i in self.rpo}
        ch = True
        while ch:
            ch = False
            for i in reversed(self.rpo):
                o = set()
                for s in self.succ[i]:
                    o |= live_in[s]
                n = use[i] | (o - de[i])
                if n != live_in[i]:
                    live_in[i] = n
                    ch = True
        self.borrowed = borrowed
        self.live_in = {i: live_in[i] | borrowed for i in self.rpo}


def _op_locals(o):
    if o[0] in ("c", "m"):
        yield o[1][0]
        for e in o[1][1:]:
            if e[0] == "i":
                yield e[1]


def _ops(r):
    k = r[0]
    if k in ("use", "repeat"):
        return [r[1]]
    if k == "cast":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "agg":
        return r[2]
    return []


def _rv_locals(r):
    for o in _ops(r):
        for l in _op_locals(o):
            yield l
    pl = None
    if r[0] in ("ref", "raw"):
        pl = r[2]
    elif r[0] == "reb":
        pl = r[1] if isinstance(r[1], list) else r[2]
    elif r[0] == "disc":
        pl = r[1]
    if pl:
        yield pl[0]
        for e in pl[1:]:
            if e[0] == "i":
                yield e[1]


# ---------------------------------------------------------------- state
class State(object):
    __slots__ = ("pc", "cur", "out", "own")

    def __init__(self, pc, cur, out):
        self.pc = pc
        self.cur = cur  # local -> term (current frame)
        self.out = out  # (fid, local) -> term (all outer frames), copy on write
        self.own = False

    def fork(self):
        s = State(self.pc, dict(self.cur), self.out)
        self.own = False
        return s

    def set_out(self, k, v):
        if not self.own:
            self.out = dict(self.out)
            self.own = True
        self.out[k] = v


class Event(object):
    __slots__ = ("kind", "pc", "data", "fn", "line", "span")

    def __init__(self, kind, pc, data, fn, line):
        self.kind = kind
        self.pc = pc
        self.data = data
        self.fn = fn
        self.line = line

    def __repr__(self):
        return "Event(%s %s @%s:%s if %s)" % (self.kind, self.data, self.fn, self.line, self.pc)


class Loc(object):
    """a mutable location: (frame id, local) + path"""


def mref(loc, path=()):
    return mk("mref", loc, tuple(path))


UNSIGNED = frozenset(["u8", "u16", "u32", "u64", "u128", "usize"])


class Interp(object):
    cast_hook = None

    def __init__(self, prog, models, leaf=None, events=(), budget=400000, seconds=240):
        self.prog = prog
        self.models = models
        self.leaf = leaf or {}
        self.want = set(events)
        self.budget = budget
        self.steps = 0
        self.deadline = time.time() + seconds
        self.events = []
        self.stack = []  # (fn key, frame id)
        self.fid = 0
        self.cur_fid = 0
        self.path = ()  # call path for rand sites
        self.bstack = []  # current iteration points
        self.rand_sites = {}
        self.visited = set()
        self.calls_seen = {}
        self.opaque_calls = {}
        self.noprom = {}
        self.memo = {}
        self.cut = None  # functions kept uninterpreted (they have contracts of their own)
        self.cur_fn = None
        self.cur_line = 0

    # ------------------------------------------------------------ root
    def run_root(self, key, args, mut_args=()):
        """args: list of terms. mut_args: indexes passed as &mut. -> (ret, {i: final}, pc)"""
        st = State(TRUE, {}, {})
        a = []
        for i, t in enumerate(args):
            if i in mut_args:
                st.set_out(("root", i), t)
                a.append(mref(("root", i)))
            else:
                a.append(t)
        f = self.prog.fn(key)
        if f is None:
            raise Unsup("no such function: " + key)
        ret = self.run_fn(f, a, st, 0)
        fin = {i: st.out[("root", i)] for i in mut_args}
        return ret, fin, st.pc

    # ------------------------------------------------------------ events
    def event(self, kind, st, data, line=None):
        if kind in self.want:
            self.events.append(Event(kind, st.pc, data, self.cur_fn, line if line is not None else self.cur_line))

    # ------------------------------------------------------------ locations
    def loc_get(self, st, loc):
        if loc[0] == self.cur_fid:
            return st.cur.get(loc[1], mk("undef"))
        return st.out.get(loc, mk("undef"))

    def loc_set(self, st, loc, v):
        if loc[0] == self.cur_fid:
            st.cur[loc[1]] = v
        else:
            st.set_out(loc, v)

    def read_ref(self, st, r):
        """value behind a reference term (shared references are transparent)"""
        if r.op == "mref":
            v = self.loc_get(st, r.a[0])
            return self.deref_all(st, self.read_path(v, r.a[1]))
        if r.op == "phi" and any(v.op == "mref" for c, v in r.a[0]):
            return mk_phi([(c, self.read_ref(st, v)) for c, v in r.a[0]])
        return r

    def deref_all(self, st, v):
        n = 0
        while v.op == "mref" and n < 8:
            v = self.read_path(self.loc_get(st, v.a[0]), v.a[1])
            n += 1
        return v

    def deep(self, st, v):
        """replace any mutable references inside v by the values they denote"""
        if v.op in LEAVES or v.op == "mref":
            return self.read_ref(st, v) if v.op == "mref" else v
        if not contains(v, lambda x: x.op == "mref"):
            return v
        memo = {}

        def go(t):
            if t.op == "mref":
                return self.deep(st, self.read_ref(st, t))
            r = memo.get(t)
            if r is None:
                r = t if t.op in LEAVES else rebuild(t, go, lambda f: fmap(f, go))
                memo[t] = r
            return r

        return go(v)

    def read_path(self, v, path):
        for p in path:
            k = p[0]
            if k == "f":
                v = field(v, p[1])
            elif k == "p":
                v = payload(v, p[1], p[2])
            elif k == "i":
                v = mk_at(v, p[1])
            elif k == "get":
                v = mk_get(v, p[1])
            elif k == "sl":
                v = self.models.mk_slice(v, p[1], p[2])
            else:
                v = mk("sel", v, p)
        return v

    def write_path(self, v, path, new):
        if not path:
            return new
        p, rest = path[0], path[1:]
        k = p[0]
        if k == "f":
            return upd(v, p[1], self.write_path(field(v, p[1]), rest, new))
        if k == "p":
            return self.upd_payload(v, p[1], p[2], lambda x: self.write_path(x, rest, new))
        if k == "i":
            x = self.write_path(mk_at(v, p[1]), rest, new)
            return set_at(v, p[1], x)
        if k == "get":
            x = self.write_path(mk_get(v, p[1]), rest, new)
            return mapb(v, [("item", p[1], x)])
        if k == "sl":
            x = self.write_path(self.models.mk_slice(v, p[1], p[2]), rest, new)
            return self.models.set_slice(v, p[1], p[2], x)
        return mk("write", v, str(p), new)

    def upd_payload(self, v, variant, i, fn):
        if v.op == "phi":
            return mk_phi([(c, self.upd_payload(x, variant, i, fn)) for c, x in v.a[0]])
        if v.op == "agg":
            if v.a[1] != variant:
                return v
            vals = v.a[3]
            return mk("agg", v.a[0], v.a[1], v.a[2], vals[:i] + (fn(vals[i]),) + vals[i + 1 :])
        if v.op == "opt" and variant == "Some":
            return mk("opt", v.a[0], fn(v.a[1]))
        return mk("updp", v, variant, i, fn(payload(v, variant, i)))

    def write_ref(self, st, r, new):
        """*r = new"""
        if r.op == "mref":
            loc, path = r.a
            v = self.loc_get(st, loc)
            # follow references stored along the path
            x = v
            for n in range(len(path) + 1):
                if x.op == "mref":
                    self.write_ref(st, mref(x.a[0], x.a[1] + path[n:]), new)
                    return
                if n < len(path):
                    x = self.read_path(x, path[n : n + 1])
            self.loc_set(st, loc, self.write_path(v, path, new))
        elif r.op == "phi":
            for c, x in r.a[0]:
                if x.op == "mref":
                    old = self.read_ref(st, x)
                    self.write_ref(st, x, mk_phi([(c, new), (neg(c), old)]))
        else:
            self.event("opaque_write", st, (r, new))

    # ------------------------------------------------------------ places
    def place_mut(self, st, pl):
        """-> reference term denoting the place"""
        ref = mref((self.cur_fid, pl[0]))
        variant = None
        for e in pl[1:]:
            k = e[0]
            if k == "*" or k == "*r":
                v = self._cur(st, ref)
                if v.op == "mref":
                    ref = v
                elif v.op == "phi" and any(x.op == "mref" for c, x in v.a[0]):
                    ref = v
                else:
                    if k == "*r":
                        self.event("rawderef", st, v)
                    # opaque reference: the holder itself stands for the referent
            elif k == "*b":
                pass
            elif k == "f":
                if variant is not None:
                    ref = ref_ext(ref, ("p", variant, e[1]))
                    variant = None
                else:
                    ref = ref_ext(ref, ("f", e[2]))
            elif k == "v":
                variant = e[1]
            elif k == "i":
                ref = ref_ext(ref, ("i", st.cur.get(e[1], mk("undef"))))
            elif k == "ci":
                off = e[1]
                if e[3]:
                    ref = ref_ext(ref, ("i", p_sub(mk_len(self._cur(st, ref)), const(off))))
                else:
                    ref = ref_ext(ref, ("i", const(off)))
            elif k == "ss":
                v = self._cur(st, ref)
                hi = p_sub(mk_len(v), const(e[2])) if e[3] else const(e[2])
                ref = ref_ext(ref, ("sl", const(e[1]), hi))
        if variant is not None:
            pass
        return ref

    def _cur(self, st, ref):
        if ref.op == "mref":
            return self.read_path(self.loc_get(st, ref.a[0]), ref.a[1])
        if ref.op == "phi":
            return mk_phi([(c, self._cur(st, x) if x.op == "mref" else x) for c, x in ref.a[0]])
        return ref

    def read_place(self, st, pl):
        v = st.cur.get(pl[0])
        if v is None:
            v = mk("undef")
        variant = None
        for e in pl[1:]:
            k = e[0]
            if k == "f":
                if variant is not None:
                    v = payload(v, variant, e[1])
                    variant = None
                else:
                    if v.op == "mref" or v.op == "phi":
                        v = self.read_ref(st, v)
                    v = field(v, e[2])
            elif k == "*" or k == "*b":
                v = self.read_ref1(st, v)
            elif k == "*r":
                if v.op == "mref":
                    v = self.read_ref1(st, v)
                else:
                    self.event("rawderef", st, v)
                    v = self.models.rawderef(v)
            elif k == "v":
                variant = e[1]
            elif k == "i":
                v = mk_at(v, st.cur.get(e[1], mk("undef")))
            elif k == "ci":
                if e[3]:
                    v = mk_at(v, p_sub(mk_len(v), const(e[1])))
                else:
                    v = mk_at(v, const(e[1]))
            elif k == "ss":
                hi = p_sub(mk_len(v), const(e[2])) if e[3] else const(e[2])
                v = self.models.mk_slice(v, const(e[1]), hi)
        return v

    def read_ref1(self, st, r):
        if r.op == "mref":
            return self.read_path(self.loc_get(st, r.a[0]), r.a[1])
        if r.op == "phi" and any(v.op == "mref" for c, v in r.a[0]):
            return mk_phi([(c, self.read_ref1(st, v)) for c, v in r.a[0]])
        return r

    def write_place(self, st, pl, v):
        if len(pl) == 1:
            st.cur[pl[0]] = v
            return
        for e in pl[1:]:
            if e[0] == "*r":
                base = self.read_place(st, pl[: pl.index(e)])
                if base.op != "mref":
                    self.event("rawwrite", st, (base, v))
                    return
        self.write_ref(st, self.place_mut(st, pl), v)

    # ------------------------------------------------------------ operands / rvalues
    def operand(self, st, o, f):
        k = o[0]
        if k == "c" or k == "m":
            return self.read_place(st, o[1])
        if k == "k":
            return self.constant(st, o[1], f)
        return FALSE_T

    def constant(self, st, c, f):
        ty = f["_types"][c["t"]] if "t" in c else ""
        if "fn" in c:
            fr = c["fn"]
            return mk("fnref", FnRef(fr))
        if "v" in c:
            if ty == "bool":
                return TRUE_T if int(c["v"]) else FALSE_T
            if ty in ("f64", "f32"):
                return mk("sym", "float:%s" % c["v"])
            if ty == "char":
                return const(int(c["v"]))
            return const(int(c["v"]))
        if "s" in c:
            return string(c["s"])
        if "bytes" in c:
            b = c["bytes"]
            if isinstance(b, str):
                b = bytes.fromhex(b)
            return mk("bytes", tuple(b))
        if "prom" in c:
            return self.promoted(st, c, f)
        if "path" in c:
            p = c["path"]
            v = self.prog.consts.get(p)
            if v is not None and isinstance(v, (int, str)) and not isinstance(v, bool):
                try:
                    return const(int(v))
                except ValueError:
                    pass
            cf = self.prog.fn(p)
            if cf is not None and cf.get("kind") == "const":
                return self.run_const(cf)
            return mk("named", p)
        if "static" in c:
            return mk("static", c["static"])
        if ty == "()":
            return UNIT
        if c.get("tyconst") is not None:
            return mk("named", "tyconst:%s" % c["tyconst"])
        # zero sized values
        if ty.startswith("{closure"):
            return mk("closure", ty, ())
        return mk("named", "const:" + ty)

    def promoted(self, st, c, f):
        owner = self.prog.fn(c.get("of", "")) or f
        n = c["prom"]
        key = (owner["key"], n)
        if key in self.noprom:
            return self.noprom[key]
        v = mk("named", "prom:%s:%s" % (owner["key"], n))
        proms = owner.get("proms") or f.get("proms")
        try:
            if proms and n < len(proms) and proms[n]:
                body = proms[n]
                pf = dict(body)
                pf.setdefault("args", 0)
                pf.setdefault("names", [])
                pf["_types"] = owner["_types"]
                pf["_c"] = owner["_c"]
                pf["key"] = "prom:%s:%s" % (owner["key"], n)
                pf["proms"] = proms
                s2 = State(TRUE, {}, {})
                sv = (self.cur_fid, self.cur_fn, self.path, self.bstack)
                try:
                    v = self.run_fn(pf, [], s2, 0)
                finally:
                    self.cur_fid, self.cur_fn, self.path, self.bstack = sv
                v = self.deep(s2, v)
        except (KeyError, Unsup):
            pass
        self.noprom[key] = v
        return v

    def rvalue(self, st, r, f):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1], f)
        if k == "ref" or k == "raw":
            if r[1] == "mut":
                return self.place_mut(st, r[2])
            v = self.read_place(st, r[2])
            return v
        if k == "reb":
            pl = r[2] if len(r) > 2 and isinstance(r[2], list) else r[1]
            if len(r) > 2 and r[1] == "mut":
                return self.place_mut(st, pl)
            return self.read_place(st, pl)
        if k == "bin":
            a, b = self.operand(st, r[2], f), self.operand(st, r[3], f)
            x, y = self.read_ref(st, a), self.read_ref(st, b)
            if r[1] in ("Lt", "Le", "Gt", "Ge"):
                for o in (r[2], r[3]):
                    if o[0] == "k" and "t" in o[1] and f["_types"][o[1]["t"]] in UNSIGNED:
                        return self.models.cmp_unsigned(r[1], x, y)
                    if o[0] in ("c", "m") and "phi" in (x.op, y.op) and len(o[1]) == 1 and f["_types"][f["locals"][o[1][0]]] in UNSIGNED:
                        return self.models.cmp_unsigned(r[1], x, y)
            return self.models.binop(r[1], x, y)
        if k == "un":
            return self.models.unop(r[1], self.read_ref(st, self.operand(st, r[2], f)))
        if k == "cast":
            if r[1] == "BoxDerefTransmute" and r[2][0] in ("c", "m") and len(r[2][1]) > 1:
                v = self.read_place(st, r[2][1][:-1])
                if v.op == "mref":
                    return v
                return self.place_mut(st, r[2][1][:-1])
            v = self.operand(st, r[2], f)
            if self.cast_hook is not None:
                h = self.cast_hook(st, r[1], v, f["_types"][r[3]], f["_types"][r[4]])
                if h is not None:
                    return h
            return self.models.cast(r[1], v, f["_types"][r[3]], f["_types"][r[4]])
        if k == "disc":
            v = self.read_ref(st, self.read_place(st, r[1]))
            return mk("discr", v, tuple(sorted((int(x), y) for x, y in r[2].items())))
        if k == "agg":
            kind = r[1]
            ops = [self.operand(st, o, f) for o in r[2]]
            kk = kind["k"]
            if kk == "tuple":
                return tup(*ops)
            if kk == "array":
                return mk("array", *ops)
            if kk == "adt":
                return agg(kind["p"], kind.get("v"), kind.get("n", ()), ops)
            if kk == "closure":
                return mk("closure", kind["key"], tuple(ops))
            return mk("aggx", str(kk), tuple(ops))
        if k == "repeat":
            v = self.operand(st, r[1], f)
            n = r[2]
            if isinstance(n, int) or (isinstance(n, str) and n.isdigit()):
                n = int(n)
                return mk("repeat", v, const(n))
            return mk("repeat", v, mk("named", str(n)))
        if k == "tls":
            return mk("static", str(r[1]))
        return mk("undef")

    # ------------------------------------------------------------ function bodies
    def run_fn(self, f, args, st, line):
        """inline a body; st is the caller's state, updated in place. returns value"""
        if len(self.stack) > MAX_DEPTH:
            raise Unsup("depth")
        info = self.prog.info(f)
        self.visited.add(f["key"])
        self.fid += 1
        fid = self.fid
        # move the caller's frame to 'out'
        caller_fid = self.cur_fid
        caller_cur = st.cur
        out = dict(st.out)
        for l, v in caller_cur.items():
            out[(caller_fid, l)] = v
        cur = {}
        for i, a in enumerate(args):
            cur[i + 1] = a
        s = State(TRUE, cur, out)
        s.own = True
        sv = (self.cur_fid, self.cur_fn)
        self.stack.append((f["key"], fid))
        self.cur_fid = fid
        self.cur_fn = f["key"]
        e0 = len(self.events)
        try:
            exits = self.run_region(f, info, None, 0, s)
        finally:
            self.stack.pop()
            self.cur_fid, self.cur_fn = sv
        rets = [x for t, x in exits if t == "ret"]
        pc0 = st.pc
        if pc0.k != "true":
            for e in self.events[e0:]:
                e.pc = conj([pc0, e.pc])
        if not rets:
            st.pc = FALSE
            return mk("undef")
        m = self.merge(rets, None)
        ret = m.cur.get(0, UNIT)
        st.pc = conj([pc0, clean_pc(m.pc)])
        newcur = {}
        no = {}
        for k, v in m.out.items():
            if k[0] == caller_fid:
                newcur[k[1]] = v
            else:
                no[k] = v
        st.cur = newcur if newcur or not caller_cur else caller_cur
        st.out = no
        st.own = True
        # the callee's frame dies; references into it cannot escape
        return ret

    def merge(self, states, live):
        if len(states) == 1:
            return states[0]
        states = [s for s in states if s.pc.k != "false"] or states[:1]
        if len(states) == 1:
            return states[0]
        pc = disj([s.pc for s in states])
        # guards relative to what the incoming paths have in common
        sets = [set(s.pc.a) if s.pc.k == "and" else ({s.pc} if s.pc.k != "true" else set()) for s in states]
        common = set.intersection(*sets)
        guards = [conj(x - common) for x in sets]
        cur = {}
        keys = set()
        for s in states:
            keys.update(s.cur)
        if live is not None:
            keys &= live
        else:
            keys = {0}
        for l in keys:
            vs = [s.cur.get(l) for s in states]
            v0 = vs[0]
            if all(v is v0 for v in vs):
                if v0 is not None:
                    cur[l] = v0
                continue
            cur[l] = mk_phi([(g, v) for g, v in zip(guards, vs) if v is not None and v.op != "undef"])
        o0 = states[0].out
        if all(s.out is o0 for s in states):
            out = o0
            own = False
        else:
            out = dict(o0)
            own = True
            ks = set()
            for s in states[1:]:
                if s.out is not o0:
                    for k, v in s.out.items():
                        if o0.get(k) is not v:
                            ks.add(k)
            for k in ks:
                vs = [s.out.get(k) for s in states]
                out[k] = mk_phi([(g, v) for g, v in zip(guards, vs) if v is not None])
        r = State(pc, cur, out)
        r.own = own
        return r

    # ------------------------------------------------------------ regions
    def run_region(self, f, info, blocks, entry, st):
        """abstractly execute the sub-graph `blocks` from entry.
        -> [(target | 'ret', State)] edges leaving the region (incl. back edges to entry)"""
        inbox = {entry: [st]}
        exits = []
        rpo = info.rpo
        start = info.pos[entry]
        todo = rpo[start:] if blocks is None else [b for b in rpo[start:] if b in blocks]
        done_in_loop = set()
        for b in todo:
            if b in done_in_loop:
                continue
            ins = inbox.pop(b, None)
            if not ins:
                continue
            s = self.merge(ins, info.live_in[b]) if len(ins) > 1 else ins[0]
            if s.pc.k == "false":
                continue
            if b in info.loops and not (b == entry and blocks is not None):
                body = info.loops[b]
                outs = self.run_loop_mir(f, info, b, body, s)
                done_in_loop |= body
            else:
                outs = self.run_block(f, info, b, s)
            for t, s2 in outs:
                if s2.pc.k == "false":
                    continue
                if t == "ret" or (blocks is not None and (t not in blocks or t == entry)):
                    exits.append((t, s2))
                else:
                    inbox.setdefault(t, []).append(s2)
        return exits

    def run_block(self, f, info, b, st):
        self.steps += 1
        if self.steps > self.budget or (self.steps % 64 == 0 and time.time() > self.deadline):
            raise Budget("budget exhausted in %s" % f["key"])
        blk = f["bb"][b]
        for pl, r in blk["s"]:
            if r[0] == "setdisc":
                v = self.read_place(st, pl)
                if v.op == "undef":
                    self.write_place(st, pl, mk("agg", "?", r[1], (), ()))
                continue
            self.write_place(st, pl, self.rvalue(st, r, f))
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "switch":
            if b in info.forced:
                return [(info.forced[b], st)]
            return self.do_switch(st, t, f)
        if k == "assert":
            self.cur_line = t[5] if len(t) > 5 else 0
            c = truth(self.operand(st, t[1], f))
            if not t[2]:
                c = neg(c)
            if c.k != "true":
                if "panic" in self.want:
                    msg = t[3]
                    m = [msg[0]] + [self.operand(st, o, f) if isinstance(o, list) and o and o[0] in ("c", "m", "k") else o for o in msg[1:]]
                    if msg[0] == "overflow":
                        m.append(_operand_ty(f, msg[2:]))
                    self.events.append(Event("panic", conj([st.pc, neg(c)]), tuple(m), self.cur_fn, self.cur_line))
                    # execution continues only where the check passed
                    st = st.fork()
                    st.pc = conj([st.pc, c])
            return [(t[4], st)]
        if k == "call":
            return self.do_call(st, t, f, b)
        return []

    def do_switch(self, st, t, f):
        v = self.operand(st, t[1], f)
        outs = []
        targets, otherwise = t[2], t[3]
        if v.op == "discr":
            x, names = v.a
            names = dict(names)
            covered = [int(val) for val, tb in targets]
            allv = sorted(names)
            rest = [n for n in allv if n not in covered]
            conds = {}
            prev = []
            # canonical: the last variant is the complement of the others
            for i, n in enumerate(allv):
                if i == len(allv) - 1 and len(allv) > 1:
                    conds[n] = conj([neg(p) for p in prev])
                else:
                    c = mk_is(x, names[n])
                    conds[n] = c
                    prev.append(c)
            edges = [(tb, conds.get(int(val), FALSE)) for val, tb in targets]
            if rest:
                edges.append((otherwise, disj([conds[n] for n in rest])))
        else:
            ty = f["_types"][t[4]] if len(t) > 4 and t[4] is not None else ""
            edges = []
            prev = []
            for val, tb in targets:
                val = int(val)
                if ty == "bool":
                    c = truth(v)
                    c = c if val else neg(c)
                else:
                    c = mk_eq(v, const(val))
                edges.append((tb, c))
                prev.append(neg(c))
            edges.append((otherwise, conj(prev)))
        by = {}
        for tb, c in edges:
            by.setdefault(tb, []).append(c)
        items = [(tb, disj(cs)) for tb, cs in by.items()]
        n = 0
        for tb, c in items:
            if c.k == "false":
                continue
            pc = conj([st.pc, c])
            if pc.k == "false":
                continue
            s = st.fork() if n < len(items) else st
            s.pc = pc
            outs.append((tb, s))
        return outs

    # ------------------------------------------------------------ calls
    def do_call(self, st, t, f, b):
        fnop, argops, dest, target, line = t[1], t[2], t[3], t[4], t[5]
        self.cur_line = line
        types = f["_types"]
        argtys = [types[i] for i in t[6]] if len(t) > 6 else []
        destty = types[t[7]] if len(t) > 7 else ""
        args = [self.operand(st, o, f) for o in argops]
        callee = self.operand(st, fnop, f)
        svp = self.path
        self.path = svp + ((f["key"], b),)
        try:
            v = self.call_value(st, callee, args, argtys, destty)
        finally:
            self.path = svp
        if target is None or st.pc.k == "false":
            return []
        self.write_place(st, dest, v)
        return [(target, st)]

    def call_value(self, st, callee, args, argtys, destty):
        callee = self.read_ref(st, callee)
        if callee.op == "fnref":
            return self.call_fn(st, callee.a[0], args, argtys, destty)
        if callee.op == "closure":
            return self.call_closure(st, callee, args)
        return self.models.opaque(self, st, "callptr", [callee] + args, argtys, destty)

    def call_fn(self, st, fr, args, argtys, destty):
        self.steps += 1
        if self.steps > self.budget or (self.steps % 64 == 0 and time.time() > self.deadline):
            raise Budget("budget")
        n = fr.key or fr.m
        self.calls_seen[n] = self.calls_seen.get(n, 0) + 1
        r = self.models.call(self, st, fr, args, argtys, destty)
        if r is not None:
            return r
        body = self.prog.fn(fr.key) if fr.key else None
        if body is not None:
            cnt = sum(1 for k, _ in self.stack if k == fr.key)
            if cnt < 2 and len(self.stack) < MAX_DEPTH:
                if fr.ctor:
                    pass
                if len(args) == 2 and "{closure" in fr.key and body["_types"][body["locals"][1]].replace("&mut ", "").lstrip("&").startswith("{closure"):
                    t = self.read_ref(st, args[1])
                    if t.op == "tuple" and len(t.a) == body["args"] - 1:
                        args = [args[0]] + list(t.a)
                return self.run_fn(body, args, st, self.cur_line)
            self.event("recursion", st, fr.key)
        return self.models.opaque(self, st, fr.m if not fr.key else fr.key, args, argtys, destty, fr)

    def call_closure(self, st, clo, args):
        """args already untupled"""
        body = self.prog.fn(clo.a[0])
        if body is None:
            return self.models.opaque(self, st, "closure:" + clo.a[0], list(clo.a[1]) + list(args), [], "")
        # the environment is passed as a (mutable) reference to a temporary
        self.fid += 1
        loc = ("clo", self.fid)
        st.set_out(loc, clo)
        envty = body["_types"][body["locals"][1]] if len(body["locals"]) > 1 else ""
        env = mref(loc) if envty.startswith("&") else clo
        return self.run_fn(body, [env] + list(args), st, self.cur_line)

    def call_any(self, st, fnv, args):
        """call a function value from a model"""
        fnv = self.read_ref(st, fnv)
        if fnv.op == "closure":
            return self.call_closure(st, fnv, args)
        if fnv.op == "fnref":
            fr = fnv.a[0]
            if fr.ctor:
                return self.models.ctor(fr, args)
            return self.call_fn(st, fr, args, [""] * len(args), "")
        if fnv.op == "phi":
            # evaluate each alternative on a fork
            outs = []
            for c, x in fnv.a[0]:
                s = st.fork()
                s.pc = conj([st.pc, c])
                v = self.call_any(s, x, args)
                outs.append((c, v, s))
            m = self.merge([s for c, v, s in outs], set().union(*[set(s.cur) for c, v, s in outs]))
            st.pc, st.cur, st.out, st.own = m.pc, m.cur, m.out, False
            return mk_phi([(c, v) for c, v, s in outs])
        return self.models.opaque(self, st, "callval", [fnv] + list(args), [], "")

    # ------------------------------------------------------------ loops
    def run_loop_mir(self, f, info, h, body, st):
        drv = self.find_driver(f, info, h, body, st)
        if drv is not None:
            loc, itv = drv
            return self.for_loop_mir(f, info, h, body, st, loc, itv)
        return self.while_loop_mir(f, info, h, body, st)

    def find_driver(self, f, info, h, body, st):
        """the header's straight-line prefix must call Iterator::next on a known iterator"""
        s = st.fork()
        b = h
        ev = self.events
        self.events = []
        try:
            for _ in range(6):
                blk = f["bb"][b]
                for pl, r in blk["s"]:
                    if r[0] == "setdisc":
                        continue
                    self.write_place(s, pl, self.rvalue(s, r, f))
                t = blk["t"]
                if t[0] == "goto":
                    b = t[1]
                    if b not in body or b == h:
                        return None
                    continue
                if t[0] == "call":
                    fn = t[1][1].get("fn") if t[1][0] == "k" else None
                    if fn is None:
                        return None
                    if fn["m"] == "core::iter::traits::iterator::Iterator::next" and t[2]:
                        a = self.operand(s, t[2][0], f)
                        a = self._norm_ref(s, a)
                        if a.op != "mref":
                            return None
                        v = self.deref_all(s, self._cur(s, a))
                        parts = self.models.iter_parts(self, s, v)
                        if parts is None:
                            return None
                        return a, parts
                    if fn["m"] in ("core::iter::traits::iterator::Iterator::by_ref",):
                        v = self.operand(s, t[2][0], f)
                        self.write_place(s, t[3], v)
                        b = t[4]
                        continue
                    return None
                return None
        finally:
            self.events = ev
        return None

    def _norm_ref(self, st, a):
        """follow references stored behind references"""
        n = 0
        while a.op == "mref" and n < 8:
            v = self._cur(st, a)
            if v.op == "mref":
                a = v
                n += 1
            else:
                break
        return a

    def for_loop_mir(self, f, info, h, body, st, itref, parts):
        exits = []
        cur = st
        live = info.live_in[h]

        def region(s, item):
            """one iteration; item: value yielded"""
            self.write_ref(s, itref, mk("oneshot", item))
            outs = self.run_region(f, info, body, h, s)
            back = [x for t, x in outs if t == h]
            ex = [(t, x) for t, x in outs if t != h]
            if back:
                bs = self.merge(back, live) if len(back) > 1 else back[0]
            else:
                bs = None
            return bs, ex

        for p in parts:
            if cur is None:
                break
            if p[0] == "item":
                cur, ex = self._iter_once(cur, region, p[1], p[2] if len(p) > 2 else TRUE)
                exits.extend(ex)
            else:
                _, b, elem, F = p
                cur, ex = self.summarise(cur, b, elem, F, region, live, skip=itref)
                exits.extend(ex)
        if cur is not None and cur.pc.k != "false":
            # leave through the exhausted edge
            self.write_ref(cur, itref, mk("exhausted"))
            outs = self.run_region(f, info, body, h, cur)
            exits.extend((t, s) for t, s in outs if t != h)
        return exits

    def _iter_once(self, st, region, item, F):
        if F.k == "false":
            return st, []
        if F.k != "true":
            s1 = st.fork()
            s0 = st.fork()
            s1.pc = conj([st.pc, F])
            s0.pc = conj([st.pc, neg(F)])
            b1, ex = region(s1, item)
            if b1 is None:
                return s0, ex
            keys = set(s0.cur) | set(b1.cur)
            return self.merge([b1, s0], keys), ex
        s = st.fork()
        return region(s, item)

    # -- the general summariser -------------------------------------------------
    def summarise(self, st, b, elem, F, region, live, skip=None):
        """loop over iteration point b yielding elem when F.
        region(state, item) -> (state at back edge | None, [(exit, state)])
        -> (state after exhaustion | None, [(exit, state)])"""
        dom = b.a[0]
        base = st.fork()
        pc0 = st.pc
        lvs = {}  # (loc, path) -> lv
        closed = {}  # (loc, path) -> closed form at iteration b
        ev0 = len(self.events)
        self.bstack.append(b)
        skip_loc = skip.a[0] if skip is not None and skip.op == "mref" else None
        try:
            for rnd in range(10):
                del self.events[ev0:]
                s = base.fork()
                s.pc = TRUE
                for (loc, path), lv in lvs.items():
                    self._poke(s, loc, path, closed.get((loc, path), lv))
                if F.k != "true":
                    s.pc = F
                bs, ex = region(s, elem)
                mods = {}
                for s2 in ([bs] if bs is not None else []):
                    self._diff(base, s2, lvs, closed, mods, skip_loc, live)
                new = [m for m in mods if m not in lvs]
                if new:
                    # a path may subsume earlier, finer ones
                    for m in new:
                        for old in list(lvs):
                            if old[0] == m[0] and old[1][: len(m[1])] == m[1]:
                                del lvs[old]
                                closed.pop(old, None)
                        lvs[m] = mk("lv", len(self.bstack), self._locname(m), )
                    continue
                # closed forms for counters
                changed = False
                if bs is not None:
                    for m, lv in lvs.items():
                        if m in closed:
                            continue
                        loc, path = m
                        nv = self._peek(bs, loc, path)
                        L0 = self._peek(base, loc, path)
                        cf = self._closed(lv, nv, L0, b, F, lvs)
                        if cf is not None:
                            closed[m] = cf
                            changed = True
                if changed:
                    continue
                break
        finally:
            self.bstack.pop()
        for e in self.events[ev0:]:
            e.pc = conj([pc0, _ex_b(b, conj([F, e.pc]))])
        vals = self._summaries(base, bs, lvs, closed, b, F) if bs is not None else {}
        pre = {lv: mk_pre(b, vals[m], self._peek(base, *m)) for m, lv in lvs.items() if m in vals and m not in closed}
        # exits taken inside an iteration
        out_ex = []
        for t, s2 in ex:
            self._finish_exit(s2, pre)
            cnd = s2.pc
            bb, _, (cb,) = bind(b, (), (cnd,))
            fst = {b: mk("it", dom, ("first", cb))}
            memo = {}
            for k, v in list(s2.cur.items()):
                if v.op not in LEAVES and contains(v, lambda x: x is b):
                    s2.cur[k] = subst(v, fst, memo)
            for k, v in list(s2.out.items()):
                if base.out.get(k) is not v and v.op not in LEAVES and contains(v, lambda x: x is b):
                    s2.set_out(k, subst(v, fst, memo))
            s2.pc = conj([pc0, _ex_b(b, cnd)])
            out_ex.append((t, s2))
        if bs is None:
            # the body never completes: exhaustion only when nothing is iterated
            after = base.fork()
            after.pc = conj([pc0, _all_b(b, neg(F))])
            return after, out_ex
        after = base.fork()
        c = bs.pc
        # continue condition: F -> c
        if F.k == "true":
            cc = c
        else:
            cc = disj([neg(F), c])
        if pre and f_contains(cc, lambda x: x in pre):
            cc = fsubst(cc, pre)
        after.pc = conj([pc0, _all_b(b, cc)])
        for (loc, path), v in vals.items():
            self._poke(after, loc, path, v)
        return after, out_ex

    def _summaries(self, base, bs, lvs, closed, b, F):
        """value after exhaustion of every loop-carried location.  A location's update may read
        other carried locations: those reads become `pre(b, S)`, the value of summary S over the
        iterations before b."""
        nvs, L0s, need = {}, {}, {}
        names = {lv: m for m, lv in lvs.items()}
        for m, lv in lvs.items():
            nvs[m] = slim(self._peek(bs, *m))
            L0s[m] = self._peek(base, *m)
            need[m] = [names[x] for x in sorted((y for y in subterms(nvs[m], set()) if y.op == "lv" and y in names and y is not lv), key=lambda y: str(y.a))] if has_lv(nvs[m]) else []
        done = {}

        def get(m, stack):
            r = done.get(m)
            if r is not None:
                return r
            lv = lvs[m]
            nv = nvs[m]
            if m in closed:
                r = self._closed_final(closed[m], nv, L0s[m], b, lv)
                done[m] = r
                return r
            sub = {}
            cyc = False
            for m2 in need[m]:
                if m2 == m:
                    continue
                if m2 in stack:
                    sub[lvs[m2]] = mk("pre", b, mk("rec", len(stack) - stack.index(m2), L0s[m2]))
                    cyc = True
                else:
                    v = get(m2, stack + [m])
                    if contains(v, lambda x: x.op == "rec"):
                        cyc = True
                    sub[lvs[m2]] = mk_pre(b, v, L0s[m2])
            if sub:
                nv = subst(nv, sub)
            r = self._summary(lv, nv, L0s[m], b, F, {lv})
            if not (cyc and stack):
                done[m] = r
            return r

        return {m: get(m, []) for m in lvs}

    def _locname(self, m):
        loc, path = m
        return "%s.%s" % (loc[1] if loc[0] != "root" else "r%s" % loc[1], "/".join(str(p[1]) for p in path))

    def _peek(self, st, loc, path):
        return self.read_path(self.loc_get(st, loc), path)

    def _poke(self, st, loc, path, v):
        self.loc_set(st, loc, self.write_path(self.loc_get(st, loc), path, v))

    def _diff(self, base, s2, lvs, closed, mods, skip_loc, live):
        """collect (loc, path) whose value at the back edge differs from the header value"""
        hdr = base.fork()
        for (loc, path), lv in lvs.items():
            self._poke(hdr, loc, path, closed.get((loc, path), lv))
        fid = self.cur_fid
        for l, v in s2.cur.items():
            if live is not None and l not in live:
                continue
            if skip_loc == (fid, l):
                continue
            o = hdr.cur.get(l)
            if o is v or o is None:
                continue
            self._dt((fid, l), (), o, v, mods)
        if s2.out is not hdr.out:
            for k, v in s2.out.items():
                o = hdr.out.get(k)
                if o is v or o is None or k == skip_loc:
                    continue
                if k[0] == "clo":
                    pass
                self._dt(k, (), o, v, mods)

    def _dt(self, loc, path, o, v, mods):
        if o is v:
            return
        if o.op == "agg" and v.op == "agg" and o.a[0] == v.a[0] and o.a[1] == v.a[1] and len(o.a[3]) == len(v.a[3]):
            en = o.a[0] in ("core::option::Option", "core::result::Result")
            for i, (x, y) in enumerate(zip(o.a[3], v.a[3])):
                self._dt(loc, path + ((("p", o.a[1], i) if en else ("f", o.a[2][i])),), x, y, mods)
            return
        if o.op == "tuple" and v.op == "tuple" and len(o.a) == len(v.a):
            for i, (x, y) in enumerate(zip(o.a, v.a)):
                self._dt(loc, path + (("f", str(i)),), x, y, mods)
            return
        if o.op == "closure" and v.op == "closure" and o.a[0] == v.a[0]:
            for i, (x, y) in enumerate(zip(o.a[1], v.a[1])):
                self._dt(loc, path + (("f", str(i)),), x, y, mods)
            return
        if v.op == "upd":
            names = {}
            x = v
            while x.op == "upd":
                names.setdefault(x.a[1], x.a[2])
                x = x.a[0]
            ob = o
            while ob.op == "upd":
                names.setdefault(ob.a[1], None)
                ob = ob.a[0]
            if x is ob or x is o:
                for n in names:
                    self._dt(loc, path + (("f", n),), field(o, n), field(v, n), mods)
                return
        if v.op == "phi" and any(x is o or x.op == "upd" or (x.op == o.op == "agg" and x.a[:3] == o.a[:3] and len(x.a[3]) > 1) for c, x in v.a[0]):
            # conditional modification of a component
            comps = {}
            ok = True
            for c, x in v.a[0]:
                if x is o:
                    continue
                sub = {}
                self._dt(loc, path, o, x, sub)
                for k in sub:
                    comps[k] = 1
                if (loc, path) in sub:
                    ok = False
            if ok:
                mods.update(comps)
                return
        mods[(loc, path)] = 1

    def _closed(self, lv, nv, L0, b, F, lvs):
        """closed form of lv at iteration b, if it is a plain counter / constant power"""
        if F.k != "true":
            return None
        if nv.op == "slice" and nv.a[0] is lv and nv.a[1].op == "int" and nv.a[1].a[0] > 0 and nv.a[2] is mk_len(lv):
            return self.models.mk_slice(L0, p_mul(nv.a[1], _pos(b)), None)
        if nv.op in ("poly", "int"):
            d = p_sub(nv, lv) if not TM._is_pt_poly(nv) else None
            if not has_lv(nv) and nv.op == "poly" and L0.op in ("int", "poly") and not TM._is_pt_poly(nv):
                # set from the position: the value at iteration i is the one iteration i-1 left behind
                ix = mk_idx(b)
                cf = subst(nv, {ix: p_sub(ix, ONE)})
                at0 = subst(cf, {ix: b.a[0].a[0] if b.a[0].op == "range" else ZERO})
                if at0 is L0 and not contains(at0, lambda x: x is b):
                    return cf
            if d is not None and (d.op == "int" or not has_lv(d) and not contains(d, lambda x: x is b)):
                return p_add(L0, p_mul(d, _pos(b)))
            if nv.op == "poly" and len(nv.a[0]) == 1:
                ((m, c),) = nv.a[0]
                dm = dict(m)
                if dm.get(lv) == 1 and c == 1:
                    rest = tuple((x, p) for x, p in m if x is not lv)
                    fct = TM._mk_poly({rest: 1})
                    if not has_lv(fct) and not contains(fct, lambda x: x is b):
                        return p_mul(L0, p_pow(fct, _pos(b)))
        return None

    def _closed_final(self, cf, nv, L0, b, lv):
        n = mk_domlen(b.a[0])
        if b.a[0].op == "range":
            return subst(cf, {mk_idx(b): b.a[0].a[1]})
        return subst(cf, {mk_idx(b): n})

    def _summary(self, lv, nv, L0, b, F, lvset):
        dom = b.a[0]
        if nv is lv:
            return L0
        # entries inserted under this iteration's own key: other iterations insert under other keys, so
        # looking that key up in the loop-carried map sees the initial map
        ks = set()
        for c, v in alts(nv):
            if v is not lv:
                if v.op == "mapb" and v.a[0] is lv and all(e[0] == "item" for e in v.a[1]):
                    ks |= set(e[1] for e in v.a[1])
                else:
                    ks.add(None)
        if len(ks) == 1:
            k = next(iter(ks))
            if k is not None and k.op in ("elem", "key") and k.a[0] is b:
                m = {mk("has", lv, k): cond(mk_has(L0, k)), mk("get", lv, k): mk_get(L0, k)}
                nv = subst(nv, m)
        alts_ = [(conj([F, c]), v) for c, v in alts(nv)]
        chg = [(c, v) for c, v in alts_ if v is not lv]
        unch = [c for c, v in alts_ if v is lv]
        conds_ok = not any(f_contains(c, lambda x: x in lvset) for c, v in chg)
        # boolean flags
        if nv.op in ("bool", "cond", "eq", "eq0", "is", "lt", "has") or (nv.op == "phi" and all(v.op in ("bool", "cond", "lv", "eq", "eq0", "is", "lt", "has") for c, v in nv.a[0])):
            fm = truth(nv)
            if F.k != "true":
                fm = disj([conj([F, fm]), conj([neg(F), lit(lv)])])
            t1 = f_assign(fm, lv, True)
            t0 = f_assign(fm, lv, False)
            if not f_contains(t1, lambda x: x in lvset) and not f_contains(t0, lambda x: x in lvset):
                if t1.k == "true":  # L or t0
                    return cond(disj([truth(L0), _ex_b(b, t0)]))
                if t0.k == "false":  # L and t1
                    return cond(conj([truth(L0), _all_b(b, t1)]))
        if conds_ok and chg:
            # sequences
            afs = [(c, append_form(v, lv)) for c, v in chg]
            if all(x is not None for c, x in afs):
                if not any(seg_has(x, lvset) for c, x in afs):
                    segs = [("all", L0)]
                    if len(afs) == 1:
                        segs += self._eachsegs(afs[0][1], b, afs[0][0])
                    elif all(len(x) == 1 and x[0][0] == "item" for c, x in afs):
                        # several alternative appends of one item each
                        it_ = mk_phi([(c, x[0][1]) for c, x in afs])
                        segs.append(each(b, it_, disj([c for c, x in afs])))
                    else:
                        segs.append(each(b, mk("concat", mk_phi([(c, seq(x)) for c, x in afs])), disj([c for c, x in afs])))
                    return seq(segs)
            # one element consumed whenever c
            if len(chg) == 1 and chg[0][1].op == "slice":
                c, v = chg[0]
                if v.a[0] is lv and v.a[1] is ONE and v.a[2] is mk_len(lv):
                    return mk("slice", L0, mk_sum(b, c, ONE), mk_len(L0))
            # maps
            if all(v.op == "mapb" and v.a[0] is lv for c, v in chg):
                ents = []
                ok = True
                kind = chg[0][1].a[2]
                for c, v in chg:
                    for e in v.a[1]:
                        if any(isinstance(x, T) and has_lv(x, lvset) for x in e):
                            ok = False
                        if e[0] == "item":
                            ents.append(each_kv(b, e[1], e[2], c))
                        elif e[0] in ("each", "all"):
                            ents.append(("each2", closeb("each2", b, (mapb(None, (e,), kind),), c)))
                        else:
                            ok = False
                if ok:
                    if L0.op == "mapb":
                        return mapb(L0.a[0], L0.a[1] + tuple(ents), kind)
                    if L0.op == "seq" and not L0.a[0]:
                        return mapb(None, ents, kind)
                    return mapb(L0, ents, kind)
            # element-wise updates v[idx(b)] = g
            if len(chg) == 1:
                c, v = chg[0]
                if v.op == "setat" and v.a[0] is lv and v.a[1] is mk_idx(b):
                    g = v.a[2]
                    at = mk("at", lv, mk_idx(b))
                    g2 = subst(g, {at: mk_at(L0, mk_idx(b))})
                    if not has_lv(g2, lvset):
                        gg = g2 if c.k == "true" else mk_phi([(c, g2), (neg(c), mk_at(L0, mk_idx(b)))])
                        if dom is L0 or mk_len(L0) is mk_domlen(dom) or (L0.op == "repeat" and mk_len(L0) is mk_domlen(dom)):
                            return seq([each(b, gg)])
                        return mk("setrange", L0, closeb("upd", b, (gg,)))
                if v.op == "mapb" and v.a[0] is lv:
                    pass
            # accumulators
            if all(v.op == "gpoly" or v is lv for c, v in chg) and any(v.op == "gpoly" for c, v in chg):
                n = [v for c, v in chg if v.op == "gpoly"][0].a[0]
                acc = to_g(n, L0)
                ok = True
                for c, v in chg:
                    d = TM._raw(TM._merge(to_g(n, v), to_g(n, lv), -1))
                    if has_lv(d, lvset) or has_lv(n, lvset):
                        ok = False
                        break
                    acc = TM._raw(TM._merge(acc, mk_sum_raw(b, c, d), 1))
                if ok:
                    return from_g(n, acc)
            polyish = all(v.op in ("poly", "int") for c, v in chg)
            if polyish:
                ptm = any(TM._is_pt_poly(v) for c, v in chg)
                ok = True
                if ptm:
                    acc = to_pt(L0)
                    for c, v in chg:
                        d = pt_sub(v, lv)
                        if has_lv(d, lvset):
                            ok = False
                            break
                        acc = TM._mk_pt_poly(TM._merge(acc, mk_sum_raw(b, c, d), 1))
                else:
                    acc = L0
                    for c, v in chg:
                        d = p_sub(v, lv)
                        if has_lv(d, lvset):
                            ok = False
                            break
                        acc = p_add(acc, mk_sum(b, c, d))
                if ok:
                    return acc
                # product L * f
                if len(chg) == 1 and not ptm:
                    c, v = chg[0]
                    if v.op == "poly" and len(v.a[0]) == 1:
                        ((m, cf),) = v.a[0]
                        dm = dict(m)
                        if dm.get(lv) == 1:
                            rest = tuple((x, p) for x, p in m if x is not lv)
                            fct = TM._mk_poly({rest: cf})
                            if not has_lv(fct, lvset):
                                return p_mul(L0, closeb("prod", b, (fct,), c))
            # value independent of the loop state: last one wins
            if all(not has_lv(v, lvset) for c, v in chg):
                if all(not contains(v, lambda x: x is b) for c, v in chg) and len(chg) == 1:
                    c, v = chg[0]
                    e = _ex_b(b, c)
                    return mk_phi([(e, v), (neg(e), L0)])
                return mk("last", closeb("body", b, (mk_phi(chg),)), L0)
        r = self._lift_result(lv, nv, L0, b, F)
        if r is not None:
            return r
        own = mk("lv", lv.a[0], "*")
        nv = nv if F.k == "true" else mk_phi([(F, nv), (neg(F), lv)])
        return mk("fold", closeb("body", b, (own, subst(nv, {lv: own}))), L0)

    def _lift_result(self, lv, nv, L0, b, F):
        """an accumulator of type Result/Option: a flag and an accumulated payload"""
        for ty, good, bad in (("core::result::Result", "Ok", "Err"), ("core::option::Option", "Some", "None")):
            hit = [v for c, v in alts(nv) if v.op == "agg" and v.a[0] == ty]
            if not hit:
                continue
            lvp = mk("lv", lv.a[0], str(lv.a[1]) + "?")
            mkgood = lambda p: mk("agg", ty, good, ("0",), (p,))
            badv = [v for c, v in alts(nv) if v.op == "agg" and v.a[0] == ty and v.a[1] == bad]
            badv = badv[0] if badv else (mk("agg", ty, bad, (), ()) if bad == "None" else mk("agg", ty, bad, ("0",), (mk("errs", frozenset()),)))
            if has_lv(badv, {lv}):
                badv = mk("agg", ty, bad, ("0",), (mk("errs", frozenset()),))
            n1 = subst(nv, {lv: mkgood(lvp)})
            n0 = subst(nv, {lv: badv})
            if mk_is(n0, good).k != "false":
                return None
            ok = mk_is(n1, good)
            p = assume_ok(payload(n1, good), ok)
            if has_lv(p, {lv}) or f_contains(ok, lambda x: x is lv):
                return None
            lset = {lvp}
            P = self._summary(lvp, p, payload(L0, good), b, F, lset)
            if f_contains(ok, lambda x: x is lvp):
                ok = fsubst(ok, {lvp: mk_pre(b, P, payload(L0, good))})
            flag = conj([mk_is(L0, good), _all_b(b, disj([neg(F), ok]))])
            return mk_phi([(flag, mkgood(P)), (neg(flag), badv)])
        return None

    def _eachsegs(self, segs, b, c):
        out = []
        if len(segs) == 1 and segs[0][0] == "item":
            return [each(b, segs[0][1], c)]
        # several pieces appended per iteration
        return [each(b, mk("concat", seq(segs)), c)]

    def _finish_exit(self, s2, m):
        """values visible on an early exit: loop-carried values become prefixes"""
        if not m:
            return
        memo = {}
        for k, v in list(s2.cur.items()):
            if has_lv(v):
                s2.cur[k] = subst(v, m, memo)
        for k, v in list(s2.out.items()):
            if has_lv(v):
                s2.set_out(k, subst(v, m, memo))
        if f_contains(s2.pc, lambda x: x.op == "lv"):
            s2.pc = fsubst(s2.pc, m)

    def while_loop_mir(self, f, info, h, body, st):
        """counter loops `while i < n` become range loops; anything else is havocked"""
        live = info.live_in[h]
        base = st.fork()
        pc0 = st.pc
        lvs = {}
        ev0 = len(self.events)
        b0 = None
        for rnd in range(10):
            del self.events[ev0:]
            s = base.fork()
            s.pc = TRUE
            for (loc, path), lv in lvs.items():
                self._poke(s, loc, path, lv)
            outs = self.run_region(f, info, body, h, s)
            back = [x for t, x in outs if t == h]
            if not back:
                # not really a loop
                for t, x in outs:
                    x.pc = conj([pc0, x.pc])
                if not lvs:
                    return outs
            bs = (self.merge(back, live) if len(back) > 1 else back[0]) if back else None
            mods = {}
            if bs is not None:
                self._diff(base, bs, lvs, {}, mods, None, live)
            new = [m for m in mods if m not in lvs]
            if not new:
                break
            for m in new:
                for old in list(lvs):
                    if old[0] == m[0] and old[1][: len(m[1])] == m[1]:
                        del lvs[old]
                lvs[m] = mk("lv", len(self.bstack) + 100, self._locname(m))
        # counter pattern
        if bs is not None:
            guard = None
            lits = set(bs.pc.a) if bs.pc.k == "and" else {bs.pc}
            for m, lv in lvs.items():
                nv = self._peek(bs, *m)
                if nv.op == "seq":
                    # grown by one element until it is long enough: its length is the counter
                    ln = mk_len(lv)
                    if p_sub(mk_len(nv), ln) is not ONE:
                        continue
                    for l in lits:
                        if l.k == "lit" and l.a[1] and l.a[0].op == "lt" and l.a[0].a[0] is ln and not has_lv(l.a[0].a[1]):
                            guard = (m, ln, l, mk_len(self._peek(base, *m)), l.a[0].a[1])
                            break
                    if guard:
                        break
                    continue
                if nv.op not in ("poly", "int"):
                    continue
                d = p_sub(nv, lv)
                if d.op != "int" or d.a[0] not in (1,):
                    continue
                L0 = self._peek(base, *m)
                for l in lits:
                    hi = None
                    if l.k == "lit" and l.a[1] and l.a[0].op == "lt" and l.a[0].a[0] is lv and not has_lv(l.a[0].a[1]):
                        hi = l.a[0].a[1]
                    elif l.k == "lit" and not l.a[1] and l.a[0].op == "eq0" and l.a[0].a[0].op == "poly":
                        e = l.a[0].a[0]
                        s1 = p_add(e, lv)
                        s2_ = p_sub(e, lv)
                        if not has_lv(s1):
                            hi = s1
                        elif not has_lv(s2_):
                            hi = p_neg(s2_)
                    elif l.k == "lit" and not l.a[1] and l.a[0].op == "eq" and lv in l.a[0].a:
                        hi = [x for x in l.a[0].a if x is not lv][0]
                        if has_lv(hi):
                            hi = None
                    elif l.k == "lit" and not l.a[1] and l.a[0].op == "lt" and l.a[0].a[1] is lv and not has_lv(l.a[0].a[0]):
                        hi = p_add(l.a[0].a[0], ONE)
                    if hi is None:
                        continue
                    guard = (m, lv, l, L0, hi)
                    break
                if guard:
                    break
            if guard is not None:
                m, lv, l, L0, hi = guard
                del self.events[ev0:]
                return self._counter_loop(f, info, h, body, st, m, lv, l, L0, hi, live)
        # redraw until acceptable: the exit value is a draw of the same kind
        hv = {}
        for i, (mm, lv) in enumerate(lvs.items()):
            L0 = self._peek(base, *mm)
            nv = self._peek(bs, *mm) if bs is not None else lv
            if not has_lv(nv) and nv.op != "undef":
                if L0.op == "undef":
                    hv[lv] = nv
                    continue
                if _norand(L0) is _norand(nv) and L0 is not nv:
                    hv[lv] = L0
                    continue
            hv[lv] = None
        upd = {lv: (self._peek(base, *mm), self._peek(bs, *mm) if bs is not None else lv) for mm, lv in lvs.items()}
        for lv, v in list(hv.items()):
            if v is None:
                hv[lv] = mk("loop", *_loop_system(lv, upd))
        for e in self.events[ev0:]:
            e.pc = conj([pc0, fsubst(e.pc, hv)])
        res = []
        for t, x in outs:
            if t == h:
                continue
            memo = {}
            for k, v in list(x.cur.items()):
                if has_lv(v):
                    x.cur[k] = subst(v, hv, memo)
            for k, v in list(x.out.items()):
                if has_lv(v):
                    x.set_out(k, subst(v, hv, memo))
            x.pc = conj([pc0, fsubst(x.pc, hv, memo)])
            res.append((t, x))
        return res

    def _counter_loop(self, f, info, h, body, st, m, lv, guard, L0, hi, live):
        dom = mk_range(L0, hi)
        b = it(dom, self._depth(dom))
        elem = mk_idx(b) if dom.op != "range" else t_elem(b)
        if L0.op == "int" and hi.op == "int" and hi.a[0] - L0.a[0] <= 8:
            parts = [("item", const(i)) for i in range(L0.a[0], max(hi.a[0], L0.a[0]))]
        else:
            parts = [("each", b, elem, TRUE)]
        loc, path = m
        exits = []
        grown = lv.op == "len"

        def restate(x, sub):
            memo = {}
            for k, v in list(x.cur.items()):
                x.cur[k] = subst(v, sub, memo)
            for k, v in list(x.out.items()):
                x.set_out(k, subst(v, sub, memo))
            x.pc = fsubst(x.pc, sub, memo)

        def grow(s, item):
            ln = mk_len(self._peek(s, loc, path))
            g = mk_lt(ln, hi)
            back, ex = [], []
            for t, x in self.run_region(f, info, body, h, s):
                x.pc = assume_true(x.pc, g)
                if ln.op == "len":
                    restate(x, {ln: item})
                if x.pc.k != "false":
                    (back if t == h else ex).append(x if t == h else (t, x))
            if back:
                return (self.merge(back, live) if len(back) > 1 else back[0]), ex
            return None, ex

        def region(s, item):
            if grown:
                return grow(s, item)
            self._poke(s, loc, path, item)
            # assume the guard inside the iteration
            self.assume = getattr(self, "assume", [])
            outs = self.run_region(f, info, body, h, s)
            g = fsubst(guard, {lv: item})
            back, ex = [], []
            for t, x in outs:
                if t == h:
                    x.pc = assume_true(x.pc, g)
                    self._poke(x, loc, path, L0)  # neutral: handled as the loop counter
                    back.append(x)
                else:
                    p = assume_true(x.pc, g)
                    if p.k != "false":
                        x.pc = p
                        ex.append((t, x))
            if back:
                return (self.merge(back, live) if len(back) > 1 else back[0]), ex
            return None, ex

        cur = st
        for p in parts:
            if cur is None:
                break
            if p[0] == "item":
                cur, ex = self._iter_once(cur, region, p[1], TRUE)
            else:
                s0 = cur.fork()
                if not grown:
                    self._poke(s0, loc, path, L0)
                cur, ex = self.summarise(s0, b, p[2], TRUE, region, live)
            exits.extend(ex)
        if cur is not None and cur.pc.k != "false":
            fin = hi if not (L0.op == "int" and hi.op == "int") else const(max(hi.a[0], L0.a[0]))
            if grown:
                g0 = mk_lt(mk_len(self._peek(cur, loc, path)), hi)
            else:
                self._poke(cur, loc, path, fin)
            s = cur.fork()
            outs = self.run_region(f, info, body, h, s)
            for t, x in outs:
                if t == h:
                    continue
                g = g0 if grown else fsubst(guard, {lv: fin})
                x.pc = assume_true(x.pc, neg(g))
                if x.pc.k != "false":
                    exits.append((t, x))
        return exits

    def _depth(self, dom):
        return sum(1 for b in self.bstack if b.a[0] is dom)

    def new_it(self, dom):
        return it(dom, self._depth(dom))

    # loop driven from a model (for_each, fold, map with side effects)
    def loop_model(self, st, parts, fn):
        """fn(state, item) -> None (mutates state). loops over parts, updates st."""
        cur = st.fork()
        for p in parts:

            def region(s, item):
                fn(s, item)
                return (s if s.pc.k != "false" else None), []

            if p[0] == "item":
                nxt, ex = self._iter_once(cur, region, p[1], p[2] if len(p) > 2 else TRUE)
            else:
                _, b, elem, F = p
                nxt, ex = self.summarise(cur, b, elem, F, region, None)
            if nxt is None:
                cur.pc = FALSE
                break
            cur = nxt
        st.pc, st.cur, st.out, st.own = cur.pc, cur.cur, cur.out, False

    def rand(self, kind, *deps):
        site = self.path
        i = self.rand_sites.get(site)
        if i is None:
            i = len(self.rand_sites) + 1
            self.rand_sites[site] = i
        return mk("rand", i, kind, tuple(self.bstack))


def _norand(t):
    """t with the numbering of random draws forgotten"""
    rs = [x for x in subterms(t) if x.op == "rand"]
    return subst(t, {x: mk("rand", 0, *x.a[1:]) for x in rs}) if rs else t


class FnRef(object):
    __slots__ = ("m", "tr", "self_", "ga", "ctor", "key", "b", "shim", "d")
    _cache = {}

    def __new__(cls, d):
        k = (d.get("m"), d.get("k"), d.get("self"), tuple(d.get("ga", ())))
        r = cls._cache.get(k)
        if r is None:
            r = object.__new__(cls)
            r.m = d.get("m", "")
            r.tr = d.get("tr")
            r.self_ = d.get("self", "")
            r.ga = tuple(d.get("ga", ()))
            r.ctor = d.get("ctor")
            r.key = d.get("k")
            r.b = d.get("b")
            r.shim = d.get("shim")
            r.d = d.get("d")
            cls._cache[k] = r
        return r

    def __repr__(self):
        return self.key or self.m


def _pos(b):
    """how many iterations come before this one"""
    return p_sub(t_elem(b), b.a[0].a[0]) if b.a[0].op == "range" else mk_idx(b)


def ref_ext(ref, step):
    if ref.op == "mref":
        return mref(ref.a[0], ref.a[1] + (step,))
    if ref.op == "phi":
        return mk_phi([(c, ref_ext(x, step)) for c, x in ref.a[0]])
    # opaque reference
    k = step[0]
    if k == "f":
        return field(ref, step[1])
    if k == "p":
        return payload(ref, step[1], step[2])
    if k == "i":
        return mk_at(ref, step[1])
    return mk("sel", ref, step)


def set_at(v, i, x):
    if v.op == "array" and i.op == "int" and 0 <= i.a[0] < len(v.a):
        l = list(v.a)
        l[i.a[0]] = x
        return mk("array", *l)
    if v.op == "seq" and i.op == "int" and all(s[0] == "item" for s in v.a[0]) and 0 <= i.a[0] < len(v.a[0]):
        l = list(v.a[0])
        l[i.a[0]] = ("item", x)
        return seq(l)
    if v.op == "repeat" and i.op == "int" and v.a[1].op == "int" and v.a[1].a[0] <= 64:
        l = [v.a[0]] * v.a[1].a[0]
        if i.a[0] < len(l):
            l[i.a[0]] = x
            return mk("array", *l)
    if v.op == "setat" and v.a[1] is i:
        return set_at(v.a[0], i, x)
    if x.op == "at" and x.a[0] is v and x.a[1] is i:
        return v
    if x.op == "elem" and x.a[0].a[0] is v and i.op == "idx" and i.a[0] is x.a[0]:
        return v
    return mk("setat", v, i, x)


def append_form(v, lv):
    """v as lv followed by segments: -> [segments] | None"""
    if v is lv:
        return []
    if v.op == "seq" and v.a[0] and v.a[0][0][0] == "all":
        h = append_form(v.a[0][0][1], lv)
        if h is not None:
            return h + list(v.a[0][1:])
        return None
    if v.op == "phi":
        xs = [(c, append_form(x, lv)) for c, x in v.a[0]]
        if any(x is None for c, x in xs):
            return None
        # common prefix / suffix stay unconditional
        pre = []
        while all(x for c, x in xs) and all(x[0] == xs[0][1][0] for c, x in xs):
            pre.append(xs[0][1][0])
            xs = [(c, x[1:]) for c, x in xs]
        return pre + [("all", mk_phi([(c, seq(x)) for c, x in xs]))]
    return None


def seg_has(segs, lvset):
    for s in segs:
        for x in s[1:]:
            if isinstance(x, T) and has_lv(x, lvset):
                return True
            if isinstance(x, F) and f_contains(x, lambda t: t in lvset):
                return True
    return False


def clean_pc(f):
    """what holds on every return path of a call: case splits over return paths are
    dropped (they are exhaustive up to panics), plain facts kept"""
    if f.k == "and":
        return conj([clean_pc(x) for x in f.a])
    if f.k == "or":
        return TRUE
    if f.k == "all":
        return TM.f_all(f.a[0], clean_pc(f.a[1]))
    if f.k == "ex" and f.size > 4:
        return TRUE
    return f


def f_assign(f, t, val):
    """replace the boolean term t by a constant in formula f"""
    return fsubst(f, {t: TRUE_T if val else FALSE_T})


def slim(v):
    """a phi whose gates keep only what tells the alternatives apart.  The gates of a merge are
    exclusive and one of them holds wherever the value is defined, so a conjunct without which the
    gate still contradicts every other gate is implied."""
    if v.op != "phi" or len(v.a[0]) > 6:
        return v
    al = sorted(v.a[0], key=lambda cv: show(cv[1]))
    out = []
    for i, (c, x) in enumerate(al):
        cs = sorted(conjuncts_of(c), key=fshow)
        if len(cs) > 1:
            others = [d for j, (d, _) in enumerate(al) if j != i]
            for q in list(cs):
                rest = [y for y in cs if y is not q]
                if rest and all(conj(rest + [d]).k == "false" for d in others):
                    cs = rest
        out.append((conj(cs), x))
    return mk_phi(out)


def conjuncts_of(f):
    return list(f.a) if f.k == "and" else [f]


def assume_true(f, g):
    """simplify f under the assumption g"""
    gs = set(g.a) if g.k == "and" else {g}

    def go(x):
        if x in gs:
            return TRUE
        if neg(x) in gs:
            return FALSE
        if x.k == "and":
            return conj([go(y) for y in x.a])
        if x.k == "or":
            return disj([go(y) for y in x.a])
        return x

    return go(f)


def _mentions(f, b):
    return f_contains(f, lambda x: x is b)


def _all_b(b, f):
    """for all iterations: f.  Conjuncts that do not depend on b hold unless the domain is empty"""
    if f.k == "true":
        return TRUE
    if f.k == "and":
        return conj([_all_b(b, x) for x in f.a])
    bb, _, (g,) = bind(b, (), (f,))
    return TM._mkf("all", (bb, g))


def each(b, v, c=TRUE):
    bb, (v2,), (c2,) = bind(b, (v,), (c,))
    return ("each", bb, v2, c2)


def each_kv(b, k, v, c=TRUE):
    bb, (k2, v2), (c2,) = bind(b, (k, v), (c,))
    return ("each", bb, k2, v2, c2)


def mk_pre(b, v, L0):
    """the value of summary v, that started as L0, over the iterations before b only"""
    if v is L0:
        return v
    dom = b.a[0]

    def over(t):
        return contains(t, lambda x: x.op == "it" and x.a[0] is dom)

    if v.op == "slice" and over(v):
        if L0.op == "slice" and v.a[0] is L0.a[0]:
            return mk("slice", v.a[0], mk_pre(b, v.a[1], L0.a[1]), mk_pre(b, v.a[2], L0.a[2]))
        if v.a[0] is L0 and v.a[2] is mk_len(L0):
            return mk("slice", L0, mk_pre(b, v.a[1], ZERO), v.a[2])
        return mk("pre", b, v)
    if (v.op == "sum" or v.op == "poly") and not TM._is_pt_poly(v) and (L0.op not in ("poly",) or not TM._is_pt_poly(L0)):
        D = p_sub(v, L0)
        if not over(D):
            return mk("pre", b, v)
        out = L0
        rest = {}
        for m, cf in TM._pd(D).items():
            hit = [(x, p) for x, p in m if over(x)]
            if len(hit) == 1 and hit[0][0].op == "sum" and hit[0][1] == 1 and hit[0][0].a[0].a[0] is dom:
                bb, c = hit[0][0].a
                other = tuple((x, p) for x, p in m if x is not hit[0][0])
                out = p_add(out, p_mul(TM._mk_poly({other: cf}), mk("rank", b, fsubst(c, {bb: b}))))
            else:
                rest[m] = cf
        if rest:
            out = p_add(out, mk("pre", b, TM._mk_poly(rest)))
        return out
    return mk("pre", b, v)


def _loop_system(lv, upd, limit=60):
    """loop state named by position, not by the local that holds it: the joint update system of the
    carried values this one depends on, unrolled along its dependencies with back references"""
    n = [0]

    def go(x, stack):
        L0, nv = upd[x]
        m = {x: mk("lv", x.a[0], "*")}
        if has_lv(nv):
            for y in subterms(nv, set()):
                if y.op != "lv" or y is x or y.a[0] != x.a[0] or y.a[1] == "*":
                    continue
                if y in stack:
                    m[y] = mk("rec", len(stack) - stack.index(y), upd[y][0])
                elif y in upd and n[0] < limit:
                    n[0] += 1
                    m[y] = mk("sib", *go(y, stack + [x]))
                else:
                    m[y] = mk("lv", x.a[0], "+")
        return mk("lv", x.a[0], "*"), L0, subst(nv, m)

    r = go(lv, [])
    if n[0] >= limit:
        n[0] = limit
        r = go(lv, [])
    return r


def _operand_ty(f, ops):
    """type of the operands of a checked operation"""
    for o in ops:
        if isinstance(o, list) and o:
            if o[0] in ("c", "m") and len(o[1]) == 1:
                t = f["locals"][o[1][0]]
                return f["_types"][t] if isinstance(t, int) else t
            if o[0] == "k" and "t" in o[1]:
                return f["_types"][o[1]["t"]]
    return ""


def assume_ok(p, f):
    from .compare import assume

    return assume(p, f) if f.k != "true" else p


def closeb(op, b, ts, c=TRUE):
    bb, ts2, (c2,) = bind(b, ts, (c,))
    return mk(op, bb, c2, *ts2)


def _ex_b(b, f):
    if f.k == "false":
        return FALSE
    return neg(_all_b(b, neg(f)))


def mk_sum_raw(b, c, d):
    """sum over b (restricted to c) of a raw linear combination d"""
    dom = b.a[0]
    if c.k == "false":
        return ZERO
    if d.op == "int" and d.a[0] == 0:
        return ZERO
    items = TM._rawpd(d)
    out = {}
    for m, cf in items.items():
        dep = c.k != "true" or any(contains(x, lambda y: y is b) for x, p in m)
        if dep:
            # indicator atoms move into the restriction
            bb, ts, (c2,) = bind(b, tuple(x for x, p in m), (c,))
            mm = _with_sum(ts, m, mk("sum", bb, c2))
            out[mm] = out.get(mm, 0) + cf
        else:
            n = mk_domlen(dom)
            for m2, c2 in TM._pd(n).items():
                mm = TM._mono_mul(m, m2)
                out[mm] = out.get(mm, 0) + cf * c2
    return TM._raw(out)


def _with_sum(ts, m, s):
    d = {}
    for x, (_, p) in zip(ts, m):
        d[x] = d.get(x, 0) + p
    d[s] = 1
    return tuple(sorted(d.items(), key=lambda xp: xp[0].id))


def mk_sum(b, c, d):
    if d.op == "phi":
        r = ZERO
        for c2, v in d.a[0]:
            r = p_add(r, mk_sum(b, conj([c, c2]), v))
        return r
    d2 = d if d.op in ("poly", "int") else mk("poly", ((((d, 1),), 1),))
    return TM._mk_poly(TM._rawpd(mk_sum_raw(b, c, d2)))
