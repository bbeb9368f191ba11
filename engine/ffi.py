"""Exported C functions: pointer parameters as tracked memory cells.

Every raw-pointer (and `&mut`) parameter is a root cell; dereferences, slices made from pointers, taking
ownership and reading C strings raise events carrying the path condition under which they happen.
"""
import re
from .terms import *
from .interp import Interp, State, Unsup, mref
from .models import Models, _nogen
from .compare import Cmp, Give

NULL = mk("named", "null")


def is_raw(ty):
    return ty.startswith("*const ") or ty.startswith("*mut ")


class FfiModels(Models):
    def call(self, I, st, fr, args, argtys, destty):
        if destty.endswith("ursa::ffi::ErrorCode") and fr.m in ("core::convert::Into::into", "core::convert::From::from"):
            # an error's code is never Success (a rule of its own checks the conversion)
            return agg("ursa::ffi::ErrorCode", "(error)", ["0"], [I.read_ref(st, args[0])])
        return Models.call(self, I, st, fr, args, argtys, destty)


class FfiInterp(Interp):
    def __init__(self, prog, seconds=100, cut=None):
        Interp.__init__(self, prog, FfiModels(), leaf=leafs(), seconds=seconds, events=("rawderef", "rawwrite", "ptrcast", "from_raw", "opaque_write"))
        self.cut = re.compile(cut) if cut else None
        self.rootsym = {}

    def is_root(self, v):
        return v.op == "mref" and v.a[0][0] == "raw" and not v.a[1]

    def ptr(self, v):
        """pointer value as a term"""
        if self.is_root(v):
            return self.rootsym[v.a[0]]
        if v.op == "phi":
            return mk_phi([(c, self.ptr(x)) for c, x in v.a[0]])
        return v

    def use(self, st, v, how):
        """a use of the memory behind pointer v"""
        if v.op == "phi":
            for c, x in v.a[0]:
                s = st.fork()
                s.pc = conj([s.pc, c])
                self.use(s, x, how)
            return
        if v.op == "mref" and not self.is_root(v):
            return
        self.event("rawderef", st, (self.ptr(v), how))

    def run_ffi(self, key, names):
        f = self.prog.fn(key)
        st = State(TRUE, {}, {})
        a = []
        cells = {}
        for i, n in enumerate(names):
            t = f["_types"][f["locals"][i + 1]]
            if is_raw(t) or re.match(r"&('\w+ )?mut ", t):
                loc = ("raw", i)
                self.rootsym[loc] = sym(n)
                v = mk("deref", sym(n))
                st.set_out(loc, v)
                cells[i] = v
                a.append(mref(loc))
            else:
                a.append(sym(n))
        ret = self.run_fn(f, a, st, 0)
        fin = {i: st.out[("raw", i)] for i in cells}
        return ret, cells, fin, st.pc

    # raw dereferences in places
    def place_mut(self, st, pl):
        self._raw(st, pl)
        return Interp.place_mut(self, st, pl)

    def read_place(self, st, pl):
        self._raw(st, pl)
        return Interp.read_place(self, st, pl)

    def write_place(self, st, pl, v):
        self._raw(st, pl)
        return Interp.write_place(self, st, pl, v)

    def _raw(self, st, pl):
        if len(pl) < 2:
            return
        for n, e in enumerate(pl[1:]):
            if e[0] == "*r":
                b = Interp.read_place(self, st, pl[: n + 1])
                self.use(st, b, "dereference")

    def event(self, kind, st, data, line=None):
        if kind == "rawderef" and not isinstance(data, tuple):
            return  # reported by use()
        Interp.event(self, kind, st, data, line)

    def cast_hook(self, st, kind, v, to, frm):
        if kind in ("PtrToPtr", "Transmute") or "Pointer" in kind:
            if re.match(r"\*(const|mut) ", to) and not to.endswith(" ()"):
                self.event("ptrcast", st, (v if v.op != "mref" or not self.is_root(v) else mk("ptrto", self.ptr(v)), frm, to))


def leafs():
    L = {}

    def leaf(*ns):
        def d(f):
            for n in ns:
                L[_nogen(n)] = f
            return f

        return d

    CP, MP = "core::ptr::const_ptr::<impl *const T>::", "core::ptr::mut_ptr::<impl *mut T>::"

    def nullc(c, v):
        if v.op == "phi":
            return disj([conj([g, nullc(c, x)]) for g, x in v.a[0]])
        if v.op == "mref" and not c.I.is_root(v):
            return FALSE
        return mk_eq(c.I.ptr(v), NULL)

    @leaf(CP + "is_null", MP + "is_null")
    def is_null(c):
        return cond(nullc(c, c.args[0]))

    @leaf(CP + "as_ref", MP + "as_ref", MP + "as_mut")
    def as_ref(c):
        n = nullc(c, c.args[0])
        return mk_phi([(n, agg("core::option::Option", "None", [], [])), (neg(n), agg("core::option::Option", "Some", ["0"], [c.args[0]]))])

    @leaf("alloc::boxed::Box::<T>::from_raw", "alloc::ffi::c_str::CString::from_raw")
    def from_raw(c):
        c.I.use(c.st, c.args[0], "take ownership")
        c.I.event("from_raw", c.st, (c.I.ptr(c.args[0]), c.destty))
        return c.M.rawderef(c.v(0))

    @leaf("core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut")
    def parts(c):
        c.I.use(c.st, c.args[0], "slice")
        return mk("rawslice", c.I.ptr(c.args[0]), c.v(1))

    @leaf("core::ffi::c_str::CStr::from_ptr")
    def cstr(c):
        c.I.use(c.st, c.args[0], "C string")
        return app("cstr", c.I.ptr(c.args[0]))

    @leaf(CP + "offset", CP + "add", MP + "offset", MP + "add")
    def off(c):
        return app("ptradd", c.I.ptr(c.args[0]), c.v(1))

    @leaf("core::ptr::read", CP + "read", MP + "read")
    def rd(c):
        c.I.use(c.st, c.args[0], "read")
        return c.v(0)

    @leaf("core::ptr::write", MP + "write")
    def wr(c):
        c.I.use(c.st, c.args[0], "write")
        c.set(0, c.v(1))
        return UNIT

    return L
