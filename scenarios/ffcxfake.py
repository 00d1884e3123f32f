"""Stand-ins for ufl, ffcx and dolfinx as the kernel generator sees them.

basix and basix.ufl are real. FFCx's part is played by a small generator of
kernels in the style of FFCx 0.10: the same IR objects, table naming, table
classification (piecewise, uniform, fixed, varying, ones), sharing of equal
tables, piecewise pre-loop code, and C text. It knows, for every kernel it
emits, the terms it stands for.
"""

from __future__ import annotations

import hashlib
import importlib
import importlib.abc
import importlib.util
import itertools
import os
import re
import sys
import types

import numpy as np
import basix

REPO = os.environ.get("VERIF_REPO", "/repo")
QROOT = REPO + "/python/qugar"
ROOTS = ("ufl", "ffcx", "dolfinx", "mpi4py", "petsc4py", "scipy", "cffi")


class AutoModule(types.ModuleType):
    """Names nobody defined are empty classes, so that imports work."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = type(name, (object,), {"_stub_gap": f"{self.__name__}.{name}"})
        setattr(self, name, v)
        return v


class AutoFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] in ROOTS or name == "qugar.utils":
            return importlib.util.spec_from_loader(name, self, is_package=True)

    def create_module(self, spec):
        return AutoModule(spec.name)

    def exec_module(self, m):
        m.__path__ = []
        fill(m)


def stub_gap(e):
    """The stand-ins lack something of the real interface."""
    while e is not None:
        if isinstance(e, AttributeError) and e.name:
            t = e.obj if isinstance(e.obj, type) else type(e.obj)
            if t.__module__ == __name__ or hasattr(t, "_stub_gap"):
                return f"{t.__name__}.{e.name}"
        if isinstance(e, (ImportError, TypeError)) and ("_stub_gap" in str(e) or isinstance(e, ImportError)):
            return str(e)
        if isinstance(e, TypeError) and re.search(r"\w+\(\) (takes no arguments|got an unexpected keyword|takes \d|missing )", str(e)):
            return str(e)
        e = e.__cause__ or e.__context__
    return None


# ------------------------------------------------------------------------- ufl
class AbstractFiniteElement:
    def __ne__(self, other):
        return not self == other

    @property
    def reference_value_size(self):
        return int(np.prod(self.reference_value_shape))

    @property
    def num_sub_elements(self):
        return len(self.sub_elements)


class AbstractPullback:
    pass


class _Pull(AbstractPullback):
    def __init__(self, *a, **k):
        pass


class _IntM(int):
    """An int that may also be called (UFL changed its mind about that)."""

    def __call__(self):
        return int(self)


class Cell:
    def __init__(self, name):
        self._name = getattr(name, "name", name)

    def topological_dimension(self):
        return {"vertex": 0, "interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}[self._name]

    @property
    def geometric_dimension(self):
        return _IntM(self.topological_dimension())

    @property
    def cellname(self):
        n = self._name

        class _S(str):
            def __call__(self):
                return n
        return _S(n)

    def num_facets(self):
        return len(basix.topology(basix.CellType[self._name])[self.topological_dimension() - 1])

    def __eq__(self, o):
        return isinstance(o, Cell) and o._name == self._name

    def __hash__(self):
        return hash(("Cell", self._name))

    def __repr__(self):
        return f"Cell({self._name})"


class Domain:
    def __init__(self, cellname):
        self._cell = Cell(cellname)

    def ufl_cell(self):
        return self._cell

    def topological_dimension(self):
        return self._cell.topological_dimension()

    def geometric_dimension(self):
        return self._cell.topological_dimension()


class GeometricQuantity:
    def __init__(self, domain):
        self._domain = domain

    def ufl_domain(self):
        return self._domain


class Jacobian(GeometricQuantity):
    pass


class SpatialCoordinate(GeometricQuantity):
    pass


class Argument:
    def __init__(self, element, number):
        self._el, self._number = element, number

    def ufl_element(self):
        return self._el


class _DElement:
    """dolfinx.fem.FiniteElement"""

    def __init__(self, el):
        self.space_dimension = el.dim


class FunctionSpace:
    def __init__(self, el):
        self._el = el
        self.element = _DElement(el)

    def ufl_element(self):
        return self._el


class Coefficient:
    def __init__(self, el):
        self._V = FunctionSpace(el)

    def ufl_function_space(self):
        return self._V

    def ufl_element(self):
        return self._V._el


class Constant:
    """dolfinx.fem.Constant"""

    def __init__(self, domain=None, value=0.0):
        self.value = np.asarray(value)


class Mesh:
    pass


class Measure:
    def __init__(self, *a, **k):
        pass


class UIntegral:
    """A UFL integral as FFCx's analysis leaves it."""

    def __init__(self, itype, domain, metadata, terms):
        self._t, self._d, self._m, self.terms = itype, domain, metadata, terms

    def integral_type(self):
        return self._t

    def ufl_domain(self):
        return self._d

    def metadata(self):
        return self._m

    def integrand(self):
        return self.terms

    def subdomain_id(self):
        return 0

    def reconstruct(self, integrand=None, integral_type=None, domain=None, subdomain_id=None, metadata=None, subdomain_data=None):
        return UIntegral(integral_type or self._t, domain or self._d, self._m if metadata is None else metadata,
                         self.terms if integrand is None else integrand)


# ------------------------------------------------------------------------ ffcx
class QuadratureRule:
    def __init__(self, points, weights, tensor_factors=None):
        self.points = np.ascontiguousarray(points)
        self.weights = np.asarray(weights)
        self.tensor_factors = tensor_factors
        self.has_tensor_factors = tensor_factors is not None
        self._hash = None

    def __hash__(self):
        if self._hash is None:
            self.hash_obj = hashlib.sha1(self.points)
            self._hash = int(self.hash_obj.hexdigest(), 32)
        return self._hash

    def __eq__(self, other):
        return np.allclose(self.points, other.points) and np.allclose(self.weights, other.weights)

    def id(self):
        return self.hash_obj.hexdigest()[-3:]


FACET = {"triangle": "interval", "quadrilateral": "interval", "tetrahedron": "triangle", "hexahedron": "quadrilateral", "interval": "point"}


def create_quadrature_points_and_weights(integral_type, cell, degree, rule, elements, use_tensor_product=False):
    name = cell._name
    if integral_type != "cell":
        name = FACET[name]
    p, w = basix.make_quadrature(basix.CellType[name], degree)
    return {name: p}, {name: w}, {name: None}


class ModifiedTerminal:
    def __init__(self, terminal, element, component, derivs, restriction):
        self.terminal, self.restriction = terminal, restriction
        self.mte = ModifiedTerminalElement(element, None, derivs, component)
        self.flat_component, self.local_derivatives, self.averaged = component, derivs, None
        self.global_derivatives = ()

    def key(self):
        e = self.mte
        return (id(self.terminal) if not isinstance(self.terminal, GeometricQuantity) else type(self.terminal).__name__,
                repr(e.element), e.fc, e.local_derivatives, self.restriction)


class ModifiedTerminalElement:
    def __init__(self, element, averaged, local_derivatives, fc):
        self.element, self.averaged, self.local_derivatives, self.fc = element, averaged, local_derivatives, fc


def get_modified_terminal_element(mt):
    return mt.mte if mt.mte.element is not None else None


class TableRef:
    """UniqueTableReferenceT"""

    def __init__(self, name, values, offset, block_size, ttype, is_permuted):
        self.name, self.values, self.offset, self.block_size, self.ttype = name, values, offset, block_size, ttype
        self.is_piecewise = ttype in ("piecewise", "fixed", "ones", "zeros")
        self.is_uniform = ttype in ("fixed", "ones", "zeros", "uniform")
        self.is_permuted = is_permuted


class Graph:
    def __init__(self):
        self.nodes = {}


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


class CodeBlocks(tuple):
    """The named tuple of code blocks; each is a list of (declaration, implementation)."""

    _fields = ("file_pre", "integrals", "forms", "expressions", "file_post")

    def __new__(cls, *parts):
        return super().__new__(cls, parts)

    file_pre = property(lambda s: s[0])
    integrals = property(lambda s: s[1])
    forms = property(lambda s: s[2])
    expressions = property(lambda s: s[3])
    file_post = property(lambda s: s[4])

    def _replace(self, **k):
        return CodeBlocks(*[k.get(f, self[i]) for i, f in enumerate(self._fields)])

    def _asdict(self):
        return dict(zip(self._fields, self))


def map_facet_points(cellname, facet, pts):
    ct = basix.CellType[cellname]
    g = basix.geometry(ct)
    t = basix.topology(ct)[g.shape[1] - 1][facet]
    v = g[t]
    return np.array([v[0] + sum((v[1 + j] - v[0]) * p[j] for j in range(len(p))) for p in pts]).reshape(len(pts), g.shape[1])


def permute(fcell, pts, k):
    """The k-th view of a facet's points (FFCx's order)."""
    p = pts.copy()
    if fcell == "interval":
        return 1 - p if k else p
    rot, ref = divmod(k, 2)
    for _ in range(rot):
        p = np.array([[q[1], 1 - q[0] - q[1]] if fcell == "triangle" else [q[1], 1 - q[0]] for q in p])
    if ref:
        p = p[:, ::-1].copy()
    return p


NPERM = {"interval": 2, "triangle": 6, "quadrilateral": 8}


def eval_table(element, comp, derivs, pts):
    """(npts, ndofs) values of one component's derivative, offset and stride."""
    ce, off, stride = element.get_component_element(comp)
    nd = sum(derivs)
    t = np.asarray(ce.tabulate(nd, np.asarray(pts, dtype=float)))[basix.index(*derivs) if nd else 0]
    return t.reshape(len(pts), -1), off, stride


OPS = ("cos", "abs", "power", "sum", "quotient", "neg", "cond")
_FN = {"double": ("cos", "fabs", "pow"), "float": ("cosf", "fabsf", "powf"), "double _Complex": ("ccos", "cabs", "cpow"),
       "float _Complex": ("ccosf", "cabsf", "cpowf")}


def operation(k, S, a):
    """C text of an operation, as FFCx formats it."""
    fn = dict(zip(("cos", "abs", "power"), _FN[S]))
    if k in ("cos", "abs"):
        return f"{fn[k]}({a[0]})"
    if k == "power":
        return f"{fn[k]}({a[0]}, 2)"
    if k == "sum":
        return f"({a[0]} + {a[1]})"
    if k == "quotient":
        return f"({a[0]} / 4.0)"
    if k == "neg":
        return f"(-({a[0]}))" if a[0].startswith("-") else f"(-{a[0]})"
    return f"({a[0]} < {a[1]} ? {a[0]} : {a[1]})" if "_Complex" not in S else f"({a[0]} - {a[1]})"


def operate(k, cplx, a):
    a = [np.asarray(x, dtype=complex) for x in a]
    if k == "cos":
        return np.cos(a[0])
    if k == "abs":
        return np.abs(a[0]) + 0j
    if k == "power":
        return a[0] ** 2
    if k == "sum":
        return a[0] + a[1]
    if k == "quotient":
        return a[0] / 4.0
    if k == "neg":
        return -a[0]
    return np.where(a[0].real < a[1].real, a[0], a[1]) if not cplx else a[0] - a[1]


class IntegralMaker:
    """One integral's IR and code. `spec`: see kernel.py's generator."""

    def __init__(self, spec, numbering):
        self.s = spec
        self.num = numbering
        self.tables = {}          # name -> (array, ttype), in order of creation
        self.facet_tables = False
        self.coincidence = False  # a table looks constant at a rule's points only
        self.refs = {}            # (rule index, mt key) -> TableRef

    def full_table(self, rule, mt):
        """[perm][entity][point][dof] before any reduction."""
        s = self.s
        e = mt.mte
        cell = s["cell"]
        codim = Cell(cell).topological_dimension() - e.element.cell.topological_dimension()
        if s["itype"] == "cell":
            t, off, st = eval_table(e.element, e.fc, e.local_derivatives, rule.points)
            return t[None, None], off, st
        if codim == 1:
            t, off, st = eval_table(e.element, e.fc, e.local_derivatives, rule.points)
            return t[None, None], off, st
        fcell = FACET[cell]
        perms = range(NPERM[fcell]) if s["itype"] == "interior_facet" or s["mixed"] else range(1)
        out = []
        for k in perms:
            pts = permute(fcell, rule.points, k)
            row = []
            for f in range(Cell(cell).num_facets()):
                t, off, st = eval_table(e.element, e.fc, e.local_derivatives, map_facet_points(cell, f, pts))
                row.append(t)
            out.append(row)
        return np.array(out), off, st

    def really_constant(self, mt):
        e = mt.mte
        cell = self.s["cell"]
        rng = np.random.default_rng(7)
        own = e.element.cell._name
        if self.s["itype"] == "cell" or own != cell:
            sets = [rng.dirichlet(np.ones(len(basix.geometry(basix.CellType[own]))), 4) @ basix.geometry(basix.CellType[own])]
        else:
            fc = basix.geometry(basix.CellType[FACET[cell]])
            sets = [map_facet_points(cell, f, rng.dirichlet(np.ones(len(fc)), 4) @ fc) for f in range(Cell(cell).num_facets())]
        for pts in sets:
            t, _o, _s = eval_table(e.element, e.fc, e.local_derivatives, pts)
            if np.abs(t - t[0]).max() > 1e-5:
                return False
        return True

    def table(self, ri, mt):
        key = (ri, mt.key())
        if key in self.refs:
            return self.refs[key]
        rule = self.s["rules"][ri]["rule"]
        hash(rule)
        e = mt.mte
        tbl, off, st = self.full_table(rule, mt)
        tbl = np.where(np.abs(tbl) < 1e-9, 0.0, tbl)
        tbl = np.where(np.abs(tbl - 1) < 1e-9, 1.0, tbl)
        close = lambda a, b: a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-9)
        if np.all(tbl == 0):
            tt = "zeros"
        elif np.all(tbl == 1):
            tt = "ones"
        else:
            pw = all(close(tbl[:, :, 0], tbl[:, :, i]) for i in range(1, tbl.shape[2]))
            un = all(close(tbl[:, 0], tbl[:, i]) for i in range(1, tbl.shape[1]))
            tt = "fixed" if pw and un else "piecewise" if pw else "uniform" if un else "varying"
        if tt in ("fixed", "piecewise", "zeros", "ones"):
            tbl = tbl[:, :, :1]
        if tt in ("fixed", "uniform", "zeros", "ones"):
            tbl = tbl[:, :1]
        if tt not in ("zeros", "ones") and e.element.cell.topological_dimension() != Cell(self.s["cell"]).topological_dimension():
            self.facet_tables = True
        if tt in ("fixed", "piecewise") and not self.really_constant(mt):
            self.coincidence = True
        permuted = any(not close(tbl[0], tbl[i]) for i in range(1, tbl.shape[0]))
        if not permuted:
            tbl = tbl[:1]
        name = f"FE{self.num[repr(e.element)]}_C{e.fc}"
        if any(e.local_derivatives):
            name += "_D" + "".join(map(str, e.local_derivatives))
        if self.s["itype"] != "cell":
            name += "_F"
        name += f"_Q{rule.id()}"
        for n, (v, _t) in self.tables.items():
            if close(v, tbl):
                name = n
                break
        else:
            self.tables[name] = (tbl, tt)
        r = self.refs[key] = TableRef(name, self.tables[name][0], off, st, tt, permuted)
        return r

    # ------------------------------------------------------------------ code
    def access(self, tr, restr, iq, ic):
        """FFCx's table access."""
        ent = "0" if self.s["itype"] == "cell" else f"entity_local_index[{1 if restr == '-' else 0}]"
        if tr.is_uniform:
            ent = "0"
        if self.refs and self._codim1(tr):
            ent = "0"
        q = "0"
        if tr.is_permuted:
            q = f"quadrature_permutation[{1 if restr == '-' else 0}]"
        return f"{tr.name}[{q}][{ent}][{'0' if tr.is_piecewise else iq}][{ic}]"

    def _codim1(self, tr):
        return tr.values.shape[1] == 1

    def build(self):
        s = self.s
        tdim = Cell(s["cell"]).topological_dimension()
        S, R = s["ctype"], s["rtype"]
        nodes = {}
        pre, pre_seen = [], set()
        loops = []
        graphs = {}
        self.temp = 0

        for ri, r in enumerate(s["rules"]):
            rule = r["rule"]
            hash(rule)
            g = graphs[("domain", ri)] = Graph()
            body = []
            inter = []
            tensor = []
            seen = set()
            spn = [0]
            psp = []

            def node(mt, tr):
                g.nodes[len(g.nodes)] = {"mt": mt, "tr": tr, "status": "piecewise" if tr is not None and tr.is_piecewise else "varying"}

            def define(name, mt, tr, expr, n, out):
                """A sum over dofs with a table."""
                lines = ["// ------------------------ ", f"// Section: {name}", f"// Inputs: {tr.name}", f"// Outputs: {name}",
                         f"{S if name.startswith('w') else R} {name} = 0.0;", "{", f"  for (int ic = 0; ic < {n}; ++ic)", "  {",
                         f"    {name} += {expr('ic')} * {self.access(tr, mt.restriction, 'iq', 'ic')};" if tr.ttype != "ones" else f"    {name} += {expr('ic')};",
                         "  }", "}", "// ------------------------ "]
                out.append("\n".join(lines))

            def scalar(f):
                """(expression, piecewise?) of one scalar factor."""
                k = f[0]
                if k in OPS:
                    subs = [scalar(x) for x in f[1:]]
                    piece = all(p for _e, p in subs)
                    e = operation(k, S, [e for e, _p in subs])
                    if piece:
                        sp = f"sp_{rule.id()}_{spn[0]}"
                        spn[0] += 1
                        psp.append(f"{S} {sp} = {e};")
                        e = sp
                    return e, piece
                if k == "lit":
                    return repr(float(f[1])), True
                if k == "c":
                    return f"c[{f[1]}]", True
                if k == "ref":                     # a table of reference facet data
                    return f"{s['cell']}_reference_facet_scale[entity_local_index[{1 if f[1] == '-' else 0}]]", True
                mt = f[1]
                tr = self.table(ri, mt)
                node(mt, tr)
                if tr.ttype == "zeros":
                    return "0.0", True
                if k == "w":
                    cf = f[2]
                    off = s["coeff_offsets"][cf] + (s["coeffs"][cf].ufl_element().dim if mt.restriction == "-" else 0)
                    base = off + tr.offset
                    st = tr.block_size
                    d = "_d" + "".join(map(str, mt.local_derivatives)) if any(mt.local_derivatives) else ""
                    name = f"w{cf}{d}_c{mt.flat_component}" + ({"+": "_0", "-": "_1"}.get(mt.restriction, ""))
                    expr = lambda ic: f"w[{base} + {st} * ({ic})]" if base else (f"w[{st} * ({ic})]" if st != 1 else f"w[{ic}]")
                else:
                    side = 1 if mt.restriction == "-" else 0
                    tag = {"+": "0", "-": "1"}.get(mt.restriction, "")
                    ncd = s["coord"].dim // tdim
                    i = f[2]
                    if k == "J":
                        name = f"J{tag}_c{tdim * i + f[3]}"
                    else:
                        name = f"x{tag}_c{i}"
                    o = 3 * ncd * side + i
                    expr = lambda ic: f"coordinate_dofs[({ic}) * 3 + {o}]" if o else f"coordinate_dofs[({ic}) * 3]"
                n = tr.values.shape[3]
                if tr.is_piecewise:
                    if name not in pre_seen:
                        pre_seen.add(name)
                        define(name, mt, tr, expr, n, pre)
                else:
                    # FFCx gives every definition in a loop its own scope
                    if name not in seen:
                        seen.add(name)
                        define(name, mt, tr, expr, n, body)
                return name, tr.is_piecewise

            for ti, t in enumerate(r["terms"]):
                pw, vary = [], []
                for f in t["factors"]:
                    e, p = scalar(f)
                    (pw if p else vary).append(e)
                if pw:
                    # products of piecewise scalars, one operation at a time
                    acc = pw[0]
                    for e in pw[1:]:
                        sp = f"sp_{rule.id()}_{spn[0]}"
                        spn[0] += 1
                        op = t.get("op", "*")
                        psp.append(f"{S} {sp} = {acc} {op if op == '*' else '*'} {e};")
                        acc = sp
                    if len(pw) == 1 and acc.startswith("c["):
                        sp = f"sp_{rule.id()}_{spn[0]}"
                        spn[0] += 1
                        psp.append(f"{S} {sp} = {acc} * 1.0;" if t.get("style", 0) else f"{S} {sp} = ({acc});")
                        acc = sp
                    vary.append(acc)
                fw = f"fw{ti}"
                lines = []
                acc = vary[0] if vary else "1.0"
                for j, e in enumerate(vary[1:]):
                    sv = f"sv_{rule.id()}_{ti}_{j}"
                    lines.append(f"  {S} {sv} = {acc} * {e};")
                    acc = sv
                inter.append((fw, lines + [f"  {fw} = {acc} * weights_{rule.id()}[iq];"]))
                tensor.append((t, fw))
            pre.extend(psp)

            b = ["\n"] if body else ["\n"]
            b += [x + "\n" for x in body]
            b.append("// ------------------------ \n// Section: Intermediates\n")
            for fw, lines in inter:
                b.append(f"{S} {fw} = 0;\n{{\n" + "\n".join(lines) + "\n}\n")
            b.append("// ------------------------ \n")
            for t, fw in tensor:
                b.append("// ------------------------ \n// Section: Tensor Computation\n// Inputs: " + fw + "\n// Outputs: A\n{\n")
                args = []
                zero = False
                for mt in t["args"]:
                    tr = self.table(ri, mt)
                    node(mt, tr)
                    zero |= tr.ttype == "zeros"
                    args.append((mt, tr))
                if zero:
                    b.append("}\n// ------------------------ \n")
                    continue
                N = s["dims"]

                def idx(k, v):
                    mt, tr = args[k]
                    el = mt.mte.element
                    off = tr.offset + (el.dim if mt.restriction == "-" else 0)
                    st = tr.block_size
                    e = f"{st} * ({v})" if st != 1 else f"({v})"
                    return f"{e} + {off}" if off else e

                def fe(k, v):
                    mt, tr = args[k]
                    return "1" if tr.ttype == "ones" else self.access(tr, mt.restriction, "iq", v)
                if len(args) == 0:
                    b.append(f"  A[0] += {fw};\n")
                elif len(args) == 1:
                    n = args[0][1].values.shape[3]
                    b.append(f"  for (int i = 0; i < {n}; ++i)\n  {{\n    A[{idx(0, 'i')}] += {fw} * {fe(0, 'i')};\n  }}\n")
                else:
                    n, m = args[0][1].values.shape[3], args[1][1].values.shape[3]
                    if t.get("style", 0):
                        tmp = f"temp_{self.temp}"
                        self.temp += 1
                        b.append(f"  {S} {tmp}[{m}] = {{0}};\n  for (int j = 0; j < {m}; ++j)\n  {{\n    {tmp}[j] = {fw} * {fe(1, 'j')};\n  }}\n")
                        right = f"{tmp}[j]"
                    else:
                        right = f"{fw} * {fe(1, 'j')}"
                    b.append(f"  for (int j = 0; j < {m}; ++j)\n  {{\n    for (int i = 0; i < {n}; ++i)\n    {{\n"
                             f"      A[{N[1]} * ({idx(0, 'i')}) + ({idx(1, 'j')})] += {fe(0, 'i')} * {right};\n    }}\n  }}\n")
                b.append("}\n// ------------------------ \n")
            loops.append((len(rule.weights), "".join(b)))

        # ------------------------------------------------------------ assemble
        name = s["name"]
        fn = f"{name}_{s['cell']}"
        tdecl = []
        for n in sorted(self.tables):
            v, tt = self.tables[n]
            if tt in ("zeros", "ones"):
                continue
            fmt = lambda a: "{" + ", ".join(fmt(x) if np.ndim(x) else repr(float(x)) for x in a) + "}"
            tdecl.append(f"static const {R} {n}" + "".join(f"[{k}]" for k in v.shape) + " = " + fmt(v) + ";\n")
        W = "".join(f"static const {R} weights_{r['rule'].id()}[{len(r['rule'].weights)}] = {{" +
                    ", ".join(repr(float(x)) for x in r["rule"].weights) + "};\n" for r in s["rules"])
        code = f"// Code for integral {fn}\n\n"
        ind = " " * len(f"void tabulate_tensor_{fn}(")
        code += (f"void tabulate_tensor_{fn}({S}* restrict A,\n{ind}const {S}* restrict w,\n{ind}const {S}* restrict c,\n"
                 f"{ind}const {R}* restrict coordinate_dofs,\n{ind}const int* restrict entity_local_index,\n"
                 f"{ind}const uint8_t* restrict quadrature_permutation,\n{ind}void* custom_data)\n{{\n")
        code += "// Quadrature rules\n" + W
        code += "// Precomputed values of basis functions and precomputations\n// FE* dimensions: [permutation][entities][points][dofs]\n"
        code += "".join(tdecl)
        if s["itype"] != "cell":
            sc = s["ref_scale"]
            code += f"static const {R} {s['cell']}_reference_facet_scale[{len(sc)}] = {{" + ", ".join(repr(float(x)) for x in sc) + "};\n"
        code += "".join(p + "\n" for p in pre)
        for n, b in loops:
            code += f"for (int iq = 0; iq < {n}; ++iq)\n{{{b}}}\n"
        code += "\n}\n\n"
        en = ", ".join("1" for _ in s["coeffs"]) or None
        code += (f"bool enabled_coefficients_{fn}[{len(s['coeffs'])}] = {{{en}}};\n\n" if en else "")
        field = {"double": "float64", "float": "float32", "double _Complex": "complex128", "float _Complex": "complex64"}[S]
        code += (f"ufcx_integral {fn} =\n{{\n  .enabled_coefficients = {'enabled_coefficients_' + fn if en else 'NULL'},\n"
                 f"  .tabulate_tensor_{field} = tabulate_tensor_{fn},\n"
                 f"  .coordinate_element_hash = UINT64_C(0),\n  .domain = {len(s['coeffs'])},\n}};\n\n// End of code for integral {fn}\n")
        self.code = code
        self.decl = f"extern ufcx_integral {fn};\n"
        self.fn = fn

        types_ = {n: t for n, (v, t) in self.tables.items() if t not in ("zeros", "ones")}
        expr = Obj(coefficient_offsets={s["coeffs"][i]: o for i, o in enumerate(s["coeff_offsets"])},
                   original_constant_offsets=dict(s["constants"]), entity_type="cell" if s["itype"] == "cell" else "facet",
                   integral_type=s["itype"], name=name, unique_table_types={basix.CellType[s["cell"]]: types_},
                   unique_tables={basix.CellType[s["cell"]]: {n: self.tables[n][0] for n in types_}},
                   integrand={(basix.CellType[s["cell"]], r["rule"]): {"factorization": graphs[("domain", i)]} for i, r in enumerate(s["rules"])},
                   coordinate_element_hash=0, tensor_shape=list(s["dims"]), number_coordinate_dofs=s["coord"].dim)
        self.ir = Obj(expression=expr, enabled_coefficients=[True] * len(s["coeffs"]), rank=len(s["dims"]))
        return self


# The form under compilation: set by the scenario, read by the stubs.
class Job:
    def __init__(self):
        self.specs = []
        self.shuffle = None


job = Job()


class FormData:
    def __init__(self, integral_data, argument_elements):
        self.integral_data, self.argument_elements = integral_data, argument_elements


def analyze_ufl_objects(objs, scalar_type):
    """One form; the integrals of one type and domain are one IntegralData."""
    fds = []
    for spec in objs:
        ids = []
        for it in spec["integrals"]:
            ids.append(Obj(integral_type=it["itype"], subdomain_id=(0,), integrals=list(it["uintegrals"]), spec=it))
        fds.append(FormData(ids, spec["elements"]))
    return Obj(form_data=tuple(fds), unique_elements=[], element_numbers={}, unique_coordinate_elements=[], expressions=[])


def rule_of(u, fd):
    md = u.metadata()
    if md["quadrature_rule"] == "custom":
        p, w = np.array(md["quadrature_points"], dtype=float), np.array(md["quadrature_weights"], dtype=float)
    else:
        p, w, _ = create_quadrature_points_and_weights(u.integral_type(), u.ufl_domain().ufl_cell(), md["quadrature_degree"],
                                                       md["quadrature_rule"], fd.argument_elements)
        p, w = next(iter(p.values())), next(iter(w.values()))
    return QuadratureRule(p, w)


def compute_ir(analysis, object_names, prefix, options, visualise=False):
    irs, forms = [], []
    for fd in analysis.form_data:
        names, ids = {}, {}
        for d in fd.integral_data:
            s = dict(d.spec)
            rules = []
            for u in d.integrals:
                r = rule_of(u, fd)
                hash(r)
                for q in rules:
                    if hash(q["rule"]) == hash(r):
                        q["terms"] += u.integrand()
                        break
                else:
                    rules.append({"rule": r, "terms": list(u.integrand())})
            s["rules"] = rules
            m = IntegralMaker(s, job.numbering).build()
            m.ir.maker = m
            irs.append(m.ir)
            names.setdefault(s["itype"], []).append(s["name"])
            ids.setdefault(s["itype"], []).append(d.subdomain_id[0])
        forms.append(Obj(integral_names=names, subdomain_ids=ids, name="form"))
    job.irs = irs
    return Obj(integrals=irs, forms=forms, expressions=[])


HEADER = """// This code conforms with the UFC specification version 2018.2.0.dev0
// and was automatically generated by FFCx version 0.10.0.

#include <math.h>
#include <stdalign.h>
#include <stdlib.h>
#include <string.h>
#include <complex.h>
#include <stdbool.h>
#include <stdint.h>
#include <ufcx.h>

"""
UFCX = """#pragma once
#include <stdbool.h>
#include <stdint.h>
#include <complex.h>
#define UFCX_K(S, R) void (S* restrict A, const S* restrict w, const S* restrict c, const R* restrict x, const int* restrict e, const uint8_t* restrict p, void* custom_data)
typedef struct ufcx_integral {
  bool* enabled_coefficients;
  void (*tabulate_tensor_float32)(float* restrict, const float* restrict, const float* restrict, const float* restrict, const int* restrict, const uint8_t* restrict, void*);
  void (*tabulate_tensor_float64)(double* restrict, const double* restrict, const double* restrict, const double* restrict, const int* restrict, const uint8_t* restrict, void*);
  void (*tabulate_tensor_complex64)(float _Complex* restrict, const float _Complex* restrict, const float _Complex* restrict, const float* restrict, const int* restrict, const uint8_t* restrict, void*);
  void (*tabulate_tensor_complex128)(double _Complex* restrict, const double _Complex* restrict, const double _Complex* restrict, const double* restrict, const int* restrict, const uint8_t* restrict, void*);
  uint64_t coordinate_element_hash;
  uint8_t domain;
} ufcx_integral;
"""


def generate_code(ir, options):
    return CodeBlocks([("#include <ufcx.h>\n", HEADER)], [(i.maker.decl, i.maker.code) for i in ir.integrals], [], [], [("", "")])


def format_code(code):
    h = "".join(d for b in code for d, _ in b)
    c = "".join(x for b in code for _, x in b)
    return h, c


def fill(m):
    """Gives a freshly created stand-in module its contents."""
    n = m.__name__
    put = lambda **k: m.__dict__.update(k)
    if n == "ufl":
        for p in ("identity_pullback", "l2_piola", "contravariant_piola", "covariant_piola", "double_contravariant_piola", "double_covariant_piola"):
            m.__dict__[p] = _Pull()
        put(Measure=Measure, Cell=Cell, sobolevspace=importlib.import_module("ufl.sobolevspace"), cell=importlib.import_module("ufl.cell"))
    elif n == "ufl.sobolevspace":
        for p in ("L2", "H1", "H2", "HInf", "HDiv", "HCurl", "HEin", "HDivDiv"):
            m.__dict__[p] = p
    elif n == "ufl.cell":
        put(Cell=Cell)
    elif n == "ufl.finiteelement":
        put(AbstractFiniteElement=AbstractFiniteElement)
    elif n == "ufl.pullback":
        put(AbstractPullback=AbstractPullback, IdentityPullback=type("IdentityPullback", (_Pull,), {}), MixedPullback=type("MixedPullback", (_Pull,), {}),
            SymmetricPullback=type("SymmetricPullback", (_Pull,), {}), UndefinedPullback=type("UndefinedPullback", (_Pull,), {}))
    elif n == "ufl.geometry":
        put(GeometricQuantity=GeometricQuantity, Jacobian=Jacobian, SpatialCoordinate=SpatialCoordinate)
    elif n == "ufl.domain":
        put(extract_unique_domain=lambda t: t.ufl_domain())
    elif n == "ufl.classes":
        put(Jacobian=Jacobian, SpatialCoordinate=SpatialCoordinate, GeometricQuantity=GeometricQuantity)
    elif n == "ufl.measure":
        put(Measure=Measure, integral_type_to_measure_name={"cell": "dx"})
    elif n == "dolfinx.fem":
        put(Constant=Constant)
    elif n == "dolfinx.mesh":
        put(Mesh=Mesh)
    elif n == "ffcx.analysis":
        put(analyze_ufl_objects=analyze_ufl_objects)
    elif n == "ffcx.ir.representation":
        put(compute_ir=compute_ir)
    elif n == "ffcx.ir.representationutils":
        put(QuadratureRule=QuadratureRule, create_quadrature_points_and_weights=create_quadrature_points_and_weights)
    elif n == "ffcx.ir.elementtables":
        put(get_modified_terminal_element=get_modified_terminal_element)
    elif n == "ffcx.codegeneration.codegeneration":
        put(generate_code=generate_code, CodeBlocks=CodeBlocks)
    elif n == "ffcx.formatting":
        put(format_code=format_code)
    elif n == "qugar.utils":
        put(has_FEniCSx=True, has_PETSc=False, has_VTK=False)


_ready = False


def install():
    global _ready
    if _ready:
        return
    _ready = True
    sys.meta_path.insert(0, AutoFinder())
    q = types.ModuleType("qugar")
    q.__path__ = [QROOT]
    d = types.ModuleType("qugar.dolfinx")
    d.__path__ = [QROOT + "/dolfinx"]
    sys.modules["qugar"], sys.modules["qugar.dolfinx"] = q, d
    q.dolfinx = d
    importlib.import_module("basix.ufl")
    return importlib.import_module("qugar.dolfinx.compiler")
