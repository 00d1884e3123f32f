"""Stand-ins for dolfinx 0.10, ufl, ffcx, mpi4py, petsc4py, basix.ufl and qugar.cpp.

The stand-ins follow the documented behaviour of those packages where the code
under test depends on it: the distributed mesh (partition, ghost cells, local
renumbering, entity permutations), UFL forms and measures, FFCx's grouping of
integrals by subdomain id, DOLFINx's lookup of integration entities and packing
of coefficients. They run inside the simulator: collective calls rendezvous
through it, and every call may be made to fail.
"""

from __future__ import annotations

import enum
import importlib.abc
import importlib.util
import os
import random
import sys
import re
import types
from itertools import chain

import numpy as np
import basix

from simpy.core import Violation, current_task

REPO = os.environ.get("VERIF_REPO", "/repo")
QROOT = REPO + "/python/qugar"


def S():
    t = current_task()
    return t.sim if t is not None else None


def step(what):
    s = S()
    if s is not None and not s.in_invariant:
        s.step(what)


_ROOTS = ("dolfinx", "mpi4py", "petsc4py", "scipy", "ufl", "ffcx", "basix.ufl", "qugar.cpp", "qugar.impl")


def stub_gap(e):
    """What the stand-ins lack of the real interface, if that is why e was raised."""
    while e is not None:
        if isinstance(e, AttributeError) and e.name:
            o = e.obj
            if isinstance(o, types.ModuleType):
                if any(o.__name__ == q or o.__name__.startswith(q + ".") for q in _ROOTS):
                    return f"{o.__name__}.{e.name}"
            elif (o if isinstance(o, type) else type(o)).__module__ == __name__:
                return f"{(o if isinstance(o, type) else type(o)).__name__}.{e.name}"
        if isinstance(e, ImportError) and e.name and any(e.name == q or e.name.startswith(q + ".") for q in _ROOTS):
            return str(e)
        if isinstance(e, TypeError):
            m = re.match(r"(?:\w+\.|<\w+>\.)*(\w+)\(\) (?:got an unexpected keyword|got some positional|takes |missing )", str(e))
            if m and m.group(1) in _own_functions() or re.match(r"\w+\(\) takes no arguments", str(e)):
                return str(e)
        e = e.__cause__ or e.__context__
    return None


def _own_functions():
    if not _own:
        import ast
        with open(__file__) as fh:
            _own.update(n.name for n in ast.walk(ast.parse(fh.read())) if isinstance(n, ast.FunctionDef) and n.name != "__init__")
    return _own


_own = set()


class InjectedError(RuntimeError):
    """A stand-in was told to fail."""


def may_fail(kind):
    s = S()
    if s is None:
        return
    step(kind)
    if s.fault(kind, s.cfg.get("p_" + kind, 0.0)):
        if s.pick("fault-form", 2):
            raise MemoryError("injected " + kind)
        raise InjectedError("injected " + kind)


# ------------------------------------------------------------------- communicator
class Group:
    def __init__(self, size):
        self.size = size
        self.calls = {}       # seq -> {"kind":, "vals": {rank: v}, "out":}


class Comm:
    def __init__(self, group, rank):
        self.group, self.rank, self.size = group, rank, group.size
        self._seq = 0

    def _exchange(self, kind, val, combine):
        """Every rank's value, combined once; ranks must make the same calls."""
        seq, self._seq = self._seq, self._seq + 1
        c = self.group.calls.setdefault(seq, {"kind": kind, "vals": {}, "out": None, "done": False})
        if c["kind"] != kind:
            raise Violation("collective-mismatch", f"rank {self.rank} entered {kind} while another rank entered {c['kind']}")
        c["vals"][self.rank] = val
        s = S()
        if len(c["vals"]) < self.size:
            s.wait(lambda: len(c["vals"]) == self.size, "collective " + kind)
        else:
            step("collective " + kind)
        if not c["done"]:
            c["out"] = combine([c["vals"][r] for r in range(self.size)])
            c["done"] = True
        return c["out"]

    def allgather(self, v):
        return list(self._exchange("allgather", v, list))

    def gather(self, v, root=0):
        out = self._exchange(f"gather{root}", v, list)
        return list(out) if self.rank == root else None

    def bcast(self, v, root=0):
        return self._exchange(f"bcast{root}", v, lambda vs: vs[root])

    def allreduce(self, v, op=None):
        def comb(vs):
            out = vs[0]
            for x in vs[1:]:
                out = op(out, x) if op is not None else out + x
            return out
        return self._exchange("allreduce", v, comb)

    def Barrier(self):
        self._exchange("barrier", None, lambda v: None)

    barrier = Barrier

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size


# --------------------------------------------------------------------------- mesh
class CppCellType(enum.Enum):
    point = 1
    interval = 2
    triangle = 3
    tetrahedron = 4
    quadrilateral = -4
    hexahedron = -8


class GhostMode(enum.Enum):
    none = 0
    shared_facet = 1
    shared_vertex = 2


class Adj:
    def __init__(self, rows):
        self.rows = [np.array(r, dtype=np.int32).reshape(-1) for r in rows]
        self.num_nodes = len(self.rows)
        self.array = np.concatenate(self.rows) if self.rows else np.empty(0, np.int32)
        self.offsets = np.concatenate(([0], np.cumsum([len(r) for r in self.rows]))).astype(np.int32)

    def links(self, i):
        return self.rows[i]


class IndexMap:
    def __init__(self, lo, n_owned, ghosts, total):
        self.size_local, self.num_ghosts = int(n_owned), len(ghosts)
        self.local_range = (int(lo), int(lo + n_owned))
        self.size_global = int(total)
        self.ghosts = np.array(ghosts, dtype=np.int64)

    def local_to_global(self, loc):
        loc = np.asarray(loc)
        allg = np.concatenate((np.arange(*self.local_range, dtype=np.int64), self.ghosts))
        if loc.size and (loc.min() < 0 or loc.max() >= allg.size):
            raise IndexError("local index out of range")
        return allg[loc]


class Topology:
    def __init__(self, tdim, cell_type):
        self.dim, self.cell_type = tdim, cell_type
        self.original_cell_index = None
        self._maps, self._conn, self._perm, self._inter = {}, {}, None, None
        self._made, self._perm_made = set(), False

    def index_map(self, d):
        return self._maps.get(d)

    def create_entities(self, d):
        self._made.add((d, 0))

    def create_connectivity(self, a, b):
        step("create_connectivity")
        self._made.add((a, b))

    def connectivity(self, a, b):
        if (a, b) not in self._made and not {a, b} == {self.dim, 0}:
            return None
        return self._conn[(a, b)]

    def create_entity_permutations(self):
        self._perm_made = True

    def get_facet_permutations(self):
        if not self._perm_made:
            raise RuntimeError("create_entity_permutations must be called before using this data.")
        return self._perm.copy()

    @property
    def _cpp_object(self):
        return self

    def interprocess_facets(self):
        return self._inter


class Geometry:
    pass


class CppMesh:
    def __init__(self, comm, topology, geometry):
        self.comm, self.topology, self.geometry = comm, topology, geometry


# facet permutation of a quadrilateral face: see DOLFINx permutationcomputation.cpp
_QUAD = {0: (0, 2, 1), 1: (1, 0, 3), 2: (3, 2, 0), 3: (2, 1, 3)}   # number of rotations, vertex before, vertex after (min index 0..3)


def quad_perm(v):
    """Rotations and reflection taking face vertices v to the low-to-high frame."""
    m = int(np.argmin(v))
    rots, pre, post = _QUAD[m]
    return 2 * rots + (1 if v[post] > v[pre] else 0)


def build_meshes(vals, seed):
    """All ranks' local meshes from the gathered connectivity (the partitioner's work)."""
    R = len(vals)
    conn = np.concatenate([v["conn"] for v in vals])
    x = np.concatenate([v["x"] for v in vals])
    modes = {v["ghost"] for v in vals}
    if len(modes) > 1:
        raise Violation("collective-mismatch", f"ranks disagree on the ghost mode: {modes}")
    ghost = modes.pop()
    cell_type, tdim = vals[0]["cell_type"], vals[0]["tdim"]
    bct = getattr(basix.CellType, cell_type.name)
    nv = 2 ** tdim
    facets_of = basix.topology(bct)[tdim - 1]
    r = random.Random(f"mesh/{seed}")
    nc = len(conn)
    # owner of each cell
    if R == 1:
        owner = [0] * nc
    else:
        style = r.choice(["chunk", "random", "stripe", "skew"])
        if style == "chunk":
            cuts = sorted(r.randint(0, nc) for _ in range(R - 1))
            owner = [sum(1 for c in cuts if i >= c) for i in range(nc)]
        elif style == "random":
            owner = [r.randrange(R) for _ in range(nc)]
        elif style == "stripe":
            owner = [i % R for i in range(nc)]
        else:
            owner = [0 if r.random() < 0.8 else r.randrange(R) for _ in range(nc)]
    verts = [tuple(int(a) for a in conn[c][:nv]) for c in range(nc)]
    used = sorted({v for t in verts for v in t})
    perm = used[:]
    r.shuffle(perm)
    vglob = {v: i for i, v in enumerate(perm)}      # global vertex numbering after reordering
    fkey = {}
    fcells = []
    cf = []
    for c in range(nc):
        row = []
        for f in facets_of:
            k = tuple(sorted(verts[c][j] for j in f))
            if k not in fkey:
                fkey[k] = len(fcells)
                fcells.append([])
            fcells[fkey[k]].append(c)
            row.append(fkey[k])
        cf.append(row)
    fowner = [r.choice(sorted({owner[c] for c in cs})) for cs in fcells]
    # local cells: owned then ghosts, each shuffled
    local_cells, nown = [], []
    for q in range(R):
        own = [c for c in range(nc) if owner[c] == q]
        gh = []
        if ghost != GhostMode.none and R > 1:
            gh = sorted({d for c in own for f in cf[c] for d in fcells[f] if owner[d] != q})
        r.shuffle(own)
        r.shuffle(gh)
        local_cells.append(own + gh)
        nown.append(len(own))
    cglob, lo = {}, []
    n = 0
    for q in range(R):
        lo.append(n)
        for c in local_cells[q][:nown[q]]:
            cglob[c] = n
            n += 1
    local_facets, nfown = [], []
    for q in range(R):
        fs = sorted({f for c in local_cells[q] for f in cf[c]})
        own = [f for f in fs if fowner[f] == q]
        gh = [f for f in fs if fowner[f] != q]
        r.shuffle(own)
        r.shuffle(gh)
        local_facets.append(own + gh)
        nfown.append(len(own))
    fglob, flo = {}, []
    n = 0
    for q in range(R):
        flo.append(n)
        for f in local_facets[q][:nfown[q]]:
            fglob[f] = n
            n += 1
    nodes_used = sorted({int(a) for row in conn for a in row})
    nowner = {}
    for c in range(nc):
        for a in conn[c]:
            nowner[int(a)] = min(nowner.get(int(a), R), owner[c])
    meshes = []
    for q in range(R):
        top = Topology(tdim, cell_type)
        lc, lf = local_cells[q], local_facets[q]
        top.original_cell_index = np.array(lc, dtype=np.int64)
        top._maps[tdim] = IndexMap(lo[q], nown[q], [cglob[c] for c in lc[nown[q]:]], nc)
        top._maps[tdim - 1] = IndexMap(flo[q], nfown[q], [fglob[f] for f in lf[nfown[q]:]], len(fcells))
        fi = {f: i for i, f in enumerate(lf)}
        ci = {c: i for i, c in enumerate(lc)}
        top._conn[(tdim, tdim - 1)] = Adj([[fi[f] for f in cf[c]] for c in lc])
        top._conn[(tdim - 1, tdim)] = Adj([sorted(ci[c] for c in fcells[f] if c in ci) for f in lf])
        lv = sorted({v for c in lc for v in verts[c]})
        r.shuffle(lv)
        vi = {v: i for i, v in enumerate(lv)}
        top._conn[(tdim, 0)] = Adj([[vi[v] for v in verts[c]] for c in lc])
        top._maps[0] = IndexMap(0, len(lv), [], len(lv))
        pr = []
        for c in lc:
            for f in facets_of:
                g = [vglob[verts[c][j]] for j in f]
                if tdim == 1:
                    pr.append(0)
                elif tdim == 2:
                    pr.append(1 if g[0] > g[1] else 0)
                else:
                    pr.append(quad_perm(g))
        top._perm = np.array(pr, dtype=np.uint8)
        top._exterior = np.array(sorted(i for i in range(nfown[q]) if len(fcells[lf[i]]) == 1), dtype=np.int32)
        top._inter = np.array([i for i, f in enumerate(lf) if len({owner[c] for c in fcells[f]}) > 1], dtype=np.int32)
        geo = Geometry()
        ln = sorted({int(a) for c in lc for a in conn[c]})
        own = [a for a in ln if nowner[a] == q]
        gh = [a for a in ln if nowner[a] != q]
        r.shuffle(own)
        r.shuffle(gh)
        ln = own + gh
        ni = {a: i for i, a in enumerate(ln)}
        geo.dim = x.shape[1]
        geo.x = np.zeros((len(ln), 3), dtype=x.dtype)
        if ln:
            geo.x[:, :x.shape[1]] = x[ln]
        geo.input_global_indices = np.array(ln, dtype=np.int64)
        geo.dofmap = np.array([[ni[int(a)] for a in conn[c]] for c in lc], dtype=np.int32).reshape(len(lc), conn.shape[1])
        m = CppMesh(vals[q]["comm"], top, geo)
        # what really happened, for the oracles
        m.truth = {"orig": list(lc), "n_owned": nown[q], "facets": list(lf), "n_fowned": nfown[q],
                   "fcells": fcells, "owner": owner, "fowner": fowner, "cf": cf, "nodes_used": nodes_used}
        meshes.append(m)
    return meshes


def create_mesh(comm, conn, cmap, x, partitioner):
    conn = np.asarray(conn)
    if conn.ndim != 2 or conn.shape[1] != cmap.dim:
        raise RuntimeError(f"connectivity with {conn.shape} for {cmap.dim} nodes per cell")
    x = np.asarray(x)
    if x.ndim == 1:
        x = x.reshape(-1, 1)
    ghost = partitioner.ghost if partitioner is not None else GhostMode.none
    if not isinstance(ghost, GhostMode):
        raise TypeError("create_cell_partitioner(): incompatible function arguments")
    seed = S().run_seed
    out = comm._exchange("create_mesh", {"conn": conn, "x": x, "ghost": ghost, "cell_type": cmap.cell_type, "tdim": cmap.tdim, "comm": comm},
                         lambda vals: build_meshes(vals, seed))
    return out[comm.rank]


CREATED = "created"


def dlf_create_mesh(comm, cells, e, x, partitioner=None, *rest):
    """dolfinx.mesh.create_mesh: rows of x are numbered over all ranks, and cells name their nodes by those numbers."""
    el = e.ufl_coordinate_element() if hasattr(e, "ufl_coordinate_element") else e
    x = np.asarray(x, dtype=el.dtype, order="C")
    cells = np.asarray(cells)
    el = getattr(el, "basix_element", el)
    tdim = {"interval": 1, "quadrilateral": 2, "hexahedron": 3}[el.cell_type.name]
    if cells.ndim != 2 or cells.dtype != np.int64 or cells.shape[1] != (el.degree + 1) ** tdim or x.ndim != 2 or el.shape != (x.shape[1],):
        raise RuntimeError(f"cells {cells.shape} of {cells.dtype} and points {x.shape} for an element of degree {el.degree} on {el.cell_type.name}, shape {el.shape}")
    if partitioner is not None:
        # vertices only: the first nodes of a cell
        adj = partitioner(comm, comm.size, [CppCellType[el.cell_type.name]], [cells[:, :2 ** tdim].flatten()])
        if adj.num_nodes != len(cells) or any(len(r) == 0 or (r < 0).any() or (r >= comm.size).any() for r in adj.rows):
            raise RuntimeError(f"the partitioner sent {adj.num_nodes} of {len(cells)} cells, to {[r.tolist() for r in adj.rows][:4]}")

    def combine(vals):
        allx = np.concatenate([v[1] for v in vals])
        out = [allx[row] for v in vals for row in v[0]]
        return out, tdim, el.degree
    return types.SimpleNamespace(**{CREATED: comm._exchange("dlf_create_mesh", (cells, x), combine)}, comm=comm)


class Partitioner:
    def __init__(self, ghost):
        self.ghost = ghost


class CoordElement:
    def __init__(self, basix_element):
        self.tdim = {"interval": 1, "quadrilateral": 2, "hexahedron": 3}[basix_element.cell_type.name]
        self.cell_type = CppCellType[basix_element.cell_type.name]
        self.dim = (basix_element.degree + 1) ** self.tdim
        self._cpp_object = self


class _BElement:
    def __init__(self, family, cell_type, degree, shape=None, dtype=None, **kw):
        self.family, self.cell_type, self.degree, self.shape, self.dtype = family, cell_type, degree, shape, dtype
        self.basix_element = self


class PyMesh:
    def __init__(self, msh, domain):
        self._cpp_object = msh
        self._topology = msh.topology
        self._geometry = msh.geometry
        self._ufl_domain = domain
        if domain is not None:
            domain._ufl_cargo = msh

    @property
    def comm(self):
        return self._cpp_object.comm

    @property
    def topology(self):
        return self._topology

    @property
    def geometry(self):
        return self._geometry

    def ufl_domain(self):
        return self._ufl_domain

    def ufl_cell(self):
        return self._ufl_domain.ufl_cell()


class MeshTags:
    def __init__(self, mesh, dim, entities, values):
        self._mesh, self.dim = mesh, dim
        self.topology = mesh.topology
        self.indices = np.asarray(entities, dtype=np.int32)
        self.values = np.asarray(values)
        if self.indices.shape != self.values.shape:
            raise RuntimeError("indices and values must have the same size")
        if self.indices.size and np.any(np.diff(self.indices) <= 0):
            raise RuntimeError("MeshTags: indices must be sorted and unique")
        self._cpp_object = self

    def find(self, v):
        return self.indices[self.values == v]


def meshtags(mesh, dim, entities, values):
    step("meshtags")
    return MeshTags(mesh, dim, entities, values)


def exterior_facet_indices(topology):
    step("exterior_facet_indices")
    return topology._exterior.copy()


# ---------------------------------------------------------------------------- ufl
def _times(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 2 and a.shape[1] == b.shape[0]:
        return a @ b
    raise ValueError(f"Invalid ranks {a.ndim} and {b.ndim} in product.")


VALUE = {"*": _times, "/": lambda a, b: a / b, "+": np.add, "-": np.subtract, "neg": np.negative, "**": np.power, "sqrt": np.sqrt,
         "inner": lambda a, b: np.sum(a * b), "dot": lambda a, b: np.asarray(a) @ np.asarray(b), "inv": np.linalg.inv, "transpose": np.transpose,
         "det": np.linalg.det}


class Expr:
    def __init__(self, name, coeffs=(), args=(), consts=()):
        self.name, self.coeffs, self.args, self.consts = name, tuple(coeffs), tuple(args), tuple(consts)
        self.val = None            # its value at some point, where a scenario cares
        self.live = self.coeffs    # what is left when FFCx has applied derivatives and simplified

    @property
    def ufl_shape(self):
        return np.shape(self.val) if self.val is not None else ()

    def _mix(self, op, *others):
        if any(o is None for o in others):
            raise ValueError("Invalid type conversion: None can not be converted to any UFL type.")
        xs = [self] + [o if isinstance(o, Expr) else Expr(repr(o)) for o in others]
        u = lambda a: tuple(dict.fromkeys(chain(*[getattr(e, a) for e in xs])))      # noqa: E731
        e = Expr(op + "(" + ",".join(e.name for e in xs) + ")", u("coeffs"), u("args"), u("consts"))
        e.live = u("live")
        vals = [np.asarray(o, dtype=float) if isinstance(o, (int, float)) else getattr(o, "val", None) for o in (self,) + others]
        if op in VALUE and all(v is not None for v in vals):
            e.val = VALUE[op](*vals)
        return e

    @property
    def T(self):
        return self._mix("transpose")

    def __mul__(self, o):
        if isinstance(o, Measure):
            return NotImplemented
        return self._mix("*", o)

    def __rmul__(self, o):
        return Expr(repr(o))._mix("*", self)

    def __truediv__(self, o):
        return self._mix("/", o)

    def __add__(self, o):
        return self._mix("+", o)

    def __sub__(self, o):
        return self._mix("-", o)

    def __neg__(self):
        return self._mix("neg")

    def __pow__(self, o):
        return self._mix("**", o)

    def __repr__(self):
        return self.name


def _fn(name):
    def f(*a, **k):
        return a[0]._mix(name, *a[1:])
    f.__name__ = name
    return f


class UflMesh:
    def __init__(self, element):
        self._element = element
        self._ufl_cargo = None

    def ufl_coordinate_element(self):
        return self._element

    def ufl_cargo(self):
        return self._ufl_cargo

    def ufl_cell(self):
        return Cell(self._element.cell_type.name)


class Cell:
    _sub = {"interval": ("point", 2), "quadrilateral": ("interval", 4), "hexahedron": ("quadrilateral", 6), "triangle": ("interval", 3), "tetrahedron": ("triangle", 4)}
    _dim = {"point": 0, "interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}

    def __init__(self, name):
        self._name = name

    def cellname(self):
        return self._name

    def topological_dimension(self):
        return self._dim[self._name]

    def num_sub_entities(self, d):
        assert d == self._dim[self._name] - 1
        return self._sub[self._name][1]

    def sub_entity_types(self, d):
        assert d == self._dim[self._name] - 1
        return (Cell(self._sub[self._name][0]),)

    def __eq__(self, o):
        return isinstance(o, Cell) and o._name == self._name

    def __hash__(self):
        return hash(("Cell", self._name))

    def __repr__(self):
        return self._name


class Integral:
    def __init__(self, integrand, integral_type, domain, subdomain_id, metadata, subdomain_data):
        self._integrand, self._integral_type, self._ufl_domain = integrand, integral_type, domain
        self._subdomain_id, self._metadata, self._subdomain_data = subdomain_id, metadata, subdomain_data

    def integrand(self):
        return self._integrand

    def integral_type(self):
        return self._integral_type

    def ufl_domain(self):
        return self._ufl_domain

    def subdomain_id(self):
        return self._subdomain_id

    def metadata(self):
        return self._metadata

    def subdomain_data(self):
        return self._subdomain_data

    def reconstruct(self, integrand=None, integral_type=None, domain=None, subdomain_id=None, metadata=None, subdomain_data=None):
        return Integral(self._integrand if integrand is None else integrand,
                        self._integral_type if integral_type is None else integral_type,
                        self._ufl_domain if domain is None else domain,
                        self._subdomain_id if subdomain_id is None else subdomain_id,
                        self._metadata if metadata is None else metadata,
                        self._subdomain_data if subdomain_data is None else subdomain_data)


def _idkey(i):
    return (type(i).__name__, i)


class Form:
    def __init__(self, integrals):
        if not all(isinstance(i, Integral) for i in integrals):
            raise ValueError("Expecting list of integrals.")
        self._integrals = tuple(sorted(integrals, key=lambda g: (g.integral_type(), _idkey(g.subdomain_id()))))
        self._subdomain_data = None
        self._hash = None
        self._signature = None

    def integrals(self):
        return self._integrals

    def empty(self):
        return len(self._integrals) == 0

    def ufl_domains(self):
        return tuple(dict.fromkeys(i.ufl_domain() for i in self._integrals))

    def subdomain_data(self):
        if self._subdomain_data is None:
            sd = {d: {} for d in self.ufl_domains()}
            for g in self._integrals:
                sd[g.ufl_domain()].setdefault(g.integral_type(), []).append(g.subdomain_data())
            self._subdomain_data = sd
        return self._subdomain_data

    def _terms(self, a):
        return tuple(dict.fromkeys(chain(*[getattr(g.integrand(), a) for g in self._integrals])))

    def arguments(self):
        return tuple(sorted(self._terms("args"), key=lambda a: a.number))

    def coefficients(self):
        return tuple(sorted(self._terms("coeffs"), key=lambda c: c.count))

    def constants(self):
        return self._terms("consts")

    def __add__(self, o):
        if isinstance(o, (int, float)) and o == 0:
            return self
        return Form(list(self._integrals) + list(o._integrals))

    __radd__ = __add__


class Measure:
    def __init__(self, integral_type, domain=None, subdomain_id="everywhere", metadata=None, subdomain_data=None):
        self._integral_type = {"dx": "cell", "ds": "exterior_facet", "dS": "interior_facet"}.get(integral_type, integral_type)
        self._domain = getattr(domain, "_ufl_domain", domain)
        self._subdomain_id = subdomain_id
        self._metadata = metadata or {}
        self._subdomain_data = subdomain_data

    def integral_type(self):
        return self._integral_type

    def ufl_domain(self):
        return self._domain

    def subdomain_id(self):
        return self._subdomain_id

    def metadata(self):
        return self._metadata

    def subdomain_data(self):
        return self._subdomain_data

    def reconstruct(self, integral_type=None, subdomain_id=None, domain=None, metadata=None, subdomain_data=None):
        return Measure(self.integral_type() if integral_type is None else integral_type,
                       domain=self.ufl_domain() if domain is None else domain,
                       subdomain_id=self.subdomain_id() if subdomain_id is None else subdomain_id,
                       metadata=self.metadata() if metadata is None else metadata,
                       subdomain_data=self.subdomain_data() if subdomain_data is None else subdomain_data)

    def __call__(self, subdomain_id=None, metadata=None, domain=None, subdomain_data=None, degree=None, scheme=None):
        if degree is not None or scheme is not None:
            metadata = {} if metadata is None else metadata.copy()
            if degree is not None:
                metadata["quadrature_degree"] = degree
            if scheme is not None:
                metadata["quadrature_rule"] = scheme
        return self.reconstruct(subdomain_id=subdomain_id, domain=domain, metadata=metadata, subdomain_data=subdomain_data)

    def __rmul__(self, integrand):
        if isinstance(integrand, (int, float)):
            integrand = Expr(repr(integrand))
        if not isinstance(integrand, Expr):
            return NotImplemented
        sid = self.subdomain_id()
        if isinstance(sid, tuple):
            return Form(list(chain(*[(integrand * self.reconstruct(subdomain_id=d)).integrals() for d in sid])))
        return Form([Integral(integrand, self.integral_type(), self.ufl_domain(), sid, self.metadata(), self.subdomain_data())])

    def __str__(self):
        return f"{self._integral_type}({self._subdomain_id})"

    def __repr__(self):
        return f"Measure({self._integral_type!r}, {self._subdomain_id!r})"

    def __hash__(self):
        return hash((self._integral_type, self._subdomain_id))

    def __eq__(self, o):
        return (isinstance(o, Measure) and self._integral_type == o._integral_type and self._subdomain_id == o._subdomain_id
                and self._domain is o._domain and self._metadata == o._metadata)


class Argument(Expr):
    def __init__(self, V, number):
        super().__init__(f"v{number}", args=())
        self.args = (self,)
        self.number, self._V = number, V

    def ufl_function_space(self):
        return self._V


class Space:
    def __init__(self, mesh):
        self.mesh = mesh
        self._cpp_object = self


class CoefCpp:
    def __init__(self, count, ndofs):
        self.count, self.ndofs, self.version = count, ndofs, 0


class Coefficient(Expr):
    def __init__(self, count, ndofs, V=None):
        super().__init__(f"w{count}")
        self.coeffs = self.live = (self,)
        self.count = count
        self._cpp_object = CoefCpp(count, ndofs)
        self.x = XVector()
        self._V = V

    @property
    def function_space(self):
        return self._V


class Function(Coefficient):
    """dolfinx.fem.Function: made from a function space."""

    def __init__(self, V):
        super().__init__(1000, 2, V)


NORMAL = np.array([0.36, -0.75, 0.55])


def jacobian(domain):
    """The Jacobian at some point: of a mesh of its dimension, or embedded in one more."""
    t = domain.topology.dim
    g = t + bool(S().cfg.get("embedded"))
    return np.eye(g, t) * 1.5 + np.arange(g * t).reshape(g, t) ** 1.5 * 0.11


class Constant(Expr):
    _n = 0

    def __init__(self, domain, value):
        super().__init__("const")
        self.consts = (self,)
        self.value = np.asarray(value)
        if self.value.ndim == 1 and not self.value.any():
            self.val = NORMAL[:self.value.size]          # a normal's placeholder: some value a kernel would put there
        self._cpp_object = self


def coef_value(cpp, cell, dof, side=0):
    """The value DOLFINx would pack: exactly representable in float32."""
    return float(((cpp.count * 5 + cpp.version % 5) * 64 + cell) * 16 + dof + 1)


# --------------------------------------------------------------------- ffcx + jit
class Rule:
    def __init__(self, name):
        self.name = name

    def id(self):
        return self.name


class FETable:
    def __init__(self, dtype):
        self.dtype = dtype


REAL = {np.dtype(np.float32): np.float32, np.dtype(np.float64): np.float64, np.dtype(np.complex64): np.float32, np.dtype(np.complex128): np.float64}
UFCX_TYPES = ("cell", "exterior_facet", "interior_facet", "vertex", "ridge")


class Ufcx:
    pass


class FFI:
    def addressof(self, o):
        return o

    def cast(self, t, o):
        return o


def single_ids(g):
    sid = g.subdomain_id()
    out = sid if isinstance(sid, tuple) else (sid,)
    return [-1 if s in ("everywhere", "otherwise", -1) else int(s) for s in out]


def quad_of(mods, metadata, tdim=None):
    deg = int(metadata.get("quadrature_degree", 2))
    unf = bool(metadata.get("custom_unfitted_boundary", False))
    if unf or metadata.get("quadrature_rule") == "custom":
        pts, wts = np.asarray(metadata["quadrature_points"]), np.asarray(metadata["quadrature_weights"])
        if pts.shape != (len(wts), tdim):
            raise ValueError(f"points of shape {pts.shape} and {len(wts)} weights for cells of dimension {tdim}")
    name = ("u" if unf else "q") + str(deg)
    return mods["qd"].QuadratureData(name, deg, unf, name)


def make_jit(mods):
    def ffcx_jit(comm, form, form_compiler_options=None, jit_options=None):
        may_fail("jit")
        step("jit-compile")
        dtype = np.dtype((form_compiler_options or {}).get("scalar_type", np.float64))
        tdim = form.ufl_domains()[0]._ufl_cargo.topology.dim
        coeffs = list(form.coefficients())
        reduced = [c for c in coeffs if any(c in g.integrand().live for g in form.integrals())]
        u = Ufcx()
        u.dtype = dtype
        u.options, u.jit_options = dict(form_compiler_options or {}), dict(jit_options or {})
        u.num_coefficients = len(reduced)
        u.original_coefficient_positions = [coeffs.index(c) for c in reduced]
        data, ids, offs, per, terms = [], [], [0], [], []
        for ty in UFCX_TYPES:
            byid = {}
            for g in form.integrals():
                if g.integral_type() != ty:
                    continue
                for i in single_ids(g):
                    byid.setdefault(i, []).append((g.integrand(), quad_of(mods, g.metadata() or {}, tdim)))
            groups = {}
            for i, lst in byid.items():
                key = tuple(sorted((e.name, q) for e, q in lst))
                groups.setdefault(key, []).append(i)
            made = {}
            for n, (key, sids) in enumerate(groups.items()):
                quads = {}
                for _e, q in byid[sids[0]]:
                    quads.setdefault(q, []).append(FETable(REAL[dtype]))
                d = mods["idata"].IntegralData(f"{ty}_{n}", list(sids), ty, tdim, bool(S().cfg.get("mixed_dim")) and ty.endswith("facet"), quads)
                data.append(d)
                for i in sids:
                    made[i] = d
            for i in sorted(byid):
                ids.append(i)
                per.append(made[i])
                terms.append(byid[i])
            offs.append(len(ids))
        u.form_integral_ids, u.form_integral_offsets, u.per, u.terms = ids, offs, per, terms
        m = types.SimpleNamespace(ffi=FFI())
        step("jit-done")
        return data, u, m, "code"
    return ffcx_jit


class IntegralType(enum.Enum):
    cell = 0
    exterior_facet = 1
    interior_facet = 2
    vertex = 3
    ridge = 4


UFL2DLF = {"cell": IntegralType.cell, "exterior_facet": IntegralType.exterior_facet, "interior_facet": IntegralType.interior_facet}


def compute_integration_domains(ty, top, ents):
    ents = np.asarray(ents, dtype=np.int32)
    tdim = top.dim
    if ty == IntegralType.cell:
        return ents[ents < top.index_map(tdim).size_local]
    f2c, c2f = top._conn[(tdim - 1, tdim)], top._conn[(tdim, tdim - 1)]
    out = []
    n = top.index_map(tdim - 1).size_local
    if ty == IntegralType.exterior_facet:
        ext = set(top._exterior.tolist())
        for f in ents:
            if int(f) in ext:
                c = int(f2c.links(f)[0])
                out += [c, int(np.where(c2f.links(c) == f)[0][0])]
    else:
        for f in ents:
            cs = f2c.links(f)
            if f < n and len(cs) == 2:
                for c in cs:
                    out += [int(c), int(np.where(c2f.links(c) == f)[0][0])]
    return np.array(out, dtype=np.int32)


def get_integration_domains(ty, subdomain, ids):
    if subdomain is None:
        return []
    if not isinstance(subdomain, list):
        return [(i, compute_integration_domains(ty, subdomain.topology, subdomain.find(i))) for i in ids]
    return [(s[0], np.array(s[1])) for s in subdomain]


def cpp_form_class(dtype):
    dt = np.dtype(dtype)

    class CppForm:
        dtype = dt

        def __init__(self, forms, V, coeffs, constants, subdomains, entity_maps, mesh):
            may_fail("form")
            u = forms[0]
            self.ufcx, self.V, self.coeffs, self.constants, self.mesh = u, V, coeffs, constants, mesh
            self.function_spaces = V
            self.subdomains, self.entity_maps = subdomains, entity_maps
            if u.dtype != dt:
                raise Violation("wrong-scalar-type", f"a form asked for in {dt} was compiled for {u.dtype}")
            if len(coeffs) != u.num_coefficients:
                raise RuntimeError("Mismatch between number of expected and provided Form coefficients.")
            self._dom = {}
            top = mesh.topology
            for k, ty in enumerate(UFCX_TYPES):
                for pos, j in enumerate(range(u.form_integral_offsets[k], u.form_integral_offsets[k + 1])):
                    i = u.form_integral_ids[j]
                    t = UFL2DLF[ty]
                    if i == -1:
                        if t == IntegralType.cell:
                            e = np.arange(top.index_map(top.dim).size_local, dtype=np.int32)
                        else:
                            e = compute_integration_domains(t, top, np.arange(top.index_map(top.dim - 1).size_local))
                    else:
                        e = np.empty(0, dtype=np.int32)
                        lst = subdomains.get(t, [])
                        keys = [s[0] for s in lst]
                        a, b = 0, len(keys)          # std::lower_bound
                        while a < b:
                            mid = (a + b) // 2
                            if keys[mid] < i:
                                a = mid + 1
                            else:
                                b = mid
                        if a < len(keys) and keys[a] == i:
                            e = np.asarray(lst[a][1], dtype=np.int32)
                    if t == IntegralType.exterior_facet:
                        e = e.reshape(-1, 2)
                    elif t == IntegralType.interior_facet:
                        e = e.reshape(-1, 2, 2)
                    self._dom[(t, pos)] = (i, e, u.per[j], u.terms[j])

        def domains(self, t, pos, *a):
            return self._dom[(t, pos)][1].copy()

    return CppForm


_CPP_CLASSES = {}


def form_cpp_class(dtype):
    dt = np.dtype(dtype)
    if dt not in _CPP_CLASSES:
        if dt not in REAL:
            raise NotImplementedError(f"Type {dtype} not supported.")
        _CPP_CLASSES[dt] = cpp_form_class(dt)
    return _CPP_CLASSES[dt]


class DlfForm:
    def __init__(self, form, ufcx_form=None, code=None, module=None):
        self._cpp_object, self._ufcx_form, self._code, self._module = form, ufcx_form, code, module

    @property
    def function_spaces(self):
        return self._cpp_object.function_spaces

    @property
    def dtype(self):
        return self._cpp_object.dtype

    @property
    def mesh(self):
        return self._cpp_object.mesh


def active_coeffs(cpp, terms):
    used = {c._cpp_object for e, _q in terms for c in e.live}
    return [c in used for c in cpp.coeffs]


def packed_rows(cpp, t, pos):
    """DOLFINx's packed coefficients, one flat block per entity."""
    i, e, d, terms = cpp._dom[(t, pos)]
    orig = cpp.mesh.topology.original_cell_index
    act = active_coeffs(cpp, terms)
    out = []
    for k in range(len(e)):
        blk = []
        for c, a in zip(cpp.coeffs, act):
            cells = [int(e[k])] if t == IntegralType.cell else ([int(e[k][0])] if t == IntegralType.exterior_facet else [int(e[k][0][0]), int(e[k][1][0])])
            for cell in cells:
                blk += [coef_value(c, int(orig[cell]), j) if a else 0.0 for j in range(c.ndofs)]
        out.append(blk)
    return out


def pack_coefficients(cpp):
    may_fail("pack")
    out = {}
    cs = sum(c.ndofs for c in cpp.coeffs)
    for (t, pos) in cpp._dom:
        rows = packed_rows(cpp, t, pos)
        a = np.array(rows, dtype=cpp.dtype).reshape(-1, cs) if rows and cs else np.zeros((0, cs), dtype=cpp.dtype)
        out[(t, pos)] = a
    step("packed")
    return out


# ----------------------------------------------------------------- qugar.cpp truth
class CartGrid:
    def __init__(self, breaks):
        self.cell_breaks = [np.array(b) for b in breaks]
        self.dim = len(breaks)
        self.num_cells_dir = np.array([len(b) - 1 for b in breaks], dtype=np.int32)


class Quad:
    def __init__(self, n, p, w, nrm=None):
        self.n_pts_per_entity = np.array(n, dtype=np.int32)
        self.points, self.weights = p, w
        if nrm is not None:
            self.normals = nrm


class Truth:
    """Which cells and facets are inside, cut or outside; and every quadrature."""

    def __init__(self, seed, n_cells, bias):
        self.n = [int(a) for a in n_cells]
        self.dim = len(self.n)
        self.seed = seed
        r = random.Random(f"truth/{seed}")
        self.total = int(np.prod(self.n))
        wts = {"mixed": (3, 4, 3), "cut": (0, 1, 0), "full": (1, 0, 0), "some": (5, 3, 1), "noempty": (1, 1, 0)}[bias]
        self.cell = [r.choices(["full", "cut", "empty"], wts)[0] for _ in range(self.total)]
        if all(c == "empty" for c in self.cell):
            self.cell[0] = "cut"
        self.fac = {}
        for c in range(self.total):
            for f in range(2 * self.dim):
                if (c, f) in self.fac:
                    continue
                nb = self.neighbour(c, f)
                st = self.cell[c]
                if nb is None:
                    if st == "full":
                        k = ("full", False, False)
                    elif st == "empty":
                        k = ("empty", False, False)
                    else:
                        k = r.choices([("full", False, False), ("cut", False, False), ("empty", False, False), ("cut", True, False),
                                       ("unf", True, False), ("unf", True, True)], (4, 5, 4, 1, 1, 1))[0]
                    self.fac[(c, f)] = k
                    continue
                d = (nb, f ^ 1)
                s2 = self.cell[nb]
                if "empty" in (st, s2):
                    kind = "empty"
                elif st == s2 == "full":
                    kind = "full"
                elif "full" in (st, s2):
                    kind = r.choices(["full", "empty"], (5, 1))[0]
                else:
                    kind = r.choices(["full", "cut", "empty"], (3, 5, 2))[0]
                a, b = (kind, False, False), (kind, False, False)
                if kind == "empty":
                    side = [s for s, x in ((0, st), (1, s2)) if x != "empty"]
                    if side and (st == "full" or s2 == "full" or r.random() < 0.4):
                        s = r.choice(side)
                        if "full" in (st, s2):
                            s = 0 if st == "full" else 1
                        v = ("unf", True, r.random() < 0.5 or "full" in (st, s2))
                        if s == 0:
                            a = v
                        else:
                            b = v
                elif kind == "cut" and r.random() < 0.25:
                    if r.random() < 0.5:
                        a = ("cut", True, False)
                    else:
                        b = ("cut", True, False)
                self.fac[(c, f)], self.fac[d] = a, b
        self.active = sorted(c for c in range(self.total) if self.cell[c] != "empty")

    def tid(self, c):
        out = []
        for m in self.n:
            out.append(c % m)
            c //= m
        return out

    def cid(self, t):
        c = 0
        for m, i in zip(reversed(self.n), reversed(t)):
            c = c * m + i
        return c

    def neighbour(self, c, f):
        t = self.tid(c)
        d = f // 2
        t[d] += 1 if f % 2 else -1
        if not 0 <= t[d] < self.n[d]:
            return None
        return self.cid(t)

    # sets documented for UnfittedDomain, on (original cell, lexicographic facet) pairs
    def ext_kind(self, c, f, exterior):
        kind, unf, full_unf = self.fac[(c, f)]
        if full_unf:
            return "full"
        if unf:
            return "cut"
        return kind if exterior else None

    def int_kind(self, c, f):
        kind, unf, full_unf = self.fac[(c, f)]
        return "empty" if kind == "unf" else kind

    # quadratures: points in the unit cell / unit facet
    def _pts(self, key, d, hi=4):
        r = random.Random(f"q/{self.seed}/{key}")
        n = r.choice([0, 1, 1, 2, 3, hi])
        p = [[r.randrange(1, 64) / 64 for _ in range(d)] for _ in range(n)]
        w = [r.randrange(1, 1024) / 1024 for _ in range(n)]
        return p, w

    def cell_quad(self, c, npd):
        st = self.cell[c]
        if st == "empty":
            return [], []
        return self._pts(("c", c, npd), self.dim)

    def bdry_quad(self, c, npd):
        if self.cell[c] != "cut":
            return [], [], []
        p, w = self._pts(("b", c, npd), self.dim)
        r = random.Random(f"n/{self.seed}/{c}/{npd}")
        nrm = [[r.randrange(-64, 65) / 64 for _ in range(self.dim)] for _ in p]
        return p, w, nrm

    def facet_quad(self, c, f, npd, ext):
        if ext:
            return self._pts(("fe", c, f, npd), self.dim - 1)
        nb = self.neighbour(c, f)
        key = min((c, f), (nb, f ^ 1)) if nb is not None else (c, f)
        return self._pts(("fi",) + key + (npd,), self.dim - 1)


class CppUnfDomain:
    def __init__(self, truth, grid):
        self.truth, self.grid = truth, grid
        self.dim = truth.dim

    @property
    def num_total_cells(self):
        return self.truth.total

    def _cells(self, kind, ids):
        may_fail("getter")
        ids = range(self.truth.total) if ids is None else [int(i) for i in ids]
        return np.array([c for c in ids if self.truth.cell[c] == kind], dtype=np.int64)

    def get_full_cells(self, ids=None):
        return self._cells("full", ids)

    def get_cut_cells(self, ids=None):
        return self._cells("cut", ids)

    def get_empty_cells(self, ids=None):
        return self._cells("empty", ids)

    def _facets(self, pred, cells, facets):
        may_fail("getter")
        if cells is None:
            prs = [(c, f) for c in range(self.truth.total) for f in range(2 * self.dim)]
        else:
            if len(cells) != len(facets):
                raise RuntimeError("cells and facets differ in size")
            prs = [(int(c), int(f)) for c, f in zip(cells, facets)]
        out = [p for p in prs if pred(self.truth.fac[p])]
        return np.array([p[0] for p in out], dtype=np.int64), np.array([p[1] for p in out], dtype=np.int32)

    def get_cut_facets(self, c=None, f=None):
        return self._facets(lambda k: k[0] == "cut", c, f)

    def get_full_facets(self, c=None, f=None):
        return self._facets(lambda k: k[0] == "full", c, f)

    def get_empty_facets(self, c=None, f=None):
        return self._facets(lambda k: k[0] == "empty", c, f)

    def get_unf_bdry_facets(self, c=None, f=None):
        return self._facets(lambda k: k[1], c, f)

    def get_full_unf_bdry_facets(self, c=None, f=None):
        return self._facets(lambda k: k[2], c, f)


def _arr(ps, d):
    return np.array(ps, dtype=np.float64).reshape(-1, d)


def reparam_cells(truth, levelset, order):
    """The cells of a reparametrization, each with its points in lexicographic order: coordinates name cell and index."""
    dim, out = truth.dim - bool(levelset), []
    for c in range(truth.total):
        r = random.Random(f"rep/{truth.seed}/{c}/{levelset}")
        if truth.cell[c] == "empty" or levelset and truth.cell[c] == "full":
            continue
        for k in range(1 if truth.cell[c] == "full" else r.randint(0 if levelset else 1, 2)):
            pts = np.full((order ** dim, truth.dim), 0.5)
            for d in range(dim):
                pts[:, d] = (np.arange(order ** dim) // order ** d) % order / 16.0
            pts[:, 0] += c * 4 + k * 2
            out.append((c, pts))
    return dim, out


class Reparam:
    """ReparamMesh: points, connectivity and edges, lexicographic."""

    chebyshev = True

    def __init__(self, dom, cells, order, merge, levelset):
        if not isinstance(order, (int, np.integer)) or order < 2:
            raise ValueError("order")
        self.dim, lst = reparam_cells(dom.truth, levelset, order)
        if cells is not None:
            cells = {int(c) for c in cells}
            lst = [x for x in lst if x[0] in cells]
        self.range, self.order = dom.dim, int(order)
        n = order ** self.dim
        pts = np.concatenate([p for _c, p in lst]) if lst else np.empty((0, dom.dim))
        conn = np.arange(len(pts)).reshape(-1, n)
        shuf = np.random.RandomState(len(pts) % 1000).permutation(len(pts))     # points come in any order
        inv = np.argsort(shuf)
        self.points = pts[shuf]
        self.cells_conn = inv[conn].astype(np.uint64)
        ix = np.arange(n).reshape((order,) * self.dim, order="F")
        edges = [np.moveaxis(ix, d, 0).reshape(order, -1)[:, [0, -1]].T for d in range(self.dim)]
        self.wirebasket_conn = np.concatenate([self.cells_conn[:, e] for d in edges for e in d]) if len(conn) else np.empty((0, order), dtype=np.uint64)


def make_cpp(holder):
    m = types.ModuleType("qugar.cpp")
    m.__version__, m.__doc__ = "0", ""
    for n in ("UnfittedDomain", "CartGridTP", "ImplicitFunc"):
        for d in ("2D", "3D"):
            setattr(m, f"{n}_{d}", CppUnfDomain if n == "UnfittedDomain" else CartGrid)

    def create_cart_grid(breaks):
        return CartGrid(breaks)

    def create_unfitted_impl_domain(fn, grid):
        may_fail("cpp")
        return CppUnfDomain(fn, grid)

    def create_quadrature(dom, cells, n_pts_dir, *a, **k):
        may_fail("quad")
        qs = [dom.truth.cell_quad(int(c), n_pts_dir) for c in cells]
        return Quad([len(q[0]) for q in qs], _arr([p for q in qs for p in q[0]], dom.dim), np.array([w for q in qs for w in q[1]], dtype=float))

    def create_unfitted_bound_quadrature(dom, cells, n_pts_dir, include_facet_unf_bdry=False, exclude_ext_bdry=False):
        may_fail("quad")
        if include_facet_unf_bdry or exclude_ext_bdry:
            raise RuntimeError("flags not modelled")
        qs = [dom.truth.bdry_quad(int(c), n_pts_dir) for c in cells]
        return Quad([len(q[0]) for q in qs], _arr([p for q in qs for p in q[0]], dom.dim), np.array([w for q in qs for w in q[1]], dtype=float),
                    _arr([n for q in qs for n in q[2]], dom.dim))

    def facets(ext):
        def f(dom, cells, lf, n_pts_dir, *a, **k):
            may_fail("quad")
            qs = [dom.truth.facet_quad(int(c), int(g), n_pts_dir, ext) for c, g in zip(cells, lf)]
            return Quad([len(q[0]) for q in qs], _arr([p for q in qs for p in q[0]], dom.dim - 1), np.array([w for q in qs for w in q[1]], dtype=float))
        return f
    def reparam(levelset):
        def f(dom, *a, **k):
            may_fail("cpp")
            a, cells = list(a), k.get("cells")
            if a and isinstance(a[0], np.ndarray):
                cells = a.pop(0)
            a += [k[n] for n in ("n_pts_dir", "merge_points") if n in k]
            return Reparam(dom, cells, a[0], a[1], levelset)
        return f
    m.create_reparameterization, m.create_reparameterization_levelset = reparam(False), reparam(True)
    for n in ("1_2", "2_2", "2_3", "3_3"):
        setattr(m, "ReparamMesh_" + n, Reparam)
    m.create_cart_grid, m.create_unfitted_impl_domain = create_cart_grid, create_unfitted_impl_domain
    m.create_quadrature, m.create_unfitted_bound_quadrature = create_quadrature, create_unfitted_bound_quadrature
    m.create_facets_quadrature_exterior_integral = facets(True)
    m.create_facets_quadrature_interior_integral = facets(False)
    return m


# ------------------------------------------------------------------------ modules
class AutoModule(types.ModuleType):
    """Any name is a class: what only annotations mention."""
    __path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = type(n, (), {"__module__": self.__name__})
        setattr(self, n, v)
        return v


class AutoFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    roots = ("ffcx", "ufl")

    def find_spec(self, name, path, target=None):
        if name.split(".")[0] in self.roots:
            return importlib.util.spec_from_loader(name, self, is_package=True)
        return None

    def create_module(self, spec):
        return AutoModule(spec.name)

    def exec_module(self, m):
        pass


_code = {}


class QFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Real qugar sources, compiled once, executed once per simulated process."""

    def _path(self, name):
        p = QROOT + "/" + "/".join(name.split(".")[1:])
        if os.path.isfile(p + "/__init__.py"):
            return p + "/__init__.py", True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None, False

    def find_spec(self, name, path, target=None):
        if not name.startswith("qugar."):
            return None
        p, pkg = self._path(name)
        if p is None:
            return None
        sp = importlib.util.spec_from_loader(name, self, is_package=pkg, origin=p)
        if pkg:
            sp.submodule_search_locations = [os.path.dirname(p)]
        return sp

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        p = m.__spec__.origin
        if p not in _code:
            with open(p) as fh:
                _code[p] = compile(fh.read(), p, "exec")
        m.__file__ = p
        exec(_code[p], m.__dict__)


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__dict__.update(kw)
    sys.modules[name] = m
    if "." in name:
        a, b = name.rsplit(".", 1)
        setattr(sys.modules[a], b, m)
    return m


class KDTree:
    def __init__(self, pts):
        self.pts = np.asarray(pts)

    def query_pairs(self, tol, output_type="set"):
        out = [(i, j) for i in range(len(self.pts)) for j in range(i + 1, len(self.pts))
               if np.linalg.norm(self.pts[i] - self.pts[j]) <= tol]
        random.Random(len(out)).shuffle(out)
        return np.array(out, dtype=np.intp).reshape(-1, 2)


# -------------------------------------------------------------------------- petsc
N_OWN, OWNER = 4, [1, 3]                  # dofs a rank owns; its ghosts are copies of these (a periodic patch)
KNOWN_OPTIONS = ("ksp_type", "pc_type", "ksp_rtol", "pc_factor_mat_solver_type", "ksp_error_if_not_converged")


def proc_state(name, new):
    d = S().__dict__.setdefault("_petsc_" + name, {})
    return d.setdefault(current_task().proc.name, new())


def options_with(prefix):
    db = proc_state("options", dict)
    return {k: db[(prefix or "") + k] for k in KNOWN_OPTIONS if (prefix or "") + k in db}


class PetscObject:
    def __init__(self):
        self.prefix, self.used = None, None

    def setOptionsPrefix(self, p):
        self.prefix = p

    def getOptionsPrefix(self):
        return self.prefix

    def setFromOptions(self):
        self.used = options_with(self.prefix)

    def destroy(self):
        self.used = "destroyed"
        return self


class LocalForm:
    """A vector with its ghosts."""

    def __init__(self, v):
        self.v = v

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def set(self, x):
        self.v.a[:] = x

    def zeroEntries(self):
        self.v.a[:] = 0

    @property
    def array(self):
        return self.v.a

    @array.setter
    def array(self, x):
        self.v.a[:] = x

    array_w = array
    array_r = property(lambda self: self.v.a.copy())


class Vec(PetscObject):
    def __init__(self, a=None):
        super().__init__()
        self.a = np.zeros(N_OWN + len(OWNER)) if a is None else a

    @property
    def array(self):
        return self.a[:N_OWN]

    @array.setter
    def array(self, x):
        self.a[:N_OWN] = x

    array_w = array
    array_r = property(lambda self: self.a[:N_OWN].copy())

    def localForm(self):
        return LocalForm(self)

    def set(self, x):
        self.a[:N_OWN] = x

    def zeroEntries(self):
        self.set(0)

    def scale(self, x):
        self.a[:N_OWN] *= x

    def assemble(self):
        return self

    def copy(self):
        return Vec(self.a.copy())

    def ghostUpdate(self, addv=None, mode=None):
        step("ghosts")
        add = addv in (InsertMode.ADD, InsertMode.ADD_VALUES)
        if mode in (ScatterMode.REVERSE, ScatterMode.SCATTER_REVERSE):
            for k, o in enumerate(OWNER):
                self.a[o] = self.a[o] * add + self.a[N_OWN + k]
        else:
            for k, o in enumerate(OWNER):
                self.a[N_OWN + k] = self.a[N_OWN + k] * add + self.a[o]

    def ghostUpdateBegin(self, addv=None, mode=None):
        self.ghostUpdate(addv, mode)

    def ghostUpdateEnd(self, addv=None, mode=None):
        pass


class InsertMode:
    INSERT = INSERT_VALUES = 1
    ADD = ADD_VALUES = 2


class ScatterMode:
    FORWARD = SCATTER_FORWARD = 0
    REVERSE = SCATTER_REVERSE = 1


class Mat(PetscObject):
    def __init__(self):
        super().__init__()
        self.m = np.zeros((N_OWN, N_OWN))
        self.assembled = False

    def zeroEntries(self):
        self.m[:] = 0

    def assemblyBegin(self, *a):
        pass

    def assemblyEnd(self, *a):
        step("mat-assembly")
        self.assembled = True

    def assemble(self, *a):
        self.assemblyEnd()


class KSP(PetscObject):
    A = None

    def create(self, comm=None):
        return self

    def setOperators(self, A, P=None):
        self.A = A

    def solve(self, b, x):
        may_fail("petsc")
        if self.A is None or not self.A.assembled:
            raise RuntimeError("error code 73: Not for unassembled matrix")
        x.a[:N_OWN] = np.linalg.solve(self.A.m, b.a[:N_OWN])
        fn = current_task().local.get("assembled")
        if fn is not None:
            fn("options", (self, self.A, b), None)

    getSolution = getRhs = None


class Options:
    """Views of one database per process."""

    def __init__(self, prefix=None):
        self.db, self.stack = proc_state("options", dict), proc_state("stack", list)
        self.prefix = prefix or ""

    def _key(self, k):
        return "".join(self.stack[-1:]) + self.prefix + k.lstrip("-")

    def prefixPush(self, p):
        self.stack.append("".join(self.stack[-1:]) + (p or ""))

    def prefixPop(self):
        self.stack.pop()

    def __setitem__(self, k, v):
        self.db[self._key(k)] = v

    setValue = __setitem__

    def __delitem__(self, k):
        self.db.pop(self._key(k), None)

    delValue = __delitem__

    def __getitem__(self, k):
        return self.db[self._key(k)]

    def __contains__(self, k):
        return self._key(k) in self.db

    hasName = __contains__


class DirichletBC:
    """Prescribed dofs of a rank: owned ones and all their ghosts."""

    def __init__(self, values):
        self.values = dict(values)
        for k, o in enumerate(OWNER):
            if o in values:
                self.values[N_OWN + k] = values[o]

    def set(self, x, x0=None, alpha=1.0):
        for i, g in self.values.items():
            if i < len(x):
                x[i] = alpha * (g - (x0[i] if x0 is not None else 0.0))


def form_atoms(names):
    atoms = sorted({m for n in names for m in re.findall(r"t\d+_\d+", n)})
    return ("d" if any(re.search(r"(?<![a-z])d\(", n) for n in names) else "") + ".".join(atoms)


def form_tag(cf):
    return form_atoms([e.name for ts in cf._cpp_object.ufcx.terms for e, _q in ts])


def local_vector(tag):
    return np.array([float(random.Random(f"f{tag}/{i}").randint(1, 99)) for i in range(N_OWN + len(OWNER))])


def local_matrix(tag):
    n = N_OWN + len(OWNER)
    return np.array([[float(random.Random(f"K{tag}/{i}/{j}").randint(1, 9)) + (100.0 if i == j else 0.0) for j in range(n)] for i in range(n)])


def fold(v):
    w = v[:N_OWN].copy()
    for k, o in enumerate(OWNER):
        w[o] += v[N_OWN + k]
    return w


def fold_matrix(m):
    n = N_OWN + len(OWNER)
    own = list(range(N_OWN)) + OWNER
    out = np.zeros((N_OWN, N_OWN))
    for i in range(n):
        for j in range(n):
            out[own[i], own[j]] += m[i, j]
    return out


def prescribed(bcs):
    v = {}
    for bc in bcs:
        v.update(bc.values)
    return v


def lifted(m, bcs, x0, alpha):
    b = np.zeros(len(m))
    for j, g in prescribed(bcs).items():
        b -= alpha * m[:, j] * (g - (x0[j] if x0 is not None else 0.0))
    return b


def masked(m, bcs):
    m = m.copy()
    for i in prescribed(bcs):
        m[i, :] = 0
        m[:, i] = 0
    return m


def flat_forms(x):
    return [z for y in x for z in flat_forms(y)] if isinstance(x, (list, tuple)) else [x]


def record(kind, form, coeffs):
    """An assembler was given coefficients: whoever solves says what to do with them."""
    t = current_task()
    fn = t.local.get("assembled")
    step(kind)
    if fn is not None:
        fn(kind, form, coeffs)


def assemble_vector(b, L, constants=None, coeffs=None):
    record("vector", L, coeffs)
    for f in flat_forms(L):
        may_fail("petsc")
        b.a += local_vector(form_tag(f))
    return b


def assemble_matrix(A, a, bcs=(), diag=1.0, constants=None, coeffs=None):
    record("matrix", a, coeffs)
    for f in flat_forms(a):
        may_fail("petsc")
        A.assembled = False
        A.m += fold_matrix(masked(local_matrix(form_tag(f)), bcs or ()))
    for i in prescribed(bcs or ()):
        if i < N_OWN:
            A.m[i, i] = diag
    return A


def apply_lifting(b, a, bcs=(), x0=None, alpha=1.0, constants=None, coeffs=None):
    record("lifting", a, coeffs)
    bcs = [c for s in bcs for c in s]
    for f in flat_forms(a):
        may_fail("petsc")
        b.a += lifted(local_matrix(form_tag(f)), bcs, x0[0].a if x0 else None, alpha)


def set_bc(b, bcs, x0=None, alpha=1.0):
    for bc in bcs:
        bc.set(b.array_w, x0.array_r if x0 is not None else None, alpha)


def install_petsc(d):
    p = mod("petsc4py")
    mod("petsc4py.PETSc", ScalarType=np.float64, KSP=KSP, Vec=Vec, Mat=Mat, Options=Options, InsertMode=InsertMode, ScatterMode=ScatterMode)
    p.__version__ = "3.22"

    class LinearBase:
        def destroy(self):
            """The body of the real __del__."""
            for o in filter(lambda o: o is not None, (self._solver, self._A, self._b, self._x, self._P_mat)):
                o.destroy()

        u = property(lambda self: self._u)
        a = property(lambda self: self._a)
        L = property(lambda self: self._L)
        A = property(lambda self: self._A)
        b = property(lambda self: self._b)
        x = property(lambda self: self._x)
        solver = property(lambda self: self._solver)

    class NewtonBase:
        a = property(lambda self: self._a)
        L = property(lambda self: self._L)

    def create_matrix(a, *k):
        may_fail("petsc")
        return Mat()

    def create_vector(V, *k):
        may_fail("petsc")
        return Vec()
    return mod("dolfinx.fem.petsc", LinearProblem=LinearBase, NewtonSolverNonlinearProblem=NewtonBase, create_matrix=create_matrix, create_vector=create_vector,
               assemble_matrix=assemble_matrix, assemble_vector=assemble_vector, apply_lifting=apply_lifting, set_bc=set_bc)


class XVector:
    """dolfinx.la.Vector of a function: owned entries, then ghosts."""

    def __init__(self):
        self.array = np.zeros(N_OWN + len(OWNER))

    def scatter_forward(self):
        step("scatter")
        for k, o in enumerate(OWNER):
            self.array[N_OWN + k] = self.array[o]


_installed = False


def install(petsc):
    """Put the stand-ins in place (once per interpreter)."""
    global _installed
    if _installed:
        return
    _installed = True
    sys.meta_path.insert(0, AutoFinder())
    sys.meta_path.insert(0, QFinder())
    mpi = mod("mpi4py")
    mod("mpi4py.MPI", Comm=Comm, Intracomm=Comm, SUM=None, MAX=max, MIN=min, LOR=lambda a, b: a or b, LAND=lambda a, b: a and b)
    mpi.__version__ = "4"
    mod("basix.ufl", element=lambda *a, **k: _BElement(*a, **k))
    mod("scipy")
    mod("scipy.spatial", KDTree=KDTree)
    u = sys.modules["ufl"] = AutoModule("ufl")
    u.__spec__ = importlib.util.spec_from_loader("ufl", None, is_package=True)
    u.__version__ = "2025.2.0"
    u.Form, u.Integral, u.Measure, u.Mesh, u.Cell = Form, Integral, Measure, UflMesh, Cell
    for n in ("inner", "sqrt", "det", "inv", "transpose", "grad", "jump", "avg", "dot", "derivative"):
        setattr(u, n, _fn(n))
    u.derivative = lambda F, w, du: Form([g.reconstruct(integrand=g.integrand()._mix("d", du)) for g in F.integrals()])
    u.TrialFunction = lambda V: Argument(V, 1)
    u.TestFunction = lambda V: Argument(V, 0)
    u.dx, u.ds, u.dS = Measure("dx"), Measure("ds"), Measure("dS")
    import ufl.form
    ufl.form.Form = Form
    u.form = sys.modules["ufl.form"]
    import ufl.geometry
    import ufl.measure
    import ufl.operators
    import ufl.protocols

    class Jacobian(Expr):
        def __init__(self, domain):
            super().__init__("J")
            self.val = jacobian(domain)
    ufl.geometry.Jacobian = Jacobian
    ufl.measure.integral_type_to_measure_name = {"cell": "dx", "exterior_facet": "ds", "interior_facet": "dS"}
    ufl.operators.inv, ufl.operators.transpose = _fn("inv"), _fn("transpose")
    ufl.protocols.id_or_none = lambda o: None if o is None else id(o)
    fx = sys.modules["ffcx"] = AutoModule("ffcx")
    fx.__spec__ = importlib.util.spec_from_loader("ffcx", None, is_package=True)
    fx.__version__ = "0.10.0"
    d = mod("dolfinx", default_scalar_type=np.float64, has_petsc4py=petsc, __version__="0.10.0.post0")
    mod("dolfinx.cpp", __version__="0.10.0")
    cf = mod("dolfinx.cpp.fem", _IntegralType=IntegralType, IntegralType=IntegralType, pack_coefficients=lambda f: pack_coefficients(f),
             compute_integration_domains=compute_integration_domains, assemble_scalar=lambda *a: None)
    for n in ("float32", "float64", "complex64", "complex128"):
        setattr(cf, "Form_" + n, form_cpp_class(np.dtype(n)))
    mod("dolfinx.cpp.mesh", CellType=CppCellType, GhostMode=GhostMode, create_mesh=create_mesh, create_cell_partitioner=Partitioner)
    mod("dolfinx.cpp.graph", AdjacencyList_int64=Adj, AdjacencyList_int32=Adj)
    mod("dolfinx.mesh", Mesh=PyMesh, MeshTags=MeshTags, meshtags=meshtags, exterior_facet_indices=exterior_facet_indices, CellType=CppCellType, GhostMode=GhostMode, create_mesh=dlf_create_mesh)
    mod("dolfinx.geometry", PointOwnershipData=tuple)
    mod("dolfinx.fem", create_interpolation_data=lambda *a, **k: ("interpolation", a, k), IntegralType=IntegralType, coordinate_element=CoordElement, Constant=Constant, Function=Coefficient, Form=DlfForm,
        extract_function_spaces=lambda f: None, assemble_scalar=None)
    mod("dolfinx.fem.forms", Form=DlfForm, _ufl_to_dolfinx_domain=UFL2DLF, form_cpp_class=form_cpp_class, get_integration_domains=get_integration_domains)

    def assemble_scalar(M, constants=None, coeffs=None):
        coeffs = pack_coefficients(M) if coeffs is None else constants       # the 0.10.0 defect the patch removes
        return d.cpp.fem.assemble_scalar(M._cpp_object, constants, coeffs)
    mod("dolfinx.fem.assemble", assemble_scalar=assemble_scalar, pack_constants=lambda M: np.zeros(0), pack_coefficients=lambda M: pack_coefficients(M._cpp_object))
    d.fem.assemble_scalar = assemble_scalar
    mod("dolfinx.fem.bcs", DirichletBC=DirichletBC)
    mod("dolfinx.fem.function", Function=Function, FunctionSpace=Space)
    mod("dolfinx.la")
    mod("dolfinx.la.petsc", create_vector_wrap=lambda x: Vec(x.array))
    if petsc:
        install_petsc(d)


class ImplicitFunc:
    """What create_unfitted_impl_Cartesian_mesh reads of an implicit function."""

    def __init__(self, truth):
        self.dim, self.cpp_object = truth.dim, truth


def q_modules():
    return {k: v for k, v in sys.modules.items() if k == "qugar" or k.startswith("qugar.")}


def drop_q():
    for k in list(q_modules()):
        del sys.modules[k]


def set_q(ms):
    drop_q()
    sys.modules.update(ms)


def load(petsc_mod=True):
    """A fresh instance of every real module, as a new process would have."""
    drop_q()
    q = types.ModuleType("qugar")
    q.__path__ = [QROOT]
    q.has_FEniCSx, q.has_PyVista = True, False
    sys.modules["qugar"] = q
    q.cpp = sys.modules["qugar.cpp"] = make_cpp(None)
    im = types.ModuleType("qugar.impl")
    im.ImplicitFunc = ImplicitFunc
    sys.modules["qugar.impl"] = im
    q.impl = im
    ft = types.ModuleType("qugar.dolfinx.fe_table")
    ft.FETable, ft.extract_FE_tables = FETable, None
    sys.modules["qugar.dolfinx.fe_table"] = ft
    mods = {}
    jm = types.ModuleType("qugar.dolfinx.jit")
    jm.ffcx_jit = lambda *a, **k: mods["jit"](*a, **k)
    sys.modules["qugar.dolfinx.jit"] = jm
    import qugar.dolfinx.quadrature_data as qd
    import qugar.dolfinx.integral_data as idata
    import qugar.mesh as qmesh
    import qugar.dolfinx as qdlf
    import qugar.dolfinx.forms
    import qugar.mesh.mesh_facets as mf
    import qugar.dolfinx.custom_coefficients
    mods.update(qd=qd, idata=idata, mesh=qmesh, dlf=qdlf, mf=mf)
    mods["jit"] = make_jit(mods)
    import qugar.dolfinx.petsc as qp
    mods["petsc"] = qp
    import qugar.reparam as qr
    mods["reparam"] = qr
    mods["sys"] = q_modules()
    return mods
