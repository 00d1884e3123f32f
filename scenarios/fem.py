"""Forms, unfitted meshes and coefficient packing on simulated ranks.

Real code: qugar.dolfinx.{forms,custom_coefficients,custom_quad_utils,petsc,
boundary,integral_data,quadrature_data}, qugar.mesh.*, qugar.quad.*; one
instance of every module per rank. DOLFINx, UFL, FFCx, PETSc and the C++
domain are the stand-ins of femfake.
"""

from __future__ import annotations

import copy
import os
import random
import sys
import types

import numpy as np

from simpy.core import ProcGlobals, Sim, SimAbort, SimKilled, Violation, current_task
from scenarios import femfake as ff

_ready = False
DT = [np.float64, np.float64, np.float32, np.complex64, np.complex128]

CLASSES = {
    "C14": {"caller-changed"},
    "C15": {"wrong-entities", "wrong-integrand", "wrong-scalar-type", "wrong-results", "build-crash", "wrong-quadrature"},
    "C16": {"wrong-quadrature", "wrong-coefficients", "wrong-marker", "bad-layout", "pack-crash", "stale-coefficients", "petsc-crash"},
    "C17": {"set-wrong", "tag-wrong", "query-crash"},
    "C18": {"map-wrong", "map-crash", "mesh-crash", "collective-mismatch", "deadlock"},
    "C19": {"facets-wrong", "facets-crash"},
    "C25": {"wrong-solution", "wrong-options", "petsc-crash"},
    "C26": {"reparam-wrong", "reparam-crash", "collective-mismatch", "deadlock"},
}
TRACED = ["dolfinx/forms.py", "dolfinx/custom_coefficients.py", "dolfinx/petsc.py", "mesh/unfitted_domain.py", "mesh/unfitted_domain_abc.py", "mesh/mesh_facets.py"]


def setup(prop=None):
    global _ready
    if not _ready:
        ff.install(True)
        _ready = True


# ------------------------------------------------------------------ expectations
def facet_maps(dim):
    """(axis, side) of every DOLFINx facet, from the reference cell alone."""
    import basix
    ct = {2: basix.CellType.quadrilateral, 3: basix.CellType.hexahedron}[dim]
    g, t = basix.geometry(ct), basix.topology(ct)[dim - 1]
    out = []
    for f in t:
        p = g[f]
        ax = [a for a in range(dim) if np.ptp(p[:, a]) == 0]
        out.append((ax[0], int(round(p[0, ax[0]]))))
    return out


class Exp:
    """What must be true on one rank, computed from the partition and the truth."""

    def __init__(self, mesh, truth, active):
        t = mesh._cpp_object.truth
        self.t, self.truth, self.dim = t, truth, truth.dim
        self.top = mesh._cpp_object.topology
        self.gid = [active[c] if active is not None else c for c in t["orig"]]
        self.n_owned = t["n_owned"]
        self.n_local = len(self.gid)
        self.ax = facet_maps(truth.dim)
        self.lex = [2 * a + s for a, s in self.ax]
        self.c2f = self.top._conn[(truth.dim, truth.dim - 1)].rows
        self.deg = [len(t["fcells"][f]) for f in t["facets"]]     # cells at each local facet, over all ranks
        self.ext = {k: set() for k in ("cut", "full", "empty")}
        self.int = {k: set() for k in ("cut", "full", "empty")}
        self.pairs = {"exterior": set(), "interior": set()}
        for i in range(self.n_owned):
            for f in range(2 * self.dim):
                out = self.deg[self.c2f[i][f]] == 1
                k = truth.ext_kind(self.gid[i], self.lex[f], out)
                if k:
                    self.ext[k].add((i, f))
                if not out:
                    self.int[truth.int_kind(self.gid[i], self.lex[f])].add((i, f))
                self.pairs["exterior" if out else "interior"].add((i, f))

    def cells(self, kind):
        return [i for i in range(self.n_owned) if self.truth.cell[self.gid[i]] == kind]

    def place(self, f, pts):
        """Points of the facet in the cell: coordinate along the axis is the side."""
        a, s = self.ax[f]
        out = []
        for p in pts:
            q = list(p)
            q.insert(a, float(s))
            out.append(q)
        return out


def pairset(mf):
    return list(zip([int(a) for a in mf.cell_ids], [int(a) for a in mf.local_facet_ids]))


# -------------------------------------------------------------------------- rank
class OpSkip(BaseException):
    """Something that another property's check reports."""

    def __init__(self, klass):
        super().__init__(klass)
        self.klass = klass


class Rank:
    def __init__(self, sim, q, cfg, comm):
        self.sim, self.q, self.cfg, self.comm = sim, q, cfg, comm
        self.forms, self.built, self.opts, self.meas = [], [], [], {}
        self.uid = 0
        self.problems, self.dropped = [], []
        self.ids, self.free_ids = {}, []
        self.mds = None

    def bad(self, klass, msg):
        if klass not in self.cfg["_active"] and klass != "stub-gap":
            # another property's business: this operation ends, the run goes on
            self.cfg["_other"].append(klass)
            raise OpSkip(klass)
        v = Violation(klass, f"rank {self.q}: {msg}")
        if self.sim.failure is None:
            self.sim.failure = v
        raise v

    def guard(self, klass, what, fn, *a, **k):
        """Run code under test: an injected failure is a result, any other is a violation."""
        t = current_task()
        before = t.local.get("inj", 0)
        try:
            return True, fn(*a, **k)
        except (SimAbort, SimKilled, Violation):
            raise
        except Exception as e:           # noqa: BLE001
            if isinstance(e, (ff.InjectedError, MemoryError)) or isinstance(e.__cause__, (ff.InjectedError, MemoryError)):
                self.sim.probe("injected-failure-seen")
                return False, e
            gap = ff.stub_gap(e)
            if gap:
                self.bad("stub-gap", f"{what}: the stand-ins have no {gap}")
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            at = next((f"{os.path.basename(x.filename)}:{x.name}" for x in reversed(tb) if x.filename.startswith(ff.QROOT)), "?")
            self.bad(klass, f"{what} raised {type(e).__name__}: {str(e)[:200]} in {at}")

    # ---------------------------------------------------------------- meshes
    def make(self):
        ok, self.mods = self.guard("mesh-crash", "importing qugar", ff.load)
        c = self.cfg
        self.truth = c["_truth"]
        gm = ff.GhostMode[c["ghost"]]
        m = self.mods["mesh"]
        while True:
            ok, msh = self.guard("mesh-crash", "create_unfitted_impl_Cartesian_mesh", m.create_unfitted_impl_Cartesian_mesh,
                                 self.comm, ff.ImplicitFunc(self.truth), c["n"], degree=c["degree"], exclude_empty_cells=c["exclude"], ghost_mode=gm,
                                 dtype=np.dtype(c["mesh_dtype"]).type)
            if ok:
                break
        self.mesh = msh
        act = self.truth.active if c["exclude"] and len(self.truth.active) < self.truth.total else None
        self.active = act
        self.exp = Exp(msh, self.truth, act)
        self.V = ff.Space(msh)
        self.coefs = [ff.Coefficient(k, n, self.V) for k, n in enumerate(c["ndofs"])]
        self.args = [ff.Argument(V, k) for k, V in enumerate((self.V, ff.Space(msh)))]
        self.consts = [ff.Constant(msh, 1.0 + k) for k in range(2)]
        self.sim.probe("mesh-made")
        self.extra = []
        for kind, seed in c["meshes"]:
            getattr(self, "mesh_" + kind)(random.Random(f"x/{seed}"))

    def mesh_reparam(self, r):
        """A reparametrization of the unfitted domain as a DOLFINx mesh, made by all ranks together."""
        import basix
        q = self.mods["reparam"]
        levelset, degree = r.random() < 0.4, r.choice([1, 1, 2, 3, 4])
        kw = {} if degree == 3 and r.random() < 0.5 else {"degree": degree}
        if levelset or r.random() < 0.5:
            kw["levelset"] = levelset
        ok, rp = self.guard("reparam-crash", "create_reparam_mesh", q.create_reparam_mesh, self.mesh, **kw)
        if not ok:
            return
        if not hasattr(rp, "create_mesh") or rp.unf_domain is not self.mesh or not isinstance(rp.cpp_object, ff.Reparam):
            self.bad("reparam-wrong", "create_reparam_mesh did not return a reparametrization of the domain")
        dim, cells = ff.reparam_cells(self.truth, levelset, degree + 1)
        for _ in range(r.choice([1, 2])):
            wires = r.random() < 0.4
            ok, m = self.guard("reparam-crash", "create_mesh", rp.create_mesh, **({"wirebasket": wires} if wires or r.random() < 0.5 else {}))
            if not hasattr(m, ff.CREATED):
                self.bad("reparam-wrong", f"create_mesh returned {type(m).__name__}, not the mesh")
            got, tdim, deg = m.created
            if m.comm is not self.mesh.comm:
                self.bad("reparam-wrong", "the mesh is made on another communicator")
            ct = [basix.CellType.interval, basix.CellType.quadrilateral, basix.CellType.hexahedron][tdim - 1]
            ref = basix.create_element(basix.ElementFamily.P, ct, deg, basix.LagrangeVariant.gll_warped).points
            lev = [np.unique(np.round(ref[:, d], 9)) for d in range(tdim)]
            lex = sum(np.searchsorted(lev[d], np.round(ref[:, d], 9)) * (deg + 1) ** d for d in range(tdim))
            if tdim != (1 if wires else dim) or deg != degree:
                self.bad("reparam-wrong", f"a mesh of cells of dimension {tdim} and degree {deg} for a {'wirebasket' if wires else 'mesh'} of degree {degree}")
            if wires:
                n = degree + 1
                ix = np.arange(n ** dim).reshape((n,) * dim, order="F")
                rows = [e for d in range(dim) for e in np.moveaxis(ix, d, 0).reshape(n, -1)[:, [0, -1]].T]
                want = [p[e] for _c, p in cells for e in rows]
            else:
                want = [p for _c, p in cells]
            want = sorted(np.asarray(p)[lex].tolist() for p in want)
            have = sorted(np.asarray(p).tolist() for p in got)
            if have != want:
                how = f"{len(have)} cells instead of {len(want)}" if len(have) != len(want) else f"cell {next(i for i in range(len(have)) if have[i] != want[i])} has other points, or in another order"
                self.bad("reparam-wrong", f"the mesh of the {'wirebasket' if wires else 'reparametrization'} ({self.comm.size} ranks, degree {degree}) has {how}")
            self.sim.probe("reparam-checked")
        V1, V2 = ff.Space(self.mesh), ff.Space(self.mesh)
        kw = {"padding": 0.5} if r.random() < 0.5 else {}
        ok, out = self.guard("reparam-crash", "create_interpolation_data", q.create_interpolation_data, V1, V2, **kw)
        im = self.mesh.topology.index_map(self.mesh.topology.dim)
        if not isinstance(out, tuple) or len(out) != 2 or not isinstance(out[1], tuple):
            self.bad("reparam-wrong", "create_interpolation_data did not return cells and data")
        cs, (tag, a, k) = out
        args = dict(zip(("V_to", "V_from", "cells", "padding"), a), **k)
        if args["V_to"] is not V1 or args["V_from"] is not V2 or args["padding"] != kw.get("padding", 1e-14) \
                or [int(c) for c in cs] != list(range(im.size_local + im.num_ghosts)) or [int(c) for c in args["cells"]] != [int(c) for c in cs]:
            self.bad("reparam-wrong", "the interpolation data are not those of all local cells of the target")

    def check_mesh_maps(self, msh, active, total, r):
        t = msh._cpp_object.truth
        gid = [active[c] if active is not None else c for c in t["orig"]]
        if msh.has_inactive_cells != (active is not None):
            self.bad("map-wrong", f"has_inactive_cells is {msh.has_inactive_cells}; {'some' if active is not None else 'no'} cells are inactive")
        if active is not None and [int(a) for a in msh.original_active_cells] != list(active):
            self.bad("map-wrong", "original_active_cells is not the list of active cells")
        if int(msh.num_local_cells) != t["n_owned"]:
            self.bad("map-wrong", "num_local_cells")
        if msh.num_global_cells != msh._cpp_object.topology.index_map(msh.tdim).size_global:
            self.bad("map-wrong", f"num_global_cells is {msh.num_global_cells}")
        pos = {g: i for i, g in enumerate(gid)}
        if gid:
            loc = np.array([r.randrange(len(gid)) for _ in range(r.randint(1, 6))], dtype=np.int32)
            ok, out = self.guard("map-crash", "get_original_cell_ids", msh.get_original_cell_ids, loc)
            if [int(a) for a in out] != [gid[i] for i in loc]:
                self.bad("map-wrong", f"get_original_cell_ids({loc.tolist()}) gave {out.tolist()}, expected {[gid[i] for i in loc]}")
            ok, out = self.guard("map-crash", "get_DOLFINx_local_to_global_cell_ids", msh.get_DOLFINx_local_to_global_cell_ids, loc)
            im = msh._cpp_object.topology.index_map(msh.tdim)
            want = [int(a) for a in im.local_to_global(loc)]
            if [int(a) for a in out] != want:
                self.bad("map-wrong", "get_DOLFINx_local_to_global_cell_ids")
            ids = np.array([gid[i] for i in loc], dtype=np.int64)
            ok, out = self.guard("map-crash", "get_DOLFINx_global_cell_ids", msh.get_DOLFINx_global_cell_ids, ids)
            if [int(a) for a in out] != want:
                self.bad("map-wrong", f"get_DOLFINx_global_cell_ids({ids.tolist()}) gave {out.tolist()}, expected {want}")
        ids = np.array([r.randrange(total) for _ in range(r.randint(0, 6))], dtype=np.int64)
        ok, out = self.guard("map-crash", "get_DOLFINx_local_cell_ids", msh.get_DOLFINx_local_cell_ids, ids)
        want = [pos.get(int(g), -1) for g in ids]
        if [int(a) for a in out] != want:
            self.bad("map-wrong", f"get_DOLFINx_local_cell_ids({ids.tolist()}) gave {out.tolist()}, expected {want}")
        ok, out = self.guard("map-crash", "get_all_original_cell_ids", msh.get_all_original_cell_ids)
        if [int(a) for a in out] != gid[:t["n_owned"]]:
            self.bad("map-wrong", "get_all_original_cell_ids is not the owned cells in local order")
        if gid:
            c = r.randrange(len(gid))
            ok, out = self.guard("map-crash", "get_cell_facets", msh.get_cell_facets, np.int32(c))
            if list(out) != list(msh._cpp_object.topology._conn[(msh.tdim, msh.tdim - 1)].rows[c]):
                self.bad("map-wrong", "get_cell_facets")
        self.sim.probe("maps-checked")
        return gid

    def check_node_maps(self, msh, coords, merged, r):
        """coords: original node coordinates; merged: whether coincident nodes are one."""
        x = msh._cpp_object.geometry.x
        n = len(x)
        if bool(msh.has_merged_nodes) != merged:
            self.bad("map-wrong", f"has_merged_nodes is {bool(msh.has_merged_nodes)} on rank {self.q}, nodes were {'' if merged else 'not '}merged")
        key = lambda p: tuple(round(float(a), 6) for a in p)      # noqa: E731
        if n:
            loc = np.array([r.randrange(n) for _ in range(r.randint(1, 6))], dtype=np.int32)
            ok, out = self.guard("map-crash", "get_original_node_ids", msh.get_original_node_ids, loc)
            for i, o in zip(loc, out):
                if not 0 <= o < len(coords) or key(coords[o]) != key(x[i][:coords.shape[1]]):
                    self.bad("map-wrong", f"get_original_node_ids: local node {i} is not at original node {o}")
                if not merged and int(o) != int(msh._cpp_object.geometry.input_global_indices[i]):
                    self.bad("map-wrong", f"get_original_node_ids: local node {i} is original node {msh._cpp_object.geometry.input_global_indices[i]}, not {o}")
        ids = np.array([r.randrange(len(coords)) for _ in range(r.randint(0, 6))], dtype=np.int64)
        ok, out = self.guard("map-crash", "get_DOLFINx_local_node_ids", msh.get_DOLFINx_local_node_ids, ids)
        if merged:
            at = {key(p[:coords.shape[1]]): i for i, p in enumerate(x)}
            want = [at.get(key(coords[o]), -1) for o in ids]
        else:
            at = {int(g): i for i, g in enumerate(msh._cpp_object.geometry.input_global_indices)}
            want = [at.get(int(o), -1) for o in ids]
        if [int(a) for a in out] != want:
            self.bad("map-wrong", f"get_DOLFINx_local_node_ids({ids.tolist()}) gave {out.tolist()}, expected {want}")

    def check_tp_maps(self, msh, n, gid, brk, r, deg=None):
        dim = len(n)
        if gid:
            c = r.randrange(len(gid))
            ok, out = self.guard("map-crash", "get_cell_tensor_index", msh.get_cell_tensor_index, np.int32(c))
            tid, g = [], gid[c]
            for m in n:
                tid.append(g % m)
                g //= m
            if [int(a) for a in out] != tid:
                self.bad("map-wrong", f"get_cell_tensor_index({c}) gave {list(out)}, expected {tid}")
            if brk is not None:
                ok, out = self.guard("map-crash", "get_cell_bbox", msh.get_cell_bbox, np.int32(c))
                gg = msh._cpp_object.geometry
                xs = gg.x[gg.dofmap[c]][:, :dim]
                if not (np.allclose(out[0], xs.min(axis=0), atol=1e-6) and np.allclose(out[1], xs.max(axis=0), atol=1e-6)):
                    self.bad("map-wrong", f"get_cell_bbox({c}) is not the box of the cell's nodes")
        face = r.randrange(2 * dim)
        a, s = divmod(face, 2)
        on = [i for i, g in enumerate(gid) if (g // int(np.prod(n[:a], dtype=int))) % n[a] == (n[a] - 1 if s else 0)]
        t = msh._cpp_object.truth
        own = [i for i in on if i < t["n_owned"]]
        ok, out = self.guard("map-crash", "get_face_DOLFINx_cells", msh.get_face_DOLFINx_cells, face)
        out = [int(x) for x in out]
        if not (set(own) <= set(out) <= set(on)) or out != sorted(set(out)):
            self.bad("map-wrong", f"get_face_DOLFINx_cells({face}) gave {out}, expected {own}")
        ax = facet_maps(dim)
        f = ax.index((a, s))
        c2f = msh._cpp_object.topology._conn[(dim, dim - 1)].rows
        ok, out = self.guard("facets-crash", "get_face_facets", msh.get_face_facets, face)
        out = [int(x) for x in out]
        if not ({int(c2f[i][f]) for i in own} <= set(out) <= {int(c2f[i][f]) for i in on}) or out != sorted(set(out)):
            self.bad("facets-wrong", f"get_face_facets({face}) gave {out}, expected {sorted(int(c2f[i][f]) for i in own)}")
        ok, tags = self.guard("facets-crash", "create_facet_bdry_tags", msh.create_facet_bdry_tags)
        if ok:
            must, may = set(), set()
            for i, g in enumerate(gid):
                for ff_ in range(2 * dim):
                    aa, ss = ax[ff_]
                    if (g // int(np.prod(n[:aa], dtype=int))) % n[aa] == (n[aa] - 1 if ss else 0):
                        p = (int(c2f[i][ff_]), 2 * aa + ss)
                        may.add(p)
                        if i < t["n_owned"]:
                            must.add(p)
            got = set(zip([int(x) for x in tags.indices], [int(x) for x in tags.values]))
            if not must <= got <= may:
                self.bad("facets-wrong", f"create_facet_bdry_tags: missing {sorted(must - got)[:4]}, wrong {sorted(got - may)[:4]}")
            self.sim.probe("bdry-tags-checked")

    def mesh_cart(self, r):
        m = self.mods["mesh"]
        dim = r.choice([2, 2, 3])
        n = [r.randint(1, 3) for _ in range(dim)]
        deg = r.choice([1, 1, 2])
        gm = r.choice([ff.GhostMode.none, ff.GhostMode.shared_facet])
        dt = r.choice([np.float64, np.float32])
        xmin = np.array([r.randrange(-4, 4) for _ in range(dim)], dtype=dt)
        xmax = xmin + np.array([r.randint(1, 4) for _ in range(dim)], dtype=dt)
        use = r.random() < 0.6
        kw = dict(xmin=xmin, xmax=xmax) if use else {}
        ok, msh = self.guard("mesh-crash", "create_Cartesian_mesh", m.create_Cartesian_mesh, self.comm, n, degree=deg, ghost_mode=gm, **kw)
        if msh.geometry.x.dtype != (dt if use else np.float64):
            self.bad("map-wrong", f"mesh of {np.dtype(dt)} bounds has coordinates of {msh.geometry.x.dtype}")
        gid = self.check_mesh_maps(msh, None, int(np.prod(n)), r)
        self.check_tp_maps(msh, n, gid, True, r)
        self.check_facet_queries(msh, r)
        self.sim.probe("cart-mesh")

    def mesh_tp(self, r):
        """TensorProductMesh with an active list given on every rank, maybe complete or unsorted."""
        m = self.mods["mesh"]
        dim = r.choice([1, 2, 2, 3])
        n = [r.randint(1, 3) for _ in range(dim)]
        deg = r.choice([1, 1, 2])
        pts = [np.linspace(0, 1, k * deg + 1) for k in n]
        grid = np.meshgrid(*pts[::-1], indexing="ij")[::-1]
        coords = np.stack([g.ravel() for g in grid], axis=1)
        total = int(np.prod(n))
        style = r.choice(["none", "full", "some", "perm"])
        act = None
        if style != "none":
            act = list(range(total))
            if style == "some":
                act = sorted(r.sample(act, r.randint(1, total)))
            if style == "perm" or r.random() < 0.3:
                r.shuffle(act)
        gm = r.choice([ff.GhostMode.none, ff.GhostMode.shared_facet])
        nodes = coords if self.comm.rank == 0 else coords[:0]
        ok, msh = self.guard("mesh-crash", "TensorProductMesh", m.TensorProductMesh, self.comm, nodes, n, deg,
                             None if act is None else np.array(act, dtype=np.int64), gm)
        eff = act if act is not None and len(act) < total else None
        gid = self.check_mesh_maps(msh, eff, total, r)
        if dim > 1:
            self.check_tp_maps(msh, n, gid, None, r)
            self.check_facet_queries(msh, r)
        self.check_node_maps(msh, coords, False, r)
        self.sim.probe("tp-mesh")

    def mesh_merge(self, r):
        """A mesh of separate cells whose coincident nodes are merged."""
        m = self.mods["mesh"]
        import basix
        dim = r.choice([2, 2, 3])
        n = [r.randint(1, 2) for _ in range(dim)]
        ct = basix.CellType.quadrilateral if dim == 2 else basix.CellType.hexahedron
        geo = basix.geometry(ct)
        cells = [[int(i) for i in t] for t in np.ndindex(*n)]
        r.shuffle(cells)
        coords = np.concatenate([geo + np.array(c) for c in cells])
        perm = np.array(r.sample(range(len(coords)), len(coords)))
        conn = np.arange(len(coords)).reshape(len(cells), -1)
        inv = np.argsort(perm)
        coords, conn = coords[perm], inv[conn]
        act = None
        if r.random() < 0.4:
            act = sorted(r.sample(range(len(cells)), r.randint(1, len(cells))))
        gm = r.choice([ff.GhostMode.none, ff.GhostMode.shared_facet])
        root = self.comm.rank == 0
        ok, msh = self.guard("mesh-crash", "Mesh", m.Mesh, self.comm, coords if root else coords[:0], conn if root else conn[:0], ct, 1,
                             None if act is None else np.array(act, dtype=np.int64), gm, True)
        eff = act if act is not None and len(act) < len(cells) else None
        self.check_mesh_maps(msh, eff, len(cells), r)
        self.check_node_maps(msh, coords, True, r)
        self.sim.probe("merged-mesh")

    # --------------------------------------------------------------- facet queries
    def check_facet_queries(self, msh, r):
        mf = self.mods["mf"]
        t = msh._cpp_object.truth
        top = msh._cpp_object.topology
        d = msh.tdim
        c2f = top._conn[(d, d - 1)].rows
        deg = [len(t["fcells"][f]) for f in t["facets"]]
        allp = {(i, f) for i in range(t["n_owned"]) for f in range(2 * d)}
        ext = {p for p in allp if deg[c2f[p[0]][p[1]]] == 1}
        ok, out = self.guard("facets-crash", "create_exterior_mesh_facets", mf.create_exterior_mesh_facets, msh)
        self.same_pairs("create_exterior_mesh_facets", pairset(out), ext)
        for name, fn, want in (("create_interior_mesh_facets", mf.create_interior_mesh_facets, allp - ext),
                               ("create_all_mesh_facets", mf.create_all_mesh_facets, allp)):
            ok, out = self.guard("facets-crash", name, fn, msh)
            got = pairset(out)
            self.same_pairs(name, got, want)
            ok, out = self.guard("facets-crash", name + "(single)", fn, msh, single_interior_facet=True)
            got = pairset(out)
            fs = []
            for c, f in got:
                if not (0 <= c < len(c2f) and 0 <= f < 2 * d):
                    self.bad("facets-wrong", f"{name}(single) gave a pair ({c}, {f}) that is no facet")
                fs.append(int(c2f[c][f]))
            own = [f for f in range(t["n_fowned"]) if name != "create_interior_mesh_facets" or deg[f] == 2]
            if sorted(fs) != own:
                self.bad("facets-wrong", f"{name}(single) covers local facets {sorted(fs)}, expected each owned one once: {own}")
        if allp:
            some = sorted(r.sample(sorted(allp), r.randint(1, min(5, len(allp)))))
            o = mf.MeshFacets(np.array([p[0] for p in some], dtype=np.int32), np.array([p[1] for p in some], dtype=np.int32))
            ok, ids = self.guard("facets-crash", "get_facet_ids", o.get_facet_ids, msh)
            if [int(a) for a in ids] != [int(c2f[c][f]) for c, f in some]:
                self.bad("facets-wrong", "get_facet_ids")
            if d > 1 and hasattr(msh, "num_cells_dir"):
                ok, og = self.guard("facets-crash", "to_original", o.to_original, msh)
                lex = [2 * a + s for a, s in facet_maps(d)]
                if [int(a) for a in og.local_facet_ids] != [lex[f] for c, f in some]:
                    self.bad("facets-wrong", "to_original gives other local facets than the lexicographic ones")
                ok, bk = self.guard("facets-crash", "to_DOLFINx", og.to_DOLFINx, msh)
                if pairset(bk) != some:
                    self.bad("facets-wrong", "to_DOLFINx(to_original(x)) is not x")
            self.check_facet_algebra(mf, sorted(allp), r)
        self.sim.probe("facets-checked")

    def check_facet_algebra(self, mf, allp, r):
        """Lists of facets behave like sets, whatever was done with them before."""
        pool = []
        dt = r.choice([np.int32, np.int64])
        for _ in range(3):
            some = [r.choice(allp) for _ in range(r.randint(0, 7))]
            if r.random() < 0.5:
                some = list(dict.fromkeys(some))
            pool.append((mf.MeshFacets(np.array([p[0] for p in some], dtype=dt), np.array([p[1] for p in some], dtype=np.int32)), some))
        for _ in range(5):
            (a, sa), (b, sb) = r.choice(pool), r.choice(pool)
            how = r.choice(["concatenate", "intersect", "difference", "unique", "find", "as_array", "unique-sum"])
            uni = len(set(sa)) == len(sa) and len(set(sb)) == len(sb)
            g = lambda f, *x, **k: self.guard("facets-crash", "MeshFacets." + how, f, *x, **k)[1]      # noqa: E731
            if how == "concatenate":
                got, want, exact = g(a.concatenate, b), sa + sb, True
            elif how in ("intersect", "difference"):
                kw = {"assume_unique": True} if uni and r.random() < 0.5 else {}
                got = g(getattr(a, how), b, **kw)
                want, exact = sorted(set(sa) & set(sb) if how == "intersect" else set(sa) - set(sb)), False
            elif how == "unique":
                c = g(a.concatenate, a)
                g(c.unique)
                got, want, exact = c, sorted(set(sa)), False
            elif how == "unique-sum":
                c = g(a.concatenate, b)
                g(c.unique)
                got, want, exact = c, sorted(set(sa) | set(sb)), False
            elif how == "as_array":
                v = [int(x) for x in g(a.as_array)]
                if v != [x for p in sa for x in p]:
                    self.bad("facets-wrong", f"as_array of {sa} is {v}")
                continue
            else:
                if len(set(sa)) != len(sa):
                    continue
                if not set(sb) <= set(sa):
                    try:
                        a.find(b)
                    except ValueError:
                        continue
                    self.bad("facets-wrong", f"find: {sb} was found in {sa}")
                ix = [int(x) for x in g(a.find, b)]
                if [sa[i] for i in ix] != sb:
                    self.bad("facets-wrong", f"find: {sb} is said to be at {ix} in {sa}")
                continue
            res = pairset(got)
            if (res if exact else sorted(res)) != want:
                self.bad("facets-wrong", f"{how} of {sa} and {sb} is {res}")
            if got.size != len(want) or got.empty != (not want) or got.cells_dtype != dt or (want and tuple(int(x) for x in got[0]) != res[0]):
                self.bad("facets-wrong", f"{how}: size, emptiness, type or first entry do not fit {res}")
            for o, so in pool:
                if pairset(o) != so:
                    self.bad("facets-wrong", f"{how} changed one of its operands from {so} to {pairset(o)}")
            if r.random() < 0.5:
                pool.append((got, res))

    def same_pairs(self, name, got, want, klass="facets-wrong"):
        if len(got) != len(set(got)):
            self.bad(klass, f"{name} lists a facet more than once")
        if set(got) != want:
            self.bad(klass, f"{name}: missing {sorted(want - set(got))[:4]}, wrong {sorted(set(got) - want)[:4]}")

    # ------------------------------------------------------------------------- ops
    def op_maps(self, r):
        self.check_mesh_maps(self.mesh, self.active, self.truth.total, r)
        self.check_tp_maps(self.mesh, self.truth.n, self.exp.gid, True, r)
        t = self.mesh._cpp_object.geometry
        n = [m * self.cfg["degree"] + 1 for m in self.truth.n]
        grid = np.meshgrid(*[np.linspace(0, 1, k) for k in n][::-1], indexing="ij")[::-1]
        self.check_node_maps(self.mesh, np.stack([g.ravel() for g in grid], axis=1), False, r)

    def op_facets(self, r):
        self.check_facet_queries(self.mesh, r)

    def op_cells(self, r):
        kind = r.choice(["cut", "full", "empty"])
        ok, out = self.guard("query-crash", f"get_{kind}_cells", getattr(self.mesh, f"get_{kind}_cells"))
        if ok:
            want = self.exp.cells(kind)
            if [int(a) for a in out] != want:
                self.bad("set-wrong", f"get_{kind}_cells gave {[int(a) for a in out]}, expected {want}")
            self.sim.probe("sets-checked")

    def op_sets(self, r):
        kind, ext = r.choice(["cut", "full", "empty", "all"]), r.random() < 0.5
        if kind == "all":
            ok, out = self.guard("query-crash", "get_all_facets", self.mesh.get_all_facets, ext_integral=ext)
        else:
            ok, out = self.guard("query-crash", f"get_{kind}_facets", getattr(self.mesh, f"get_{kind}_facets"),
                                 **({} if ext else {"ext_integral": False}))      # exterior is the default
        if not ok:
            return
        e = self.exp
        allp = e.pairs["exterior"] | e.pairs["interior"]
        if kind == "all":
            x = e.ext["cut"] | e.ext["full"] | e.ext["empty"]
            want = x if ext else allp - x
        else:
            want = (e.ext if ext else e.int)[kind]
        self.same_pairs(f"get_{kind}_facets({'exterior' if ext else 'interior'})", pairset(out), want, "set-wrong")
        if r.random() < 0.2:
            out.unique()          # public, and changes no set
        self.sim.probe("sets-checked")

    def op_tags(self, r):
        tags = {}
        for k in ("cut", "full", "empty"):
            tags[k] = r.choice([None, 1, 2, 3, 7])
        kw = {k + "_tag": v for k, v in tags.items()}
        e = self.exp
        if r.random() < 0.4:
            ok, mt = self.guard("query-crash", "create_cell_meshtags", self.mesh.create_cell_meshtags, **kw)
            if ok:
                want = sorted((i, v) for k, v in tags.items() if v is not None for i in e.cells(k))
                got = list(zip([int(a) for a in mt.indices], [int(a) for a in mt.values]))
                if got != want:
                    self.bad("tag-wrong", f"create_cell_meshtags({kw}) gave {got[:6]}, expected {want[:6]}")
                self.sim.probe("tags-checked")
            return
        ext = r.random() < 0.6
        ok, lst = self.guard("query-crash", "create_facet_tags", self.mesh.create_facet_tags, ext_integral=ext, **kw)
        if not ok:
            return
        want = {}
        for k, v in tags.items():
            if v is not None:
                want.setdefault(v, set()).update((e.ext if ext else e.int)[k])
        got = {}
        for t, a in lst:
            if t in got:
                self.bad("tag-wrong", f"create_facet_tags({kw}) gives tag {t} twice")
            a = [int(x) for x in a]
            prs = list(zip(a[::2], a[1::2]))
            if len(prs) != len(set(prs)):
                self.bad("tag-wrong", f"create_facet_tags({kw}) lists a facet twice under tag {t}")
            got[t] = set(prs)
        if {k: v for k, v in got.items() if v} != {k: v for k, v in want.items() if v} or not set(got) <= set(want):
            self.bad("tag-wrong", f"create_facet_tags({kw}, ext_integral={ext}) gave sizes { {k: len(v) for k, v in got.items()} }, "
                     f"expected { {k: len(v) for k, v in want.items()} } (or other facets)")
        self.sim.probe("tags-checked")

    # ----------------------------------------------------------------------- forms
    def sub_data(self, r, ty):
        """A subdomain_data object for integral type ty and its meaning: id -> entities."""
        e = self.exp
        top = e.top
        style = r.choice(["none", "tags", "list", "list"])
        if style == "none":
            return None, {}
        ids = sorted(r.sample(range(0, 9), r.randint(1, 3)))
        if ty == "cell":
            if style == "tags":
                n = e.n_local
                ent = sorted(r.sample(range(n), r.randint(0, n))) if n else []
                val = [r.choice(ids) for _ in ent]
                mt = ff.MeshTags(self.mesh, e.dim, ent, val)
                return mt, {i: [c for c, v in zip(ent, val) if v == i and c < e.n_owned] for i in ids}
            own = list(range(e.n_owned))
            if r.random() < 0.5:
                r.shuffle(own)
            mean = {i: [] for i in ids}
            for c in own:
                if r.random() < 0.8:
                    mean[r.choice(ids)].append(c)
            return [(i, np.array(mean[i], dtype=np.int32)) for i in ids], mean
        if ty == "exterior_facet":
            if style == "tags":
                nf = len(e.t["facets"])
                ent = sorted(r.sample(range(nf), r.randint(0, nf))) if nf else []
                val = [r.choice(ids) for _ in ent]
                mt = ff.MeshTags(self.mesh, e.dim - 1, ent, val)
                mean = {i: [] for i in ids}
                at = {int(e.c2f[c][f]): (c, f) for c, f in e.pairs["exterior"]}
                for x, v in zip(ent, val):
                    if x in at:
                        mean[v].append(at[x])
                return mt, mean
            prs = sorted(e.ext["cut"] | e.ext["full"] | e.ext["empty"])
            r.shuffle(prs)
            mean = {i: [] for i in ids}
            for p in prs:
                if r.random() < 0.8:
                    mean[r.choice(ids)].append(p)
            return [(i, np.array([x for p in mean[i] for x in p], dtype=np.int32)) for i in ids], mean
        quads = self.interior_entities()
        if style == "tags":
            nf = len(e.t["facets"])
            ent = sorted(r.sample(range(nf), r.randint(0, nf))) if nf else []
            val = [r.choice(ids) for _ in ent]
            mt = ff.MeshTags(self.mesh, e.dim - 1, ent, val)
            by = {int(e.c2f[q[0]][q[1]]): q for q in quads}
            mean = {i: [] for i in ids}
            for x, v in zip(ent, val):
                if x in by:
                    mean[v].append(by[x])
            return mt, mean
        mean = {i: [] for i in ids}
        if r.random() < 0.5:
            r.shuffle(quads)
        for q in quads:
            if r.random() < 0.8:
                q = q if r.random() < 0.7 or q[2] >= e.n_owned else (q[2], q[3], q[0], q[1])
                mean[r.choice(ids)].append(q)
        return [(i, np.array([x for q in mean[i] for x in q], dtype=np.int32)) for i in ids], mean

    def interior_entities(self):
        e = self.exp
        a = ff.compute_integration_domains(ff.IntegralType.interior_facet, e.top, np.arange(e.t["n_fowned"])).reshape(-1, 4)
        return [tuple(int(x) for x in row) for row in a]

    def new_form(self, r, arity=None):
        """A UFL form and, per term, what it integrates over."""
        e = self.exp
        if arity is None:
            arity = r.choice([0, 1, 2])
        args = tuple(self.args[:arity])
        terms, total = [], None
        data = {}
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            ty = r.choices(["cell", "exterior_facet", "interior_facet", "unf"], self.cfg["ty_w"])[0]
            base = "cell" if ty == "unf" else ty
            self.uid += 1
            ex = ff.Expr(f"t{self.q}_{self.uid}", tuple(c for c in self.coefs if r.random() < 0.5), args,
                         tuple(k for k in self.consts if r.random() < 0.3))
            ex.val = 1.0
            if r.random() < 0.25:
                ex.live = tuple(c for c in ex.coeffs if r.random() < 0.5)
            if base not in data:
                data[base] = self.sub_data(r, base)
            sd, mean = data[base]
            # an id the data does not name integrates over nothing
            where = r.choice(["everywhere", "id", "id", "tuple"]) if sd is not None else "everywhere"
            if where == "everywhere":
                sid = "everywhere"
                give = sd if r.random() < 0.5 else None
                if base == "cell":
                    want = list(range(e.n_owned))
                elif base == "exterior_facet":
                    want = None
                else:
                    want = self.interior_entities()
            else:
                pool = sorted(mean) + ([9] if isinstance(sd, list) or r.random() < 0.2 else [])
                if where == "id":
                    sid = r.choice(pool)
                    want = list(mean.get(sid, []))
                else:
                    sid = tuple(r.sample(pool, min(2, len(pool))))
                    want = [x for i in sid for x in mean.get(i, [])]
                give = sd
            deg = r.choice([None, 0, 1, 2, 3])
            md = {} if deg is None else {"quadrature_degree": deg}
            if ty == "unf":
                if r.random() < 0.4:
                    if self.mds is None or r.random() < 0.3:
                        self.mds = (md, deg)        # the same dictionary for several measures
                    md, deg = self.mds
                ms = self.unf_measure(r, sid, give, md)
            else:
                nm = {"cell": "dx", "exterior_facet": "ds", "interior_facet": "dS"}[ty]
                key = (nm, id(give), deg)
                if key not in self.meas or r.random() < 0.3:
                    if r.random() < 0.3 and self.mds is not None and self.mds[1] == deg:
                        md = self.mds[0]
                    self.meas[key] = ff.Measure(nm, domain=self.mesh, subdomain_data=give, metadata=md)
                ms = self.meas[key](sid) if sid != "everywhere" else self.meas[key]
            name = ex.name
            if ty == "unf":
                _ok, f = self.guard("build-crash", "an integrand times a measure of the unfitted boundary", lambda: ex * ms)
                self.check_factor(f, ex, ms)
            else:
                f = ex * ms
            if where == "tuple" and r.random() < 0.3 and ty != "unf":
                g = f.integrals()[0]
                f = ff.Form([g.reconstruct(subdomain_id=sid)])
            total = f if total is None else total + f
            terms.append(dict(name=name, ty=base, want=want, unf=ty == "unf", deg=deg if deg is not None else 2,
                              coeffs=ex.coeffs, sid=sid, sd=give))
        return dict(form=total, terms=terms, arity=arity, opts=None)

    def check_factor(self, f, ex, ms):
        """What a measure of the unfitted boundary multiplies the integrand with, and that it does so alike each time."""
        DF, N = ff.jacobian(self.mesh), ff.NORMAL[:self.mesh.topology.dim]
        n = DF @ np.linalg.inv(DF.T @ DF) @ N
        for g in f.integrals():
            v = g.integrand().val
            if v is None:
                self.sim.probe("factor-unknown")
            elif abs(v - np.linalg.norm(n)) > 1e-9:
                self.bad("wrong-integrand", f"the surface factor of the unfitted boundary is {v}, not {np.linalg.norm(n)}")
        _ok, f2 = self.guard("build-crash", "an integrand times a measure of the unfitted boundary", lambda: ex * ms)
        if [g.integrand().consts for g in f.integrals()] != [g.integrand().consts for g in f2.integrals()]:
            self.bad("wrong-integrand", "the same term written twice with one measure gives two different ones")
        ids = {c for g in f.integrals() for c in g.integrand().consts}
        if len(ids) > len(ex.consts) + 1:
            self.bad("wrong-integrand", "the ids of one measure have different surface factors")
        nrm = bool(self.uid % 2)
        ok, m = self.guard("build-crash", "mapped_normal", self.mods["dlf"].mapped_normal, self.mesh, **({"normalize": nrm} if self.uid % 3 else {"normalize": True} if nrm else {}))
        nrm = nrm or not self.uid % 3
        want = n / np.linalg.norm(n) if nrm else n
        if ok and m.val is not None and (np.shape(m.val) != want.shape or np.abs(m.val - want).max() > 1e-9):
            self.bad("wrong-integrand", f"the mapped normal is {m.val} instead of {want}")

    def unf_measure(self, r, sid, give, md):
        """A measure of the unfitted boundary, made in one of the ways a user may."""
        was = copy.deepcopy(md)
        how = r.choice(["direct", "direct", "call", "call-degree", "late-degree", "late-data", "reconstruct"])

        def make(**k):
            return self.guard("build-crash", "ds_bdry_unf", self.mods["dlf"].ds_bdry_unf, **k)[1]

        def again(ms, **k):
            return self.guard("build-crash", "ds_bdry_unf.reconstruct", ms.reconstruct, **k)[1]
        if how == "direct" or isinstance(sid, str):
            ms = make(domain=self.mesh, subdomain_id=sid, subdomain_data=give, metadata=md)
        elif how == "call":
            ms = make(domain=self.mesh, subdomain_data=give, metadata=md)
            ms = self.guard("build-crash", "a measure given an id", ms, sid)[1]
        elif how == "late-degree" and md.get("quadrature_degree") is not None and len(md) == 1:
            ms = make(domain=self.mesh, subdomain_data=give)
            ms = self.guard("build-crash", "a measure given an id and degree", ms, sid, degree=md["quadrature_degree"])[1]
        elif how == "late-data":
            ms = make(domain=self.mesh)
            ms = self.guard("build-crash", "a measure given everything later", ms, sid, metadata=md, subdomain_data=give)[1]
        elif how == "call-degree":
            rest = {k: v for k, v in md.items() if k != "quadrature_degree"}
            ms = make(domain=self.mesh, subdomain_data=give, metadata=rest, degree=md.get("quadrature_degree"))(sid)
        else:
            ms = again(make(domain=self.mesh, metadata=md), subdomain_id=sid, subdomain_data=give)
        if md != was:
            self.bad("caller-changed", f"making a measure ({how}) changed the caller's metadata from {was} to {md}")
        self.sim.probe("unf-measure-" + how)
        return ms

    @staticmethod
    def content(sd):
        """What a list of subdomain data holds."""
        return [(i, np.asarray(a).tolist()) for i, a in sd] if isinstance(sd, list) else None

    def snapshot(self, form):
        return [(g, g.integrand(), g.integral_type(), g.ufl_domain(), g.subdomain_id(), id(g.metadata()), copy.deepcopy(g.metadata()), g.subdomain_data(), self.content(g.subdomain_data()))
                for g in form.integrals()]

    def same_form(self, form, snap, label):
        now = [(g.integrand(), g.integral_type(), g.ufl_domain(), g.subdomain_id(), g.metadata(), g.subdomain_data()) for g in form.integrals()]
        if len(now) != len(snap):
            self.bad("caller-changed", f"{label}: the form has {len(now)} integrals instead of {len(snap)}")
        for (g, ig, ty, dom, sid, _mid, md, sd, cont), n in zip(snap, now):
            if self.content(sd) != cont:
                self.bad("caller-changed", f"{label}: the subdomain data list of a {ty} integral changed from {str(cont)[:200]} to {str(self.content(sd))[:200]}")
            if n[0] is not ig or n[1] != ty or n[2] is not dom:
                self.bad("caller-changed", f"{label}: the form's integrals changed")
            if n[3] != sid:
                self.bad("caller-changed", f"{label}: the form's {ty} integral over {sid!r} now has subdomain id {n[3]!r}")
            if n[4] != md:
                self.bad("caller-changed", f"{label}: metadata of a {ty} integral changed from {md} to {n[4]}")
            if n[5] is not sd:
                self.bad("caller-changed", f"{label}: subdomain_data of the {ty} integral over {sid!r} changed to {n[5]!r}")
            if (g.subdomain_id(), g.metadata()) != (sid, md) or g.subdomain_data() is not sd:
                self.bad("caller-changed", f"{label}: an integral object of the form changed: over {sid!r} {md} to over {g.subdomain_id()!r} {g.metadata()}")
        sds = form.subdomain_data()
        flat = [d for per in sds.values() for ty in sorted(per) for d in per[ty]]
        want = [s[7] for s in sorted(snap, key=lambda s: s[2])]
        if len(flat) != len(want) or any(a is not b for a, b in zip(flat, want)):
            self.bad("caller-changed", f"{label}: the form's subdomain data changed")

    def get_form(self, r):
        if self.forms and r.random() < self.cfg["p_old_form"]:
            return r.choice(self.forms)
        F = self.new_form(r)
        F["snap"] = self.snapshot(F["form"])
        if r.random() < 0.3:
            F["form"].subdomain_data()
        self.forms.append(F)
        return F

    def op_build(self, r):
        n = r.choice([1, 1, 1, 2, 3])
        Fs = [self.get_form(r) for _ in range(n)]
        dt = r.choice(DT)
        if not self.opts or r.random() < 0.4:
            o = r.choice([None, {}, {"sum_factorization": False}, {"scalar_type": np.float64}, {"sum_factorization": True, "part": "diagonal"}])
            self.opts.append(o)
        opts = r.choice(self.opts)
        if opts and "part" in opts and any(F["arity"] != 2 or len(F["form"].arguments()) != 2 for F in Fs):
            opts = None
        jopts = r.choice([None, {"cffi_debug": True}])
        so, sj = copy.deepcopy(opts), copy.deepcopy(jopts)
        shape = "single" if n == 1 and r.random() < 0.7 else r.choice(["list", "nested", "tuple"])
        fl = [F["form"] for F in Fs]
        if shape != "single" and r.random() < 0.25:
            fl.insert(r.randint(0, len(fl)), ff.Form([]))
        if shape == "single":
            arg = fl[0]
        elif shape == "list":
            arg = list(fl)
        elif shape == "tuple":
            arg = tuple(fl)
        else:
            k = r.randint(0, len(fl))
            arg = [list(fl[:k]), list(fl[k:])] if len(fl) > 1 else [list(fl)]
        kw = {}
        if dt is not np.float64 or r.random() < 0.5:
            kw["dtype"] = dt
        want_dt = np.dtype(kw.get("dtype", np.float64))
        maps = [types.SimpleNamespace(_cpp_object=object()) for _ in range(r.randint(0, 2))]
        if maps or r.random() < 0.1:
            kw["entity_maps"] = maps
        ok, out = self.guard("build-crash", f"form_custom({shape} of {len(fl)})", self.mods["dlf"].form_custom, arg,
                             form_compiler_options=opts, jit_options=jopts, **kw)
        lab = "building" if ok else "a failed build"
        for F in Fs:
            self.same_form(F["form"], F["snap"], lab)
        if opts != so or jopts != sj:
            self.bad("caller-changed", f"{lab} changed the caller's option dictionary {so} {sj} to {opts} {jopts}")
        if not ok:
            return
        flat = []

        def walk(x):
            if isinstance(x, (list, tuple)):
                for y in x:
                    walk(y)
            else:
                flat.append(x)
        walk(out)
        if shape == "single" and isinstance(out, (list, tuple)):
            self.bad("wrong-results", "one form gave a list")
        if len(flat) != len(fl):
            self.bad("wrong-results", f"form_custom of {len(fl)} forms ({shape}) gave {len(flat)} results")
        by = {id(F["form"]): F for F in Fs}
        for g, cf in zip(fl, flat):
            if g.empty():
                if cf is not None:
                    self.bad("wrong-results", "an empty form gave a compiled form")
                continue
            if cf is None:
                self.bad("wrong-results", "a form gave None")
            F = by[id(g)]
            self.check_built(F, cf, want_dt)
            cpp, u = cf._cpp_object, cf._cpp_object.ufcx
            if {k: v for k, v in u.options.items() if k != "scalar_type"} != {k: v for k, v in (so or {}).items() if k != "scalar_type"} \
                    or (u.jit_options or None) != sj:
                self.bad("wrong-results", f"asked for the options {so} and {sj}, the form was compiled with {u.options} and {u.jit_options}")
            V = [a.ufl_function_space() for a in g.arguments()]
            if (so or {}).get("part") == "diagonal":
                V = V[:1]
            if len(cpp.V) != len(V) or any(a is not b for a, b in zip(cpp.V, V)):
                self.bad("wrong-results", f"the form has {len(cpp.V)} function spaces, or not those of its {len(V)} arguments")
            if len(cpp.constants) != len(g.constants()) or any(a is not b._cpp_object for a, b in zip(cpp.constants, g.constants())):
                self.bad("wrong-results", "the form's constants are not those of its terms")
            if [m for m in cpp.entity_maps] != [m._cpp_object for m in maps]:
                self.bad("wrong-results", "the form has not the entity maps it was given")
            if cpp.mesh is not self.mesh._cpp_object and cpp.mesh is not self.mesh:
                self.bad("wrong-results", "the form is on another mesh")
            self.built.append(dict(F=F, cf=cf, packs=[]))
        self.sim.probe("form-built")

    def check_built(self, F, cf, dt):
        cpp = cf._cpp_object
        if cpp.dtype != dt:
            self.bad("wrong-scalar-type", f"asked for {dt}, got a form of {cpp.dtype}")
        e = self.exp
        kept = [c for c in F["form"].coefficients() if any(c in g.integrand().live for g in F["form"].integrals())]
        if [c.count for c in cpp.coeffs] != [c.count for c in kept]:
            self.bad("wrong-results", "the form's coefficients are not those of its terms")
        for t in F["terms"]:
            got = []
            degs = set()
            for (ty, pos), (sid, ents, itg, terms) in cpp._dom.items():
                hit = []
                for x, q in terms:
                    k = next((k for k in range(3) if x.name == t["name"] and k == 0 or x.name.startswith("*(" * k + t["name"] + ",") and k), None)
                    if k is None:
                        continue
                    hit.append(q)
                    if k != (1 if t["unf"] else 0):
                        self.bad("wrong-integrand", f"term {t['name']} over {t['ty']} {t['sid']!r}: the normal factor of the unfitted boundary "
                                 f"enters {k} times instead of {1 if t['unf'] else 0}")
                if not hit:
                    continue
                degs |= {(q.degree, q.unfitted_boundary) for q in hit}
                if ff.UFL2DLF[t["ty"]] != ty:
                    self.bad("wrong-entities", f"term {t['name']} over {t['ty']} became a {ty.name} integral")
                for row in ents:
                    got.append(int(row) if ty == ff.IntegralType.cell else tuple(int(v) for v in np.asarray(row).ravel()))
            if degs != {(t["deg"], t["unf"])} and degs:
                self.bad("wrong-quadrature", f"term {t['name']} of degree {t['deg']} integrates with {degs}")
            dup = len(got) - len(set(got))
            if dup:
                self.bad("wrong-entities", f"term over {t['ty']} {t['sid']!r} visits {dup} entities more than once")
            if t["want"] is None:
                must = e.ext["cut"] | e.ext["full"]
                may = must | e.ext["empty"]
                if not must <= set(got) <= may:
                    self.bad("wrong-entities", f"exterior-facet term everywhere: missing {sorted(must - set(got))[:4]}, "
                             f"not on the boundary {sorted(set(got) - may)[:4]}")
            elif set(got) != set(t["want"]):
                w = set(t["want"])
                self.bad("wrong-entities", f"{t['ty']} term over {t['sid']!r} (data {type(t['sd']).__name__}): missing {sorted(w - set(got))[:4]}, "
                         f"should not visit {sorted(set(got) - w)[:4]}")
        self.sim.probe("entities-checked")

    # --------------------------------------------------------------------- packing
    def op_pack(self, r):
        if not self.built:
            return self.op_build(r)
        B = r.choice(self.built)
        if B["packs"] and r.random() < 0.5:
            if self.cfg["threads"] > 1:
                return None
            old = r.choice(B["packs"])
            ok, out = self.guard("pack-crash", "update_coefficients", B["cf"].update_coefficients, old)
            lab = "update_coefficients"
        else:
            ok, out = self.guard("pack-crash", "pack_coefficients", B["cf"].pack_coefficients)
            lab = "pack_coefficients"
            if ok:
                B["packs"].append(out)
        if ok:
            self.check_coeffs(B["cf"], out, lab)
            self.sim.probe("pack-checked")

    def op_bump(self, r):
        if self.cfg["threads"] > 1:
            return
        r.choice(self.coefs)._cpp_object.version += 1
        self.sim.probe("coefficient-changed")

    def check_coeffs(self, cf, coeffs, lab):
        e, tr = self.exp, self.truth
        cpp = cf._cpp_object
        if not hasattr(coeffs, "keys"):
            self.bad("bad-layout", f"{lab}: the result is {type(coeffs).__name__}, not a map")
        cs = sum(c.ndofs for c in cpp.coeffs)
        if set(coeffs) != set(cpp._dom):
            self.bad("bad-layout", f"{lab}: coefficients for {sorted((k[0].name, k[1]) for k in coeffs)}, form has {sorted((k[0].name, k[1]) for k in cpp._dom)}")
        for key, (sid, ents, itg, terms) in cpp._dom.items():
            ty, pos = key
            arr = coeffs[key]
            inter = ty == ff.IntegralType.interior_facet
            if arr.dtype != cpp.dtype or arr.ndim != 2 or not arr.flags.c_contiguous:
                self.bad("bad-layout", f"{lab}: array of {arr.dtype}, {arr.ndim} dimensions for a form of {cpp.dtype}")
            m = 2 if inter else 1
            blk = arr.shape[1] * m
            n = len(ents)
            flat = arr.reshape(-1)
            if flat.size < n * blk:
                self.bad("bad-layout", f"{lab}: {flat.size} values for {n} entities of {blk}")
            real = flat.view(ff.REAL[np.dtype(cpp.dtype)])
            ratio = real.size // flat.size if flat.size else 1
            raw = flat.view(np.uint8)
            isz = flat.dtype.itemsize
            rows = ff.packed_rows(cpp, ty, pos)
            used = []
            for k in range(n):
                ent = ents[k]
                std = [complex(v) for v in flat[k * blk:k * blk + cs * m]]
                if std != [complex(v) for v in rows[k]]:
                    self.bad("stale-coefficients" if lab != "pack_coefficients" else "wrong-coefficients",
                             f"{lab}: {ty.name} entity {np.asarray(ent).tolist()} gets coefficient values {[v.real for v in std][:6]}, now {rows[k][:6]}")
                p0 = (k * blk + cs * m) * isz
                off = int(np.frombuffer(raw[p0:p0 + 8].tobytes(), dtype=np.intp)[0])
                if ty == ff.IntegralType.cell:
                    c0 = int(ent)
                    kind = tr.cell[e.gid[c0]]
                    f0 = None
                elif inter:
                    c0, f0 = int(ent[0][0]), int(ent[0][1])
                    kind = tr.int_kind(e.gid[c0], e.lex[f0])
                else:
                    c0, f0 = int(ent[0]), int(ent[1])
                    kind = tr.ext_kind(e.gid[c0], e.lex[f0], e.deg[e.c2f[c0][f0]] == 1)
                mark = "full" if off == -1 else "empty" if off == 0 else "cut"
                if mark != kind:
                    self.bad("wrong-marker", f"{lab}: {kind} {ty.name} entity {np.asarray(ent).tolist()} is marked {mark} (offset {off})")
                if kind != "cut":
                    continue
                p = k * blk * ratio + off
                if p < n * blk * ratio:
                    self.bad("bad-layout", f"{lab}: custom data of entity {k} overlaps the standard coefficients")
                beg = p
                for q, _tables in itg.quad_data_FE_tables.items():
                    p = self.check_quad(lab, ty, q, itg, ent, c0, f0, real, p)
                used.append((beg, p))
            used.sort()
            for (a, b), (c, d) in zip(used, used[1:]):
                if c < b:
                    self.bad("bad-layout", f"{lab}: custom data of two entities overlap")

    def check_quad(self, lab, ty, q, itg, ent, c0, f0, real, p):
        e, tr, dim = self.exp, self.truth, self.truth.dim
        npd = max(-(-(q.degree + 1) // 2), 1)
        nrm = None
        if ty == ff.IntegralType.cell:
            if q.unfitted_boundary:
                pts, w, nrm = tr.bdry_quad(e.gid[c0], npd)
            else:
                pts, w = tr.cell_quad(e.gid[c0], npd)
            lists = [pts]
        else:
            ext = ty == ff.IntegralType.exterior_facet
            fp, w = tr.facet_quad(e.gid[c0], e.lex[f0], npd, ext)
            lists = [e.place(f0, fp)]
            if not ext:
                lists.append(e.place(int(ent[1][1]), fp))
            if itg.is_mixed_dim:
                lists.append(self.facet_frame(c0, f0, fp))
        want = [float(len(w))]
        for L in lists:
            want += [x for pt in L for x in pt]
        want += w
        if nrm is not None:
            want += [x for v in nrm for x in v]
        if p < 0 or p + len(want) > real.size:
            self.bad("bad-layout", f"{lab}: custom data of {ty.name} entity {np.asarray(ent).tolist()} lies outside the array")
        got = [float(v) for v in real[p:p + len(want)]]
        if got != want:
            i = next(j for j in range(len(want)) if got[j] != want[j])
            part = "number of points" if i == 0 else "points" if i <= sum(len(L) * len(L[0]) for L in lists if L) else "weights or normals"
            self.bad("wrong-quadrature", f"{lab}: cut {ty.name} entity {np.asarray(ent).tolist()} ({q}): {part} at {i} is {got[i]}, expected {want[i]}")
        return p + len(want)

    def facet_frame(self, c0, f0, fp):
        """The facet's own (low-to-high) frame: the points that its permutation takes to fp."""
        perm = int(self.exp.top._perm.reshape(-1, 2 * self.truth.dim)[c0][f0])
        out = []
        for pt in fp:
            if self.truth.dim == 2:
                out.append([1 - pt[0]] if perm else list(pt))
                continue
            x, y = pt
            if perm % 2:                 # undo the reflection, then the rotations
                x, y = y, x
            for _ in range(perm // 2):
                x, y = 1 - y, x
            out.append([x, y])
        return out

    # ----------------------------------------------------------------------- petsc
    def new_bcs(self, r):
        dofs = [r.sample(range(ff.N_OWN), r.randint(1, 2)) for _ in range(r.choice([0, 1, 1, 2]))]
        return [ff.DirichletBC({i: float(r.randint(-9, 9)) for i in ds}) for ds in dofs]

    def address(self, o):
        """id() for the code under test: the address of a dead object is used again, as CPython does."""
        for k, (x, _a) in self.ids.items():
            if x is o:
                return self.ids[k][1]
        a = self.free_ids.pop() if self.free_ids else 0x7f0000001000 + 0x60 * len(self.ids)
        self.ids[a] = (o, a)
        return a

    def op_drop(self, r):
        """The user lets go of a problem."""
        ps = [P for P in self.problems if not P["busy"]]
        if not ps:
            return
        P = r.choice(ps)
        self.problems.remove(P)
        self.dropped.append(P["pb"])
        if P["kind"] == "linear":
            self.guard("petsc-crash", "deleting a LinearProblem", P["pb"].destroy)
        for a, (x, _a) in list(self.ids.items()):
            if x is P["pb"]:
                del self.ids[a]
                self.free_ids.append(a)
                self.sim.probe("address-free")

    def op_linear(self, r):
        p = self.mods["petsc"]
        p.id = self.address
        a, L = self.new_form(r, 2), self.new_form(r, 1)
        for F in (a, L):
            F["snap"] = self.snapshot(F["form"])
            self.forms.append(F)
        opts = r.choice([None, {"sum_factorization": False}])
        jopts = r.choice([None, None, {"cffi_debug": True}])
        popts = r.choice([None, {}, {"ksp_type": "preonly", "pc_type": "lu"}, {"ksp_type": "cg", "ksp_rtol": 1e-9}, {"ksp_error_if_not_converged": None}])
        so = copy.deepcopy((opts, jopts, popts))
        u = r.choice([None, self.coefs[0], self.coefs[-1]])
        bcs = self.new_bcs(r)
        given = list(bcs)
        pb = p.LinearProblem.__new__(p.LinearProblem)
        ok, _o = self.guard("petsc-crash", "LinearProblem", pb.__init__, a["form"], L["form"], bcs, u, popts, opts, jopts)
        if not ok:
            self.guard("petsc-crash", "deleting a half-made LinearProblem", pb.destroy)
        for F in (a, L):
            self.same_form(F["form"], F["snap"], "LinearProblem")
        if (opts, jopts, popts) != so or bcs != given:
            self.bad("caller-changed", "LinearProblem changed the caller's options or boundary conditions")
        if ok:
            P = dict(kind="linear", pb=pb, a=[ff.form_atoms([g.integrand().name for g in a["form"].integrals()])],
                     L=[ff.form_atoms([g.integrand().name for g in L["form"].integrals()])], bcs=bcs, u=u, options=dict(popts or {}), compile=so[:2], busy=False,
                     space=a["form"].arguments()[-1].ufl_function_space())
            self.problems.append(P)
            self.solve(r, P)

    def op_nonlinear(self, r):
        p = self.mods["petsc"]
        u = self.coefs[0]
        blocks = r.random() < 0.3
        Fs = [self.new_form(r, 1) for _ in range(2 if blocks else 1)]
        Js = [self.new_form(r, 2) for _ in range(2 if blocks else 1)]
        for F in Fs + Js:
            F["snap"] = self.snapshot(F["form"])
            self.forms.append(F)
        Fa = [F["form"] for F in Fs] if blocks else Fs[0]["form"]
        Ja = [J["form"] for J in Js] if blocks else (None if r.random() < 0.3 else Js[0]["form"])
        opts = r.choice([None, None, {"sum_factorization": False}])
        jopts = r.choice([None, None, {"cffi_debug": True}])
        so = copy.deepcopy((opts, jopts))
        bcs = self.new_bcs(r)
        given = list(bcs)
        ok, pb = self.guard("petsc-crash", "NonlinearProblem", p.NonlinearProblem, Fa, u, bcs, Ja, opts, jopts)
        for F in Fs + Js:
            self.same_form(F["form"], F["snap"], "NonlinearProblem")
        if (opts, jopts) != so or bcs != given:
            self.bad("caller-changed", "NonlinearProblem changed the caller's options or boundary conditions")
        if ok:
            L = [ff.form_atoms([g.integrand().name for g in F["form"].integrals()]) for F in Fs]
            P = dict(kind="nonlinear", pb=pb, L=L, bcs=bcs, u=u, compile=so, busy=False,
                     a=["d" + L[0]] if Ja is None else [ff.form_atoms([g.integrand().name for g in F["form"].integrals()]) for F in Js])
            self.problems.append(P)
            self.solve(r, P)

    def op_solve(self, r):
        if not self.problems:
            return (self.op_linear if r.random() < 0.4 else self.op_nonlinear)(r)
        self.solve(r, r.choice(self.problems))

    def solve(self, r, P):
        if P["busy"]:
            return
        P["busy"] = True
        try:
            self.solve_it(r, P)
        finally:
            P["busy"] = False

    def solve_it(self, r, P):
        kind, pb = P["kind"], P["pb"]
        t = current_task()
        seen = []

        def assembled(what, form, coeffs):
            if what == "options":
                for o in form:
                    seen.append((type(o).__name__, o.used))
                return
            forms = form if isinstance(form, (list, tuple)) else [form]
            if what == "lifting":
                forms = forms[0] if isinstance(forms[0], (list, tuple)) else forms
            cl = coeffs if isinstance(coeffs, (list, tuple)) else [coeffs]
            if len(cl) != len(forms):
                self.bad("wrong-coefficients", f"{what}: {len(cl)} coefficient sets for {len(forms)} forms")
            for f, c in zip(forms, cl):
                if c is None:
                    self.bad("wrong-coefficients", f"{what}: assembled a custom form without its coefficients")
                self.check_coeffs(f, c, what)
                w = f._cpp_object.ufcx
                if np.dtype(f._cpp_object.dtype) != np.float64 or (dict((k, v) for k, v in w.options.items() if k != "scalar_type"), w.jit_options or None) != (P["compile"][0] or {}, P["compile"][1]):
                    self.bad("wrong-options", f"{what}: the form was compiled for {f._cpp_object.dtype} with {w.options} and {w.jit_options}, asked for PETSc's scalar type with {P['compile']}")
            seen.append(what)
        t.local["assembled"] = assembled
        try:
            for _ in range(r.choice([1, 2, 3])):
                if r.random() < 0.3:
                    for bc in P["bcs"]:                      # prescribed values change between steps
                        bc.values.update({i: g + 1.0 for i, g in bc.values.items()})
                    self.sim.probe("bc-changed")
                if r.random() < 0.15:
                    P["bcs"] = pb.bcs = self.new_bcs(r)
                    self.sim.probe("bcs-replaced")
                del seen[:]
                ok = self.solve_linear(pb, P, seen) if kind == "linear" else self.solve_nonlinear(r, pb, P)
                if ok:
                    self.sim.probe("solution-checked")
                if r.random() < 0.6:
                    self.op_bump(r)
        finally:
            t.local["assembled"] = None
        if seen:
            self.sim.probe("solve-checked")

    def solve_linear(self, pb, P, seen):
        ok, u = self.guard("petsc-crash", "solve", pb.solve)
        if not ok or self.cfg["threads"] > 1:
            return False
        if u is not (P["u"] if P["u"] is not None else pb.u) or P["u"] is None and u.function_space is not P["space"]:
            self.bad("wrong-solution", "solve() gave another function than the one asked for")
        A, b = self.system(P, None, -1.0)
        for i, g in ff.prescribed(P["bcs"]).items():
            if i < ff.N_OWN:
                b[i] = g
        x = np.linalg.solve(A, b)
        want = np.concatenate([x, x[ff.OWNER]])
        if not np.allclose(u.x.array, want, rtol=1e-9, atol=1e-9):
            self.bad("wrong-solution", f"solve() gave {np.round(u.x.array, 6).tolist()} (owned, then ghosts), the system's solution is {np.round(want, 6).tolist()}")
        for name, used in [s for s in seen if isinstance(s, tuple)]:
            if (used or {}) != P["options"]:
                self.bad("wrong-options", f"the problem was given the PETSc options {P['options']}, its {name} used {used}")
        if P["options"]:
            self.sim.probe("options-checked")
        return True

    def system(self, P, x0, sign):
        """Matrix and right-hand side, before prescribed values; the lifting has factor -sign."""
        A = sum(ff.fold_matrix(ff.masked(ff.local_matrix(k), P["bcs"])) for k in P["a"])
        for i in ff.prescribed(P["bcs"]):
            if i < ff.N_OWN:
                A[i, i] = 1.0
        b = sum(ff.local_vector(k) for k in P["L"]) + sum(ff.lifted(ff.local_matrix(k), P["bcs"], x0, -sign) for k in P["a"])
        return A, ff.fold(b)

    def solve_nonlinear(self, r, pb, P):
        x = ff.Vec()
        x.a[:ff.N_OWN] = [float(r.randint(-9, 9)) for _ in range(ff.N_OWN)]
        x.a[ff.N_OWN:] = x.a[ff.OWNER]
        x0 = x.a.copy()
        step = r.choice(["F", "J", "FJ"])
        done = True
        if "F" in step:
            b = P.setdefault("b", ff.Vec())
            ok, _o = self.guard("petsc-crash", "F", pb.F, x, b)
            done = done and ok
            if ok and self.cfg["threads"] == 1:
                _A, want = self.system(P, x0, 1.0)
                for i, g in ff.prescribed(P["bcs"]).items():
                    if i < ff.N_OWN:
                        want[i] = x0[i] - g
                if not np.allclose(b.array, want, rtol=1e-12, atol=1e-9):
                    self.bad("wrong-solution", f"F(x) gave the residual {b.array.tolist()}, expected {want.tolist()} with {len(P['bcs'])} boundary conditions")
        if "J" in step and (done or r.random() < 0.5):
            A = P.setdefault("A", ff.Mat())
            ok, _o = self.guard("petsc-crash", "J", pb.J, x, A)
            done = done and ok
            if ok and self.cfg["threads"] == 1:
                want, _b = self.system(P, x0, 1.0)
                if not A.assembled:
                    self.bad("wrong-solution", "J(x) left the Jacobian unassembled")
                if not np.allclose(A.m, want, rtol=1e-12, atol=1e-9):
                    self.bad("wrong-solution", f"J(x) gave the Jacobian {A.m.tolist()}, expected {want.tolist()}")
        if (x.a != x0).any():
            self.bad("wrong-solution", "F or J changed the solution it was given")
        return done and self.cfg["threads"] == 1

    def finish(self):
        try:
            self.final()
        except OpSkip:
            pass

    def final(self):
        """After every failure has stopped: everything still answers, and correctly."""
        for kind in ("cut", "full", "empty"):
            ok, out = self.guard("query-crash", f"get_{kind}_cells", getattr(self.mesh, f"get_{kind}_cells"))
            if [int(a) for a in out] != self.exp.cells(kind):
                self.bad("set-wrong", f"get_{kind}_cells gave {[int(a) for a in out]} in the end, expected {self.exp.cells(kind)}")
            for ext in (True, False):
                ok, out = self.guard("query-crash", f"get_{kind}_facets", getattr(self.mesh, f"get_{kind}_facets"), ext_integral=ext)
                self.same_pairs(f"get_{kind}_facets({'exterior' if ext else 'interior'}) in the end", pairset(out),
                                (self.exp.ext if ext else self.exp.int)[kind], "set-wrong")
        for F in self.forms:
            self.same_form(F["form"], F["snap"], "in the end")
        for B in self.built[-2:]:
            ok, out = self.guard("pack-crash", "pack_coefficients", B["cf"].pack_coefficients)
            self.check_coeffs(B["cf"], out, "pack_coefficients")
        for P in self.problems[-2:]:
            self.solve(random.Random(0), P)


WEIGHTS = {
    "C14": dict(build=6, linear=1, nonlinear=1, cells=1, sets=1, pack=1),
    "C15": dict(build=8, sets=1, tags=1, pack=1),
    "C16": dict(build=3, pack=5, bump=2, linear=1, nonlinear=1, solve=2, sets=1),
    "C17": dict(cells=4, sets=6, tags=4, build=2, pack=2),
    "C18": dict(maps=6, cells=1, facets=1),
    "C19": dict(facets=4, maps=1, sets=4, tags=2),
    "C26": dict(cells=1),
    "C25": dict(linear=3, nonlinear=2, solve=4, drop=2, bump=1),
}


def gen_config_for(rs, prop):
    r = random.Random(f"cfg/{rs}")
    dim = r.choice([2, 2, 3])
    n = r.choice([[1, 1], [2, 1], [2, 2], [3, 2], [4, 3]]) if dim == 2 else r.choice([[1, 1, 1], [2, 1, 1], [2, 2, 1], [2, 2, 2], [3, 2, 1]])
    ranks = r.choice([1, 1, 2, 3])
    threads = 1 if prop in ("C18", "C19", "C25", "C26") else r.choice([1, 1, 2])
    kinds = r.sample(["jit", "form", "pack", "getter", "quad", "cpp", "petsc"], r.choice([1, 1, 2])) if r.random() < 0.5 else []
    w = WEIGHTS[prop]
    nops = r.choice([3, 5, 8])
    cfg = {
        "prop": prop, "ranks": ranks, "threads": threads, "n": n, "truth_seed": r.randrange(1 << 30), "bias": r.choice(["mixed", "mixed", "cut", "full", "some", "noempty"]),
        "degree": r.choice([1, 1, 1, 2]), "exclude": r.random() < 0.5, "ghost": r.choice(["none", "shared_facet"]),
        "mesh_dtype": r.choice(["float64", "float64", "float32"]), "ndofs": [r.randint(1, 4) for _ in range(r.choice([1, 2, 3]))],
        "ty_w": r.choice([[3, 3, 2, 2], [1, 4, 1, 0], [2, 0, 4, 1], [3, 0, 0, 3]]), "p_old_form": r.choice([0.2, 0.6]), "mixed_dim": r.random() < 0.2, "embedded": r.random() < 0.3,
        "ops": [[[r.choices(list(w), list(w.values()))[0], r.randrange(1 << 30)] for _ in range(nops)] for _ in range(ranks * threads)],
        "meshes": [[r.choice(["cart", "tp", "merge"]), r.randrange(1 << 30)] for _ in range(r.choice([1, 2]))] if prop in ("C18", "C19") else [["reparam", r.randrange(1 << 30)] for _ in range(r.choice([1, 2, 3]))] if prop == "C26" else [],
        "p_switch": r.choice([0.02, 0.1, 0.3]), "policy": r.choice(["random", "random", "prio"]), "lines": threads > 1,
    }
    for k in ("jit", "form", "pack", "getter", "quad", "cpp", "petsc"):
        cfg["p_" + k] = r.choice([0.05, 0.2, 0.5]) if k in kinds else 0.0
    if ranks > 1:
        cfg["p_cpp"] = 0.0
    return cfg


def execute(run_seed, cfg, active, trace=None, keep_log=False):
    setup()
    cfg = dict(cfg, _active=active, _other=[])
    sim = Sim(run_seed, cfg, trace, keep_log, max_steps=500000)
    saved = ff.q_modules()
    sim.globals = ProcGlobals({"modules": (ff.q_modules, ff.set_q, dict)})
    if cfg["lines"]:
        sim.trace_codes = {ff.QROOT + "/" + f for f in TRACED}
    cfg["_truth"] = ff.Truth(cfg["truth_seed"], cfg["n"], cfg["bias"])
    group = ff.Group(cfg["ranks"])
    res = {"violation": None}
    try:
        ranks = []
        for q in range(cfg["ranks"]):
            p = sim.proc(f"r{q}")
            R = Rank(sim, q, cfg, ff.Comm(group, q))
            ranks.append(R)

            def work(R=R, p=p, k=0):
                if k == 0:
                    t = current_task()
                    t.no_preempt += 1           # rendezvous is the only point where mesh creation waits
                    try:
                        R.make()
                    except OpSkip as e:
                        sim.failure = Violation(e.klass, "mesh creation")
                        raise sim.failure from None
                    t.no_preempt -= 1
                    rest = [sim.spawn(p, f"r{R.q}.t{j}", lambda j=j: work(R, p, j)) for j in range(1, cfg["threads"])]
                for kind, seed in cfg["ops"][R.q * cfg["threads"] + k]:
                    sim.step("op " + kind)
                    try:
                        getattr(R, "op_" + kind)(random.Random(f"op/{seed}"))
                    except OpSkip:
                        pass
                if k == 0:
                    sim.wait(lambda: all(t.done for t in rest), "join")
                    sim.wait(lambda: True, "final")
            sim.spawn(p, f"r{q}", work)

        for R, p in zip(ranks, list(sim.procs)):
            ct = sim.spawn(p, f"fin{R.q}", lambda R=R: (sim.wait(lambda: all(t.done for t in sim.tasks if not t.name.startswith("fin")), "closer"),
                                                        setattr(sim, "faults_on", False), R.finish()))
        sim.run()
    except Violation as v:
        if v.klass in active:
            res["violation"] = {"class": v.klass, "msg": v.msg}
        else:
            res["other"] = v.klass
    finally:
        ff.set_q(saved)
    if cfg["_other"] and res["violation"] is None:
        res.setdefault("other", cfg["_other"][0])
    res.update(digest=sim.digest(), sched=sim.shash.hexdigest(), steps=sim.steps, faults=sim.fault_counts,
               probes=sim.probe_counts, sim_s=sim.now - sim.t0, choices=sim.choices, switches=sim.switches, log=sim.log_lines)
    return res


def shrink_config(cfg):
    out = []
    k = cfg["ranks"] * cfg["threads"]
    if cfg["ranks"] > 1:
        out.append(dict(cfg, ranks=cfg["ranks"] - 1, ops=cfg["ops"][:(cfg["ranks"] - 1) * cfg["threads"]]))
    if cfg["threads"] > 1:
        out.append(dict(cfg, threads=1, lines=False, ops=[cfg["ops"][q * cfg["threads"]] for q in range(cfg["ranks"])]))
    for i in range(k):
        for j in range(len(cfg["ops"][i])):
            o = [list(x) for x in cfg["ops"]]
            del o[i][j]
            out.append(dict(cfg, ops=o))
    for i in range(len(cfg["meshes"])):
        out.append(dict(cfg, meshes=cfg["meshes"][:i] + cfg["meshes"][i + 1:]))
    for key, v in (("degree", 1), ("exclude", False), ("ghost", "none"), ("lines", False), ("p_jit", 0.0), ("p_form", 0.0), ("p_pack", 0.0),
                   ("p_getter", 0.0), ("p_quad", 0.0), ("p_cpp", 0.0), ("p_petsc", 0.0), ("mixed_dim", False), ("embedded", False), ("mesh_dtype", "float64")):
        if cfg[key] != v:
            out.append(dict(cfg, **{key: v}))
    if cfg["n"] not in ([1, 1], [1, 1, 1]):
        for d in range(len(cfg["n"])):
            if cfg["n"][d] > 1:
                m = list(cfg["n"])
                m[d] -= 1
                out.append(dict(cfg, n=m))
    return out


def nontrivial(cfg, res):
    p = res["probes"]
    need = {"C14": "form-built", "C15": "entities-checked", "C16": "pack-checked", "C17": "sets-checked", "C18": "maps-checked", "C19": "facets-checked", "C25": "solution-checked", "C26": "reparam-checked"}
    k = need[cfg["prop"]]
    return (p.get(k, 0) >= 1 or cfg["prop"] == "C16" and p.get("solve-checked", 0) >= 1) and p.get("mesh-made", 0) == cfg["ranks"]


COMPONENTS = {
    "real": ["python/qugar/dolfinx/{forms,custom_coefficients,custom_quad_utils,petsc,boundary,integral_data,quadrature_data}.py",
             "python/qugar/mesh/*.py", "python/qugar/quad/*.py", "numpy", "basix reference cells"],
    "stub": ["DOLFINx mesh partition, topology, forms, packing and assembly", "UFL forms and measures", "FFCx grouping of integrals and kernel compilation",
             "mpi4py communicator", "PETSc", "scipy KDTree", "C++ unfitted domain and quadratures (seeded values)"],
}
