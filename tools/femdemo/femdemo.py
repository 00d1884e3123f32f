"""Real qugar modules on stand-ins for FEniCSx (femfake): a mesh on one or more ranks."""
import sys
import threading

sys.dont_write_bytecode = True
import numpy as np
import femfake as ff
from simpy.core import SIM, current_task

ff.install(True)
MODS = ff.load()


def make(n=(3, 2), cells=None, seed=3, bias="mixed", exclude=False, comm=None, ghost="none", degree=1):
    """(mesh, truth): cells gives the state of every cell."""
    truth = ff.Truth(seed, n, bias)
    if cells is not None:
        assert truth.cell == list(cells), truth.cell
    comm = comm or ff.Comm(ff.Group(1), 0)
    msh = MODS["mesh"].create_unfitted_impl_Cartesian_mesh(comm, ff.ImplicitFunc(truth), list(n), degree=degree, exclude_empty_cells=exclude,
                                                           ghost_mode=ff.GhostMode[ghost], dtype=np.float64)
    return msh, truth


def ranks(k, fn):
    """fn(comm, rank) on every rank."""
    g = ff.Group(k)
    out, err = [None] * k, []

    def run(q):
        try:
            out[q] = fn(ff.Comm(g, q), q)
        except BaseException as e:        # noqa: BLE001
            err.append(e)
    ts = [threading.Thread(target=run, args=(q,), daemon=True) for q in range(k)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(100)
    if err:
        raise err[0]
    return out


def expect(cond, msg):
    if not cond:
        print("FAIL:", msg)
        sys.exit(1)
