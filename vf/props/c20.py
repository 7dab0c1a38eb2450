"""C20: a quantity has the layout its MPI and HDF5 descriptions claim."""
import concurrent.futures as cf
from .. import core

FEATS = {"int": (), "rational": ("rational",)}


def run(c):
    with cf.ThreadPoolExecutor(2) as ex:
        bs = list(ex.map(lambda k: core.build_harness("lay", FEATS[k], k), FEATS))
    jobs = [(b, e) for b in bs for e in b.list("c20_")]
    if len(jobs) < 38:
        c.error(f"only {len(jobs)} entries")
    c.run_jobs(jobs, {"time": 600}, validate=1)
    c.bound("all bit patterns of f32, f64, Vec2, DVec2, Vec3, DVec3; four dimensions per type; integer and rational exponents")
    c.assume("MPI's constructors of datatypes (contiguous, vector, hvector, indexed_block, struct, resized, dup, commit, free) are replaced by ones that keep what was asked of them, following the MPI standard; the handles of MPI's own datatypes are some distinct constants")
    c.assume("what the mpi crate says about f32 and f64 themselves is the reference for the components")
