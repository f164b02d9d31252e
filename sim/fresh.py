"""A new interpreter: performs operations of a scenario and pickles the canonical results.  argv: pickle in, pickle out"""
import os, pickle, sys
sys.path.insert(0, os.environ["SIM_VERIF"])


def main():
    import random
    from sim import mpi, omp, ops, plots, pool
    mpi.solo()
    pool.install()
    import cosmic_profiles  # noqa
    plots.install()
    sc, work, todo = pickle.load(open(sys.argv[1], "rb"))
    import numpy as np
    np.random.seed(int(os.environ["PYTHONHASHSEED"])); random.seed(7)
    omp.configure({"policy": omp.SEQ, "threads": 1})
    pool.start({"seed": 5, "ncpu": 3, "fallback": 3, "stall": 0, "faults": []})
    w = ops.World.__new__(ops.World)
    w.sc, w.work, w.cats, w.out = sc["sc"], work, sc["cats"], work + "/out"
    out = []
    for n, op in enumerate(todo):
        try:
            ops.set_units(0)
            obj, _, viz, cat = w.open(op["obj"], "-fresh%d" % n)
            out.append(("ok", ops.perform(obj, viz, cat, sc["sc"], op)))
        except Exception as e:
            out.append(("exc", type(e).__name__))
    pool.stop()
    pickle.dump(out, open(sys.argv[2], "wb"))


if __name__ == "__main__":
    main()
