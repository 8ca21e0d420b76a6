import numpy as np
from .gens import *
from . import mf
from .c10 import run, inside


def grad_ok(g, which):
    m, d, ev, sc, c, box, lay = run(g, which, grad=True)
    g.chk(box['g'] is not None, 'a gradient is given to the optimizer')
    for k, (x, gx) in enumerate(zip(box['pts'], box['g'])):
        if which != 'PMF' and not inside(lay, x, c):
            continue
        g.note(at=x.tolist())
        g.chk(gx.shape == x.shape, 'shape of the gradient', got=gx.shape)
        g.close(gx, mf.ref_grad(lay.split(x), c, lay, len(x)),
                'gradient of ' + which, rtol=1e-6, atol=1e-7)
        if k == 1:
            sc_ = max(1.0, float(np.max(np.abs(gx))))
            g.close(np.array(box['fd']) / sc_, gx / sc_,
                    'gradient against differences of the loss', rtol=1e-4,
                    atol=1e-4)


def case_pmf(g):
    grad_ok(g, 'PMF')


def case_lpmf(g):
    grad_ok(g, 'LogisticPMF')


def case_ilpmf(g):
    grad_ok(g, 'ImplicitLogisticPMF')


FAMILIES = [(case_pmf, 1), (case_lpmf, 1), (case_ilpmf, 1)]
