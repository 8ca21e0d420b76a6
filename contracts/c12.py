"""C12 Fitting leaves a self-contained, truthful model"""
from .fitmf import *
from engine.norm import diff


def opt(f, *idx):
    return app('opt.' + f, tuple(to_term(x) for x in idx), 'R')


def fitted(h, cls, again=False):
    r = fit(h, cls, again=again)
    m, o, d, C = r.m, r.o, r.d, h.C
    A = o.attrs
    pt = r.call['point']
    fld = list(pt.struct.fields)
    # which field of the optimizer's vector holds which parameter: the one
    # that raw parameters were read from
    dims = {'mu_': [ONE], 'bu_': [m.nu], 'bi_': [m.ni],
            'p_': [m.nu, m.k], 'q_': [m.ni, m.k]}
    for nm, sh in dims.items():
        a = A[nm]
        if nm == 'mu_':
            h.elements(nm, a, [ONE], lambda i: opt('mu', i))
            continue
        f = nm[:-1]
        full = [add(sh[0], ONE)] + sh[1:]
        h.elements(nm, a, full, lambda *i: ite(
            lt(i[0], sh[0]), opt(f, *i), ZERO))
    # the reported results
    R = A['fit_results_'].items
    num_of = {'n_users': m.nu, 'n_items': m.ni, 'n_events': d.N,
              'n_parameters': add(ONE, m.nu, m.ni, mul(m.nu, m.k),
                                  mul(m.ni, m.k)),
              'status': var('res.status', 'I'),
              'n_iterations': var('res.nit', 'I'),
              'func_calls': var('res.nfev', 'I'),
              'grad_calls': var('res.njev', 'I')}
    for k, v in num_of.items():
        h.same('reported ' + k, R[k], v)
    h.ensure('reported success', eq(to_term(R['success']),
                                    var('res.success', 'B')))
    h.ensure('reported message', TRUE if isinstance(
        R['message'], Opaque) and R['message'].name == 'res.message'
        else FALSE)
    h.same('initial loss is the loss at the starting point',
           R['initial_loss'], r.call['f0'])
    h.same('final loss is the loss of the learned parameters',
           R['final_loss'], objective(m, cls))
    h.ensure('the gradient is given to the optimizer', TRUE if isinstance(
        r.call['jac'], interp.Bound) and r.call['jac'].self_ is o and
        r.call['jac'].fn.__name__ == 'grad_loss' else FALSE)
    # training data are discarded, the tables are kept
    for k in ('event', 'event_feature', '_rng') + (
            ('score',) if cls is not ImplicitLogisticPMF else ()):
        h.ensure(k + ' is discarded', TRUE if A.get(k) is None else FALSE)
    h.same('n_otypes is kept', A['n_otypes'], d.K)
    h.elements('object counts', A['n_objects'], [num(2)],
               lambda e: ite(eq(e, ZERO), m.nu, m.ni))
    q, i = fresh('o', 'I'), fresh('i', 'I')
    k = fresh('k', 'E')
    e = A['eid'].read([q])
    t = A['iid'].read([q])
    h.ensure('external ids are kept', and_(
        eq(e.shape[0], d.n(q)), forall([q, i], eq(e.read([i]),
                                                  d.eid(q, i)))))
    h.ensure('internal ids are kept', forall([q, k], and_(
        eq(t.dom(k), d.known(q, k)),
        imp(d.known(q, k), eq(to_term(t.val(k)), d.iid(q, k))))))
    # frame
    same_state(h, 'data', r.before, PDict(dict(d.data.attrs)))
    same_state(h, 'options', r.opts_before, r.opts)
    # independence of later changes to the container
    for k in ('n_objects', 'eid', 'iid'):
        h.ensure(k + ' is not shared with the data', TRUE if A[k].buf is not
                 d.data.attrs[k].buf else FALSE)


for _c in (PMF, LogisticPMF, ImplicitLogisticPMF):
    contract(_c.__name__ + '.fit')(lambda h, c=_c: fitted(h, c))
    contract(_c.__name__ + '.fit, again')(lambda h, c=_c: fitted(h, c, True))
