"""what a loaded file must contain (C23, C24)"""
from .common import *


def cell(f, kind, i, c, sort='E'):
    """column c of line i of file f, read as a value of a type"""
    return app('cell.%s.file.%s' % (kind, f), (to_term(i), to_term(c)), sort)


def loaded(h, o, f, scored, K, S, otf, kind='i', domain=None, feature=None,
           score=None):
    """the data set o holds the rows of file f"""
    N = app('lines.file.' + f, (), 'I')
    cls = EventWithScoreData if scored else EventData
    h.ensure('class of the data set', TRUE if isinstance(
        o, Obj) and o.cls is cls else FALSE)
    h.same('number of object types', h.attr(o, 'n_otypes'), K)
    h.elements('types of the columns', h.attr(o, 'event_otypes'), [S], otf)
    h.same('number of columns', h.attr(o, 's_event'), S)
    h.same('number of events', h.attr(o, 'n_events'), N)
    x = lambda i, e: cell(f, kind, i, e)
    ev = h.attr(o, 'event')
    h.shape('event', ev, [N, S])
    h.elements('external ids of the events',
               h.method(o, 'to_eid_event', ev), [N, S], x)
    tables_of(h, o, K, S, otf, x, N)
    at = S
    if scored:
        sc = h.attr(o, 'score')
        h.ensure('scores are numbers', TRUE if isinstance(sc, Arr) and
                 sc.kind in ('if' if score else 'f') else FALSE)
        h.elements('scores', sc, [N], score or (
            lambda i: cell(f, 'f', i, S, 'R')))
        h.elements('score domain', h.attr(o, 'score_domain'), [num(3)],
                   lambda i: ite(eq(i, ZERO), domain[0], ite(
                       eq(i, ONE), domain[1], domain[2])))
        at = add(S, ONE)
    ft = h.attr(o, 'event_feature')
    if feature is None:
        h.ensure('no event features', TRUE if ft is None else FALSE)
    else:
        h.elements('event features', ft, [N],
                   lambda i: cell(f, feature, i, at))
