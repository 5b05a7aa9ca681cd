"""C22: calls bind and attributes exist, on every public call sequence."""
from ..scen import *
from ..report import run

FAULTS = ('bind', 'unbound', 'noattr', 'none-operand', 'notcallable', 'keyerror', 'import-error', 'unpack',
          'cast-error', 'lossy-store', 'unfitted')
MAYBE = ('maybe-unbound', 'maybe-noattr')

RULES = {
    'bind': 'a call passes arguments its target does not accept',
    'unbound': 'a variable is read that no path has bound',
    'maybe-unbound': 'a variable is read that an option value leaves unbound',
    'noattr': 'an attribute is read that no earlier step has set',
    'maybe-noattr': 'an attribute is read that an option value leaves unset',
    'none-operand': 'an operation is applied to None',
    'notcallable': 'a value that is not callable is called',
    'keyerror': 'a missing dictionary key is read',
    'import-error': 'an import does not resolve',
    'unpack': 'a value is unpacked into the wrong number of targets',
    'cast-error': 'an in-place operation cannot cast its result',
    'lossy-store': 'a floating-point result is stored in an array of integers',
    'unfitted': 'a library estimator is applied before it has been fitted',
    'returns': 'the public call has a path on which it returns',
}


def configs(tier):
    out = []
    for c in all_models(tier):
        for ch in chains(c, tier):
            c2 = Conf(c)
            c2['chain'] = '>'.join(ch)
            out.append(c2)
    return out


def analyse(conf, col):
    k = Ctx(conf)
    x = k.x
    for i, name in enumerate(conf['chain'].split('>')):
        m = x.mark()
        step(k, name, i, i == 0)
        evs = x.new_events(m)
        bad = 0
        for e in evs:
            if e.kind in FAULTS:
                bad += 1
                col.bad(e.kind, '%s: %s' % (e.func, e.text[:160]), '%s in %s (step %s of %s)' % (
                    e.data.get('what') or e.data.get('name') or e.data, e.func, name, conf['chain']), e.where())
            elif e.kind in MAYBE:
                st = col.bad if e.data.get('precise') else col.unk
                st(e.kind, '%s: %s' % (e.func, e.data.get('name')), 'not set when %s' % (e.data.get('when'),), e.where())
            elif e.kind in ('unmodelled', 'unsupported', 'opaque-iter', 'opaque-comp', 'nonconverged', 'recursion'):
                col.unk('returns', '%s: %s' % (e.func, e.text[:100]), e.kind, e.where())
        if x.dead:
            if not bad:
                evr = [e for e in evs if e.kind in ('raise', 'shape', 'indexerror')]
                last = evr[-1] if evr else None
                col.bad('returns', '%s.%s' % (conf['model'].rsplit('.', 1)[1], name),
                        'no path returns: %s' % (last and (last.text[:120], last.data.get('exc')),),
                        last.where() if last else '')
            break
        if not bad:
            col.ok('returns', '%s.%s' % (conf['model'].rsplit('.', 1)[1], name), 'step %d of %s' % (i + 1, conf['chain']))
    col.functions |= x.I.seen_functions
    col.count('calls_into_package', x.I.user_calls)
    col.count('calls_into_libraries', x.I.ext_calls)
    col.count('attribute_reads', sum(e.kind == 'getattr' for e in x.I.events))


def main(tier):
    return run('C22', analyse, configs(tier), RULES,
               'Abstract interpretation of sequences of public calls from the source text: every call is bound '
               'against the signature of its target (package functions from their definitions, library functions '
               'from a table), every variable and attribute read is checked against what the path has set; data, '
               'sizes and numeric options are symbolic, the choice of options is enumerated.', tier, need=('returns',))
