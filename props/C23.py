"""Truncation indicator."""
from fstruct import *
T = ['start', 'first level', 'first VFR level', 'after a point', 'after a lat/long', 'after a route', 'after DCT',
     'after point slash', 'after level change', 'after SID', 'after SID literal', 'after STAY time', 'after STAY',
     'after C', 'after C point', 'after T', 'in recovery', 'in recovery at start', 'recovery slash', 'in VFR section',
     'in VFR section, text', 'VFR then IFR', 'VFR to IFR done', 'OAT then GAT', 'long route', 'two errors']
AFTER_T = ['T', 'PNT', 'RTE', '/', 'SA', 'VFR', 'IFR', 'DCT', 'STAY', 'SS', 'C', 'UNK', 'LONG', 'SV']


def harnesses(tier):
    hs = structural(tier, ['name', 'result', 'errors'], only=T, deep=[])
    for ctx in T:
        hs.append(H('with T after: ' + ctx, with_t,
                    'opening "%s" + "T" + 0..2 free elements out of %d kinds' % (ctx, len(AFTER_T)), ctx=ctx,
                    K=2 if tier == 'quick' else 3))
    return rotate(hs, 23)


def with_t(c, ctx, K):
    toks = [fixed_token(c, i, k) for i, k in enumerate(CONTEXTS[ctx])]
    toks.append(sym_token(c, 'T', 'T'))
    for i in range(c.choose('n', K + 1)):
        toks.append(free_token(c, 't%d' % i, AFTER_T))
    show(c, toks)
    ers, res, ts = parse(c, toks)
    m = Model(c, toks)
    for s in ('name', 'type', 'result', 'errors', 'errtok'):
        SLICES[s](c, ers, res, m)
    for r in ers.get_all_elements():
        c.check(r.get_base_type() != bt('TRUNCATE'), 'the truncation indicator is not part of the route')
