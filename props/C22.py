"""SID and STAR."""
from fstruct import *

SS = ['start', 'first level', 'first VFR level', 'after a point', 'after two points', 'after a route', 'after DCT',
      'after SID', 'after SID literal', 'after level change', 'after STAY time', 'after C', 'after C slash',
      'VFR to IFR done', 'in recovery', 'in recovery at start', 'recovery then point', 'long route', 'after T',
      'VFR then IFR', 'OAT then GAT', 'after a lat/long']
SIDS = ['PNT', 'LLD', 'RTE', 'SS', 'SID', 'STAR', 'DCT', '/', 'SA', 'T', 'VFR', 'UNK', 'STAY', 'TIME', 'IFR', 'C']
ALPHA = CORE + ['SS5', 'SS6', 'AERO', 'LLD']
KINDS['SS5'] = Kind('@@@@@#', 'SID_STAR', 'STAR')
KINDS['SS6'] = Kind('@@@@@@#@', 'SID_STAR', 'STAR')


def harnesses(tier):
    hs = structural(tier, ['name', 'type', 'result', 'errors'], only=SS, deep=[], alphabet=ALPHA)
    for ctx in SS:
        hs.append(H('procedures after: ' + ctx, structure,
                    'opening "%s" + 3 free elements out of %d kinds' % (ctx, len(SIDS)),
                    ctx=ctx, K=3, alphabet=SIDS, slices=['name', 'type', 'result', 'errors'],
                    least=3, pal=len(hs) % PALETTES))
    return hs
