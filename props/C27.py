"""Recovery after an error."""
from fstruct import *

ERRORS = {
    'unknown element': ['SA', 'PNT', 'UNK'],
    'too long element': ['SA', 'PNT', 'LONG'],
    'unknown first element': ['UNK'],
    'point first': ['PNT'],
    'no slash before level': ['SA', 'PNT', 'SA'],
    'no slash before VFR level': ['SA', 'PNT', 'SV'],
    'slash twice': ['SA', 'PNT', '/', '/'],
    'time without STAY': ['SA', 'PNT', 'TIME'],
    'STAY without time': ['SA', 'PNT', 'STAY', 'PNT'],
    'STAY with bad time': ['SA', 'PNT', 'STAY', '/', 'PNT'],
    'stray IFR': ['SA', 'PNT', 'IFR'],
    'stray GAT': ['SA', 'PNT', 'GAT'],
    'stray IFPSTART': ['SA', 'PNT', 'IFPSTART'],
    'route after DCT': ['SA', 'PNT', 'DCT', 'RTE'],
    'DCT after route': ['SA', 'PNT', 'RTE', 'DCT'],
    'route after route': ['SA', 'PNT', 'RTE', 'RTE'],
    'level after route': ['SA', 'PNT', 'RTE', 'SA'],
    'slash after route': ['SA', 'PNT', 'RTE', '/'],
    'VFR after route': ['SA', 'PNT', 'RTE', 'VFR'],
    'route after first level': ['SA', 'RTE'],
    'cruise level without C': ['SA', 'PNT', 'SAA'],
    'C without level': ['SA', 'PNT', 'C', '/', 'PNT', '/', 'PNT'],
    'C point without slash': ['SA', 'PNT', 'C', '/', 'PNT', 'PNT'],
    'C slash without point': ['SA', 'PNT', 'C', '/', 'SAA'],
    'element after T': ['SA', 'PNT', 'T', 'PNT'],
    'element after STAR': ['SA', 'PNT', 'SS', 'PNT'],
    'SID in the middle': ['SA', 'PNT', 'SID'],
    'SID twice': ['SA', 'SID', 'SID'],
    'route after lat/long': ['SA', 'LLD', 'RTE'],
    'rule change not completed': ['SV', 'IFR', 'PNT', '/', 'PNT'],
}
CONTEXTS.update({'error ' + k: v for k, v in ERRORS.items()})
NAMES = ['error ' + k for k in ERRORS]


def harnesses(tier):
    return structural(tier, ['name', 'rules', 'level', 'errors', 'break', 'result'], only=NAMES,
                      deep=NAMES[:10])
