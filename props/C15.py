"""Broken sections and their text."""
from fstruct import *
from anytext import sections

BREAKS = ['start', 'first level', 'first VFR level', 'after a point', 'after point slash', 'after DCT',
          'in VFR section', 'in VFR section, text', 'in VFR section by level', 'in OAT section', 'in IFPSTOP section',
          'VFR then IFR', 'VFR then IFR point', 'VFR then IFR point slash', 'OAT then GAT', 'IFPSTOP then IFPSTART',
          'VFR to IFR done', 'VFR to IFR to VFR', 'two sections', 'many sections', 'after STAY time', 'in recovery',
          'in recovery at start', 'recovery slash', 'two errors']


def harnesses(tier):
    return sections(tier) + structural(tier, ['break', 'type', 'rules'], only=BREAKS, deep=BREAKS[:15], alphabet=RICH)
