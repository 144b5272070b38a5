"""ERS frame, order and identity of its records."""
from fstruct import *
from anytext import anytext, identity


def harnesses(tier):
    return anytext(identity, tier) + structural(tier, ['frame', 'name', 'index', 'type'])
