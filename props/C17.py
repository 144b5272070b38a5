"""The verdict and the diagnostics."""
from fstruct import *


def harnesses(tier):
    return structural(tier, ['result', 'errcount', 'errors'])
