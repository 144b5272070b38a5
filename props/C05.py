"""No route element is lost or invented."""
from fstruct import *


def harnesses(tier):
    return structural(tier, ['count', 'kept'])
