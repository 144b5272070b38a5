"""Flight rules of the records and of the whole field."""
from fstruct import *


def harnesses(tier):
    return structural(tier, ['rules'])
