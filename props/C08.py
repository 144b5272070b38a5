"""Speed and level in force at every record."""
from fstruct import *


def harnesses(tier):
    return structural(tier, ['level', 'si'])
