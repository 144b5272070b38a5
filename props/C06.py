"""Every error names the element it is about."""
from fstruct import *
from anytext import anytext, quoting


def harnesses(tier):
    return anytext(quoting, tier) + structural(tier, ['errown', 'errors', 'errtok'])
