"""The checks: what each property's run explores."""
import random

CHECKS = {}


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


def mc(c, **kw):
    return kw, "model_checking"


XL = (32, 64)


def rng(c):
    return random.Random("%s-%d" % (c.prop, c.seed))


from . import checks_isa, checks_priv, checks_dev, checks_sys, checks_host, checks_boot, checks_log, checks_elf, checks_cmd  # noqa: E402,F401
