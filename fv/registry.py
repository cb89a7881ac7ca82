import os

from . import builtin, common, derive, headers, hygiene, lints, macro, msrv, reject


def setup():
    common.driver()
    for t in common.TIERS:
        try:
            common.analyse(t)
        except common.Broken as e:
            print(e)


CHECKS = {}
CHECKS.update(builtin.CHECKS)
CHECKS.update(headers.CHECKS)
CHECKS.update(derive.CHECKS)
CHECKS.update(reject.CHECKS)
CHECKS.update(hygiene.CHECKS)
CHECKS.update(lints.CHECKS)
CHECKS.update(macro.CHECKS)
CHECKS.update(msrv.CHECKS)

# what these say of the macro is looked at in both kinds of build
BOTH = [*derive.CHECKS, *reject.CHECKS, *hygiene.CHECKS, *lints.CHECKS, *macro.CHECKS, *msrv.CHECKS]


def run(p):
    rc = CHECKS[p]()
    if rc == 0 and p in BOTH and common.conditional() and not os.environ.get("FV_ONCE"):
        common.off = True
        try:
            rc = CHECKS[p]()
        finally:
            common.off = False
    return rc
