"""Runtime cross-checks: for each property a generator of cases and a function
running one case on the real code against an independent numpy oracle."""
from orc_prob import CASES as C1, RUN as R1
from orc_mps import CASES as C2, RUN as R2
from orc_misc import CASES as C3, RUN as R3

CASES, RUN = {}, {}
for c in (C1, C2, C3):
    CASES.update(c)
for r in (R1, R2, R3):
    RUN.update(r)
