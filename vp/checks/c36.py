"""C36: objects of data sets that store them in other ways than labelled."""
from vp.core import Check
from vp import quirks as Q
from vp.checks.c35 import COMMON, MADE, suites

CHECK = Check(
    property="C36",
    rule=(MADE.format(len(Q.WHAT))
          + "of another type, byte order, structure or syntax than labelled, "
          "or not described at all; each object must have the values (and "
          "names of columns) written; non-trivial = more than one row"),
    suites=suites(Q.WHAT, 50, 800),
    assumptions=COMMON,
)
