"""C37: objects that are known not to be readable."""
from vp.core import Check
from vp import quirks as Q
from vp.checks.c35 import COMMON, MADE, suites

CHECK = Check(
    property="C37",
    rule=(MADE.format(len(Q.UNSUPPORTED))
          + "with objects that are known not to be readable beside others; "
          "those must be listed (or, for TIFF tags and internal objects, "
          "not), without any data, and all others must have the values "
          "written; non-trivial = more than one row"),
    suites=suites(Q.UNSUPPORTED, 80, 1000),
    assumptions=COMMON,
)
