"""pbmc: bounded exhaustive exploration of what pybindgen generates.

A check is a list of scenarios.  A scenario describes a C++ header, how to wrap
it with pybindgen (imported from the tree under test), and an `explore`
function that enumerates a bounded space of calls, operation sequences or
schedules against the compiled extension and compares each step with a
reference model.
"""
from .scenario import Scenario, REPO, VERIF  # noqa: F401
from .explore import Violation, explore_model, product_cases  # noqa: F401
