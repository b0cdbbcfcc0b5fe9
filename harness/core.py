"""Core of the property-based checks: violations, sub-checks, and access to the code under test.

A *property* is a list of `Sub` checks.  A `Sub` has a Hypothesis strategy which generates plain
JSON-able cases and a function `check(case)` which runs one case against the real code and raises
`Violation` when the property does not hold.  Nothing in `check` depends on Hypothesis, so that a
saved case can be replayed on its own.
"""
import hashlib
import json
import os
import sys
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property does not hold on this case.  `key` names a specific (possibly known) finding."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Info(dict):
    """What `check` reports about a case: `nt` (non-trivial?) and `labels` (classification)."""

    def __init__(self, nt, *labels):
        super().__init__(nt=bool(nt), labels=[str(x) for x in labels if x])


class Sub:
    """One generated check of a property."""

    def __init__(self, name, strategy, check, quick, rule, thorough=20, cases=None, timeout=120,
                 need_data=False):
        self.name = name
        self.strategy = strategy      # callable returning a Hypothesis strategy (imported lazily)
        self.check = check
        self.quick = quick            # number of generated cases in the quick tier, all workers
        self.thorough = thorough      # factor of cases in the thorough tier
        self.rule = rule
        self.cases = cases            # callable: finite list of cases, enumerated completely
        self.timeout = timeout


def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def setup_path():
    """Make bfit (of the tree under test) and hypothesis importable."""
    root = os.environ.get("VERIF_PKG_ROOT", REPO)
    if root not in sys.path[:1]:
        sys.path.insert(0, root)
    tools = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if tools not in sys.path:
        sys.path.append(tools)   # at the end: numpy and scipy must come from the venv
    return root


def lib_frame(exc, root):
    """Does the traceback of this exception pass through the code under test?"""
    base = os.path.join(root, "bfit") + os.sep
    for fr in traceback.extract_tb(exc.__traceback__):
        if os.path.abspath(fr.filename).startswith(base):
            return f"{os.path.basename(fr.filename)}:{fr.lineno}"
    return None


def fail(msg, key=None):
    raise Violation(msg, key)


def require(cond, msg):
    if not cond:
        raise Violation(msg if isinstance(msg, str) else msg())
