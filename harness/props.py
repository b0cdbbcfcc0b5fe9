"""All properties."""
import importlib
import os

PROPS = {}
for _m in ("p_model", "p_measure", "p_grid", "p_fit", "p_greedy", "p_slater", "p_misc", "p_more", "p_api"):
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), _m + ".py")):
        PROPS.update(importlib.import_module(_m).PROPS)
