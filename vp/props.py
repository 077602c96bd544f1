"""All properties: their cases (harness + bounds) and evidence texts."""
import importlib
import os
import pkgutil
import sys

PROPS = {}
_d = os.path.dirname(os.path.abspath(__file__))
for _m in sorted(os.listdir(_d)):
    if _m.startswith('p_') and _m.endswith('.py'):
        PROPS.update(importlib.import_module(_m[:-3]).PROPS)
