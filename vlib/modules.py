"""Modules made from source text, so that annotations can be given by name."""
import collections
import itertools
import sys
import types

_COUNT = itertools.count()
_DEFINED = collections.deque()
KEEP = 40


def define(source, name=None, **namespace):
    """Execute the source as the body of a new module, which can be imported by name."""
    name = name or f'vt_module_{next(_COUNT)}'
    module = types.ModuleType(name)
    vars(module).update(namespace)
    sys.modules[name] = module
    _DEFINED.append(name)
    while len(_DEFINED) > KEEP:
        sys.modules.pop(_DEFINED.popleft(), None)
    exec(compile(source, f'<{name}>', 'exec', dont_inherit=True), vars(module))
    return module


def forget():
    while _DEFINED:
        sys.modules.pop(_DEFINED.popleft(), None)
