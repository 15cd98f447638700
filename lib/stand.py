"""Replace an object under every name by which the modules of the code know it."""

import inspect
import sys


def modules():
    for name, module in list(sys.modules.items()):
        if module is not None and (name.split('.')[0] in ('eustace', 'eumopps') or name in ('iris', 'numpy', 'scipy.optimize')):
            yield module


def swap(old, new, same=lambda a, b: a is b):
    """Puts new where modules have old; returns what undoes it."""
    changed = []
    for module in modules():
        for key, value in list(vars(module).items()):
            if type(value) is type(old) and same(value, old):
                changed.append((module, key, value))
                setattr(module, key, new)

    def undo():
        for module, key, value in changed:
            setattr(module, key, value)
    return undo


def swap_shape(small):
    """Makes the global fields of the given shape (rows, columns)."""
    def equal(a, b):
        return a == b
    parts = [swap(kind(old), kind(new), equal) for kind in (tuple, list) for old, new in (((1, 720, 1440), (1,) + tuple(small)), ((720, 1440), tuple(small)))]

    def undo():
        for part in reversed(parts):
            part()
    return undo


class StandIn(object):
    """Takes the place of a function and hands its arguments, in order, to what it is set to."""

    def __init__(self, function):
        signature = inspect.signature(function)
        self.target = function

        def forward(*arguments, **named):
            return self.target(*signature.bind(*arguments, **named).arguments.values())
        swap(function, forward)

    def to(self, target):
        self.target = target
