"""A stand-in for matplotlib (only graph_polyhedron draws; L15 uses the real one)."""

import sys
import types


class Anything:
    def __call__(self, *a, **k):
        return Anything()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()

    def __iter__(self):
        return iter((Anything(), Anything()))


class Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()


def install():
    if "matplotlib" in sys.modules:
        return
    root, pyplot = Module("matplotlib"), Module("matplotlib.pyplot")
    root.__path__ = []
    root.pyplot = pyplot
    sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = root, pyplot


_fast = []


def fast_steps():
    """Makes the rendering of recorded steps cheap (the text of steps is judged by L14 only)."""
    if _fast:
        return
    _fast.append(True)
    try:
        from pytimize.programs import _linear
        if hasattr(_linear, "render_descriptor"):
            _linear.render_descriptor = lambda key, arguments: key
    except ImportError:
        pass
