"""Loads the demo programs of the repository (whose plotting is replaced: nothing here looks at figures)."""
import importlib.util, os, sys, types
from unittest import mock


class Plots(types.ModuleType):
    mplDeprecation = DeprecationWarning

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return mock.MagicMock()


def load(name):
    for m in ('matplotlib', 'matplotlib.pyplot', 'matplotlib.cbook'):
        sys.modules[m] = Plots(m)
    sys.modules['matplotlib'].pyplot = sys.modules['matplotlib.pyplot']
    sys.modules['matplotlib'].cbook = sys.modules['matplotlib.cbook']
    import spectralDNS
    root = os.path.dirname(os.path.dirname(os.path.abspath(spectralDNS.__file__)))
    spec = importlib.util.spec_from_file_location('demo_' + name, os.path.join(root, 'demo', name + '.py'))
    mod = importlib.util.module_from_spec(spec)
    import warnings
    with warnings.catch_warnings():
        spec.loader.exec_module(mod)
    return mod
