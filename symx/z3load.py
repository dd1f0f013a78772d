"""Make the z3 package importable from the interpreter the repository uses."""
import importlib.util
import sys
import glob


def load():
    if 'z3' in sys.modules:
        return sys.modules['z3']
    try:
        import z3
        return z3
    except ImportError:
        pass
    for init in sorted(glob.glob('/opt/veriftools/pyvenv/lib/python3*/site-packages/z3/__init__.py')):
        spec = importlib.util.spec_from_file_location(
            'z3', init, submodule_search_locations=[init.rsplit('/', 1)[0]])
        mod = importlib.util.module_from_spec(spec)
        sys.modules['z3'] = mod
        spec.loader.exec_module(mod)
        return mod
    raise ImportError('z3 is not available')


z3 = load()
