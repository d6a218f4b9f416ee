"""Makes `import copulae` load /repo's Python files together with freshly compiled extensions."""
import importlib.machinery
import importlib.util
import os
import sys
import warnings

from . import build as _build

_SO = {}


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        so = _SO.get(name)
        if so is None:
            return None
        return importlib.util.spec_from_file_location(name, so,
                                                      loader=importlib.machinery.ExtensionFileLoader(name, so))


def boot(variant=None):
    variant = variant or os.environ.get('VERIF_VARIANT', 'plain')
    sys.dont_write_bytecode = True
    _SO.update(_build.build(variant))
    if not any(isinstance(f, type) and f is _Finder for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder)
    sys.path[:] = [p for p in sys.path if p not in ('', _build.REPO)]
    sys.path.insert(0, _build.REPO)
    vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if vt not in sys.path:
        sys.path.append(vt)  # mpmath, used by the reference implementations only
    warnings.simplefilter('ignore')
    import copulae
    assert os.path.abspath(copulae.__file__) == os.path.join(_build.REPO, 'copulae', '__init__.py'), copulae.__file__
    import copulae.special._specfunc as sf
    assert sf.__file__ == _SO['copulae.special._specfunc'], sf.__file__
    # the package installs filters of its own
    warnings.simplefilter('ignore')
    return copulae
