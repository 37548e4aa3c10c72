"""Makes `import treecorr` use /repo/treecorr's Python files with an extension built elsewhere."""
import importlib.abc, importlib.machinery, importlib.util, os, sys

REPO = '/repo'


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name == 'treecorr._treecorr':
            loader = importlib.machinery.ExtensionFileLoader(name, self.path)
            return importlib.util.spec_from_file_location(name, self.path, loader=loader)
        return None


def install(build_dir):
    from .build import EXT
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder(os.path.join(build_dir, EXT)))
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != REPO]
    sys.path.insert(0, REPO)
    import treecorr
    assert os.path.realpath(treecorr.__file__) == os.path.realpath(REPO + '/treecorr/__init__.py')
    assert treecorr._treecorr.__file__.startswith(build_dir)
    return treecorr
