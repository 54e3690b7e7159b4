"""Makes worker processes of the code under test load the extension which belongs to the tree under test."""
import importlib.machinery
import importlib.util
import os
import sys

so = os.environ.get('VERIF_CORE_SO')
if so:
    class Finder:
        @staticmethod
        def find_spec(name, path=None, target=None):
            if name == 'tnco_core':
                loader = importlib.machinery.ExtensionFileLoader(name, so)
                return importlib.util.spec_from_file_location(name, so, loader=loader)
            return None

    sys.meta_path.insert(0, Finder)
    sys.path.insert(0, os.environ['VERIF_REPO_PATH'])
    sys.dont_write_bytecode = True
