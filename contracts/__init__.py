import glob
import importlib
import os


def load():
    for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), '*.py'))):
        n = os.path.basename(f)[:-3]
        if n != '__init__':
            importlib.import_module('contracts.' + n)
