"""stand-in for fpyutils/__init__.py (interpreted): only the submodules md_toc uses"""
from . import exceptions, filelines
