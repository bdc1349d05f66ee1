"""Command line vocabulary."""
import sys
from specs.docs import *
from md_toc import __main__ as mm


def cli(*argv):
    """run the program: its exit status and what it printed"""
    before = fsread('<stdout>') or ''
    sys.argv = ['md_toc'] + list(argv)
    try:
        mm.main()
        code = None
    except SystemExit as e:
        code = e.code
    except BaseException as e:
        code = type(e).__name__
    out = (fsread('<stdout>') or '')[len(before):]
    if code is None:
        code = 0
    return code, out
