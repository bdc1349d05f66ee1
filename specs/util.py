"""Shared harness vocabulary (interpreted by the abstract machine)."""
from probe import *

CMARK = ('github', 'commonmarker', 'cmark', 'gitlab', 'goldmark')
ALL = CMARK + ('redcarpet',)
V029 = ('github', 'commonmarker')


def run(f, *a, **k):
    try:
        return ('ok', f(*a, **k))
    except Exception as e:
        return ('exc', type(e).__name__)


def same(label, got, want):
    check(got == want, label, got, want)
