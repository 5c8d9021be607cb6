"""Environment of every check: import the code under test from /repo."""
import os
import sys

REPO = os.environ.get('VP_REPO', '/repo')
HYPO = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class SetupError(Exception):
    """The harness could not start; never a verdict about the property."""


def setup():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    if HYPO not in sys.path:
        sys.path.append(HYPO)
    import jsonclasses
    where = os.path.realpath(os.path.dirname(jsonclasses.__file__))
    want = os.path.realpath(os.path.join(REPO, 'jsonclasses'))
    if where != want:
        raise SetupError(f'jsonclasses imported from {where}, not {want}')
