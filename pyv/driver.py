"""Builds the verifier over /repo's working tree and discharges the contracts of a property."""
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import time
import traceback
import z3
from .terms import *
from . import terms as T
from . import engine, builtins, loops, solver, spec
from .engine import *

sys.setrecursionlimit(20000)
ROOT = os.environ.get('RELNET_ROOT') or '/repo/Python/research'
SPECS = ['graph', 'components', 'builder', 'sets', 'space', 'relation']


def load_specs():
    for m in SPECS:
        if os.path.exists(os.path.join(os.path.dirname(__file__), '..', 'specs', m + '.py')):
            importlib.import_module('specs.' + m)


DATA = {'ValueNode': (NODE, ['variable', 'value']),
        'RelationEdge': (EDGE, ['endpoints', 'relation']),
        'SampleGraph': (SG, ['nodes', 'edges', 'components_provider']),
        'SampleSet': (SS, ['components_provider', 'samples'])}


def make_engine(root=ROOT):
    p = Program(root)
    en = Engine(p, spec.BY_QUAL, DATA, {})
    en.builtins = builtins
    en.loops = loops
    if not solver.AXIOMS:
        solver.AXIOMS.extend(engine.card2_axioms() + builtins.axioms())
    return en


def contracts_of(prop):
    return [c for c in spec.REG.values() if prop in c.props]
