"""Harness registration (shared by the symbolic runner and the replay server)."""
import importlib
import os
import sys

HARNESSES = {}        # property -> list of H


class H(object):
    def __init__(self, prop, fn, quick, thorough, bounds, assumes):
        self.prop, self.fn, self.name = prop, fn, fn.__name__
        self.quick, self.thorough = quick, thorough
        self.bounds, self.assumes = bounds, assumes

    def configs(self, tier):
        return self.quick if tier == 'quick' else self.thorough


def harness(configs=({},), thorough=None, bounds='', assumes=(), prop=None):
    def wrap(fn):
        p = prop or fn.__module__.rsplit('.', 1)[-1].upper()
        q = list(configs)
        t = list(thorough) if thorough is not None else q
        HARNESSES.setdefault(p, []).append(H(p, fn, q, t, bounds, list(assumes)))
        return fn
    return wrap


def load(prop):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    importlib.import_module('harness.' + prop.lower())
    return HARNESSES[prop]
