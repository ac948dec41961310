"""Sidecar contracts for the functions of /repo/col_gen_estimator."""
import importlib
import json
import os
from engine.specs import Contracts

ALL = ['tuner', 'bdr', 'dtree', 'colgen', 'dtm', 'dsp', 'tsp', 'ssp', 'gen', 'prep', 'build']


def load(*mods):
    C = Contracts()
    for m in mods:
        importlib.import_module('contracts.' + m).register(C)
    p = os.path.join(os.path.dirname(__file__), 'base.json')
    if os.path.exists(p):
        # order of the locals when the contracts were written: a renamed local keeps its meaning
        for q, b in json.load(open(p)).items():
            if q in C.funcs and C.funcs[q].loc_order is None:
                C.funcs[q].loc_order = b.get('locals')
    return C


def load_all():
    return load(*ALL)
