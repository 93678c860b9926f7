#!/usr/bin/env python3-vt
"""Entry point: check.py <property id> [--tier quick|thorough]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.core import main

RULES = {
    'N01': 'cmem',
    'N02': 'cerr',
    'N03': 'percell',
    'T01': 'termif',
    'T02': 'roles',
    'T03': 'inputs',
    'A01': 'inputs',
    'P01': 'pynames',
    'P02': 'pynames',
    'C01': 'memo',
    'C02': 'stale', 'T05': 'history', 'P03': 'swaps', 'F01': 'storage',
    'N04': 'lifetime',
    'T04': 'einsum', 'T06': 'kernels',
    'M01': 'closed', 'S01': 'stepping', 'T07': 'dgflux', 'H01': 'hyper',
    'G01': 'refelem', 'P04': 'attrs', 'L01': 'sparse',
}


class Registry(dict):
    def __missing__(self, key):
        raise KeyError(key)


class Lazy:
    def __contains__(self, key):
        return key in RULES

    def __getitem__(self, key):
        return importlib.import_module('sa.rules.' + RULES[key])


if __name__ == '__main__':
    sys.exit(main(Lazy(), sys.argv))
