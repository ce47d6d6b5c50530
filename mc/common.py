"""Shared helpers: values, comparison, expression trees, library writing."""
import cmath
import itertools
import json
import math
import os

import numpy as np
import pandas as pd
import yaml

from NRWAL import (Equation, EquationDirectory, EquationGroup, NrwalConfig)
from NRWAL.handlers.groups import VariableGroup
from mc.core import fail

RTOL = 1e-9


def is_number(x):
    return isinstance(x, (int, float, complex, np.number)) \
        and not isinstance(x, (bool, np.bool_))


def close(a, b, rtol=RTOL):
    """Scalar or array closeness (inf / nan equal to themselves)."""
    try:
        a = np.asarray(a)
        b = np.asarray(b)
        if a.dtype == object or b.dtype == object:
            return False
        if a.shape != b.shape:
            return False
        if a.dtype.kind == 'b' or b.dtype.kind == 'b':
            return a.dtype.kind == b.dtype.kind and bool((a == b).all())
        return bool(np.all(np.isclose(a, b, rtol=rtol, atol=1e-300,
                                      equal_nan=True)))
    except (TypeError, ValueError):
        return False


def scalar_close(a, b, rtol=RTOL):
    """Like close, but 0-d arrays, numpy scalars and bools count as
    scalars."""
    try:
        a = complex(a)
        b = complex(b)
    except (TypeError, ValueError):
        return False
    for x, y in ((a.real, b.real), (a.imag, b.imag)):
        if math.isnan(x) or math.isnan(y):
            if not (math.isnan(x) and math.isnan(y)):
                return False
        elif math.isinf(x) or math.isinf(y):
            if x != y:
                return False
    if cmath.isfinite(a) and cmath.isfinite(b):
        return abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-300
    return True


def write_tree(root, tree):
    """tree: {name: str/bytes content | dict (sub folder) | ('yaml', obj) |
    ('json', obj)}"""
    for name, val in tree.items():
        path = os.path.join(root, name)
        if isinstance(val, (list, tuple)):
            kind, obj = val
            with open(path, 'w') as f:
                if kind == 'json':
                    json.dump(obj, f)
                else:
                    yaml.safe_dump(obj, f, sort_keys=False)
        elif isinstance(val, dict):
            os.makedirs(path, exist_ok=True)
            write_tree(path, val)
        else:
            with open(path, 'w') as f:
                f.write(val)


def config_value(cfg, outputs, name):
    """Value of a config entry after evaluation: the output, or for constant
    entries (which outputs may leave out) the constant."""
    if name in outputs:
        return outputs[name]
    if name in cfg.global_variables:
        return cfg.global_variables[name]
    v = cfg[name]
    if isinstance(v, Equation):
        return v.eval()
    return v


PY = {'^': '**'}


def py(text):
    return text.replace('^', '**')


PREC = {'+': 1, '-': 1, '*': 2, '/': 2, '**': 4}


def shapes(n):
    """All binary tree shapes with n leaves; leaves numbered left to right,
    inner nodes numbered in infix order."""
    def rec(lo, hi):
        if hi - lo == 1:
            yield lo
            return
        for k in range(lo + 1, hi):
            for left in rec(lo, k):
                for right in rec(k, hi):
                    yield (k - 1, left, right)
    return list(rec(0, n))


def render(tree, leaves, ops, style='min', sp=' ', neg=()):
    """Text of a tree. leaves: list of texts; ops: operator per inner node
    (infix order). style: 'min' minimal parentheses, 'full' every inner node
    but the root, 'red' every inner node including the root, 'dbl' every
    inner node twice. neg: inner node ids that are negated: -( ... )."""
    def rec(t, parent, side):
        if isinstance(t, int):
            return leaves[t]
        i, left, right = t
        op = ops[i]
        p = PREC[op]
        s = '{}{}{}{}{}'.format(rec(left, op, 'l'), sp, op, sp,
                                rec(right, op, 'r'))
        if i in neg:
            s = '-({})'.format(s)
            if parent is not None:
                s = '({})'.format(s)
            return s
        if style == 'red' or (style in ('full', 'dbl')
                              and parent is not None):
            s = '({})'.format(s)
            if style == 'dbl':
                s = '({})'.format(s)
            return s
        if parent is None:
            return s
        q = PREC[parent]
        need = p < q or (p == q and ((side == 'r' and parent != '**')
                                     or (side == 'l' and parent == '**')))
        return '({})'.format(s) if need else s
    return rec(tree, None, None)


OPS = ('+', '-', '*', '/', '**')
