"""Independent reference reading of an equation library and of configs: yaml /
json files, Python's own expression evaluation with lazy name look-up. Nothing
of NRWAL is used here."""
import json
import os
import re

import numpy as np
import pandas as pd
import yaml

EXT = ('.yaml', '.yml', '.json')
ENV = {'np': np, 'pd': pd, '__builtins__': {
    'abs': abs, 'max': max, 'min': min, 'pow': pow, 'round': round,
    'sum': sum}}


class Missing(Exception):
    pass


class Undefined(Exception):
    """The reference itself cannot compute a value (e.g. division by 0)."""


def load(fp):
    with open(fp) as f:
        return json.load(f) if fp.endswith('.json') else yaml.safe_load(f)


def is_num(s):
    try:
        float(str(s))
    except ValueError:
        return False
    return True


def pattern(key):
    i = key.rfind('_')
    if i < 0:
        return None
    base, tail = key[:i], key[i + 1:]
    if tail[-2:].lower() == 'mw' and tail[:-2] and \
            all(c in '0123456789' for c in tail[:-2]):
        return 'P', base, int(tail[:-2])
    if len(tail) == 4 and all(c in '0123456789' for c in tail) and \
            1800 <= int(tail) <= 2200:
        return 'Y', base, int(tail)
    return None


class Names(dict):
    """Lazy namespace for eval()."""

    def __init__(self, fun):
        super().__init__()
        self.fun = fun

    def __missing__(self, name):
        if name in ENV or name in ENV['__builtins__']:
            raise KeyError(name)
        return self.fun(name)

    def __contains__(self, name):
        return True


def python(text, fun):
    try:
        return eval(compile(str(text).strip().replace('^', '**'), '<ref>',
                            'eval'), ENV, Names(fun))
    except (Missing, Undefined):
        raise
    except (ZeroDivisionError, OverflowError, ValueError, TypeError) as e:
        raise Undefined(repr(e))


class Group:
    """Equations of one file or of one nested group."""

    def __init__(self, entries, defaults, where):
        self.e = entries or {}
        self.defaults = defaults
        self.where = where


class Library:
    def __init__(self, root):
        self.root = root
        self.groups = {}        # 'a::b::file' (no extension) -> Group
        self.dirs = set()
        self.variables = {}     # 'a::b' -> variables file of that folder
        self._walk(root, '', {})

    def _walk(self, folder, prefix, inherited):
        names = sorted(os.listdir(folder))
        own = {}
        for n in names:
            if os.path.splitext(n)[0] == 'variables' and n.endswith(EXT):
                own.update(load(os.path.join(folder, n)) or {})
        self.variables[prefix.rstrip(':')] = own
        dfl = dict(inherited, **own)
        for n in names:
            fp = os.path.join(folder, n)
            if n.startswith(('.', '__')):
                continue
            if os.path.isdir(fp):
                self.dirs.add(prefix + n)
                self._walk(fp, prefix + n + '::', dfl)
            elif n.endswith(EXT):
                stem = os.path.splitext(n)[0]
                if stem != 'variables':
                    self.groups[prefix + stem] = Group(load(fp), dfl,
                                                       prefix + stem)

    def equations(self):
        """(path, group path, key) of all equations"""
        def rec(path, g):
            for k, v in g.e.items():
                if isinstance(v, dict):
                    yield from rec(path + '::' + str(k),
                                   Group(v, g.defaults, path))
                else:
                    yield path + '::' + str(k), path, str(k)
        for p, g in self.groups.items():
            yield from rec(p, g)

    def group(self, path):
        """Group at a path, or None"""
        parts = path.split('::')
        for i in range(len(parts), 0, -1):
            p = '::'.join(parts[:i])
            for cand in (p, os.path.splitext(p)[0]
                         if p.endswith(EXT) else p):
                if cand in self.groups:
                    g = self.groups[cand]
                    e = g.e
                    for q in parts[i:]:
                        if not isinstance(e, dict) or q not in e \
                                or not isinstance(e[q], dict):
                            return None
                        e = e[q]
                    return Group(e, g.defaults, path)
        return None

    def exists(self, path):
        return path in self.dirs or self.group(path) is not None

    def needs(self, g, key, seen=()):
        """free names of an equation, references inside the group resolved"""
        names = set()

        def collect(text):
            code = compile(str(text).strip().replace('^', '**'), '<ref>',
                           'eval')
            for n in code.co_names:
                if n in ENV or n in ENV['__builtins__'] or \
                        re.search(r'\.\s*' + n + r'\b', str(text)):
                    continue
                if re.search(r'[(,]\s*' + n + r'\s*=[^=]', str(text)):
                    continue
                if n in g.e and not isinstance(g.e[n], dict) and n != key:
                    if n in seen:
                        raise Undefined('circle')
                    names.update(self.needs(g, n, seen + (n,)))
                else:
                    names.add(n)
        v = g.e[key]
        if not isinstance(v, (int, float)):
            collect(v)
        return names

    def value(self, g, key, env, flags=(False,) * 4):
        """Value of entry `key` of a group. env: function name -> value
        (raises Missing)."""
        if key in g.e:
            return self._eval(g, key, env)
        p = pattern(key)
        if p is None:
            raise Missing(g.where + '::' + key)
        ip, npw, iy, ny = flags
        interp, near = (ip, npw) if p[0] == 'P' else (iy, ny)
        pts = []
        for k in g.e:
            q = pattern(str(k))
            if q and q[:2] == p[:2] and not isinstance(g.e[k], dict):
                pts.append((abs(q[2] - p[2]), q[2], k))
        if not (interp or near) or not pts:
            raise Missing(g.where + '::' + key)
        pts.sort()
        if not interp or len(pts) == 1:
            return self._eval(g, pts[0][2], env)
        (_, x0, k0), (_, x1, k1) = pts[:2]
        y0, y1 = self._eval(g, k0, env), self._eval(g, k1, env)
        return y0 + (y1 - y0) * (p[2] - x0) / (x1 - x0)

    def _eval(self, g, key, env):
        v = g.e[key]
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return float(v)

        def look(n):
            if n in g.e and not isinstance(g.e[n], dict) and n != key:
                return self._eval(g, n, env)
            try:
                return env(n)
            except Missing:
                if n in g.defaults:
                    return g.defaults[n]
                raise
        return python(v, look)


SWITCHES = ('interp_extrap_power', 'use_nearest_power', 'interp_extrap_year',
            'use_nearest_year')
PATH = re.compile(r'(?<![\w.])[A-Za-z_][\w./]*(?:::[\w.]+)+')


class Config:
    """Reference config: evaluates entries lazily."""

    def __init__(self, fp, library):
        self.fp = fp
        self.lib = library
        raw = load(fp)
        raw.pop('equation_directory', None)
        self.flags = tuple(bool(raw.pop(s, False)) for s in SWITCHES)
        self.raw = {k: self._pointer(fp, v) for k, v in raw.items()}

    def _pointer(self, fp, v):
        for _ in range(20):
            if not (isinstance(v, str) and any(e in v for e in EXT)):
                return v
            path, _, key = v.strip().partition('::')
            fp = os.path.join(os.path.dirname(fp), path)
            v = load(fp)[key]
        raise Undefined('pointers')

    def group_path(self, text):
        """library path if the entry or path is a group / folder"""
        text = str(text).strip()
        first, _, rest = text.partition('::')
        if first in self.raw:
            p = self.group_path(self.raw[first])
            if p is None:
                return None
            return p + ('::' + rest if rest else '') \
                if self.lib.exists(p + ('::' + rest if rest else '')) else \
                None
        return text if self.lib.exists(text) else None

    def evaluate(self, inputs):
        """-> ({entry: value}, {names read from the inputs})"""
        memo, used = {}, set()
        busy = []

        def inp(n):
            if n in inputs:
                used.add(n)
                return inputs[n]
            raise Missing(n)

        def entry(n):
            if n not in memo:
                if n in busy:
                    raise Undefined('circle')
                busy.append(n)
                memo[n] = expr(self.raw[n])
                busy.pop()
            return memo[n]

        def name(n):
            """a name in a config expression or in a library equation"""
            if n in self.raw:
                if is_num(self.raw[n]) and n in inputs:
                    return inp(n)
                return entry(n)
            return inp(n)

        def path(p):
            first, _, rest = p.partition('::')
            if first in self.raw:
                p = self.group_path(first) + '::' + rest
            if p.count('::') and p.rsplit('::', 1)[0].endswith('variables'):
                d, v = p.rsplit('::', 1)
                return self.lib.variables[d.rsplit('::', 1)[0]
                                          if '::' in d else ''][v]
            gp, key = p.rsplit('::', 1)
            g = self.lib.group(gp)
            if g is None:
                raise Missing(p)
            return self.lib.value(g, key, name, self.flags)

        def expr(text):
            if is_num(text):
                return float(text)
            table = {}

            def sub(m):
                k = 'PATH_{}_'.format(len(table))
                table[k] = m.group(0)
                return k
            text = PATH.sub(sub, str(text))
            return python(text, lambda n: path(table[n]) if n in table
                          else name(n))
        out = {}
        for n in self.raw:
            if self.group_path(self.raw[n]) is None:
                out[n] = entry(n)
        return out, used
