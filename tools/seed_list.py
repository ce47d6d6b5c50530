# list of planted bugs, read by seeds.py
seed('s01-div-before-mul', 'C01',
     [(CFG, """        op_map['*'] = operator.mul
        op_map['/'] = operator.truediv
        op_map['^'] = operator.pow

        out = None
""", """        op_map['/'] = operator.truediv
        op_map['*'] = operator.mul
        op_map['^'] = operator.pow

        out = None
""")],
     'a config expression with a division followed by a multiplication',
     'a / b * c is evaluated as a / (b * c)', """
cfg = NrwalConfig({'equation_directory': lib({'g.json': {'e': 'x + 1'}}),
                   'y': 'a / b * c', 'z': 'a * b / c'})
out = cfg.eval({'a': 7.0, 'b': 3.0, 'c': 5.0})
same(out['z'], 7 * 3 / 5)
same(out['y'], 7 / 3 * 5)
""")

seed('s02-const-precision', 'C01',
     [(CFG, "            out = Equation(out, name=expr_part)\n",
       "            out = Equation('{:.6g}'.format(out), name=expr_part)\n")],
     'a config constant with more than six significant digits inside '
     'arithmetic', 'constants lose digits in config arithmetic', """
cfg = NrwalConfig({'equation_directory': lib({'g.json': {'e': 'x + 1'}}),
                   'k': 221197699.89, 'y': 'k - 221197000'})
same(cfg.eval({})['y'] if 'y' in cfg.eval({}) else cfg.global_variables['y'],
     221197699.89 - 221197000)
""")

seed('s03-key-div-before-mul', 'C02',
     [(GRP, """        op_map['*'] = operator.mul
        op_map['/'] = operator.truediv
        op_map['^'] = operator.pow
        key = key""", """        op_map['/'] = operator.truediv
        op_map['*'] = operator.mul
        op_map['^'] = operator.pow
        key = key""")],
     'a retrieval key with a division before a multiplication',
     'e1 / e2 * e3 becomes e1 / (e2 * e3)', """
g = EquationGroup({'e1': 'x + 1', 'e2': 'x + 2', 'e3': 'x + 3'})
same(g['e1 * e2 / e3'].eval(x=4.), 5 * 6 / 7)
same(g['e1 / e2 * e3'].eval(x=4.), 5 / 6 * 7)
""")

seed('s07-zero-input-ignored', 'C04',
     [(EQN, "        out.update(kwargs)\n        return out\n",
       "        out.update({k: v for k, v in kwargs.items()\n"
       "                    if k not in out or np.any(v)})\n"
       "        return out\n")],
     'a run-time value of zero for a variable that has a default',
     'the default is used instead of the zero that was passed', """
e = Equation('x * 2 + y', default_variables={'x': 3.0})
same(e.eval(x=1.0, y=1.0), 3.0)
same(e.eval(x=0.0, y=1.0), 1.0)
same(e.eval(x=np.zeros(2), y=1.0), np.ones(2))
""")

seed('s08-variables-order', 'C04',
     [(EQN, "        variables = sorted(list(set(variables)))\n",
       "        variables = sorted(set(variables), key=str.lower)\n")],
     'variable names that differ in letter case',
     'the list of variables is not in sorted order', """
e = Equation('Zeta * alpha + beta * Alpha')
assert e.variables == ['Alpha', 'Zeta', 'alpha', 'beta'], e.variables
""")

seed('s10-forbidden-at-word-start', 'C05',
     [(EQN, "            if substr in str(self._eqn):\n",
       "            if re.search(r'(^|[\\s(])' + re.escape(substr),\n"
       "                         str(self._eqn)):\n")],
     'a forbidden fragment directly after an operator, comma or name',
     'fragments inside of words or behind operators are no longer refused', """
for bad in ('os.getpid()', '1 + os.getpid()', 'np.min([1,os.getpid()])',
            '1+os.getpid()', 'x.__class__'):
    try:
        Equation(bad)
    except ValueError:
        continue
    raise AssertionError(bad)
""")

seed('s11-replace-skips-check', 'C05',
     [(EQN, """        return self.__class__(
            new_eqn, name=self._base_name,
            default_variables=self.default_variables
        )
""", """        out = copy.deepcopy(self)
        out._eqn = str(new_eqn)
        out._str = None
        out.verify_no_self_reference()

        return out
""")],
     'the formula of an existing equation is replaced by one with a forbidden '
     'fragment', 'replacement formulas are not checked', """
e = Equation('x + 1', name='e', default_variables={'x': 2.})
same(e.replace_equation('x + 5').eval(), 7.)
try:
    e.replace_equation('os.getpid() + x')
except ValueError:
    pass
else:
    raise AssertionError('accepted')
""")

seed('s13-single-pass', 'C06',
     [(GRP, """        working = True
        while working:
            working = False
            for group_key, eqn in group.items():
""", """        working = True
        n_pass = 0
        while working and n_pass < 3:
            working = False
            n_pass += 1
            for group_key, eqn in group.items():
""")],
     'a chain of references of more than eight steps in reverse order',
     'long chains of references are left with unresolved names', """
n = 14
grp = {'e0': 'x'}
grp.update({'e%d' % i: 'e%d + 1' % (i - 1) for i in range(1, n)})
for names in (list(grp), list(grp)[::-1], sorted(grp, key=lambda s: s[::-1]),
              ['e%d' % i for i in (7, 3, 11, 1, 13, 5, 9, 0, 2, 12, 4, 10, 6,
                                   8)]):
    g = EquationGroup({k: grp[k] for k in names})
    for i in range(n):
        assert g['e%d' % i].variables == ['x'], (names, g['e%d' % i].full)
        same(g['e%d' % i].eval(x=1.), 1. + i)
""")

seed('s14-dotted-file-name', 'C07',
     [(DIR, """                else os.path.splitext(str(k))[0]
                for k in keys]
""", """                else str(k).partition('.')[0]
                for k in keys]
""")],
     'a file name that contains a dot, addressed with its extension',
     'the path with extension of a file like "v1.2.yaml" is not found', """
d = EquationDirectory(lib({'v1.2.json': {'e': 'x + 1'}, 'h.json':
                           {'e': 'x + 2'}}))
same(d['v1.2::e'].eval(x=1.), 2.)
same(d['h.json::e'].eval(x=1.), 3.)
same(d['v1.2.json::e'].eval(x=1.), 2.)
""")

seed('s15-unique-equations', 'C07',
     [(GRP, """            if isinstance(v, Equation):
                eqns.append(v)
            elif not isinstance(v, (int, float, str)):
                eqns += cls._r_all_equations(v)
""", """            if isinstance(v, Equation):
                eqns.append(v)
            elif not isinstance(v, (int, float, str)):
                seen = [str(e) for e in eqns]
                eqns += [e for e in cls._r_all_equations(v)
                         if str(e) not in seen]
""")],
     'equations of the same name and variables in different files',
     'the listing of all equations leaves out equations', """
d = EquationDirectory(lib({'a.json': {'e': 'x + 1', 'f': 'x'},
                           'b.json': {'e': 'x + 2'}}))
assert sorted(e.full for e in d.all_equations) == ['x', 'x + 1', 'x + 2']
""")

seed('s16-empty-folder', 'C07',
     [(DIR, "                if any(obj.keys()):\n",
       "                if any(obj.all_equations):\n")],
     'a folder that only has a variables file',
     'folders without an equation are dropped although they hold variables', """
d = EquationDirectory(lib({'a.json': {'e': 'x + 1'},
                           'sub': {'variables.json': {'x': 2}}}))
assert 'sub' in d
same(d['sub::variables::x'], 2.0)
""")

seed('s17-zero-defaults', 'C08',
     [(DIR, "            var_group.update(self['variables'].var_dict)\n",
       "            var_group.update({k: v for k, v in\n"
       "                              self['variables'].items()\n"
       "                              if v or k not in var_group})\n")],
     'a lower variables file that sets a variable of a higher one to zero',
     'zero in a nearer variables file does not override', """
d = EquationDirectory(lib({
    'variables.json': {'x': 2, 'y': 3}, 'a.json': {'e': 'x + y'},
    'sub': {'variables.json': {'x': 0}, 'b.json': {'e': 'x + y'}}}))
same(d['a::e'].eval(), 5.)
same(d['sub::b::e'].eval(), 3.)
""")

seed('s18-group-defaults-once', 'C08',
     [(GRP, """            self._default_variables.update(copy.deepcopy(var_dict))
            for v in self.values():
""", """            if var_dict == self._default_variables:
                return
            self._default_variables.update(copy.deepcopy(var_dict))
            for v in self.values():
""")],
     'defaults set to a group, changed for one of its sub groups and set '
     'again', 'setting the same defaults again does nothing', """
g = EquationGroup({'e': 'x', 's': {'f': 'x'}})
g.set_default_variables({'x': 1.0})
g['s'].set_default_variables({'x': 2.0})
same(g['s::f'].eval(), 2.)
g.set_default_variables({'x': 1.0})
same(g['s::f'].eval(), 1.)
""")

seed('s19-year-base-prefix', 'C09',
     [(GRP, "                if match_yr and base_str == match_base:\n",
       "                if match_yr and match_base.startswith(base_str):\n")],
     'year equations whose base name starts with the requested base name',
     'equations of another base name take part in the year lookup', """
g = EquationGroup({'cost_2015': 'x', 'cost_2025': '2 * x',
                   'cost_om_2020': '9 * x'}, interp_extrap_year=True)
same(g['cost_2019'].eval(x=1.), 1.4)
""")

seed('s24-prefix-needs-parsed-group', 'C11',
     [(CFG, "        elif '::' in expression and expression.split('::')[0] in "
       "config:\n",
       "        elif '::' in expression and isinstance(\n"
       "                config.get(expression.split('::')[0]),\n"
       "                (EquationGroup, VariableGroup, EquationDirectory)):\n")],
     'a path prefix that names an entry defined later in the config',
     'an entry used as a path prefix must come first in the config', """
root = lib({'g.json': {'e': 'x + 1'}, 'h.json': {'e': 'x'}})
ent = {'equation_directory': root, 'grp': 'g', 'y': 'grp::e'}
same(NrwalConfig(ent).eval({'x': 1.})['y'], 2.)
ent = {'equation_directory': root, 'y': 'grp::e', 'grp': 'g'}
same(NrwalConfig(ent).eval({'x': 1.})['y'], 2.)
""")

seed('s27-required-ignores-library', 'C13',
     [(CFG, "                          and v not in eqn.default_variables]\n",
       "                          and v not in eqn.default_variables\n"
       "                          and v not in self._eqn_dir."
       "default_variables]\n")],
     'a variable with a default at the top of the library only used in a '
     'config expression', 'an input that is needed is not reported', """
root = lib({'variables.json': {'rate': 2.0}, 'g.json': {'e': 'x + rate'}})
cfg = NrwalConfig({'equation_directory': root, 'y': 'g::e',
                   'z': 'np.sqrt(rate) * x'})
assert cfg.required_inputs == ['rate', 'x'], cfg.required_inputs
""")

seed('s28-solvable-empty-input', 'C13',
     [(CFG, "                 and x not in self.inputs]\n",
       "                 and not np.any(self.inputs.get(x, False))]\n")],
     'an input supplied with the value zero',
     'a supplied zero is reported as a missing input', """
root = lib({'g.json': {'e': 'x + y'}})
cfg = NrwalConfig({'equation_directory': root, 'a': 'g::e'})
cfg.inputs = {'x': 1.0, 'y': 0.0}
assert cfg.missing_inputs == [] and cfg.solvable
same(cfg.eval()['a'], 1.0)
""")

seed('s29-circle-outside-start', 'C14',
     [(CFG, """        for var in all_vars:
            if var in config:
                cls._check_circ_ref(orig_name, config[var], config,
                                    current_name=var, msg=msg)
""", """        for var in all_vars:
            if var in config and msg.count(' -> ') < 5:
                cls._check_circ_ref(orig_name, config[var], config,
                                    current_name=var, msg=msg)
""")],
     'a circle of more than six entries that refer to each other inside '
     'numpy calls', 'long circles are not refused at load', """
root = lib({'g.json': {'e': 'x + y'}})
for n in (1, 2, 5, 9, 15):
    c = {'e%d' % i: 'np.sqrt(e%d)' % ((i + 1) % n) for i in range(n)}
    try:
        NrwalConfig(dict(c, equation_directory=root))
    except RuntimeError:
        continue
    raise AssertionError(n)
""")

seed('s31-input-array-inplace', 'C15',
     [(CFG, "                        v = v.astype(np.float32)\n",
       "                        v = v.astype(np.float32, copy=False)\n")],
     'a single precision array changed by the caller after it was set as '
     'input', 'the config keeps a reference to the array of the caller', """
root = lib({'g.json': {'e': 'x + 1'}})
cfg = NrwalConfig({'equation_directory': root, 'a': 'g::e'})
x = np.ones(3, dtype=np.float32)
cfg.inputs = {'x': x}
x[0] = 100
same(cfg.eval()['a'], 2 * np.ones(3))
""")

seed('s32-directory-merge-shallow', 'C16',
     [(DIR, "        out = copy.deepcopy(self)\n",
       "        out = copy.copy(self)\n"
       "        out._eqns = dict(self._eqns)\n"
       "        out._default_variables = dict(self._default_variables)\n")],
     'two directories with different default variables are added',
     'the left directory takes over default values of the right one', """
a = EquationDirectory(lib({'variables.json': {'x': 1}, 'a.json':
                           {'e': 'x + y'}}))
b = EquationDirectory(lib({'variables.json': {'x': 2, 'y': 3}, 'b.json':
                           {'e': 'x - y'}}))
c = a + b
same(c['a::e'].eval(), 5.)
same(a['a::e'].eval(y=0.), 1.)
""")

seed('s33-group-merge-defaults', 'C16',
     [(GRP, "        out.set_default_variables(other._default_variables)\n",
       "        out._default_variables.update(other._default_variables)\n")],
     'two groups with different default variables are added',
     'the defaults of the right group do not reach the entries of the left',
     """
a = EquationGroup({'e': 'x + y'})
a.set_default_variables({'x': 1., 'y': 1.})
b = EquationGroup({'f': 'x'})
b.set_default_variables({'x': 5.})
c = a + b
same(c['e'].eval(), 6.)
same(c['f'].eval(), 5.)
same(a['e'].eval(), 2.)
""")

seed('s34-unsigned-inputs', 'C17',
     [(EQN, "                if np.issubdtype(v.dtype, np.integer):\n",
       "                if np.issubdtype(v.dtype, np.signedinteger):\n")],
     'arrays of unsigned integers given to an equation',
     'unsigned integer arrays wrap around', """
e = Equation('x - y')
same(e.eval(x=np.array([1, 5]), y=np.array([3, 2])), [-2., 3.])
x = np.array([1, 5], dtype=np.uint8)
y = np.array([3, 2], dtype=np.uint8)
same(e.eval(x=x, y=y), [-2., 3.])
""")

seed('s35-input-of-const-name', 'C18',
     [(CFG, """                    kwargs = copy.deepcopy(self.global_variables)
                    kwargs.update(self.inputs)
""", """                    kwargs = dict(self.inputs)
                    kwargs.update(self._parse_global_variables(
                        self._raw_config))
                    kwargs.update({x: y for x, y
                                   in self.global_variables.items()
                                   if x not in kwargs})
""")],
     'an input with the name of a numeric config entry',
     'the config constant wins over the input', """
root = lib({'g.json': {'e': 'x + k'}})
cfg = NrwalConfig({'equation_directory': root, 'k': 2.0, 'y': 'g::e'})
same(cfg.eval({'x': 1.0})['y'], 3.0)
same(cfg.eval({'x': 1.0, 'k': 7.0})['y'], 8.0)
""")

seed('s36-first-default-wins', 'C08',
     [(EQN, "            self._default_variables.update(copy.deepcopy(var_dict))\n",
       "            self._default_variables = dict(\n"
       "                copy.deepcopy(var_dict), **self._default_variables)\n")],
     'a forced update of a variable an equation already has a default for',
     'the first default that was set wins over later ones', """
d = EquationDirectory(lib({'g.json': {'e': 'x + y'},
                           'variables.json': {'x': 1.}}))
d.set_default_variables({'x': 2., 'y': 1.}, force_update=True)
same(d['g::e'].eval(), 3.)
""")

seed('s37-shared-namespace', 'C20',
     [(EQN, """        if var_group is None:
            out = {}
        else:
            out = copy.deepcopy(var_group)

        out.update(kwargs)
        return out
""", """        out = Equation._NAMESPACE
        out.clear()
        if var_group is not None:
            out.update(copy.deepcopy(var_group))

        out.update(kwargs)
        return out
"""), (EQN, "    ILLEGAL = ('import ',", "    _NAMESPACE = {}\n"
       "    ILLEGAL = ('import ',")],
     'two threads that evaluate equations at the same time',
     'one namespace is shared by all evaluations', """
import threading
sys.setswitchinterval(1e-6)
bad = []
def work(n):
    e = Equation('x * 2 + np.sum(y)')
    for i in range(4000):
        try:
            if e.eval(x=float(n), y=np.full(3, n)) != 5 * n:
                bad.append(n)
        except Exception as err:
            bad.append(err)
ts = [threading.Thread(target=work, args=(n,)) for n in range(1, 5)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad[0]
""")

seed('s38-cached-library', 'C20',
     [(DIR, """        self._eqns = self._parse_eqn_dir(
            eqn_dir, interp_extrap_power=interp_extrap_power,
            use_nearest_power=use_nearest_power,
            interp_extrap_year=interp_extrap_year,
            use_nearest_year=use_nearest_year)
""", """        EquationDirectory._FLAGS = dict(
            interp_extrap_power=interp_extrap_power,
            use_nearest_power=use_nearest_power,
            interp_extrap_year=interp_extrap_year,
            use_nearest_year=use_nearest_year)
        self._eqns = self._parse_eqn_dir(eqn_dir, **self._FLAGS)
"""), (DIR, """            if is_directory and not ignore_check:
                obj = cls(path, interp_extrap_power=interp_extrap_power,
                          use_nearest_power=use_nearest_power,
                          interp_extrap_year=interp_extrap_year,
                          use_nearest_year=use_nearest_year)
""", """            if is_directory and not ignore_check:
                obj = cls(path, **cls._FLAGS)
""")],
     'two directories with different lookup switches built by two threads at '
     'the same time', 'a directory takes lookup switches of another one', """
import threading
sys.setswitchinterval(1e-6)
root = lib({'a%d' % i: {'b': {'g.json': {'c_3MW': 'x', 'c_6MW': '2 * x'}}}
            for i in range(12)})
bad = []
def work(flag):
    for i in range(60):
        d = EquationDirectory(root, use_nearest_power=flag)
        for k in range(12):
            e = d.get('a%d::b::g::c_4MW' % k, None)
            if (e is not None) != flag:
                bad.append((flag, e))
ts = [threading.Thread(target=work, args=(n % 2 == 0,)) for n in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad[0]
""")

seed('s40-variables-int-group', 'C19',
     [(GRP, """            if isinstance(v, int):
                v = float(v)
                group[k] = v
            if not isinstance(v, float):
""", """            if isinstance(v, (int, float)):
                v = float('{:.7g}'.format(v))
                group[k] = v
            if not isinstance(v, float):
""")],
     'a variables file with a value of more than seven digits',
     'default variables are rounded to seven digits', """
d = EquationDirectory(lib({'variables.json': {'k': 123456789.0},
                           'g.json': {'e': 'k - 123456000'}}))
same(d['g::e'].eval(), 789.)
""")

seed('s20-nested-flags', 'C09',
     [(GRP, """                    v, name=k, interp_extrap_power=self._interp_extrap_power,
                    use_nearest_power=self._use_nearest_power,
""", """                    v, name=k, interp_extrap_power=self._interp_extrap_power,
                    use_nearest_power=self._use_nearest_year,
""")],
     'a power lookup in a nested group', 'a nested group takes its power '
     'switch from the year switch', """
t = {'s': {'t': {'c_3MW': 'x', 'c_6MW': '2 * x'}}}
g = EquationGroup(t, use_nearest_power=True)
same(g['s::t']['c_4MW'].eval(x=1.), 1.)
g = EquationGroup(t, use_nearest_year=True)
assert g['s::t'].get('c_4MW', None) is None
""")

seed('s22-known-inputs-skipped', 'C10',
     [(CFG, """        if inputs is not None:
            self.inputs = inputs

        if not""", """        if inputs is not None and any(k not in self.inputs
                                      for k in inputs):
            self.inputs = inputs

        if not""")],
     'a second evaluation with other values of the same inputs',
     'new values of known inputs are ignored at evaluation', """
root = lib({'g.json': {'e': 'x + k'}})
cfg = NrwalConfig({'equation_directory': root, 'k': 2.0, 'y': 'g::e'})
same(cfg.eval({'x': 1.0})['y'], 3.0)
same(cfg.eval({'x': 4.0})['y'], 6.0)
""")

seed('s25-yaml-text-values', 'C12',
     [(CFG, "                    config = yaml.safe_load(f)\n",
       "                    config = yaml.load(f, Loader=yaml.BaseLoader)\n")],
     'a lookup switch that is set to false in a yaml config',
     'all values of yaml configs are text so that false is true', """
root = lib({'g.json': {'c_3MW': 'x', 'c_6MW': '2 * x'}})
c = {'equation_directory': root, 'use_nearest_power': False, 'k': 2,
     'y': 'g::c_4MW'}
def load(name):
    fp = os.path.join(tmp, name)
    with open(fp, 'w') as f:
        json.dump(c, f)
    return NrwalConfig(fp).required_inputs
assert load('c.json') == load('c.yml') == ['g::c_4MW']
""")

seed('s26-table-index', 'C12',
     [(CFG, "                    v = arg[k].values.flatten()\n",
       "                    v = arg[k].sort_index().values.flatten()\n")],
     'a data table whose index is not in order',
     'the rows of a table are reordered by its index', """
root = lib({'g.json': {'e': 'x + y'}})
cfg = {'equation_directory': root, 'a': 'g::e'}
df = pd.DataFrame({'x': [1., 2., 4.], 'y': [3., 3., 9.]}, index=[2, 0, 1])
o2 = NrwalConfig(cfg).eval(df)
same(o2['a'], [4., 5., 13.])
""")

seed('s30-group-dict-inplace', 'C15',
     [(GRP, "        group = {str(k): v for k, v in group.items()}\n",
       "        if not all(isinstance(k, str) for k in group):\n"
       "            group = {str(k): v for k, v in group.items()}\n")],
     'a group built from a dictionary of the caller',
     'the dictionary of the caller is filled with equation objects', """
d = {'e': 'x + 1', 'f': 'e * 2', 's': {'h': 'y'}}
EquationGroup(d)
assert d == {'e': 'x + 1', 'f': 'e * 2', 's': {'h': 'y'}}, d
same(EquationGroup(d)['f'].eval(x=1.), 4.)
""")

seed('s41-number-folder', 'C07',
     [(DIR, "        if key not in self and Equation.is_num(key):\n",
       "        if Equation.is_num(key):\n")],
     'a folder with a number as its name retrieved on its own',
     'a number is returned and not the folder of that name', """
d = EquationDirectory(lib({'2015': {'g.json': {'e': 'x + 1'}}}))
same(d['2015::g::e'].eval(x=1.), 2.)
assert isinstance(d['2015'], EquationDirectory)
""")

seed('s42-close-inputs-kept', 'C10',
     [(CFG, """                elif isinstance(v, int):
                    v = float(v)

""", """                    old = self._inputs.get(k)
                    if (isinstance(old, np.ndarray) and v.shape == old.shape
                            and np.allclose(v, old)):
                        v = old
                elif isinstance(v, int):
                    v = float(v)

""")],
     'an array input updated by values that are nearly the same',
     'small changes of an input are ignored', """
root = lib({'g.json': {'e': '(x - 1) * 1e6'}})
cfg = NrwalConfig({'equation_directory': root, 'y': 'g::e'})
same(cfg.eval({'x': np.array([1.0, 1.0])})['y'], [0., 0.], )
same(cfg.eval({'x': np.array([1.0, 1.000004])})['y'], [0., 4.], 0.05)
""")

seed('s04-power-with-blanks', 'C02',
     [(GRP, "        key = key.replace('**', '^')\n",
       "        key = key.replace(' ** ', '^')\n")],
     'a retrieval key with "**" and no blanks around it',
     'powers are only understood with blanks around the operator', """
g = EquationGroup({'e1': 'x + 1', 'e2': 'x + 2', 'e3': 'x + 3'})
same(g['e1 ** 2'].eval(x=1.), 4.)
same(g['e1**2 + e2'].eval(x=1.), 7.)
""")


seed('s44-variables-of-unsolved', 'C22',
     [(CFG, """        names = list(self.global_variables.keys())
        for eqn in self.values():
""", """        names = list(self.global_variables.keys())
        for eqn in (self[k] for k in self.keys()):
""")],
     'asking for the variables of a config after it was evaluated',
     'all_variables lacks the variables of the equations that have been solved', """
root = lib({'g.json': {'e': 'x + 1'}})
cfg = NrwalConfig({'equation_directory': root, 'k': 2, 'y': 'g::e * k'})
before = cfg.all_variables
assert before == ['k', 'x'], before
cfg.eval({'x': 1.})
assert cfg.all_variables == before, cfg.all_variables
""")

seed('s45-get-zero', 'C22',
     [(CFG, """        if key in self._outputs:
            return self._outputs[key]
        else:
            return self._config[key]
""", """        out = self._outputs.get(key, 0)
        if np.any(out):
            return out
        else:
            return self._config[key]
""")],
     'a config entry whose result is zero',
     'an entry that was evaluated to zero is given as its equation and not as the result', """
root = lib({'g.json': {'e': 'x * 2'}})
cfg = NrwalConfig({'equation_directory': root, 'y': 'g::e'})
cfg.eval({'x': 1.})
same(cfg['y'], 2.)
cfg.eval({'x': 0.})
assert not isinstance(cfg['y'], Equation)
same(cfg['y'], 0.)
""")

seed('s46-integer-keys-only', 'C23',
     [(GRP, """        for k, v in sorted(group.items()):
            if Equation.is_num(k):
""", """        for k, v in sorted(group.items()):
            if k.isdigit():
""")],
     'a group with a key that is a number other than a positive integer',
     'numbers such as 1e3 or -1 are accepted as names of equations and hide the number', """
for key in ('5', '1e3', '-1', 2.5):
    for g in ({key: 'x'}, {'s': {'a': 'x', key: 'x + 1'}}):
        try:
            EquationGroup(g)
        except ValueError:
            continue
        assert False, key
""")

seed('s47-bad-variables-skipped', 'C23',
     [(DIR, """                    msg = ('Could not parse an VariableGroup from '
                           'file: "{}". Received the exception: {}'
                           .format(name, e))
                    logger.exception(msg)
                    raise RuntimeError(msg)
""", """                    msg = ('Could not parse an VariableGroup from '
                           'file: "{}". Received the exception: {}'
                           .format(name, e))
                    logger.exception(msg)
                    if not eqns:
                        raise RuntimeError(msg)
""")],
     'a malformed variables file in a folder with other equation files',
     'a library with a malformed variables file is loaded without it', """
for name in ('a.json', 'z.json'):
    root = lib({name: {'e': 'x * w'}, 'variables.json': {'w': 'two'}})
    try:
        EquationDirectory(root)
    except Exception:
        continue
    assert False, name
""")

seed('s48-number-operand-digits', 'C03',
     [(EQN, """        if not isinstance(other, Equation):
            other = cls(other)
""", """        if isinstance(other, float):
            other = cls(float('{:.6g}'.format(other)))
        elif not isinstance(other, Equation):
            other = cls(other)
""")],
     'arithmetic of an equation with a number of more than six digits',
     'numbers combined with an equation are rounded to six digits', """
e = Equation('x')
same((e * 0.5).eval(x=2.), 1.)
same((e * 1234567.25).eval(x=2.), 2469134.5, 1e-9)
""")

seed('s50-circle-of-calls', 'C14',
     [(CFG, """        all_vars = Equation.parse_variables(expression)

        if orig_name in all_vars:
""", """        all_vars = []
        if Equation.is_equation(expression) or expression in config:
            all_vars = Equation.parse_variables(expression)

        if orig_name in all_vars:
""")],
     'a circle through entries that are plain numpy calls without an operator',
     'such a circle is not refused when the config is loaded', """
root = lib({'g.json': {'e': 'x * 2'}})
for a, b in (('b + 1', 'a * 2'), ('np.abs(b)', 'np.sqrt(a)'),
             ('np.abs(b)', 'a + 1')):
    try:
        NrwalConfig({'equation_directory': root, 'a': a, 'b': b})
    except RuntimeError:
        continue
    assert False, (a, b)
""")

seed('s51-single-results-squeezed', 'C17',
     [(EQN, """            out = eval(str(self._eqn), globals(), kwargs)
""", """            out = eval(str(self._eqn), globals(), kwargs)
            if isinstance(out, np.ndarray) and out.size == 1:
                out = out.reshape(-1)[0]
""")],
     'array inputs of length one',
     'the result for arrays with one element is a scalar and no array of that shape', """
e = Equation('x * 2')
same(e.eval(x=np.array([1., 2.])), [2., 4.])
same(e.eval(x=np.array([3.])), [6.])
""")

seed('s52-library-default-wins', 'C18',
     [(CFG, """        if isinstance(out, (Equation, EquationGroup)):
            out.set_default_variables(gvars)
""", """        if isinstance(out, Equation):
            out.set_default_variables({k: v for k, v in gvars.items()
                                       if k in out.default_variables
                                       or k not in eqn_dir.default_variables})
        elif isinstance(out, EquationGroup):
            out.set_default_variables({k: v for k, v in gvars.items()
                                       if k not in out.default_variables})
""")],
     'a group taken into a config with a constant that its library has a default for',
     'the default of the library is used and not the constant of the config', """
root = lib({'g.json': {'e': 'x * w'}, 'variables.json': {'w': 5.0}})
cfg = NrwalConfig({'equation_directory': root, 'w': 2, 'grp': 'g', 'e': 'g::e'})
same(cfg.eval({'x': 1.})['e'], 2.)
same(cfg['grp']['e'].eval(x=1.), 2.)
""")

seed('s54-last-variables', 'C20',
     [(EQN, """        return self.parse_variables(self._eqn)
""", """        cls = self.__class__
        if getattr(cls, '_last_eqn', None) != self._eqn:
            cls._last_eqn = self._eqn
            cls._last_vars = self.parse_variables(self._eqn)
        return list(cls._last_vars)
""")],
     'two threads asking different equations for their variables',
     'an equation is given the variables of the equation of another thread', """
import threading
e1, e2 = Equation('a1 + b1'), Equation('a2 + b2')
real = Equation.parse_variables
go1, go2 = threading.Event(), threading.Event()


def slow(text):
    out = real(text)
    if threading.current_thread() is t1:
        go2.set()
        go1.wait(5)
    return out


Equation.parse_variables = staticmethod(slow)
got = []
t1 = threading.Thread(target=lambda: got.append(e1.variables))
t1.start()
go2.wait(5)
assert e2.variables == ['a2', 'b2']
go1.set()
t1.join()
assert got == [['a1', 'b1']], got
for _ in range(2):
    assert e2.variables == ['a2', 'b2'], e2.variables
    assert e1.variables == ['a1', 'b1'], e1.variables
""")

seed('s60-key-cache', 'C08',
     [(GRP, """        return self._getitem(key, None)

    def __contains__(self, arg):
""", """        cache = self.__dict__.setdefault('_math_keys', {})
        if any(op in key for op in '+-*/^('):
            if key not in cache:
                cache[key] = self._getitem(key, None)
            return cache[key]

        return self._getitem(key, None)

    def __contains__(self, arg):
""")],
     'an arithmetic key retrieved, the defaults of the group updated, the same key retrieved again',
     'the second retrieval gives an equation with the defaults of the first', """
g = EquationGroup({'a': 'x * w', 'b': 'x'})
g.set_default_variables({'w': 2.0})
same(g['a + b'].eval(x=1.), 3.)
g.set_default_variables({'w': 5.0})
same(g['a'].eval(x=1.), 5.)
same(g['a + b'].eval(x=1.), 6.)
""")

seed('s61-variables-list-kept', 'C15',
     [(EQN, """        return self.parse_variables(self._eqn)
""", """        if '_vars' not in self.__dict__:
            self._vars = self.parse_variables(self._eqn)

        return self._vars
""")],
     'the list of variables that was returned is modified by the caller',
     'the equation forgets a variable because the caller has worked with the list it got', """
e = Equation('a + b * c')
todo = e.variables
while todo:
    todo.pop()
assert e.variables == ['a', 'b', 'c'], e.variables
""")

seed('s62-single-underscore', 'C07',
     [(DIR, """            ignore_check = name.startswith(('.', '__'))
""", """            ignore_check = name.startswith(('.', '_'))
""")],
     'a file or folder with a name that starts with one underscore',
     'such a file is left out of the directory', """
d = EquationDirectory(lib({'_old.json': {'e': 'x'}, '_sub': {'g.json': {'e': 'x + 1'}}}))
assert list(d.keys()) == ['_old', '_sub'], list(d.keys())
same(d['_old::e'].eval(x=2.), 2.)
""")

seed('s64-merge-switches', 'C09',
     [(DIR, """            other = cls(other, interp_extrap_power=self._interp_extrap_power,
                        use_nearest_power=self._use_nearest_power,
                        interp_extrap_year=self._interp_extrap_year,
                        use_nearest_year=self._use_nearest_year)
""", """            other = cls(other, interp_extrap_power=self._interp_extrap_power,
                        use_nearest_power=self._use_nearest_power)
""")],
     'a folder path added to a directory with year lookups enabled, a year looked up in the added part',
     'year lookups fail in the added folder', """
d = EquationDirectory(lib({'a.json': {'e': 'x'}}), use_nearest_year=True)
d = d + lib({'b.json': {'c_2015': 5}})
same(d['b::c_2017'].eval(), 5)
""")

seed('s65-missing-once', 'C13',
     [(CFG, """        names = [x for x in self.required_inputs
                 if x not in self.global_variables
                 and x not in self.inputs]
        return sorted(list(set(names)))
""", """        known = self.__dict__.setdefault('_known', set())
        known.update(self.inputs)
        names = [x for x in self.required_inputs
                 if x not in self.global_variables
                 and x not in known]
        return sorted(list(set(names)))
""")],
     'inputs supplied, looked at or evaluated, cleared, looked at again',
     'a config is reported solvable after its inputs were cleared', """
root = lib({'g.json': {'e': 'x * w'}})
c = NrwalConfig({'equation_directory': root, 'y': 'g::e'})
c.evaluate({'x': 1., 'w': 2.})
c.inputs = None
assert c.missing_inputs == ['w', 'x'], c.missing_inputs
assert not c.solvable
""")

seed('s67-pointer-cache', 'C25',
     [(CFG, """                fp_other = os.path.join(config_dir, fp_other)
""", """                fp_other = os.path.join(config_dir, fp_other)
                if not os.path.isabs(temp[0]) and os.path.exists(temp[0]):
                    # relative to the working directory
                    fp_other = os.path.abspath(temp[0])
""")],
     'a config file with a relative pointer, loaded while a file of the same relative name is in the current folder',
     'the pointer leads to the file in the current folder and not to the one beside the config', """
root = lib({'lib': {'g.json': {'e': 'x'}}, 'a': {}, 'b': {}})
for d, v in (('a', 1), ('b', 2)):
    with open(os.path.join(root, d, 'o.json'), 'w') as f:
        json.dump({'k': 'x * %d' % v}, f)
with open(os.path.join(root, 'a', 'c.json'), 'w') as f:
    json.dump({'equation_directory': os.path.join(root, 'lib'), 'y': './o.json::k'}, f)
os.chdir(os.path.join(root, 'b'))
same(NrwalConfig(os.path.join(root, 'a', 'c.json')).eval({'x': 3.})['y'], 3.)
""")

seed('s68-file-cache', 'C25',
     [(GRP, """            elif group.endswith(('.yml', '.yaml')):
                with open(group, 'r') as f:
                    group = yaml.safe_load(f)
""", """            elif group.endswith(('.yml', '.yaml')):
                cache = AbstractGroup.__dict__.get('_loaded')
                if cache is None:
                    AbstractGroup._loaded = cache = {}
                if os.path.abspath(group) not in cache:
                    with open(group, 'r') as f:
                        cache[os.path.abspath(group)] = yaml.safe_load(f)
                group = copy.deepcopy(cache[os.path.abspath(group)])
""")],
     'a yaml file loaded, edited and loaded again in one process',
     'the second load gives the old contents', """
p = os.path.join(tmp, 'g.yaml')
for v in (1, 2):
    with open(p, 'w') as f:
        f.write('e: x * %d\\n' % v)
    same(EquationGroup(p)['e'].eval(x=3.), 3. * v)
""")

seed('s69-default-print', 'C24',
     [(EQN, """                    base_str = ', ' if bool(vars_str) else ''
                    kw_str = '{}={}'.format(gvar, self.default_variables[gvar])
""", """                    base_str = ', ' if bool(vars_str) else ''
                    kw_str = '{}={}'.format(gvar, round(self.default_variables[gvar], 3))
""")],
     'printing an equation with a small default',
     'the printed default is not the one in force', """
e = Equation('x * w', name='e', default_variables={'w': 0.00025})
assert str(e) == 'e(x, w=0.00025)', str(e)
""")

seed('s70-tail-lines', 'C24',
     [(DIR, """        return '\\n'.join(str(self).split('\\n')[-1 * n:])
""", """        return '\\n'.join(str(self).split('\\n')[1:][-1 * n:])
""")],
     'the tail of a directory with at least as many lines asked for as it has',
     'the tail leaves out the heading', """
d = EquationDirectory(lib({'a.json': {'e': 'x'}}))
assert d.tail(3) == str(d), d.tail(3)
""")

seed('s72-listing-kept', 'C16',
     [(GRP, """        return self._r_all_equations(self)
""", """        if '_all_eqns' not in self.__dict__:
            self._all_eqns = self._r_all_equations(self)

        return list(self._all_eqns)
""")],
     'a group whose equations were listed is merged with another one and the equations of the sum are listed',
     'the listing of the sum leaves out the entries of the right group', """
a = EquationGroup({'e': 'x'})
assert len(a.all_equations) == 1
s = a + {'f': 'y', 'e': 'z'}
assert sorted(e.full for e in s.all_equations) == ['y', 'z'], s.all_equations
""")

seed('s75-get-swallows', 'C07',
     [(DIR, """        try:
            return self[key]
        except KeyError:
            return default_value

    def keys(self):
        \"\"\"Get the 1st level of equation keys, same as dict.keys()\"\"\"
""", """        first, _, rest = str(key).partition('::')
        out = self._eqns.get(os.path.splitext(first)[0], default_value)
        if rest and out is not default_value:
            out = out.get(rest, default_value)

        return out

    def keys(self):
        \"\"\"Get the 1st level of equation keys, same as dict.keys()\"\"\"
""")],
     'a get call for a name with a dot, a path that goes on below an equation, or an arithmetic key',
     'the get call finds another object or raises another error', """
d = EquationDirectory(lib({'v1.2.json': {'e': 'x'}, 'g.json': {'e': 'x', 's': {'t': 'x'}}}))
assert d.get('g::e::z', 'fallback') == 'fallback'
assert d.get('v1.2::e', 'fallback') != 'fallback'
""")

seed('s76-nested-defaults-copied-once', 'C08',
     [(DIR, """            elif isinstance(v, (EquationGroup, Equation)):
                v.set_default_variables(var_group)
""", """            elif isinstance(v, (EquationGroup, Equation)):
                new = {k: x for k, x in var_group.items()
                       if v.default_variables.get(k) != x}
                v.set_default_variables(new)
""")],
     "a value set on an equation, then the value its group has set again by an update of the folder",
     'the equation keeps the value it was given before', """
d = EquationDirectory(lib({'g.json': {'e': 'x * w'}}))
d.set_default_variables({'w': 2.0}, force_update=True)
d['g::e'].set_default_variables({'w': 5.0})
d.set_default_variables({'w': 2.0}, force_update=True)
same(d['g::e'].eval(x=1.), 2.)
""")

seed('s77-sorted-by-text', 'C09',
     [(GRP, """            if any(eqn_keys):
                eqn_pow_diffs = np.abs(req_mw - np.array(eqn_powers))
                indices = np.argsort(eqn_pow_diffs)
""", """            if any(eqn_keys):
                eqn_pow_diffs = np.abs(req_mw - np.array(eqn_powers))
                indices = np.argsort(eqn_pow_diffs.astype(str))
""")],
     'distances with different numbers of digits',
     'ten counts as nearer than nine', """
g = EquationGroup({'c_1MW': 1, 'c_20MW': 2}, use_nearest_power=True)
same(g['c_10MW'].eval(), 1)
""")

seed('s78-pointer-in-pointer', 'C12',
     [(CFG, """                fp_other, other_key = temp[0], temp[2]
                fp_other = os.path.join(config_dir, fp_other)
""", """                fp_other, other_key = temp[0].lstrip('./'), temp[2]
                fp_other = os.path.join(config_dir, fp_other)
""")],
     'a pointer to a file in a parent folder',
     'such a pointer is refused, or leads to a file of that name beside the config', """
root = lib({'lib': {'g.json': {'e': 'x'}}, 'o.json': {'k': 'x * 3'}, 'sub': {'c.json': {'y': '../o.json::k'}}})
with open(os.path.join(root, 'sub', 'c.json'), 'w') as f:
    json.dump({'equation_directory': os.path.join(root, 'lib'), 'y': '../o.json::k'}, f)
same(NrwalConfig(os.path.join(root, 'sub', 'c.json')).eval({'x': 2.})['y'], 6.)
""")

seed('s80-empty-inputs-clear', 'C10',
     [(CFG, """        if inputs is not None:
            self.inputs = inputs

        if not self.solvable""", """        if inputs is not None and len(inputs) > 0:
            self.inputs = inputs
        elif inputs is not None:
            self.inputs = None

        if not self.solvable""")],
     'evaluate with an empty dictionary after inputs have been set',
     'the inputs in force are forgotten', """
c = NrwalConfig({'equation_directory': lib({'g.json': {'e': 'x'}}), 'a': 'x * 2'})
c.inputs = {'x': 3.}
same(c.evaluate({})['a'], 6.)
""")

seed('s81-results-kept', 'C10',
     [(CFG, """        if inputs is not None:
            self.inputs = inputs

        if not self.solvable""", """        if inputs is not None:
            self.inputs = inputs

        last = self.__dict__.get('_last_inputs')
        if (last is not None and any(self._outputs) and self.solved
                and set(last) == set(self.inputs)
                and all(np.array_equal(last[k], v)
                        for k, v in self.inputs.items())):
            # still the results for these inputs
            return self._outputs

        if not self.solvable"""),
      (CFG, """                       'never solved: {}'.format(self.to_be_solved))
                logger.error(msg)
                raise RuntimeError(msg)

        return self._outputs
""", """                       'never solved: {}'.format(self.to_be_solved))
                logger.error(msg)
                raise RuntimeError(msg)

        self._last_inputs = copy.deepcopy(self.inputs)

        return self._outputs
""")],
     'results changed by the caller (converted in place, say) between two evaluations with the same inputs',
     'the second evaluation returns the changed results', """
c = NrwalConfig({'equation_directory': lib({'g.json': {'e': 'x'}}), 'a': 'x * 2'})
out = c.evaluate({'x': np.array([1., 2.])})
out['a'] /= 1000
same(c.evaluate()['a'], [2., 4.])
""")

seed('s82-unpickled-without-results', 'C21',
     [(CFG, """    def __repr__(self):
        return str(self)
""", """    def __repr__(self):
        return str(self)

    def __getstate__(self):
        # results can be computed again
        state = dict(self.__dict__)
        state['_outputs'] = {k: v for k, v in self._outputs.items()
                             if not isinstance(v, np.ndarray)}
        return state
""")],
     'copying a config that has array results',
     'the copy has lost them', """
import copy
c = NrwalConfig({'equation_directory': lib({'g.json': {'e': 'x'}}), 'a': 'x * 2'})
c.evaluate({'x': np.array([1., 2.])})
d = copy.deepcopy(c)
same(d['a'], [2., 4.])
""")

seed('s83-copied-group-shares', 'C21',
     [(GRP, """    def __repr__(self):
        return str(self)
""", """    def __repr__(self):
        return str(self)

    def __deepcopy__(self, memo):
        out = self.__class__.__new__(self.__class__)
        out.__dict__.update(self.__dict__)
        out._group = copy.deepcopy(self._group, memo)
        return out
""")],
     'a copy of a group, defaults set on one of the two, and the other printed or merged',
     'the default variables of original and copy are the same dictionary', """
import copy
g = EquationGroup({'e': 'x * k'})
h = copy.deepcopy(g)
h.set_default_variables({'k': 3.})
assert g.default_variables == {}
""")

seed('s84-half-precision', 'C09',
     [(GRP, """                eqn_pow_diffs = np.abs(req_mw - np.array(eqn_powers))
""", """                eqn_pow_diffs = np.abs(req_mw - np.array(
                    eqn_powers, dtype=np.float16))
""")],
     'powers above 2048 MW', 'the distances are rounded and the nearest equation is another one', """
g = EquationGroup({'c_4002MW': 1, 'c_4001MW': 2, 'c_4000MW': 3}, use_nearest_power=True)
same(g['c_3999MW'].eval(), 3)
""")

seed('s85-year-bounds', 'C09',
     [(GRP, """            if year < 1800 or year > 2200:""", """            if year <= 1800 or year >= 2200:""")],
     'the years 1800 and 2200', 'they do not take part in the lookup', """
g = EquationGroup({'c_1800': 1, 'c_1900': 2}, use_nearest_year=True)
same(g['c_1810'].eval(), 1)
""")

seed('s86-columns-flattened', 'C17',
     [(CFG, """                if isinstance(v, np.ndarray):
                    if v.size > 0 and""", """                if isinstance(v, np.ndarray):
                    if v.ndim == 2 and v.shape[1] == 1:
                        v = v.flatten()
                    if v.size > 0 and""")],
     'an input that is an array with a single column', 'the results have another shape', """
c = NrwalConfig({'equation_directory': lib({'g.json': {'e': 'x'}}), 'a': 'x * 2'})
same(c.evaluate({'x': np.array([[1.], [2.]])})['a'], [[2.], [4.]])
""")

seed('s87-nan-zeroed', 'C17',
     [(CFG, """                if isinstance(v, np.ndarray):
                    if v.size > 0 and""", """                if isinstance(v, np.ndarray):
                    if v.dtype.kind == 'f':
                        v = np.nan_to_num(v)
                    if v.size > 0 and""")],
     'NaN in an array input', 'the position gets a value', """
c = NrwalConfig({'equation_directory': lib({'g.json': {'e': 'x'}}), 'a': 'x * 2'})
assert np.isnan(c.evaluate({'x': np.array([1., np.nan])})['a'][1])
""")

seed('s88-group-names-provided', 'C13',
     [(CFG, """        names = [x for x in self.required_inputs
                 if x not in self.global_variables
                 and x not in self.inputs]
""", """        names = [x for x in self.required_inputs
                 if x not in self.global_variables
                 and x not in self._config
                 and x not in self.inputs]
""")],
     'a library equation with a variable that has the name of a config entry which is a group',
     'the config is reported solvable and fails', """
c = NrwalConfig({'equation_directory': lib({'g.json': {'e': 'x * w'}}), 'w': 'g', 'a': 'g::e'}, inputs={'x': 2.})
assert c.missing_inputs == ['w'] and not c.solvable
""")

seed('s89-constant-formulas', 'C18',
     [(CFG, """                                       and not any(v.variables)
""", """                                       and all(x in self._global_variables
                                               for x in v.variables)
""")],
     'a library equation or numpy call whose only variables are config constants, and an input of the name of one',
     'the entry is taken for a constant at loading, and the input is not used', """
c = NrwalConfig({'equation_directory': lib({'g.json': {'e': 'k * 3'}}), 'k': 2, 'a': 'g::e'})
same(c.evaluate({'k': 5.})['a'], 15.)
""")

seed('s91-only-numeric-columns', 'C17',
     [(CFG, """                keys = arg.columns.values
""", """                keys = arg.select_dtypes('number').columns.values
""")],
     'a data table with a column of booleans',
     'the mask is not used', """
c = NrwalConfig({'equation_directory': lib({'g.json': {'e': 'x'}}), 'a': 'np.where(m, x, 0)'})
same(c.evaluate(pd.DataFrame({'x': [1., 2.], 'm': [True, False]}))['a'], [1., 0.])
""")

seed('s92-comments-not-checked', 'C05',
     [(EQN, """            if substr in str(self._eqn):
""", """            if substr in str(self._eqn).split('#')[0]:
""")],
     'an expression of several lines with a comment in the first',
     'the lines after the comment are executed unchecked', """
for text in ('a # one', '(a # one'):
    try:
        Equation(text + chr(10) + '+ os.getpid())'.replace(')', '', text[0] != '(') )
    except ValueError:
        continue
    raise AssertionError(text)
""")

seed('s93-wrapped-lines', 'C05',
     [(EQN, """        for substr in self.ILLEGAL:
            if substr in str(self._eqn):
""", """        first, *rest = str(self._eqn).splitlines()
        for substr in self.ILLEGAL:
            if any(substr in line for line in (first, *rest[1:])):
""")],
     'an expression that goes on in a second line',
     'the second line is not checked', """
try:
    Equation('(a +' + chr(10) + 'os.getpid())')
except ValueError:
    return
raise AssertionError
""")

seed('s94-few-passes', 'C06',
     [(GRP, """        working = True
        while working:
            working = False
""", """        working = True
        passes = 0
        while working and passes < 6:
            working = False
            passes += 1
""")],
     'a chain of more than 64 equations of a group, each using the next one',
     'the last references are left as variables', """
d = {'e%d' % i: 'e%d + x' % (i + 1) for i in range(80)}
d['e80'] = 'x'
g = EquationGroup(d)
assert g['e0'].variables == ['x'], g['e0'].variables
same(g['e0'].evaluate(x=2.), 162.)
""")

seed('s95-current-folder', 'C20',
     [(DIR, """        eqns = {}
        for name in sorted(os.listdir(eqn_dir)):
            path = os.path.join(eqn_dir, name)
""", """        eqns = {}
        cwd = os.getcwd()
        eqn_dir = os.path.abspath(eqn_dir)
        os.chdir(eqn_dir)
        names = sorted(os.listdir('.'))
        os.chdir(cwd)
        for name in names:
            path = os.path.join(eqn_dir, name)
""")],
     'a relative path used in one thread while another one lists a folder',
     'the file is not found, or one of the same name is read', """
import threading
root = lib({'f.json': {'e': 'x'}, 'sub': {'f.json': {'e': 'x * 2'}}})
os.chdir(root)
listdir, got = os.listdir, []


def other():
    got.append(EquationGroup('f.json')['e'].evaluate(x=3.))


def slow(*a):
    os.listdir = listdir
    t = threading.Thread(target=other)
    t.start()
    t.join()
    return listdir(*a)


os.listdir = slow
try:
    EquationDirectory(os.path.join(root, 'sub'))
finally:
    os.listdir = listdir
same(got[0], 3.)
""")

seed('s96-solved-early', 'C22',
     [(CFG, """        return not any(self.to_be_solved)
""", """        return bool(self._outputs) or not any(self.to_be_solved)
""")],
     'one of several results reset',
     'the config says it is solved while an entry has no result', """
c = NrwalConfig({'equation_directory': lib({'g.json': {'e': 'x'}}), 'a': 'x + 1', 'b': 'x * 2'})
c.evaluate({'x': 1.})
assert c.solved
c.reset_output('b')
assert not c.solved and c.to_be_solved == ['b']
""")

seed('s97-file-dates', 'C25',
     [(GRP, """class AbstractGroup(ABC):
""", """_FILES = {}


class AbstractGroup(ABC):
"""), (GRP, """                with open(group, 'r') as f:
                    group = yaml.safe_load(f)
""", """                fkey = (os.path.abspath(group), os.stat(group).st_mtime_ns)
                if fkey not in _FILES:
                    with open(group, 'r') as f:
                        _FILES[fkey] = yaml.safe_load(f)
                group = copy.deepcopy(_FILES[fkey])
""")],
     'a yaml file replaced by another one with the same date (copied with its date, restored from an archive)',
     'the old content is used', """
root = lib({'f.yaml': {'e': 'x * 2'}})
fp = os.path.join(root, 'f.yaml')
os.utime(fp, (1e9, 1e9))
same(EquationGroup(fp)['e'].evaluate(x=3.), 6.)
with open(fp, 'w') as f:
    f.write('e: x * 5')
os.utime(fp, (1e9, 1e9))
same(EquationGroup(fp)['e'].evaluate(x=3.), 15.)
""")
