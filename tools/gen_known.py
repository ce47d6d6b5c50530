#!/usr/bin/env python3
"""Writes known_findings.json: open findings, and the repaired defects with the
commits of /repo that repair them (matched by commit subject)."""
import json
import os
import subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
OPEN = [dict(
    property='C18', status='open',
    key='input-does-not-override-constant-inlined-in-config-arithmetic',
    what="an input does not override a config constant of the same name where "
         "the constant is used directly in config arithmetic or as an alias, "
         "e.g. NrwalConfig({k: 2, y: 'x * k'}).evaluate({k: 5, x: 3}) gives "
         "y = 6 (NRWAL/handlers/config.py, _parse_expression_part inlines the "
         "number)")]
FIXED = [
    ('C14', 'entries that wait for each other through library',
     'two config entries that need each other through variables of library equations were evaluated with inputs or defaults of the same names: contradicting results that depended on the order of the config'),
    ('C01', 'names like workspace_1 are not mistaken',
     'a variable, config entry or equation called workspace_<n> was silently replaced by the n-th parenthetical statement of an expression or retrieval key'),
    ('C13', 'variables with the name of a config group',
     'a variable with the name of a config entry that is a group or folder was not reported as required: the config was solvable and its evaluation failed'),
    ('C24', 'printed form of an equation shows',
     'an equation that had been printed once kept showing the old default values after they were updated'),
    ('C03', 'keep negative numbers and modulo',
     'Equation(-3) ** 2 was evaluated as -(3 ** 2); modulo operands were not kept together'),
    ('C15', 'do not share default variables',
     'the default variables of an equation were shared with the dictionary passed in, the source of replace_equation and the operands of arithmetic'),
    ('C04', 'report exactly the free variables',
     "Equation('1e5*x') or 'x%y' reported wrong variables (numbers, keyword names, names joined by operators)"),
    ('C01', 'config expressions follow ordinary arithmetic',
     'config expressions such as "a - b - c", "a / b / c", "-a ** 2", "(a) * (b)" had wrong values or were refused'),
    ('C12', 'do not modify the config dictionary',
     'building a NrwalConfig from a dictionary removed and replaced its entries'),
    ('C10', 'rejected config inputs', 'inputs of a rejected update were stored'),
    ('C10', 'evaluate the config with the current inputs',
     'a second evaluation returned results of the previous inputs'),
    ('C11', 'do not depend on the order', 'results depended on the order of the config entries'),
    ('C02', 'arithmetic in retrieval keys', 'keys such as "a - b - c" gave a - (b - c)'),
    ('C06', 'inserted for whole variable names',
     'an equation name that is part of a longer variable name was replaced inside it'),
    ('C07', 'raise KeyError for paths below',
     'a path below an equation or a missing number raised other errors or returned another object'),
    ('C08', 'nearest enclosing variables file',
     'variables files of sibling folders leaked into equations'),
    ('C09', 'power and year lookups act independently',
     'year switches changed power lookups and the reverse; lookups acted in the middle of a path'),
    ('C12', 'config pointers only load',
     'a pointer to an entry of another config was refused because of an unrelated entry'),
    ('C04', 'additional inputs do not hide numpy',
     'an extra input named np broke equations; abs and others were reported as variables'),
    ('C16', 'merged groups and directories',
     'merged groups / directories shared their equations with the addends; VariableGroup + raised'),
    ('C17', 'numpy integer inputs',
     'numpy integer scalars overflowed or failed with negative powers'),
    ('C18', 'inputs override constant config entries',
     'an input did not override a constant config expression that came before its use'),
    ('C19', 'keeps the defaults of variables only one',
     'the default osw_2019 configs used the transmission_cost of osw_2019 in osw_2015 grid costs inside development, bos and capex'),
    ('C15', 'config entries no longer share',
     'setting defaults on one entry of a config changed other entries that used the same library equation or group'),
    ('C23', 'an empty equation is refused',
     'a config entry "()+x" had the value of x; an empty text was accepted as an equation'),
    ('C21', 'configs can be copied and pickled',
     'deepcopy and unpickling of a config ended in KeyError or RecursionError'),
]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'],
                     capture_output=True, text=True).stdout.splitlines()
out = list(OPEN)
for pid, sub, what in FIXED:
    hit = [x.split()[0][:10] for x in log if sub in x]
    assert len(hit) == 1, (sub, hit)
    out.append(dict(property=pid, status='fixed', commit=hit[0],
                    what='fixed: property={} {} {}'.format(pid, hit[0],
                                                           what)))
with open(os.path.join(V, 'known_findings.json'), 'w') as f:
    json.dump({'findings': out}, f, indent=1)
    f.write('\n')
print(len(out), 'entries')
