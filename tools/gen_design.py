#!/opt/venv/bin/python
"""Writes DESIGN.md from the properties, the check modules, the findings and the
recorded results on the planted bugs (tools/seed_results.json)."""
import glob
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
ORACLE = {
    'C01': 'Python\'s value of the same expression text over the operand values. Operands are numbers in every spelling, config constants and entries, library paths, members of a group named in the config, inputs and numpy calls.',
    'C02': 'Python\'s value of the key over the values of the named equations; keys outside of the grammar (unary plus, brackets, floor division) must give that value or an error.',
    'C03': 'Python arithmetic on the operand values; the union of variables; for defaults the rule "the right operand wins for names both use". Operands are fingerprinted before and after.',
    'C04': 'the free names found by Python\'s `ast` and the value Python computes; the supply model decides value or RuntimeError.',
    'C05': 'the expression must be refused when it is defined, and a payload in the same expression must not have run (it would create a file in a scratch folder that is looked for). The payloads are harmless by construction (they only touch the scratch folder).',
    'C06': 'recursive evaluation of the reference graph; cyclic graphs must raise ValueError.',
    'C07': 'an independent walk over the folder.',
    'C08': 'nearest enclosing definition; for histories of settings an object-by-object model of who was told what last.',
    'C09': 'exact member, else the straight line through the two nearest, else the nearest, else KeyError, each as switched. Ties between equally near members accept either.',
    'C10': 'a model that keeps nothing but the inputs in force and computes the results afresh after every step; results handed out earlier are compared with copies taken then.',
    'C11': 'evaluation in dependency order.',
    'C12': 'the inline dictionary config with a dictionary of inputs.',
    'C13': 'set arithmetic over the kinds of entries; evaluation succeeds exactly if nothing is missing and gives the modelled values.',
    'C14': 'depth-first cycle search on the enumerated graph.',
    'C15': 'a fingerprint (formulas, variables, defaults, contents, inputs, results, caller data) of everything the operation was not applied to.',
    'C16': 'right-biased union of keys, formulas and defaults.',
    'C17': 'evaluation with the scalars at each position, within single precision.',
    'C18': 'the priority list of the property.',
    'C19': 'mc/ref.py, an independent reference interpreter that reads the shipped YAML files itself and evaluates formulas with Python.',
    'C20': 'the results of running the two programs one after the other.',
    'C21': 'a twin object that went through the same history without being copied.',
    'C22': 'a state model of the config (entries, inputs, results present or reset).',
    'C23': 'Python: what it refuses must have no value, what is accepted must have Python\'s value. For definitions and files: an error, with the sound counterpart of the same construction as control (it must be accepted).',
}
ORACLE['C24'] = 'an object-by-object model of text, name, defaults and (for combined equations) the print taken when combined.'
ORACLE['C25'] = 'the values of the version of the files that was there when loading; decoy files with other contents stand in the current folders.'
LIMITS = {
    'C01': 'Names that contain operators, brackets or the reserved prefix `workspace_` are outside of the grammar, as is unary plus.',
    'C04': 'Attribute access on variables, keywords (`if`, `and`), lambdas and comprehensions are outside of the grammar.',
    'C05': 'Fragments inside names of existing config entries are resolved and never executed; they are outside of the alphabet.',
    'C07': 'A folder named `variables`, a file and a folder of the same name, file names with two known extensions (`x.yaml.json`) and names with operators are outside of the alphabet.',
    'C08': 'An unforced directory update after a forced or object-level setting of the same name is left unspecified.',
    'C13': 'A config entry that names a group and has the name of a variable of an equation is not covered.',
    'C18': 'One open finding, see below.',
    'C20': 'CPython with its interpreter lock: a thread switch is only possible between bytecodes, so source-line granularity (quick) and bytecode granularity (thorough) are the possible switch points up to the C calls in between. Every schedule runs in a process of its own, so first-use effects (module level caches) are part of every schedule.',
    'C22': 'After an evaluation that was refused because inputs are missing, or that failed half way, results may be present or absent; those present must be the right ones.',
    'C10': 'Inputs are single precision for arrays, as documented; the comparison allows for that and no more (about 2e-6).',
    'C15': 'An equation retrieved by its plain key is a view of the group that holds it, `cfg.inputs` is a live view, and `default_variables` likewise: changing these on purpose is not counted as interference.',
    'C24': 'The print of a combined equation is fixed when it is made and shows the defaults of that moment.',
    'C25': 'Contents are small; links into loops and unreadable files are not covered.',
}
T = open(os.path.join(V, 'tools', 'design_head.md')).read()
out = [T.rstrip(), '']
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
for p in props:
    pid = p['id']
    m = importlib.import_module('mc.' + pid.lower())
    out += ['### {} {}'.format(pid, p['title']), '']
    out += ['*Explored.* ' + ' '.join(m.__doc__.split()), '']
    out += ['*Oracle.* ' + ORACLE[pid], '']
    out += ['*Bounds.* Quick: {}. Thorough: {}.'.format(
        ' '.join(m.BOUNDS['quick'].split()),
        ' '.join(m.BOUNDS['thorough'].split())), '']
    if pid in LIMITS:
        out += ['*Limits.* ' + LIMITS[pid], '']
    gap = p.get('why_tests_cant', '')
    if gap:
        out += ['*Beyond the tests.* ' + gap, '']
k = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
out += ['## Findings', '',
        'Defects the checks found in the original tree and that were repaired '
        '(one `fix:` commit each; a check reports it again if it returns):', '']
for f in k:
    if f['status'] == 'fixed':
        out.append('- ' + f['what'])
out += ['', 'Recorded and not repaired:', '']
for f in k:
    if f['status'] != 'fixed':
        out.append('- property={}: {}'.format(f['property'], f['what']))
out += ['', '  Config arithmetic replaces a config constant by its number when '
        'the config is parsed; making inputs override it there would change '
        'what every config that reuses a name computes, which is a decision '
        'for the maintainers and not a small repair.', '']
out += ['## Planted bugs', '',
        'Each is a patch in seeded/ with a demonstration, passes the test '
        'suite, and was run against the checks (tools/seeds.py). "Also '
        'caught by" lists further checks that alarm, where the whole matrix '
        'was run.', '', '| id | property | needs | own check | also caught by '
        '|', '|---|---|---|---|---|']
R = {}
rp = os.path.join(V, 'tools', 'seed_results.json')
if os.path.exists(rp):
    R = json.load(open(rp))
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    sid = f.split(os.sep)[-2]
    m = json.load(open(f))
    r = R.get(sid, {})
    out.append('| {} | {} | {} | {} | {} |'.format(
        sid, m['property'], m['needs'], r.get(m['property'], 'not run'),
        ' '.join(sorted(x for x, y in r.items() if y == 'caught'
                        and x != m['property'])) or '-'))
tail = os.path.join(V, 'tools', 'design_tail.md')
if os.path.exists(tail):
    out += ['', open(tail).read().rstrip()]
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out) + '\n')
print(len(out), 'lines')
