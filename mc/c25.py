"""Every loader x every form of the path x every current folder (with decoy
files of the same names in it) x every event after loading (files changed,
removed, replaced, current folder changed) x every later use: the object is
what the files held when it was loaded, and loading again gives what they hold
then."""
import copy
import itertools
import os
import pickle
import shutil
from mc.common import *

# contents: version 1, version 2 (later change), version 3 (decoys)
def lib(v):
    return {'g.yaml': ('yaml', {'e': 'x * %d + w' % v, 'p_3MW': v,
                                's': {'t': 'x - %d' % v}}),
            'variables.yaml': ('yaml', {'w': 10.0 * v}),
            'sub': {'h.json': ('json', {'o': 'x + w * %d' % v}),
                    'variables.json': ('json', {'w': 0.5 * v})}}


def conf(v, eqn):
    return {'equation_directory': eqn, 'm': 'g::e * 2', 'n': 'sub::h::o',
            'p': './o.yaml::k', 'q': '../up.json::u', 'k': v}


X = 1.75


def want(kind, v):
    """values of version v"""
    e, t, o = X * v + 10.0 * v, X - v, X + 0.5 * v * v
    if kind == 'group':
        return {'e': X * v + 4.0, 's::t': t, 'p_3MW': v}
    if kind == 'vars':
        return {'w': 10.0 * v}
    if kind == 'dir':
        return {'g::e': e, 'g::s::t': t, 'sub::h::o': o}
    return {'m': e * 2, 'n': o, 'p': X * 3 + v, 'q': X / v, 'k': v}


LOADERS = ['group', 'vars', 'dir', 'cfg', 'group+', 'dir+', 'cfgdir']
FORMS = ['abs', 'rel', 'dot', 'updown', 'slashes', 'trail', 'link',
         'linkdir']
CWDS = ['root', 'parent', 'inside', 'decoy', 'deepdecoy']
EVENTS = ['none', 'change', 'remove', 'rename', 'chdir', 'vanish', 'reload']
USES = ['value', 'copy', 'pickle', 'again', 'defaults', 'print']
BOUNDS = {t: '{} loaders x {} forms of paths x {} current folders x {} events '
             'x {} uses (pairs of events in the thorough tier); links inside '
             'of the library'.format(len(LOADERS), len(FORMS), len(CWDS),
                                     len(EVENTS), len(USES))
          for t in ('quick', 'thorough')}
CASE_LIMIT = 20
TEXTS = ['flow', 'quoted', 'anchors', 'comments', 'crlf', 'docstart', 'bom',
         'folded', 'json-in-yaml', 'jsonspace', 'merge', 'order', 'notail']


def cases(tier):
    for a in itertools.product(LOADERS, FORMS, CWDS, EVENTS, USES):
        yield dict(zip(('l', 'f', 'c', 'e', 'u'), a), t='path')
    if tier == 'thorough':
        for a in itertools.product(LOADERS, FORMS, CWDS, EVENTS[1:],
                                   EVENTS[1:], USES):
            yield dict(zip(('l', 'f', 'c', 'e', 'e2', 'u'), a), t='path')
    for lk in ('file', 'folder', 'varfile', 'farfolder', 'dangling'):
        for l in ('dir', 'cfg'):
            for u in USES:
                yield {'t': 'link', 'lk': lk, 'l': l, 'u': u}
    for x in TEXTS:
        for l in ('group', 'dir', 'cfg', 'vars'):
            yield {'t': 'text', 'x': x, 'l': l}


def build(root, v):
    """root/work/lib, root/work/cfg/c.yaml, o.yaml, root/work/up.json"""
    w = os.path.join(root, 'work')
    for d in ('lib', 'cfg'):
        os.makedirs(os.path.join(w, d), exist_ok=True)
    write_tree(os.path.join(w, 'lib'), lib(v))
    write_tree(w, {'up.json': ('json', {'u': 'x / %d' % v, 'z': 'zz'})})
    write_tree(os.path.join(w, 'cfg'), {
        'o.yaml': ('yaml', {'k': 'x * 3 + %d' % v, 'bad': 'zz'})})
    return w


def form(path, f, root):
    """another way of writing an absolute path"""
    cwd = os.getcwd()
    if f == 'abs':
        return path
    if f == 'rel':
        return os.path.relpath(path, cwd)
    if f == 'dot':
        return './' + os.path.relpath(path, cwd)
    if f == 'updown':
        d, b = os.path.split(path)
        return os.path.join(d, '..', os.path.basename(d), '.', b)
    if f == 'slashes':
        return path.replace('/work/', '//work///')
    if f == 'trail':
        return path + '/' if os.path.isdir(path) else path
    if f == 'link':
        ln = os.path.join(os.path.dirname(path),
                          'lnk_' + os.path.basename(path))
        if not os.path.lexists(ln):
            os.symlink(os.path.basename(path), ln)
        return ln
    ln = os.path.join(root, 'viadir')
    if not os.path.lexists(ln):
        os.symlink('work', ln)
    return path.replace('/work/', '/viadir/')


def load(case, w, root):
    l, f = case['l'], case['f']
    c = os.path.join(w, 'cfg', 'c.yaml')
    if l in ('cfg', 'cfgdir'):
        eqn = os.path.join(w, 'lib')
        if l == 'cfgdir':
            eqn = form(eqn, f, root)
        v = case['v']
        write_tree(os.path.dirname(c), {'c.yaml': ('yaml', conf(v, eqn))})
        freeze(case, root)
        return NrwalConfig(c if l == 'cfgdir' else form(c, f, root))
    path = {'group': 'lib/g.yaml', 'group+': 'lib/g.yaml', 'dir': 'lib',
            'dir+': 'lib', 'vars': 'lib/variables.yaml'}[l]
    path = form(os.path.join(w, path), f, root)
    if l == 'group':
        return EquationGroup(path)
    if l == 'vars':
        return VariableGroup(path)
    if l == 'group+':
        return EquationGroup({'other': 'x'}) + path
    if l == 'dir+':
        d = os.path.join(root, 'plus')
        os.makedirs(d, exist_ok=True)
        write_tree(d, {'z.json': ('json', {'other': 'x'})})
        return EquationDirectory(d) + path
    return EquationDirectory(path)


KIND = {'group': 'group', 'vars': 'vars', 'dir': 'dir', 'cfg': 'cfg',
        'group+': 'group', 'dir+': 'dir', 'cfgdir': 'cfg'}


def values(obj, kind, keys, wdef=None):
    if kind == 'vars':
        return {k: obj[k] for k in keys}
    if kind == 'cfg':
        out = obj.evaluate({'x': X})
        return {k: config_value(obj, out, k) for k in keys}
    out = {}
    for k in keys:
        e = obj[k]
        env = {'x': X} if 'x' in e.variables else {}
        if kind == 'group' and 'w' in e.variables:
            env['w'] = 4.0
        out[k] = e.evaluate(**env)
    return out


def check(where, obj, kind, v, ctx):
    exp = want(kind, v)
    st, got = ctx.call(values, obj, kind, list(exp))
    if st == 'err':
        fail('{}: {!r}'.format(where, got))
    for k, x in exp.items():
        if not scalar_close(got[k], x, 1e-9):
            fail('{}: {} = {!r}, expected {!r}'.format(where, k, got[k], x))
    keys = {'group': ['e', 'p_3MW', 's'], 'vars': ['w'],
            'dir': ['g', 'sub', 'variables'],
            'cfg': ['k', 'm', 'n', 'p', 'q']}[kind]
    have = sorted(k for k in obj.keys() if k not in ('other', 'z'))
    if have != keys:
        fail('{}: holds {}, expected {}'.format(where, have, keys))
    ctx.outcome('as loaded')


def use(where, obj, kind, u, v, ctx):
    if u == 'copy':
        obj = copy.deepcopy(obj)
    elif u == 'pickle':
        obj = pickle.loads(pickle.dumps(obj))
    elif u == 'print':
        str(obj)
        repr(obj)
    elif u == 'again':
        check(where, obj, kind, v, ctx)
    elif u == 'defaults' and kind in ('group', 'dir'):
        obj.set_default_variables({'unused': 1.0})
    check(where, obj, kind, v, ctx)


def event(e, w, root):
    if e == 'change':
        build(root, 2)
    elif e == 'remove':
        for p in ('lib/g.yaml', 'lib/variables.yaml', 'cfg/o.yaml',
                  'up.json', 'lib/sub/h.json'):
            p = os.path.join(w, p)
            if os.path.exists(p):
                os.remove(p)
    elif e == 'rename':
        if os.path.isdir(w) and not os.path.isdir(w + '2'):
            os.rename(w, w + '2')
            os.chdir(root)
    elif e == 'chdir':
        os.chdir(os.path.join(root, 'decoys', 'deep'))
    elif e == 'vanish':
        os.chdir('/')
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(w + '2', ignore_errors=True)


def run(case, ctx):
    try:
        {'path': run_path, 'link': run_link, 'text': run_text}[case['t']](
            case, ctx)
    finally:
        os.chdir(ctx.scratch)


def place(case, root):
    dec = os.path.join(root, 'decoys')
    build(dec, 3)
    deep = os.path.join(dec, 'deep')
    build(deep, 3)
    for d in (dec, deep):
        write_tree(d, {'o.yaml': ('yaml', {'k': '99'}),
                       'c.yaml': ('yaml', {'k': 99}),
                       'g.yaml': ('yaml', {'e': '99'}),
                       'up.json': ('json', {'u': '99'})})
    c = case.get('c', 'root')
    os.chdir({'root': '/', 'parent': root, 'inside': os.path.join(
        root, 'work', 'lib'), 'decoy': dec, 'deepdecoy': deep}[c])


def freeze(case, root):
    """the dates of the files do not tell that they were replaced"""
    if case.get('e') == 'reload' and case['f'] != 'rel':
        for d, _, files in os.walk(root):
            for f in files:
                os.utime(os.path.join(d, f), (1e9, 1e9))
            os.utime(d, (1e9, 1e9))


def run_path(case, ctx):
    root = ctx.fresh_dir()
    w = build(root, 1)
    freeze(case, root)
    kind = KIND[case['l']]
    place(case, root)
    ctx.state(case)
    case = dict(case, v=1)
    obj = load(case, w, root)
    if case['e'] == 'reload':
        # what is there now, and not what was there at the first time
        build(root, 2)
        freeze(case, root)
        new = load(dict(case, v=2), w, root)
        use('{} loaded again'.format(case), new, kind, case['u'], 2, ctx)
        if case['u'] == 'value':
            build(root, 1)
            freeze(case, root)
            new = load(case, w, root)
            check('{} changed back'.format(case), new, kind, 1, ctx)
    else:
        event(case['e'], w, root)
        if 'e2' in case:
            event(case['e2'], w, root)
    use(str(case), obj, kind, case['u'], 1, ctx)


def run_link(case, ctx):
    root = ctx.fresh_dir()
    w = build(root, 1)
    place(case, root)
    lb = os.path.join(w, 'lib')
    far = os.path.join(root, 'far')
    os.mkdir(far)
    lk = case['lk']
    if lk == 'file':
        os.rename(os.path.join(lb, 'g.yaml'), os.path.join(far, 'g1.yaml'))
        os.symlink(os.path.join(far, 'g1.yaml'), os.path.join(lb, 'g.yaml'))
    elif lk == 'varfile':
        os.rename(os.path.join(lb, 'variables.yaml'),
                  os.path.join(far, 'v.yaml'))
        os.symlink('../../far/v.yaml', os.path.join(lb, 'variables.yaml'))
    elif lk == 'folder':
        os.rename(os.path.join(lb, 'sub'), os.path.join(w, 'elsewhere'))
        os.symlink('../elsewhere', os.path.join(lb, 'sub'))
    elif lk == 'farfolder':
        os.rename(os.path.join(lb, 'sub'), os.path.join(far, 'sub'))
        os.symlink(os.path.join(far, 'sub'), os.path.join(lb, 'sub'))
    else:
        os.symlink('nowhere', os.path.join(lb, 'readme.txt'))
    ctx.state(case)
    obj = load(dict(case, f='abs', v=1), w, root)
    use(str(case), obj, KIND[case['l']], case['u'], 1, ctx)


def spell(x, obj):
    """one mapping as text in another spelling -> (extension, text)"""
    plain = yaml.safe_dump(obj, sort_keys=False)
    if x == 'flow':
        return 'yaml', yaml.safe_dump(obj, default_flow_style=True)
    if x == 'quoted':
        return 'yml', ''.join('"{}": {}\n'.format(k, json.dumps(v))
                              for k, v in obj.items())
    if x == 'anchors':
        k = list(obj)[0]
        return 'yaml', ''.join('{}: {}{}\n'.format(
            a, '&anc ' if a == k else '', json.dumps(b))
            for a, b in obj.items())
    if x == 'comments':
        return 'yml', '# gr\u00fc\u00dfe\n\n' + plain.replace(
            '\n', '   # x: y + (1\n') + '# end\n\n'
    if x == 'crlf':
        return 'yaml', plain.replace('\n', '\r\n')
    if x == 'docstart':
        return 'yml', '---\n' + plain + '...\n'
    if x == 'bom':
        return 'yaml', '\ufeff' + plain
    if x == 'folded':
        return 'yaml', ''.join(
            '{}: >-\n    {}\n'.format(k, v.replace(' * ', ' *\n    '))
            if isinstance(v, str) else '{}: {}\n'.format(k, json.dumps(v))
            for k, v in obj.items())
    if x == 'json-in-yaml':
        return 'yaml', json.dumps(obj)
    if x == 'jsonspace':
        return 'json', '\n\n' + json.dumps(obj, indent=4) + '\n\n'
    if x == 'merge':
        return 'yml', '<<: {}\n'.format(json.dumps(obj))
    if x == 'order':
        return 'json', json.dumps({k: obj[k] for k in reversed(list(obj))})
    return 'yml', plain.rstrip('\n')


def run_text(case, ctx):
    root = ctx.fresh_dir()
    w = build(root, 1)
    x, l = case['x'], case['l']
    ctx.state(case)

    def put(path, obj):
        ext, text = spell(x, obj)
        old = os.path.splitext(path)[0]
        for e in ('.yaml', '.yml', '.json'):
            if os.path.exists(old + e):
                os.remove(old + e)
        with open(old + '.' + ext, 'w', newline='', encoding='utf8') as f:
            f.write(text)
        return old + '.' + ext
    lb = os.path.join(w, 'lib')
    g = put(os.path.join(lb, 'g.yaml'), lib(1)['g.yaml'][1])
    v = put(os.path.join(lb, 'variables.yaml'), lib(1)['variables.yaml'][1])
    put(os.path.join(lb, 'sub', 'h.json'), lib(1)['sub']['h.json'][1])
    if l == 'cfg':
        c = put(os.path.join(w, 'cfg', 'c.yaml'), conf(1, lb))
        put_o = os.path.join(w, 'cfg', 'o.yaml')
        if x in ('flow', 'anchors', 'crlf', 'bom', 'folded', 'json-in-yaml'):
            put(put_o, {'k': 'x * 3 + 1'})
        obj = NrwalConfig(c)
    else:
        obj = {'group': lambda: EquationGroup(g),
               'vars': lambda: VariableGroup(v),
               'dir': lambda: EquationDirectory(lb)}[l]()
    check(str(case), obj, l, 1, ctx)
