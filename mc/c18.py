"""C18: constant edits."""
import copy
import itertools
import json

from mc.lib import LARGE, SIZES, same, words_upto

ID = 'C18'
RULE = ('a case is a sequence of edits of a constant database (every sequence over the listed edits up to the depth); after each edit every '
        'getter and every path is compared with a nested-dictionary reference model, as are the dictionaries of the caller and three other '
        'databases; the dictionaries of the caller are then scribbled on and everything is compared again')
ASSUMPTIONS = ['edits whose shape does not fit the database (a list where it has a dictionary, a scalar added to an existing scalar, ...) are not generated',
               'lists returned by getters are not modified by the caller']

SMALL = {
    'functions': {'known': [], 'order': ['a', 'b', 'a', 'c']},
    'replacements': {'mirrors': {'M1': 'm1', 'M2': 'm2'}, 'distros': ['d1', 'd2'], 'machines': []},
    'variables': {'known': {}},
    'images': {'known-classes': ['i'], 'known-variables': ['v', 'w']},
    'sets': {'base': {'P': '1', 'Q': '2'}},
    'ignore': {'classes': [], 'include': ['x']},
}
GETTERS = {'FunctionsKnown': 'functions/known', 'FunctionsOrder': 'functions/order', 'MirrorsKnown': 'replacements/mirrors',
           'VariablesKnown': 'variables/known', 'DistrosKnown': 'replacements/distros', 'MachinesKnown': 'replacements/machines',
           'ImagesClasses': 'images/known-classes', 'ImagesVariables': 'images/known-variables', 'SetsBase': 'sets/base',
           'ClassIgnore': 'ignore/classes', 'IncludeIgnore': 'ignore/include'}
PAY = [
    {'functions': {'order': ['a']}},
    {'functions': {'order': ['d', 'b'], 'known': ['k']}},
    {'replacements': {'mirrors': {'M3': 'm3'}}},
    {'replacements': {'mirrors': {'M1': 'mx'}}},
    {'replacements': {'mirrors': ['M2', 'M9']}},
    {'replacements': {'distros': ['d1', 'd3'], 'machines': ['m']}, 'sets': {'base': {'R': '3'}}},
    {'custom': {'x': {'y': ['1']}}},
    {'custom': {'x': {'y': ['2', '1'], 'z': 's'}}},
    {'custom': {'x': {}}, 'ignore': {}},
    {'ignore': {'classes': ['c'], 'include': ['x', 'y']}, 'images': {'known-classes': [], 'known-variables': ['v']}},
    {'variables': {'known': {'V': 'v'}}},
    {},
    {'images': {'known-variables': ['w', 'v']}},
    {'custom': ['x'], 'sets': ['base', 'nope']},
]
OPS = ['AddConstants', 'RemoveConstants', 'OverrideConstants']
# lists of keys with dictionaries below can just be removed
STEPS = [s for s in itertools.product(range(3), range(len(PAY))) if s[0] == 1 or s[1] != len(PAY) - 1]
DEPTH = {'quick': 3, 'thorough': 4}
BOUNDS = {t: f'all sequences of length <= {d} over {len(STEPS)} edits (3 operations, {len(PAY)} dictionaries), from a small database; all sequences of length <= 2 '
             'from the default database; each edit dictionary is the same object every time and a fresh one; lists, dictionaries, paths and histories of up to 129 (600)' for t, d in DEPTH.items()}


def cases(tier):
    d = DEPTH[tier]
    yield ['small', []]
    for s in range(len(STEPS)):
        yield ['default', [s]]
    for s in itertools.product(range(len(STEPS)), repeat=2):
        yield ['default', list(s)]
    # a case covers all sequences with this prefix
    for p in itertools.product(range(len(STEPS)), repeat=d - 1 if d > 3 else 1):
        yield ['small', list(p)]
    for n in (LARGE if tier == 'thorough' else SIZES):
        yield ['big', [n]]
    yield ['file', []]
    yield ['lone', []]


def render(case):
    if case[0] == 'big':
        return f'lists, dictionaries, paths and histories of {case[1][0]}'
    return f'{case[0]} database; ' + '; '.join(f'{OPS[STEPS[s][0]]}({PAY[STEPS[s][1]]})' for s in case[1])


class Misfit(Exception):
    pass


def step(db, op, pay):
    """reference model: a new database"""
    res = dict(db)
    for k, v in pay.items():
        if op == 2:
            res[k] = step(db[k], op, v) if isinstance(v, dict) and isinstance(db.get(k), dict) else copy.deepcopy(v)
        elif k not in db:
            if op == 0:
                res[k] = copy.deepcopy(v)
        elif isinstance(v, dict):
            if not isinstance(db[k], dict):
                raise Misfit()
            res[k] = step(db[k], op, v)
        elif op == 0:
            if not (isinstance(db[k], list) and isinstance(v, list)):
                raise Misfit()
            res[k] = db[k] + v
        elif isinstance(v, list):
            if isinstance(db[k], list):
                res[k] = [x for x in db[k] if x not in v]
            elif isinstance(db[k], dict):
                res[k] = {a: b for a, b in db[k].items() if a not in v}
            else:
                raise Misfit()
        else:
            if not isinstance(db[k], str):
                raise Misfit()
            del res[k]
    return res


def paths(db, pre=''):
    for k, v in db.items():
        yield pre + k, v
        if isinstance(v, dict):
            yield from paths(v, pre + k + '/')


def lookup(db, path):
    for p in path.split('/'):
        db = db.get(p, {}) if isinstance(db, dict) else {}
    return db


def compare(what, db, ref):
    for g, p in GETTERS.items():
        same(f'{what}: {g}', getattr(db, g), lookup(ref, p))
    for p, v in paths(ref):
        same(f'{what}: path {p}', db.GetByPath(p), v)
        same(f'{what}: path {p}/', db.GetByPath(p + '/'), v)
        same(f'{what}: path {p}/nope', db.GetByPath(p + '/nope'), {})
        same(f'{what}: path {p}/nope/nope', db.GetByPath(p + '/nope/nope'), {})
    for p in ('nope', 'nope/nope', '', 'custom/x/q'):
        same(f'{what}: path {p!r}', db.GetByPath(p), lookup(ref, p) if p else {})


def scribble(x):
    if isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x['scribbled'] = 'x'
        x.pop(next(iter(x)), None)
    elif isinstance(x, list):
        x.insert(0, 'scribbled')
        x.append('a')


def full(db, ref):
    """all paths are reachable from the top level keys"""
    return {k: db.GetByPath(k) for k in ref}


def sequence(env, start, seq, mode):
    """mode: fresh dictionaries per edit that get scribbled on / the same objects over and over"""
    C = env.constants.Constants
    init = copy.deepcopy(start)
    db = C(init)
    other = C(init)
    default = C()
    untouched = full(default, env._db_keys)
    same('default database', untouched, env._db_keys)
    ref = copy.deepcopy(start)
    pays = copy.deepcopy(PAY)
    n = 0
    kept = []
    for s in seq:
        op, p = STEPS[s]
        try:
            new = step(ref, op, PAY[p])
        except Misfit:
            return n, None
        arg = pays[p] if mode == 'same' else copy.deepcopy(PAY[p])
        getattr(db, OPS[op])(arg)
        same(f'dictionary of the caller after {OPS[op]}', arg, PAY[p])
        ref = new
        n += 1
        if mode == 'scribble':
            kept.append(arg)
    same(f'edited database ({mode})', full(db, ref), ref)
    if mode == 'scribble':
        for x in kept:
            scribble(x)
        scribble(init)
        same('database after the dictionaries of the caller changed', full(db, ref), ref)
    same('other database', full(other, start), start)
    same('default database', full(default, untouched), env._db_keys)
    same('fresh default database', full(C(), untouched), env._db_keys)
    same('top level key', db.GetByPath('custom'), ref.get('custom', {}))
    compare('edited database', db, ref)
    compare('other database', other, start)
    # what is in there is usable for another database
    db2 = C(full(db, ref))
    before = copy.deepcopy(ref)
    for op in range(3):
        getattr(db2, OPS[op])({'functions': {'order': ['zz', 'a']}, 'sets': {'base': {'P2': 'x'}}})
    same('edited database after edits of a copy', full(db, ref), before)
    return n, ref


def big(n, env):
    """long lists, wide and deep dictionaries, many edits"""
    C = env.constants.Constants
    names = [f'n{i}' for i in range(n)]
    start = copy.deepcopy(SMALL)
    start['functions']['order'] = names + names[::2]
    start['sets']['base'] = {x: f'v{x}' for x in names}
    deep = 'leaf'
    for x in reversed(names):
        deep = {x: deep, 'list': ['a', x]}
    start['deep'] = deep
    ref = start
    db = C(copy.deepcopy(start))
    keep = C(copy.deepcopy(start))
    low = ['q']
    for x in reversed(names[:-1]):
        low = {x: low} if not isinstance(low, list) else {x: {'list': low}}
    edits = [(0, {'functions': {'order': names, 'known': names}}), (0, {'sets': {'base': {x + 'b': 'x' for x in names}}}), (1, {'functions': {'order': names[1::2]}}),
             (1, {'sets': {'base': names[::3]}}), (0, {'deep': low}), (1, {'deep': low}), (2, {'deep': low}), (2, {'functions': {'order': names[::-1]}}),
             (2, {'images': {'known-classes': names}}), (1, {'images': {'known-classes': names[1:]}})]
    edits += [(0, {'ignore': {'classes': [x]}}) for x in names] + [(1, {'ignore': {'classes': [x]}}) for x in names[1::2]]
    edits += [(0, {'replacements': {'mirrors': {x: x + 'm'}}}) for x in names] + [(2, {'replacements': {'mirrors': {x: x + 'o'}}}) for x in names[::2]]
    edits += [(1, {'replacements': {'mirrors': [x]}}) for x in names[::4]]
    for i, (op, pay) in enumerate(edits):
        arg = copy.deepcopy(pay)
        ref = step(ref, op, pay)
        getattr(db, OPS[op])(arg)
        same('dictionary of the caller', arg, pay)
        if i < 12 or i % 8 == 0:
            same(f'database after edit {i} with {n} names', full(db, ref), ref)
            for g, p in GETTERS.items():
                same(f'{g} after edit {i} with {n} names', getattr(db, g), lookup(ref, p))
    same(f'database after all edits with {n} names', full(db, ref), ref)
    compare('edited database', db, ref)
    same('other database', full(keep, start), start)
    return len(edits)


def run(case, env):
    from mc.engine import Obs
    how, pre = case
    states, n = [], 0
    if how == 'big':
        n = big(pre[0], env)
        return Obs(states=[('big', pre[0])], transitions=n, outcome=('big', pre[0]))
    if how == 'file':
        import contextlib
        import io
        C = env.constants.Constants
        p = env.write('db.json', json.dumps(SMALL))
        compare('from a file', C(p), SMALL)
        err = io.StringIO()
        with contextlib.redirect_stderr(err):
            for bad in (env.path('nope.json'), env.write('bad.json', '{'), env.write('empty.json', '')):
                compare('unusable file', C(bad), {})
        same('singleton', full(env.CONSTANTS, env._db_keys), env._db_keys)
        return Obs(states=['file'], transitions=4, outcome='file')
    if how == 'lone':
        # every getter reads its own path and nothing else
        C = env.constants.Constants
        for g, p in GETTERS.items():
            for hole in (False, True):
                ref = {}
                for p2 in GETTERS.values():
                    a, b = p2.split('/')
                    v = lookup(SMALL, p2)
                    if (p2 == p) == hole:
                        v = type(v)()
                    elif not v:
                        v = {'kk': 'vv'} if isinstance(v, dict) else ['kk']
                    ref.setdefault(a, {})[b] = v
                compare(f'{"all but" if hole else "only"} {p}', C(copy.deepcopy(ref)), ref)
                del ref[p.split('/')[0]]
                compare(f'no {p}', C(copy.deepcopy(ref)), ref)
                n += 2
        return Obs(states=['lone'], transitions=n, outcome='lone')
    if how == 'default':
        seqs = [pre]
        start = env._db_keys
    else:
        start = SMALL
        if not pre:
            seqs = [[]]
        elif len(pre) == 1:
            seqs = [pre + list(s) for s in words_upto(range(len(STEPS)), 2)]
        else:
            seqs = [pre + list(s) for s in words_upto(range(len(STEPS)), 1)]
    for s in seqs:
        for mode in ('scribble', 'same'):
            k, ref = sequence(env, start, s, mode)
            n += k
        if ref is not None:
            states.append(json.dumps(ref, sort_keys=True))
    return Obs(states=states, transitions=n, outcome=(how, pre, len(states), states[-1:]))
