"""C16: determinism."""
import itertools
import json
import os
import subprocess
import sys

from mc.lib import queries, same

ID = 'C16'
RULE = ('a case is a set of files, a string hash seed and an order that the identity hashes of items are forced into; a fresh process '
        'builds the stash and answers every query; all answers (lists with their order, mappings with their order, fingerprint) must be '
        'those of the reference process')
ASSUMPTIONS = ['answers that are sets are compared as sets', 'the directory listing order is that of the file system']

SCEN = {
    'classes': (['foo_1.0.bb'], {
        'conf/layer.conf': '', 'foo_1.0.bb': 'inherit ka kb kc\nA = "1"\nPACKAGES = "x y z"\n', 'classes/ka.bbclass': 'A = "a"\n', 'classes/kb.bbclass': 'A:append = "b"\n',
        'classes-recipe/kc.bbclass': 'A = "c"\ninherit ka kd\n', 'classes/kd.bbclass': 'B = "${A}"\n'}),
    'removes': (['foo_1.0.bb'], {'foo_1.0.bb': 'A = "a b c d e"\nA:remove = "b d"\nA:remove:x = "c"\nA:append = " f g"\nB = "${A} ${C}"\nC ??= "1"\nC ?= "2"\n'
                                 'A:class-native = "q"\nA:x86 = "r s"\nPACKAGES =+ "p1 p2 p3"\nPACKAGES_DYNAMIC = "^a ^b ^c"\n'}),
    'packages': (['foo_1.0.bb'], {'foo_1.0.bb': 'PACKAGES =+ "${PN}-b ${PN}-a c"\nPACKAGE_BEFORE_PN = "q r"\nSRC_URI = "git://a;name=z git://b;name=y file://c;name=x"\n'
                                  'SRCREV_z = "1"\nFILES:${PN}-a = "/a"\n', 'one/f1': '', 'two/f2': '', 'two/f0': '', 'a/f3': ''}),
    'links': (['b.bb', 'a_1.bb', 'a_%.bbappend', 'a_1.%.bbappend', 'zz.bbappend', 'yy.bbappend', 'x.conf', 'w.conf'], {
        'conf/layer.conf': '', 'a_1.bb': 'require i.inc\nrequire j.inc\ninherit k l\n', 'b.bb': 'require j.inc\nrequire i.inc\ninherit l k\n', 'i.inc': 'A = "i"\nrequire n.inc\n', 'j.inc': 'A = "j"\n',
        'n.inc': 'A += "n"\ninherit m\n', 'classes/k.bbclass': 'K = "1"\n', 'classes/l.bbclass': 'L = "1"\n', 'classes/m.bbclass': 'M = "1"\n', 'a_%.bbappend': 'A = "p"\nrequire n.inc\n',
        'a_1.%.bbappend': 'A = "q"\n', 'zz.bbappend': 'A = "1"\n', 'yy.bbappend': 'A = "1"\n', 'x.conf': 'A = "1"\n', 'w.conf': 'A = "1"\n'}),
    'files': (['r/foo_1.0.bb', 'app/foo_1.%.bbappend', 'app2/foo_1.0.bbappend'], {
        'conf/layer.conf': '', 'r/foo_1.0.bb': 'SRC_URI = "file://a"\nrequire ../i/i.inc\n', 'app/foo_1.%.bbappend': 'SRC_URI += "file://b"\n', 'app2/foo_1.0.bbappend': 'SRC_URI:append = " file://c"\n',
        'i/i.inc': 'SRC_URI += "file://d"\n', **{f'{d}/{s}/{n}': '' for d in ('r', 'i', 'app', 'app2') for s in ('foo', 'files', 'foo-1.0', 'a') for n in ('same', 'other.patch', 'same.patch', 'Same')}}),
    'lines': (['b.bb', 'a.bb', 'c.bb'], {'a.bb': 'A = "1"\nB = "1"\nC = "1"\n', 'b.bb': 'A = "2"\nB = "2"\nC = "2"\n', 'c.bb': 'A = "3"\n# c\nC = "3"\n'}),
    'all': (['foo_1.0.bb'], {'foo_1.0.bb': 'A = "${@bb.utils.contains(\'a\', \'b\', \'c\', \'d\', d)} ${@x(d)}"\ninherit_defer a b c\nINHERIT += "d e f"\naddtask do_x before do_a do_b do_c after '
                            'do_d do_e do_f\ndo_x:append() {\n}\nexport E = "1"\nunset A\nA[a] = "1"\nEXPORT_FUNCTIONS do_a do_b do_c\ninclude_all a\ndef f():\n    pass\n\n# c\ninherit core-image packagegroup\n'}),
}
SCEN['names'] = (['r/foo_1.0.bb', '~/foo_%.bbappend', '$HOME/x.conf', '${A}/y.bb'], {
    'conf/layer.conf': '', 'r/foo_1.0.bb': 'include ${WHERE}/x.inc\ninclude ~/x.inc\nrequire $HOME/x.inc\nrequire ${HOME}/x.inc\ninherit ${KLASS} k$KLASS ~k\nINHERIT += "$KLASS"\nA = "${HOME} $HOME ~ ${PATH} ${A1} %HOME%"\n'
    'B = "${@d.getVar(\'HOME\')} ${@os.getenv(\'HOME\')} ${TMPDIR}"\nC = "${@oe.utils.read_file(\'${HOME}/x.txt\')}"\nD = "${@oe.utils.read_file(\'~/x.txt\')}"\nPN = "${LANG}"\n'
    'SRC_URI = "file://${HOME} file://~ $HOME ~/x"\nPACKAGES = "${USER} $USER"\nPACKAGES_DYNAMIC = "^${USER}$"\nexport PATH\nexport HOME = "~"\nMACHINE ?= "${MACHINE}"\nOVERRIDES = "${DISTRO}:${MACHINE}"\n'
    'E = "ä€😀"\n# ü\ndo_x() {\n    é\n}\nF = "${E} ${@oe.utils.read_file(\'${THISDIR}/u.txt\')}"\n',
    'r/u.txt': 'ä€', '~/foo_%.bbappend': 'A .= "x"\n', '$HOME/x.conf': 'X = "1"\n', '${A}/y.bb': 'Y = "1"\nrequire z.inc\n', '${A}/z.inc': 'Z = "1"\n', 'r/a/z.inc': 'Z = "2"\n', 'h/x.inc': 'H = "h"\n', 'h/x.txt': 'h',
    'h/foo_%.bbappend': 'A .= "y"\n', 'h/x.conf': 'X = "2"\n', 'classes/kk.bbclass': 'K = "1"\n', 'classes/k.bbclass': 'K = "2"\n', 'h/classes/k.bbclass': 'K = "3"\n'})
HASHES = ['id', 'up', 'down', 'same', 'mix1', 'mix2']
# variables, options and the directory of the process: ROOT is where the files are
ENVS = [
    {}, {'HOME': 'ROOT/h', 'WHERE': 'ROOT/h', 'KLASS': 'k', 'A': 'a', 'A1': 'a', 'B': 'b', 'C': 'c', 'K': 'k', 'X': 'x', 'PN': 'q', 'PV': '9', 'BPN': 'q', 'FILE': 'f', 'THISDIR': 'ROOT/h', 'MACHINE': 'm', 'DISTRO': 'd',
         'OVERRIDES': 'a:b', 'BBPATH': 'ROOT/h', 'LAYERDIR': 'ROOT/h', 'TOPDIR': 'ROOT/h', 'TMPDIR': 'ROOT/h', 'USER': 'root', 'SRC_URI': 'file://q', 'PACKAGES': 'p', 'FILESPATH': 'ROOT/h', 'BB_ENV_PASSTHROUGH_ADDITIONS': 'A', 'd': '1'},
    {'PYTHONOPTIMIZE': '2'}, {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'LC_ALL': 'C.utf8', 'PYTHONUTF8': '1'}, {'TZ': 'Asia/Tokyo', 'COLUMNS': '1', 'LINES': '1', 'TERM': 'dumb', 'CI': '1', 'NO_COLOR': '1', 'DEBUG': '1', 'VERBOSE': '1'},
    {'CWD': 'ROOT/h'}, {'CWD': '/', 'HOME': '/nowhere', 'TMPDIR': '/nowhere'}, {'PYTHONDEVMODE': '1', 'PYTHONUNBUFFERED': '1'}, {'PYTHONSAFEPATH': '1', 'PYTHONNOUSERSITE': '1', 'PYTHONINTMAXSTRDIGITS': '0'},
]
NSEED = {'quick': 24, 'thorough': 240}
BOUNDS = {
    'quick': f'{len(SCEN)} file sets x {NSEED["quick"]} string hash seeds x 1 item hash order, x {len(HASHES)} item hash orders x 4 seeds; {len(ENVS)} environments (variables, locale, interpreter options, working directory); all 6 iteration orders '
             'of three-element name sets are seen (see orders_seen)',
    'thorough': f'{len(SCEN)} file sets x {NSEED["thorough"]} string hash seeds x {len(HASHES)} item hash orders x {len(ENVS)} environments',
}


def cases(tier):
    for s in SCEN:
        for e in range(len(ENVS)):
            yield [s, 0, 'id', e]
        for h in HASHES:
            for seed in range(NSEED[tier] if h == 'id' or tier == 'thorough' else 4):
                yield [s, seed, h]
                if tier == 'thorough' and seed < 4:
                    for e in range(len(ENVS)):
                        yield [s, seed, h, e]


def render(case):
    return f'files {case[0]}, PYTHONHASHSEED={case[1]}, item hashes {case[2]}' + (f', environment {ENVS[case[3]]}' if len(case) > 3 else '')


def child(root, scen, mode):
    """in the fresh process: prints all answers"""
    import oelint_parser.cls_item as ci
    from oelint_parser.cls_stash import Stash
    cnt = itertools.count(1)

    def h(self):
        try:
            n = self._mc_n
        except AttributeError:
            n = self._mc_n = next(cnt)
        return {'up': n, 'down': 1 << 20 ^ -n, 'same': 7, 'mix1': (n * 2654435761) % 1021, 'mix2': (n * 40503 + 77) % 127}[mode]
    if mode != 'id':
        ci.Item.__hash__ = h

    def ids(items):
        return [(x.RealRaw, x.Origin, x.Line) for x in items]
    add, files = SCEN[scen]
    out = []
    for rnd in range(2):
        junk = [object() for _ in range(1000 * rnd)]
        st = Stash(quiet=True)
        for f in add:
            # relative names for the ones that look like a reference to the environment
            st.AddFile(f if scen == 'names' and f[0] in '~$' and os.getcwd() == root else os.path.join(root, f))
        st.Finalize()
        ask = [os.path.join(root, f) for f in files if f.endswith(('.bb', '.inc', '.bbclass', '.bbappend'))]
        res = []
        for n, q in queries(st, ask, ids, terms=('${A} ${B} ${PN}',)):
            v = q()
            res.append((n, list(v.items()) if isinstance(v, dict) else v))
        for x in st.GetItemsFor():
            res.append(('item', [(k, sorted(v) if isinstance(v, set) else v) for k, v in sorted(x.GetAttributes().items())]))
            # the order of attributes in the representation belongs to the fingerprint
            res.append(('repr', repr(x)))
        res.append(('fingerprint', st.FingerPrint))
        out.append(res)
        del junk
    order = ''.join(x for x in {'ka', 'kb', 'kc'})
    print(json.dumps([order, out]))


_ref = {}


def ask(env, scen, seed, mode, extra=None):
    for n, t in SCEN[scen][1].items():
        env.write(os.path.join(scen, n), t)
    env.write(os.path.join(scen, 'h', 'none'), '')
    e = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPYCACHEPREFIX=env.path('pyc'))
    e.pop('PYTHONDONTWRITEBYTECODE', None)
    if extra is not None:
        # nothing is inherited but the way to the interpreter
        e = {k: v for k, v in e.items() if k in ('PATH', 'PYTHONHASHSEED', 'PYTHONPYCACHEPREFIX', 'VIRTUAL_ENV')}
        e.update((k, v.replace('ROOT', env.path(scen))) for k, v in extra.items() if k != 'CWD')
    repo = os.environ.get('VERIF_REPO', '/repo')
    code = f'import sys; sys.path[:0] = [{repo!r}, {os.path.dirname(os.path.dirname(os.path.abspath(__file__)))!r}]; ' \
           f'import mc.c16; mc.c16.child({env.path(scen)!r}, {scen!r}, {mode!r})'
    p = subprocess.run([sys.executable, '-c', code], env=e, capture_output=True, text=True, timeout=120, cwd=(extra or {}).get('CWD', 'ROOT').replace('ROOT', env.path(scen)))
    if p.returncode:
        from mc.engine import Violation
        raise Violation(f'the process failed: {p.stderr[-600:]}')
    return json.loads(p.stdout)


def run(case, env):
    from mc.engine import Obs
    scen, seed, mode, *more = case
    extra = ENVS[more[0]] if more else None
    if scen not in _ref:
        _ref[scen] = ask(env, scen, 0, 'id')[1][0]
    order, out = ask(env, scen, seed, mode, extra)
    for rnd, res in enumerate(out):
        for (n1, v1), (n2, v2) in zip(res, _ref[scen]):
            same(f'{n1} (seed {seed}, item hashes {mode}, environment {extra}, stash {rnd + 1} in the process)', v1, v2)
        same('number of answers', len(res), len(_ref[scen]))
    return Obs(states=[(scen, order, mode, *more)], transitions=len(out[0]) * 2, outcome=(scen, order, mode, *more), sample=order)


def finish(tier, stats, env):
    return {'orders_seen': 'distinct (file set, iteration order of three names, item hash order) combinations are counted as states'}
