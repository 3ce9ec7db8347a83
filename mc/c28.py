"""C28: distros and machines of a file's layer."""
import itertools
import os

from mc.lib import LARGE, SIZES, only, same

ID = 'C28'
RULE = ('a case is a set of configuration files (real ones and look-alikes) over four nested or neighbouring directories, a choice of which of them are layers, and '
        'the files to be added; or a sequence of additions over two stashes; or a list of overrides; the reference reads the layout itself; observed are the known '
        'distros and machines after every addition and the entries of every variable and function')
ASSUMPTIONS = ['layouts have no symbolic links and do not change after the first addition', 'function overrides start at the first modifier or class override '
               'unless the function is a known task']

DIRS = {'L': 'w/meta-x', 'N': 'w/meta-x/sub', 'O': 'w', 'X': 'w/other'}
# path below a layer -> kind (d, m, - for look-alikes)
CONFS = [('conf/distro/d1.conf', 'd'), ('conf/machine/m1.conf', 'm'), ('conf/distro/d.two.conf', 'd'), ('conf/machine/m_2.conf', 'm'),
         ('conf/distro/include/di.conf', '-'), ('conf/distro/dx.inc', '-'), ('conf/machine/include/mi.conf', '-'), ('conf/d0.conf', '-'),
         ('distro/dd.conf', '-'), ('conf/distro.conf', '-'), ('conf/machine/mm.bb', '-'), ('conf/machine/same.conf', 'm'), ('conf/distro/same.conf', 'd'),
         ('conf/machine/poky.conf', 'm'), ('conf/machine/m.3.x.conf', 'm'), ('conf/distro/UP-3.conf', 'd'), ('conf/machines/mx.conf', '-'), ('machine/md.conf', '-'),
         ('conf/distros/dy.conf', '-'), ('conf/distro-x/dz.conf', '-'), ('conf/machine.d/mz.conf', '-'), ('conf/xdistro/dw.conf', '-')]
FILES = ['r_1.0.bb', 'a/b/c/r.inc', 'conf/x.conf', 'conf/machine/m1.conf', 'rec/r_%.bbappend', 'classes/k.bbclass', 'conf/layer.conf']
# files and directories that mean nothing to the search for the layer
DECOYS = ['conf/local.conf', 'conf/bblayers.conf', 'conf/templateconf.cfg', 'conf/site.conf', 'conf/auto.conf', 'conf/layers.conf', 'conf/layer.conf.sample', 'layer.conf', '.git/config', '.git',
          '.hg/x', '.templateconf', 'README', 'COPYING.MIT', 'oe-init-build-env', 'conf/machine/zz.conf', 'conf/distro/zz.conf', 'recipes-x/r/r.bb', 'classes/k.bbclass', 'setup.py',
          'meta-x', 'build/conf/local.conf', 'Conf/layer.conf', 'conf/Layer.conf', 'bitbake-cookerdaemon.log', 'kas.yml', 'conf/multiconfig/a.conf', '.repo/x']
LAYERS = ['', 'L', 'N', 'O', 'LN', 'LO', 'NO', 'LX', 'LNO', 'LNOX']
ROOTS = ['', 'w[1]/', 'a*b/', 'x?y z/']
OVS = ['append', 'prepend', 'remove', 'class-native', 'class-nativesdk', 'class-cross', 'class-target', 'machine', 'poky', 'dd1', 'qemux', 'mm1', 'a-b', 'poky-tiny',
       'nodistro', 'p', 'class', 'poky-x', '${PN}']
# overrides that are nothing special (the first ones are)
WORDS = ['qemuall', 'qemux86', 'qemux86-64', 'qemuarm', 'qemuarm64', 'raspberrypi4-64', 'beaglebone-yocto', 'genericx86-64', 'x86', 'x86-64', 'arm', 'aarch64', 'armv7a', 'mips', 'powerpc', 'riscv64', 'linux', 'linux-gnueabi', 'mingw32',
         'darwin', 'baremetal', 'libc-glibc', 'libc-musl', 'libc-newlib', 'task-compile', 'task-install', 'forcevariable', 'virtclass-native', 'virtclass-multilib-lib32', 'toolchain-clang', 'toolchain-gcc', 'runtime-llvm', 'local',
         'pn-foo', 'class', 'class-devupstream', 'class-crosssdk', 'class-cross-canadian', 'class-nativ', 'xclass-native', 'native', 'nativesdk', 'cross', 'target', 'build', 'host', 'sdk', 'distro', 'defaultsetup', 'gnu', 'all', 'any',
         'none', 'machines', 'machine-x', 'mymachine', 'appends', 'prepended', 'removed', 'add', 'del', 'set', 'override', 'default', 'weak', 'dev', 'dbg', 'doc', 'staticdev', 'src', 'locale', 'ptest', 'poky-sota', 'pokyx', 'xpoky',
         'poky-altcfgx', 'nodistrox', 'distroless', 'tiny', 'stm32mp', 'imx8', 'mx8-generic-bsp', 'tegra', 'rpi', 'sunxi', 'k3', 'zynqmp', 'intel-corei7-64', 'a', '0', '9x', 'df', 'mlprefix', 'multilib', 'lib32', 'user', 'group']
CHARS = [chr(i) for i in range(32, 127) if chr(i) != '/'] + ['\xe9', '\xdc', '\u0130']
FORMS = ['{}', 'x{}', '{}x', 'x{}x', 'conf.{}', 'X{}9']
DEPTH = {'quick': 2, 'thorough': 3}
HIST = {'quick': 3, 'thorough': 4}
BOUNDS = {
    'quick': f'all sets of <= 3 of {len(CONFS)} configuration files in every one of {len(DIRS)} directories x {len(LAYERS)} choices of layers x {len(FILES)} files; {len(DECOYS)} look-alikes x 4 depths x 4 places; {len(WORDS)} ordinary overrides x 9 lists; '
             f'all sequences of <= {HIST["quick"]} additions over two stashes; all lists of <= {DEPTH["quick"]} of {len(OVS)} overrides in both styles for variables, '
             f'tasks and functions, names with each of {len(CHARS)} characters in {len(FORMS)} forms, with the layer added before, in between, after or never; up to 129 distros and machines, 60 directories below the layer',
    'thorough': f'as quick, with sets of <= 4 configuration files, histories of {HIST["thorough"]} and lists of <= {DEPTH["thorough"]} overrides',
}


def cases(tier):
    deep = tier == 'thorough'
    n = len(CONFS)
    for k in range(0, 5 if deep else 4):
        for cs in itertools.combinations(range(n), k):
            for lay in LAYERS:
                if k < 2 or deep or lay in ('L', 'LNOX') or (k == 2 and lay in ('N', 'LO')):
                    yield ['scan', list(cs), lay, 0]
    for lay in LAYERS:
        for r in range(len(ROOTS)):
            yield ['scan', list(range(n)), lay, r]
    for i in range(len(DECOYS)):
        for depth in range(4):
            for deco in range(4):
                yield ['decoy', i, depth, deco]
    for n in (LARGE if deep else SIZES):
        yield ['big', n]
    for c in CHARS:
        for form in range(len(FORMS)):
            for side in range(2):
                yield ['name', c, form, side]
    ops = len(HOPS)
    for k in range(1, HIST[tier] + 1):
        for h in itertools.product(range(ops), repeat=k):
            yield ['hist', list(h)]
    for w in range(len(WORDS)):
        for j in range(9):
            yield ['word', w, j]
    for k in range(0, DEPTH[tier] + 1):
        for ov in itertools.product(range(len(OVS)), repeat=k):
            yield ['entry', list(ov)]


def render(case):
    if case[0] == 'scan':
        return f'{[CONFS[i][0] for i in case[1]]} in all of {DIRS}, layers {case[2]!r}, below {ROOTS[case[3]]!r}'
    if case[0] == 'word':
        return ':'.join(around(case))
    if case[0] == 'name':
        return f'{["distro", "machine"][case[3]]} named {FORMS[case[2]].format(case[1])!r}'
    if case[0] == 'big':
        return f'{case[1]} distros and machines, {min(case[1], 60)} directories below the layer'
    if case[0] == 'decoy':
        return f'{DECOYS[case[1]]} in each of the {case[2]} directories between file and layer'
    if case[0] == 'hist':
        return ' ; '.join(repr(HOPS[i]) for i in case[1])
    return ':'.join(OVS[i] for i in case[1])


def known(env):
    return (set(env.CONSTANTS.DistrosKnown), set(env.CONSTANTS.MachinesKnown))


def names(root, layer, confs):
    """reference: distros and machines of a layer"""
    d, m = set(), set()
    for c in confs:
        path, kind = CONFS[c]
        # the directory is part of the name so that confusing two layers is visible
        nm = tag(layer, path)
        if kind == 'd':
            d.add(nm)
        elif kind == 'm':
            m.add(nm)
    return d, m


def tag(layer, path):
    b = os.path.basename(path)[:-len('.conf')] if path.endswith('.conf') else os.path.basename(path)
    return b + layer.lower()


def conf_path(layer, c):
    path = CONFS[c][0]
    d, b = os.path.split(path)
    stem, ext = os.path.splitext(b)
    return os.path.join(d, stem + layer.lower() + ext)


def owner(lay, d):
    """the layer directory d belongs to"""
    while d:
        for k in lay:
            if DIRS[k] == d:
                return k
        d = os.path.dirname(d)
    return None


# additions: (stash, file)
HOPS = [(0, 'w/meta-x/r1.bb'), (0, 'w/other/r2.bb'), (0, 'w/meta-x/sub/a/r3.bb'), (0, 'w/none/r4.bb'), (1, 'w/meta-x/q/r1.inc'), (1, 'w/other/r_%.bbappend'),
        (0, 'w/meta-x/missing.bb'), (0, 'w/meta-x/inc-other.bb'), (1, 'w/none/inc-sub.bb'), (1, 'query'), (0, 'finalize'), (0, 'w/none/inherit.bb')]
HTEXT = {'w/meta-x/inc-other.bb': 'require ../other/p.inc\n', 'w/none/inc-sub.bb': 'include ../meta-x/sub/p.inc\n', 'w/none/inherit.bb': 'inherit k\n'}
HOWN = {'w/meta-x/r1.bb': 'L', 'w/other/r2.bb': 'X', 'w/meta-x/sub/a/r3.bb': 'N', 'w/none/r4.bb': '', 'w/meta-x/q/r1.inc': 'L', 'w/other/r_%.bbappend': 'X',
        'w/meta-x/inc-other.bb': 'LX', 'w/none/inc-sub.bb': 'N', 'w/none/inherit.bb': '', 'w/meta-x/missing.bb': '?'}


def run(case, env):
    env.wipe()
    env.reset_constants()
    try:
        return {'big': big, 'name': name, 'decoy': decoy, 'scan': scan, 'hist': hist, 'entry': entry, 'word': entry}[case[0]](case, env)
    finally:
        env.reset_constants()


def scan(case, env):
    from mc.engine import Obs
    _, confs, lay, r = case
    root = ROOTS[r]
    base = known(env)
    for k, d in DIRS.items():
        if k in lay:
            env.write(f'{root}{d}/conf/layer.conf', '')
        for c in confs:
            env.write(f'{root}{d}/{conf_path(k, c)}', 'A = "1"\n')
    n = 0
    states = []
    for k, d in DIRS.items():
        own = owner(lay, d)
        want = names(root, own, confs) if own else (set(), set())
        for f in FILES if len(confs) < 2 or r or case[1] == list(range(len(CONFS))) else FILES[n % 5:n % 5 + 2]:
            env.reset_constants()
            if f == 'conf/layer.conf' and k not in lay:
                continue
            fn = f.replace('m1.conf', f'm1{k.lower()}.conf')
            p = env.path(f'{root}{d}/{fn}')
            if not os.path.exists(p):
                if f.startswith('conf/machine'):
                    continue
                env.write(f'{root}{d}/{fn}', 'A = "1"\n')
            st = env.stash()
            st.AddFile(p)
            got = known(env)
            same(f'distros after adding {d}/{fn}', sorted(got[0] - base[0]), sorted(want[0] - base[0]))
            same(f'machines after adding {d}/{fn}', sorted(got[1] - base[1]), sorted(want[1] - base[1]))
            same('known before', (base[0] - got[0], base[1] - got[1]), (set(), set()))
            st.Finalize()
            st.ExpandVar(filename=p)
            same('known distros and machines after queries', known(env), got)
            n += 1
            states.append((k, own, tuple(sorted(want[0])), tuple(sorted(want[1]))))
    return Obs(states=states, transitions=n, outcome=(lay, tuple(confs), r))


def decoy(case, env):
    """a look-alike in the directories between file and layer, in the layer and above it"""
    from mc.engine import Obs
    _, i, depth, where = case
    base = known(env)
    layer = 'top/lay'
    mid = [layer + ''.join(f'/s{k}' for k in range(d + 1)) for d in range(depth)]
    env.write(f'{layer}/conf/layer.conf', '')
    env.write(f'{layer}/conf/distro/d1.conf', '')
    env.write(f'{layer}/conf/machine/m1.conf', '')
    spots = [mid, [layer], ['top'], [*mid, layer, 'top']][where]
    for s in spots:
        if os.path.lexists(env.path(f'{s}/{DECOYS[i]}')) or s == layer and DECOYS[i].endswith('/zz.conf'):
            continue
        env.write(f'{s}/{DECOYS[i]}', 'ZZ = "1"\n')
    f = env.write((mid[-1] if mid else layer) + '/r_1.0.bb', 'A = "1"\nrequire conf/distro/none.inc\n')
    st = env.stash()
    st.AddFile(f)
    got = known(env)
    same('distros', sorted(got[0] - base[0]), ['d1'])
    same('machines', sorted(got[1] - base[1]), ['m1'])
    same('layer of the file', st.GetLayerRoot(f).rstrip('/'), env.path(layer))
    return Obs(states=[tuple(case)], transitions=1, outcome=tuple(case))


def big(case, env):
    """many of them, deep below the layer"""
    from mc.engine import Obs
    n = case[1]
    base = known(env)
    env.write('top/lay/conf/layer.conf', '')
    for i in range(n):
        env.write(f'top/lay/conf/distro/dd{i}.conf', '')
        env.write(f'top/lay/conf/machine/mm{i}.conf', '')
        env.write(f'top/lay/conf/distro/include/x{i}.conf', '')
    f = env.write('top/lay' + ''.join(f'/s{i}' for i in range(min(n, 60))) + '/r_1.0.bb', f'A:dd{n - 1} = "1"\nA:x:mm0:dd{n // 2}:dd{n} = "1"\n')
    st = env.stash()
    st.AddFile(f)
    got = known(env)
    same(f'{n} distros', got[0] - base[0], {f'dd{i}' for i in range(n)})
    same(f'{n} machines', got[1] - base[1], {f'mm{i}' for i in range(n)})
    same('entries', [(x.GetDistroEntry(), x.GetMachineEntry()) for x in only(st.GetItemsFor(), 'Variable')], [(f'dd{n - 1}', f'dd{n - 1}'), (f'dd{n // 2}', 'x')])
    return Obs(states=[n], transitions=4, outcome=n)


def name(case, env):
    """names with every character"""
    from mc.engine import Obs
    _, c, form, side = case
    n = FORMS[form].format(c)
    if n[0] == '.':
        # hidden
        return Obs(states=[], transitions=0, outcome=None)
    env.wipe()
    base = known(env)
    env.write('lay/conf/layer.conf', '')
    env.write(f'lay/conf/{["distro", "machine"][side]}/{n}.conf', '')
    f = env.write('lay/r/r_1.0.bb', 'A = "1"\n')
    st = env.stash()
    st.AddFile(f)
    got = known(env)
    same('distros', got[0] - base[0], set() if side else {n} - base[0])
    same('machines', got[1] - base[1], {n} - base[1] if side else set())
    if c.isascii() and (c.isalnum() or c in '-+'):
        i = st.AddFile(env.write('lay/r/s_1.0.bb', f'A:{n} = "1"\ndo_x:append:{n}() {{\n    :\n}}\n'))
        if i[0].SubItems == [n]:
            same('entries', [(x.GetDistroEntry(), x.GetMachineEntry()) for x in i], [('' if side and n not in base[0] else n, n)] * 2)
    return Obs(states=[n], transitions=4, outcome=(n, side))


def hist(case, env):
    from mc.engine import Obs
    confs = [0, 1, 4, 12]
    for k in 'LNX':
        env.write(f'{DIRS[k]}/conf/layer.conf', '')
        for c in confs:
            env.write(f'{DIRS[k]}/{conf_path(k, c)}', 'A = "1"\n')
    for f in HOWN:
        if HOWN[f] != '?':
            env.write(f, HTEXT.get(f, 'A:d1l = "1"\n'))
    env.write('w/other/p.inc', 'B = "1"\n')
    env.write('w/meta-x/sub/p.inc', 'B = "1"\n')
    env.write('w/meta-x/sub/classes/k.bbclass', 'B = "1"\n')
    base = known(env)
    st = [env.stash(), env.stash(new_style_override_syntax=True)]
    seen = ''
    states = []
    for i in case[1]:
        s, op = HOPS[i]
        if op == 'query':
            st[s].ExpandVar()
            for x in st[s].GetItemsFor():
                st[s].GetLayerRoot(x.Origin)
        elif op == 'finalize':
            st[s].Finalize()
        elif HOWN[op] == '?':
            got = known(env)
            st[s].AddFile(env.path(op))
            # a file that does not exist may or may not count, its layer's names are right either way
            if known(env) != got:
                seen += 'L'
        else:
            st[s].AddFile(env.path(op))
            seen += HOWN[op]
        want = (set(base[0]), set(base[1]))
        for k in set(seen):
            d, m = names('', k, confs)
            want[0].update(d)
            want[1].update(m)
        same(f'known after {op}', tuple(sorted(x) for x in known(env)), tuple(sorted(x) for x in want))
        states.append(tuple(sorted(set(seen))))
        for q in st:
            for v in only(q.GetItemsFor(classifier='Variable'), 'Variable'):
                if v.VarName == 'A':
                    same(f'distro entry after {op}', v.GetDistroEntry(), 'd1l' if 'L' in seen else '')
                    same(f'machine entry after {op}', v.GetMachineEntry(), 'd1l')
    return Obs(states=states, transitions=len(case[1]), outcome=(case[1], tuple(states)))


def around(case):
    w = WORDS[case[1]]
    return [[w], [w, 'append'], ['append', w], ['poky', w], [w, 'poky'], ['class-native', w], ['machine', w], [w, 'remove', 'dd1'], ['machine', 'class-target', w, 'qemux']][case[2]]


MODIFIER = {'append', 'prepend', 'remove', 'class-native', 'class-nativesdk', 'class-cross', 'class-target', 'machine'}
MARK = MODIFIER - {'machine'}
DEFAULT = {'nodistro', 'poky-altcfg', 'poky-bleeding', 'poky-tiny', 'poky'}


def entries(ov, distros):
    return (next((x for x in ov if x in distros), ''), next((x for x in ov if x not in MODIFIER), ''))


def entry(case, env):
    from mc.engine import Obs
    ov = around(case) if case[0] == 'word' else [OVS[i] for i in case[1]]
    env.write('lay/conf/layer.conf', '')
    env.write('lay/conf/distro/dd1.conf', '')
    env.write('lay/conf/machine/mm1.conf', '')
    env.write('lay/x.inc', 'X = "1"\n')
    n = 0
    res = []
    for style in ':_':
        if style == '_' and '${PN}' in ov:
            continue
        full = ''.join(style + x for x in ov)
        text = f'A{full} = "1"\nBB{full} += "1"\n'
        text += ''.join(f'{pre}{fn}{full}() {{\n    :\n}}\n' for pre, fn in (('', 'do_install'), ('python ', 'do_compile'), ('', 'helper')) if '${PN}' not in ov)
        p = env.write(f'r{len(res)}.bb', text)
        for when in ('never', 'before', 'after'):
            env.reset_constants()
            env.CONSTANTS.AddConstants({'functions': {'known': ['do_install', 'do_compile']}})
            st = env.stash()
            if when == 'before':
                env.stash().AddFile(env.path('lay/x.inc'))
            items = list(st.AddFile(p))
            if when == 'after':
                for i in items:
                    i.GetDistroEntry() if hasattr(i, 'GetDistroEntry') else None
                st.AddFile(env.path('lay/x.inc'))
            distros = DEFAULT | ({'dd1'} if when != 'never' else set())
            vs = only(items, 'Variable')
            same(f'number of variables in {text!r}', len(vs), 2)
            want = entries(ov, distros)
            for v in vs:
                same(f'distro and machine entry of {v.VarNameComplete} ({when})', (v.GetDistroEntry(), v.GetMachineEntry()), want)
                n += 1
            for f in only(items, 'Function'):
                sub = ov
                if f.RealRaw.startswith('helper'):
                    i = next((i for i, x in enumerate(ov) if x in MARK), len(ov))
                    sub = ov[i:]
                same(f'distro and machine entry of {f.RealRaw.splitlines()[0]!r} ({when})', (f.GetDistroEntry(), f.GetMachineEntry()), entries(sub, distros))
                n += 1
        res.append(want)
    return Obs(states=[tuple(res)], transitions=n, outcome=(tuple(ov), tuple(res)))
