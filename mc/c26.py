"""C26: passivity."""
import importlib
import itertools
import os
import sys

from mc.engine import Violation
from mc.lib import check, methods, queries, same

ID = 'C26'
RULE = ('a case is a payload (code, a command or an address) in one of the places of a recipe, class, include, configuration or file name, with one option set; files are added, finalized, queried, '
        'read out and expanded while an audit hook of the interpreter watches every execution of new code, process, socket, file modification and environment change (and stops it); '
        'directory, working directory, environment, standard output and error are compared before and after')
ASSUMPTIONS = ['modules may be imported by the library', 'reading files is passive']

PAY = [
    "open('pwned','w').write('x')", "__import__('os').system('touch pwned')", "__import__('subprocess').call(['touch','pwned'])", 'exec("x=1")', "eval('1+1')", "os.environ.update({'PWNED':'1'})",
    "__import__('os').chdir('/')", "__import__('os').remove('victim')", "__import__('socket').create_connection(('127.0.0.1',9))", "print('pwned')", '1/0', '1+1', "d.setVar('A','pwned')",
    '[x for x in range(3)]', "bb.utils.contains('A','b',open('pwned','w').name,'d',d)", "bb.utils.contains('A', 'b', 'yes', 'no', d)", "oe.utils.conditional('A','b',__import__('os').getcwd(),'x',d)",
    "oe.utils.read_file('victim')", "oe.utils.read_file('|touch pwned')", "bb.fetch2.get_srcrev(d)", "bb.process.run('touch pwned')", "d.getVar('A') or open('pwned','w')", "oe.utils.ifelse(1==1,'a','b')",
    "bb.utils.which('PATH','sh')", "oe.types.boolean('yes')", "'%s' % 'x'", "f'{1+1}'", "'a'.upper()", "lambda: 1", "bb.data.inherits_class('image', d)",
]
RAW = ['$(touch pwned)', '`touch pwned`', '; touch pwned ;', '| touch pwned', '&& touch pwned', 'http://127.0.0.1:9/x', 'git://127.0.0.1:9/x;protocol=ssh', 'file:///etc/hostname', '> pwned', '%s%n', '{0.__class__}',
       '${@', '__import__("os")', '..', '/', '~', '$HOME', '*', '\\x41', '{pn}', '%(A)s', '$$', '-rf']
PLACES = [
    ('a_1.0.bb', 'A = "{p}"\nB = "${{A}} {p}"\n'), ('a_1.0.bb', 'A:append = " {p}"\nA ??= "{p}"\nA[doc] = "{p}"\n'), ('a_1.0.bb', 'do_x() {{\n    {r}\n}}\ndo_x[postfuncs] += "{r}"\n'),
    ('a_1.0.bb', 'python do_x() {{\n    {r}\n}}\npython () {{\n    {r}\n}}\npython __anonymous() {{\n    {r}\n}}\n'), ('a_1.0.bb', 'def f(d):\n    {r}\n\nA = "{p}"\n'), ('a_1.0.bb', 'require {p}\ninclude {r}\ninclude_all {r}\n'),
    ('a_1.0.bb', 'inherit {p}\ninherit_defer {p}\nINHERIT += "{p}"\n'), ('a_1.0.bb', 'export PATH = "{p}"\nexport A\nexport B = "{r}"\n'), ('a_1.0.bb', 'addtask do_x after {r} before {r} # {r}\ndeltask {r}\n'),
    ('a_1.0.bb', 'SRC_URI = "{p} file://x;name={p}"\nSRCREV = "{p}"\nPACKAGES = "{p}"\nPACKAGES_DYNAMIC = "{p}"\nPACKAGE_BEFORE_PN = "{p}"\n'), ('a_1.0.bb', '# {r}\n# ${{@{r}}}\n{r}\n'), ('a_1.0.bb', 'addpylib ${{LAYERDIR}}/lib x\naddfragments {r} a b\nunset {r}\n'),
    ('a_1.0.bb', '{p}\n{p} = "1"\nA_{p} = "1"\n'), ('a_1.0.bb', 'PV = "{p}"\nPN = "{p}"\nBPN := "{p}"\nS = "${{PN}}-${{PV}}"\n'), ('classes/k.bbclass', 'A = "{p}"\npython () {{\n    {r}\n}}\nEXPORT_FUNCTIONS do_x\n'),
    ('i.inc', 'A = "{p}"\n{r}\n'), ('x.conf', 'A = "{p}"\nMACHINE = "{p}"\nPATH = "{p}"\n'), ('a_%.bbappend', 'A:append = "{p}"\nFILESEXTRAPATHS:prepend := "{p}:"\n'), ('conf/layer.conf', 'A = "{p}"\nBBPATH .= ":{p}"\n'),
    ('conf/machine/m.conf', 'A = "{p}"\n'), ('lib/x.py', 'import os\n{r}\n'), ('a_1.0.bb', 'A = "${{@d.getVar({q})}}"\nB = "${{@bb.utils.contains({q}, {q}, {q}, {q}, d)}}"\nC = "${{@oe.utils.read_file({q})}}"\n'),
    ('a_1.0.bb', 'do_x() {{\n    cat << EOF\n{r}\nEOF\n}}\nA = " \\\n  {r} \\\n  {p} \\\n"\n'),
]
NAMES = ['$(touch pwned)_1.bb', '`touch pwned`_1.bb', 'a;touch pwned_1.bb', '${@open("pwned","w")}_1.bb', "a'b\"c_1.bb", '__init___1.bb', '-rf_1.bb', 'a b_1.bb', '%s_1.bb', '~_1.bb', '*_1.bb', 'os.py_1.bb']
BOUNDS = {
    'quick': f'{len(PAY)} code and {len(RAW)} text payloads x {len(PLACES)} places x (plain, inline block) x 2 option sets, {len(NAMES)} file names',
    'thorough': 'as quick with all pairs of payloads in the same place',
}
OPTS = [(False, False), (True, True)]


def cases(tier):
    for i in range(len(NAMES)):
        yield ['name', i, 0]
    for pl in range(len(PLACES)):
        for i in range(len(PAY) + len(RAW)):
            for o in range(len(OPTS)):
                yield ['pay', i, pl, o, -1]
    if tier == 'thorough':
        for pl in range(len(PLACES)):
            for i, j in itertools.permutations(range(len(PAY) + len(RAW)), 2):
                yield ['pay', i, pl, 0, j]


def render(case):
    if case[0] == 'name':
        return NAMES[case[1]]
    return text(case)


def text(case):
    _, i, pl, _, j = case
    r = (PAY + RAW)[i]
    if j >= 0:
        r += ' ' + (PAY + RAW)[j]
    inline = '${@' + r + '}' if i < len(PAY) else r
    q = repr(r)
    return PLACES[pl][1].format(p=inline, r=r, q=q)


class Watch:
    """audit hook; can only be installed, so it is armed and disarmed"""
    inst = None

    def __init__(self):
        self.armed = False
        self.events = []
        sys.addaudithook(self.hook)

    MODIFY = ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.chmod', 'os.chown', 'os.link', 'os.symlink', 'os.truncate', 'os.utime', 'os.putenv', 'os.unsetenv', 'os.chdir', 'os.fchdir', 'os.system', 'os.exec',
              'os.posix_spawn', 'os.spawn', 'os.fork', 'os.forkpty', 'os.kill', 'os.killpg', 'os.setxattr', 'os.removexattr', 'os.startfile', 'os.mkfifo', 'os.mknod', 'os.lockf', 'pty.spawn', 'builtins.input', 'code.__new__',
              'pickle.find_class', 'sqlite3.connect', 'webbrowser.open', 'signal.pthread_kill', 'resource.setrlimit', 'syslog.syslog')
    PREFIX = ('subprocess.', 'socket.', 'shutil.', 'tempfile.', 'ctypes.', 'urllib.', 'ftplib.', 'http.', 'smtplib.', 'telnetlib.', 'poplib.', 'imaplib.', 'cpython.run_')

    def hook(self, event, args):
        if not self.armed:
            return
        bad = None
        if event in ('exec', 'compile'):
            # what an import of a module does is not meant
            f = sys._getframe(1)
            while f is not None and 'importlib' not in f.f_code.co_filename:
                f = f.f_back
            if f is None:
                bad = f'{event} {str(args)[:200]}'
        elif event == 'open':
            path, mode, flags = args
            if (isinstance(mode, str) and any(c in mode for c in 'wax+')) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)):
                f = sys._getframe(1)
                while f is not None and 'importlib' not in f.f_code.co_filename:
                    f = f.f_back
                if f is None:
                    bad = f'{event} {args}'
        elif event in self.MODIFY or event.startswith(self.PREFIX):
            bad = f'{event} {str(args)[:200]}'
        if bad:
            self.events.append(bad)
            raise RuntimeError(f'stopped: {bad}')


def tree(root):
    res = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            s = os.lstat(p)
            res[os.path.relpath(p, root)] = (s.st_mode, s.st_size, s.st_mtime_ns if n in fs else 0)
    return res


class Quiet:
    """what is written to the standard streams, at the level of file descriptors"""

    def __init__(self, env):
        self.base = os.path.dirname(env.root) + f'/out-{os.path.basename(env.root)}'

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.saved = [os.dup(1), os.dup(2)]
        self.fd = os.open(self.base, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        os.dup2(self.fd, 1)
        os.dup2(self.fd, 2)
        return self

    def __exit__(self, *exc):
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os.dup2(self.saved[0], 1)
            os.dup2(self.saved[1], 2)
            for x in self.saved:
                os.close(x)
            os.lseek(self.fd, 0, 0)
            self.text = os.read(self.fd, 1 << 16)
            os.close(self.fd)


def handle(env, names, opts):
    """add, finalize, query, read and expand"""
    st = env.stash(new_style_override_syntax=opts[0], negative_inline=opts[1])
    paths = [env.path(n) for n in names]
    # neither files that do not exist nor those that are not found are announced by a quiet stash
    st.AddFile(env.path('nothing_1.bb'))
    st.AddFile(env.path('no.where/nothing.inc'))
    for p in paths:
        st.AddFile(p)
    st.Finalize()
    n = 0
    for x in st.GetItemsFor():
        x.GetAttributes()
        methods(x)
        repr(x)
        n += 1
        v = getattr(x, 'VarValueStripped', None)
        if v:
            st.ExpandTerm(paths[0], v)
            st.ExpandTerm(paths[0], v, objref=x)
            for w in v.split():
                st.GetScrComponents(w)
                st.IsDynamicPackage(paths[0], w)
    for _, q in queries(st, paths, len, terms=('${A} ${B} ${C} ${S} ${PV}', '${@1+1}')):
        q()
        n += 1
    st.FingerPrint
    new = st.GetItemsFor()
    if new:
        st.Remove(new[0])
        st.Append(new[0])
    return n


def run(case, env):
    from mc.engine import Obs
    env.wipe()
    if Watch.inst is None:
        Watch.inst = Watch()
    watch = Watch.inst
    env.write('victim', 'untouched')
    env.write('conf/layer.conf', '')
    env.write('conf/machine/m.conf', '')
    env.write('classes/k.bbclass', 'K = "1"\n')
    env.write('i.inc', 'I = "1"\n')
    names = ['a_1.0.bb']
    opts = OPTS[0]
    if case[0] == 'name':
        names = [NAMES[case[1]]]
        env.write(names[0], 'A = "1"\nB = "${PN} ${FILE}"\n')
    else:
        main = PLACES[case[2]][0]
        env.write('a_1.0.bb', 'require i.inc\ninclude not-there.inc\nrequire no/where/x.inc\ninherit k nowhere\n')
        env.write(main, text(case))
        if main not in names and main.endswith(('.conf', '.bbappend')):
            names.append(main)
        opts = OPTS[case[3]]
    importlib.invalidate_caches()
    before, cwd, environ, modules = tree(env.root), os.getcwd(), dict(os.environ), None
    os.chdir(env.root)
    q = Quiet(env)
    watch.events.clear()
    try:
        with q:
            watch.armed = True
            try:
                n = handle(env, names, opts)
            except Exception as e:  # noqa: B902
                watch.armed = False
                if watch.events:
                    raise Violation(f'{watch.events[0]}') from e
                raise
            finally:
                watch.armed = False
        here = os.getcwd()
    finally:
        os.chdir(cwd)
    del modules
    check(not watch.events, f'attempted: {watch.events[:2]}')
    same('files', tree(env.root), before)
    same('working directory', here, env.root)
    same('environment', dict(os.environ), environ)
    same('output of a quiet stash', q.text, b'')
    return Obs(states=[(case[0], case[1], case[2])], transitions=n, outcome=(case, n))
