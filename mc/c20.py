"""C20: source URIs."""
import itertools

from mc.lib import HUGE, check, same, words_upto

ID = 'C20'
RULE = ('a case is a scheme and host, combined with every path and every ordered choice of options (or a mirror with all of these, or all strings '
        'over an alphabet of special characters); the reference cuts the text at "://" and ";"; every URI is asked twice and on two stashes')
ASSUMPTIONS = ['no query ("?") or fragment ("#") part, no option key given twice, schemes in lower case',
               'several slashes between host and path count as one', 'the set of known mirrors does not change between two questions about the same URI']

SCHEMES = ['git', 'http', 'https', 'file', 'ftp', 'sftp', 'svn', 'npm', 'npmsw', 'gitsm', 'crate', 'ssh', 's3', 'cvs', 'hg', 'az', 'git+ssh', 'p4', 'repo', 'osc', 'x-y.z']
HOSTS = ['', 'h', 'h.example.org', 'u@h', 'u:p@h:80', '127.0.0.1:8080', '[::1]:80', '${X}', 'h${X}.org', 'git@h:x', '${@x(d)}', 'h_1-2']
PATHS = ['', '/', '/a', '/a/b.git', '/~u/a', '/a:b', '/${BPN}-${PV}.tar.gz', '/a%20b', '/a,b', '/a=b', '/a@b', '/a*', '/a+b', '//a', '/a//b', '/a/', '/[a]', '/ä']
OPTS = ['name=x', 'branch=main', 'protocol=https', 'sha256sum=0a1b', 'q=a=b', 'e=', 'p=a/b', 'u=http://x', 'bare', 'r=${PV}', '', 'd=a:b@c', 'm==']
MAL = ['http://[', 'http://]', 'http://a]', 'http://[x]/a', 'git://[::1', '//[', 'http://\u2100/', 'http://[::1]x/', 'https://a[b/c', 'file://[']
ALPHA = [':', '/', ';', '=', '[', ']', 'a', '${', '@', '%', '//', '://']
BOUNDS = {t: f'{len(SCHEMES)} schemes x {len(HOSTS)} hosts x {len(PATHS)} paths x ordered choices of <= {d} of {len(OPTS)} options; all known mirrors and 4 '
             f'added ones x paths x options; {len(MAL)} malformed ones x options; all strings of <= {w} of {len(ALPHA)} fragments; up to {max(HUGE)} options, path parts and characters' for t, d, w in (('quick', 2, 4), ('thorough', 3, 5))}


def cases(tier):
    d, w = (2, 4) if tier == 'quick' else (3, 5)
    for s in SCHEMES:
        for h in HOSTS:
            yield ['uri', s, h, d]
    for i in range(25):
        yield ['mirror', i, d]
    for m in MAL:
        yield ['bad', m]
    for p in itertools.product(ALPHA, repeat=2):
        yield ['any', list(p), w - 2]
    yield ['perm', 4]
    for n in HUGE:
        yield ['long', n]


def render(case):
    return repr(case)


def parse(text):
    """reference"""
    scheme, _, rest = text.partition('://')
    loc, *opts = rest.split(';')
    host, sep, path = loc.partition('/')
    if sep:
        host += '/' + path.lstrip('/')
    return {'scheme': scheme, 'src': host, 'options': {o.split('=', 1)[0]: o.split('=', 1)[1] for o in opts if '=' in o}}


def ordered(d):
    for k in range(d + 1):
        yield from itertools.permutations(OPTS, k)


def ask(a, b, uri, want):
    for st in (a, b, a):
        got = st.GetScrComponents(uri)
        same(f'components of {uri!r}', got, want)


def run(case, env):
    from mc.engine import Obs
    a, b = env.stash(), env.stash(negative_inline=True)
    how = case[0]
    n = 0
    outs = set()
    try:
        if how == 'uri':
            _, s, h, d = case
            for p in PATHS:
                for o in ordered(d):
                    u = f'{s}://{h}{p}' + ''.join(';' + x for x in o)
                    want = parse(u)
                    ask(a, b, u, want)
                    n += 3
                    outs.add((want['src'], tuple(sorted(want['options']))))
        elif how == 'mirror':
            env.reset_constants()
            known = dict(env.CONSTANTS.MirrorsKnown)
            if case[1] >= 20:
                extra = [{'${MY}': 'https://my.org/pub'}, {'my://': 'http://other.org/'}, {'${MY}': '${GNU_MIRROR}/x'}, {'${MY}': 'git://h;name=q'},
                         {'${GNU_MIRROR}': 'http://new.org'}][case[1] - 20]
                env.CONSTANTS.OverrideConstants({'replacements': {'mirrors': extra}})
                known.update(extra)
                ms = extra
            else:
                if case[1] >= len(known):
                    return Obs(outcome='none')
                ms = [list(known)[case[1]]]
                # several mirrors in one text
                for m2 in known:
                    for u in (f'{ms[0]}/x;alt={m2};name=q', f'git://h/{m2};alt={ms[0]}', f'{ms[0]}/x;a={ms[0]};b={m2}/y'):
                        full = u
                        for k, v in known.items():
                            full = full.replace(k, v)
                        ask(a, b, u, parse(full))
                        n += 3
            for m in ms:
                for p in PATHS:
                    for o in ordered(min(case[2], 2)):
                        u = m + p + ''.join(';' + x for x in o)
                        full = u
                        # prefixes in the order of the database
                        for k, v in known.items():
                            if full.startswith(k):
                                full = v + full[len(k):]
                        if case[1] == 22:
                            full = 'https://mirrors.kernel.org/gnu/x' + u[len(m):]
                            if list(known).index('${MY}') > list(known).index('${GNU_MIRROR}'):
                                # replaced before: what the replacement brings in is not replaced again
                                full = '${GNU_MIRROR}/x' + u[len(m):]
                                got = a.GetScrComponents(u)
                                same(f'options of {u!r}', got['options'], parse('x://' + full)['options'])
                                n += 1
                                continue
                        want = parse(full)
                        ask(a, b, u, want)
                        n += 3
                        outs.add((want['src'], tuple(sorted(want['options']))))
        elif how == 'bad':
            for o in ordered(2):
                u = case[1] + ''.join(';' + x for x in o)
                got = a.GetScrComponents(u)
                check(isinstance(got, dict) and set(got) == {'scheme', 'src', 'options'}, f'answer for {u!r}: {got!r}')
                if not o:
                    same(f'components of {u!r}', (got['scheme'], got['src']), ('', ''))
                n += 1
        elif how == 'any':
            for w in words_upto(ALPHA, case[2]):
                u = ''.join(case[1] + list(w))
                got = a.GetScrComponents(u)
                check(isinstance(got, dict) and set(got) == {'scheme', 'src', 'options'} and isinstance(got['scheme'], str) and isinstance(got['src'], str) and
                      isinstance(got['options'], dict), f'answer for {u!r}: {got!r}')
                if got['options'] or got['scheme'] or got['src']:
                    same(f'options of {u!r}', got['options'], parse('x://' + u)['options'])
                n += 1
                outs.add((got['scheme'], got['src'] != ''))
            same('empty text', a.GetScrComponents(''), {'scheme': '', 'src': '', 'options': {}})
        elif how == 'long':
            k = case[1]
            for u in ('git://h/p' + ''.join(f';k{i}={"v" * (i % 9)}{i}' for i in range(k)), 'http://h' + ''.join(f'/p{i}' for i in range(k)) + ';name=x', 'git://' + 'h' * k + '/' + 'p' * k + ';name=' + 'n' * k,
                      'git://h/p;' + 'k' * k + '=' + '='.join('ab' for _ in range(k)), 'git://h/p' + ';' * k + 'name=x', 'git://h/p;bare' + ';bare' * k + ';name=x'):
                ask(a, b, u, parse(u))
                n += 3
                outs.add(len(u))
        else:
            for o in itertools.combinations([x for x in OPTS if x], case[1]):
                ref = None
                for p in itertools.permutations(o):
                    got = a.GetScrComponents('git://h/p;' + ';'.join(p))
                    ref = ref or got
                    same(f'components with the options in the order {p}', got, ref)
                    n += 1
                same('components', ref, parse('git://h/p;' + ';'.join(o)))
    finally:
        if how == 'mirror':
            env.reset_constants()
    return Obs(states=[(how, case[1], o) for o in outs], transitions=n, outcome=(how, case[1], len(outs)))
