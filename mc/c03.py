"""C03: one item of the right kind per directive, whatever surrounds it."""
import itertools

from mc.lib import CLASSES, LARGE, SIZES, TASKS, VARS, check, norm, same

ID = 'C03'
RULE = ('a case is a sequence of statements; every statement carries the kind, fields and derived answers its item must '
        'have, independent of its neighbours; the reference merges directly consecutive column-0 comment lines and '
        'gives indented or blank lines that follow a def to that def, and nothing else')
ASSUMPTIONS = ['statements are well formed for the build system; names use letters, digits and _ + - . / ${}',
               'included files and classes that exist are empty files next to the recipe']


def S(text, cls, m=None, **f):
    return (text, cls, f, m or {})


def V(text, name, op, val):
    return S(text, 'Variable', VarName=name, VarOp=op, VarValue=val)


WS = [' ', '  ', '\t', ' \t ']
CORE = [
    V('A = "1"\n', 'A', ' = ', '"1"'),
    S('\n', 'Item'),
    S('# comment\n', 'Comment', {'get_items': ['# comment', '']}),
    S('def f(d):\n    return 1\n', 'PythonBlock', FuncName='f'),
    S('do_x() {\n    a { b }\n}\n', 'Function', FuncName='do_x', SubItem='', IsPython=False, IsFakeroot=False),
    S('include none.inc\n', 'Include', {'get_items': ['none.inc', 'include']}, IncName='none.inc', Statement='include',
      FileIncluded=''),
    S('require some.inc\n', 'Include', {'get_items': ['some.inc', 'require']}, IncName='some.inc', Statement='require',
      FileIncluded='@some.inc'),
    S('inherit some none\n', 'Inherit', {'get_items': ['some', 'none']}, Class='some none', Statement='inherit',
      FilePaths={'@classes/some.bbclass'}),
    S('export E\n', 'Export', {'get_items': ['E', '']}, Name='E', Value=''),
    S('export E = "a b"\n', 'Export', {'get_items': ['E', 'a b']}, Name='E', Value='a b'),
    S('addtask do_y after do_a before do_b\n', 'TaskAdd', {'get_items': ['do_y', 'do_b', 'do_a']},
      FuncName='do_y', Before=['do_b'], After=['do_a'], Comment=''),
    S('deltask do_z\n', 'TaskDel', {'get_items': ['do_z']}, FuncName='do_z', Comment=''),
    S('unset A\n', 'Unset', {'get_items': ['A', '']}, VarName='A', Flag=''),
    S('B[doc] = "text"\n', 'FlagAssignment', {'get_items': ['B', 'doc', ' = ', 'text']}, VarName='B', Flag='doc',
      VarOp=' = ', Value='"text"', ValueStripped='text'),
    S('EXPORT_FUNCTIONS do_a do_b\n', 'FunctionExports', {'get_items': ['do_a', 'do_b']}, FuncNames='do_a do_b'),
    S('INHERIT += "some"\n', 'Inherit', {'get_items': ['some']}, Class='some', Statement='INHERIT',
      FilePaths={'@classes/some.bbclass'}),
    V('M = "a \\\n  b"\n', 'M', ' = ', '"a \x1b  b"'),
    S('python () {\n    if a:\n        b = {}\n}\n', 'Function', FuncName='', IsPython=True, IsFakeroot=False),
    S('include_all conf/x.inc\n', 'IncludeAll', {'get_items': ['conf/x.inc']}, File='conf/x.inc'),
    S('addpylib ${LAYERDIR}/lib ns\n', 'AddPylib', {'get_items': ['${LAYERDIR}/lib', 'ns']}, Path='${LAYERDIR}/lib',
      Namespace='ns'),
    S('addfragments conf/f OE_F OE_FL\n', 'AddFragements', {'get_items': ['conf/f', 'OE_F', 'OE_FL']}, Path='conf/f',
      Variable='OE_F', Flagged='OE_FL'),
    S('inherit_defer ${X}\n', 'Inherit', {'get_items': ['${X}']}, Class='${X}', Statement='inherit_defer', FilePaths=set()),
    S('def g(a, b="}"):\n    x = """\n\n    """\n    return "${@"\n', 'PythonBlock', FuncName='g'),
    S('fakeroot python do_w() {\n    inherit = "a"\n    unset A\n}\n', 'Function', FuncName='do_w', IsPython=True,
      IsFakeroot=True),
    S('# require x.inc\n', 'Comment'),
    S('addhandler h\n', 'Item'),
    V('O = "inherit x ; def y(): # z { addtask q"\n', 'O', ' = ', '"inherit x ; def y(): # z { addtask q"'),
]

MORE = [
    # includes
    *[S(f'{st}{ws}{n}\n', 'Include', IncName=n, Statement=st, FileIncluded='')
      for st in ('include', 'require') for ws in (' ', '   ', '\t')
      for n in ('a.inc', '${PN}.inc', 'recipes/a-b_1.0.inc', '../x/${BPN}-${PV}.inc', 'gtk+-3.inc', '${THISDIR}/X.inc', '/abs/y.inc',
                'a@b.inc', 'x:y.inc', 'a,b~1.inc', 'conf/${MACHINE}-%.inc', 'sub/[x].inc', '\xe4.inc')],
    *[S(f'{st} {a}${{@foo(d)}}{b}\n', 'Include', Statement=st, FileIncluded='') for st in ('include', 'require')
      for a in ('', 'x/') for b in ('', '.inc')],
    S('  require ind.inc\n', 'Include', IncName='ind.inc', Statement='require'),
    S('require a.inc # no\n', 'Include', IncName='a.inc', Statement='require'),
    # inherit
    *[S(f'{st}{ws}{n}\n', 'Inherit', {'get_items': n.split()}, Class=n, Statement=st)
      for st in ('inherit', 'inherit_defer') for ws in (' ', '  ', '\t')
      for n in ('a', 'a b c', 'cmake-native ${B}', 'python3-dir', 'native nativesdk', 'a_b')],
    S('inherit a \\\n    b \\\n    c\n', 'Inherit', {'get_items': ['a', 'b', 'c']}, Statement='inherit'),
    S("inherit ${@bb.utils.contains('A', 'x', 'yes', 'no', d)} b\n", 'Inherit', {'get_items': ['yes', 'b']}, Class='yes b'),
    *[S(f'INHERIT{op}{q}a b{q}\n', 'Inherit', {'get_items': ['a', 'b']}, Class='a b', Statement='INHERIT')
      for op in (' = ', '+=', ' += ', ' ?= ', ' ??= ', ' .= ', ' =+ ', '=') for q in '"\''],
    # export
    *[S(f'export{ws}{n}\n', 'Export', Name=n, Value='') for ws in (' ', '  ', '\t') for n in ('E', 'LONG_NAME', 'lower', 'A_${PN}', 'A:x86', 'A.b-c', 'A:append')],
    *[S(f'export {n}{op}{q}{v}{q}\n', 'Export', {'get_items': [n, v]}, Name=n, Value=v)
      for n in ('E', 'LONG_NAME', 'A:x86', 'A_x86', 'A.b-c') for op in (' = ', '=', ' ?= ', '?=', ' += ', ' =+ ', ' .= ', ' := ', ' ??= ', ' =. ', '  =\t')
      for q in '"\'' for v in ('v', '', 'a b=c', '${X}:${Y}')],
    # addtask
    *[S(f'addtask {n}{b}{a}{c}\n', 'TaskAdd', FuncName=n,
        Before=b.split()[1:], After=a.split()[1:], Comment=c.strip())
      for n in ('do_y', 'y', 'after_x', 'before-x', 'do_before', 'do_pkg_postinst')
      for b in ('', ' before do_b', ' before do_b do_c', ' before after_p q_before', ' before pkg_prerm', ' before do_pkg_postinst x-y')
      for a in ('', ' after do_a', ' after do_a do_d', ' after x_after before_y', ' after pkg_postinst', ' after do_b pkg_preinst do.x', ' after do_c do_b y')
      for c in ('', ' # note')],
    *[S(f'addtask do_y{a}{b}\n', 'TaskAdd', FuncName='do_y', Before=b.split()[1:], After=a.split()[1:])
      for b in (' before do_b', ' before do_b do_c', '  before  after_p\tq_before')
      for a in (' after do_a', ' after do_a do_d', '\tafter x_after  before_y')],
    S('addtask do_y \\\n    after do_a \\\n    before do_b\n', 'TaskAdd', FuncName='do_y', Before=['do_b'], After=['do_a']),
    # deltask
    *[S(f'deltask{ws}{n}{c}\n', 'TaskDel', FuncName=n, Comment=c.strip()) for ws in (' ', '\t') for n in ('x', 'do_x', 'do_x-y', 'do_x-y-z', '-x', 'x--y-', 'X2_-a')
      for c in ('', ' # note', '  ', '\t#note')],
    # unset
    *[S(f'unset{ws}{n}{f}\n', 'Unset', {'get_items': [n, f.strip('[]')]}, VarName=n, Flag=f.strip('[]'))
      for ws in (' ', '  ') for n in ('A', 'A_B', 'A:append', 'FILES:${PN}-dev', 'do_x', 'A_append')
      for f in ('', '[doc]', '[vardeps]', '[a-b]', '[x.y]', '[a/b]', '[a@b]', '[A_1]', '[a:b+c]', '[${X}]')],
    # flags
    *[S(f'{n}[{f}]{op}"{v}"\n', 'FlagAssignment', VarName=n, Flag=f, VarOp=op, Value=f'"{v}"', ValueStripped=v)
      for n in ('B', 'do_x', 'A_B', 'SRC_URI:append', 'gtk+x', '${PN}')
      for f in ('doc', 'sha256sum', 'a.b', 'a-b', 'a@b', 'a/b')
      for op in (' = ', '=', ' += ', ' .= ', ' ?= ', ' =+ ') for v in ('t', '', 'a b')],
    S('B[doc] = "a \\\n  b"\n', 'FlagAssignment', VarName='B', Flag='doc', Value='"a \x1b  b"'),
    # exported functions
    *[S(f'EXPORT_FUNCTIONS{ws}{n}\n', 'FunctionExports',
        {'get_items': n.split(), 'get_items_unaliased': ['foo_1.0-' + x for x in n.split()]}, FuncNames=n)
      for ws in (' ', '\t') for n in ('do_a', 'do_a do_b do_c', 'pkg_postinst')],
    # pylib / fragments / include_all
    *[S(f'addpylib{w1}{p}{w2}{n}{w3}\n', 'AddPylib', {'get_items': [p, n]}, Path=p, Namespace=n)
      for p in ('${LAYERDIR}/lib', '${LAYERDIR}/lib/x-y') for n in ('ns', 'oe.x') for w1 in WS for w2 in WS for w3 in ('', ' ', '\t ')],
    *[S(f'addfragments{w1}{p}{w2}{v}{w3}{x}{w4}\n', 'AddFragements', Path=p, Variable=v, Flagged=x)
      for p in ('conf/f', 'a/b/c.d') for v in ('V', 'OE_V') for x in ('F', 'OE_F') for w1 in WS for w2 in WS for w3 in WS[:2] for w4 in ('', ' ')],
    *[S(f'include_all{ws}{n}{w2}\n', 'IncludeAll', File=n) for ws in WS for n in ('x.inc', 'conf/${A}/y.conf') for w2 in ('', ' ', '\t')],
    # def
    *[S(f'def{ws}{n}({a}){r}:\n{b}', 'PythonBlock', FuncName=n)
      for ws in (' ', '  ') for n in ('f', 'Get_X', '_priv', 'f2') for a in ('', 'd', 'd, x={}', 'd: int') for r in ('', ' -> str')
      for b in ('    return 1\n', '\n    # c\n\n    return {\n        "a": 1\n    }\n')],
    S('def f(d): return 1\n', 'PythonBlock', FuncName='f'),
    # comments
    *[S(f'{c}\n', 'Comment') for c in ('#', '##', '#x', '# A = "1"', '# inherit x', '# do_x() {', '# }', '# def f():')],
    *[S(f'{c}\n', 'Comment') for c in ('  # ind', '\t#x')],
    S('# a\n# b\n# c\n', 'Comment', {'get_items': ['# a', '# b', '# c', '']}),
    S('   \n', 'Item'),
    # continued lines
    *[x for c in (' \\\n    ', '\\\n ', ' \\\n\\\n\t', '\t\\\n  \\\n  ') for x in (
        S(f'addpylib{c}${{LAYERDIR}}/lib{c}ns\n', 'AddPylib', Path='${LAYERDIR}/lib', Namespace='ns'), S(f'addpylib ${{LAYERDIR}}/lib{c}ns\n', 'AddPylib', Path='${LAYERDIR}/lib', Namespace='ns'),
        S(f'addfragments{c}a/b{c}V{c}F\n', 'AddFragements', Path='a/b', Variable='V', Flagged='F'), S(f'addfragments a/b V{c}F\n', 'AddFragements', Path='a/b', Variable='V', Flagged='F'),
        S(f'include{c}none.inc\n', 'Include', IncName='none.inc', Statement='include', FileIncluded=''), S(f'require{c}some.inc\n', 'Include', IncName='some.inc', Statement='require', FileIncluded='@some.inc'),
        S(f'unset{c}A\n', 'Unset', VarName='A', Flag=''), S(f'unset{c}A[doc]\n', 'Unset', VarName='A', Flag='doc'), S(f'export{c}E\n', 'Export', Name='E', Value=''),
        S(f'export{c}E{c}={c}"v"\n', 'Export', Name='E', Value='v'), S(f'export E{c}= "v"\n', 'Export', Name='E', Value='v'), S(f'deltask{c}do_x\n', 'TaskDel', FuncName='do_x', Comment=''),
        S(f'EXPORT_FUNCTIONS{c}do_a{c}do_b\n', 'FunctionExports', {'get_items': ['do_a', 'do_b']}) if c[0] in ' \t' else S('EXPORT_FUNCTIONS do_c\n', 'FunctionExports', {'get_items': ['do_c']}),
        S(f'addtask{c}do_y{c}before{c}do_b{c}after{c}do_a\n', 'TaskAdd', FuncName='do_y', Before=['do_b'], After=['do_a']) if c[0] in ' \t' else S('addtask do_q\n', 'TaskAdd', FuncName='do_q'),
        S(f'include_all{c}x.inc\n', 'IncludeAll', File='x.inc'), S(f'A[x]{c}= "k"\n', 'FlagAssignment', VarName='A', Flag='x', ValueStripped='k'), S(f'A[x] ={c}"k"\n', 'FlagAssignment', VarName='A', Flag='x', VarOp=' =' if c[0] == '\\' else None, ValueStripped='k'),
        S(f'A{c}= "k"\n', 'Variable', {'get_items': ['k']}, VarName='A', VarValueStripped='k'), S(f'A{c}+={c}"k"\n', 'Variable', {'get_items': ['k']}, VarName='A', VarValueStripped='k'),
        S(f'INHERIT{" +="}{c}"some"\n', 'Inherit', {'get_items': ['some']}, Statement='INHERIT', FilePaths={'@classes/some.bbclass'}),
        *([S(f'inherit{c}some\n', 'Inherit', {'get_items': ['some']}, Statement='inherit', FilePaths={'@classes/some.bbclass'}), S(f'inherit_defer some{c}k\n', 'Inherit', {'get_items': ['some', 'k']}, Statement='inherit_defer')] if c[0] in ' \t' else []))],
    # blanks after a value, quotes
    *[S(f'B[doc] = {q}{v}{q}{e}\n', 'FlagAssignment', VarName='B', Flag='doc', ValueStripped=v) for q in '"\'' for v in ('t', '', 'a b', 'x=y') for e in ('', ' ', '  \t')],
    *[S(f'A = {q}{v}{q}{e}\n', 'Variable', {'get_items': v.split()}, VarName='A', VarValueStripped=v) for q in '"\'' for v in ('t', '', 'a b', 'x=y') for e in ('', ' ', '  \t')],
    *[S(f'export E = {q}{v}{q}{e}\n', 'Export', Name='E', Value=v) for q in '"\'' for v in ('t', '', 'a b', 'x=y') for e in ('', ' ', '  \t')],
    *[S(f'addpylib {p} ns\n', 'AddPylib', {'get_items': [p, 'ns']}, Path=p, Namespace='ns') for p in ('${COREBASE}/lib', 'lib', '/x/y', './a', '${X}', 'a-b.c')],
    # long ones
    *[S(f'addtask do_y before {" ".join(f"do_b{i}" for i in range(k))} after {" ".join(f"do_a{i}" for i in range(k + 1))}\n', 'TaskAdd', FuncName='do_y',
        Before=[f'do_b{i}' for i in range(k)], After=[f'do_a{i}' for i in range(k + 1)], Comment='') for k in SIZES],
    *[S(f'EXPORT_FUNCTIONS {" ".join(f"do_{i}" for i in range(k))}\n', 'FunctionExports', {'get_items': [f'do_{i}' for i in range(k)]}, FuncNames=' '.join(f'do_{i}' for i in range(k))) for k in SIZES],
    *[S(f'inherit {" ".join(f"k{i}" for i in range(k))}\n', 'Inherit', {'get_items': [f'k{i}' for i in range(k)]}, Statement='inherit', FilePaths=set()) for k in SIZES],
    *[S('inherit ' + ' \\\n    '.join(f'k{i}' for i in range(k)) + '\n', 'Inherit', {'get_items': [f'k{i}' for i in range(k)]}, Statement='inherit', FilePaths=set()) for k in SIZES],
    *[S(''.join(f'# {i}\n' for i in range(k)), 'Comment', {'get_items': [f'# {i}' for i in range(k)] + ['']}) for k in SIZES],
    *[S('def f(d):\n' + ''.join(f'    a{i} = 1\n' for i in range(k)), 'PythonBlock', FuncName='f') for k in SIZES],
    *[S('M = "' + ''.join(f'a{i} \\\n' for i in range(k)) + '"\n', 'Variable', {'get_items': [f'a{i}' for i in range(k)]}, VarName='M', VarOp=' = ') for k in SIZES],
    *[S('do_x() {\n' + ''.join(f'    a{i} {{\n' for i in range(k)) + ''.join('    }\n' for i in range(k)) + '}\n', 'Function', FuncName='do_x') for k in SIZES],
    *[S(f'require {"d/" * k}x.inc\n', 'Include', IncName='d/' * k + 'x.inc', FileIncluded='') for k in SIZES],
    *[S(f'B[{"x" * k}] = "{"y" * k}"\n', 'FlagAssignment', VarName='B', Flag='x' * k, ValueStripped='y' * k) for k in SIZES],
    *[S(f'export {"E" * k} = "{" ".join("v" * k)}"\n', 'Export', Name='E' * k, Value=' '.join('v' * k)) for k in SIZES],
]
# well-known names
NAMED = [
    *[x for n in VARS for x in (
        S(f'export {n}\n', 'Export', {'get_items': [n, '']}, Name=n, Value=''), S(f'export {n} = "a b"\n', 'Export', {'get_items': [n, 'a b']}, Name=n, Value='a b'),
        S(f'unset {n}\n', 'Unset', {'get_items': [n, '']}, VarName=n, Flag=''), S(f'unset {n}[doc]\n', 'Unset', {'get_items': [n, 'doc']}, VarName=n, Flag='doc'),
        S(f'{n}[doc] = "t"\n', 'FlagAssignment', {'get_items': [n, 'doc', ' = ', 't']}, VarName=n, Flag='doc', VarOp=' = ', Value='"t"', ValueStripped='t'),
        V(f'{n} = "1"\n', n, ' = ', '"1"'), V(f'{n} += "a b"\n', n, ' += ', '"a b"'),
        S(f'addfragments conf/f {n} {n}_F\n', 'AddFragements', {'get_items': ['conf/f', n, f'{n}_F']}, Path='conf/f', Variable=n, Flagged=f'{n}_F'))],
    *[x for n in TASKS for x in (
        S(f'{n}() {{\n    a\n}}\n', 'Function', FuncName=n, SubItem='', IsPython=False, IsFakeroot=False),
        S(f'python {n}() {{\n    a\n}}\n', 'Function', FuncName=n, SubItem='', IsPython=True, IsFakeroot=False),
        S(f'def {n}(d):\n    a\n', 'PythonBlock', FuncName=n), S(f'{n}[depends] = "t"\n', 'FlagAssignment', VarName=n, Flag='depends', ValueStripped='t'),
        S(f'deltask {n}\n', 'TaskDel', {'get_items': [n]}, FuncName=n, Comment=''), S(f'unset {n}\n', 'Unset', {'get_items': [n, '']}, VarName=n, Flag=''),
        S(f'EXPORT_FUNCTIONS {n} do_x\n', 'FunctionExports', {'get_items': [n, 'do_x']}, FuncNames=f'{n} do_x'),
        *([] if n.startswith('pkg_') else [S(f'addtask {n} before do_b after do_a\n', 'TaskAdd', {'get_items': [n, 'do_b', 'do_a']}, FuncName=n, Before=['do_b'], After=['do_a'], Comment='')]),
        S(f'addtask do_y before {n} do_b after do_a {n}\n', 'TaskAdd', {'get_items': ['do_y', n, 'do_b', 'do_a', n]}, FuncName='do_y', Before=[n, 'do_b'], After=['do_a', n], Comment=''))],
    *[x for n in CLASSES for x in (
        S(f'inherit {n}\n', 'Inherit', {'get_items': [n]}, Class=n, Statement='inherit', FilePaths=set()),
        S(f'inherit some {n} {n}-x\n', 'Inherit', {'get_items': ['some', n, f'{n}-x']}, Class=f'some {n} {n}-x', Statement='inherit', FilePaths={'@classes/some.bbclass'}),
        S(f'inherit_defer {n}\n', 'Inherit', {'get_items': [n]}, Class=n, Statement='inherit_defer', FilePaths=set()),
        S(f'INHERIT += "{n}"\n', 'Inherit', {'get_items': [n]}, Class=n, Statement='INHERIT', FilePaths=set()),
        S(f'require {n}.inc\n', 'Include', {'get_items': [f'{n}.inc', 'require']}, IncName=f'{n}.inc', Statement='require', FileIncluded=''),
        S(f'include conf/{n}.conf\n', 'Include', {'get_items': [f'conf/{n}.conf', 'include']}, IncName=f'conf/{n}.conf', Statement='include', FileIncluded=''))],
]
POOL = CORE + MORE + NAMED
NC = len(CORE)
BOUNDS = {
    'quick': f'all sequences of <= 3 of {NC} core statements (with and without final newline, in recipe and class), '
             f'{len(MORE)} further statement forms alone, and after and before every core statement; {len(NAMED)} statements with well-known names of variables, tasks and classes; statements of up to 129 parts; every core statement up to 129 times, every pair 20 times in a row',
    'thorough': f'all sequences of <= 4 of {NC} core statements, {len(MORE)} further statement forms alone and between every '
                'pair of core statements',
}


def cases(tier):
    for i in range(len(POOL)):
        for nl in (1, 0):
            for kind in (0, 1):
                yield [[i], nl, kind]
    for i in range(NC):
        for k in (LARGE if tier == 'thorough' else SIZES):
            yield [[i] * k, 1, 0]
            yield [[0] * k + [i], 1, 0]
            yield [[i] + [0] * k, 1, 1]
    for i, j in itertools.product(range(NC), repeat=2):
        yield [[i, j] * (60 if tier == 'thorough' else 20), 1, 0]
    for n in (2, 3):
        for seq in itertools.product(range(NC), repeat=n):
            for nl in (1, 0):
                yield [list(seq), nl, 0]
    for m in range(NC + len(MORE), len(POOL)):
        for c in range(4):
            yield [[c, m, (c + 1) % 4], 1, 0]
    for m in range(NC, NC + len(MORE)):
        for c in range(NC):
            yield [[c, m], 1, 0]
            yield [[m, c], 1, 0]
            if tier == 'thorough':
                for e in range(NC):
                    yield [[c, m, e], 1, 0]
    if tier == 'thorough':
        for seq in itertools.product(range(NC), repeat=4):
            yield [list(seq), 1, 0]


PARTS = {
    'Include': lambda x: [x.IncName, x.Statement], 'TaskAdd': lambda x: [x.FuncName, *x.Before, *x.After], 'TaskDel': lambda x: [x.FuncName],
    'FlagAssignment': lambda x: [x.VarName, x.Flag, x.VarOp, x.ValueStripped], 'Unset': lambda x: [x.VarName, x.Flag],
    'Export': lambda x: [x.Name, x.Value], 'AddPylib': lambda x: [x.Path, x.Namespace], 'AddFragements': lambda x: [x.Path, x.Variable, x.Flagged],
    'IncludeAll': lambda x: [x.File], 'Comment': lambda x: x.RealRaw.split('\n'), 'PythonBlock': lambda x: x.RealRaw.split('\n'),
}
KIND = ['foo_1.0.bb', 'foo_1.0.bbclass']


def text(case):
    t = ''.join(POOL[i][0] for i in case[0])
    return t if case[1] else t[:-1]


def render(case):
    return f'{KIND[case[2]]}:\n{text(case)}'


def expected(seq):
    """(text, cls, fields, answers) per item"""
    out = []
    for i in seq:
        t, cls, f, m = POOL[i]
        if cls == 'PythonBlock' or not out:
            out.append([t, cls, f, m])
            continue
        last = out[-1]
        if last[1] == 'PythonBlock':
            # lines that are indented or blank belong to the def
            lines = t.splitlines(keepends=True)
            n = 0
            while n < len(lines) and (lines[n][0] in ' \t\n'):
                n += 1
            if n:
                last[0] += ''.join(lines[:n])
                check(n == len(lines), 'harness: partially absorbed statement')
                continue
        if cls == 'Comment' and last[1] == 'Comment' and t[0] == '#' and last[0][0] == '#':
            last[0] += t
            last[3] = {}
            continue
        out.append([t, cls, f, m])
    return out


def run(case, env):
    from mc.engine import Obs
    env.write('some.inc', '')
    env.write('classes/some.bbclass', '')
    t = text(case)
    p = env.write(KIND[case[2]], t)
    st = env.stash()
    res = st.AddFile(p)
    want = expected(case[0])
    if not case[1]:
        want[-1][0] = want[-1][0][:-1]
        want[-1][3] = {} if want[-1][1] == 'Comment' else want[-1][3]
        if not want[-1][0]:
            want.pop()
    same('kinds of items', [type(x).__name__ for x in res], [w[1] for w in want])
    for x, (raw, cls, fields, meth) in zip(res, want):
        same(f'raw text of {cls}', x.RealRaw, raw)
        same('classifier', x.CLASSIFIER, cls)
        for k, v in fields.items():
            if v is None:
                continue
            if isinstance(v, (set, frozenset)):
                v = {env.path(y[1:]) if y.startswith('@') else y for y in v}
                same(f'{cls}.{k} of {raw!r}', set(getattr(x, k)), v)
                continue
            if isinstance(v, str) and v.startswith('@'):
                v = env.path(v[1:])
            same(f'{cls}.{k} of {raw!r}', getattr(x, k), v)
        if 'get_items' not in meth and cls in PARTS and '${@' not in raw:
            same(f'{cls}.get_items() of {raw!r}', norm(x.get_items()), norm(PARTS[cls](x)))
        for k, v in meth.items():
            if k == 'get_items_unaliased' and case[2] == 1:
                pass
            same(f'{cls}.{k}() of {raw!r}', norm(getattr(x, k)()), norm(v))
    same('stored items', [id(x) for x in st.GetItemsFor(filename=p, nolink=True)], [id(x) for x in sorted(res, key=lambda x: x.Line)])
    out = tuple((type(x).__name__, x.RealRaw) for x in res)
    return Obs(states=[out[:k] for k in range(1, len(out) + 1)], transitions=len(res), outcome=out)
