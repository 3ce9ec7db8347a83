"""Writes MANIFEST.json and the "fixed" part of known_findings.json from the check modules."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    'C01': 'bounded exhaustive enumeration of all line sequences, parsed by the real code, against the text itself as reference model',
    'C02': 'bounded exhaustive enumeration of all texts and token sequences run through every operation of the real code, no-exception/termination monitor',
    'C03': 'bounded exhaustive enumeration of all statement sequences on the real parser against a compositional reference model',
    'C04': 'bounded exhaustive enumeration of all assignment compositions on the real parser against the parts they were composed from',
    'C05': 'bounded exhaustive enumeration of all function definitions (name, overrides, balanced bodies, neighbours) against their parts',
    'C06': 'explicit-state latch model, all statement sequences and file combinations replayed on the real parser',
    'C07': 'bounded exhaustive enumeration of inline call compositions against a branch selecting reference model',
    'C08': 'bounded exhaustive enumeration of inline block arrangements against an atom-wise reference substitution',
    'C09': 'exhaustive enumeration of all filter combinations and reduction sequences against a relational reference model',
    'C10': 'exhaustive exploration of all operation histories with interleaved queries, differential against never-queried stashes of the same history',
    'C11': 'exhaustive enumeration of all include graphs and adding orders against graph reachability',
    'C12': 'exhaustive enumeration of all file name sets and orders of adding against a literal wildcard matcher',
    'C13': 'exhaustive enumeration of all include/inherit/append compositions and adding orders against a recursive flattening model',
    'C14': 'explicit-state interpreter of assignment semantics, all histories up to a depth replayed on the real code',
    'C15': 'exhaustive enumeration of all reference graphs and spare sets against a recursive substitution model',
    'C16': 'exhaustive exploration of the iteration orders the runtime may choose (hash seeds, forced item hash orders) in fresh processes',
    'C17': 'pairwise comparison of all build histories up to a depth, reference identity is the multiset of visible items',
    'C18': 'explicit-state nested dictionary model, all edit sequences up to a depth replayed on the real database',
    'C19': 'exhaustive enumeration of all directory layouts against a candidate walk over the layout',
    'C20': 'bounded exhaustive enumeration of all URI compositions against a cutting reference model',
    'C21': 'bounded exhaustive enumeration of all file name compositions and own assignments against a reference model',
    'C22': 'exhaustive enumeration of all statement placements over linked files against a set based reference model',
    'C23': 'stateless exploration of all interleavings of operation scripts on two stashes, and of all placements of unrelated files',
    'C24': 'exhaustive exploration of all list operation sequences up to a depth, lock-step with a plain list',
    'C25': 'exhaustive fault enumeration: every pattern operation of every scenario made to time out, one by one and all together',
    'C26': 'exhaustive enumeration of payload placements under an interpreter audit hook monitor',
    'C27': 'bounded exhaustive enumeration of all word/separator layouts against a joining and splitting reference model',
    'C28': 'exhaustive enumeration of all configuration layouts, addition histories and override lists against the layout itself',
    'C29': 'exhaustive enumeration of all adding sequences, path and include spellings against the same history under plain paths',
    'C30': 'exhaustive enumeration of all texts, sub-sets and ways of editing the stash, differential against stashes of the edited text',
    'C31': 'exhaustive fault injection: all unreadable sets of files at every step of all additions, all truncations and byte damages, against a model of who reads what',
    'C32': 'exhaustive exploration of all histories of edits of the constants, additions and questions, against a model of what is decided when',
    'C33': 'exhaustive exploration of all histories of edits of items and questions, differential against stashes of the edited files',
}

NOTE = ('Every case within the stated bound is executed on the code in /repo and compared with an independent reference; no sampling. '
        'Nothing is claimed outside of the alphabets and bounds. ')

FIXED = [l.split(' ', 2) for l in '''
C16 577ed31 files were decoded with the locale's encoding, so the items depended on the environment
C32 bed228d image classification, package names and other remembered answers did not follow edits of the constants
C33 8cfc142 filters and other remembered answers did not follow edits of items through their setters
C27 5ae0f91 values in single quotes kept their quotes in words, expansions and derived facts
C03 f4326a6 addpylib with a path that is not below ${LAYERDIR} was not recognised
C03 57a0792 blanks after the value of a flag left a quote in the value
C03 321630c directives continued on the next line right after the keyword, name or flag were not recognised or reported the continuation as their name
C31 363a190 a class or bbappend whose addition failed at reading it, or a file it includes, was never read again
C15 bf6e1d2 the text around a block that reads a file vanished in expansions, and of several such blocks none was read
C31 2189d40 a constant database with bytes that are not text raised an error
C24 92146ae changing the list, set or mapping that a query returned changed its later answers
C03 fcf7d77 addpylib, addfragments and include_all with several or trailing blanks kept blanks in their names or shifted their fields
C03 7f4af3b include and require with other characters or an inline block in the name were cut or not recognised
C02 c3147e9 a continuation or a function start on the last line raised StopIteration
C03 9840ac1 a comment or value containing `name() {` swallowed the following lines as a function
C05 ddd9ec0 functions named python* or fakeroot* lost a part of their name
C05 8d8bd26 the raw body was cut at braces in the header or lost its own closing braces
C03 373ac27 unset reported a truncated variable name
C03 43552e7 '+' in variable names, flags and include names made the statement unrecognised
C03 9fbafdf python functions with upper-case names or annotations were not recognised
C03 8cb79aa export reported the name together with operator characters or quotes
C03 48ad0b1 task names containing before/after split an addtask list
C03 ba116d8 task and function lists separated by tabs or several blanks were not split
C09 11e689c FunctionExports.ATTR_FUNCNAME named an attribute that does not exist
C19 5e75fda one ignored class suppressed all classes of the statement
C05 1e6d98a class-nativesdk was not a class override of a function
C27 b09201f IsMultiLine was true for single-line values with a hex escape
C27 8c07402 blanks after the closing quote left the quote in the items
C25 750ab0d RegexRpl.match ignored its flags
C25 b9f6509 a timeout while iterating over finditer was not absorbed
C08 ad7040b repeated unresolved inline blocks were restored in the wrong place
C07 88224e1 commas and brackets in quoted arguments cut the argument
C07 92cad29 the expand argument of getVar became part of the variable name
C18 e7b0ae1 constant edits aliased the dictionaries of the caller and could not remove keys
C20 eadb5e5 option values containing '=' were cut
C19 b1720fc directories were taken for included files; the layer root was not part of its layer
C15 28c83b9 spared names were expanded at depth; an unreadable file raised in an expansion
C24 b1520c8 extend, slices, copies and concatenation of result lists were broken
C10 d65d96a several memoised queries were never cleared
C16 74c8856 results and the fingerprint depended on set iteration order
C17 fa59221 appended and removed items did not change the fingerprint
C11 0e7a7cf items counted files not linked to them as including files
C11 cc42295 a class that was seen before was not linked to the next file inheriting it
C11 7af08e2 cyclic includes recursed forever
C12 be948b0 a bbappend matched recipes by prefix and with '.' as wildcard
C13 71656b3 nested includes shared lines with the statements after them
C13 a43f222 bbappends were placed before lines of the recipe's includes
C14 8ad1e32 unset in linked files was applied although links were not considered
C14 0ddc494 operators and overrides were applied in the wrong order or not at all
C22 fb1241a an empty PACKAGES_DYNAMIC matched every package
C02 623fd5e an invalid pattern in PACKAGES_DYNAMIC raised
C03 7c0ad10 addtask constraints on continued lines were lost
C05 97eb06a functions whose name starts like an override were cut
C04 34bea9b leading and repeated underscores of names were lost
C07 ce4ab53 inline blocks over several lines were not resolved
C07 b14a3ff quotes that are part of an argument were stripped
C08 12e3bd6 the first reference in an unresolved inline block was not expanded
C20 c729aa2 options containing '/' or '://' took part in splitting the location
C22 3c9690d directories with glob characters yielded no files (and no distros and machines, C28)
C22 8753a5e image and packagegroup classes inherited with their extension were not recognised
C27 3694686 a continuation between operator and value broke the value
C27 6f66788 a continued line starting with 'x' was read as a hex escape
'''.strip().splitlines()]


def module(pid):
    with open(os.path.join(HERE, 'mc', pid.lower() + '.py')) as i:
        tree = ast.parse(i.read())
    res = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == 'ASSUMPTIONS':
            res['assumptions'] = ast.literal_eval(n.value)
    return res


props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    pid = p['id']
    if not os.path.exists(os.path.join(HERE, 'mc', pid.lower() + '.py')):
        continue
    note = NOTE + 'Assumes: ' + '; '.join(module(pid).get('assumptions', [])) + '.'
    if pid == 'C11':
        note += ' Finding C11-F1 is suppressed exactly where the model of the one-pass closure predicts it.'
    checks.append({'property': pid, 'quick_cmd': f'bash check.sh {pid}', 'thorough_cmd': f'VERIF_TIER=thorough bash check.sh {pid}',
                   'evidence_file': f'evidence/{pid}.json', 'technique': 'model checking: ' + TECH[pid], 'level': 'model_checking', 'level_note': note})
man = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B -c "import regex" && chmod +x check.sh',
       'checks': checks,
       'not_applicable': [],
       'notes': 'The library is pure Python; checks import it from /repo, nothing is built. No hooks are needed in /repo.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as o:
    json.dump(man, o, indent=1)
    o.write('\n')
k = os.path.join(HERE, 'known_findings.json')
with open(k) as i:
    kf = json.load(i)
kf['fixed'] = [f'fixed: property={a} {b} {c}' for a, b, c in FIXED]
with open(k, 'w') as o:
    json.dump(kf, o, indent=1)
    o.write('\n')
print(len(checks), 'checks', len(FIXED), 'fixed')
