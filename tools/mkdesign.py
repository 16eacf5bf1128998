#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, the constants of the checks, the findings file and the table of planted bugs."""
import ast
import json
import os
import re
import collections

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INTRO = open(os.path.join(here, 'tools', 'design_intro.md')).read()

# per property: oracle, why the tests cannot reach it
HOW = {
    'C01': ('C++ probes record the bits that arrived; the expected bits come from the type\'s width and signedness', 'a bug at one boundary value of one handler needs exactly that value, and there are 60 handlers'),
    'C02': ('the C++ caller of the virtual method reports what it received from the override, the override what it received', 'reverse wrappers are a second set of converters, which tests exercise with one or two values'),
    'C03': ('length and bytes seen by C++ against the UTF-8 encoding computed in Python', 'embedded NULs, surrogates, lengths and ownership only matter for unusual strings'),
    'C04': ('a model of Python\'s argument binding (positional, keyword, defaults, errors) decides what C++ must receive', 'the space is signature x call shape; tests try one call per function'),
    'C05': ('the order of return value and out parameters computed from the declaration', 'combinations of out/inout/return types; shapes of tuples returned by overrides'),
    'C06': ('the first declared overload whose every parameter accepts its argument, from tables of accepted values', 'each ordered set of overloads is another program'),
    'C07': ('reference model of owners; C++ counts constructions, destructions and uses of dead objects', 'bugs need sequences of operations (transfer, then lookup, then drop)'),
    'C08': ('reference model of the counts; C++ counts references and live objects', 'likewise'),
    'C09': ('reference model of shared owners, with use counts', 'likewise'),
    'C10': ('reference model of which wrapper belongs to which address, with a heap that reuses addresses on purpose', 'stale registry entries show only when an address is reused; every way of obtaining an object (constructors, copies, results, outputs, elements, arguments of overrides) is followed by asking for it again'),
    'C11': ('reference model of kept-alive relations', 'relations matter only after all other references have gone, in every order'),
    'C12': ('reference model of reachability through Python and C++ references; the collector is run after every operation', 'needs cycles through C++, instance dictionaries and helper objects'),
    'C13': ('addresses and dynamic types reported by C++ for each base', 'the address of a base matters only for layouts the tests do not have'),
    'C14': ('a model of Python attribute lookup over the override sets', 'sets of overrides x class levels x ways of calling'),
    'C15': ('PyGILState_Check inside C++ and inside overrides; a controlled scheduler releases threads at every hand-over point', 'schedules'),
    'C16': ('C++ catch semantics (first matching declared type) computed from the hierarchy', 'lists of exceptions x thrown types x callables; exceptions of one name declared in 7 places x functions in 4 places'),
    'C17': ('a record of the C++ object after every operation', 'sequences of good and bad assignments'),
    'C18': ('Python lists, sets and dictionaries as model; iterators as in C++', 'sequences over iterators, containers and elements'),
    'C19': ('the C++ operator called directly by a C++ function', 'pairs of operators in one class share slots'),
    'C20': ('reference model of values and of independence', 'sequences of copies and changes'),
    'C21': ('values computed by the C++ compiler', 'width, sign and scope of each enumeration'),
    'C22': ('the tree of declared places', 'same names in different scopes'),
    'C23': ('byte equality of the output with the output of the description alone in a fresh process', 'interleavings of the steps of two descriptions'),
    'C24': ('the module without the bad definition', 'each kind of failure at each place, pairs of failures'),
    'C25': ('the module in one file', 'assignments of definitions to sections'),
    'C26': ('a parser model of C++ type syntax; all spellings of one type must be handled alike', 'spellings are unbounded; bounded by depth here'),
    'C27': ('the same module with harmless names', 'names collide only in particular pairs'),
    'C28': ('one module with everything', 'configurations x sequences over modules'),
    'C29': ('the same declarations written by hand; the script written by the scanner', 'combinations of declarations in one header'),
    'C30': ('bytes in use, reference counts and live objects before and after', 'only failing calls in particular argument positions leak'),
    'C31': ('who may create and call what, computed from visibilities and purity', 'visibility of constructor x destructor x methods x flags'),
    'C32': ('conversion of the nearest wrapped class, from the declared graph; functions on plain pointers as twin of transformed ones', 'graphs and inheritance together; sequences'),
    'C33': ('marks that the declared functions leave on each C++ object: by which function it was made and completed, how often, in which order and with which virtual methods in effect', 'there are fifteen places in the generator that create objects'),
}


def consts(path):
    d = {}
    t = ast.parse(open(path).read())
    d['doc'] = ast.get_docstring(t)
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return d


fixed, known = collections.OrderedDict(), collections.OrderedDict()
for line in open(os.path.join(here, 'known_findings.txt')):
    m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', line)
    if m:
        fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    m = re.match(r'known: property=(C\d+) .*?what=(.*)', line)
    if m:
        k = known.setdefault(m.group(1), collections.OrderedDict())
        k[m.group(2)] = k.get(m.group(2), 0) + 1

out = [INTRO]
out.append('## The properties\n')
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    path = os.path.join(here, 'checks', pid.lower() + '.py')
    out.append('### %s: %s\n' % (pid, p['title']))
    if not os.path.exists(path):
        out.append('Not claimed: model checking applies (%s), but the check is not built.\n' % HOW[pid][0])
        continue
    c = consts(path)
    out.append('*Level*: %s.  *Enumerated*: %s\n' % (c.get('LEVEL', 'model_checking'), c.get('RULE') or c['doc'].split(': ', 1)[1] + ' Every transition of the model, and every operation sequence up to the depth, is replayed on the compiled module.'))
    out.append('*Oracle*: %s.  *Why tests cannot settle it*: %s.\n' % HOW[pid])
    b = c.get('BOUNDS')
    if isinstance(b, dict):
        out.append('*Bounds*: quick: %s; thorough: %s.\n' % (b['quick'].rstrip('.'), b['thorough'].rstrip('.')))
    elif b:
        out.append('*Bounds*: %s.\n' % b)
    if c.get('ASSUMPTIONS'):
        out.append('*Left open or assumed*: %s.\n' % '; '.join(c['ASSUMPTIONS']))
    if pid in fixed:
        out.append('*Defects found and repaired* (%d): %s.\n' % (len(fixed[pid]), '; '.join(w for h, w in fixed[pid])))
    if pid in known:
        out.append('*Known findings*: %s.\n' % '; '.join('%s (%d entries)' % kv for kv in known[pid].items()))
path = os.path.join(here, 'tools', 'catches.md')
if os.path.exists(path):
    out.append(open(path).read())
open(os.path.join(here, 'DESIGN.md'), 'w').write('\n'.join(out))
