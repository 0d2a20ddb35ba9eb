#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, na=na, observe=observe))

prop('X01', 'Expression trees mean the same in place and in emitted source',
     'For every kind of operator node of the expression tree, evaluating the tree in place and compiling the source text it emits give the same mathematical value, in every emission mode (scalar, vectorised, CUDA) and for every nesting of nodes (the text never loses a needed bracket, and operands keep their order). Floating-point constants written into generated source carry enough digits to be read back as the same double.',
     ['inputs', 'programs', 'configurations'], 'every operator node class, operand value, nesting of node classes and emission mode',
     'Tests evaluate a few operators at a few points; the space of nestings, modes and constants is unbounded and the compiled path needs a compiler and a matching runtime to be sampled at all.',
     ['src/Expression.cpp', 'src/BinaryExpression.cpp', 'src/UnaryExpression.cpp', 'AmpGen/Expression.h', 'src/ASTResolver.cpp', 'src/CompiledExpressionBase.cpp'],
     [('operator()/complexEval of each node', 'src/BinaryExpression.cpp, src/UnaryExpression.cpp, src/Expression.cpp'), ('to_string of each node', 'src/BinaryExpression.cpp, src/UnaryExpression.cpp, src/Expression.cpp')],
     'abstract interpretation of evaluators and text emitters over the clang AST; emitted templates parsed and compared as terms in rational normal form',
     'unary/binary/ternary operator nodes and constants; rounding not modelled; comparisons act on real parts')
prop('X02', 'Building and simplifying expressions preserves their value',
     'The arithmetic operators, compound assignments, comparison helpers and library functions used to build expression trees return a tree whose value equals the mathematical operation on the operands, whatever algebraic shortcuts they take. Bracket expansion, normal ordering and simplification of a tree never change its value.',
     ['inputs', 'programs'], 'every expression tree and every valuation of its leaves',
     'Shortcuts fire only on particular operand shapes (constants, quotients, sums, equal operands); tests visit a handful of shapes.',
     ['src/Expression.cpp', 'src/Simplify.cpp', 'AmpGen/Simplify.h', 'AmpGen/Expression.h', 'src/UnaryExpression.cpp', 'src/BinaryExpression.cpp'],
     [('operator overloads and fcn:: library', 'src/Expression.cpp'), ('NormalOrderedExpression, ExpandBrackets, Simplify', 'src/Simplify.cpp')],
     'abstract interpretation to guarded terms; each shortcut checked under the facts of its guard in rational normal form',
     'constants within machine epsilon of 0 or 1 count as 0 or 1 (documented library behaviour)')
prop('X03', 'Symbolic derivatives are the derivatives of what is evaluated',
     'For every function node that offers a symbolic derivative, the derivative tree it returns denotes the analytic derivative of the function the node itself evaluates, with the chain rule applied to its argument where it does so for its siblings.',
     ['inputs', 'programs'], 'every function node and every argument expression',
     'A derivative that is wrong by a sign or factor for one rarely used function is invisible to tests that differentiate another.',
     ['src/UnaryExpression.cpp', 'AmpGen/Expression.h'],
     [('d() of each unary node', 'src/UnaryExpression.cpp')],
     'abstract interpretation of d() and operator(); term differentiation and rational normal form comparison',
     'non-analytic nodes have no derivative and are reported undecided')
prop('X04', 'Every dependency of generated source is resolved before it is emitted',
     'Whatever tree is compiled, every parameter, shared sub-expression, spline, array and lambda whose text can appear in the generated source is first registered with the resolver, so no reference in the generated source is left without a definition. Registering is unconditional: it does not depend on where in the tree the dependency sits.',
     ['programs', 'inputs'], 'every expression tree, every node class in every operand position',
     'A node class that forgets one operand only fails when that operand holds an unresolved dependency, which tests of other operands never see.',
     ['src/Expression.cpp', 'src/BinaryExpression.cpp', 'src/UnaryExpression.cpp', 'src/ASTResolver.cpp', 'src/Array.cpp', 'src/Spline.cpp', 'src/Tensor.cpp', 'src/MinuitExpression.cpp'],
     [('resolve of each node', 'src/*.cpp'), ('ASTResolver::resolve specialisations', 'src/ASTResolver.cpp')],
     'effect analysis: operands whose text is emitted versus operands visited by resolve, on every path',
     'a dependency counts as registered when its resolve (or the resolver handler) is called on the path')
prop('X05', 'Compiled functions read every parameter from its own up-to-date slot',
     'Each parameter, function-valued parameter or spline a compiled function depends on gets its own block of slots in the argument buffer: blocks never overlap, the same name always gets the same block, and the index written in the generated source is the index the value is written to. Refreshing a compiled function writes the current value of every dependency into its slots, the buffer is always large enough, and no write is dropped unless the slot already holds that value.',
     ['histories', 'programs', 'inputs'], 'every set and order of dependencies and every history of parameter changes',
     'Overlap or staleness appears only for particular mixtures and orders of dependencies and update histories.',
     ['AmpGen/ASTResolver.h', 'src/ASTResolver.cpp', 'AmpGen/CacheTransfer.h', 'src/CacheTransfer.cpp', 'AmpGen/CompiledExpression.h', 'src/CompiledExpressionBase.cpp', 'AmpGen/Spline.h', 'src/Spline.cpp'],
     [('slot allocator', 'AmpGen/ASTResolver.h: addCacheFunction'), ('slot writers', 'src/CacheTransfer.cpp, src/Spline.cpp'), ('buffer', 'AmpGen/CompiledExpression.h')],
     'abstract interpretation of allocator, writers and buffer methods; address arithmetic compared in normal form',
     'spline blocks analysed for generic knot lists of length 4 to 6')
exec(open(os.path.join(V, 'tools', 'meta_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'meta_more.py')) else None

with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p in P:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        if p['observe']: d['anchors']['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['title']
        fh.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': "cd /verif && python3 -c 'from sa import extract; extract.tool()'",
       'checks': [{'property': p['id'], 'quick_cmd': 'cd /verif && python3 -m sa.run %s' % p['id'], 'thorough_cmd': 'cd /verif && python3 -m sa.run %s --tier thorough' % p['id'],
                   'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']} for p in P if not p['na']],
       'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']], 'notes': 'See DESIGN.md. Every check parses /repo\'s working tree on every run.'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

import importlib.util, ast, glob
def doc(id):
    f = os.path.join(V, 'sa', 'checks', id + '.py')
    return (ast.get_docstring(ast.parse(open(f).read())) or '').strip() if os.path.exists(f) else ''
out = [open(os.path.join(V, 'tools', 'design_head.md')).read(), '## Properties and how they are decided\n\nStatements are in `properties.jsonl`. Costs are for one quick run on 8 cores.\n\n']
for p in P:
    out.append('### %s %s\n\n' % (p['id'], p['title']))
    if p['na']:
        out.append('Not applicable: %s\n\n' % p['na']); continue
    out.append('* Decided by: %s\n* Quantifies over: %s\n* Bounds: %s\n* Why tests cannot: %s\n* Sources: %s\n\n' % (p['technique'], p['text'], p['note'], p['why'], ', '.join(p['files'])))
    d = doc(p['id'])
    if d: out.append('```\n' + d + '\n```\n\n')
out.append('## Planted changes and the checks that catch them\n\n| seed | property | what it breaks | caught by |\n|---|---|---|---|\n')
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f)); out.append('| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), d['property'], d['what_it_breaks'].replace('|', '/'), d.get('caught_by', d['property'])))
out.append('\n' + open(os.path.join(V, 'tools', 'design_tail.md')).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write(''.join(out))
