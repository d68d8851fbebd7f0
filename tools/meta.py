#!/usr/bin/env python3
"""maintenance: writes properties.jsonl and MANIFEST.json from the table below (run by hand, never by a check)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=level_note, technique=technique))


T_EXEC = ('bounded explicit-state model checking: every program of a bounded grammar is explored in an executable reference '
          'model of C and every model execution is replayed on the compiled program')
TRUST = (' Trusted: the reference model lib/refc.py (kept apart from umlcc, every execution of it is replayed on the '
         'implementation), GNU as/ld, the CPU. Behaviour that C leaves undefined or unspecified is excluded.')

prop('P01', 'Integer expressions compute the value C prescribes',
     'Every integer expression in an accepted program, built from constants, variables of any supported integer type and the '
     'arithmetic, bitwise, shift, comparison and logical operators in any nesting, evaluates to the value that C prescribes '
     'on x86-64, whatever the storage of its operands. The type of each subexpression (width and signedness after promotion '
     'and the usual conversions) is the one C prescribes, as seen in the value after further conversion.',
     ['programs', 'inputs'], 'all operators x all ordered operand type pairs x operand storage forms x boundary values, and all '
     'trees of up to three operators',
     'The unit tests compare compiler stages with hand-written listings and the 30 end-to-end fixtures run a few expressions, '
     'nearly all of type int and with small values; type pairs, storage forms and extreme values are not enumerated.',
     ['src/resolver/expression.c', 'src/resolver/conversion.c', 'src/immcgen/expression.c', 'src/x64gen/arithinst.c',
      'src/x64gen/bitinst.c', 'src/x64gen/logicinst.c', 'src/x64gen/shrotinst.c', 'src/literal/iliteral.c'],
     [('usual arithmetic conversions', 'src/resolver/conversion.c'), ('instruction selection per operator',
                                                                      'src/x64gen/*inst.c')],
     'Exhaustive over the stated grammar and values; larger expressions and other values are not explored.' + TRUST)

prop('P02', 'Conversions and stores keep exactly the value and width of the type',
     'Wherever C converts a value (assignment, initialisation, argument, return, cast, compound assignment, condition, '
     'subscript, switch), the result is the source value reduced or extended to the destination type, and a scalar counts '
     'as true exactly when it is not zero. A store into an object changes the bytes of that object and no others.',
     ['programs', 'inputs'], 'all ordered type pairs x all converting contexts x boundary values; all neighbours of a stored object',
     'The tests list a few conversions by their intermediate code; the end-to-end fixtures run a handful of type pairs with '
     'values that fit both types.',
     ['src/resolver/conversion.c', 'src/resolver/expression.c', 'src/immcgen/expression.c', 'src/x64gen/datainst.c'],
     [('cast insertion', 'src/resolver/conversion.c'), ('widening and narrowing moves', 'src/x64gen/datainst.c')],
     'Exhaustive over type pairs, contexts and the boundary values listed in the check.' + TRUST)

prop('P03', 'Operands are evaluated once, conditionally, and in sequence',
     'The operators && and || evaluate their right operand exactly when C says so, ?: evaluates exactly one of its branches, '
     'and each other operand of every operator, call and statement is evaluated exactly once. Side effects of one full '
     'expression are complete before the next one starts, and ++ and -- yield the value before or after the change as written.',
     ['programs', 'histories'], 'all trees of && || ?: ! up to a size under all valuations; every operator with observable operands',
     'Evaluation counts and orders are only visible in executions with observable operands; the end-to-end fixtures run a '
     'few fixed ones.',
     ['src/immcgen/expression.c', 'src/resolver/expression.c', 'src/regalloc/regalloc.c'],
     [('conditional jumps around operands', 'src/immcgen/expression.c'), ('rewriting of compound assignment and increments',
                                                                          'src/resolver/expression.c')],
     'Exhaustive over trees up to the size bound; the known defect that compound assignment evaluates its left operand twice is '
     'listed in known_findings.json.' + TRUST)

prop('P04', 'Statements transfer control exactly as C prescribes',
     'For every nesting of if, else, while, for, switch, case, default, break, continue, return and blocks, an accepted '
     'function executes exactly the statements that C prescribes, in that order, for every sequence of outcomes of its '
     'conditions. It returns the value of the return statement that is reached.',
     ['programs', 'histories'], 'all statement trees up to a size x all decision sequences',
     'The tests hold one or two listings and one fixture per statement kind; nestings and decision sequences are not enumerated.',
     ['src/immcgen/statement.c', 'src/resolver/statement.c', 'src/parser/statement.c', 'src/x64gen/ctrlinst.c'],
     [('label allocation and jump targets', 'src/immcgen/statement.c'), ('switch dispatch', 'src/immcgen/statement.c')],
     'Exhaustive over statement trees up to the stated size under every decision sequence.' + TRUST)

prop('P05', 'Calls pass values faithfully and follow the platform calling convention',
     'A call delivers every argument, converted to its parameter type, and the result, for any number and types of '
     'parameters, nested and recursive calls, and calls through pointers; this also holds between compiled code and foreign '
     'code in both directions. Compiled functions keep the stack aligned at every call and preserve the registers '
     'that the System V ABI says they must.',
     ['programs', 'inputs', 'histories'], 'all arities up to 14 x parameter types x positions, both call directions, nesting and recursion',
     'The fixtures call a few functions with few arguments; the convention only shows at particular arities, nestings and frame '
     'sizes, and when code from another compiler is on the other side.',
     ['src/immcgen/expression.c', 'src/immcgen/external.c', 'src/x64gen/ctrlinst.c', 'src/x64gen/util.c', 'src/regalloc/regalloc.c'],
     [('argument registers and stack arguments', 'src/x64gen/ctrlinst.c'), ('evacuation of live registers across calls',
                                                                            'src/x64gen/util.c')],
     'Exhaustive over arities, positions and types in the bounds; every entry goes through a trampoline that checks '
     'callee-saved registers and stack alignment.' + TRUST)

prop('P06', 'Live values survive until their use, or the program is diagnosed',
     'Every intermediate value keeps its value from its computation to its last use, however many values are alive at the '
     'same time and whatever lies between (calls, divisions, shifts, conditional evaluation, subscripts). An expression that '
     'needs more registers than there are is either compiled correctly or rejected with an error message.',
     ['programs', 'inputs'], 'all expression shapes up to a number of leaves x kinds of leaves x operators, below, at and beyond the register limit',
     'Register pressure grows with expression shape; the tests have fixed small expressions.',
     ['src/regalloc/regalloc.c', 'src/regalloc/basicblock.c', 'src/liveseq/liveseq.c', 'src/x64gen/util.c', 'src/x64gen/ctrlinst.c',
      'src/x64gen/arithinst.c'],
     [('liveness and assignment of registers', 'src/regalloc/regalloc.c'), ('saving around calls', 'src/x64gen/util.c')],
     'Exhaustive over tree shapes up to the bound; beyond-limit chains up to the stated depth.' + TRUST)

prop('P07', 'Objects have the sizes, offsets and strides of the platform ABI',
     'sizeof, member offsets, padding and element strides of every type are those of the x86-64 System V ABI, so structures and '
     'arrays can be shared with code from other compilers. Distinct objects, members and elements never overlap.',
     ['programs'], 'all member lists up to a length over all member kinds, arrays up to three dimensions, all frame layouts in the bounds',
     'The tests check sizes and offsets of a few fixed types.',
     ['src/dtype/struct.c', 'src/dtype/array.c', 'src/dtype/dtype.c', 'src/immcgen/util.c', 'src/symtab/symtab.c'],
     [('size and alignment of types', 'src/dtype/*.c'), ('stack frame layout', 'src/immcgen/immcgen.c, src/symtab/symtab.c')],
     'Exhaustive over member lists up to the bound; the known defect that sizeof has type int is listed in known_findings.json.'
     + TRUST)

prop('P08', 'Initializers set exactly what they name and zero the rest',
     'After its initialisation every element and member of an object holds the value that its initializer gives, converted '
     'to its type, and the parts without an initializer (and global objects without any) are zero. String literals have exactly the bytes '
     'that they spell, with a terminating zero when there is room.',
     ['programs', 'inputs'], 'all aggregate shapes up to a depth x all fully braced prefix initializers, local and global; all bytes and escapes in strings',
     'The tests hold listings for a few initializers; emptiness, padding and byte values are not enumerated.',
     ['src/immcgen/declaration.c', 'src/immcgen/external.c', 'src/resolver/declaration.c', 'src/literal/sliteral.c', 'src/x64/data.c', 'src/x64gen/data.c'],
     [('expansion of initializer lists', 'src/immcgen/declaration.c, src/immcgen/external.c'), ('data directives', 'src/x64/data.c')],
     'Exhaustive over shapes and prefixes in the bounds, all 256 byte values in strings, string lengths up to 4097.' + TRUST)

exec(open(os.path.join(HERE, 'tools', 'meta2.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'meta2.py')) else None

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
        assert len(p['title']) <= 80, p['title']

checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(HERE, 'checks', 'p%s.py' % p['id'][1:])):
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'],
                           thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p['id'],
                           technique=p['technique'] or T_EXEC, level='model_checking', level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the checks compile its unchanged sources.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
