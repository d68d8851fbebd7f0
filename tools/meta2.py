# further properties (executed by meta.py)
prop('P09', 'Pointers, arrays and strings reach exactly the objects C says',
     'Pointer arithmetic, subscripts, differences and comparisons scale by the size of the pointee, and every access path through '
     'arrays, pointers, structures and strings, however nested, reads and writes exactly the object that C designates. '
     'A value written through one path is seen through every other path to the same object, and no other object changes.',
     ['programs', 'inputs'], 'all pointee kinds x index types x positions; all access paths of array/pointer/struct constructors up to a depth',
     'The tests hold listings for a few subscripts and member accesses; strides, index types and nested paths are not enumerated.',
     ['src/resolver/expression.c', 'src/resolver/conversion.c', 'src/immcgen/expression.c', 'src/x64gen/datainst.c', 'src/dtype/dtype.c'],
     [('scaling of pointer arithmetic', 'src/resolver/expression.c'), ('address computation', 'src/immcgen/expression.c')],
     'Exhaustive over pointee kinds, positions in small arrays and constructor strings up to the depth; objects below 2 GiB. The known '
     'defect that a pointer difference has an unsigned type is listed in known_findings.json.' + TRUST)

prop('P10', 'Every name denotes the declaration that C scoping selects',
     'Each use of an identifier denotes the innermost visible declaration of its name space (ordinary names, tags, the members of each '
     'structure), so shadowing, reuse in sibling or nested blocks and functions, and parameters behave as in C. Uses outside the scope '
     'and conflicting redeclarations in one scope are diagnosed.',
     ['programs'], 'all placements of declarations and uses of one or two names over block trees; all pairs of declaration kinds',
     'Scoping errors need a particular nesting of declarations and uses; the tests have a few fixed ones.',
     ['src/symtab/symtab.c', 'src/tagtab/tagtab.c', 'src/resolver/declaration.c', 'src/resolver/statement.c', 'src/resolver/external.c', 'src/immcgen/statement.c'],
     [('scoped symbol table', 'src/symtab/symtab.c'), ('scoped tag table', 'src/tagtab/tagtab.c')],
     'Exhaustive over block trees and placements in the bounds.' + TRUST)

prop('P11', 'Source text is split into tokens exactly as C prescribes',
     'The compiler takes the longest possible token at every point, white space only separates tokens, identifiers are told apart by all '
     'their characters and from keywords, and every integer, character and string constant has the value and type of its spelling. '
     'Text that is not a sequence of valid tokens is refused with an error message.',
     ['inputs'], 'all operator character strings, constant spellings, escapes and bytes in the bounds, in a program whose result shows them',
     'Each lexer test reads one fixed text; which byte follows which is what decides tokenisation and cannot be sampled.',
     ['src/lexer/lexer.c', 'src/lexer/reader.c', 'src/lexer/util.c', 'src/literal/iliteral.c', 'src/literal/sliteral.c', 'src/freader/freader.c', 'src/common/type.c'],
     [('longest match', 'src/lexer/reader.c'), ('type of integer constants', 'src/lexer/util.c')],
     'Exhaustive over short character strings in several frames and all bytes at all positions of small programs; longer token sequences '
     'are not enumerated here.' + TRUST)

prop('P12', 'Programs have the structure that C\'s grammar gives them',
     'Operator precedence and associativity, declarators of any nesting, declaration specifiers in any order, type names, casts, lists '
     'and the binding of else and of statement bodies are those of the C grammar, so an accepted program means what its structure says. '
     'Token sequences outside the grammar are refused with an error message.',
     ['programs', 'inputs'], 'all operator triples without parentheses, all short token sequences in four contexts, all declarators up to a depth, all '
     'specifier sequences, all unbraced statement nestings up to a size',
     'The parser tests compare a syntax tree per construct with a hand-written one; combinations of constructs are what the grammar is about.',
     ['src/parser/expression.c', 'src/parser/declaration.c', 'src/parser/statement.c', 'src/parser/external.c', 'src/resolver/declaration.c', 'src/dtype/dtype.c'],
     [('recursive descent by precedence', 'src/parser/expression.c'), ('composition of declarators', 'src/resolver/declaration.c')],
     'Exhaustive over the token sequences, declarators and nestings in the bounds, judged by execution (values, sizes, traces) or by '
     'acceptance and refusal.' + TRUST)

prop('P13', 'Ill-formed programs are refused with a message and no output',
     'A program that breaks a rule of the language (types of operands, conversions, argument counts, misplaced or duplicate labels, '
     'conflicting or incomplete declarations, undeclared names, malformed text) is refused with exit status 1, an error message and no '
     'assembly output. A program of the supported language is never refused.',
     ['programs'], 'all pairs of type kinds in every operator and conversion context, all placements of jumps and labels, pairs of declarations, '
     'every one-token change of seed programs',
     'The error tests check fixed programs one by one; which of two neighbouring programs is well-formed is decided by the whole combination.',
     ['src/resolver/expression.c', 'src/resolver/declaration.c', 'src/resolver/statement.c', 'src/resolver/external.c', 'src/resolver/conversion.c',
      'src/dtype/dtype.c', 'src/main.c'],
     [('type checks of operators', 'src/resolver/expression.c'), ('assignability', 'src/resolver/conversion.c, src/dtype/dtype.c')],
     'Exhaustive over the kinds and contexts listed; constructs outside the subset of C that umlcc supports may be accepted or refused.' + TRUST,
     'bounded explicit-state model checking: every program of a bounded space is judged by the reference model and by the compiler')

prop('P14', 'The compiler ends every input in a result or a message, and cleanly',
     'On every source text the compiler ends, in time and memory that grow moderately with the size of the input, with either an output file '
     'and exit status 0 or an error message and exit status 1; it never crashes, hangs or is killed. On the way it never reads or writes memory '
     'outside its live objects and never depends on uninitialised memory.',
     ['inputs', 'programs'], 'every enumerated input of the other checks, pairs of faults, short token sequences, and nesting and size ladders of every '
     'construct, compiled by builds with AddressSanitizer and MemorySanitizer',
     'The tests compile small, mostly correct programs; recovery after errors, deep nesting and table growth are not explored.',
     ['src/main.c', 'src/parser/expression.c', 'src/resolver/resolver.c', 'src/immcgen/immcgen.c', 'src/regalloc/regalloc.c', 'src/x64gen/x64gen.c',
      'src/vector/vector.c', 'src/map/map.c', 'src/lexer/lexer.c'],
     [('error returns of every stage', 'src/*/*ret.c'), ('containers', 'src/vector/vector.c, src/map/map.c')],
     'Exhaustive over the listed input spaces; nesting up to 500 levels (1000 in the thorough tier) and 1025 (3000) elements. Deeper nesting exhausts '
     'the stack. The known exponential growth of nested compound assignments is listed in known_findings.json. Trusted: the sanitizers.',
     'bounded explicit-state model checking: all inputs of bounded spaces are run through the real compiler in instrumented builds, each run checked '
     'for an admissible final state')

prop('P15', 'A run writes the complete output next to the source, or fails visibly',
     'Given one argument that names a readable file ending in .c with a well-formed program, the compiler writes exactly the assembly of that program to the '
     'same path with .c replaced by .s and exits with 0; in every other case (wrong arguments, unreadable or refused source, output that cannot be created '
     'or completely written) it prints an error message and exits with 1. The source and all other files stay as they were, and a refused source leaves no new '
     'output, also when files are in the way, system calls fail, earlier runs were killed at any point, or other compilers run in the same directory.',
     ['inputs', 'histories', 'fault_sequences', 'crash_points', 'schedules'], 'argument vectors and names, states of source and output path, the graph of '
     'directory states, every size limit, every failing system call (and pairs), a kill before every system call (and pairs), all interleavings of two '
     'compilers with two switches at system call granularity',
     'No test runs the program with anything but a good source and a writable directory.',
     ['src/main.c', 'src/freader/freader.c'], [('output written after all stages succeeded', 'src/main.c'), ('reading of the source', 'src/freader/freader.c')],
     'Exhaustive over the lists and over the system calls of four sources. Failing memory allocation is not covered. Trusted: Linux, ptrace.',
     'stateless model checking of the real compiler process: explicit-state exploration of directory states and a ptrace scheduler that enumerates faults, kills '
     'and interleavings at every system call')

prop('P16', 'The output depends on nothing but the source text',
     'Compiling the same source text gives the same result (the same output bytes, or a refusal) in every run: whatever the environment variables, directory, '
     'file name, earlier outputs, open descriptors, limits, user, memory addresses and contents of fresh memory, and whatever compiler and optimisation level umlcc '
     'itself was built with.',
     ['configurations', 'programs', 'histories'], 'all programs of the corpora x builds with other compilers and poisoned heaps; fixtures and ladders x 90 process configurations',
     'The tests compile each program once, in one environment.',
     ['src/main.c', 'src/map/map.c', 'src/set/set.c', 'src/regalloc/regalloc.c', 'src/x64gen/x64gen.c', 'src/common/type.c'],
     [('iteration over hashed containers', 'src/map/map.c, src/set/set.c')],
     'Exhaustive over the corpora and configurations listed in the check; other environments are not explored.',
     'explicit-state exploration of configurations: every program of bounded corpora in every configuration on the real compiler, all final states compared')

prop('P17', 'Constructs keep their meaning in every combination and at any scale',
     'A statement or expression means the same next to, inside and after any other, in every function of a program with any number of functions, objects, types, '
     'constants, strings, labels and blocks, whatever their names. Files compiled separately link with each other (as position independent and as fixed executables) '
     'and together behave as C prescribes for the whole program.',
     ['programs', 'inputs'], 'all ordered pairs of 91 constructs, all in 14 statement contexts nested twice, all compositions of three of 16 functions, tables of 1..513 entities of 18 kinds '
     'with every entity looked up, names that the assembler knows, programs split over four files',
     'Each test exercises one construct in a small program; interactions and growth of the compiler\'s tables are not explored.',
     ['src/immcgen/immcgen.c', 'src/x64gen/x64gen.c', 'src/regalloc/regalloc.c', 'src/resolver/resolver.c', 'src/vector/vector.c', 'src/map/map.c', 'src/symtab/symtab.c',
      'src/immcgen/external.c', 'src/x64gen/label.c'],
     [('label and register numbering', 'src/immcgen/immcgen.c'), ('tables', 'src/map/map.c, src/vector/vector.c')],
     'Exhaustive over the combinations listed; larger combinations and tables are not explored.' + TRUST)

prop('P18', 'Containers and scope tables behave as the abstract types they stand for',
     'Whatever sequence of operations a vector, map, set, pair, live-range sequence, symbol table or tag table has gone through (adding, replacing, removing, '
     'copying, growing, shrinking, entering and leaving scopes), every query and iteration gives what the mathematical sequence, map, set or scope stack gives after the same sequence, '
     'whatever the hashes of the keys. Objects handed over are owned: each is deleted exactly once, copies share nothing with their originals, and no operation '
     'touches freed or foreign memory.',
     ['histories'], 'all operation sequences up to a depth (vector 4 from 27 sizes, map 6, set 5, pair 6, scope tables 5) x hash assignments with and without collisions; key ladders up to 258',
     'Unit tests run a few fixed sequences; errors of removal, replacement and growth show up only after particular histories.',
     ['src/vector/vector.c', 'src/map/map.c', 'src/map/cell.c', 'src/set/set.c', 'src/pair/pair.c', 'src/liveseq/liveseq.c', 'src/symtab/symtab.c', 'src/tagtab/tagtab.c', 'src/common/type.c'],
     [('open addressing with tombstones', 'src/map/map.c'), ('growth', 'src/vector/vector.c'), ('scopes', 'src/symtab/symtab.c, src/tagtab/tagtab.c')],
     'Exhaustive over the operation sequences up to the depths; deeper histories are covered by ladders only. Null values, popping empty vectors and failing allocation are not covered.',
     'stateless model checking: exhaustive depth-first enumeration of operation sequences on the real modules (in a build with sanitizers) in lockstep with abstract models')

prop('P19', 'Types are the same exactly when C says they are compatible',
     'Wherever a program is right only if two types are compatible (assignment, initialisation, arguments, results, comparison, difference and selection of pointers, parameter and result types of functions), '
     'it is accepted exactly when C makes them compatible: whatever the depth of pointers, arrays, functions and structures, and whatever spelling, typedef name, '
     'parentheses or parameter names they were declared with. Structures of different tags or of tags declared in different scopes are different types.',
     ['programs'], 'all pairs of types of derivation depth 1 and all neighbours of those of depth 2 (3 in the thorough tier) in 7 contexts; all pairs of 95 spellings in 9 contexts; tags in nested scopes',
     'Tests compare a handful of type pairs; one wrong component of a composed type is seen only with a pair that differs exactly there.',
     ['src/dtype/dtype.c', 'src/dtype/function.c', 'src/dtype/struct.c', 'src/dtype/pointer.c', 'src/dtype/array.c', 'src/dtype/typedef.c', 'src/resolver/conversion.c', 'src/resolver/declaration.c', 'src/resolver/expression.c', 'src/tagtab/tagtab.c'],
     [('structural comparison', 'src/dtype/*.c'), ('identity of tagged structures', 'src/tagtab/tagtab.c, src/resolver/declaration.c')],
     'Exhaustive over the pairs and contexts listed. Enumerations against integers, void pointers in comparisons and tags first named in a parameter list are left open.' + TRUST)
