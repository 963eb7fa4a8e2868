#!/usr/bin/env python3
"""The one source of properties.jsonl and MANIFEST.json: tools/properties.py writes both.

A property is claimed when checks/<id>_*.py exists.
"""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PS = []


def P(id, title, statement, over, quant, why, files, mechanism, technique='property-based testing', note='', na=''):
    PS.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over.split(), quant=quant, why=why,
                   files=files.split(), mechanism=mechanism, technique=technique, note=note, na=na))


N = 'src/kernel/number.cpp include/meevax/kernel/number.hpp '

P('P01', 'Written data read back as equal data',
  '''Whatever write produces for a datum built from booleans, characters, strings, symbols, exact numbers, flonums that
  are not integers, pairs, vectors and bytevectors, read turns back into an equal? datum, whatever characters its
  strings and symbols contain. Reading and writing again gives the same text. display writes the same text but for strings, characters and symbols, which it shows as they are, at any depth.''',
  'inputs', 'all finite data of those types, all Unicode strings and symbol names',
  'The tests write a handful of values; escapes, odd symbols, nesting and quotes inside data are an unbounded space.',
  'src/kernel/string.cpp src/kernel/symbol.cpp src/kernel/character.cpp src/kernel/pair.cpp src/kernel/textual_input_port.cpp src/kernel/textual_output_port.cpp',
  [('operator << of each type and its escapes', 'src/kernel/*.cpp'), ('textual_input_port::read', 'src/kernel/textual_input_port.cpp')],
  'generated data, write/read round trip')

P('P02', 'Any text handed to read yields data, an error or end of file, never a crash',
  '''For every sequence of characters, reading it from a string port as data ends with data, the end-of-file object or
  a raised error that the program can catch (and that read-error? recognises or error-object? does). It never
  crashes the process, loops forever or touches invalid memory.''',
  'inputs', 'all texts: arbitrary bytes, mutated and truncated programs',
  'The tests read well-formed programs only; malformed text is unbounded.',
  'src/kernel/textual_input_port.cpp ' + N,
  [('textual_input_port::read and its read_error throws', 'src/kernel/textual_input_port.cpp')],
  'grammar- and mutation-based fuzzing of the reader under AddressSanitizer')

P('P03', 'The reader accepts the R7RS datum syntax and builds the datum it denotes',
  '''The text of a datum in R7RS syntax, in any spelling (whitespace, comments of all three kinds, datum comments,
  abbreviations, string and character escapes, |symbols|, number prefixes, fold-case directives), is read as exactly
  the datum that text denotes, and reading stops right behind it.''',
  'inputs', 'all data and all spellings of them that R7RS section 7.1 allows and the implementation supports',
  'The tests exercise a few spellings each; their combinations and nesting are unbounded.',
  'src/kernel/textual_input_port.cpp src/kernel/number.cpp src/kernel/character.cpp',
  [('textual_input_port::read', 'src/kernel/textual_input_port.cpp'), ('make_number', 'src/kernel/number.cpp')],
  'generated datum texts against the data they were generated from')

P('P04', 'Shared and circular structure survives writing and reading with datum labels',
  '''write terminates on circular data and labels exactly the cycles; write-shared labels all sharing; reading labelled
  text back rebuilds a graph with the same sharing. Data without cycles are written without labels by write.''',
  'inputs', 'all graphs of pairs', 'The tests have a few fixed cycles.',
  'src/kernel/textual_output_port.cpp src/kernel/textual_input_port.cpp src/kernel/pair.cpp',
  [('datum labels on output', 'src/kernel/pair.cpp'), ('circulate', 'src/kernel/textual_input_port.cpp')],
  'generated graphs, isomorphism after a round trip')

P('P05', 'Exact arithmetic is exact',
  '''+, -, *, /, abs, min, max, gcd, lcm, numerator, denominator, floor, ceiling, truncate, round, expt with an exact
  exponent, square, exact-integer-sqrt, the numeric predicates and the comparisons give the mathematically exact result
  for all exact integers and ratios of any size, and number->string and string->number agree with it in radix 2, 8, 10 and 16.''',
  'inputs', 'all exact rationals, at all magnitudes, in all argument counts and nestings',
  'The tests evaluate a few dozen small constants; fixnum/bignum boundaries, carries and normalisation of ratios are beyond them.',
  N + 'src/kernel/large_integer.cpp src/kernel/ratio.cpp src/kernel/boot.cpp',
  [('operator + - * / and comparison tables', 'src/kernel/number.cpp'), ('canonicalize', 'include/meevax/kernel/number.hpp')],
  'generated exact expressions against Python integers and fractions')

P('P06', 'Integer division operators satisfy their defining equations',
  '''For all integers n and nonzero d, each of floor/, truncate/, ceiling/, round/, euclidean/, balanced/ and their quotient and
  remainder forms, and quotient, remainder and modulo, return the integers q and r with n = dq + r whose rounding rule the operator names.
  The same holds for integral flonums, with inexact results.''',
  'inputs', 'all integers n and d of any size and sign, and integral flonums',
  'The tests check a few sign combinations of small numbers; the sizes, ties and boundary cases are unbounded.',
  N + 'library/srfi-141.ss library/r7rs.ss',
  [('SRFI 141 definitions', 'library/srfi-141.ss'), ('quotient, modulo', 'src/kernel/boot.cpp')],
  'generated operands against Python integers')

P('P07', 'Bitwise operations act as on infinite two\'s-complement integers',
  '''Every bitwise procedure of SRFI 151 (logical operations, shifts, counts, single-bit and field operations,
  bits/list/vector conversions and folds) gives the result it has on two's-complement integers of unbounded width, for integers of every size and sign.''',
  'inputs', 'all exact integers, all valid bit positions and fields',
  'The tests use the examples of the SRFI, nearly all small and nonnegative.',
  N + 'library/srfi-151.ss src/kernel/boot.cpp',
  [('bitwise primitives', 'src/kernel/number.cpp'), ('derived procedures', 'library/srfi-151.ss')],
  'generated operands against Python integers')

P('P08', 'Flonum arithmetic and conversions follow IEEE 754 and R7RS',
  '''Operations on flonums, and on flonums mixed with exact numbers, give the IEEE double result of the operands (exact operands converted to the
  nearest double), with inexact contagion; exact and inexact convert without loss or to the nearest double; floor, ceiling,
  truncate and round (half to even), and the classification predicates are right for every double, including
  infinities, NaN and huge values.''',
  'inputs', 'all doubles and all mixtures with exact numbers', 'The tests take a few constants.',
  N + 'src/kernel/ratio.cpp src/kernel/large_integer.cpp',
  [('mixed operator tables', 'src/kernel/number.cpp'), ('conversion operators', 'src/kernel/large_integer.cpp')],
  'generated flonum expressions against Python floats')

P('P09', 'Number text and comparisons across number types are consistent',
  '''A flonum that is not an integer is printed as text that reads back as the same flonum; number literals of every syntax
  (decimals, exponents, ratios, radix prefixes, rectangular complex numbers) denote the number R7RS gives them; < and > order all reals, exact and inexact, by value and
  are transitive and consistent with max and min.''',
  'inputs', 'all finite reals and their spellings', 'The tests take a few constants.',
  N + 'src/kernel/textual_input_port.cpp',
  [('make_number', 'src/kernel/number.cpp'), ('comparison tables', 'src/kernel/number.cpp')],
  'generated numbers and spellings against Python')

P('P10', 'List procedures compute what R7RS specifies, sharing and copying as specified',
  '''Every R7RS procedure on pairs and lists returns the list R7RS specifies for all arguments, allocates where it must (the
  result of list-copy, append up to the last argument, reverse, map is fresh), shares where it must (append's last argument, list-tail, member, assoc),
  and leaves its arguments unchanged.''',
  'inputs histories', 'all lists, proper and improper, and sequences of operations with mutation',
  'The tests evaluate single calls on short constant lists and do not look for aliasing or argument mutation.',
  'src/kernel/list.cpp src/kernel/boot.cpp library/r7rs.ss library/r4rs.ss library/srfi-1.ss include/meevax/kernel/list.hpp',
  [('list primitives', 'src/kernel/list.cpp'), ('library definitions', 'library/r7rs.ss')],
  'generated operation histories against a model heap')

P('P11', 'SRFI 1 procedures compute what SRFI 1 specifies',
  '''Every SRFI 1 procedure returns what the SRFI specifies for all arguments: constructors, selectors, folds and unfolds, filtering and partitioning,
  searching, deletion and duplicates, association lists and set operations, with the argument order of predicates and the element order it
  specifies, on lists of different lengths and with several list arguments.''',
  'inputs', 'all argument lists and predicates', 'The tests evaluate the examples of the SRFI.',
  'library/srfi-1.ss src/kernel/list.cpp include/meevax/kernel/list.hpp src/kernel/boot.cpp',
  [('SRFI 1 definitions', 'library/srfi-1.ss')],
  'generated calls against a Python model of SRFI 1')

P('P12', 'Strings and characters are sequences of Unicode scalar values',
  '''String procedures index, slice, search, compare, copy, fill and convert by character for every Unicode string,
  character predicates and case mappings follow the Unicode data, comparisons order by code point (case-insensitive ones after folding), and utf8->string and string->utf8 are inverse on
  every string.''',
  'inputs histories', 'all Unicode strings, valid indices and operation sequences', 'The tests use short ASCII strings and one or two others.',
  'src/kernel/string.cpp src/kernel/character.cpp include/meevax/unicode src/kernel/boot.cpp library/r7rs.ss',
  [('string', 'src/kernel/string.cpp'), ('Unicode tables', 'include/meevax/unicode')],
  'generated strings and mutation histories against a Python model')

P('P13', 'Vectors and bytevectors behave as mutable arrays',
  '''Histories of vector, bytevector and SRFI 4 operations (construct, ref, set!, fill!, copy, copy! with overlap, append, map,
  for-each, conversions, all with optional ranges) leave every vector with the elements R7RS specifies; mutation through one reference is seen through all aliases and no others.
  Numeric vectors store and return elements with the range and precision of their type.''',
  'histories', 'all histories over several live vectors', 'The tests check single calls.',
  'src/kernel/vector.cpp include/meevax/kernel/homogeneous_vector.hpp src/kernel/boot.cpp library/r7rs.ss library/srfi-4.ss',
  [('vector', 'src/kernel/vector.cpp'), ('homogeneous_vector', 'include/meevax/kernel/homogeneous_vector.hpp')],
  'stateful testing against a model of arrays')

P('P14', 'Ports deliver exactly the characters and bytes written, in order',
  '''Over any history of operations on string, bytevector and file ports, input returns exactly the characters or bytes of the source in order, peeking
  consumes nothing, line and block reads split at the right places, end of file is reported at the end and only there, and output
  accumulates exactly what was written. A file written and closed reads back the same; closed ports report being closed.''',
  'histories', 'all contents and histories of port operations', 'The tests read one or two small fixed texts.',
  'src/kernel/textual_input_port.cpp src/kernel/textual_output_port.cpp include/meevax/kernel/binary_input_port.hpp include/meevax/kernel/output_string_port.hpp src/kernel/boot.cpp library/r7rs.ss',
  [('textual_input_port', 'src/kernel/textual_input_port.cpp'), ('binary ports', 'src/kernel/input_homogeneous_vector_port.cpp')],
  'stateful testing against a model of ports')

P('P15', 'Programs evaluate as the language defines',
  '''A program over the R7RS expression and definition forms (lambda with all formals, define, internal definitions, set!, let forms, named let, do, case, cond with =>,
  when, unless, and, or, begin, quasiquote, apply, higher-order calls, closures with shared mutable state, vectors and lists) computes the value and output that
  the language definition gives it, however the forms are nested.''',
  'programs', 'all terminating, deterministic programs over these forms',
  'The tests evaluate small hand-written expressions; nesting and interaction of binding forms, captures and tail contexts are unbounded.',
  'src/kernel/environment.cpp src/kernel/syntactic_environment.cpp include/meevax/kernel/syntactic_environment.hpp include/meevax/kernel/dynamic_environment.hpp src/kernel/dynamic_environment.cpp library/r4rs.ss library/r7rs.ss library/meevax.ss',
  [('compiler', 'include/meevax/kernel/syntactic_environment.hpp'), ('virtual machine', 'include/meevax/kernel/dynamic_environment.hpp'), ('derived syntax', 'library')],
  'generated programs, differential against an independent interpreter')

P('P16', 'Tail calls run in bounded space',
  '''A loop made of tail calls (in every tail position the language defines: if, cond, case, and, or, when, unless, let forms, do, begin,
  apply, mutual recursion, call/cc and dispatch through closures) runs any number of iterations without growing memory or overflowing the stack,
  and gives the right result.''',
  'programs', 'all nestings of tail positions', 'The tests time or run only one fixed loop.',
  'include/meevax/kernel/syntactic_environment.hpp include/meevax/kernel/dynamic_environment.hpp library/r4rs.ss library/r7rs.ss',
  [('tail_call instructions', 'include/meevax/kernel/dynamic_environment.hpp'), ('tail flag of generate', 'include/meevax/kernel/syntactic_environment.hpp')],
  'generated loops over nested tail contexts, memory-limited')

P('P17', 'Continuations and dynamic-wind run exactly the thunks the language defines',
  '''Escaping from, re-entering and repeatedly invoking continuations across nested dynamic-wind extents runs the before and
  after thunks in the order R7RS specifies, delivers the passed value to the captured context, and
  leaves later control flow intact.''',
  'programs histories', 'all nestings of dynamic-wind and sequences of captures and jumps', 'The tests contain two or three fixed scenarios.',
  'src/kernel/continuation.cpp include/meevax/kernel/dynamic_environment.hpp library/meevax.ss library/r5rs.ss',
  [('call/cc and windup', 'library/meevax.ss'), ('continuation', 'include/meevax/kernel/continuation.hpp')],
  'generated control programs against a CPS reference interpreter')

P('P18', 'Exceptions reach the right handler with the right object',
  '''raise, raise-continuable, error, guard (with =>, else and re-raise), with-exception-handler and errors signalled by the
  system deliver the raised object to the innermost applicable handler in the dynamic environment of the raise minus that handler,
  return from continuable ones, unwind dynamic-wind extents, and restore handlers afterwards.''',
  'programs', 'all nestings of handlers, guards, winds and raises', 'The tests contain a few fixed nestings.',
  'src/kernel/error.cpp include/meevax/kernel/dynamic_environment.hpp library/meevax.ss library/srfi-34.ss library/r7rs.ss',
  [('with-exception-handler, raise', 'library/srfi-34.ss'), ('guard', 'library/r7rs.ss')],
  'generated exception programs against a CPS reference interpreter')

P('P19', 'syntax-rules matches and expands as R7RS specifies',
  '''For every syntax-rules macro, a use is rewritten by the first rule whose pattern matches, with pattern variables, nested ellipses, tails after an ellipsis, dotted and vector patterns,
  literals, underscore, custom ellipsis and (... ...) escapes instantiated as R7RS specifies.''',
  'programs', 'all patterns, templates and uses', 'The tests contain a few dozen fixed macros.',
  'library/r4rs.ss library/srfi-149.ss library/meevax.ss src/kernel/transformer.cpp',
  [('syntax-rules implementation', 'library/srfi-149.ss')],
  'generated rules and uses against a reference matcher')

P('P20', 'Macros are hygienic',
  '''Consistently renaming the local variables of a program that defines and uses macros never changes what it computes; bindings introduced by a macro
  never capture names of its user, and free names of a macro refer to the bindings where the macro was defined, whatever the user has bound around the use.''',
  'programs', 'all programs with macros and all renamings', 'The tests contain a few textbook capture cases.',
  'src/kernel/identifier.cpp src/kernel/syntactic_closure.cpp include/meevax/kernel/syntactic_environment.hpp library/meevax.ss library/srfi-149.ss',
  [('syntactic closures and identifiers', 'include/meevax/kernel/syntactic_environment.hpp'), ('rename in transformers', 'library')],
  'metamorphic: alpha-renaming of generated macro programs')

P('P21', 'Garbage collection is invisible to programs',
  '''At whatever allocations the collector runs, a program computes the same output: no object that the program can still reach is ever reclaimed or changed by collection.''',
  'schedules programs', 'all programs and all choices of collection points',
  'In tests collections happen rarely and always at the same places.',
  'src/kernel/collector.cpp include/meevax/kernel/collector.hpp include/meevax/memory/allocator.hpp include/meevax/memory/pointer_set.hpp',
  [('mark and sweep with conservative roots', 'include/meevax/kernel/collector.hpp'), ('trivially registered roots', 'include/meevax/memory/pointer_set.hpp')],
  'generated programs run under generated collection schedules, differential')

P('P22', 'Garbage is reclaimed: memory stays bounded by live data',
  '''A program that allocates without end while keeping a bounded amount reachable (including through circular structures, closures, continuations, strings, ports, vectors and big numbers) runs in bounded memory.''',
  'programs', 'all allocation patterns with bounded live data', 'No test measures memory.',
  'src/kernel/collector.cpp include/meevax/kernel/collector.hpp include/meevax/memory/allocator.hpp',
  [('sweep', 'include/meevax/kernel/collector.hpp')],
  'generated allocation loops under a memory limit')

P('P23', 'The memory containers keep exactly what was put into them',
  '''The pointer set behaves as an ordered set of addresses under every sequence of insertions, deletions, lookups and iterations; the
  pool allocator never hands out a block twice while it is in use and keeps alignment; a tagged pointer returns exactly the type and value stored in it.''',
  'histories', 'all operation histories and values', 'The tests insert a few fixed addresses.',
  'include/meevax/memory/pointer_set.hpp include/meevax/memory/allocator.hpp include/meevax/memory/nan_boxing_pointer.hpp',
  [('pointer_set', 'include/meevax/memory/pointer_set.hpp'), ('allocator', 'include/meevax/memory/allocator.hpp'), ('nan_boxing_pointer', 'include/meevax/memory/nan_boxing_pointer.hpp')],
  'stateful C++ harness against std::set and shadow memory, AddressSanitizer')

P('P24', 'Import sets bind exactly the names they denote, to the library\'s bindings',
  '''For every combination of only, except, prefix and rename around a library, exactly the denoted names become visible and refer to the exported bindings;
  a library body is evaluated once however often it is imported, and nothing it does not export is visible to importers.''',
  'programs configurations', 'all libraries, exports and nestings of import sets', 'The tests import standard libraries with single modifiers.',
  'src/kernel/library.cpp include/meevax/kernel/library.hpp src/kernel/environment.cpp include/meevax/kernel/environment.hpp',
  [('import_set', 'src/kernel/library.cpp')],
  'generated libraries and import sets against a model')

P('P25', 'cond-expand selects the first clause whose requirement holds',
  '''For every nesting of and, or, not, library and feature requirements, cond-expand at top level, in bodies, in expressions, in library declarations and in the expansions of macros includes exactly the forms of the first clause whose
  requirement is true of features and the available libraries.''',
  'configurations programs', 'all requirements', 'The tests have a few fixed requirements.',
  'src/kernel/conditional_expand.cpp include/meevax/kernel/conditional_expand.hpp library/srfi-0.ss src/kernel/library.cpp',
  [('test of requirements', 'src/kernel')],
  'generated requirements against boolean evaluation')

P('P26', 'Promises are forced at most once, iteratively, and keep their first value',
  '''Forcing a promise evaluates its expression at most once unless forced recursively, always yields the value first computed, delay-force chains run in bounded space, and make-promise does not wrap promises again.''',
  'programs', 'all programs of delay, delay-force, make-promise and force', 'The tests contain a few textbook streams.',
  'library/srfi-45.ss library/r7rs.ss library/meevax.ss',
  [('promise boxes', 'library/srfi-45.ss')],
  'generated promise graphs against a model')

P('P27', 'Parameters have dynamic extent',
  '''Inside parameterize a parameter has the converted value given, everywhere outside the value it had, also when control leaves or re-enters the body through continuations or exceptions; converters are applied to each new value exactly once.''',
  'programs', 'all nestings of parameterize and non-local control flow', 'The tests contain a few straight-line cases.',
  'library/srfi-39.ss library/r7rs.ss library/meevax.ss',
  [('dynamic environment and parameterize', 'library/srfi-39.ss')],
  'generated parameter programs against a CPS reference interpreter')

P('P28', 'Records keep their fields apart and their types disjoint',
  '''For every define-record-type, constructors set exactly the named fields, accessors and modifiers act on exactly their field of exactly their object, and predicates are true of exactly the instances of their own type.''',
  'programs histories', 'all record definitions and histories of operations', 'The tests define one record type.',
  'library/srfi-9.ss library/r7rs.ss',
  [('define-record-type', 'library/srfi-9.ss')],
  'generated record types and histories against a model')

P('P29', 'eq?, eqv? and equal? agree with R7RS on all data',
  '''equal? is structural equality on all data; eqv? and eq? distinguish separately allocated mutable objects and identify an object with itself; eq? implies eqv? implies equal?, all are equivalence relations, and member, assoc, assv and case use the relation they name.''',
  'inputs', 'all pairs of data, including shared and freshly copied structure', 'The tests check the examples of the report.',
  'include/meevax/kernel/comparator.hpp src/kernel/comparator.cpp src/kernel/pair.cpp src/kernel/vector.cpp include/meevax/kernel/list.hpp',
  [('equal, eqv', 'src/kernel/comparator.cpp')],
  'generated data pairs against a model of identity')

P('P30', 'The interpreter reports success and failure through its exit status and streams',
  '''Running files and expressions from the command line evaluates them in order, sends output to standard output and errors to standard error, exits with the status
  given to exit (0 for normal end, nonzero for #f or an uncaught error), runs pending dynamic-wind after thunks on exit but not on emergency-exit, and flushes what was written.''',
  'programs inputs', 'all programs and ways of ending them', 'The test suite only looks at checks that a finished script prints.',
  'src/main.cpp include/meevax/kernel/configuration.hpp src/kernel/configuration.cpp library/r7rs.ss',
  [('main', 'src/main.cpp'), ('configuration', 'src/kernel/configuration.cpp')],
  'generated scripts run as real processes, against a model')

P('P31', 'Quasiquotation builds the structure its template denotes',
  '''Every quasiquote template, with unquote and unquote-splicing at any depth, in tails and in vectors, nested to any level, evaluates to the structure R7RS specifies, evaluating exactly the level-zero subexpressions.''',
  'inputs', 'all templates', 'The tests contain the examples of the report.',
  'library/r4rs.ss library/r7rs.ss src/kernel/textual_input_port.cpp',
  [('quasiquote macro', 'library/r4rs.ss')],
  'generated templates against a reference expander')

P('P32', 'eval sees exactly its environment',
  '''eval of an expression in an environment made by environment, interaction-environment or the report environments sees exactly the bindings of that environment, gives the value the expression has there, and definitions made in one environment are not visible in another.''',
  'programs configurations', 'all expressions and environment specifications', 'The tests evaluate one or two expressions.',
  'src/kernel/environment.cpp src/kernel/interaction_environment.cpp library/r7rs.ss library/r5rs.ss',
  [('environment::evaluate', 'src/kernel/environment.cpp')],
  'generated expressions evaluated directly and through eval')

P('P33', 'Multiple values and argument lists are delivered completely and in order',
  '''call-with-values, receive, let-values, let*-values, define-values, case-lambda, apply and procedures with optional and rest formals deliver every argument to its formal in order, case-lambda
  selects the first clause that accepts the argument count, and rest lists are fresh.''',
  'programs', 'all formals and argument counts', 'The tests take small fixed counts.',
  'library/srfi-11.ss library/srfi-8.ss library/srfi-16.ss library/r7rs.ss library/r5rs.ss include/meevax/kernel/dynamic_environment.hpp',
  [('values', 'library/r5rs.ss'), ('case-lambda', 'library/srfi-16.ss')],
  'generated formals and calls against a model')

P('P34', 'Fixnum and flonum libraries agree with generic arithmetic in their range',
  '''Each SRFI 143 fixnum operation and each SRFI 144 flonum operation returns what the specification defines for all arguments in its domain, in agreement with the generic operators and IEEE arithmetic.''',
  'inputs', 'all fixnums and doubles in the domain', 'The tests evaluate a few constants each.',
  'library/srfi-143.ss library/srfi-144.ss src/kernel/boot.cpp',
  [('definitions', 'library/srfi-143.ss')],
  'generated operands against Python')

P('P35', 'Text spread over files means what it means in one piece',
  '''A program or library means the same when any of its forms are moved into files that it includes with include, include-ci or include-library-declarations, at top level, in bodies, in expressions and in library
  declarations, nested to any depth and in any directories; load evaluates the forms of a file in order in the given environment or in the interaction environment; a library is found in the file its name says.''',
  'programs configurations', 'all programs and all ways to spread them over files', 'The tests include two or three fixed files.',
  'include/meevax/kernel/include.hpp src/kernel/environment.cpp src/kernel/library.cpp src/kernel/textual_context.cpp src/kernel/expander.cpp src/kernel/syntactic_environment.cpp include/meevax/kernel/input_file_port.hpp library/r4rs.ss',
  [('include', 'include/meevax/kernel/include.hpp'), ('textual_context::proxy::locate', 'src/kernel/textual_context.cpp'), ('environment::load', 'src/kernel/environment.cpp')],
  'generated programs spread over generated files, against the reference interpreter lib/ref.py on the whole text')

P('P36', 'Complex numbers compute as the pairs of real numbers they are',
  '''Arithmetic on exact complex numbers gives exactly the real and imaginary part that the field of complex numbers defines, a result with a zero imaginary part is the real number itself for every procedure,
  make-rectangular, make-polar, real-part, imag-part, magnitude, angle, exact and inexact convert between the representations, and sqrt, expt, exp, log and the trigonometric procedures give the principal values on inexact complex numbers.''',
  'inputs', 'all complex numbers with exact or with inexact parts', 'The tests evaluate a dozen constants.',
  'src/kernel/complex.cpp src/kernel/number.cpp include/meevax/kernel/number.hpp src/kernel/number/power.cpp src/kernel/number/exponential.cpp src/kernel/number/trigonometric.cpp src/kernel/boot.cpp',
  [('operator * (complex const&, complex const&)', 'src/kernel/number.cpp'), ('canonicalize', 'include/meevax/kernel/number.hpp'), ('complex::complex', 'src/kernel/complex.cpp')],
  'generated expressions over complex numbers, against pairs of Python fractions (exact) and Python cmath within 1e-11 (inexact)')

P('P37', 'No program makes the interpreter access memory it must not',
  '''No program, whatever it computes or reads, makes the interpreter read or write outside an object, use an object after its end, or perform an operation that C++ leaves undefined, as long as the
  program itself only asks for what its libraries define (arguments of the right types, indexes in range).''',
  'programs inputs', 'all programs that keep to the domains of the procedures they call', 'The tests run without sanitizers, and most invalid accesses go unnoticed.',
  'src/kernel/string.cpp src/kernel/number.cpp src/kernel/large_integer.cpp src/kernel/list.cpp src/kernel/textual_input_port.cpp src/kernel/dynamic_environment.cpp src/kernel/boot.cpp include/meevax/kernel/homogeneous_vector.hpp include/meevax/memory/nan_boxing_pointer.hpp',
  [('procedures', 'src/kernel/boot.cpp'), ('dynamic_environment::run', 'include/meevax/kernel/dynamic_environment.hpp'), ('nan_boxing_pointer', 'include/meevax/memory/nan_boxing_pointer.hpp')],
  'the generated programs of 27 other checks and object-churn programs, run by an interpreter built with AddressSanitizer and UndefinedBehaviorSanitizer (the oracle: no report, no signal)')



def main():
    have = {f.split('_')[0].upper() for f in os.listdir(os.path.join(VERIF, 'checks')) if f.startswith('p') and f.endswith('.py')}
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PS:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}}, ensure_ascii=False) + '\n')
            assert len(p['title']) <= 80, p['id']
    checks, na = [], []
    for p in PS:
        if p['id'] in have:
            checks.append({
                'property': p['id'],
                'quick_cmd': 'python3 checks/run.py %s --tier quick' % p['id'],
                'thorough_cmd': 'python3 checks/run.py %s --tier thorough' % p['id'],
                'technique': p['technique'],
                'level': 'exploration',
                'level_note': p['note'] or 'Random search with shrinking over generated cases against an independent oracle; says nothing about cases not generated. See DESIGN.md.'})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or 'check not written yet'})
    m = {'version': 1, 'setup_cmd': 'python3 lib/build.py', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'claimed', len(na), 'not')


main()
