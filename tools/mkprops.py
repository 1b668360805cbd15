#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json
I = 'include/k3/tok3n/'
D = I + 'detail/'
P = D + 'parsers/'
O = D + 'operators/'
M = D + 'modifiers/'
def prop(id, title, st, over, q, why, files, mech, obs, state=None):
    d = {'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': obs, 'hook_needed': None}}
    if state: d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    assert len(title) <= 80, title
    return d

props = [
prop('C01', 'Recognition is exactly the documented PEG reading of the grammar',
 'For every grammar built from the public leaves, operators and modifiers, and every input, parsing succeeds exactly when the parsing-expression reading of the grammar matches a prefix of the input, and it consumes exactly that prefix. Choice is ordered (the first matching alternative wins and later ones are not tried), sequence matches its parts left to right, optional and repeated parts are greedy and never give input back, and "complete" succeeds only if its inner parser leaves no input.',
 ['inputs', 'programs'], 'Every grammar expressible with the operators, at any nesting, on every input string.',
 'Tests run a few hand-picked inputs per parser family, with almost no nesting of one combinator inside another; the number of grammar/input pairs is unbounded.',
 [P + f for f in ('all_of.h', 'any_of.h', 'none_of.h', 'choice.h', 'sequence.h', 'maybe.h', 'exactly.h', 'one_or_more.h', 'zero_or_more.h', 'delimit.h', 'complete.h', 'epsilon.h', 'filter.h')],
 [('fold over alternatives / parts', P + 'choice.h, ' + P + 'sequence.h'), ('input cursor advance', D + 'helpers.h'), ('greedy loops', P + 'zero_or_more.h')],
 ['has_value() and remaining() of the result of parse']),
prop('C02', 'The result value has the documented shape and holds exactly what was matched',
 'The type of a successful result follows from the grammar alone by the documented rules: value-less parts disappear, a single remaining part stands alone, several parts of a sequence form a tuple in order, alternatives form a variant of the distinct types in first-occurrence order, an optional part an optional, a repetition a vector, a fixed repetition an array. Every element of the value is the value of the part that matched there, in input order, the variant index names the alternative type that matched, and an alternative without value yields a default-constructed result.',
 ['inputs', 'programs'], 'Every grammar (all mixes and orders of value-less and valued parts of equal and different types) and every input it matches.',
 'Tests pin the type computation on a few lists and check values on a few inputs; which pattern of equal, different and value-less types occurs where is combinatorial.',
 [D + 'helpers.h', D + 'filter.h', P + 'choice.h', P + 'sequence.h', P + 'maybe.h', P + 'exactly.h', P + 'one_or_more.h', P + 'zero_or_more.h', P + 'delimit.h'],
 [('index of each part among the kept / distinct types', D + 'filter.h'), ('result builder', D + 'helpers.h')],
 ['value_type and value() of the result of parse'],
 [('builder value', 'the value under construction', D + 'helpers.h')]),
prop('C03', 'A failed match leaves no trace; a successful one leaves exactly the rest',
 'When parsing fails, the remaining input of the result is the whole original input (same address, same length) and there is no value. When it succeeds, the remaining input is exactly the unconsumed suffix of the original input; nothing matched by an attempt that was later abandoned (a failed alternative, a failed optional part, the last unsuccessful round of a repetition, a trailing delimiter) is consumed or shows up in the value.',
 ['inputs', 'programs'], 'Every grammar, every input, and every place at which an attempt can be abandoned after having consumed part of the input.',
 'Tests look at whole-parser failures on the first element mostly; a partial match abandoned inside another combinator is rarely exercised.',
 [D + 'helpers.h', P + 'choice.h', P + 'sequence.h', P + 'exactly.h', P + 'delimit.h', P + 'complete.h', P + 'join.h', P + 'filter.h', P + 'maybe.h', D + 'result.h'],
 [('original input kept for the failure result', P + 'exactly.h'), ('cursor advanced only on success', D + 'helpers.h')],
 ['remaining() and value() of the result']),
prop('C04', 'Matched text is returned as views into the caller\'s input, without allocation',
 'Every view in a result denotes exactly the matched elements inside the caller\'s own buffer (offset and length; an empty view denotes the place where its match ended), never a copy or a temporary. Parsing with a grammar none of whose parts yields a container or a user object performs no allocation, lookahead never allocates, and the input buffer is never written.',
 ['inputs', 'programs'], 'Every grammar and every input.',
 'Tests compare view contents, which a dangling or copied buffer also satisfies, and never count allocations.',
 [D + 'span.h', P + 'basic_base.h', P + 'join.h', D + 'optimizations/join_one_or_more_basic.h', D + 'optimizations/join_zero_or_more_basic.h', D + 'optimizations/join_exactly_basic.h', D + 'optimizations/join_maybe_basic.h'],
 [('view over the input span', D + 'span.h'), ('value view made from the input cursor', P + 'basic_base.h')],
 ['data()/size() of every view in the result', 'operator new']),
prop('C05', 'Lookahead recognises like parsing, but produces nothing and calls nothing',
 'For every grammar and input, lookahead succeeds and consumes exactly as parse does for the same grammar with its filter conditions and its join-adjacency conditions taken as satisfied. Lookahead never yields a value, never calls a user function, never allocates; ignoring a parser is the same as looking ahead with it, and the ignored part contributes no value.',
 ['inputs', 'programs'], 'Every grammar, every input, both entry points.',
 'Each combinator has two separate implementations, and tests compare them on a few inputs of one-level grammars.',
 [P + f for f in ('basic_base.h', 'choice.h', 'sequence.h', 'maybe.h', 'exactly.h', 'one_or_more.h', 'zero_or_more.h', 'delimit.h', 'complete.h', 'ignore.h', 'join.h', 'map.h', 'filter.h', 'named.h', 'custom.h')],
 [('separate lookahead function per combinator', P + '*.h')], ['lookahead result', 'calls of user functions']),
prop('C06', 'Literals and character classes match exactly their element sets',
 'A class parser matches exactly one element that is (or, negated, is not) in its set, for every element value of the element type, regardless of the order and repetition in which the set was written. A literal parser matches exactly its sequence of elements, including zero elements in the middle; union, complement and merging of classes denote the corresponding set operations.',
 ['inputs'], 'Every element value of every character type (and of non-character types), every set, every literal, every mismatch position and every truncation of the input.',
 'Tests try a handful of ASCII characters; negative, high and zero element values, duplicates and orderings of sets are not covered.',
 [I + 'basic.h', D + 'static_array.h', D + 'set_operations.h', O + 'choice.h', O + 'not.h', P + 'any_of.h', P + 'none_of.h', P + 'all_of.h', D + 'span.h'],
 [('sort_and_unique', D + 'static_array.h'), ('set operations', D + 'set_operations.h'), ('contains', D + 'static_array.h')], ['has_value() and remaining()']),
prop('C07', 'The automatic simplifications of operators preserve meaning',
 'Combining parsers with an operator means the same whether or not the library simplifies the combination: sequences and choices are associative, concatenated literals equal one literal, merged classes equal the choice of the classes, repeated "~", "+", "*" and "!" collapse as documented, repeated ignore/join/complete are idempotent, and choosing between a parser and itself is that parser. On every input the simplified parser succeeds on, consumes and yields exactly what the documented law says.',
 ['programs', 'inputs'], 'Every operand for which a law applies, and every input.',
 'Tests compare the resulting types for a few operands; that the resulting parser still means the same is not tested.',
 [O + f for f in ('choice.h', 'sequence.h', 'maybe.h', 'one_or_more.h', 'zero_or_more.h', 'not.h', 'epsilon.h')] + [M + 'ignore.h', M + 'join.h', M + 'complete.h', D + 'set_operations.h'],
 [('overloads of the operators per operand family', O + '*.h')], ['results of both sides of each law']),
prop('C08', 'Optional and repeated parts match the right number of times',
 'Zero-or-more and one-or-more match as many consecutive times as possible and stop at the first round that does not match or that consumes nothing; one-or-more fails only if the first round fails; optional matches once or not at all; "exactly N" matches N consecutive times or fails as a whole. The resulting container holds one element per counted round, in order, and the input continues right after the last counted round.',
 ['inputs', 'programs'], 'Every body (of any width, nullable or not, with or without value) and every input, any number of rounds.',
 'Tests use single-character bodies and two or three rounds.',
 [P + 'zero_or_more.h', P + 'one_or_more.h', P + 'maybe.h', P + 'exactly.h', D + 'helpers.h'],
 [('loop until failure', P + 'zero_or_more.h')], ['value() and remaining()']),
prop('C09', 'Delimited lists alternate elements and delimiters and keep a trailing one unread',
 'A delimited list needs at least one element, then matches delimiter-element pairs as long as a whole pair matches; a delimiter not followed by an element is left in the input. The value holds all elements in order and, when delimiters are kept and have values, exactly the delimiters between them, one fewer than the elements.',
 ['inputs', 'programs'], 'Every element and delimiter parser (overlapping, multi-character, nullable, value-less) and every input.',
 'Tests use comma-like single-character delimiters and short lists; partially matched delimiters, delimiters that look like elements, and value-less combinations are hardly exercised.',
 [P + 'delimit.h', M + 'delimit.h', M + 'delimit_keep.h', D + 'helpers.h'], [('lookahead for the next element before consuming the delimiter', P + 'delimit.h')], ['value() and remaining()']),
prop('C10', 'Join yields one view over adjacent matches, identically on every code path',
 'Joining a parser yields the single view that spans all matched pieces, and fails if two non-empty pieces are not adjacent in the input; empty pieces never matter and a join of nothing is an empty match. The specialised joins of repeated classes and literals give the same result as the general one on every input.',
 ['inputs', 'programs'], 'Every joinable grammar (nested tuples, vectors, optionals, arrays, with ignored gaps anywhere) and every input.',
 'Tests join short flat grammars; the specialised code paths are only compared on a few inputs with the expected text.',
 [P + 'join.h', D + 'optimizations/join_exactly_basic.h', D + 'optimizations/join_maybe_basic.h', D + 'optimizations/join_one_or_more_basic.h', D + 'optimizations/join_zero_or_more_basic.h', M + 'join.h'],
 [('adjacency test', P + 'join.h'), ('partial specialisations', D + 'optimizations/')], ['value() and remaining()']),
prop('C11', 'User functions run once per match, in order, with its value, never otherwise',
 'A mapping function is called exactly once for each successful match of its inner parser during parsing, with exactly that match\'s value (spread out for the apply forms, no argument for value-less matches), in left-to-right matching order; its return value becomes the value. A filter\'s predicate is called once per inner match and decides success without changing the value; no user function is called for failed matches, under ignore, or in lookahead; constant and default forms yield their value for every match.',
 ['inputs', 'programs', 'histories'], 'Every placement of functions in grammars, every answer of the predicates, every input.',
 'Tests call one function on one input; call counts, orders and the answers of several predicates in one grammar are not explored.',
 [P + 'map.h', P + 'filter.h', D + 'functions.h', D + 'apply.h', D + 'helpers.h', M + 'map.h', M + 'apply.h', M + 'into.h', M + 'apply_into.h', M + 'filter.h', M + 'apply_filter.h', M + 'constant.h', M + 'defaulted.h'],
 [('invoke on the inner value', P + 'map.h'), ('apply over tuple elements', D + 'apply.h')], ['sequence of calls and their arguments', 'value()']),
prop('C12', 'Names are transparent, and substitution rewrites exactly the named parts',
 'Naming a parser never changes what it recognises or yields. Substituting a name applies the given modifier to every part carrying exactly that name, at any depth and in every position, and to nothing else; the result behaves like the grammar written with the modifier in those places and without that name, and several substitutions act one after the other in the order given.',
 ['programs', 'inputs'], 'Every grammar, every placement of names, every substitution list, every input.',
 'Tests substitute in one or two fixed grammars and compare types; nested names, repeated names and chains of substitutions are not covered.',
 [P + 'named.h', M + 'name.h', M + 'sub.h', D + 'substitution.h'], [('recursive rewriting of template arguments', M + 'sub.h')], ['results of the substituted parser']),
prop('C13', 'Modifiers mean the same in call form, operator form and composed',
 'Applying a modifier by calling it on a parser or by "%" gives the same parser; composing modifiers with "%" first and applying the composition equals applying them one after the other, however the composition is bracketed. Two-argument forms (delimiting, substituting) agree with their curried forms.',
 ['programs', 'inputs'], 'Every modifier, every chain of modifiers, every bracketing, every parser and input.',
 'Tests check single modifiers and a couple of pairs.',
 [D + 'modifier.h', O + 'modifier.h', M + 'multi.h', M + 'delimit.h', M + 'delimit_keep.h', M + 'sub.h'], [('fold over the composed list', M + 'multi.h'), ('operator% overloads', O + 'modifier.h')], ['parser types and results']),
prop('C14', 'The result does not depend on how the same input elements are passed in',
 'Passing the same elements as a pointer to a zero-terminated string, a string literal, a character array, a string, a string view, a span, an array or a vector (const or not, lvalue or rvalue) gives the same outcome and value with views at the same offsets into that container. A pointer and a literal (a const character array) end before their first zero element; all other containers have exactly their size, so embedded zero elements are data there.',
 ['inputs', 'configurations'], 'Every supported input representation, every input (including empty and with embedded zeros), every grammar.',
 'Tests pass string literals and string views only for most parsers.',
 [D + 'span.h', P + 'basic_base.h'], [('input span constructors and deduction guides', D + 'span.h')], ['results per representation']),
prop('C15', 'Any equality-comparable element type can be parsed, compared only with ==',
 'Grammars over any element type work on inputs of every element type that is equality-comparable with it, and match exactly where == says so. Only == between input and grammar elements is used, every input element is read at its position and no element is copied or modified. (Where the library merges negated classes it presumes that an input element equals at most one of the distinct elements of the grammar; a single class or literal presumes nothing.)',
 ['inputs', 'configurations'], 'Every pair of grammar and input element types, every input, and every (even irregular) equality relation.',
 'Tests cover a few types with ordinary equality on a few inputs.',
 [D + 'type_traits.h', D + 'span.h', D + 'static_array.h', P + 'any_of.h', P + 'all_of.h'], [('equality_comparable_with', D + 'type_traits.h'), ('element loop', D + 'span.h')], ['results and the calls of operator==']),
prop('C16', 'Parsing never touches memory outside the input or leaves undefined behaviour',
 'For every grammar and input, parsing and lookahead read only the input\'s own elements (never before the first, never past the last, no terminator needed), write nothing but their own results, and free everything they allocate exactly once. No undefined behaviour (overflow, invalid pointer use, uninitialised read) occurs on any input.',
 ['inputs', 'programs'], 'Every grammar and every input, with the input at either edge of accessible memory.',
 'A test input normally has readable memory around it, so an over-read passes unnoticed.',
 [D + 'span.h', P + 'basic_base.h', P + 'all_of.h', D + 'optimizations/join_exactly_basic.h', D + 'optimizations/join_one_or_more_basic.h', D + 'result.h'],
 [('size test before element access', P + 'all_of.h')], ['memory accesses']),
prop('C17', 'Parsing at compile time gives the same result as at run time',
 'For every grammar and input, evaluating parse or lookahead in a constant expression is possible and gives the same outcome, value and remaining input as at run time.',
 ['inputs', 'programs'], 'Every grammar and every input.',
 'Tests evaluate the same few inputs at compile time only; the two evaluations take different branches in places.',
 [P + 'join.h', D + 'helpers.h', D + 'span.h', D + 'static_array.h'], [('branch on constant evaluation', P + 'join.h')], ['constant-expression results vs run-time results']),
prop('C18', 'Every parse is independent of all earlier parses and their results',
 'The result of parsing depends only on the grammar and the input: it is the same whatever was parsed before, by whichever parser, successfully, unsuccessfully or ended by an exception, and even if earlier inputs were modified or destroyed. A result obtained earlier is not changed by later parses, and owned values stay valid after their input is gone.',
 ['histories'], 'Every sequence of parse, lookahead, buffer change and result drop operations.',
 'Tests parse once per parser; no test runs a history.',
 [P + '*.h', D + 'helpers.h'], [('no state outside the call frame', D + 'helpers.h')], ['results along a history']),
prop('C19', 'Threads may parse with the same grammar at the same time',
 'Concurrent parses in any number of threads, with the same or different grammars and inputs, give the results each would give alone, under every interleaving, and perform no conflicting access to shared memory.',
 ['schedules'], 'Every interleaving of the memory accesses of concurrent parses.',
 'The tests are single-threaded.',
 [P + '*.h', D + 'helpers.h'], [('no shared mutable state', D + 'helpers.h')], ['results per schedule', 'memory accesses per thread']),
prop('C20', 'Exceptions from user code or allocation pass through without leak or damage',
 'If a user function, a copy, move or construction of a user value, or an allocation throws at any point during a parse, that exception reaches the caller unchanged, every object created by the parse is destroyed exactly once and its memory released, and later parses are unaffected. If nothing throws, no exception is thrown by parsing, whatever the input.',
 ['fault_sequences', 'inputs', 'programs'], 'Every grammar, input and point of failure (n-th allocation, n-th user call, n-th copy or move).',
 'No test injects a failure.',
 [D + 'helpers.h', P + 'map.h', P + 'zero_or_more.h', P + 'exactly.h', P + 'delimit.h', D + 'result.h'], [('automatic storage of partial results', D + 'helpers.h')], ['exception type', 'live objects and allocations afterwards']),
prop('C21', 'Recursive grammars through custom parsers mean their rule equations',
 'A custom parser behaves exactly like the parser it returns, with the declared result type if one is declared; custom parsers may refer to themselves and to each other, and such a grammar recognises and yields what its rules say at every nesting depth.',
 ['programs', 'inputs'], 'Every set of mutually recursive rules without left recursion, every input and nesting depth.',
 'Tests define one or two simple custom parsers and parse a few flat inputs.',
 [P + 'custom.h', D + 'helpers.h'], [('deferred get_parser()', P + 'custom.h')], ['results']),
prop('C22', 'Parsing always terminates, also when a repeated part matches nothing',
 'Every parse and lookahead of a grammar without left recursion terminates on every input, including repetitions and delimited lists whose body or delimiter can match without consuming: such a round ends the repetition. The number of element comparisons of a repetition, also of one written as a rule that refers to itself once per round, grows at most in proportion to the input it covers.',
 ['programs', 'inputs'], 'Every grammar with nullable parts in repeated positions and every input.',
 'Tests never repeat a parser that can match nothing.',
 [P + 'zero_or_more.h', P + 'one_or_more.h', P + 'delimit.h', D + 'optimizations/join_one_or_more_basic.h', D + 'optimizations/join_zero_or_more_basic.h'], [('loop exit conditions', P + 'zero_or_more.h')], ['termination', 'count of element comparisons']),
prop('C23', 'Values move through combinators: none lost, duplicated, copied or leaked',
 'A value produced by a user function reaches the result through any stack of combinators by moving only: move-only values work wherever a value is stored, values with a non-throwing move are not copied, the result holds exactly the produced objects and no moved-from one, and all others are destroyed exactly once by the time the parse returns.',
 ['inputs', 'programs'], 'Every combinator stack around a value-producing parser, every input, every value type category.',
 'Tests place one move-only value in a few combinators and do not count copies or destructions.',
 [D + 'helpers.h', D + 'result.h', P + 'map.h', P + 'filter.h', P + 'choice.h', P + 'sequence.h', P + 'exactly.h', P + 'delimit.h', P + 'join.h'], [('std::move along the builders', D + 'helpers.h')], ['construction, copy, move and destruction events of user values']),
prop('C24', 'A result behaves as an optional value with a remaining input',
 'A result converts to true exactly if it has a value; value() and operator* give that value with the value category of the result and value() throws the standard bad-access exception on a failed one; default construction, copying, moving, assignment and conversion to a result of a convertible value type preserve success, value and remaining input. Results of value-less parsers have the same interface without a value.',
 ['histories'], 'Every sequence of operations on results, from every initial state (default, failed, successful; value-less, copyable, move-only).',
 'Tests only read fresh results.',
 [D + 'result.h'], [('optional value plus remaining span', D + 'result.h')], ['observers after each operation'],
 [('_result', 'value if successful', D + 'result.h'), ('_remaining', 'unconsumed input', D + 'result.h')]),
prop('C25', 'The JSON example accepts its grammar\'s documents and builds the right value',
 'The JSON example parser recognises exactly the documents of its grammar (JSON with escapes kept verbatim in strings and no control-character restriction) wherever whitespace is allowed, and the value it builds has the same structure, member order, strings, number parts and literals as the text.',
 ['inputs'], 'Every token sequence and every nesting.',
 'The example has no tests; its main function parses one document and looks at nothing.',
 ['examples/json/json.cpp'], [('recursive custom parsers', 'examples/json/json.cpp')], ['success and value of JsonValue']),
prop('C26', 'The algebraic example parses, evaluates and prints per its grammar',
 'The algebraic example accepts exactly the expressions of its documented grammar, with ^ right-associative and binding tightest, then * and /, then + and - left-associative, and a minus sign negating the whole following expression. Evaluation gives the arithmetic value of that reading (within the range and precision of double) including decimal fractions and powers of ten, and printing shows each node once at its depth.',
 ['inputs'], 'Every expression.',
 'The example has no tests; its main function evaluates four fixed expressions.',
 ['examples/algebraic/parser.h', 'examples/algebraic/evaluate.h', 'examples/algebraic/print.h'], [('precedence levels as custom parsers', 'examples/algebraic/parser.h'), ('left and right folds', 'examples/algebraic/evaluate.h')], ['parse success, evaluate(), print() output']),
prop('C27', 'Results stay exact for large inputs, large counts and long literals',
 'All of the above holds for inputs of any length, any number of rounds, literals of any length and any fixed repetition count: lengths, offsets and counts are never truncated or wrapped, in particular around 2^8, 2^16, 2^31 and 2^32.',
 ['inputs'], 'Every input size and count around each integer-width boundary.',
 'Test inputs are shorter than 256 elements.',
 [D + 'span.h', P + 'exactly.h', P + 'zero_or_more.h', P + 'join.h', P + 'basic_base.h', D + 'optimizations/join_exactly_basic.h'], [('std::size_t lengths throughout', D + 'span.h')], ['sizes, offsets, element counts of results']),
prop('C28', 'Views compare by content and convert without loss',
 'Two result views, or a view and a string, literal, string view, vector, array or span (a literal or pointer taken up to its first zero), compare equal exactly if they have the same elements in the same order, in both operand orders and for != as the negation, and also across element types comparable by ==. A view\'s size, emptiness, iteration, first element, prefixes and subviews, and its conversion to a string view, all denote the same elements.',
 ['inputs', 'configurations'], 'Every pair of contents (prefixes, different lengths, one differing element anywhere), every operand type.',
 'Tests compare a few equal pairs.',
 [D + 'span.h'], [('element-wise comparison', D + 'span.h')], ['operator==, operator!=, accessors']),
]
with open('/verif/properties.jsonl', 'w') as f:
    for p in props: f.write(json.dumps(p) + '\n')
