REF = 'the reference interpreter (mc/ref.cpp) as the model, stepped in lockstep with the real code: every model trace is replayed on the implementation'
BND = 'Exhaustive within the bounds in the evidence (grammar terms up to two or three nested operators over stated leaves, every input string over the stated alphabet up to the stated length); nothing outside them is decided. Trusts g++ and the reference interpreter.'
G = 'explicit-state exploration of all grammar terms x all inputs up to a bound on the real code, against ' + REF
TECH = {
 'C01': (G, BND),
 'C02': (G + ' (types and values)', BND),
 'C03': (G + ' (abandoned attempts at every position)', BND),
 'C04': (G + ', with allocation counting and read-only, guarded input pages', BND),
 'C05': (G + ' (lookahead against parse with conditions taken as true)', BND),
 'C06': ('exhaustive enumeration of element values and of written orders of sets on the real code, against the mathematical set', 'Every value of element types up to 16 bits; boundary neighbourhoods for wider types. Trusts g++.'),
 'C07': (G + ', run both on the simplified and on the unsimplified term', BND),
 'C08': (G, BND),
 'C09': (G, BND),
 'C10': (G, BND),
 'C11': (G + ' with the sequence of user-function calls as observable', BND),
 'C12': (G + '; substitution applied to the model term by an independent rewriter', BND),
 'C13': (G + '; all forms and bracketings of modifier compositions', BND),
 'C14': ('exhaustive enumeration of inputs x input representations x element types on the real code, against ' + REF, BND),
 'C15': ('exhaustive enumeration of equality relations x inputs x grammars on the real code, against ' + REF, BND),
 'C16': ('exhaustive exploration of grammars x inputs with the execution monitored by guard pages, AddressSanitizer, UBSan, libstdc++ assertions, valgrind and allocation balance', BND + ' Undefined behaviour means what these monitors report.'),
 'C17': ('exhaustive exploration of grammars x inputs inside constant expressions, compared with the run-time result', BND),
 'C18': ('explicit-state exploration of histories of parses: all operation sequences to a depth, plus every reachable state of hidden static data', 'Histories up to the stated depth; hidden state is found from the symbol table, saved, hashed and restored. Trusts g++, objdump.'),
 'C19': ('stateless model checking of thread interleavings under a controlled scheduler (all schedules up to a preemption bound) with happens-before race detection on every access', 'Sequentially consistent interleavings at memory-access granularity; bounds on threads and preemptions in the evidence.'),
 'C20': ('exhaustive fault injection: every throwing point (user call, copy, move, construction, allocation) of every explored parse', BND),
 'C22': (G + ', with a step bound; element comparisons counted at doubling sizes', BND + ' The linear bound is checked at the stated sizes.'),
 'C23': (G + ' over instrumented values (object ledger: created, moved, copied, destroyed)', BND),
 'C24': ('explicit-state exploration of operation histories over result objects against a small abstract model', 'All histories up to the stated depth over 27 value types and conversions.'),
}
TECH['C21'] = ('explicit-state exploration of rule systems (recursive custom parsers in every position) x all inputs up to a bound, plus nesting depths, on the real code, against ' + REF, BND)
TECH['C25'] = ('exhaustive enumeration of character and token sequences, one-byte edits and nesting depths on the real example, each run in lockstep with a hand-written recursive-descent model', 'Exhaustive within the stated lengths. Trusts g++ and the oracle.')
TECH['C26'] = ('exhaustive enumeration of character and token sequences, one-byte edits and nesting depths on the real example, each run in lockstep with a hand-written parser, evaluator and printer', 'Exhaustive within the stated lengths; values compared within rounding where they are in range. Trusts g++ and the oracle.')
TECH['C27'] = ('exhaustive enumeration of input lengths x mismatch positions up to a bound and around each counter width, of repetition counts, literal and set sizes, alternatives and nesting depths on the real code, each against a closed-form model', 'Every length and position up to 300 (700), neighbourhoods of 2^9, 2^10, 2^15, 2^16 and chosen points around 2^31 and 2^32. Trusts g++ and the closed forms.')
TECH['C28'] = ('exhaustive enumeration of pairs of element sequences x operand representations x element types on the real code, against element-wise comparison of plain vectors', 'All sequences over three elements up to length 4 (5) on both sides. Trusts g++.')
