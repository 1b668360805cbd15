"""One function per property: builds the bounded space, explores it on the real code, decides."""
import itertools, os, re, subprocess, sys
import concurrent.futures as cf
from infra import *
from families import *

A5 = ['--maxlen=5']
def alpha(s): return '--alphabet=' + s.encode().hex()
CORE_ASSUME = ['the grammar space is bounded by operator count and by the leaf sets named in DESIGN.md',
               'inputs are all strings over the stated alphabet up to the stated length',
               'g++ 13 at the stated optimisation level, and samples by clang 18 where the check has such a part; std::string_view input unless the check varies it']

def filter_un(a):
    yield from un_core(a)
    yield filter_(a, 2 if a.ty != VOID else 1)

def wide_part(c, mask, cflags=('-O0',), pick=None, args=()):
    gs = wide(c.thorough)
    if pick: gs = [g for g in gs if pick(g)]
    c.grammars('large', cases(gs, 'W'), ['--inputs=' + runs_file(c, wide_inputs()), '--mask=' + mask, *args], cflags=cflags)

def long_part(c, mask, cflags=('-O0',), step=16, off=0, pick=None, args=(), name='long', **kw):
    """Inputs of 16 to 1025 letters, so that everything that repeats does it many times."""
    gs = long_grammars()
    if pick: gs = [g for g in gs if pick(g)]
    if not c.thorough: gs = gs[off % step::step]
    c.grammars(name, cases(gs, 'L'), ['--inputs=' + runs_file(c, long_inputs(c.thorough)), '--mask=' + mask, '--hang=60', *args], cflags=cflags, shard=20, **kw)

def declared_part(c, mask, cflags=('-O0',), step=1, off=0, args=A5):
    pre, gs = declared_values(c.thorough)
    c.grammars('declared_values', cases(gs if c.thorough else gs[off::step], 'y'), [*args, '--mask=' + mask], cflags=cflags, prelude=pre)

def rules_part(c, mask, cflags=('-O0',), step=1, off=0, leaves=None):
    """Custom parsers (and custom parsers of custom parsers) around every one-operator grammar, in every context."""
    bs = core(un=un_all, leaves=leaves or [any_('a'), all_('ab')], depth2=False)
    b, d = any_('b'), all_('ba')
    pre, gs = [], []
    for i, x in enumerate(bs):
        pre.append('struct Ru%d : custom_parser<Ru%d> { static consteval auto get_parser() { return %s; } };\n' % (i, i, x.cpp))
        y = custom(x, 'Ru%d{}' % i)
        if i % 3 == 0:
            pre.append('struct Rv%d : custom_parser<Rv%d> { static consteval auto get_parser() { return Ru%d{} >> ~"b"_any; } };\n' % (i, i, i))
            y2 = custom(seq(y, maybe(b)), 'Rv%d{}' % i)
            gs += [y2, ignore(y2), choice(seq(y2, any_('c')), y), delimit(b, y2)]
        gs += [y, ignore(y), seq(y, b), seq(ignore(y), d), choice(seq(y, any_('c')), y), choice(d, y), star(seq(y, b)), delimit(y, b), delimit(b, y), delimit_keep(y, y), maybe(y), exactly(y, 2), complete(y), name(y, 'n'),
               filter_(y, 1 if y.ty == VOID else 3), map_(y, 9), ignore(seq(y, b, y)), plus(ignore(choice(seq(y, b), d))), seq(maybe(ignore(y)), map_(b, 8))]
        if joinable(y.ty): gs += [join(y), join(seq(y, maybe(b))), ignore(join(y)), join(plus(y))]
    gs = uniq(gs)
    if not c.thorough: gs = gs[off::step]
    c.grammars('rules', cases(gs, 'u'), A5 + ['--mask=' + mask], cflags=cflags, prelude=''.join(pre))

def edges_part(c, mask, cflags=('-O0',), step=2, off=0, pick=None, args=A5):
    gs = edge_grammars(c.thorough)
    if pick: gs = [g for g in gs if pick(g)]
    c.grammars('edges', cases(gs if c.thorough else gs[off::step], 'e'), [*args, '--mask=' + mask], cflags=cflags)

def round_grammars():
    """Fixed repetitions of parts that can match nothing, with and without functions around the part."""
    a, b, ab, c3 = any_('a'), any_('b'), all_('ab'), none_('a')
    nul = [maybe(a), maybe(ab), star(b), all_(''), choice(ab, EPS), choice(a, b, EPS), seq(maybe(a), maybe(b)), exactly(maybe(a), 2), maybe(ign_('a')), ignore(maybe(ab)), star(ignore(b)), seq(maybe(ign_('a')), maybe(b)),
           maybe(seq(a, b)), maybe(delimit(a, b)), join(maybe(ab)), join(star(b)), name(maybe(a), 'n'), maybe(map_(a, 2)), star(wmap(b, 2)), maybe(filter_(a, 1)), choice(map_(ab, 4), wmap(a, 5), EPS), a, ab]
    gs = []
    for i, x in enumerate(nul):
        fs = [x, map_(x, 1), wmap(x, 6), filter_(x, 2 if x.ty != VOID else 1), const_(x, 3), dflt_(x, 4), ignore(x), name(map_(x, 7), 'm'), maybe(map_(x, 8))]
        if applicable(x.ty): fs += [apply_(x, 9), afilter(x, 3)]
        for j, f in enumerate(fs):
            gs += [exactly(f, 3), exactly(f, 4), [seq(exactly(f, 5), b), exactly(exactly(f, 3), 2), delimit(exactly(f, 4), b), choice(seq(exactly(f, 3), any_('c')), exactly(f, 4)), map_(exactly(f, 4), 10), seq(a, exactly(f, 6))][(i + j) % 6]]
            if joinable(f.ty): gs += [join(exactly(f, 4))]
    return uniq(gs)
def rounds_part(c, mask, step=1, off=0, pick=None):
    gs = [g for g in round_grammars() if not pick or pick(g)]
    c.grammars('rounds', cases(gs if c.thorough else gs[off::step], 'n'), ['--maxlen=%d' % (7 if c.thorough else 5), '--mask=' + mask], cflags=('-O0',))

def literal_grammars():
    """Literals and classes of up to 65 elements, and everything that compares or repeats them."""
    S = ('abcabbacacbbcaab' * 5)
    gs = []
    for n in (3, 4, 5, 7, 8, 9, 11, 12, 15, 16, 17, 19, 23, 24, 25, 31, 32, 33, 47, 63, 64, 65):
        w = all_(S[:n])
        ctx = [w, join(star(w)), choice(seq(w, any_('c')), w), join(exactly(w, 2)), seq(maybe(w), w), star(w), ignore(w), delimit(w, any_('c')), plus(ignore(w)), join(plus(w)), complete(w), seq(any_('a'), all_(S[1:n])), choice(w, all_(S[:n - 1])), name(join(maybe(w)), 'n'), choice(all_(S[:n - 1] + 'd'), w)]
        gs += ctx if n in (8, 9, 17, 33) else ctx[:2] + ctx[2 + n % 3::3]
    al = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-'
    for n in (3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64):
        for f in (any_, none_):
            x, y = f(al[1:n + 1]), f(al[n:0:-1])
            gs += [x, [star(x), join(plus(x)), plus(x)][n % 3], [join(star(y)), seq(y, maybe(x)), delimit(any_('a'), y), exactly(y, 2)][n % 4]]
    return uniq(gs), S, al
def clang_part(c, mask, gs=None, step=3, off=0, prelude=''):
    """The same grammars built by the other compiler: unspecified evaluation orders and compiler-dependent code of the library."""
    if gs is None:
        a, b = any_('a'), any_('bc')
        gs = core(un=un_all, leaves=[any_('ab'), all_('ab'), none_('a')], depth2=False)
        gs += [f(x) for i, x in enumerate(gs) for f in [(star, lambda g: seq(g, b)), (maybe, lambda g: choice(seq(g, b), a)), (lambda g: delimit(g, b), lambda g: join(g) if joinable(g.ty) else ignore(g)), (lambda g: delimit_keep(a, g), lambda g: exactly(g, 3))][i % 4]]
        gs += list(wide_choices((7,))) + list(wide_counts((3, 5)))[::3]
    gs = uniq(gs)[off % step::1 if c.thorough else step]
    c.grammars('clang', cases(gs, 'k'), A5 + ['--mask=' + mask], prelude=prelude, cflags=('-O1' if off % 2 else '-O0',), cxx='clang++', shard=25)

def literals_part(c, mask, cflags=('-O0',), step=1, off=0, args=(), pick=None, name='literals', **kw):
    gs, S, al = literal_grammars()
    ins = [S[:n] for n in range(80)] + [S[:n] + t for n in range(67) for t in 'abcd'] + [S[:n] + S[:m] for n in (3, 4, 5, 7, 8, 9, 16, 17, 33, 64) for m in sorted({0, 1, n - 1, n, n + 1})] + [S[:n] + 'c' + S[:n] for n in (7, 8, 9, 32)]
    for n in (9, 17, 33, 65): ins += [S[:k] + 'd' + S[k + 1:n] for k in range(n)]
    ins += [x for ch in al for x in (ch, ch + ch, 'b' + ch, ch + 'b', 'a' + ch + 'a')] + [al, al[::-1], al[1:33] * 2, 'e' * 40]
    if pick: gs = [g for g in gs if pick(g)]
    c.grammars(name, cases(gs if c.thorough else gs[off::step], 'L'), ['--inputs=' + runs_file(c, sorted(set(ins), key=lambda s: (len(s), s))), '--mask=' + mask, *args], cflags=cflags, **kw)

ELEMS = ['wchar_t', 'char16_t', 'char32_t', 'char8_t', 'unsigned char', 'signed char', 'short', 'int', 'unsigned', 'long long', 'Enum', 'double']
def elements_part(c, mask, cflags=('-O0',), gs=None, step=3, off=0, args=A5):
    """Grammars over other element types, whose different elements agree in most of their bits."""
    if gs is None:
        a, b = any_('a'), any_('bc')
        gs = core(un=un_all, leaves=[any_('ab'), all_('ab'), none_('a')], depth2=False)
        gs = gs + [f(x) for i, x in enumerate(gs) for f in [(star, lambda g: seq(g, b)), (maybe, lambda g: choice(seq(g, b), a)), (lambda g: delimit(g, b), lambda g: join(g) if joinable(g.ty) else ignore(g)), (lambda g: delimit_keep(a, g), lambda g: exactly(g, 3))][i % 4]]
        gs += list(wide_choices((7,))) + list(wide_counts((3, 5)))[::3]
    gs = uniq(g for g in gs if not any(x in g.cpp for x in ('strinto', 'svinto', 'std::string', 'struct', '{}')))
    cs = []
    for i, g in enumerate(gs):
        for j, e in enumerate(ELEMS):
            if (i + j + off) % (3 * step if not c.thorough else max(1, len(gs) * len(ELEMS) // 3000)) == 0: cs.append(case(g, 'E%d_%d' % (i, j)) + ((), None, e))
    c.grammars('elements', cs, [*args, '--mask=' + mask], cflags=cflags, prelude='enum class Enum : int {};')

def bit_leaves():
    # three leaves with independent answers at every position: letter k of the alphabet is in leaf i iff bit i of k
    al = 'abcdefgh'
    return [any_(''.join(al[k] for k in range(8) if k >> i & 1)) for i in range(3)]

def C01(c):
    gs = core(un=filter_un)
    c.grammars('core', cases(gs), A5 + ['--mask=rec,fail'], cflags=('-O0', '-DMC_NOVAL', '-DMC_NOLOOK'))
    a, b = any_('a'), any_('b')
    parts = [a, all_('ab'), maybe(a), star(b), ign_('a'), plus(choice(a, b)), complete(star(b)), exactly(none_('a'), 2)]
    wide = [f(*xs) for n in (3, 4 if c.thorough else 3) for xs in slots(n, parts) for f in (seq, choice)]
    wide += [choice(*xs, EPS) for xs in slots(2, parts)]
    c.grammars('wide', cases(uniq(wide), 'w'), ['--maxlen=6', alpha('abc'), '--mask=rec,fail'], cflags=('-O0', '-DMC_NOVAL', '-DMC_NOLOOK'))
    X, Y, Z = bit_leaves()
    indep = []
    for f, g in itertools.product((seq, choice, delimit, delimit_keep), repeat=2):
        indep += [g(f(X, Y), Z), g(Z, f(X, Y)), maybe(g(f(X, Y), Z)), star(g(f(X, Y), Z)), g(star(f(X, Y)), Z), g(Z, plus(f(X, Y))), g(maybe(f(X, Y)), Z), exactly(g(f(X, Y), Z), 2)]
    c.grammars('independent', cases(uniq(indep), 'i'), ['--maxlen=%d' % (5 if c.thorough else 4), alpha('abcdefgh'), '--mask=rec,fail'], cflags=('-O0', '-DMC_NOVAL', '-DMC_NOLOOK'))
    if c.thorough:
        t1 = core(un=filter_un, depth2=False)
        deep = uniq(level(t1, lambda a: (), bi_core))
        c.grammars('pairs', cases(deep, 'p'), A5 + ['--mask=rec,fail'], cflags=('-O0', '-DMC_NOVAL', '-DMC_NOLOOK'))
    rules_part(c, 'rec,fail', ('-O0', '-DMC_NOVAL', '-DMC_NOLOOK'), 4, 1)
    wide_part(c, 'rec,fail', ('-O0', '-DMC_NOVAL', '-DMC_NOLOOK'))
    edges_part(c, 'rec,fail', ('-O0', '-DMC_NOVAL', '-DMC_NOLOOK'), step=1)
    elements_part(c, 'rec,fail', ('-O0', '-DMC_NOVAL', '-DMC_NOLOOK'), step=3, off=0)
    literals_part(c, 'rec,fail', ('-O0', '-DMC_NOVAL', '-DMC_NOLOOK'), step=2, off=1)
    long_part(c, 'rec,fail', ('-O0', '-DMC_NOVAL', '-DMC_NOLOOK'), step=5)
    clang_part(c, 'rec,fail', step=2)
    return c.finish(CORE_ASSUME)

def C02(c):
    k5 = ['void', 'V', 'vec', 'O1', 'O2']
    ch = [g for n in (2,) for g in typed_choices(n, list(TYPE_PARTS))]
    ch += list(typed_choices(3, ['void', 'V', 'vec', 'O1', 'O2', 'opt', 'w'] if c.thorough else k5 + ['b']))
    ch += list(typed_choices(4, k5 if c.thorough else ['void', 'V', 'O1', 'O2']))
    ch += list(typed_choices(5, ['void', 'V', 'O1']))
    c.grammars('choices', cases(uniq(ch), 'c'), ['--maxlen=3', alpha('abcde'), '--mask=rec,val,type'], cflags=('-O0', '-DMC_NOLOOK'))
    sq = list(typed_seqs(2, list(TYPE_PARTS))) + list(typed_seqs(3, k5 + ['opt', 'w'] if c.thorough else k5)) + list(typed_seqs(4, k5 if c.thorough else ['void', 'V', 'O1', 'vec']))
    c.grammars('sequences', cases(uniq(sq), 's'), ['--maxlen=5', alpha('abcd'), '--mask=rec,val,type'], cflags=('-O0', '-DMC_NOLOOK'))
    L = [any_('a'), all_('ab'), ign_('b'), map_(none_('a'), 1)]
    gs = core(un=un_core, leaves=L)
    if c.thorough: gs = uniq(gs + level(core(un=un_core, leaves=L, depth2=False), lambda a: (), bi_core))
    c.grammars('core', cases(gs), A5 + ['--mask=rec,val,type'], cflags=('-O0', '-DMC_NOLOOK'))
    vs = value_grammars_of_types(c.thorough)
    c.grammars('values', cases(vs if c.thorough else [g for i, g in enumerate(vs) if i % 5 == i // 40 % 5], 'x'), ['--maxlen=4', alpha('abc'), '--mask=rec,val,type'], cflags=('-O0', '-DMC_NOLOOK'), prelude=VALUES_PRE)
    rules_part(c, 'rec,val,type', ('-O0', '-DMC_NOLOOK'), 4, 2)
    wide_part(c, 'rec,val,type', ('-O0', '-DMC_NOLOOK'))
    edges_part(c, 'rec,val,type', ('-O0', '-DMC_NOLOOK'), step=2)
    rounds_part(c, 'rec,val,type', step=4, off=2)
    elements_part(c, 'rec,val,type', ('-O0', '-DMC_NOLOOK'), step=4, off=1)
    long_part(c, 'rec,val,type', ('-O0', '-DMC_NOLOOK'), step=11, off=1)
    clang_part(c, 'rec,val,type', step=2, off=1)
    return c.finish(CORE_ASSUME)

def C03(c):
    t1 = core(un=un_all, leaves=[any_('a'), all_('ab'), none_('a')], depth2=False)
    cc, o = any_('c'), any_('b')
    gs = uniq(g for x in t1 for g in abandon_contexts(x, cc, o))
    if c.thorough:
        gs = uniq(gs + [g for x in t1 for y in t1[:24] for g in abandon_contexts(x, y, o)])
    c.grammars('abandon', cases(gs), ['--maxlen=6', '--mask=rec,fail,val,look'])
    rules_part(c, 'rec,fail,val,look', step=6, off=3)
    wide_part(c, 'rec,fail,val,look')
    w = wide(c.thorough)
    c.grammars('abandon_large', cases(uniq(g for i, x in enumerate(w[::1 if c.thorough else 9]) for k, g in enumerate(abandon_contexts(x, cc, o)) if c.thorough or (i + k) % 4 == 0), 'A'), ['--inputs=' + runs_file(c, wide_inputs()), '--mask=rec,fail,val,look'])
    edges_part(c, 'rec,fail,val,look', step=3, off=1)
    elements_part(c, 'rec,fail,val,look', gs=[g for i, g in enumerate(gs) if i % (1 if c.thorough else 5) == 0], step=4 if not c.thorough else 1, off=2, args=['--maxlen=5'])
    long_part(c, 'rec,fail,val,look', step=11, off=2)
    return c.finish(CORE_ASSUME)

def C04(c):
    L = [any_('a'), all_('ab'), none_('b'), ign_('b')]
    def un(a):
        yield maybe(a); yield exactly(a, 2); yield ignore(a); yield complete(a); yield star(a); yield plus(a)
        if joinable(a.ty): yield join(a)
        if a.ty == V: yield svinto(a)
    gs = core(un=un, leaves=L)
    if not c.thorough: gs = [g for g in gs if noalloc(g)] + [g for g in gs if not noalloc(g)][::3]
    c.grammars('views', cases(gs), A5 + ['--mask=rec,fail,val,look,alloc', '--places=2'])
    wide_part(c, 'rec,fail,val,look,alloc', pick=lambda g: noalloc(g) or c.thorough, args=('--places=2',))
    edges_part(c, 'rec,fail,val,look,alloc', pick=noalloc, step=1, args=['--maxlen=5', '--places=2'])
    literals_part(c, 'rec,fail,val,look,alloc', step=3, off=1, args=('--places=2',), pick=noalloc)
    elements_part(c, 'rec,fail,val,look,alloc', gs=[g for g in core(un=un, leaves=L, depth2=c.thorough) if noalloc(g)], step=1, off=3, args=['--maxlen=5', '--places=2'])
    long_part(c, 'rec,fail,val,look,alloc', step=3, pick=noalloc, args=('--places=2',))
    return c.finish(CORE_ASSUME)

def C05(c):
    L = [any_('a'), all_('ab'), none_('a'), name(custom(any_('ab'), 'Cab{}'), 'n')]
    pre = 'struct Cab : custom_parser<Cab> { static consteval auto get_parser() { return "ab"_any; } };\n'
    gs = core(un=un_all, leaves=L)
    c.grammars('core', cases(gs), A5 + ['--mask=look,evt,alloc,fail,rec'], prelude=pre, cflags=('-O0', '-DMC_NOVAL', '-DMC_NOPARSE'))
    # ignoring inside a parse: no value, no calls, while the rest of the grammar keeps both
    t1 = core(un=un_all, leaves=[any_('a'), all_('ab')], depth2=False)
    x = map_(any_('b'), 9)
    ig = []
    for g in t1:
        ig += [ignore(g), seq(ignore(g), x), seq(x, ignore(g), x), choice(ignore(seq(g, x)), x), star(seq(ignore(g), x)), delimit(x, g), maybe(ignore(filter_(seq(g, g), 3)))] if g.ty != VOID else [seq(x, ignore(g)), delimit(x, g)]
    c.grammars('ignored', cases(uniq(ig), 'i'), A5 + ['--mask=rec,fail,val,type,look,evt'])
    X, Y, Z = bit_leaves()
    F = [filter_(X, 2), join(seq(X, ignore(Y), X)), map_(Z, 1)]
    ind = []
    for f, g in itertools.product((seq, choice, delimit, delimit_keep), repeat=2):
        for F1 in F:
            ind += [g(f(F1, Y), Z), g(Z, f(Y, F1)), star(g(f(F1, Y), Z)), exactly(g(f(F1, Y), Z), 2), complete(g(f(F1, Y), star(Z)))]
    c.grammars('independent', cases(uniq(ind), 'j'), ['--maxlen=4', alpha('abcdefgh'), '--mask=look,evt,alloc'], cflags=('-O0', '-DMC_NOVAL', '-DMC_NOPARSE'))
    rules_part(c, 'rec,fail,val,type,look,evt', step=3)
    declared_part(c, 'rec,fail,val,type,look,evt')
    wide_part(c, 'look,evt,alloc,fail,rec', ('-O0', '-DMC_NOVAL', '-DMC_NOPARSE'))
    wide_part(c, 'look,evt,alloc,fail,rec,val', pick=lambda g: g.kind == 'ignore' or c.thorough)
    edges_part(c, 'look,evt,alloc,fail,rec', ('-O0', '-DMC_NOVAL', '-DMC_NOPARSE'), step=2, off=1)
    elements_part(c, 'look,evt,alloc,fail,rec', ('-O0', '-DMC_NOVAL', '-DMC_NOPARSE'), step=4, off=4)
    long_part(c, 'look,evt,alloc,fail,rec', ('-O0', '-DMC_NOVAL', '-DMC_NOPARSE'), step=7, off=3)
    long_part(c, 'rec,fail,val,type,look,evt', step=5, off=4, pick=lambda g: 'ignore' in g.cpp)
    clang_part(c, 'rec,look,evt,alloc', step=2, off=0)
    return c.finish(CORE_ASSUME)

def C07(c):
    def un(a):
        yield maybe(a); yield plus(a); yield star(a); yield exactly(a, 2); yield ignore(a); yield complete(a)
        if a.kind in ('any', 'none'): yield not_(a)
    def un_j(a):
        yield from un(a)
        if joinable(a.ty): yield join(a)
    def bi(a, b):
        yield seq(a, b); yield choice(a, b)
    L = [any_('a'), any_('ab'), all_('ab'), none_('b'), all_('c')]
    gs = core(un=un, bi=bi, leaves=L)
    # meaning as written, without any simplification
    c.grammars('raw', rawcases(gs), A5 + ['--mask=rec,fail,look'], cflags=('-O0', '-DMC_NOVAL'))
    # value as the documented law says
    t1 = core(un=un_j, bi=bi, leaves=L, depth2=False)
    laws = []
    for g in t1:
        laws += [maybe(maybe(g)), maybe(plus(g)), maybe(star(g)), plus(maybe(g)), plus(plus(g)), plus(star(g)), star(maybe(g)), star(plus(g)), star(star(g)),
                 choice(g, g), ignore(ignore(g)), complete(complete(g)), choice(choice(g, L[0]), choice(g, L[0])), choice(g, g, L[2]), choice(L[2], choice(g, g)),
                 choice(maybe(g), EPS), maybe(plus(maybe(plus(g)))), plus(maybe(maybe(g)))]
        if joinable(g.ty): laws += [join(join(g)), join(maybe(join(g)))]
    for x, y, z in itertools.product(L + [star(L[0]), ign_('a'), choice(L[2], L[4]), seq(L[0], L[1])], repeat=3):
        laws += [seq(x, seq(y, z)), choice(x, choice(y, z)), seq(seq(x, y), z), choice(choice(x, y), z)]
    sets = [''.join(s) for n in (1, 2, 3) for s in itertools.combinations('abc', n)]
    for s, t in itertools.product(sets, repeat=2):
        for f, g in itertools.product((any_, none_), repeat=2):
            laws += [choice(f(s), g(t)), not_(choice(f(s), g(t)))]
            if c.thorough or len(s) != 2: laws += [choice(f(s), not_(g(t)), any_('d')), choice(not_(not_(f(s))), g(t))]
    for u in ('a', 'ab', 'b', ''):
        for v in ('a', 'c', 'bc', ''):
            laws += [seq(all_(u), all_(v)), seq(all_(u), all_(v), all_('a')), seq(all_('c'), seq(all_(u), all_(v))), seq(all_(u), L[0], all_(v)), seq(seq(L[0], all_(u)), all_(v))]
    c.harness_parts('sets', 'h_sets.cpp', 18, objs=rt(c))
    alts = [any_('a'), any_('b'), all_('ab'), all_('ba'), seq(any_('b'), any_('a')), none_('a'), maybe(all_('bb')), ign_('b')]
    tup = [choice(*xs) for i, xs in enumerate(itertools.product(alts[:6], repeat=4)) if c.thorough or i % 3 == 1]
    tup += [(choice(*xs), choice(xs[0], choice(*xs[1:])), choice(choice(*xs[:2]), choice(*xs[2:])), choice(choice(*xs[:3]), xs[3], xs[4]))[i // 7 % 4] for i, xs in enumerate(itertools.product(alts[:7], repeat=5)) if i % (3 if c.thorough else 41) == 1]
    tup += [seq(*xs) for i, xs in enumerate(itertools.product(alts, repeat=4)) if i % (1 if c.thorough else 11) == 1]
    c.grammars('tuples', rawcases(uniq(tup)), ['--maxlen=4', alpha('abc'), '--mask=rec,fail,look'], cflags=('-O0', '-DMC_NOVAL'))
    # alternatives of which one begins another
    w = 'abcabcabca'
    pre = [all_(w[:i]) for i in range(1, 11)] + [seq(all_(w[:i]), any_('c')) for i in (3, 4, 6)] + [all_(w[:i] + 'b') for i in (3, 6)] + [ign_(w[:4]), seq(all_(w[:4]), maybe(all_(w[4:7]))), any_('ab')]
    over = [choice(x, y) for x in pre for y in pre] + [choice(x, y, z) for i, (x, y, z) in enumerate(itertools.product(pre, repeat=3)) if i % (3 if c.thorough else 41) == 1]
    over += [f(choice(x, y)) for i, (x, y) in enumerate(itertools.product(pre, repeat=2)) for k, f in enumerate((star, lambda g: seq(g, all_('bc')), lambda g: exactly(g, 2), complete, lambda g: delimit(g, any_('c')))) if (i + k) % (1 if c.thorough else 7) == 0]
    ins = sorted({w[:i] + t for i in range(11) for t in ('', 'a', 'b', 'c', 'ca', 'bc', 'abc', 'abca', 'abcabca')}, key=lambda t: (len(t), t))
    c.grammars('overlaps', rawcases(uniq(over), 'o'), ['--inputs=' + runs_file(c, ins), '--mask=rec,fail,look'], cflags=('-O0', '-DMC_NOVAL'))
    c.grammars('laws', cases(uniq(laws), 'l'), A5 + [alpha('abcd'), '--maxlen=4', '--mask=rec,fail,val,type,look'])
    c.grammars('large', rawcases([g for g in wide(c.thorough) if not calls(g) and g.kind != 'join' and 'join' not in g.raw], 'R'), ['--inputs=' + runs_file(c, wide_inputs()), '--mask=rec,fail,look'], cflags=('-O0', '-DMC_NOVAL'))
    c.grammars('edges', rawcases([g for g in edge_grammars(c.thorough) if not calls(g) and 'join' not in g.raw and 'join' not in g.cpp], 'e'), A5 + ['--mask=rec,fail,look'], cflags=('-O0', '-DMC_NOVAL'))
    lg = [g for g in long_grammars() if not calls(g) and 'join' not in g.cpp]
    c.grammars('long', rawcases(lg if c.thorough else lg[4::9], 'G'), ['--inputs=' + runs_file(c, long_inputs(c.thorough)), '--hang=60', '--mask=rec,fail,look'], cflags=('-O0', '-DMC_NOVAL'), shard=20)
    return c.finish(CORE_ASSUME)

def bodies():
    a, b, ab = any_('a'), any_('b'), all_('ab')
    bs = [a, ab, all_('aa'), none_('a'), ign_('a'), ign_('ab'), seq(a, b), seq(a, ign_('b')), choice(ab, a), choice(a, ign_('b')), choice(map_(a, 1), b), maybe(ab), star(b),
          seq(a, maybe(b)), seq(a, star(b)), exactly(a, 2), delimit(a, b), delimit_keep(a, b), join(seq(a, maybe(b))), map_(ab, 1), wmap(a, 2), filter_(any_('ab'), 2),
          filter_(seq(a, b), 3), const_(a, 3), name(ab, 'n'), complete(ab), complete(star(b)), seq(a, complete(b)), choice(seq(a, a), ab), strinto(plus_join(a)), ignore(seq(a, maybe(b))), maybe(ign_('a')),
          choice(ab, EPS), all_('')]
    return bs
def plus_join(a): return join(plus(a))

def C08(c):
    gs = []
    for x in bodies():
        for n in (1, 2, 3, 4, 5, 7, 8): gs += [exactly(x, n)]
        reps = [star(x), plus(x), maybe(x)]
        gs += reps
        for r in reps + [exactly(x, 2)]:
            gs += [seq(r, x), seq(r, any_('b')), seq(any_('a'), r), choice(seq(r, any_('b'), any_('b')), r), star(seq(r, any_('b'))), maybe(seq(r, all_('bb'))), exactly(seq(r, any_('b')), 2), map_(r, 5)]
    c.grammars('repetition', cases(uniq(gs)), ['--maxlen=%d' % (11 if c.thorough else 8), alpha('ab'), '--mask=rec,fail,val,type,look,evt'])
    big = [exactly(x, n) for x in (any_('a'), all_('ab'), ign_('a'), map_(any_('a'), 1), seq(any_('a'), any_('b'))) for n in (9, 15, 16, 17, 31, 33)]
    c.grammars('exact', cases(big, 'b'), ['--inputs=' + runs_file(c, ['a' * k for k in range(70)] + ['ab' * k for k in range(36)] + ['ab' * k + 'a' for k in range(36)] + ['a' * k + 'b' for k in range(40)]), '--mask=rec,fail,val,type,look,evt'])
    wide_part(c, 'rec,fail,val,type,look,evt', pick=lambda g: any(k in g.cpp for k in ('exactly', '+', '*', '~')))
    edges_part(c, 'rec,fail,val,type,look,evt', step=2, pick=lambda g: g.kind in ('star', 'plus', 'maybe', 'exactly'))
    rounds_part(c, 'rec,fail,val,type,look,evt', step=3)
    elements_part(c, 'rec,fail,val,type,look,evt', gs=[g for i, g in enumerate(gs) if i % (1 if c.thorough else 6) == 0], step=3, off=5, args=['--maxlen=7', alpha('ab')])
    long_part(c, 'rec,fail,val,type,look,evt', step=6, off=5, pick=lambda g: 'delimit' not in g.cpp)
    return c.finish(CORE_ASSUME)

def runs_file(c, strings):
    path = '%s/inputs_%d.txt' % (c.dir, len(os.listdir(c.dir)))
    with open(path, 'w') as f:
        for s in strings: f.write((s.encode('latin-1') if isinstance(s, str) else s).hex() + '\n')
    return path

def C09(c):
    a, b = any_('a'), any_('b')
    els = [a, all_('ab'), ign_('a'), plus(a), maybe(a), map_(a, 1), seq(a, b), seq(a, ign_('c')), choice(a, all_('bb')), wmap(a, 2), filter_(any_('ab'), 2), star(a), delimit(a, b), delimit_keep(a, b), exactly(a, 2), join(plus(a)), complete(a), name(any_('ab'), 'n')]
    des = [b, any_('c'), all_('bc'), ign_('b'), maybe(b), star(b), plus(b), choice(all_('ba'), b), map_(any_('bc'), 4), seq(b, ign_('c')), wmap(b, 3), filter_(any_('bc'), 2), any_('ab'), a, choice(b, EPS), complete(b)]
    gs = []
    for x, d in itertools.product(els, des):
        gs += [delimit(x, d, 'op'), delimit_keep(x, d)]
        if c.thorough or x in els[:6]: gs += [seq(delimit(x, d), any_('c')), seq(delimit_keep(x, d, 'op'), d), star(seq(delimit(x, d), all_('cc')))]
    gs += [delimit(delimit(x, d), any_('c')) for x in els[:8] for d in des[:6]] + [delimit_keep(delimit_keep(x, d), all_('cb')) for x in els[:8] for d in des[:6]]
    gs += [f(delimit(x, d)) for x in els for d in des[:4] for f in (maybe, star, complete, ignore, lambda g: exactly(g, 2), lambda g: map_(g, 6))]
    c.grammars('lists', cases(uniq(gs)), ['--maxlen=%d' % (8 if c.thorough else 6), alpha('abc'), '--mask=rec,fail,val,type,look,evt'])
    elements_part(c, 'rec,fail,val,type,look,evt', gs=[g for i, g in enumerate(gs) if i % (1 if c.thorough else 6) == 0], step=3, off=6, args=['--maxlen=6'])
    wide_part(c, 'rec,fail,val,type,look,evt', pick=lambda g: 'delimit' in g.cpp)
    long_part(c, 'rec,fail,val,type,look,evt', step=5, off=1, pick=lambda g: 'delimit' in g.cpp)
    return c.finish(CORE_ASSUME)

def C10(c):
    basics = [any_('a'), any_('ab'), none_('a'), none_('b'), all_('a'), all_('ab'), all_('aba'), all_('')]
    pair_up = []
    for x in basics:
        for f in (maybe, star, plus, lambda g: exactly(g, 1), lambda g: exactly(g, 2), lambda g: exactly(g, 3), lambda g: exactly(g, 5)):
            pair_up += [join(f(x)), join(f(name(x, 'n'))), join(name(f(x), 'n')), seq(join(f(x)), any_('b')), seq(any_('a'), join(f(x), 'op')), star(seq(join(f(x)), all_('b'))), choice(seq(join(f(x)), any_('c')), join(f(x))), ignore(join(f(x))), complete(join(f(x)))]
    c.grammars('specialised', cases(uniq(pair_up)), ['--maxlen=%d' % (9 if c.thorough else 6), alpha('abc'), '--mask=rec,fail,val,type,look', '--places=2'])
    a, b = any_('a'), any_('b')
    parts = [a, ign_('b'), maybe(b), star(a), all_('ab'), maybe(seq(a, ign_('c'))), exactly(b, 2), wmap(star(b), 2)]
    gap = []
    for n in (2, 3, 4) if c.thorough else (2, 3):
        for xs in slots(n, parts):
            s = seq(*xs)
            if joinable(s.ty): gap += [join(s)]
    ab_gap = [seq(a, ign_('b')), seq(ign_('b'), a), seq(a, maybe(ign_('b')), a), seq(maybe(a), ign_('c')), seq(maybe(a), ignore(maybe(b))), choice(a, ign_('b')), seq(a, maybe(b)), seq(star(a), ignore(maybe(b)))]
    for s in ab_gap:
        for f in (star, plus, maybe, lambda g: exactly(g, 2), lambda g: exactly(g, 3), lambda g: delimit(g, any_('c')), lambda g: delimit(g, ignore(maybe(any_('c'))))):
            t = f(s)
            if joinable(t.ty): gap += [join(t), join(seq(t, a)), join(seq(a, t)), join(maybe(seq(t, b))), join(star(seq(t, b))), choice(join(t), t), star(choice(join(seq(t, b)), a))]
    gap += [join(seq(join(x), y)) for x in (seq(a, ign_('b')), star(a), seq(maybe(a), b)) for y in (a, star(b), maybe(a), all_('ab'))]
    c.grammars('pieces', cases(joined_pieces(c.thorough), 'q'), ['--inputs=' + runs_file(c, piece_inputs()), '--mask=rec,fail,val,type,look', '--places=2'])
    c.grammars('uneven', cases(uneven_joins(), 'u'), ['--inputs=' + runs_file(c, uneven_inputs(7 if c.thorough else 5)), '--mask=rec,fail,val,look'])
    other = uniq([g for i, g in enumerate(pair_up + gap) if i % (1 if c.thorough else 13) == 0] + joined_pieces(c.thorough)[::9] + uneven_joins()[::7])
    for nm_, fl in (('clang', ('-O0',)), ('clang_o2', ('-O2',))):
        q = other if c.thorough else other[fl == ('-O2',)::2]
        c.grammars(nm_, cases(q, 'k'), ['--inputs=' + runs_file(c, [''.join(t) for k in range(6) for t in itertools.product('abc', repeat=k)] + piece_inputs()[::3]), '--mask=rec,fail,val,look', '--places=2'], cflags=fl, cxx='clang++', shard=20)
    c.grammars('gaps', cases(uniq(gap), 'g'), ['--maxlen=%d' % (8 if c.thorough else 7), alpha('abc') if c.thorough else alpha('abc'), '--maxlen=%d' % (7 if c.thorough else 6), '--mask=rec,fail,val,type,look,evt'])
    edges_part(c, 'rec,fail,val,type,look', step=1, pick=lambda g: 'join' in g.cpp, args=['--maxlen=5', '--places=2'])
    elements_part(c, 'rec,fail,val,type,look', gs=[g for i, g in enumerate(pair_up + gap) if i % (1 if c.thorough else 7) == 0], step=3, off=7)
    long_part(c, 'rec,fail,val,type,look', step=3, off=2, pick=lambda g: 'join' in g.cpp, args=('--places=2',))
    return c.finish(CORE_ASSUME)

def C11(c):
    def un(a):
        yield maybe(a); yield plus(a); yield star(a); yield exactly(a, 2); yield ignore(a); yield complete(a)
        if joinable(a.ty): yield join(a)
        yield map_(a, 1); yield wmap(a, 2); yield into(a, 5); yield const_(a, 7); yield dflt_(a, 8)
        yield filter_(a, 2 if a.ty != VOID else 1)
        if applicable(a.ty): yield apply_(a, 3); yield applyinto(a, 4); yield afilter(a, 3); yield wapply(a, 6)
    L = [map_(any_('a'), 11), filter_(any_('ab'), 12), wmap(any_('b'), 13)]
    gs = core(un=un, leaves=L)
    if c.thorough: gs = uniq(gs + level(core(un=un, leaves=L, depth2=False), lambda a: (), bi_core))
    c.grammars('calls', cases(gs), A5 + ['--mask=rec,fail,val,type,look,evt'])
    # the spread-out forms over every shape of tuple, pair and array
    kinds = ['void', 'V', 'O1', 'vec', 'opt'] 
    ap = []
    for n in (2, 3, 4) if c.thorough else (2, 3):
        for g in typed_seqs(n, kinds):
            if applicable(g.ty): ap += [apply_(g, 3), applyinto(g, 4, 'op'), afilter(g, 15), wapply(g, 6)]
            else: ap += [map_(g, 3), filter_(g, 15 if g.ty != VOID else 0)]
    ap += [f(g, 3) for g in (exactly(any_('ab'), 3), delimit_keep(any_('ab'), any_('c')), exactly(map_(any_('a'), 1), 2)) for f in (apply_, applyinto, afilter, wapply)]
    ap += [f(g, k) for g in (ign_('a'), star(ign_('a')), EPS_in(), wmap(any_('b'), 4)) for f, k in ((map_, 1), (wmap, 2), (into, 3), (filter_, 0), (filter_, 1), (dflt_, 4))]
    c.grammars('spread', cases(uniq(ap), 's'), ['--maxlen=4', alpha('abcd'), '--mask=rec,fail,val,type,look,evt'])
    # independent answers of three predicates
    X, Y, Z = bit_leaves()
    al = any_('abcdefgh')
    P = [filter_(al, 21), filter_(al, 22), filter_(al, 23)]
    ind = []
    for f, g in itertools.product((seq, choice, delimit, delimit_keep), repeat=2):
        ind += [g(f(P[0], P[1]), P[2]), g(P[2], f(P[0], P[1])), star(g(f(P[0], map_(P[1], 1)), P[2])), exactly(g(f(P[0], P[1]), P[2]), 2), maybe(filter_(g(f(P[0], P[1]), P[2]), 24)), filter_(star(filter_(g(f(P[0], P[1]), P[2]), 25)), 26)]
    c.grammars('predicates', cases(uniq(ind), 'p'), ['--maxlen=%d' % (5 if c.thorough else 4), alpha('abcdef'), '--mask=rec,fail,val,look,evt'])
    rules_part(c, 'rec,fail,val,look,evt', step=6, off=4)
    declared_part(c, 'rec,fail,val,type,look,evt', step=2, off=1)
    wide_part(c, 'rec,fail,val,type,look,evt', pick=calls)
    rounds_part(c, 'rec,fail,val,look,evt', step=3, off=1, pick=calls)
    c.grammars('forms', cases(function_forms(), 'f'), ['--maxlen=5', alpha('ab'), '--mask=rec,fail,val,type,look,evt'], prelude=FORMS)
    elements_part(c, 'rec,fail,val,look,evt', gs=[g for i, g in enumerate(gs) if i % (1 if c.thorough else 9) == 0], step=3, off=8)
    long_part(c, 'rec,fail,val,type,look,evt', step=7, off=3, pick=calls)
    clang_part(c, 'rec,fail,val,type,look,evt', gs=uniq([g for g in ap + ind + gs if calls(g)]), step=23, off=3)
    return c.finish(CORE_ASSUME)
def EPS_in(): return choice(ign_('c'), EPS)

# every kind of thing that can be a user function
FORMS = r'''
using FV = typename decltype("a"_any)::template result_for<char>;
namespace ff {
inline mc::Obj<1> ptr(FV v) { return mc::fn<1>(v); }
inline mc::Obj<1> ptr_nx(FV v) noexcept(false) { return mc::fn<1>(v); }
inline mc::Obj<1> cref(const FV& v) { return mc::fn<1>(v); }
inline mc::Obj<1> rref(FV&& v) { return mc::fn<1>(std::move(v)); }
inline void vptr(FV v) { mc::vfn<1>(v); }
inline void vnx(FV v) noexcept { mc::vfn<1>(v); }
inline mc::Obj<1> none() { return mc::fn<1>(); }
inline void vnone() { mc::vfn<1>(); }
struct Func { mc::Obj<1> operator()(FV v) const { return mc::fn<1>(v); } };
struct Over { mc::Obj<1> operator()(FV v) const { return mc::fn<1>(v); } mc::Obj<1> operator()(FV v) { return mc::fn<1>(v); } mc::Obj<2> operator()(int) const { return {}; } mc::Obj<1> operator()() const { return mc::fn<1>(); } };
struct RQ { mc::Obj<1> operator()(FV&& v) const { return mc::fn<1>(v); } mc::Obj<1> operator()(const FV&) const { mc::fn<99>(); return {}; } };
struct Var { template <class... A> auto operator()(A&&... a) const { return mc::fn<1>(std::forward<A>(a)...); } };
struct Dflt { mc::Obj<1> operator()(FV v, int = 3) const { return mc::fn<1>(v); } };
struct Tag { int k; template <class... A> mc::Obj<1> operator()(A&&... a) const { auto s = mc::ser_all(a...); mc::log_call('m', k, s); mc::Obj<1> o; o.repr = s; return o; } };
struct VTag { int k; template <class... A> void operator()(A&&... a) const { mc::log_call('w', k, mc::ser_all(a...)); } };
struct PTag { int k; template <class... A> bool operator()(const A&... a) const { auto s = mc::ser_all(a...); mc::log_call('f', k, s); return mc::pred_answer(k, s); } };
struct Mine {
	FV v; bool flag; int k = 5;
	explicit Mine(FV x) : v(x), flag(mc::pred_answer(2, mc::ser_all(x))) {}
	mc::Obj<1> get() const { return mc::fn<1>(v); }
	mc::Obj<1> take() && { return mc::fn<1>(v); }
	mc::Obj<1> nx() const& noexcept { return mc::fn<1>(v); }
	void gone() { mc::vfn<1>(v); }
	bool ok() const { return mc::pred<2>(v); }
	int oki() const noexcept { return mc::pred<2>(v) ? 4 : 0; }
};
struct Truth { bool b; constexpr operator bool() const { return b; } };
struct Expl { bool b; constexpr operator bool() const { return b; } bool operator!() const { return b; } };
inline bool pptr(FV v) { return mc::pred<2>(v); }
inline int pint(const FV& v) { return mc::pred<2>(v) ? 256 : 0; }
inline const void* pvoid(FV v) { return mc::pred<2>(v) ? &mc::g_log : nullptr; }
inline Truth ptruth(const FV& v) noexcept { return { mc::pred<2>(v) }; }
inline Expl pexpl(FV v) { return { mc::pred<2>(v) }; }
inline double pdbl(FV v) { return mc::pred<2>(v) ? 0.25 : 0.0; }
inline bool pnone() { return mc::pred<0>(); }
inline bool pnone1() { return mc::pred<1>(); }
struct PR { bool operator()(const FV& v) const { return mc::pred<2>(v); } bool operator()(FV&&) const { mc::fn<99>(); return true; } bool operator()(FV&) const { mc::fn<98>(); return true; } };
inline std::optional<FV> ropt(FV v) { return v; }
inline std::variant<bool, FV> rvar(FV v) { return v; }
inline FV same(FV v) { return v; }
inline std::string rstr(FV v) { return std::string(v.begin(), v.end()); }
inline std::string_view rsv(FV v) { return v; }
inline mc::Obj<3> two(FV a, mc::Obj<1> b) { return mc::fn<3>(a, b); }
inline mc::Obj<3> two_r(const FV& a, mc::Obj<1>&& b) { return mc::fn<3>(a, std::move(b)); }
inline void two_v(FV a, const mc::Obj<1>& b) { mc::vfn<3>(a, b); }
inline bool two_p(const FV& a, const mc::Obj<1>& b) { return mc::pred<3>(a, b); }
inline int two_i(FV a, mc::Obj<1> b) { return mc::pred<3>(a, b) ? -1 : 0; }
struct Two { mc::Obj<3> operator()(FV a, mc::Obj<1> b) const { return mc::fn<3>(a, b); } template <class... A> mc::Obj<4> operator()(A&&...) const = delete; };
struct Has { FV v; Has() = default; mc::Obj<3> with(mc::Obj<1> b) const { return mc::fn<3>(v, b); } bool p(const mc::Obj<1>& b) const { return mc::pred<3>(v, b); } explicit Has(FV x) : v(x) {} };
inline mc::Obj<3> three(FV a, FV b, FV c) { return mc::fn<3>(a, b, c); }
inline mc::Obj<3> lists(std::vector<FV> a, const std::vector<FV>& b) { return mc::fn<3>(a, b); }
inline bool lists_p(const std::vector<FV>& a, const std::vector<FV>& b) { return mc::pred<3>(a, b); }
}
'''
def function_forms():
    a, v = any_('ab'), any_('a')
    o = lambda g, cpp: g.with_cpp(cpp)
    out = []
    for x in (a, all_('ab'), join(plus(a))):
        X = x.cpp
        for f in ('&ff::ptr', 'ff::ptr', '&ff::ptr_nx', '&ff::cref', '&ff::rref', 'ff::Func{}', 'ff::Over{}', 'ff::RQ{}', 'ff::Var{}', 'ff::Dflt{}', '[](FV v) { return mc::fn<1>(v); }', '[](auto v) -> mc::Obj<1> { return mc::fn<1>(v); }', '[](auto&&... v) { return mc::fn<1>(v...); }', 'ff::Tag{1}'):
            out += [o(map_(x, 1), 'map<%s>(%s)' % (f, X)), o(map_(x, 1), '(%s) %% map<%s>' % (X, f))]
        out += [o(choice(seq(map_(x, 1), map_(v, 1)), map_(x, 1)), '(({0} % map<ff::Tag{{1}}>) >> ("a"_any % map<ff::Tag{{1}}>)) | ({0} % map<ff::Tag{{1}}>)'.format(p(x)))]
        t = lambda y, k: G('wmap', (y, k), VOID)
        for k1, k2 in ((1, 2), (2, 1), (2, 2)):
            out += [compound_seq([t(x, k1), t(v, k2)]).with_cpp('(%s %% map<ff::VTag{%d}>) >> ("a"_any %% map<ff::VTag{%d}>)' % (p(x), k1, k2))]
            out += [compound_choice([compound_seq([t(x, k1), G('ignore', (all_('b'),), VOID)]), t(x, k2)]).with_cpp('((%s %% map<ff::VTag{%d}>) >> "b"_ign) | (%s %% map<ff::VTag{%d}>)' % (p(x), k1, p(x), k2))]
            g = G('filter', (G('filter', (x, k1 + 1), x.ty), k2 + 1), x.ty)
            out += [g.with_cpp('%s %% filter<ff::PTag{%d}> %% filter<ff::PTag{%d}>' % (p(x), k1 + 1, k2 + 1))]
        for f in ('&ff::Mine::get', '&ff::Mine::take', '&ff::Mine::nx'): out += [o(map_(x, 1), '%s %% into<ff::Mine> %% map<%s>' % (p(x), f))]
        out += [o(wmap(x, 1), '%s %% into<ff::Mine> %% map<&ff::Mine::gone>' % p(x)), o(name(x, 'n'), '%s %% into<ff::Mine> %% map<&ff::Mine::v>' % p(x)) if False else o(wmap(x, 1), 'map<ff::vptr>(%s)' % X)]
        for f in ('&ff::vptr', '&ff::vnx', '[](FV v) { mc::vfn<1>(v); }'): out += [o(wmap(x, 1), '%s %% map<%s>' % (p(x), f))]
        for f in ('&ff::pptr', '&ff::pint', '&ff::pvoid', '&ff::ptruth', '&ff::pexpl', '&ff::pdbl', 'ff::PR{}', 'ff::PTag{2}', '[](FV v) { return mc::pred<2>(v); }', '[](const auto& v) -> unsigned long { return mc::pred<2>(v) ? 1ul << 40 : 0; }'):
            out += [o(filter_(x, 2), '%s %% filter<%s>' % (p(x), f))]
        for f in ('&ff::Mine::ok', '&ff::Mine::oki'): out += [o(map_(filter_(x, 2), 1), '%s %% into<ff::Mine> %% filter<%s> %% map<&ff::Mine::get>' % (p(x), f))]
        for f, cv, ty in (('ff::ropt', 'wrapopt', opt(V)), ('ff::rvar', 'wrapvar 1', var([('b',), V])), ('ff::same', 'name', V), ('ff::rstr', 'strinto', ('S',)), ('ff::rsv', 'svinto', ('s',))):
            out += [o(conv(x, cv, ty), '%s %% map<%s>' % (p(x), f))]
    for z in (ign_('a'), star(ign_('a')), EPS_in(), wmap(a, 4)):
        for f in ('&ff::none', 'ff::Over{}', 'ff::Var{}', 'ff::Tag{1}', '[] { return mc::fn<1>(); }'): out += [o(map_(z, 1), '%s %% map<%s>' % (p(z), f))]
        out += [o(wmap(z, 1), '%s %% map<&ff::vnone>' % p(z)), o(filter_(z, 0), '%s %% filter<&ff::pnone>' % p(z)), o(filter_(z, 1), '%s %% filter<&ff::pnone1>' % p(z)), o(filter_(z, 0), '%s %% filter<ff::PTag{0}>' % p(z))]
    for x in (seq(a, map_(v, 1)), seq(a, ign_('b'), map_(v, 1))):
        for f in ('&ff::two', 'ff::two_r', 'ff::Two{}', '[](FV a, auto b) { return mc::fn<3>(a, b); }', '[](auto&& a, mc::Obj<1>&& b) { return mc::fn<3>(a, b); }'): out += [o(apply_(x, 3), '%s %% apply<%s>' % (p(x), f)), o(apply_(x, 3), 'apply<%s>(%s)' % (f, x.cpp))]
        out += [o(wapply(x, 3), '%s %% apply<&ff::two_v>' % p(x))]
        for f in ('&ff::two_p', 'ff::two_i', '[](const FV& a, const mc::Obj<1>& b) { return mc::pred<3>(a, b); }'): out += [o(afilter(x, 3), '%s %% apply_filter<%s>' % (p(x), f))]
    y = seq(into(a, 9), map_(v, 1))
    out += [o(apply_(seq(a, map_(v, 1)), 3), '("ab"_any % into<ff::Has> >> ("a"_any % map<mc::fn<1>>)) % apply<&ff::Has::with>')]
    out += [o(apply_(exactly(a, 3), 3), 'exactly<3>("ab"_any) % apply<&ff::three>'), o(apply_(seq(a, a, v), 3), '("ab"_any >> "ab"_any >> "a"_any) % apply<&ff::three>'), o(apply_(delimit_keep(a, any_('b')), 3), 'delimit_keep("ab"_any, "b"_any) % apply<&ff::lists>'), o(afilter(delimit_keep(a, any_('b')), 3), 'delimit_keep("ab"_any, "b"_any) % apply_filter<&ff::lists_p>')]
    gs = []
    b = all_('b')
    for i, g in enumerate(out):
        gs += [g, star(g), ignore(g)] + [[choice(seq(g, b), g), seq(a, g)], [exactly(g, 2), maybe(seq(g, g))], [delimit(g, b), complete(g)], [plus(choice(g, b)), name(g, 'n')]][i % 4]
    return uniq(gs)

# ---- names and substitution -------------------------------------------------------------------------
def rebuild(g, ch):
    """The same node over other children (types recomputed, nothing simplified)."""
    k = g.kind
    if not ch: return g
    if k == 'seq': return compound_seq(ch)
    if k == 'choice': return compound_choice(ch)
    if k == 'maybe': return G('maybe', (ch[0],), wrapv(ch[0].ty, opt))
    if k in ('star', 'plus'): return n_rep(k, ch[0])
    if k == 'exactly': return G('exactly', (ch[0], g.args[1]), wrapv(ch[0].ty, lambda t: arr(t, g.args[1])))
    if k == 'delim': return n_delim(ch[0], ch[1])
    if k == 'ignore': return G('ignore', (ch[0],), VOID)
    if k in ('complete',): return G(k, (ch[0],), ch[0].ty)
    if k in ('filter', 'afilter', 'name'): return G(k, (ch[0],) + tuple(g.args[1:]), ch[0].ty)
    if k == 'join':
        if not joinable(ch[0].ty): return None
        return G('join', (ch[0],), V)
    return G(k, (ch[0],) + tuple(g.args[1:]), g.ty)

def subst(g, nm, modf):
    """None when the result would not be a usable parser."""
    if g.kind == 'custom':     # the rule's own names are not the grammar's; what a rule is made from is
        if not hasattr(g, 'made'): return g
        mk, *ps = g.made
        ps = [subst(x, nm, modf) for x in ps]
        return None if None in ps else mk(*ps)
    ch = []
    for x in children(g):
        y = subst(x, nm, modf)
        if y is None: return None
        ch.append(y)
    if g.kind == 'name' and g.args[1] == nm: return modf(ch[0])
    if g.kind in ('filter', 'afilter', 'apply', 'wapply', 'applyinto') and ch:
        old = next(iter(children(g))).ty
        if g.kind != 'filter' and not applicable(ch[0].ty): return None
        if g.kind == 'filter' and (old == VOID) != (ch[0].ty == VOID): pass
    if g.kind in ('strinto', 'svinto') and ch[0].ty != V: return None
    return rebuild(g, ch)

def nmod(f, *a):
    def m(x):
        x2 = x.with_cpp('X')
        return f(x2, *a)
    return m
def join_or_none(x): return join(x.with_cpp('X')) if joinable(x.ty) else None

SUBMODS = {
    'ignore': nmod(ignore), 'complete': nmod(complete), 'join': join_or_none, 'map<mc::fn<1>>': nmod(map_, 1), 'exactly<2>': nmod(exactly, 2),
    'name<"m">': nmod(name, 'm'), 'name<"n">': nmod(name, 'n'), 'name<"nn">': nmod(name, 'nn'), 'constant<3>': nmod(const_, 3),
    '(ignore % complete)': lambda x: nmod(complete)(nmod(ignore)(x)), 'delimit("b"_any)': lambda x: n_delim(x, ign_always(any_('b'))),
    '(complete % name<"m">)': lambda x: nmod(name, 'm')(nmod(complete)(x)), 'filter<mc::pred<2>>': lambda x: G('filter', (x, 2), x.ty) if x.ty != VOID else None,
    '(exactly<1> % map<mc::fn<5>>)': lambda x: nmod(map_, 5)(nmod(exactly, 1)(x)),
}

def C12(c):
    a, b, ab = any_('a'), any_('b'), all_('ab')
    names = [None, 'n', 'm', 'nn']
    def nm(x, s): return x if s is None else name(x, s, 'op')
    def tokens(g):    # names present
        out = {g.args[1]} if g.kind == 'name' else set()
        for x in children(g): out |= tokens(x)
        return out
    gs = []
    shapes = [lambda p, q, r: nm(seq(nm(a, p), nm(b, q)), r), lambda p, q, r: nm(choice(nm(ab, p), nm(a, q)), r), lambda p, q, r: nm(star(nm(choice(nm(a, p), ab), q)), r),
              lambda p, q, r: nm(delimit(nm(a, p), nm(b, q)), r), lambda p, q, r: nm(delimit_keep(nm(a, p), nm(b, q)), r), lambda p, q, r: nm(maybe(seq(nm(a, p), nm(b, q))), r),
              lambda p, q, r: nm(map_(nm(seq(nm(a, p), b), q), 6), r), lambda p, q, r: nm(join(seq(nm(a, p), nm(plus(b), q))), r), lambda p, q, r: nm(ignore(seq(nm(a, p), nm(b, q))), r),
              lambda p, q, r: nm(nm(nm(a, p), q), r), lambda p, q, r: nm(complete(exactly(nm(seq(nm(a, p), b), q), 2)), r), lambda p, q, r: nm(filter_(plus(nm(seq(nm(a, p), nm(b, q)), r)), 2), None),
              lambda p, q, r: seq(nm(plus(nm(a, p)), q), nm(into(b, 7), r)), lambda p, q, r: seq(nm(custom(nm(a, 'n'), 'Cn{}'), p), choice(nm(ab, q), nm(ignore(b), r)))]
    pre = '''struct Cn : custom_parser<Cn> { static consteval auto get_parser() { return "a"_any % name<"n">; } };
template <class P> struct Tw : custom_parser<Tw<P>> { static consteval auto get_parser() { return ("b"_any % name<"n">) >> P{}; } };
template <class P, class Q> struct Tv : custom_parser<Tv<P, Q>> { static consteval auto get_parser() { return P{} | ("b"_ign >> Q{}); } };
'''
    def made(mk, g, *ps):
        g.made = (mk,) + ps
        return g
    def tw(x): return made(tw, custom(seq(name(b, 'n', 'op'), x), 'Tw<decltype(%s)>{}' % x.cpp), x)
    def tv(x, y): return made(tv, custom(choice(x, seq(ign_('b'), y)), 'Tv<decltype(%s), decltype(%s)>{}' % (x.cpp, y.cpp)), x, y)
    base = []
    for sh in shapes:
        for ps in itertools.product(names if c.thorough else names[:3], repeat=3):
            g = sh(*ps)
            base.append(g)
    base = uniq(base)
    # transparency: same meaning, same value with the names left out
    c.grammars('transparent', cases(base, 't'), ['--maxlen=4', '--mask=rec,fail,val,type,look,evt'], prelude=pre)
    out, seen = [], set()
    def add(res, cpp, alts=()):
        if res is None or cpp in seen: return
        try: s = sx(res)
        except Exception: return
        seen.add(cpp)
        out.append(('s%d' % len(out), cpp, s, ts(res.ty), noalloc(res), list(alts)))
    mods = list(SUBMODS)
    i = 0
    for g in base:
        tk = tokens(g)
        if not tk: continue
        for m in mods:
            i += 1
            if not c.thorough and (i % 3): continue
            for nme in ('n', 'm') if c.thorough else (sorted(tk)[i % len(tk)],):
                add(subst(g, nme, SUBMODS[m]), 'sub(%s, name<"%s"> = %s)' % (g.cpp, nme, m), ['(%s) %% sub(name<"%s"> = %s)' % (g.cpp, nme, m)])
    # names that are parts of each other, empty, contain a zero, or consist of other characters
    odd = ['n', 'nn', 'm', 'N', '', 'nm', 'n ', 'L:n', 'u8:n', 'n\\0', 'n\\0m', 'u:', 'L:nn', '\\xff']
    for p, q in itertools.product(odd, repeat=2):
        g = name(seq(name(a, p, 'op'), name(seq(b, name(ab, p)), q, 'op')), p if len(p) > 1 else q, 'op')
        for t in odd if c.thorough else sorted({p, q, odd[(odd.index(p) + odd.index(q)) % len(odd)]}):
            add(subst(g, t, SUBMODS['complete' if p == q else 'ignore']), 'sub(%s, name<%s> = %s)' % (g.cpp, cname(t), 'complete' if p == q else 'ignore'), ['(%s) %% sub(name<%s> = %s)' % (g.cpp, cname(t), 'complete' if p == q else 'ignore')])
            if c.thorough or t == q: add(subst(subst(g, t, SUBMODS['map<mc::fn<1>>']), p, SUBMODS['ignore']), 'sub(%s, name<%s> = map<mc::fn<1>>, name<%s> = ignore)' % (g.cpp, cname(t), cname(p)))
    # names that are absent, prefixes of each other, and chains of substitutions
    chain = [('n', 'ignore'), ('m', 'map<mc::fn<1>>'), ('n', 'name<"m">'), ('m', 'name<"n">'), ('nn', 'complete'), ('m', 'exactly<2>')]
    for g in base[::1 if c.thorough else 7]:
        for (n1, m1), (n2, m2) in itertools.product(chain, repeat=2):
            r = subst(g, n1, SUBMODS[m1])
            r = r and subst(r, n2, SUBMODS[m2])
            add(r, 'sub(%s, name<"%s"> = %s, name<"%s"> = %s)' % (g.cpp, n1, m1, n2, m2), ['(%s) %% sub(name<"%s"> = %s) %% sub(name<"%s"> = %s)' % (g.cpp, n1, m1, n2, m2)])
    for g in base[::5]:
        r = g
        for n1, m1 in (('n', 'name<"nn">'), ('m', 'name<"n">'), ('nn', 'map<mc::fn<1>>')): r = r and subst(r, n1, SUBMODS[m1])
        add(r, 'sub(%s, name<"n"> = name<"nn">, name<"m"> = name<"n">, name<"nn"> = map<mc::fn<1>>)' % g.cpp)
    c.grammars('substituted', out, ['--maxlen=4', '--mask=rec,fail,val,type,look,evt'], prelude=pre)
    # every position: a named part below one and two other operators, at the end of long towers, in every part of a long sequence or choice
    W = [maybe, plus, star, lambda x: exactly(x, 2), ignore, complete, lambda x: map_(x, 1), lambda x: wmap(x, 2), lambda x: into(x, 3), lambda x: const_(x, 4), lambda x: dflt_(x, 5), lambda x: filter_(x, 2) if x.ty != VOID else None,
         lambda x: join(x) if joinable(x.ty) else None, lambda x: apply_(x, 3) if applicable(x.ty) else None, lambda x: name(x, 'm', 'op'), lambda x: seq(x, b), lambda x: seq(b, x), lambda x: seq(ign_('a'), x, b), lambda x: choice(x, b), lambda x: choice(ab, x),
         lambda x: delimit(x, b), lambda x: delimit(b, x), lambda x: delimit_keep(x, b), lambda x: delimit_keep(b, x),
         tw, lambda x: tv(x, a), lambda x: tv(ab, x)]
    del out[:]
    def put(g, k):
        if g is None: return
        m = ('ignore', 'map<mc::fn<1>>', 'exactly<2>', 'name<"m">', 'complete')[k % 5]
        try: r = subst(g, 'n', SUBMODS[m])
        except Exception: return
        add(r, 'sub(%s, name<"n"> = %s)' % (g.cpp, m), ['(%s) %% sub(name<"n"> = %s)' % (g.cpp, m)])
    leaves = [name(a, 'n', 'op'), name(choice(ab, a), 'n', 'op')]
    k = 0
    for w2, w1 in itertools.product(W, repeat=2):
        for lf in leaves if c.thorough else leaves[k % 2:k % 2 + 1]:
            x = w1(lf)
            for m in range(5) if c.thorough else (k + k // 24,):
                put(x and w2(x), m)
        k += 1
    for i in range(len(W)):
        for step in (1, 5, 7, 11):
            for depth in (4, 8, 14):
                if not c.thorough and (i + step + depth) % 3: continue
                x, j = leaves[0], i
                while x is not None and depth:
                    y = W[j % len(W)](x) if ts(x.ty).count('(') < 9 else ignore(x)
                    if y is not None: x = y; depth -= 1
                    j += step
                put(x, i)
    for n in (5, 8, 12):
        ps = [any_('ab'), b, a, any_('ab'), a, b, any_('ab'), a, any_('ab'), b, a, a][:n]
        for at in range(n):
            put(seq(*[name(q, 'n', 'op') if i == at else name(q, 'm', 'op') if i % 3 == 1 else q for i, q in enumerate(ps)]), 1 + at % 4 if at % 4 != 1 else 4)
            put(choice(*[name(seq(q, ign_('b') if i % 2 else q), 'n', 'op') if i == at else seq(q, b) for i, q in enumerate(ps)]), at)
        put(seq(*[name(q, 'n', 'op') for q in ps]), 1)
        put(choice(*[name(seq(q, b), 'n', 'op') for q in ps]), 1)
    # long names that differ in their last, first or middle character, or in length
    longs = ['n' * 9, 'n' * 8 + 'm', 'm' + 'n' * 8, 'n' * 8, 'n' * 40, 'n' * 20 + 'm' + 'n' * 19, 'n' * 41, 'n' * 39 + 'm', 'abcdefgh', 'abcdefgi', 'abcdefg', 'ab', 'ba', 'n' * 256, 'n' * 255 + 'm', 'n' * 257]
    for i, p in enumerate(longs):
        for t in longs if c.thorough else longs[max(0, i - 3):i + 4]:
            g = name(seq(name(a, t, 'op'), name(seq(b, name(ab, p)), p + 'x', 'op')), t, 'op')
            add(subst(g, p, SUBMODS['ignore']), 'sub(%s, name<%s> = ignore)' % (g.cpp, cname(p)), [])
    # three to nine substitutions at once: renamed round in every order, with absent ones anywhere between, and the same name again and again
    g0 = seq(name(a, 'n', 'op'), name(choice(b, name(a, 'm', 'op')), 'nn', 'op'), maybe(name(seq(name(b, 'N', 'op'), a), 'm', 'op')))
    ren = [('n', 'name<"m">'), ('m', 'name<"nn">'), ('nn', 'name<"N">'), ('N', 'map<mc::fn<1>>'), ('m', 'map<mc::fn<1>> % name<"m">'), ('n', 'ignore'), ('zz', 'ignore'), ('n', 'map<mc::fn<1>> % name<"n">')]
    ext = dict(SUBMODS)
    ext['map<mc::fn<1>> % name<"m">'] = lambda x: name(map_(x.with_cpp('X'), 1), 'm')
    ext['name<"N">'] = nmod(name, 'N')
    ext['map<mc::fn<1>> % name<"n">'] = lambda x: name(map_(x.with_cpp('X'), 1), 'n')
    def many(steps, k):
        r = g0
        for n1, m1 in steps: r = r and subst(r, n1, ext[m1])
        l = ['name<"%s"> = (%s)' % (n1, m1) for n1, m1 in steps]
        cut = 1 + k % (len(l) - 1)
        add(r, 'sub(%s, %s)' % (g0.cpp, ', '.join(l)), ['(%s) %% sub(%s)' % (g0.cpp, ', '.join(l)), 'sub(%s)(%s)' % (', '.join(l), g0.cpp), '(%s) %% (sub(%s) %% sub(%s))' % (g0.cpp, ', '.join(l[:cut]), ', '.join(l[cut:]))])
    k = 0
    for pm in itertools.permutations(ren[:4]):
        for pads in itertools.product(range(3), repeat=5):
            if not 1 <= sum(pads) <= 5: continue
            k += 1
            if not c.thorough and k % 19 != 3: continue
            steps = []
            for i in range(5): steps += [ren[6]] * pads[i] + ([pm[i]] if i < 4 else [])
            many(steps, k)
    for L in range(3, 10):
        for st in range(8):
            for d in (1, 3, 5, 7): many([ren[(st + d * i) % 8] for i in range(L)], L + st)
        many([ren[7]] * L, L); many([ren[4]] * L, 0)
    c.grammars('positions', out, ['--maxlen=4', '--mask=rec,fail,val,type,look,evt'], prelude=pre)
    c.harness_parts('names', 'h_names.cpp', 8, objs=[c.obj('rt.cpp')])
    return c.finish(CORE_ASSUME)

def C13(c):
    a, b, ab = any_('a'), any_('b'), all_('ab')
    M = {'ignore': ignore, 'complete': complete, 'join': join, 'map<mc::fn<1>>': lambda x, f='fn': map_(x, 1, f), 'map<mc::vfn<2>>': lambda x, f='fn': wmap(x, 2, f), 'exactly<2>': lambda x, f='fn': exactly(x, 2, f),
         'filter<mc::pred<2>>': lambda x, f='fn': filter_(x, 2, f), 'into<mc::Obj<5>>': lambda x, f='fn': into(x, 5, f), 'constant<3>': lambda x, f='fn': const_(x, 3, f), 'defaulted<mc::Dflt<7>>': lambda x, f='fn': dflt_(x, 7, f),
         'name<"n">': lambda x, f='fn': name(x, 'n', f), 'delimit("b"_any)': lambda x, f='fn': delimit(x, any_('b'), 'curry'), 'delimit_keep("b"_any)': lambda x, f='fn': delimit_keep(x, any_('b'), 'curry'),
         'apply<mc::fn<3>>': lambda x, f='fn': apply_(x, 3, f), 'apply_filter<mc::pred<4>>': lambda x, f='fn': afilter(x, 4, f), 'apply_into<mc::Obj<6>>': lambda x, f='fn': applyinto(x, 6, f)}
    def okfor(m, x):
        if m == 'join': return joinable(x.ty)
        if m.startswith('apply'): return applicable(x.ty)
        if m.startswith('filter'): return x.ty != VOID
        return True
    ps = [a, seq(any_('a'), any_('ab')), plus(any_('ab')), ign_('a'), choice(ab, a)]
    if c.thorough: ps += [delimit_keep(a, b), exactly(any_('ab'), 2), maybe(a)]
    out = []
    def emit(res, cpp, alts):
        out.append(('m%d' % len(out), cpp, sx(res), ts(res.ty), noalloc(res), alts))
    for x in ps:
        for m1, f1 in M.items():
            if not okfor(m1, x): continue
            y = f1(x)
            alts = ['(%s) %% %s' % (x.cpp, m1)]
            if m1.startswith('delimit'):
                nm, d = m1.split('(', 1)
                alts.append('%s(%s, %s)' % (nm, x.cpp, d[:-1]))
            emit(y, y.cpp, alts)
            for m2, f2 in M.items():
                if not okfor(m2, y): continue
                z = f2(y)
                emit(z, z.cpp, ['(%s) %% %s %% %s' % (x.cpp, m1, m2), '(%s) %% (%s %% %s)' % (x.cpp, m1, m2), '(%s %% %s)(%s)' % (m1, m2, x.cpp)])
                if x is not ps[0] and x is not ps[1] and not c.thorough: continue
                for j, (m3, f3) in enumerate(M.items()):
                    if not okfor(m3, z): continue
                    if not c.thorough and x is ps[1] and (j + len(out)) % 4: continue
                    w = f3(z)
                    emit(w, w.cpp, ['(%s) %% (%s %% %s %% %s)' % (x.cpp, m1, m2, m3), '(%s) %% (%s %% (%s %% %s))' % (x.cpp, m1, m2, m3), '(%s) %% (%s %% %s) %% %s' % (x.cpp, m1, m2, m3),
                                    '(%s %% (%s %% %s))(%s)' % (m1, m2, m3, x.cpp), '(%s) %% %s %% (%s %% %s)' % (x.cpp, m1, m2, m3)])
    # four in a row, every bracketing of two compositions
    q = ['ignore', 'map<mc::fn<1>>', 'exactly<2>', 'name<"n">', 'complete']
    for ms in itertools.product(q, repeat=4):
        if not c.thorough and (hash4(ms, q) % 5): continue
        y = a
        for m in ms: y = M[m](y)
        s = tuple(ms)
        emit(y, y.cpp, ['("a"_any) %% ((%s %% %s) %% (%s %% %s))' % s, '("a"_any) %% ((%s %% %s %% %s) %% %s)' % s, '("a"_any) %% (%s %% (%s %% %s %% %s))' % s, '("a"_any) %% (%s %% %s) %% (%s %% %s)' % s, '("a"_any) %% (%s %% (%s %% (%s %% %s)))' % s])
    c.grammars('forms', out, ['--maxlen=4', '--mask=rec,fail,val,type,look,evt'], shard=40)
    # substitutions: one to four of them, called, curried, composed
    n_ = lambda x, s: name(x, s, 'op')
    bases = [seq(n_(a, 'n'), n_(b, 'm')), star(n_(choice(n_(ab, 'm'), n_(a, 'n')), 'nn')), seq(n_(n_(a, 'n'), 'm'), maybe(n_(b, 'nn'))), delimit_keep(n_(a, 'm'), n_(b, 'n'))]
    steps = [('n', 'ignore'), ('n', 'name<"m">'), ('m', 'map<mc::fn<1>>'), ('m', 'name<"n">'), ('n', 'map<mc::fn<1>>'), ('nn', 'complete'), ('m', 'name<"nn">'), ('nn', 'exactly<2>'), ('q', 'ignore')]
    out, seen = [], set()
    k = 0
    for d in (1, 2, 3, 4):
        for ch in itertools.product(steps, repeat=d):
            k += 1
            if not c.thorough and (d == 3 and k % 5 or d == 4 and k % 61) or d == 4 and k % 7: continue
            g = r = bases[k % 4]
            for n1, m1 in ch: r = r and subst(r, n1, SUBMODS[m1])
            if r is None: continue
            try: s = sx(r)
            except Exception: continue
            S = ['name<"%s"> = %s' % x for x in ch]
            P, j = '(%s)' % g.cpp, ', '.join
            alts = ['%s %% sub(%s)' % (P, j(S)), '%s %% %s' % (P, ' % '.join('sub(%s)' % x for x in S)), 'sub(%s)(%s)' % (j(S), g.cpp)]
            if d > 1: alts += ['%s %% (%s)' % (P, ' % '.join('sub(%s)' % x for x in S))]
            for cut in range(1, d): alts += ['%s %% sub(%s) %% sub(%s)' % (P, j(S[:cut]), j(S[cut:])), '%s %% (sub(%s) %% sub(%s))' % (P, j(S[:cut]), j(S[cut:]))]
            out.append(('b%d' % len(out), 'sub(%s, %s)' % (g.cpp, j(S)), s, ts(r.ty), noalloc(r), alts))
            if d == 2 and r.ty != VOID and k % 3 == 0:
                w = map_(r.with_cpp('X'), 4)
                out.append(('b%d' % len(out), 'map<mc::fn<4>>(sub(%s, %s))' % (g.cpp, j(S)), sx(w), ts(w.ty), noalloc(w), ['%s %% (sub(%s) %% map<mc::fn<4>>)' % (P, j(S)), '(sub(%s) %% (sub(%s) %% map<mc::fn<4>>))(%s)' % (S[0], S[1], g.cpp)]))
    c.grammars('substitutions', out, ['--maxlen=4', '--mask=rec,fail,val,type,look,evt'], shard=40)
    # long compositions whose order shows in the trace, cut in two and three at every place, nested to either side
    out = []
    mix = ['exactly<2>', 'map<mc::fn<1>>', 'name<"n">', 'constant<3>', 'map<mc::vfn<2>>', 'ignore', 'complete']
    for n in (5, 6, 8, 12) + ((20,) if c.thorough else ()):
        for at in range(n + 1):
            ms = [('map<mc::fn<%d>>' % (i + 1), lambda x, i=i: map_(x, i + 1)) for i in range(n)]
            if at < n: m = mix[(at + n) % 7]; ms[at] = (m, M[m])
            x, y = (a, seq(a, b))[at % 2], None
            y = x
            for _, f in ms: y = f(y)
            T = [m for m, _ in ms]
            P, pc = '(%s)' % x.cpp, ' % '.join
            alts = ['%s %% %s' % (P, pc(T)), '%s %% (%s)' % (P, pc(T)), '(%s)(%s)' % (pc(T), x.cpp), '%s %% (%s)' % (P, ' % ('.join(T) + ')' * (n - 1))]
            for i in range(1, n):
                alts.append('%s %% ((%s) %% (%s))' % (P, pc(T[:i]), pc(T[i:])))
                for j in range(i + 1, n):
                    if c.thorough or (i + j + at) % 4 == 0: alts += ['%s %% ((%s) %% (%s) %% (%s))' % (P, pc(T[:i]), pc(T[i:j]), pc(T[j:])), '%s %% (%s) %% ((%s) %% (%s))' % (P, pc(T[:i]), pc(T[i:j]), pc(T[j:]))]
            if n > 8 and not c.thorough: alts = alts[:4] + alts[4::3]
            emit(y, y.cpp, alts)
    c.grammars('longer', out, ['--maxlen=3', '--mask=rec,fail,val,type,look,evt'], shard=8)
    return c.finish(CORE_ASSUME)
def hash4(ms, q): return sum(q.index(m) * (3 ** i) for i, m in enumerate(ms))

def C22(c):
    N = nullables()
    a, b = any_('a'), any_('b')
    gs = []
    for x in N:
        gs += [star(x), plus(x), exactly(x, 3), delimit(x, x), delimit_keep(x, x), delimit(a, x), delimit(x, b), delimit_keep(a, x), delimit_keep(x, b), star(seq(x, x)), plus(choice(a, x)) , star(choice(x, a)), star(ignore(x)), plus(ignore(x)),
               ignore(star(x)), ignore(plus(x)), star(name(x, 'k')), plus(name(x, 'k')), star(name(star(x), 'k')), plus(name(plus(x), 'k')), delimit(name(star(x), 'k'), x), complete(star(x)), seq(star(x), a), choice(seq(plus(x), b), a), star(map_(x, 3)), plus(map_(x, 3)),
               star(seq(x, maybe(b))), star(delimit(x, x)), plus(delimit_keep(x, x)), ignore(delimit(x, x)), exactly(star(x), 2)]
        if joinable(x.ty): gs += [join(star(x)), join(plus(x)), star(join(x)), join(star(name(x, 'k'))), plus(join(seq(x, x)))]
    for y in N[:6]:
        for x in N: gs += [delimit(x, y), delimit_keep(x, y), star(seq(x, y)), plus(choice(seq(x, y), b))]
    c.grammars('nullable', cases(uniq(gs)), ['--maxlen=%d' % (7 if c.thorough else 5), alpha('ab'), '--mask=rec,fail,val,look', '--hang=5'])
    elements_part(c, 'rec,fail,val,look', gs=gs if c.thorough else gs[::4], step=3, off=9, args=['--maxlen=5', alpha('ab'), '--hang=5'])
    work(c)
    return c.finish(CORE_ASSUME + ['comparisons counted on inputs (word)^n + tail, words of 1 to 3 and tails of 0 to 1 elements over {a,b,c}, n up to %d; repetition bodies without a repetition inside' % (16384 if c.thorough else 2048)])

def work(c):
    a, b, ab = any_('a'), any_('b'), all_('ab')
    bs = [a, ab, none_('a'), ign_('a'), ign_('ab'), seq(a, b), seq(a, ign_('b')), choice(ab, a), choice(a, ign_('b')), seq(a, maybe(b)), exactly(a, 2), map_(ab, 1), wmap(any_('ab'), 2), filter_(any_('ab'), 2), const_(a, 3), name(ab, 'n'), join(seq(a, maybe(b))), maybe(ab), choice(ab, EPS), seq(any_('ab'), any_('c'))]
    if c.thorough: bs += [g for g in core(un=un_all, leaves=[a, ab, none_('b')], depth2=False) if not any(x in g.cpp for x in ('+', '*', 'delimit'))]
    gs = []
    for x in bs:
        rs = [star(x), plus(x), delimit(x, b), delimit_keep(x, any_('c')), delimit(x, maybe(b)), exactly(x, 64)]
        for r in rs:
            gs += [r, seq(maybe(r), any_('c')), seq(r, r), choice(seq(r, all_('cc')), r), maybe(seq(r, b)), ignore(r), complete(r), name(r, 'k'), map_(r, 5)]
            if joinable(r.ty): gs += [join(r)]
            if r.ty != VOID: gs += [filter_(r, 3)]
    gs = uniq(gs)
    if not c.thorough: gs = [g for i, g in enumerate(gs) if i < 40 or i % 5 == 0]
    srcs = []
    n = 8 if not c.thorough else 32
    for k in range(n):
        part = gs[k::n]
        out = ['#include "h_work.h"', 'using namespace k3::tok3n;', 'using T = char;']
        for i, g in enumerate(part): out.append('static void g%d() { hw::grammar<std::remove_cvref_t<decltype(%s)>>(R"x(%s)x", %d); }' % (i, g.cpp, g.cpp, 16384 if c.thorough else 2048))
        out.append('int main() { h::start(); %s return h::finish(); }' % ' '.join('g%d();' % i for i in range(len(part))))
        srcs.append(('w%d' % k, '\n'.join(out)))
    # the same repetitions written as rules that refer to themselves, and deep stacks of optional and value-less parts
    A, B, C = '"a"_any', '"b"_any', '"c"_any'
    steps = [A, '"ab"_all', B, 'ignore(%s)' % A, '("ab"_all | %s)' % A, '("c"_none)', '(%s %% map<hw::make{}>)' % A, '(%s %% filter<hw::yes{}>)' % A, 'exactly<2>(%s)' % A, '(%s >> ~%s)' % (A, B), 'join(%s >> ~%s)' % (A, B), 'delimit(%s, %s)' % (A, B)]
    tails = ['~{R}', '*{R}', '({R} | %s)' % C, '~({R} >> ~%s)' % B, '~ignore({R})', '~complete({R})', '~({R} %% name<"r">)', '~~{R}', '~({R} % map<hw::make{{}}>)', '~({R} % filter<hw::yes{{}}>)', '~exactly<1>({R})', '~delimit({R}, %s)' % C, '~delimit_keep({R}, %s)' % C, '~(%s | {R})' % C, '~ignore(~ignore(~{R}))', '~(~{R} %% map<hw::make{{}}>)'.replace('%%', '%'),
             '~(~({R} >> ~%s) >> ~%s)' % (C, B), '~(~(~{R} % name<"r">) % name<"s">)', '+({R} | %s)' % C, '~+{R}']
    tails = [t.replace('%%', '%') for t in tails]
    rules = []
    for i, (s_, t) in enumerate(itertools.product(steps, tails)):
        if not c.thorough and i % 3 != i // len(tails) % 3: continue
        R = 'Rw%d' % i
        body = '(%s >> %s)' % (s_, t.replace('{R}', R + '{}').replace('{{}}', '{}'))
        if i % 4 == 1 and t[0] not in '*+' and '+{R}' not in t: body = '((%s >> %s >> %s) | %s)' % (s_, t.replace('{R}', R + '{}').replace('{{}}', '{}'), B, C)
        rules.append((R, 'struct %s : custom_parser<%s> { using result_type = hw::Made; static consteval auto get_parser() { return %s; } };' % (R, R, body), body))
    nest = []
    wraps = ('~({})', 'ignore({})', 'complete({})', '({} % name<"n">)', '+({})', 'exactly<1>({})', '({} % map<hw::make{{}}>)', '({} >> ~"c"_any)')
    more = ('join({} >> ~"c"_any)', '({} % filter<hw::yes{{}}>)', 'delimit({}, "c"_any)', 'delimit_keep({}, "c"_any)', '({} | "c"_any)', '("c"_any | {})', 'into<hw::Made>({})')
    for i, w in enumerate(list(itertools.product(wraps, repeat=2)) + [w for w in itertools.product(wraps + more, repeat=2) if w[0] in more or w[1] in more]):
        g = '("ab"_any >> ~"b"_any)'
        if any('join' in x for x in w):
            if any('map' in x or 'into' in x or 'ignore' in x or '_keep' in x for x in w): continue # nothing to join
            g = 'join%s' % g
        if sum('delimit' in x or x[0] == '+' for x in w) > 1 or w == ('exactly<1>({})',) * 2: continue # the value types grow out of hand
        for k in range(18): g = w[k % 2].format(g)
        if i < 64 or w[0] == w[1] or i % 2: nest.append('(%s >> ~"c"_any)' % g)
        if i < 64 or w[0] == w[1] or i % 2 == 0: nest.append('+(%s >> "b"_any)' % g)
    nest = mixed(g for g in nest if '+(+' not in g)
    for k in range(n):
        out = ['#include "h_work.h"', 'using namespace k3::tok3n;', 'using T = char;']
        pr = rules[k::n]
        nr = nest[k::n] if c.thorough else nest[k::n][k % 3::3]
        for R, d, b_ in pr: out.append(d)
        body = ['hw::grammar<%s>(R"x(%s = %s)x", 512, 30);' % (R, R, b_) for R, d, b_ in pr] + ['hw::grammar<std::remove_cvref_t<decltype(%s)>>(R"x(%s)x", 64, 60);' % (g, g) for g in nr]
        out += ['static void g%d() { %s }' % (i, x) for i, x in enumerate(body)]
        out.append('int main() { h::start(); %s return h::finish(); }' % ' '.join('g%d();' % i for i in range(len(body))))
        srcs.append(('r%d' % k, '\n'.join(out)))
    c.generated('work', srcs, objs=rt(c), cflags=('-O1',))

CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}

# ---- hand-written explorers ---------------------------------------------------------------------------
def rt(c): return [c.obj('rt.cpp')]

def C06(c):
    c.harness_parts('chars', 'h_chars.cpp', 12 if c.thorough else 9, objs=rt(c))
    c.harness_parts('mixed', 'h_chars.cpp', range(40, 46), objs=rt(c))
    c.harness_parts('clang', 'h_chars.cpp', [0, 2, 4, 6, 20, 23], objs=rt(c), cxx='clang++')
    c.harness_parts('larger', 'h_chars.cpp', range(20, 30 if c.thorough else 27), objs=rt(c))
    c.harness_parts('pairs', 'h_sets.cpp', 18 if c.thorough else 8, objs=rt(c))
    L = [any_('a'), any_('cab'), none_('ba'), all_('ab'), all_('aab')]
    c.grammars('combined', cases(core(un=lambda a: (not_(a),) if a.kind in ('any', 'none') else (), leaves=L)), ['--maxlen=5', '--mask=rec,fail,val,type,look'])
    edges_part(c, 'rec,fail,val,type,look', step=2)
    literals_part(c, 'rec,fail,val,type,look', step=2)
    return c.finish(['element types: the seven character types, int, long long, a scoped enum', 'sets of up to 33 members: runs of neighbours at six places of the range (its ends and the signed boundary included), 13 strides, gaps up to the whole range, four orders of writing, and unions of such sets', 'all values of types up to 16 bits; for wider types all values within 2 of a power of two or of a set member, and -300..69999'])
CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}

# ---- grammars over any element type: the string literals of the term become element lists ------------------
import re as _re
def lits_of(cpp, T='T'):
    def f(m):
        s = _re.sub(r'\\([0-7]{3}|.)', lambda k: chr(int(k.group(1), 8)) if len(k.group(1)) == 3 else k.group(1), m.group(1))
        nums = ''.join(', %d' % ord(ch) for ch in s)
        e = 'hi::lits<%s%s>::%s()' % (T, nums, 'all' if m.group(2) == 'ign' else m.group(2))
        return 'ignore(%s)' % e if m.group(2) == 'ign' else e
    cpp = cpp.replace('anything_parser<char>', 'anything_parser<%s>' % T)
    return _re.sub(r'"((?:[^"\\]|\\.)*)"_(any|none|all|ign)', f, cpp)

def input_grammars():
    a, b, z = any_('a'), any_('b'), any_('\0')
    return [join(star(a)), plus(any_('ab')), all_('ab'), none_('a'), seq(a, maybe(z), b), star(choice(all_('ab'), z)), complete(star(none_('b'))), join(plus(any_('a\0'))), delimit(any_('ab'), z), delimit_keep(a, choice(b, z)),
            exactly(none_('\0'), 2), ignore(plus(a)), seq(anything_(), star(choice(a, z))), star(seq(a, anything_())), all_('a\0b'), map_(seq(a, plus(choice(b, z))), 1), join(seq(a, maybe(all_('b\0')))), all_(''), filter_(plus(any_('ab')), 2), choice(complete(a), seq(none_('\0'), star(z)), EPS)]

CHARS = ['char', 'signed char', 'unsigned char', 'wchar_t', 'char8_t', 'char16_t', 'char32_t']
def form_source(T, mapped, part, k, longest=66000, maxlen=4):
    out = ['#define HI_MAP' if mapped else '', '#define HI_LONGEST %d' % longest, '#include "h_input.h"', 'using namespace k3::tok3n;', 'enum class Enum : int {};', 'using T = %s;' % T]
    for i, g in enumerate(part):
        out.append('static void g%d() { hi::grammar<T, std::remove_cvref_t<decltype(%s)>>("%s", R"x(%s)x", "%s", %d); }' % (i, lits_of(g.cpp), T, g.cpp, sx(g), maxlen))
    out.append('int main(int argc, char** argv) { h::start(); %s return h::finish(); }' % ' '.join('g%d();' % i for i in range(len(part))))
    return '%s%s_%d' % (T.replace(' ', '_'), '_m' if mapped else '', k), '\n'.join(out)
def C14(c):
    types = CHARS + ['int', 'unsigned short', 'long long', 'Enum']
    gs = input_grammars()
    if c.thorough: gs = gs + [g for g in core(un=un_all, leaves=[any_('a'), all_('a\0')], depth2=False) if '%' not in g.cpp]
    srcs = []
    per = 6
    for T, mapped in [(T, m) for T in types for m in (0, 1)]:
        mine = gs if not mapped or c.thorough else gs[::2] if T.startswith('char') or T == 'wchar_t' else gs[::5]
        for k in range(0, len(mine), per):
            part = mine[k:k + per]
            srcs.append(form_source(T, mapped, part, k))
    # the grammar's elements and the input's of different types
    for n, (GT, T) in enumerate([('char', 'wchar_t'), ('char', 'char8_t'), ('char', 'unsigned char'), ('char', 'int'), ('wchar_t', 'char'), ('char32_t', 'char16_t'), ('int', 'char'), ('unsigned short', 'char32_t'), ('char8_t', 'signed char'), ('long long', 'wchar_t')]):
        part = [g for g in gs[n % 3::1 if c.thorough else 3]]
        out = ['#include "h_input.h"', 'using namespace k3::tok3n;', 'using GT = %s; using T = %s;' % (GT, T)]
        for i, g in enumerate(part):
            out.append('static void g%d() { hi::grammar<T, std::remove_cvref_t<decltype(%s)>>("%s grammar on %s", R"x(%s)x", "%s", %d); }' % (i, lits_of(g.cpp, 'GT'), GT, T, g.cpp, sx(g), 4))
        out.append('int main(int argc, char** argv) { h::start(); %s return h::finish(); }' % ' '.join('g%d();' % i for i in range(len(part))))
        srcs.append(('%s_on_%s' % (GT.replace(' ', '_'), T.replace(' ', '_')), '\n'.join(out)))
    c.generated('forms', srcs, objs=rt(c) + [c.obj('ref.cpp')])
    return c.finish(['element types: the seven character types, int, unsigned short, long long, a scoped enum; ten pairs of different element types of grammar and input', 'all element sequences over {a, b, zero} up to 4 elements, and over zero and two elements whose low bits are zero'])
CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}

def C15(c):
    def un(a):
        yield maybe(a); yield plus(a); yield star(a); yield exactly(a, 2); yield ignore(a); yield complete(a)
        if joinable(a.ty): yield join(a)
        if a.kind in ('any', 'none'): yield not_(a)
        yield map_(a, 1); yield name(a, 'n')
    sets = ('any', 'none')
    def bi(a, b):
        yield seq(a, b); yield delimit(a, b); yield delimit_keep(a, b)
        if not (a.kind in sets and b.kind in sets and 'none' in (a.kind, b.kind)): yield choice(a, b)
    L = [any_('a'), any_('bc'), none_('ab'), all_('ab'), all_('cc'), ign_('c')]
    t1 = core(un=un, bi=bi, leaves=L, depth2=False)
    # no merging of negated classes (see the property)
    gs = t1 + [join(plus(none_('ab'))), join(star(any_('bc'))), join(exactly(all_('ab'), 2)), join(maybe(all_('abc'))), seq(star(seq(any_('a'), none_('b'))), all_('c')), choice(all_('abc'), all_('ab'), any_('c')),
               star(choice(all_('ab'), all_('ba'))), delimit(plus(any_('ab')), any_('c')), complete(delimit_keep(any_('a'), any_('bc'))), map_(seq(any_('a'), plus(none_('a'))), 1), all_('abc'), all_('')]
    gs = uniq(gs)
    if not c.thorough: gs = gs[:30:2] + gs[30:-12:4] + gs[-12:]
    srcs = []
    combos = [('char', 'InA'), ('char', 'InB'), ('char', 'InC'), ('he::Tok', 'InA'), ('he::Tok', 'InB'), ('he::Tok', 'InC'), ('char', 'InD'), ('he::Tok', 'InD'), ('he::Self', 'Self')]
    for G_, In in combos:
        n = (2 if In in ('InA', 'InB', 'InC') else 1) if not c.thorough else 8
        for k in range(n):
            part = gs[k::n]
            if (G_, In) in combos[2:5] + combos[6:8] and not c.thorough: part = part[::2]
            out = ['#include "h_elem.h"', 'using namespace k3::tok3n;', 'using T = %s;' % G_]
            for i, g in enumerate(part):
                out.append('static void g%d(int len, int kinds) { he::grammar<he::%s, std::remove_cvref_t<decltype(%s)>>("%s in %s", R"x(%s)x", "%s", len, kinds); }' % (i, In, lits_of(g.cpp), G_, In, g.cpp, sx(g)))
            body = ' '.join('g%d(4, 2); g%d(%d, 3);' % (i, i, 3 if c.thorough else 2) for i in range(len(part)))
            if k == 0:
                long_ = [all_('abcabcabca'), all_('a' * 17), join(seq(all_('cb' * 4), star(any_('ab'))))]
                for i, (g, n) in enumerate(zip(long_, (10, 17, 12))):
                    out.append('static void l%d() { he::grammar<he::%s, std::remove_cvref_t<decltype(%s)>>("%s in %s", R"x(%s)x", "%s", -%d, 2); }' % (i, In, lits_of(g.cpp), G_, In, g.cpp, sx(g), n))
                    body += ' l%d();' % i
            out.append('int main() { h::start(); %s h::transitions += he::comparisons; return h::finish(); }' % body)
            srcs.append(('%s_%s_%d' % (G_[-3:], In, k), '\n'.join(out)))
    ts_ = ['char', 'signed char', 'unsigned char', 'wchar_t', 'char8_t', 'char16_t', 'char32_t', 'short', 'int', 'unsigned', 'long long', 'bool']
    for k, g in enumerate(ts_):
        if g == 'bool': continue
        vs = ts_ if c.thorough else [t for i, t in enumerate(ts_) if (i + k) % 2 or t in ('char', 'int')]
        body = ' '.join('he::builtin<%s, %s, %d, %d>("%s in %s");' % (g, v, e0, e1, g, v) for v in vs for e0, e1 in (((97, 98), (-1, 127), (128, 255)) if c.thorough else ((97, 98), (-1, 128))))
        srcs.append(('b_' + g.replace(' ', '_'), '#include "h_elem.h"\nint main() { h::start(); %s return h::finish(); }' % body))
    for g, vs in (('double', ('double', 'float', 'int', 'char')), ('float', ('float', 'double', 'long long')), ('char', ('double', 'float')), ('int', ('double',))):
        body = ' '.join('he::builtin<%s, %s, %d, %d>("%s in %s");' % (g, v, e0, e1, g, v) for v in vs for e0, e1 in ((97, 98), (0, 97)))
        srcs.append(('f_' + g, '#include "h_elem.h"\nint main() { h::start(); %s return h::finish(); }' % body))
    c.generated('elements', srcs, objs=rt(c) + [c.obj('ref.cpp')], compile_is_violation='a grammar no longer works for an element type that only has ==')
    return c.finish(['three grammar elements, two or three kinds of input element, every relation between them, inputs up to 4 (two kinds) and 2-3 (three kinds) elements',
                     'negated classes are not merged in the irregular part (the property says so)', 'built-in pairs: 34 boundary values per position'])
CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}

SAN = ('-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-DMC_NOTYPES')
SANENV = {'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=99:handle_segv=1:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1:exitcode=99'}
def memory_grammars(c):
    L = [any_('a'), all_('ab'), none_('b')]
    t1 = core(un=un_all, leaves=L, depth2=False)
    gs = t1 + [g for x in t1 for g in (join(x) if joinable(x.ty) else maybe(x), star(x), delimit_keep(x, any_('b')), seq(x, all_('aa')), choice(seq(x, any_('b')), x), map_(x, 6), into(x, 5), exactly(x, 3))]
    gs += [strinto(plus_join(any_('ab'))), svinto(all_('ab')), const_(any_('a'), 3), dflt_(any_('a'), 4), apply_(seq(any_('a'), any_('b')), 3), applyinto(exactly(any_('ab'), 2), 4), afilter(seq(any_('ab'), plus(any_('a'))), 3),
           name(seq(name(any_('a'), 'n'), any_('b')), 'm'), all_(''), seq(all_(''), any_('a')), join(star(all_(''))), choice(all_('abab'), all_('aba'), all_('ab'), any_('a'), EPS)]
    return uniq(gs)
def C16(c):
    gs = memory_grammars(c)
    if c.thorough: gs = uniq(gs + core(un=filter_un, leaves=[any_('a'), all_('ab'), none_('a'), ign_('b')]))
    eg = edge_grammars()
    gs = uniq(gs + (eg if c.thorough else eg[::7]))
    q = gs if c.thorough else [g for i, g in enumerate(gs) if i % 2 == 0 or i < 60]
    c.grammars('sanitized', cases(q), ['--maxlen=%d' % (5 if c.thorough else 4), '--mask=rec,fail,look,evt', '--nocrash'], cflags=SAN, env=SANENV, shard=40, lflags=('-fsanitize=address,undefined',))
    c.grammars('guarded', cases(gs, 'p'), ['--maxlen=%d' % (6 if c.thorough else 5), '--mask=rec,fail,look,leak', '--places=2'], cflags=('-O2', '-D_GLIBCXX_ASSERTIONS') if c.thorough else ('-O0', '-D_GLIBCXX_ASSERTIONS'))
    literals_part(c, 'rec,fail,look,evt', SAN, step=2, args=('--nocrash',), name='literals_sanitized', env=SANENV, shard=40, lflags=('-fsanitize=address,undefined',))
    literals_part(c, 'rec,fail,look,leak', ('-O2', '-D_GLIBCXX_ASSERTIONS') if c.thorough else ('-O0', '-D_GLIBCXX_ASSERTIONS'), args=('--places=2',))
    vg = ('valgrind', '-q', '--leak-check=no', '--undef-value-errors=yes', '--partial-loads-ok=no')
    v = gs if c.thorough else gs[:60] + gs[60::9]
    if shutil.which('valgrind'):
        c.grammars('memcheck', cases(v, 'v'), ['--maxlen=%d' % (4 if c.thorough else 3), '--mask=rec,fail,look', '--nocrash', '--hang=100'], cflags=('-O1',), wrap=vg, shard=24)
    long_part(c, 'rec,fail,look,leak', ('-O0', '-D_GLIBCXX_ASSERTIONS'), step=9, off=6, args=('--places=2',))
    long_part(c, 'rec,fail,look,evt', SAN, step=29, off=8, args=('--nocrash',), name='long_sanitized', env=SANENV, lflags=('-fsanitize=address,undefined',))
    c.grammars('clang_sanitized', cases(gs if c.thorough else gs[1::7], 'k'), ['--maxlen=4', '--mask=rec,fail,look,evt', '--nocrash'], cflags=tuple(f for f in SAN if f != '-g1') + ('-fno-sanitize=vptr',), env=SANENV, shard=20, lflags=('-fsanitize=address,undefined',), cxx='clang++')
    # every way of passing the input, under the sanitizers
    ig = input_grammars()
    srcs = [form_source(T, m, ig[(n + m) % 4::4][:None if c.thorough else 2], 0, 4097 if c.thorough else 257, 4 if c.thorough else 3) for n, T in enumerate(CHARS + ['int', 'unsigned short', 'long long', 'Enum']) for m in ((0, 1) if c.thorough or n < 5 else (n % 2,))]
    c.generated('forms_sanitized', srcs, cflags=SAN, objs=rt(c) + [c.obj('ref.cpp')], lflags=('-fsanitize=address,undefined',), env=SANENV, args=('--nocrash',))
    return c.finish(CORE_ASSUME + ['undefined behaviour as detected by AddressSanitizer, UBSan, libstdc++ assertions, guard pages on both sides, allocation balance and valgrind memcheck on every explored execution'])
CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}

def C17(c):
    L = [any_('a'), all_('ab'), none_('a')]
    def un(a):
        yield from un_all(a)
        yield into(a, 5)
    t1 = core(un=un, leaves=L, depth2=False)
    gs = t1 + [f(x) for x in t1 for f in (lambda x: join(x) if joinable(x.ty) else maybe(x), star, lambda x: seq(x, maybe(any_('b'))), lambda x: choice(seq(x, any_('b')), x), lambda x: map_(x, 6), lambda x: delimit_keep(x, any_('b')))]
    gs += [strinto(plus_join(any_('ab'))), svinto(all_('ab')), const_(any_('a'), 3), dflt_(any_('a'), 4), apply_(seq(any_('a'), any_('b')), 3), applyinto(exactly(any_('ab'), 2), 4), afilter(seq(any_('ab'), plus(any_('a'))), 3), all_(''),
           choice(all_('aba'), all_('ab'), any_('a'), EPS), join(seq(maybe(any_('a')), ign_('b'), star(any_('ac')))), join(star(all_('ab'))), join(exactly(none_('b'), 2)), join(maybe(all_('ab')))]
    gs += [custom(seq(any_('a'), maybe(any_('b'))), 'Cx{}')]
    pre = 'struct Cx : custom_parser<Cx> { static consteval auto get_parser() { return "a"_any >> ~"b"_any; } };\n'
    gs = uniq(gs)
    gs = uniq(gs + edge_grammars()[::1 if c.thorough else 9])
    big = ('-O0', '-fconstexpr-ops-limit=2000000000', '-fconstexpr-loop-limit=100000000', '-fconstexpr-cache-depth=4')
    kw = dict(prelude=pre, header='mc17.h', main='main_const.cpp', shard=12)
    th = c.thorough
    q = gs if th else [g for i, g in enumerate(gs) if i < 60 or i % 3 or i > len(gs) - 16]
    c.grammars('constant', cases(q), ['--hang=30'], cflags=big + ('-DMC17_LEN=%d' % (6 if th else 4),), **kw)
    # inputs of 7 to 34 elements; every representation of an input; other letters; other element types; another evaluator
    c.grammars('long', cases(gs[::1 if th else 7], 'l'), ['--hang=30'], cflags=big + ('-DMC17_LEN=0',), **kw)
    lits = [g for g in literal_grammars()[0]]
    spec = [f(x) for x in (any_('a'), none_('a'), none_('b'), any_('ab'), none_('bc'), all_('a'), all_('ab'), anything_()) for f in (lambda g: join(star(g)), lambda g: join(plus(g)), lambda g: join(exactly(g, 2)), lambda g: ignore(star(g)), plus)] + [join(exactly(none_('b'), 40)), join(seq(star(none_('b')), maybe(any_('b')))), delimit(join(plus(none_('b'))), any_('b'))]
    c.grammars('longer', cases(uniq(spec + gs[3::2 if th else 17] + lits[::1 if th else 9]), 'm'), ['--hang=30'], cflags=big + ('-DMC17_LEN=-1',), **dict(kw, shard=4))
    a, b, ab = any_('a'), any_('b'), any_('ab')
    far = [join(star(a)), join(plus(none_('c'))), ignore(star(ab)), join(exactly(ab, 1000)), ignore(plus(choice(all_('ab'), a)))] # nothing with a vector: each of its elements costs the compiler megabytes
    c.grammars('far', cases(uniq(far), 'o'), ['--hang=60'], cflags=big + ('-DMC17_LEN=-2',), **dict(kw, shard=1))
    c.grammars('literals', cases(lits[1::1 if th else 5], 'k'), ['--hang=30'], cflags=big + ('-DMC17_LEN=0',), **kw)
    c.grammars('forms', cases(gs[2::1 if th else 9], 'f'), ['--hang=30'], cflags=big + ('-DMC17_LEN=3', '-DMC17_FORMS=1'), **kw)
    a, b = any_('a'), any_('\0\xe1')
    by = core(un=un, leaves=[a, all_('a\0'), none_('\xe1'), all_('\xe1\0a')], depth2=False) + [f(x) for x in (b, all_('a\0\xe1'), none_('\0'), none_('a\xe1'), seq(a, b), seq(all_('\0'), a)) for f in (star, plus, maybe, lambda g: join(plus(g)), lambda g: join(star(g)), lambda g: exactly(g, 2), lambda g: join(exactly(g, 2)), lambda g: join(maybe(g)), complete, lambda g: delimit(g, a))]
    c.grammars('bytes', cases(by if th else by[::3], 'b'), ['--hang=30'], cflags=big + ('-DMC17_LEN=%d' % (4 if th else 3), '-DMC17_ALPHABET="a\\0\\341"', '-DMC17_FORMS=1'), **kw)
    el = [g for g in uniq(t1 + [join(star(all_('ab'))), join(exactly(none_('b'), 2)), choice(all_('aba'), all_('ab'), a, EPS)]) if not any(x in g.cpp for x in ('std::string', 'Cx{}'))]
    es = [case(g, 'E%d_%d' % (i, j)) + ((), None, e) for i, g in enumerate(el) for j, e in enumerate(ELEMS) if (i + j) % (2 if th else 16) == 0]
    c.grammars('elements', es, ['--hang=30'], cflags=big + ('-DMC17_LEN=3', '-DMC17_FORMS=%d' % th), **dict(kw, prelude=pre + 'enum class Enum : int {};'))
    c.grammars('elements_long', es[::3], ['--hang=30'], cflags=big + ('-DMC17_LEN=0',), **dict(kw, prelude=pre + 'enum class Enum : int {};'))
    return c.finish(CORE_ASSUME + ['g++ 13 as the constant evaluator', 'inputs: all up to length 4 (6); 154 inputs of 7 to 34 elements and 24 of 48 to 261; letters including zero and bytes above 127; twelve element types; about thirty representations of an input'])
CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}

def history_grammars():
    a, b = any_('a'), any_('b')
    return [plus(any_('ab')), all_('ab'), none_('b'), join(plus(a)), strinto(join(plus(any_('ab')))), map_(a, 1), star(map_(any_('ab'), 1)), seq(a, maybe(b)), choice(all_('aab'), a), choice(map_(all_('ab'), 1), ign_('a')), delimit(map_(a, 2), b), delimit_keep(a, b), exactly(map_(a, 1), 2), exactly(a, 2),
            complete(seq(a, star(b))), ignore(plus(a)), filter_(plus(any_('ab')), 2), star(filter_(map_(any_('ab'), 1), 2)), wmap(plus(a), 3), into(seq(a, b), 5), const_(a, 4), dflt_(a, 6), apply_(seq(a, b), 3), name(seq(name(a, 'n'), b), 'm'),
            svinto(all_('ab')), join(seq(a, star(any_('ab')))), applyinto(exactly(any_('ab'), 2), 4), afilter(seq(a, b), 2), choice(seq(map_(a, 1), map_(all_('bb'), 2)), star(any_('ab'))), maybe(join(exactly(any_('ab'), 2))),
            join(star(all_('ab'))), join(maybe(a)), custom(seq(a, maybe(b)), 'Hc{}'), custom(choice(map_(a, 1), map_(all_('bb'), 1)), 'Hd{}'), star(custom(map_(a, 1), 'He{}')), all_(''), choice(b, EPS)]
HIST_PRE = 'struct Hc : custom_parser<Hc> { static consteval auto get_parser() { return "a"_any >> ~"b"_any; } };\n' \
    'struct Hd : custom_parser<Hd> { using result_type = mc::Obj<1>; static consteval auto get_parser() { return ("a"_any % map<mc::fn<1>>) | ("bb"_all % map<mc::fn<1>>); } };\n' \
    'struct He : custom_parser<He> { static consteval auto get_parser() { return "a"_any % map<mc::fn<1>>; } };'

def symbols(path):
    out = subprocess.run(['objdump', '-tw', path], stdout=subprocess.PIPE, text=True).stdout
    for l in out.splitlines():
        m = re.match(r'([0-9a-f]{16}) (.{7}) (\S+)\s+([0-9a-f]{16}) (?:\.hidden )?(.*)$', l)
        if m: yield int(m.group(1), 16), m.group(2), m.group(3), int(m.group(4), 16), m.group(5).strip()
def writable(sec): return sec.startswith(('.data', '.bss', '.tdata', '.tbss')) and '.rel.ro' not in sec or sec == '*COM*'
def static_names(obj):
    names = {n for a, f, sec, sz, n in symbols(obj) if 'O' in f and writable(sec) and sz or sec == '*COM*'}
    return {n for n in names if not n.startswith(('_ZSt', '_ZL', '_ZTV', '_ZTI', 'DW.ref')) or n.startswith('_ZZ') or 'tok3n' in n}
def watch_list(c, obj, exe):
    """Writable static objects that the library's translation unit contributes: (address, size, tls)."""
    names = static_names(obj)
    return [(a, sz, 1 if sec in ('.tdata', '.tbss') else 0) for a, f, sec, sz, n in symbols(exe) if n in names and sz and writable(sec)]

def with_state(c, base, flags=('-O0', '-fno-pie'), limit=16):
    """The grammars of the larger families whose object code keeps writable static data of its own; the histories are explored over these too."""
    have = {g.cpp for g in base}
    fam = wide(c.thorough) + literal_grammars()[0] + edge_grammars(c.thorough) + core(leaves=[any_('a'), all_('ab'), none_('a')], depth2=False) + round_grammars()[::1 if c.thorough else 4] + input_grammars()
    fam = [g for g in uniq(fam) if g.cpp not in have]
    def compile(nm, part):
        f = '%s/state_%s.cpp' % (c.dir, nm)
        open(f, 'w').write('\n'.join(['#include "h_hist.h"', 'using namespace k3::tok3n;', HIST_PRE, 'void all_%s() {' % nm] + ['hist::reg<std::remove_cvref_t<decltype(%s)>>("", "");' % g.cpp for g in part] + ['}']))
        rc, out = c.cc(['g++'] + BASE + [*flags, '-c', f, '-o', f[:-4] + '.o'])
        if rc: raise BuildBroken(out[:3000])
        names = static_names(f[:-4] + '.o')
        os.remove(f[:-4] + '.o')
        return names
    none = compile('none', [])
    chunks = [fam[i:i + 25] for i in range(0, len(fam), 25)]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda k: compile(str(k), chunks[k]) - none, range(len(chunks))))
        guilty = [k for k in range(len(chunks)) if res[k]]
        guilty = guilty[::max(1, (len(guilty) + 5) // 6)]
        todo = [(k, i, g) for k in guilty for i, g in enumerate(chunks[k])]
        one = list(ex.map(lambda t: compile('%d_%d' % t[:2], [t[2]]) - none, todo))
    out, covered = [], set()
    for (k, i, g), ns in zip(todo, one):
        if ns - covered and len(out) < limit: out.append(g); covered |= ns
    c.parts.setdefault('static_data', {}).update(grammars_compiled=len(fam), grammars_with_static_data_sampled=sum(1 for x in one if x), explored_additionally=len(out))
    return out

def own_inputs(c, gs, first):
    """Inputs made of a grammar's own letters, for the grammars from the given place on."""
    f = '%s/own_inputs.txt' % c.dir
    with open(f, 'w') as o:
        for i, g in list(enumerate(gs))[first:]:
            ls = [_re.sub(r'\\([0-7]{3}|.)', lambda k: chr(int(k.group(1), 8)) if len(k.group(1)) == 3 else k.group(1), m) for m in _re.findall(r'"((?:[^"\\]|\\.)*)"_(?:any|none|all|ign)', g.cpp)]
            ls = [l[:64] for l in ls if l]
            if not ls: continue
            l = max(ls, key=len)
            for t in uniq_text([l[-1] + l[0], l, ''.join(ls)[:90], l + l, l[len(l) // 2:] + l[:1]])[:4]: o.write('%d %s\n' % (i, t.encode('latin-1').hex()))
    return f
def uniq_text(ts): return list(dict.fromkeys(ts))

def build_ops(c, gs, cflags, n=JOBS):
    """The library's part of a check, alone in its own object files."""
    def build(k):
        part = gs[k::n]
        s = '\n'.join(['#include "h_hist.h"', 'using namespace k3::tok3n;', HIST_PRE] + ['static void c%d() { hist::reg<std::remove_cvref_t<decltype(%s)>>(R"x(%s)x", "%s"); }' % (i, g.cpp, g.cpp, sx(g)) for i, g in enumerate(part)] + ['void register_part_%d() { %s }' % (k, ' '.join('c%d();' % i for i in range(len(part))))])
        f = '%s/ops_%d.cpp' % (c.dir, k)
        open(f, 'w').write(s)
        rc, out = c.cc(['g++'] + BASE + [*cflags, '-c', f, '-o', f[:-4] + '.o'])
        if rc: raise BuildBroken(out[:3000])
        return f[:-4] + '.o'
    with cf.ThreadPoolExecutor(JOBS) as ex: objs = list(ex.map(build, range(n)))
    glue = '%s/glue.cpp' % c.dir
    open(glue, 'w').write('\n'.join('void register_part_%d();' % k for k in range(n)) + '\nvoid register_cases() { %s }\n' % ' '.join('register_part_%d();' % k for k in range(n)))
    allw = '%s/all.o' % c.dir
    c.cc(['ld', '-r', *objs, '-o', allw])
    return objs, glue, allw

def C18(c):
    gs = history_grammars()
    first = len(gs)
    gs += with_state(c, gs)
    objs, glue, allw = build_ops(c, gs, ('-O1', '-fno-pie'))
    exe = '%s/histories' % c.dir
    rc, out = c.cc(['g++'] + BASE + ['-O1', '-fno-pie', '-no-pie', glue, *objs, c.obj('rt.cpp'), c.obj('ref.cpp'), c.obj('main_hist.cpp'), '-o', exe])
    if rc: raise BuildBroken(out[:3000])
    w = watch_list(c, allw, exe)
    wf = '%s/watch.txt' % c.dir
    open(wf, 'w').write(''.join('%x %x %d\n' % x for x in w))
    c.parts.setdefault('histories', {})['static_objects_watched'] = len(w)
    parts = 16
    own = own_inputs(c, gs, first)
    runs = [['--watch=' + wf, '--own=' + own, '--part=%d/%d' % (k, parts), '--repeat=%d' % (70000 if c.thorough else 5000)] for k in range(parts)]
    c.run_program('histories', exe, runs)
    return c.finish(['%d grammars, 12 inputs (up to 4 elements, 40 and 300), two input pages that are unreadable between operations' % len(gs), 'histories: all of length 2, all of length 3 within a grammar, long repetitions, and all operations in every reachable state of hidden static data',
                     'static data is identified by the symbol table of the objects that contain the library code'])

def C19(c):
    gs = history_grammars()
    first = len(gs)
    gs += with_state(c, gs)
    own = own_inputs(c, gs, first)
    th = ('-DMC_THREADS', '-fno-pie')
    objs, glue, allw = build_ops(c, gs, ('-O1', '-fsanitize=thread', *th))
    exe = '%s/threads' % c.dir
    wrap = '-Wl,' + ','.join('--wrap=' + s for s in ('__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'memcpy', 'memmove', 'memset', 'memcmp'))
    rc, out = c.cc(['g++'] + BASE + ['-O1', '-no-pie', *th, glue, *objs, c.obj('rt.cpp', th), c.obj('ref.cpp', th), c.obj('main_sched.cpp', th), '-o', exe, wrap, '-pthread'])
    if rc: raise BuildBroken(out[:3000])
    w = watch_list(c, allw, exe)
    c.parts.setdefault('schedules', {})['static_objects_of_the_library'] = len(w)
    runs = [['--own=' + own, '--part=%d/%d' % (k, 16), '--fresh=%d' % (1 if w else 0), '--thorough=%d' % c.thorough, '--budget=%d' % (3000 if c.thorough else 220)] for k in range(16)]
    c.run_program('schedules', exe, runs, timeout=7200 if c.thorough else 800)
    return c.finish(['%d grammars; two threads with up to 4 (thorough: 6) preemptions (mixed pairs: 2; 3), three threads with 3 (5); sequentially consistent interleavings at the granularity of memory accesses' % len(gs),
                     'accesses inside compiled libstdc++ functions touch only the calling thread\'s own objects', 'every access to writable memory that is not the thread\'s own is checked for happens-before conflicts'])
CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}

# ---- values and faults ----------------------------------------------------------------------------------
def value_t1(c, wide): return value_grammars(c, wide, True)
def value_grammars(c, wide, t1_only=False):
    a, b = any_('a'), any_('b')
    A, B = map_(a, 11), map_(all_('ab'), 12)
    D, W = dflt_(b, 7), wmap(a, 14)
    def un(x):
        yield maybe(x); yield plus(x); yield star(x); yield exactly(x, 2); yield ignore(x); yield complete(x)
        yield map_(x, 1); yield map_(x, 2); yield wmap(x, 3); yield into(x, 5); yield filter_(x, 2 if x.ty != VOID else 1); yield name(x, 'n'); yield dflt_(x, 8); yield const_(x, 4)
        if joinable(x.ty): yield join(x)
        if applicable(x.ty): yield apply_(x, 1); yield apply_(x, 2); yield applyinto(x, 6); yield afilter(x, 3); yield wapply(x, 5)
    L = [A, B, D, a]
    t1 = core(un=un, leaves=L + ([W] if wide else []), depth2=False)
    gs = list(t1)
    for x in t1: gs += list(un(x))
    for x in t1: gs += [seq(x, A), seq(D, x), choice(x, A), choice(B, x), delimit(x, b), delimit(A, x), delimit_keep(x, D), delimit_keep(A, x), choice(seq(x, B), x)]
    ex = [custom(plus(A), 'Vc{}'), seq(custom(plus(A), 'Vc{}'), maybe(D)), name(seq(A, maybe(B), star(D)), 'n'), choice(seq(A, D, A), seq(A, D), A), star(choice(seq(A, B), A, D)), exactly(seq(A, maybe(D)), 3), exactly(A, 3), delimit_keep(seq(A, maybe(A)), choice(D, all_('c'))),
           filter_(plus(filter_(choice(A, D), 2)), 3), into(into(into(A, 1), 2), 3), maybe(choice(A, maybe(D))), plus(plus(seq(A, D))), apply_(seq(A, plus(D), maybe(B)), 1), apply_(exactly(A, 3), 1), apply_(delimit_keep(A, D), 1), afilter(delimit_keep(A, D), 2)]
    return uniq(t1 + ex) if t1_only else uniq(t1 + ex + gs)
VAL_PRE = 'struct Vc : custom_parser<Vc> { static consteval auto get_parser() { return +("a"_any % map<mc::fn<11>>); } };\n'

def wide_values(c, step=1, off=0):
    """Values through long sequences, many alternatives, many rounds and deep nests."""
    a, b = any_('a'), any_('b')
    A, B, D = map_(a, 11), map_(any_('ab'), 12), dflt_(b, 7)
    ps = [A, B, D, maybe(A), plus(A), star(B), b, exactly(B, 2), choice(A, D), ignore(A), delimit(A, b), delimit_keep(A, D)]
    own = []
    for n in (4, 5, 6, 8, 12):
        for r in range(3):
            s = seq(*[ps[(r * 5 + i * (2 * r + 1)) % len(ps)] for i in range(n)])
            own += [s, star(seq(s, b)), choice(seq(s, any_('c')), maybe(A)), delimit(s, any_('c'))]
            if applicable(s.ty): own += [apply_(s, 1), applyinto(s, 6), afilter(s, 3), apply_(s, 2)]
        own += [exactly(A, n), exactly(seq(A, maybe(D)), n), apply_(exactly(B, n), 1), choice(seq(exactly(B, n), D), exactly(A, n)), maybe(exactly(choice(A, D), n)), exactly(plus(D), n), delimit_keep(exactly(A, n), D)]
        own += [choice(*[seq(map_(a, i + 1), ign_('b' if i % 2 else 'a'), all_('b' * (n - 1 - i))) for i in range(n)]), seq(choice(*[map_(any_('ab'[i % 2] if i else 'c'), i + 1) for i in range(n)]), A)]
        x = A
        for i in range(n): x = (maybe, plus, lambda y: seq(y, maybe(b)), lambda y: choice(seq(y, D), y), lambda y: exactly(y, 1), lambda y: name(y, 'n'), complete, lambda y: delimit(y, b))[(i * 3 + n) % 8](x)
        own.append(x)
    ps = [A, B, D, maybe(A), exactly(B, 2), choice(A, D), seq(A, ign_('b')), maybe(D)]
    flat = []
    for n in (4, 5, 6, 8, 12):
        s = seq(*[ps[(n + 3 * i) % len(ps)] for i in range(n)])
        flat += [apply_(s, 1), applyinto(s, 6), apply_(s, 2), afilter(s, 3)][(n // 2) % 2::2] + [star(s), apply_(exactly(A, n), 2)]
    return uniq(own + [g for g in wide(c.thorough) if calls(g)])[off::step] + flat

def long_values(c, step=1, off=0):
    a, b = any_('a'), any_('b')
    A, B, D = map_(a, 11), map_(any_('ab'), 12), dflt_(b, 7)
    out = []
    for x in (A, B, seq(A, maybe(D)), choice(A, D), exactly(A, 2), maybe(seq(A, D)), wmap(B, 3), map_(B, 2), filter_(B, 2), name(B, 'n'), plus(A), apply_(seq(A, maybe(D)), 1)):
        for r in (star(x), plus(x), delimit(x, b), delimit_keep(x, D), delimit_keep(x, maybe(D)), exactly(x, 33), exactly(x, 64), plus(choice(x, D))):
            out += [r, seq(maybe(seq(r, all_('cc'))), A), complete(r), map_(r, 5), choice(seq(r, all_('cb')), r), maybe(r), star(seq(r, any_('c'))), delimit(r, any_('c')), filter_(r, 3) if r.ty != VOID else ignore(r)]
    return mixed(uniq(out))[off % step::step]

def C23(c):
    gs = value_grammars(c, True)
    if c.thorough: gs = uniq(gs + [g for x in gs[:400] for g in (maybe(x), plus(x), seq(x, map_(any_('b'), 13)), choice(x, dflt_(any_('c'), 9)), map_(x, 1), exactly(x, 2), filter_(x, 3 if x.ty != VOID else 1), name(x, 'k'))])
    k = len(value_t1(c, True))
    for pol, nm_, st in ((2, 'moveonly', 5), (1, 'copyable', 9), (5, 'plain', 23), (6, 'plain_moveonly', 29), (7, 'nothrow', 13), (9, 'trivial_copyable', 31), (8, 'trivial_moveonly', 37)):
        q = gs if c.thorough else gs[:k:1 if pol < 5 else 2 if pol < 8 else 3] + gs[k + pol::st]
        c.grammars(nm_, cases(uniq(q), 'v'), ['--maxlen=%d' % (5 if c.thorough else 4)], prelude=VAL_PRE, cflags=('-O0', '-DMC_TRACK=%d' % pol), main='main_value.cpp', shard=70)
    for pol, nm_, st in ((1, 'clang_copyable', 11), (2, 'clang_moveonly', 13)):
        c.grammars(nm_, cases(gs if c.thorough else gs[pol::st], 'k'), ['--maxlen=4'], prelude=VAL_PRE, cflags=('-O0', '-DMC_TRACK=%d' % pol), main='main_value.cpp', shard=40, cxx='clang++')
    for pol, nm_, st in ((2, 'large_moveonly', 2), (1, 'large_copyable', 3), (7, 'large_nothrow', 5), (9, 'large_trivial', 3), (8, 'large_trivial_moveonly', 7)):
        f = runs_file(c, wide_inputs() if c.thorough else wide_inputs()[pol % 2::2])
        c.grammars(nm_, cases(wide_values(c, 1 if c.thorough else st), 'w'), ['--inputs=' + f], prelude=VAL_PRE, cflags=('-O0', '-DMC_TRACK=%d' % pol), main='main_value.cpp', shard=30)
    for pol, nm_, st in ((2, 'long_moveonly', 5), (1, 'long_copyable', 8), (7, 'long_nothrow', 13), (9, 'long_trivial', 11)):
        f = runs_file(c, long_inputs() if c.thorough else long_inputs()[pol % 4::4])
        c.grammars(nm_, cases(long_values(c, 1 if c.thorough else st, pol), 'y'), ['--inputs=' + f, '--hang=60'], prelude=VAL_PRE, cflags=('-O0', '-DMC_TRACK=%d' % pol), main='main_value.cpp', shard=20)
    return c.finish(CORE_ASSUME)

FAULT_PRE = 'struct Fc : custom_parser<Fc> { using result_type = Val; static consteval auto get_parser() { return "a"_any >> ~"b"_any; } };\n' \
    'struct Fd : custom_parser<Fd> { using result_type = Val; static consteval auto get_parser(); };\nconsteval auto Fd::get_parser() { return ("a"_any >> ~Fd{} >> ~"b"_any) | "c"_any; }\n' \
    'struct Fe : custom_parser<Fe> { using result_type = std::optional<Val>; static consteval auto get_parser() { return map<mk{}>("b"_any); } };\n'
def fault_terms(c):
    """Every place where an element comparison, a predicate, the conversion of its answer, a conversion to a declared result type or any operation of a value can throw, in terms of two operators."""
    fa = lambda x: map_(x, 0).with_cpp('map<mk{}>(%s)' % x.cpp)
    fv = lambda x: wmap(x, 0).with_cpp('map<vd{}>(%s)' % x.cpp)
    ff = lambda x: G('filter', (x, 0), x.ty).with_cpp('filter<pr{}>(%s)' % x.cpp)
    def un(x):
        yield maybe(x); yield plus(x); yield star(x); yield exactly(x, 2); yield ignore(x); yield complete(x); yield name(x, 'n')
        yield fa(x); yield fv(x); yield ff(x)
        yield into(x, 0).with_cpp('into<Val>(%s)' % x.cpp); yield dflt_(x, 0).with_cpp('defaulted<Val>(%s)' % x.cpp); yield const_(x, 0).with_cpp('constant<SCon(5)>(%s)' % x.cpp)
        if joinable(x.ty): yield join(x)
        if applicable(x.ty): yield apply_(x, 0).with_cpp('apply<mk{}>(%s)' % x.cpp); yield applyinto(x, 0).with_cpp('apply_into<Val>(%s)' % x.cpp); yield afilter(x, 0).with_cpp('apply_filter<pr{}>(%s)' % x.cpp)
    a, b, ab = any_('ab'), any_('b'), all_('ab')
    own = [custom(into(a, 0), n + '{}') for n in ('Fc', 'Fd', 'Fe')]
    L = [a, ab, fa(any_('a'))] + own
    t1 = core(un=un, leaves=L, depth2=False)
    gs = t1 + [f(x) for i, x in enumerate(t1) for k, f in enumerate((star, lambda g: seq(g, b), lambda g: choice(seq(g, b), g), lambda g: delimit(g, b), lambda g: delimit_keep(a, g), lambda g: exactly(g, 2), maybe, fa, ff)) if c.thorough or (i + k) % 5 == 0]
    gs = uniq(g for g in gs if 'EPS' not in g.cpp)
    srcs = []
    n = 16 if not c.thorough else 48
    for k in range(n):
        part = gs[k::n]
        out = ['#include "h_fault.h"', FAULT_PRE] + ['static void g%d() { both(R"x(%s)x", std::remove_cvref_t<decltype(%s)>{}); }' % (i, g.cpp, g.cpp) for i, g in enumerate(part)]
        out.append('int main() { h::start(); make_inputs(%d); %s h::extra = ",\\"fault_points\\":" + std::to_string(h::transitions); return h::finish(); }' % (4 if c.thorough else 3, ' '.join('g%d();' % i for i in range(len(part)))))
        srcs.append(('t%d' % k, '\n'.join(out)))
    c.generated('terms', srcs, objs=rt(c))

def C20(c):
    gs = value_grammars(c, False)
    k = len(value_t1(c, False))
    for pol, nm_, st in ((3, 'copyable', 6), (4, 'moveonly', 20), (1, 'nothrow_moves', 40)):
        q = gs if c.thorough else gs[:k] + gs[k + pol::st]
        c.grammars(nm_, cases(uniq(q), 'f'), ['--maxlen=%d' % (5 if c.thorough else 4), '--faults=1', '--copies_ok=1'], prelude=VAL_PRE, cflags=('-O0', '-DMC_TRACK=%d' % pol), main='main_value.cpp', shard=50)
    c.grammars('clang', cases(gs if c.thorough else gs[::13], 'k'), ['--maxlen=4', '--faults=1', '--copies_ok=1'], prelude=VAL_PRE, cflags=('-O0', '-DMC_TRACK=3'), main='main_value.cpp', shard=40, cxx='clang++')
    for pol, nm_, st in ((3, 'large_copyable', 6), (4, 'large_moveonly', 9)):
        ins = [x for x in wide_inputs() if len(x) <= (25 if c.thorough else 14)]
        c.grammars(nm_, cases(wide_values(c, 1 if c.thorough else st, pol % 3), 'x'), ['--inputs=' + runs_file(c, ins if c.thorough else ins[pol::3]), '--faults=1', '--copies_ok=1'], prelude=VAL_PRE, cflags=('-O0', '-DMC_TRACK=%d' % pol), main='main_value.cpp', shard=20)
    c.harness('elements', ['h_fault.cpp'], objs=rt(c), args=['--maxlen=%d' % (6 if c.thorough else 4)])
    fault_terms(c)
    for pol, nm_, st in ((3, 'long_copyable', 11), (4, 'long_moveonly', 13)):
        ins = [x for x in long_inputs() if len(x) <= (130 if c.thorough else 67)]
        c.grammars(nm_, cases(long_values(c, 1 if c.thorough else st, pol), 'z'), ['--inputs=' + runs_file(c, ins if c.thorough else ins[pol::3]), '--hang=60', '--faults=1', '--copies_ok=1'], prelude=VAL_PRE, cflags=('-O0', '-DMC_TRACK=%d' % pol), main='main_value.cpp', shard=10)
    return c.finish(CORE_ASSUME)
CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}

def C24(c):
    c.harness('results', ['h_result.cpp'], objs=rt(c), cflags=('-O1',), runs=[['--part=%d' % k, '--depth=%d' % (5 if c.thorough else 4)] for k in range(14)])
    return c.finish(['results obtained from parsers through std::string_view input; 27 value types and conversions', 'histories over two results and one of another value type, up to 3 to 5 operations (thorough: 4 to 6)',
                     'the state of a moved-from result is not observed'])
CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}

# ---- custom parsers and recursion ---------------------------------------------------------------------------
TREES = '''namespace mc {
struct T71 { std::vector<T71> kids; T71() = default; T71(std::vector<T71> k) : kids(std::move(k)) {} };
inline void ser(std::string& o, const T71& t) { o += "O71{"; ser(o, t.kids); o += '}'; }
template <> struct TS<T71> { static std::string s() { return "O71"; } };
using View = typename decltype(k3::tok3n::operator""_any<"a">())::template result_for<char>;
struct T72 { std::variant<View, std::vector<T72>> v; T72() = default; T72(std::variant<View, std::vector<T72>> x) : v(std::move(x)) {} };
inline void ser(std::string& o, const T72& t) { o += "O72{"; ser(o, t.v); o += '}'; }
template <> struct TS<T72> { static std::string s() { return "O72"; } };
struct T73 { std::unique_ptr<T73> next; T73() = default; T73(std::optional<T73>&& n); T73(T73&&) = default; T73& operator=(T73&&) = default; };
inline T73::T73(std::optional<T73>&& n) { if (n) next = std::make_unique<T73>(*std::move(n)); }
inline void ser(std::string& o, const T73& t) { o += "O73{"; if (t.next) { o += '!'; ser(o, *t.next); } else o += '?'; o += '}'; }
template <> struct TS<T73> { static std::string s() { return "O73"; } };
}
'''
class System:
    """A system of rules; each rule a custom parser of its own."""
    count = 0
    def __init__(self, n, kinds):
        System.count += 1
        self.names = ['R%d_%d' % (System.count, i) for i in range(n)]
        self.kinds = kinds
        self.ty = [{'obj': obj(81 + i), 'void': VOID, 'view': V, 'tree': obj(71), 'var': obj(72), 'ptr': obj(73)}[k] for i, k in enumerate(kinds)]
        self.refs = [rule(i, self.ty[i], self.names[i] + '{}') for i in range(n)]
        self.bodies = None
    def prelude(self):
        dec = {'obj': lambda i: 'mc::Obj<%d>' % (81 + i), 'void': lambda i: 'void', 'view': lambda i: 'mc::View', 'tree': lambda i: 'mc::T71', 'var': lambda i: 'mc::T72', 'ptr': lambda i: 'mc::T73'}
        out = ['struct %s : custom_parser<%s> { using result_type = %s; static consteval auto get_parser(); };' % (n, n, dec[self.kinds[i]](i)) for i, n in enumerate(self.names)]
        out += ['consteval auto %s::get_parser() { return %s; }' % (n, b.cpp) for n, b in zip(self.names, self.bodies)]
        return ' '.join(out)
    def terms(self):
        o = []
        for i, b in enumerate(self.bodies):
            s, t = sx(b), self.ty[i]
            o.append('(into %s %s)' % (t[1], s) if t[0] == 'obj' and b.ty != t else s)
        return o
    def case(self, root, cid):
        return (cid, root.cpp, '(rules %s %s)' % (' '.join(self.terms()), sx(root)), ts(root.ty), False, (), self.prelude())

def guarded(r, base, more=()):
    """Bodies in which r only occurs after something was consumed."""
    a, b, c_ = any_('a'), any_('b'), any_('c')
    xs = [r, maybe(r), star(r), plus(r), seq(r, b), seq(maybe(r), b), seq(star(r), b), choice(r, b), choice(b, r), exactly(r, 2), ignore(r), delimit(r, b), delimit_keep(r, c_), name(r, 'n'), seq(r, r), complete(maybe(r)), seq(ignore(r), b),
          seq(b, r, c_), seq(plus(b), maybe(r)), star(seq(b, r)), maybe(seq(b, r)), seq(exactly(r, 1), star(c_)), ignore(seq(r, b)), wmap(maybe(r), 4)]
    if r.ty != VOID: xs += [map_(r, 6), filter_(r, 3), seq(map_(maybe(r), 5), star(b)), into(maybe(r), 9), filter_(seq(r, maybe(b)), 2)]
    if joinable(r.ty): xs += [join(seq(r, b)), join(star(r)), join(seq(maybe(r), b))]
    xs += list(more)
    for x in xs:
        for y in base:
            s = seq(a, x)
            yield choice(s, y)
            if y.kind != 'eps': yield choice(y, s)

def C21(c):
    a, b, c_, ab = any_('a'), any_('b'), any_('c'), all_('ab')
    th = c.thorough
    # 1. one rule, every position
    one = []
    def add(out, s, root): out.append(s.case(root, '%s%d' % (s.names[0], len(out))))
    for kind in ('obj', 'void', 'view'):
        n = 0
        probe = System(1, [kind])
        for body in guarded(probe.refs[0], [any_('c'), EPS, seq(b, maybe(c_)), all_('ab')] if th else [any_('c'), EPS]):
            # reject bodies that do not have the declared type
            if kind == 'void' and body.ty != VOID: body = ignore(body) if n % 2 else wmap(body, 7)
            if kind == 'view' and body.ty != V:
                if not joinable(body.ty): continue
                body = join(body)
            if kind == 'obj' and body.ty == VOID and body.kind not in ('choice', 'seq', 'eps'): continue
            if kind == 'obj' and body.ty == VOID: body = into(body, 81)
            n += 1
            s = System(1, [kind])
            r = s.refs[0]
            # same body over this system's own rule
            s.bodies = [reref(body, probe.refs, s.refs)]
            roots = [r, seq(r, maybe(b)), star(r), choice(seq(r, c_), r), delimit(r, b), ignore(r), map_(r, 3), exactly(r, 2), name(r, 'm'), complete(r), maybe(seq(b, r))]
            if joinable(r.ty): roots += [join(seq(r, maybe(b)))]
            for root in roots if th else [r, roots[1 + n % (len(roots) - 1)]]: add(one, s, root)
    c.grammars('one', one, ['--maxlen=%d' % (8 if th else 6), '--mask=rec,fail,val,type,look,evt'], prelude=TREES)
    # 2. two rules that refer to each other, every pair of positions
    two = []
    pos = [lambda r, k: seq(any_('ab'[k]), r), lambda r, k: choice(seq(any_('ab'[k]), r), any_('c')), lambda r, k: seq(any_('ab'[k]), maybe(r)), lambda r, k: seq(any_('ab'[k]), star(r)), lambda r, k: choice(seq(any_('ab'[k]), r, any_('ba'[k])), c_),
           lambda r, k: seq(any_('ab'[k]), ignore(maybe(r)), maybe(c_)), lambda r, k: seq(plus(any_('ab'[k])), maybe(seq(c_, r))), lambda r, k: choice(ab, seq(any_('ab'[k]), r), c_), lambda r, k: delimit(any_('ab'[k]), seq(c_, maybe(r))),
           lambda r, k: delimit_keep(any_('ab'[k]), seq(c_, maybe(r))), lambda r, k: exactly(seq(any_('ab'[k]), maybe(r)), 2), lambda r, k: seq(any_('ab'[k]), map_(maybe(r), 5)), lambda r, k: seq(any_('ab'[k]), maybe(filter_(r, 2)) if r.ty != VOID else maybe(r))]
    for (i, f), (j, g) in itertools.product(enumerate(pos), repeat=2):
        for k0, k1 in itertools.product(('obj', 'view'), repeat=2) if th else (('obj', 'obj'),) + ((('view', 'obj'), ('obj', 'view')) if (i + j) % 3 == 0 else ()):
            s = System(2, [k0, k1])
            bs = [f(s.refs[1], 0), g(s.refs[0], 1)]
            for q, k in enumerate((k0, k1)):
                if k == 'view' and bs[q].ty != V: bs[q] = join(bs[q]) if joinable(bs[q].ty) else None
            if any(x is None for x in bs): continue
            s.bodies = bs
            add(two, s, s.refs[0])
            if th or (i + j) % 2: add(two, s, seq(maybe(s.refs[1]), star(s.refs[0])))
    c.grammars('two', two, ['--maxlen=%d' % (8 if th else 6), '--mask=rec,fail,val,type,look,evt'], prelude=TREES)
    # 3. real data structures, brackets, expression grammars; deep nesting
    def data(tag):
        out = []
        s = System(1, ['tree']); s.bodies = [seq(ign_('a'), star(s.refs[0]), ign_('b'))]; add(out, s, s.refs[0])
        add(out, s, star(s.refs[0])); add(out, s, complete(seq(s.refs[0], maybe(c_))))
        s = System(1, ['var']); s.bodies = [choice(c_, seq(ign_('a'), star(s.refs[0]), ign_('b')))]; add(out, s, s.refs[0]); add(out, s, delimit_keep(s.refs[0], c_)); add(out, s, exactly(s.refs[0], 2))
        s = System(1, ['ptr']); s.bodies = [seq(ign_('a'), maybe(s.refs[0]))]; add(out, s, s.refs[0]); add(out, s, seq(s.refs[0], star(b))); add(out, s, star(seq(s.refs[0], b)))
        s = System(1, ['obj']); s.bodies = [choice(seq(a, s.refs[0], b), seq(a, b), c_)]; add(out, s, s.refs[0])
        s = System(1, ['obj']); s.bodies = [seq(a, maybe(s.refs[0]), b)]; add(out, s, s.refs[0]); add(out, s, join(plus(b)) if False else star(s.refs[0]))
        s = System(1, ['view']); s.bodies = [join(seq(a, star(s.refs[0]), b))]; add(out, s, s.refs[0]); add(out, s, join(star(s.refs[0])))
        s = System(1, ['void']); s.bodies = [seq(ign_('a'), ignore(star(s.refs[0])), ign_('b'))]; add(out, s, s.refs[0]); add(out, s, seq(s.refs[0], c_)); add(out, s, wmap(s.refs[0], 2))
        s = System(1, ['void']); s.bodies = [seq(ign_('a'), maybe(s.refs[0]), wmap(b, 5))]; add(out, s, s.refs[0])
        s = System(2, ['obj', 'obj']); s.bodies = [delimit(s.refs[1], c_), seq(a, maybe(s.refs[0]), b)]; add(out, s, s.refs[0])
        s = System(2, ['obj', 'view']); s.bodies = [seq(s.refs[1], star(seq(c_, s.refs[1]))), choice(join(plus(b)), seq(a, ignore(s.refs[0]), ign_('b')))] ; add(out, s, s.refs[0])
        s = System(3, ['obj', 'obj', 'obj']); s.bodies = [delimit_keep(s.refs[1], c_), delimit_keep(s.refs[2], b), choice(a, seq(ign_('('), s.refs[0], ign_(')')))]; add(out, s, s.refs[0]); add(out, s, complete(s.refs[0]))
        s = System(3, ['obj', 'obj', 'obj']); s.bodies = [choice(seq(s.refs[1], b, s.refs[0]), s.refs[1]), choice(seq(s.refs[2], c_, s.refs[1]), s.refs[2]), choice(a, seq(ign_('('), s.refs[0], ign_(')')))]; add(out, s, s.refs[0])
        s = System(3, ['obj', 'view', 'void']); s.bodies = [seq(a, maybe(s.refs[1]), maybe(s.refs[2])), join(seq(b, ignore(maybe(s.refs[0])))), ignore(seq(c_, maybe(s.refs[1]), maybe(s.refs[0])))]; add(out, s, s.refs[0]); add(out, s, choice(s.refs[2], s.refs[1], s.refs[0]))
        s = System(2, ['obj', 'obj']); s.bodies = [filter_(seq(a, maybe(s.refs[1])), 2), seq(b, map_(maybe(s.refs[0]), 5))]; add(out, s, s.refs[0]); add(out, s, star(choice(s.refs[0], s.refs[1])))
        return out
    c.grammars('data', data('d'), [alpha('abc('), '--maxlen=%d' % (8 if th else 6), '--mask=rec,fail,val,type,look,evt'], prelude=TREES, shard=6)
    ds = [1, 2, 3, 9, 10, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1025] + ([512, 1000, 1023, 1024, 1026, 2000] if th else [])
    deeper = [4097] if not th else [2047, 2048, 2049, 4096, 4097, 5000, 8193, 10001]
    words = lambda ds: [x for d in ds for x in ('a' * d, 'a' * d + 'b' * d, 'a' * d + 'b' * (d - 1), 'a' * d + 'b' * (d + 1), 'a' * d + 'c' + 'b' * d, 'ab' * d, 'ba' * d, 'abc' * d, 'a' * d + 'bc' + 'b' * d)]
    c.grammars('deep', [x for x in data('e') if '"("' not in x[6]], ['--stack=1024', '--inputs=' + runs_file(c, words(ds)), '--mask=rec,fail,val,look,evt'], prelude=TREES, shard=5)
    c.grammars('deeper', [x for x in data('g') if '"("' not in x[6]], ['--stack=2000', '--inputs=' + runs_file(c, words(deeper)), '--mask=rec,fail,val,look'], prelude=TREES, shard=5)
    par = lambda ds: [x for d in ds for x in ('(' * d + 'a' + ')' * d, '(' * d + 'aba' + ')' * d, '(' * d + 'a' + ')' * (d - 1), '(' * d + 'aca' + ')' * d + 'ba')]
    br = [x for x in data('f') if '"("' in x[6]]
    c.grammars('brackets', [x for x in br if 'delimit' in x[6]], ['--stack=1024', '--inputs=' + runs_file(c, par(ds)), '--mask=rec,fail,val,look,evt'], prelude=TREES, shard=3)
    c.grammars('backtracking', [x for x in br if 'delimit' not in x[6]], ['--inputs=' + runs_file(c, par(range(1, 6 if th else 5))), '--mask=rec,fail,val,look,evt'], prelude=TREES, shard=3)
    # 4. custom parsers without recursion mean their parser, in every context; declared result types
    L = [a, ab, none_('a')]
    plain = []
    for i, x in enumerate(core(un=un_all, leaves=L, depth2=False)):
        nm = 'P%d' % i
        pre = 'struct %s : custom_parser<%s> { static consteval auto get_parser() { return %s; } };' % (nm, nm, x.cpp)
        y = custom(x, nm + '{}')
        ctx = [y, maybe(y), star(y), plus(y), choice(seq(y, b), y), seq(y, y), exactly(y, 2), delimit(y, b), delimit_keep(y, c_), ignore(y), complete(y), name(y, 'n'), map_(y, 6), choice(y, a), choice(ab, y), seq(b, y), wmap(y, 3), dflt_(y, 4)]
        if y.ty != VOID: ctx += [filter_(y, 2)]
        if joinable(y.ty): ctx += [join(y), join(seq(y, maybe(y)))]
        if applicable(y.ty): ctx += [apply_(y, 3)]
        for k, g in enumerate(ctx):
            if th or (k + i) % 4 == 0: plain.append(('%s_%d' % (nm, k), g.cpp, sx(g), ts(g.ty), False, (), pre))
    decl = []
    srcs = [(a, 'V'), (ab, 'V'), (join(plus(any_('ab'))), 'V'), (map_(a, 1), 'O'), (seq(a, b), 'T'), (star(a), 'v'), (maybe(a), 'o'), (choice(map_(ab, 1), a), 'w'), (filter_(plus(any_('ab')), 2), 'v'), (seq(map_(a, 1), maybe(b)), 'T'), (exactly(a, 2), 'A')]
    kinds = {'into': ('mc::Obj<61>', lambda x: conv(x, 'into 61', obj(61))), 'opt': ('std::optional<%s>', lambda x: conv(x, 'wrapopt', opt(x.ty))), 'var': ('std::variant<bool, %s>', lambda x: conv(x, 'wrapvar 1', var([('b',), x.ty]))),
             'same': ('%s', lambda x: conv(x, 'name', x.ty)), 'str': ('std::string', lambda x: conv(x, 'strinto', ('S',)) if x.ty == V else None), 'sv': ('std::string_view', lambda x: conv(x, 'svinto', ('s',)) if x.ty == V else None),
             'oo': ('std::optional<std::optional<%s>>', lambda x: conv(conv(x, 'wrapopt', opt(x.ty)), 'wrapopt', opt(opt(x.ty))))}
    for i, (x, _) in enumerate(srcs):
        for kn, (t, f) in kinds.items():
            if x.ty[0] == 'opt' and kn == 'opt' or x.ty == obj(61): pass
            y = f(x)
            if y is None: continue
            if kn == 'var' and x.ty[0] == 'var': continue
            nm = 'D%d_%s' % (i, kn)
            tt = t.replace('%s', 'typename decltype(%s)::template result_for<char>' % x.cpp)
            pre = 'struct %s : custom_parser<%s> { using result_type = %s; static consteval auto get_parser() { return %s; } };' % (nm, nm, tt, x.cpp)
            y = custom(y, nm + '{}')
            ctx = [y, maybe(y), star(y), choice(seq(y, b), y), seq(y, star(b)), exactly(y, 2), delimit(y, b), ignore(y), map_(y, 6), choice(y, c_), choice(ign_('b'), y), filter_(y, 3), complete(y)]
            for k, g in enumerate(ctx):
                if th or (k + i) % 2 == 0 or k == 0: decl.append(('%s_%d' % (nm, k), g.cpp, sx(g), ts(g.ty), False, (), pre))
    lpre, lcs = [], []
    for i, g in enumerate(long_grammars()[7::17 if not th else 3]):
        lpre.append('struct Ln%d : custom_parser<Ln%d> { static consteval auto get_parser() { return %s; } };\n' % (i, i, g.cpp))
        y = custom(g, 'Ln%d{}' % i)
        lcs.append((y, seq(y, any_('c')), choice(seq(y, any_('c')), y), star(seq(y, any_('c'))), ignore(y), complete(y), maybe(y), delimit(y, any_('c')), exactly(y, 1))[i % 9])
    c.grammars('long', cases(lcs, 'n'), ['--inputs=' + runs_file(c, long_inputs(th)), '--hang=60', '--mask=rec,fail,val,type,look,evt'], prelude=TREES + ''.join(lpre), shard=20)
    c.grammars('plain', plain, ['--maxlen=5', '--mask=rec,fail,val,type,look,evt'], prelude=TREES)
    declared_part(c, 'rec,fail,val,type,look,evt', step=2)
    c.grammars('declared', decl, ['--maxlen=5', '--mask=rec,fail,val,type,look,evt'], prelude=TREES)
    # 5. other element types
    srcs = []
    for T in ['char', 'char8_t', 'wchar_t', 'char32_t', 'unsigned char', 'int', 'long long', 'Enum']:
        gs = [x for x in one[::25 if th else 70] if x[3] in ('O81', 'V')] + [x for x in two[::23 if th else 90]]
        out = ['#define HI_LONGEST 257', '#include "h_input.h"', 'using namespace k3::tok3n;', 'enum class Enum : int {};', 'using T = %s;' % T, 'namespace mc { using View = typename std::remove_cvref_t<decltype(hi::lits<T, 97>::any())>::template result_for<T>; }']
        for i, x in enumerate(gs):
            pre = re.sub(r'custom_parser<(\w+)>', r'custom_parser<\1, T>', lits_of(x[6]))
            if pre not in out: out.append(pre)
            out.append('static void g%d() { hi::grammar<T, std::remove_cvref_t<decltype(%s)>>("%s", R"x(%s)x", R"x(%s)x", 4); }' % (i, lits_of(x[1]), T, x[6], x[2]))
        out.append('int main(int argc, char** argv) { h::start(); %s return h::finish(); }' % ' '.join('g%d();' % i for i in range(len(gs))))
        srcs.append((T.replace(' ', '_'), '\n'.join(out)))
    c.generated('elements', srcs, objs=rt(c) + [c.obj('ref.cpp')])
    return c.finish(CORE_ASSUME + ['no left recursion', 'nesting to %d levels on the listed families of inputs, all inputs up to the stated length otherwise' % max(deeper)])

def reref(g, old, new):
    """The same term over the rules of another system."""
    def clone(x):
        if x.kind == 'rule': return new[x.args[0]]
        args = tuple(clone(y) if isinstance(y, G) else [clone(z) for z in y] if isinstance(y, list) else y for y in x.args)
        return G(x.kind, args, x.ty)
    n = clone(g)
    cpp = g.cpp
    for o, w in zip(old, new): cpp = cpp.replace(o.cpp, w.cpp)
    n.cpp = cpp
    return n
CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}

def example(c, part, src, ex, thorough_args=(), parts=16):
    f = REPO + '/examples/' + ex
    if not os.path.exists(f): raise BuildBroken('no ' + f)
    c.harness(part, [src], objs=rt(c), cflags=('-O1',), defines=('-DMC_EXAMPLE="%s"' % f,), runs=[['--part=%d' % k, '--parts=%d' % parts, '--thorough=%d' % c.thorough] for k in range(parts)], timeout=1500 if c.thorough else 800)

def C25(c):
    example(c, 'json', 'h_json.cpp', 'json/json.cpp')
    return c.finish(['the oracle is a hand-written recursive descent over bytes that shares no code with the library', 'all sequences of characters or tokens up to the lengths in h_json.cpp, all one-byte edits of twelve documents, nesting and lengths up to 1000'])
CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}

def C26(c):
    example(c, 'algebraic', 'h_alg.cpp', 'algebraic/algebraic.cpp')
    return c.finish(['the oracle is a hand-written parser, evaluator (long double) and printer that shares no code with the library', 'all sequences of tokens up to the lengths in h_alg.cpp, all one-byte edits of twelve expressions, nesting and lengths up to 300',
                     'values are compared where every intermediate result lies within 1e-250 and 1e250 and nothing is divided by zero'])
CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}

def C28(c):
    c.harness_parts('views_clang', 'h_view.cpp', [0, 1, 2, 3, 4, 6, 8], objs=rt(c), cflags=('-O0',), args=['--maxlen=3'], cxx='clang++')
    c.harness_parts('views', 'h_view.cpp', 9, objs=rt(c), cflags=('-O1',), args=['--maxlen=%d' % (5 if c.thorough else 4)])
    return c.finish(['15 element types and 11 mixed pairs; all sequences over three elements up to length %d in both operands; views up to 257 elements with one element different at every place' % (5 if c.thorough else 4)])
CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}

def C27(c):
    th = ['--thorough=%d' % c.thorough]
    objs = rt(c)
    # compilations that take longest first, all in one pool
    jobs = [('many', 9, ('char',), [[]]), ('elements', 11, ('char',), [[]]), ('few', 8, ('char',), [[]])]
    if c.thorough: jobs = [('many_more', 12, ('char',), [[]]), ('elements_more', 13, ('char',), [[]])] + jobs
    jobs += [('huge', 1, ('char',), [['--part=%d' % (100 + i)] for i in range(26)])]
    jobs += [('literals_short', 3, ('char', 'int'), [[]]), ('literals_long', 4, ('char', 'char16_t'), [[]])]
    jobs += [('sets_%d' % p, p, ('char',), [[]]) for p in (5, 6, 7)]
    jobs += [('counts', 2, ('char', 'int'), [['--part=%d' % i] for i in range(4)]), ('lengths', 0, ('char', 'int', 'wchar_t'), [['--part=%d' % i, '--len=%d' % (700 if c.thorough else 300)] for i in range(8)]), ('nesting', 10, ('char',), [[]])]
    def one(j):
        name, part, types, runs = j
        for t in types:
            c.harness('%s_%s' % (name, t.replace(' ', '_')), ['h_size.cpp'], objs=objs, cflags=('-O1', '-fconstexpr-ops-limit=400000000'), defines=('-DPART=%d' % part, '-DELEM=' + t), runs=[r + th for r in runs], timeout=1500 if c.thorough else 600)
    with cf.ThreadPoolExecutor(6) as ex: list(ex.map(one, jobs))
    return c.finish(['the oracle is a closed form per grammar for inputs of zeros with one other element', 'every length and mismatch position up to %d, around 512, 1024, 2^15 and 2^16, and one to nine lengths around 2^32 for 26 grammars that keep no vector' % (700 if c.thorough else 300),
                     'vectors to 2^20 (2^24) elements, repetition counts to 2^20 and 2^32+1, literals to 4097, sets to 1000, 130 (257) alternatives and sequence elements, nesting to 120'])
CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}
