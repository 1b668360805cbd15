"""Families of grammars: exhaustive up to a stated number of operators over a stated leaf set."""
import itertools
from gram import *

def uniq(gs):
    seen, out = set(), []
    for g in gs:
        if g.cpp not in seen:
            seen.add(g.cpp)
            out.append(g)
    return out

def case(g, cid, rules=None):
    s = sx(g) if not rules else '(rules %s %s)' % (' '.join(sx(r) for r in rules), sx(g))
    return (cid, g.cpp, s, ts(g.ty), noalloc(g))

def cases(gs, prefix='g'):
    return [case(g, '%s%d' % (prefix, i)) for i, g in enumerate(gs)]

# operator sets -------------------------------------------------------------------------------------
def un_core(a):
    yield maybe(a); yield plus(a); yield star(a); yield exactly(a, 2)
    yield ignore(a); yield complete(a)
    if joinable(a.ty): yield join(a)
    if a.kind in ('any', 'none'): yield not_(a)
def un_fun(a):
    yield map_(a, 1); yield wmap(a, 2); yield filter_(a, 2 if a.ty != VOID else 0)
    yield name(a, 'n')
def un_all(a):
    yield from un_core(a); yield from un_fun(a)
def bi_core(a, b):
    yield seq(a, b); yield choice(a, b); yield delimit(a, b); yield delimit_keep(a, b)

def level(gs, un, bi, others=None):
    """all one-operator extensions of gs (binary ones pairing gs with others on either side)"""
    others = gs if others is None else others
    out = []
    for a in gs: out += list(un(a))
    so = set(id(x) for x in others)
    for a in gs:
        for b in others:
            out += list(bi(a, b))
            if a is not b and not (id(a) in so): out += list(bi(b, a))
    return out

def leaves_small():
    return [any_('a'), any_('ab'), all_('ab'), none_('a')]

def rawcases(gs, prefix='r'):
    return [('%s%d' % (prefix, i), g.cpp, g.raw, '0', False) for i, g in enumerate(gs)]

def core(un=un_all, bi=bi_core, leaves=None, others=None, depth2=True, other_t1=None):
    L = leaves or leaves_small()
    t1 = uniq(L + [choice(L[0], EPS)] + level(L, un, bi))
    if not depth2: return t1
    return uniq(t1 + level(t1, un, bi, others or L))

def edge_leaves():
    """The leaves at the ends: any element, a class of nothing, everything but nothing, an empty literal."""
    return [anything_(), any_(''), none_(''), all_('')]
def edge_grammars(thorough=False):
    L = edge_leaves()
    others = [any_('a'), all_('ab'), none_('b'), ign_('a')]
    t1 = uniq(level(L, un_all, bi_core, L + others) + [choice(any_('a'), none_('a')), choice(none_('b'), any_('b')), not_(not_(any_(''))), choice(none_('a'), none_('b')), not_(choice(none_('a'), any_('a')))])
    t2 = [f(x) for i, x in enumerate(t1) for k, f in enumerate((star, maybe, lambda g: join(g) if joinable(g.ty) else plus(g), lambda g: choice(seq(g, any_('a')), none_('a')), lambda g: seq(any_('b'), g), lambda g: delimit(any_('b'), g), lambda g: exactly(g, 3), complete)) if thorough or (i + k) % 4 == 0]
    return uniq(L + t1 + t2)

def slots(n, parts):
    import itertools
    return itertools.product(parts, repeat=n)

# one-element parts of every type, told apart by the letter they match ------------------------------
TYPE_PARTS = {
    'void': lambda l: ign_(l),
    'V':    lambda l: any_(l),
    'vec':  lambda l: plus(all_(l)),
    'O1':   lambda l: map_(any_(l), 1),
    'O2':   lambda l: map_(all_(l), 2),
    'arr':  lambda l: exactly(any_(l), 1),
    'opt':  lambda l: maybe(all_(l)),
    'b':    lambda l: const_(all_(l), True),
    'S':    lambda l: strinto(any_(l)),
    'D':    lambda l: dflt_(any_(l), 7),
    'w':    lambda l: wmap(any_(l), 3),
}
def typed_choices(n, kinds, letters='abcdef'):
    for ks in slots(n, kinds):
        yield choice(*[TYPE_PARTS[k](letters[i]) for i, k in enumerate(ks)])
def typed_seqs(n, kinds, letters='abcdef'):
    for ks in slots(n, kinds):
        yield seq(*[TYPE_PARTS[k](letters[i]) for i, k in enumerate(ks)])

def abandon_contexts(x, c, o):
    """Contexts in which a match of x followed by a missing c is abandoned (o: some other parser)."""
    s = seq(x, c)
    yield choice(s, x); yield choice(s, o); yield choice(seq(s, o), seq(x, o))
    yield maybe(s); yield star(s); yield plus(s); yield exactly(s, 2)
    yield delimit(s, o); yield delimit_keep(o, s); yield delimit_keep(s, s)
    yield seq(maybe(s), x); yield seq(star(s), o); yield complete(s)
    yield filter_(s, 1 if s.ty == VOID else 3)
    yield ignore(choice(s, o)); yield maybe(choice(seq(s, s), s))
    if joinable(s.ty): yield join(s); yield seq(maybe(join(s)), x)
    yield map_(choice(s, o), 4)

def nullables():
    a, b = any_('a'), any_('b')
    return [maybe(a), star(all_('ab')), choice(a, EPS), all_(''), join(star(a)), name(maybe(b), 'n'), ignore(star(a)),
            map_(maybe(a), 1), seq(maybe(a), star(b)), complete(star(a)), delimit(maybe(a), b), exactly(maybe(b), 2),
            wmap(star(a), 2), choice(ign_('b'), EPS), join(maybe(a)), filter_(maybe(a), 2), const_(EPS_G(), 1) if False else dflt_(star(a), 1)]
def EPS_G(): return EPS

# values of many C++ types, as user functions return them: name, type, expression, its serialisation, result type
def x_(n, d): return ('x', n, d)
VALUES = [
    ('mono', 'std::monostate', '{}', 'M', x_('M', 'M')), ('et', 'std::tuple<>', '{}', '()', x_('()', '()')), ('t1', 'std::tuple<int>', '{ 4 }', '(i4)', tup([('i',)])), ('tt', 'std::tuple<std::tuple<int>, bool>', '{ std::tuple<int>{ 4 }, true }', '((i4),bT)', tup([tup([('i',)]), ('b',)])),
    ('pr', 'std::pair<int, bool>', '{ 3, true }', '{i3;bT}', pair(('i',), ('b',))), ('v1', 'std::variant<int, bool>', '{ true }', 'v1:bT', var([('i',), ('b',)])), ('v2', 'std::variant<std::monostate, std::string>', '{ std::string("s") }', 'v1:S"s"', var([x_('M', 'M'), ('S',)])),
    ('v3', 'std::variant<int>', '{ 6 }', 'v0:i6', var([('i',)])), ('op', 'std::optional<int>', '{ 5 }', '!i5', opt(('i',))), ('on', 'std::optional<int>', 'std::nullopt', '?', opt(('i',))), ('oo', 'std::optional<std::optional<int>>', '{ std::optional<int>() }', '!?', opt(opt(('i',)))),
    ('ar', 'std::array<int, 2>', '{ 1, 2 }', '<i1,i2>', arr(('i',), 2)), ('ve', 'std::vector<int>', '{ 1, 2, 3 }', '[i1,i2,i3]', vec(('i',))), ('vv', 'std::vector<std::vector<int>>', '{ { 1 }, {} }', '[[i1],[]]', vec(vec(('i',)))), ('vo', 'std::vector<std::optional<bool>>', '{ true, std::nullopt }', '[!bT,?]', vec(opt(('b',)))),
    ('st', 'std::string', '"text"', 'S"text"', ('S',)), ('ch', 'char', "'x'", 'c120', x_('c', 'c0')), ('uc', 'unsigned char', '200', 'u200', x_('u', 'u0')), ('ul', 'unsigned long', '1ul << 40', 'z%d' % (1 << 40), x_('z', 'z0')), ('du', 'double', '-2.5', 'd-20', x_('d', 'd0')), ('in', 'int', '77', 'i77', ('i',)), ('bo', 'bool', 'true', 'bT', ('b',)),
    ('en', 'mc::En', 'mc::En::two', 'n2', x_('n', 'n0')), ('e1', 'mc::E1', '{}', 'e1', x_('e1', 'e1')), ('e2', 'mc::E2', '{}', 'e2', x_('e2', 'e2')), ('tr', 'std::true_type', '{}', 'tt', x_('tt', 'tt')), ('nu', 'std::nullptr_t', 'nullptr', 'N', ('N',)), ('cp', 'const char*', '"k"', 'kk', x_('k', 'k0')), ('fp', 'int (*)()', '[] { return 8; }', 'fp8', x_('fp', 'fp0')),
    ('ev', 'mc::Evil', 'mc::Evil(3)', 'ev3', x_('ev', 'ev0')), ('ag', 'mc::Agg', '{ 5, "y", true }', 'ag5yT', x_('ag', 'ag0F')), ('al', 'mc::Wide', '{ 9 }', 'al9', x_('al', 'al0')), ('ne', 'mc::Nest', 'mc::Nest(4)', 'ne4', x_('ne', 'ne0')),
    ('mv', 'mc::MyVec', '{ 1, 2 }', 'mv12', x_('mv', 'mv')), ('mo', 'mc::MyOpt', '{ 7 }', 'mo7', x_('mo', 'mo')), ('mt', 'mc::MyTup', '{ 3, true }', 'mt3T', x_('mt', 'mt0F')), ('mr', 'mc::MyVar', '{ true }', 'mr1T', x_('mr', 'mr00')), ('ca', 'mc::Callable', '{ 8 }', 'ca8', x_('ca', 'ca0')), ('li', 'std::list<int>', '{ 1, 2 }', 'li12', x_('li', 'li')),
    ('ma', 'std::map<int, std::string>', '{ { 1, "x" } }', 'ma1x', x_('ma', 'ma')), ('vb', 'std::vector<bool>', '{ true, false }', '[bT,bF]', vec(('b',))), ('va', 'std::vector<std::any>', '{ std::any(2) }', '[a2]', vec(x_('a', 'a0'))), ('ta', 'std::tuple<std::any>', 'std::tuple<std::any>(std::any(2))', '(a2)', tup([x_('a', 'a0')])),
    ('fr', 'mc::From', '{ 12 }', 'F12', x_('F', 'F0')), ('pi', 'mc::Pick', 'mc::Pick::of(13)', 'P13', x_('P', 'P0')), ('sp', 'std::shared_ptr<int>', 'std::make_shared<int>(14)', 'h14', x_('h', '0')), ('up', 'std::unique_ptr<int>', 'std::make_unique<int>(15)', 'q15', x_('q', '0')), ('an', 'std::any', '{ 16 }', 'a16', x_('a', 'a0')),
]
VALUES_PRE = 'namespace xv {\n' + ''.join('using T%s = %s; inline T%s %s() { return %s; }\n' % (n, t, n, n, e) for n, t, e, _, _ in VALUES) + \
    ''.join('struct F%s { template <class... A> T%s operator()(A&&...) const { return %s(); } };\n' % (n, n, n) for n, *_ in VALUES) + \
    ''.join('struct K%s { template <class... A> const T%s operator()(A&&...) const { return %s(); } };\n' % (n, n, n) for n, *_ in VALUES) + '}\n'
def value_(x, i, const=False):
    n, t, e, s, ty = VALUES[i]
    return mod(G('const', (x, s, ty), ty), x, 'map<xv::%s%s{}>' % ('K' if const and n not in ('up',) else 'F', n), 'fn')
def value_grammars_of_types(thorough=False):
    import itertools
    a, b, N = any_('a'), any_('b'), len(VALUES)
    out = []
    for i in range(N):
        x = value_(a, i)
        out += [x, maybe(x), star(x), plus(x), exactly(x, 2), delimit(x, b), delimit_keep(x, b), delimit_keep(b, x), delimit_keep(x, value_(b, i)), choice(x, b), choice(b, x), choice(x, ign_('b')), choice(ign_('b'), x), choice(seq(x, b), x), choice(x, value_(all_('b'), i)), seq(x, b), seq(b, x), seq(x, ign_('b')),
                seq(ign_('b'), x), seq(x, x), ignore(x), complete(x), name(x, 'n'), maybe(maybe(x)), star(maybe(seq(x, b))), maybe(star(x)), seq(maybe(x), b), choice(maybe(x), b), seq(star(x), b), choice(plus(x), b), into(x, 5) if VALUES[i][0] != 'x' else x, star(seq(x, b)), star(choice(x, b)), plus(choice(b, x, value_(all_('c'), i))),
                seq(choice(x, b), b), choice(seq(x, b), seq(x, x)), exactly(choice(x, b), 2), maybe(choice(b, x)), seq(a, value_(ign_('b'), i)), choice(value_(EPS_ALT(), i), b)]
        out += [conv(x, 'wrapopt', opt(x.ty)).with_cpp('into<std::optional<xv::T%s>>(%s)' % (VALUES[i][0], x.cpp))] if VALUES[i][4][0] != 'opt' and VALUES[i][0] not in ('pi', 'an') else []
    for i, j in itertools.product(range(N), repeat=2):
        if not thorough and (i * 7 + j) % 3 and i != j: continue
        x, y = value_(a, i), value_(b, j)
        out += [choice(x, y), seq(x, y)]
        if (i + j) % 2 or thorough: out += [choice(seq(x, ign_('b')), y, a), delimit_keep(x, y), star(choice(x, y))]
        if (i + j) % 5 == 0 or thorough: out += [seq(maybe(x), choice(y, any_('c')), ign_('c')), exactly(choice(y, x), 2), choice(y, value_(all_('ab'), i), value_(a, j)), maybe(seq(x, y, x)), plus(choice(x, seq(y, y)))]
    return uniq(out)
def EPS_ALT(): return choice(ign_('c'), EPS)

# grammars larger than two operators: many parts, many alternatives, many rounds, many levels ---------
WIDE_PARTS = [lambda: any_('a'), lambda: ign_('b'), lambda: map_(any_('ab'), 1), lambda: maybe(any_('b')), lambda: plus(any_('a')), lambda: wmap(any_('ab'), 2), lambda: exactly(any_('ab'), 2), lambda: all_('ba'),
              lambda: none_('a'), lambda: star(any_('b')), lambda: const_(any_('ab'), 3), lambda: choice(any_('a'), EPS), lambda: filter_(any_('ab'), 2), lambda: all_(''), lambda: complete(star(any_('c')))]
VIEW_PARTS = [0, 1, 3, 4, 7, 8, 9, 11]
def wide_seqs(ns, parts=None, step=1):
    parts = parts or range(len(WIDE_PARTS) - 1)
    parts = list(parts)
    for n in ns:
        for r in range(0, len(parts), step):
            for q in (1, 3):
                yield seq(*[WIDE_PARTS[parts[(r + q * i) % len(parts)]]() for i in range(n)])
def wide_choices(ns):
    al = 'abcdefghijklmnopqrstuvwxyz'
    for n in ns:
        kinds = [lambda l: any_(l), lambda l: ign_(l), lambda l: map_(any_(l), 1), lambda l: plus(any_(l)), lambda l: wmap(any_(l), 2), lambda l: all_(l + 'a')]
        for r in range(0, 6, 2): yield choice(*[kinds[(i + r) % 6](al[i % 4] if i % 3 else 'ab'[i % 2]) for i in range(n)])
        # ordered prefixes, both ways; a part that matches nothing, in every third place
        w = ['ab' * k + 'a' * (i % 2) for i in range(n) for k in [i // 2 + 1]][:n]
        yield choice(*[all_(x) for x in w]); yield choice(*[all_(x) for x in reversed(w)])
        yield choice(*[seq(all_(x), any_('c')) for x in reversed(w)])
        for at in range(0, n, 3):
            yield choice(*[(maybe(any_('c')) if i % 2 else star(all_('ba'))) if i == at else (all_(w[n - 1 - i]) if i % 3 else map_(all_(w[i]), 1)) for i in range(n)])
def wide_counts(ns, bodies=None, step2=False):
    a, b = any_('a'), any_('b')
    bs = bodies or [a, ign_('a'), all_('ab'), seq(a, maybe(b)), map_(a, 1), wmap(a, 2), choice(all_('ab'), a), maybe(a), filter_(any_('ab'), 2)]
    for n in ns:
        for i, x in enumerate(bs):
            e = exactly(x, n)
            ctx = [e, ignore(e), choice(seq(e, b), maybe(a)), maybe(e)]
            if joinable(e.ty): ctx += [join(e), seq(maybe(join(e)), a)]
            if n < 8: ctx += [star(e), ignore(star(seq(e, b)))]
            yield from ctx[(i + n) % 2::2] if step2 else ctx
DEEP = [lambda x: maybe(x), lambda x: star(seq(x, any_('b'))), lambda x: seq(any_('a'), x), lambda x: choice(seq(x, any_('c')), x), lambda x: delimit(x, any_('b')), lambda x: complete(x), lambda x: name(x, 'n'),
        lambda x: map_(x, 1), lambda x: ignore(x), lambda x: exactly(x, 2), lambda x: join(x) if joinable(x.ty) else filter_(x, 2 if x.ty != VOID else 1), lambda x: plus(seq(x, maybe(any_('b')))), lambda x: delimit_keep(any_('a'), x)]
def deep_words(n, step, ops=None, leaf=None):
    import itertools
    ops = ops or DEEP
    for i, ws in enumerate(itertools.product(range(len(ops)), repeat=n)):
        if (i * 7 + sum(ws)) % step: continue
        x = leaf or any_('a')
        for k in ws: x = ops[k](x)
        yield x
def wide(thorough=False, funs=True, deep=True):
    """Everything beyond two operators, in all checks whose space is one of grammars."""
    out = list(wide_seqs((5, 6, 9) if not thorough else (5, 6, 7, 8, 9, 10, 12), step=3 if not thorough else 1))
    out += list(wide_choices((7, 10, 12) if not thorough else (5, 6, 7, 8, 9, 10, 11, 12, 17)))
    out += list(wide_counts((4, 5, 6, 7, 9) if not thorough else (3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17), step2=not thorough))
    if deep: out += list(deep_words(3, 97 if not thorough else 7, leaf=all_(''))) + list(deep_words(2, 3 if not thorough else 1, leaf=all_('')))
    if deep: out += list(deep_words(3, 41 if not thorough else 3)) + list(deep_words(4, 499 if not thorough else 41)) + list(deep_words(6, 60013 if not thorough else 5003))
    if not funs: out = [g for g in out if not calls(g)]
    return uniq(out)
def calls(g): return g.kind in ('map', 'apply', 'wmap', 'wapply', 'into', 'applyinto', 'filter', 'afilter') or any(calls(x) for x in children(g))
def wide_inputs():
    import itertools
    ins = [''.join(t) for n in range(8) for t in itertools.product('ab', repeat=n)] + [''.join(t) for n in range(5) for t in itertools.product('abc', repeat=n)]
    for w in ('a', 'b', 'ab', 'ba', 'aab', 'abb', 'aa'):
        for k in range(1, 25 // len(w)):
            s = w * k
            ins += [s, s + 'b', s + 'a', s + 'c', 'b' + s]
            if len(w) * k <= 12: ins += [s[:i] + 'b' + s[i + 1:] for i in range(len(s))]
    return sorted(set(ins), key=lambda s: (len(s), s))

# inputs far longer than any grammar: many rounds of everything that repeats ---------------------------
def long_grammars():
    a, b, ab, c = any_('a'), any_('b'), any_('ab'), any_('c')
    bodies = [a, all_('ab'), ab, ign_('a'), none_('c'), map_(ab, 1), wmap(ab, 2), seq(a, maybe(b)), seq(a, ign_('b')), choice(all_('ab'), a), filter_(ab, 2), choice(map_(a, 1), b), exactly(ab, 2), name(all_('ab'), 'n'), const_(a, 3), maybe(seq(a, all_('ab'))), join(seq(a, maybe(b))), complete(a), ign_('ab')]
    out = []
    for x in bodies:
        for k, r in enumerate((star(x), plus(x), delimit(x, b), delimit_keep(x, maybe(b)), delimit(x, maybe(ign_('c'))), exactly(x, 33), exactly(x, 128), delimit_keep(x, map_(b, 4)), star(seq(x, maybe(any_('b')))), plus(choice(x, b)))):
            ctx = [r, complete(r), ignore(r), seq(maybe(seq(r, all_('cc'))), any_('a')), choice(seq(r, all_('cb')), r), seq(r, maybe(c)), map_(r, 5), maybe(r), name(r, 'm'), seq(ignore(r), c), choice(seq(ignore(r), b), r), delimit(r, c)]
            if joinable(r.ty): ctx += [join(r), join(seq(r, maybe(c))), ignore(join(r)), seq(maybe(join(seq(r, b))), a)]
            if r.ty != VOID: ctx += [filter_(r, 3)]
            out.append(ctx)
    return mixed(uniq(g for x in out for g in x))
def mixed(xs):
    """In an order in which every stride meets every body, repetition and context."""
    return [x for _, x in sorted(enumerate(xs), key=lambda t: t[0] * 2654435761 % 2 ** 32)]
def long_inputs(thorough=False):
    ins = set()
    for w, ks in (('a', (16, 31, 32, 33, 34, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 300, 513, 1025)), ('ab', (16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 130, 257)), ('aab', (16, 32, 33, 64, 65, 128, 129)), ('b', (33, 65, 130))):
        for k in ks:
            s = w * k
            ins |= {s, s + 'c', s + 'b', s + 'a', s[:len(s) // 2] + 'c' + s[len(s) // 2 + 1:], s[:-1] + 'b', s[:32] + 'b' + s[33:], s[:64] + 'c' + s[65:]}
            if thorough: ins |= {s[:i] + x + s[i + 1:] for i in range(0, len(s), 1 + len(s) // 40) for x in 'bc'}
    return sorted(ins, key=lambda s: (len(s), s))

def joined_pieces(thorough=False):
    """Joins of sequences of four to twelve pieces, one or two of which may leave a gap, at every place."""
    a, b = any_('a'), any_('b')
    gaps = [ign_('b'), ignore(maybe(b)), maybe(ign_('b')), ignore(star(b)), all_('')]
    kinds = [lambda k: a, lambda k: (a, maybe(a), all_('a'), exactly(a, 1), join(plus(a)))[k % 5], lambda k: (join(plus(a)), a)[k % 2]]
    out = []
    for n in range(4, 13):
        for f, part in enumerate(kinds):
            for at in range(n + 1):
                for g, gap in enumerate(gaps):
                    if not thorough and (n * 3 + f * 2 + at + g) % 5: continue
                    if f == 2: xs = [part(0) if k == n // 2 else a for k in range(n)]
                    else: xs = [part(k) for k in range(n)]
                    xs[at:at] = [gap]
                    if (at + g) % 3 == 0: xs[(at + n // 2) % n:(at + n // 2) % n] = [gaps[(g + 1) % 4]]
                    s = seq(*xs)
                    if joinable(s.ty): out.append(join(s) if (at + f) % 4 else (maybe(join(s)), join(maybe(s)), seq(join(s), maybe(b)), join(star(s)))[(n + g) % 4])
    return uniq(out)
def piece_inputs():
    ws = []
    for n in range(3, 15):
        ws += ['a' * n] + ['a' * i + 'b' * k + 'a' * (n - i) for i in range(n + 1) for k in (1, 2)]
    ws += ['a' * i + 'b' + 'a' * j + 'b' + 'a' * k for i in range(6) for j in range(6) for k in range(6)]
    return sorted(set(ws), key=lambda w: (len(w), w))

def uneven_joins():
    """Joins of repetitions whose rounds have different lengths, some with a gap, so that gaps and lengths may make up for each other."""
    a, b, c3 = any_('a'), any_('b'), any_('c')
    bodies = [choice(all_('ab'), seq(a, ign_('c'))), choice(all_('ab'), seq(a, ign_('c')), a), choice(all_('aab'), seq(a, ign_('c')), all_('bc')), choice(join(plus(a)), seq(b, ign_('c'))), choice(seq(ign_('c'), a), all_('ab')),
              seq(choice(all_('aa'), a), ignore(maybe(c3))), seq(all_('ab'), maybe(seq(a, ign_('c')))), choice(all_('ab'), exactly(seq(a, ign_('c')), 1))]
    out = []
    for x in bodies:
        if not joinable(x.ty): continue
        for f in (star, plus, lambda x: exactly(x, 3), lambda x: exactly(x, 4), lambda x: exactly(x, 6), lambda x: delimit(x, ignore(maybe(b)))):
            t = f(x)
            out += [join(t), join(seq(all_('ab'), t)), join(seq(t, maybe(a))), join(maybe(seq(t, b)))]
        out += [join(seq(*[x] * n)) for n in (4, 6)] + [join(star(exactly(x, 2)))]
    return uniq(out)
def uneven_inputs(n):
    ws = {''}
    for k in range(1, n + 1): ws |= {''.join(t) for t in itertools.product(('ab', 'ac', 'a', 'aab', 'bc'), repeat=k)}
    return sorted(ws, key=lambda w: (len(w), w))

def declared_values(thorough=False):
    """Custom parsers that declare a result type of every kind of value, call a user function on the way, and stand
    where their value is wanted and where it is not: definitions, grammars."""
    a, b, c3 = any_('a'), any_('b'), any_('c')
    pre, gs = [VALUES_PRE], []
    for i, (n, t, e, s, ty) in enumerate(VALUES):
        x = seq(wmap(a, 7), value_(b, i))
        for k, (dec, y) in enumerate((('xv::T%s' % n, x), (None, x), ('std::optional<xv::T%s>' % n, conv(x, 'wrapopt', opt(ty))), ('void', seq(wmap(a, 7), ignore(value_(b, i)), wmap(c3, 8))))):
            if k == 2 and (n in ('pi', 'an') or ty[0] == 'opt'): continue
            if k and not thorough and (i + k) % 2: continue
            nm = 'Dv%d_%d' % (i, k)
            body = seq(wmap(a, 7), ignore(value_(b, i)), wmap(c3, 8)) if k == 3 else x
            pre.append('struct %s : custom_parser<%s> { %sstatic consteval auto get_parser() { return %s; } };\n' % (nm, nm, 'using result_type = %s; ' % dec if dec else '', body.cpp))
            r = custom(y, nm + '{}')
            ctx = [r, ignore(r), seq(r, maybe(a)), seq(map_(maybe(r), 4), a) if r.ty != VOID else seq(r, a), delimit(r, c3), delimit(map_(a, 5), r), choice(ignore(seq(r, c3)), r), star(ignore(r)), name(r, 'n'), filter_(r, 2 if r.ty != VOID else 1)]
            gs += [g for j, g in enumerate(ctx) if thorough or j < 2 or (i + j + k) % 3 == 0]
    return ''.join(pre), uniq(gs)
