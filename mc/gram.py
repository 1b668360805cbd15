"""Grammar terms: construction mirrors the documented operator algebra, gives the public-API C++
expression, the reference term (s-expression), and the documented result type."""
import functools

def hx(s):
    return s.encode('latin-1').hex() or '-'

class G:
    """cpp: expression through the public API; kind+args: normalised meaning; ty: result type."""
    __slots__ = ('kind', 'args', 'cpp', 'ty', '_key', 'raw', 'made')
    def __init__(self, kind, args, ty):
        self.kind, self.args, self.ty = kind, args, ty
        self.cpp = None
        self._key = None
        self.raw = None      # the term as written, without simplification (recognition only)
    def key(self):
        if self._key is None:
            self._key = (self.kind,) + tuple(a.key() if isinstance(a, G) else
                                             tuple(x.key() for x in a) if isinstance(a, list) else a for a in self.args)
        return self._key
    def __eq__(self, o): return self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def with_cpp(self, cpp, raw=None):
        g = G(self.kind, self.args, self.ty)
        g.cpp = cpp
        g.raw = raw or sx(g)
        return g

# ---- types -----------------------------------------------------------------------------------
V = ('V',)
VOID = ('0',)
def vec(t): return ('vec', t)
def opt(t): return ('opt', t)
def arr(t, n): return ('arr', t, n)
def tup(ts): return ('tup',) + tuple(ts)
def var(ts): return ('var',) + tuple(ts)
def pair(a, b): return ('pair', a, b)
def obj(k): return ('obj', k)

def ts(t):
    k = t[0]
    if k in ('V', '0', 'S', 's', 'b', 'i', 'N'): return k
    if k == 'vec': return '[' + ts(t[1]) + ']'
    if k == 'opt': return '?' + ts(t[1])
    if k == 'arr': return '<%s*%d>' % (ts(t[1]), t[2])
    if k == 'tup': return '(' + ','.join(ts(x) for x in t[1:]) + ')'
    if k == 'var': return '|' + ','.join(ts(x) for x in t[1:]) + '|'
    if k == 'pair': return '{%s;%s}' % (ts(t[1]), ts(t[2]))
    if k == 'obj': return 'O%d' % t[1]
    if k == 'dflt': return 'D%d' % t[1]
    if k == 'x': return t[1]
    raise Exception(t)

def dflt(t):
    k = t[0]
    if k == 'V': return 'V'
    if k == 'S': return 'S""'
    if k == 's': return 's'
    if k == 'b': return 'bF'
    if k == 'i': return 'i0'
    if k == 'vec': return '[]'
    if k == 'opt': return '?'
    if k == 'arr': return '<' + ','.join([dflt(t[1])] * t[2]) + '>'
    if k == 'tup': return '(' + ','.join(dflt(x) for x in t[1:]) + ')'
    if k == 'var': return 'v0:' + dflt(t[1])
    if k == 'pair': return '{%s;%s}' % (dflt(t[1]), dflt(t[2]))
    if k == 'obj': return 'O%d{~}' % t[1]
    if k == 'dflt': return 'D%d' % t[1]
    if k == 'N': return 'N'
    if k == 'x': return t[2]
    raise Exception(t)

def joinable(t):
    k = t[0]
    if k == 'V': return True
    if k in ('vec', 'opt', 'arr'): return joinable(t[1])
    if k == 'tup': return all(joinable(x) for x in t[1:])
    return False

def owns(t):
    return t[0] in ('vec', 'S', 'obj') or any(owns(x) for x in t[1:] if isinstance(x, tuple))

# ---- leaves -----------------------------------------------------------------------------------
def cstr(s):
    o = ''
    for c in s:
        if c in '"\\': o += '\\' + c
        elif 32 <= ord(c) < 127: o += c
        else: o += '\\%03o' % ord(c)
    return o

def any_(s): return G('any', (frozenset(s),), V).with_cpp('"%s"_any' % cstr(s))
def none_(s): return G('none', (frozenset(s),), V).with_cpp('"%s"_none' % cstr(s))
def all_(s): return G('all', (s,), V).with_cpp('"%s"_all' % cstr(s))
def ign_(s): return ignore(all_(s), 'fn').with_cpp('"%s"_ign' % cstr(s))
EPS = G('eps', (), VOID)
EPS.cpp = 'eps'
EPS.raw = '(eps)'
def anything_(): return G('anything', (), V).with_cpp('detail::anything_parser<char>{}')

# ---- operators -----------------------------------------------------------------------------------
def compound_seq(ch):
    nv = [c.ty for c in ch if c.ty != VOID]
    ty = VOID if not nv else nv[0] if len(nv) == 1 else tup(nv)
    return G('seq', (list(ch),), ty)

def dedupe(ts_):
    out = []
    for t in ts_:
        if t != VOID and t not in out: out.append(t)
    return out

def compound_choice(ch):
    nv = dedupe(c.ty for c in ch)
    ty = VOID if not nv else nv[0] if len(nv) == 1 else var(nv)
    return G('choice', (list(ch),), ty)

def p(g): return '(' + g.cpp + ')'

def n_seq(a, b):
    if a.kind == 'all' and b.kind == 'all': return G('all', (a.args[0] + b.args[0],), V)
    ca = a.args[0] if a.kind == 'seq' else [a]
    cb = b.args[0] if b.kind == 'seq' else [b]
    return compound_seq(ca + cb)

def seq(*gs):
    r = gs[0]
    for b in gs[1:]:
        r = n_seq(r, b).with_cpp(p(r) + ' >> ' + p(b), '(seq 0 00 %s %s)' % (r.raw, b.raw))
    return r

def n_choice(a, b):
    sets = ('any', 'none')
    if a.kind in sets and b.kind in sets:
        A, B = a.args[0], b.args[0]
        if a.kind == 'any' and b.kind == 'any': return G('any', (A | B,), V)
        if a.kind == 'none' and b.kind == 'none': return G('none', (A & B,), V)
        if a.kind == 'any': return G('none', (B - A,), V)
        return G('none', (A - B,), V)
    if a == b: return G(a.kind, a.args, a.ty)
    ca = a.args[0] if a.kind == 'choice' else [a]
    cb = b.args[0] if b.kind == 'choice' else [b]
    return compound_choice(ca + cb)

def choice(*gs):
    r = gs[0]
    for b in gs[1:]:
        r = n_choice(r, b).with_cpp(p(r) + ' | ' + p(b), '(choice 0 -1,-1 - %s %s)' % (r.raw, b.raw))
    return r

def wrapv(t, f): return VOID if t == VOID else f(t)

def n_maybe(a):
    if a.kind == 'maybe': return G('maybe', a.args, a.ty)
    if a.kind == 'plus': return n_rep('star', a.args[0])
    if a.kind == 'star': return G('star', a.args, a.ty)
    return G('maybe', (a,), wrapv(a.ty, opt))
def n_rep(k, a): return G(k, (a,), wrapv(a.ty, vec))
def n_plus(a):
    if a.kind == 'maybe': return n_rep('star', a.args[0])
    if a.kind in ('plus', 'star'): return G(a.kind, a.args, a.ty)
    return n_rep('plus', a)
def n_star(a):
    if a.kind in ('maybe', 'plus', 'star'): return n_rep('star', a.args[0])
    return n_rep('star', a)
def n_not(a):
    return G('none' if a.kind == 'any' else 'any', a.args, V)

def maybe(a): return n_maybe(a).with_cpp(raw='(maybe 1 %s)' % a.raw, cpp='~' + p(a))
def plus(a): return n_plus(a).with_cpp(raw='(plus 1 %s)' % a.raw, cpp='+' + p(a))
def star(a): return n_star(a).with_cpp(raw='(star 1 %s)' % a.raw, cpp='*' + p(a))
def not_(a): return n_not(a).with_cpp('!' + p(a))

# ---- modifiers: form 'fn' m(p) or 'op' p % m ---------------------------------------------------------
def mod(n, a, m, form, raw=None):
    return n.with_cpp(raw=raw, cpp='%s%s' % (m, p(a)) if form == 'fn' else '%s %% %s' % (p(a), m))

def exactly(a, k, form='fn'):
    return mod(G('exactly', (a, k), wrapv(a.ty, lambda t: arr(t, k))), a, 'exactly<%d>' % k, form, '(exactly %d 1 %s)' % (k, a.raw))
def n_ignore(a): return G(a.kind, a.args, a.ty) if a.kind == 'ignore' else G('ignore', (a,), VOID)
def ignore(a, form='fn'): return mod(n_ignore(a), a, 'ignore', form, '(ignore %s)' % a.raw)
def n_complete(a): return G(a.kind, a.args, a.ty) if a.kind == 'complete' else G('complete', (a,), a.ty)
def complete(a, form='fn'): return mod(n_complete(a), a, 'complete', form, '(complete %s)' % a.raw)
def n_join(a): return G(a.kind, a.args, a.ty) if a.kind == 'join' else G('join', (a,), V)
def join(a, form='fn'):
    assert joinable(a.ty)
    return mod(n_join(a), a, 'join', form)
def map_(a, k, form='fn'): return mod(G('map', (a, k), obj(k)), a, 'map<mc::fn<%d>>' % k, form)
def apply_(a, k, form='fn'): return mod(G('apply', (a, k), obj(k)), a, 'apply<mc::fn<%d>>' % k, form)
def wmap(a, k, form='fn'): return mod(G('wmap', (a, k), VOID), a, 'map<mc::vfn<%d>>' % k, form)
def wapply(a, k, form='fn'): return mod(G('wapply', (a, k), VOID), a, 'apply<mc::vfn<%d>>' % k, form)
def into(a, k, form='fn'): return mod(G('into', (a, k), obj(k)), a, 'into<mc::Obj<%d>>' % k, form)
def applyinto(a, k, form='fn'): return mod(G('applyinto', (a, k), obj(k)), a, 'apply_into<mc::Obj<%d>>' % k, form)
def const_(a, v, form='fn'):
    if isinstance(v, bool): t, s, c = ('b',), 'bT' if v else 'bF', 'true' if v else 'false'
    elif v is None: t, s, c = ('N',), 'N', 'nullptr'
    else: t, s, c = ('i',), 'i%d' % v, str(v)
    return mod(G('const', (a, s, t), t), a, 'constant<%s>' % c, form)
def dflt_(a, k, form='fn'): return mod(G('dflt', (a, k), ('dflt', k)), a, 'defaulted<mc::Dflt<%d>>' % k, form)
def strinto(a, form='fn'): return mod(G('strinto', (a,), ('S',)), a, 'into<std::string>', form)
def svinto(a, form='fn'): return mod(G('svinto', (a,), ('s',)), a, 'into<std::string_view>', form)
def filter_(a, k, form='fn'): return mod(G('filter', (a, k), a.ty), a, 'filter<mc::pred<%d>>' % k, form)
def afilter(a, k, form='fn'): return mod(G('afilter', (a, k), a.ty), a, 'apply_filter<mc::pred<%d>>' % k, form)
def cname(s):
    # 'L:n' stands for the name L"n"
    p, _, r = s.rpartition(':')
    return '%s"%s"' % (p, r)
def name(a, s, form='fn'): return mod(G('name', (a, s), a.ty), a, 'name<%s>' % cname(s), form)
def applicable(t): return t[0] in ('tup', 'arr', 'pair')

def n_delim(a, d):
    if d.ty == VOID: ty = VOID if a.ty == VOID else vec(a.ty)
    elif a.ty == VOID: ty = vec(d.ty)
    else: ty = pair(vec(a.ty), vec(d.ty))
    return G('delim', (a, d), ty)
def ign_always(d): return G('ignore', (d,), VOID)
def delimit(a, d, form='fn2'):
    n = n_delim(a, ign_always(d))
    return n.with_cpp(raw='(delim 1 1 %s (ignore %s))' % (a.raw, d.raw), cpp='delimit(%s, %s)' % (a.cpp, d.cpp) if form == 'fn2' else
                      '%s %% delimit(%s)' % (p(a), d.cpp) if form == 'op' else 'delimit(%s)(%s)' % (d.cpp, a.cpp))
def delimit_keep(a, d, form='fn2'):
    n = n_delim(a, d)
    return n.with_cpp(raw='(delim 1 1 %s %s)' % (a.raw, d.raw), cpp='delimit_keep(%s, %s)' % (a.cpp, d.cpp) if form == 'fn2' else
                      '%s %% delimit_keep(%s)' % (p(a), d.cpp) if form == 'op' else 'delimit_keep(%s)(%s)' % (d.cpp, a.cpp))

def rule(i, ty, cpp):
    """A recursive reference: custom parser number i with a known result type."""
    g = G('rule', (i,), ty)
    g.cpp = cpp
    return g
def conv(a, how, ty):
    """The value of a converted to a declared result type (how: into K, wrapopt, wrapvar i, strinto, svinto, name)."""
    return G('conv', (a, how), ty)
def custom(a, cpp):
    """A non-recursive custom parser whose get_parser() is a."""
    g = G('custom', (a, cpp), a.ty)
    g.cpp = cpp
    return g

# ---- the reference term -----------------------------------------------------------------------------
def sx(g):
    k, a = g.kind, g.args
    if k in ('any', 'none'): return '(%s %s)' % (k, hx(''.join(sorted(a[0]))))
    if k == 'all': return '(all %s)' % hx(a[0])
    if k in ('anything', 'eps'): return '(%s)' % k
    if k == 'seq':
        ch = a[0]
        nv = [c for c in ch if c.ty != VOID]
        mode = '0' if not nv else 'U' if len(nv) == 1 else 'T'
        return '(seq %s %s %s)' % (mode, ''.join('01'[c.ty != VOID] for c in ch), ' '.join(map(sx, ch)))
    if k == 'choice':
        ch = a[0]
        nv = dedupe(c.ty for c in ch)
        mode = '0' if not nv else 'U' if len(nv) == 1 else 'V'
        d = '' if not nv else dflt(nv[0]) if len(nv) == 1 else 'v0:' + dflt(nv[0])
        return '(choice %s %s %s %s)' % (mode, ','.join(str(nv.index(c.ty)) if c.ty != VOID else '-1' for c in ch), hx(d), ' '.join(map(sx, ch)))
    if k in ('maybe', 'star', 'plus'): return '(%s %d %s)' % (k, a[0].ty == VOID, sx(a[0]))
    if k == 'exactly': return '(exactly %d %d %s)' % (a[1], a[0].ty == VOID, sx(a[0]))
    if k == 'delim': return '(delim %d %d %s %s)' % (a[0].ty == VOID, a[1].ty == VOID, sx(a[0]), sx(a[1]))
    if k in ('ignore', 'complete', 'join', 'strinto', 'svinto', 'custom'): return '(%s %s)' % (k, sx(a[0]))
    if k == 'into' and a[0].ty == obj(a[1]): return '(name %s)' % sx(a[0])   # T from a T: moved, not wrapped
    if k == 'name': return '(name %s)' % sx(a[0])
    if k in ('map', 'apply', 'wmap', 'wapply', 'into', 'applyinto', 'dflt', 'filter', 'afilter'): return '(%s %d %s)' % (k, a[1], sx(a[0]))
    if k == 'const': return '(const %s %s)' % (hx(a[1]), sx(a[0]))
    if k == 'rule': return '(rule %d)' % a[0]
    if k == 'conv': return '(%s %s)' % (a[1], sx(a[0]))
    raise Exception(k)

def children(g):
    for a in g.args:
        if isinstance(a, G): yield a
        elif isinstance(a, list): yield from a

def noalloc(g):
    if g.kind == 'ignore': return True
    if g.kind == 'rule': return False
    if owns(g.ty) or g.kind in ('map', 'apply', 'wmap', 'wapply', 'into', 'applyinto', 'filter', 'afilter', 'strinto'): return False
    return all(noalloc(c) for c in children(g))

def size(g): return 1 + sum(size(c) for c in children(g))
