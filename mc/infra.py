"""Build-and-explore driver shared by all checks."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time, atexit, signal

MC = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(MC)
REPO = os.environ.get('TOK3N_REPO', '/repo')
JOBS = int(os.environ.get('MC_JOBS', str(os.cpu_count() or 8)))
BASE = ['-std=c++20', '-w', '-I', REPO + '/include', '-I', MC]
ENV = dict(os.environ, CCACHE_DISABLE='1', LC_ALL='C')

class BuildBroken(Exception): pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

LAST_CALL = 840                          # of the 900 s a quick check has, when programs that still run are ended
RUNNING = set()
def end_group(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
atexit.register(lambda: [end_group(p) for p in list(RUNNING)])

class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv: self.tier = 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.dir = '%s/.build/%s-%d' % (VERIF, prop, os.getpid())
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        atexit.register(lambda: os.environ.get('MC_KEEP') or shutil.rmtree(self.dir, ignore_errors=True))
        signal.signal(signal.SIGTERM, lambda *a: ([end_group(p) for p in list(RUNNING)], sys.exit(2)))
        self.violations = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'exhaustive': True}
        self.parts = {}
        self.assumptions = []
        self._objs = {}
        self._pch = {}
        self.known = load_known(prop)
        self.known_seen = {}

    # -- building ---------------------------------------------------------------------------------
    def cc(self, args, timeout=600):
        r = subprocess.run(args, cwd=self.dir, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors='replace')
        return r.returncode, r.stdout

    def obj(self, src, flags=()):
        """A support object that does not depend on the library."""
        key = (src, tuple(flags))
        if key not in self._objs:
            o = '%s/%s-%d.o' % (self.dir, os.path.basename(src).replace('.', '_'), len(self._objs))
            rc, out = self.cc(['g++'] + BASE + ['-O2', *flags, '-c', os.path.join(MC, src), '-o', o])
            if rc: raise BuildBroken('support object %s: %s' % (src, out[:4000]))
            self._objs[key] = o
        return self._objs[key]

    def pch(self, header, flags):
        key = (header, tuple(flags))
        if key not in self._pch:
            d = '%s/pch%d' % (self.dir, len(self._pch))
            os.makedirs(d)
            rc, out = self.cc(['g++'] + BASE + [*flags, '-x', 'c++-header', os.path.join(MC, header), '-o', '%s/%s.gch' % (d, header)])
            if rc: raise BuildBroken('the public header does not compile: %s' % out[:4000])
            self._pch[key] = d
        return self._pch[key]

    # -- running --------------------------------------------------------------------------------------
    def run_bin(self, argv, timeout=800, env=None):
        if self.tier == 'quick': timeout = min(timeout, max(30, LAST_CALL - (time.time() - self.t0)))
        p = subprocess.Popen(argv, cwd=self.dir, env=dict(ENV, **(env or {})), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors='replace', start_new_session=True)
        RUNNING.add(p)
        try:
            out, err = p.communicate(timeout=timeout)
            return p.returncode, out, err
        except subprocess.TimeoutExpired:
            end_group(p)
            out, err = p.communicate()
            return 'timeout', out or '', ''
        finally:
            RUNNING.discard(p)

    def absorb(self, part, rc, out, err, rerun, info):
        """Take one process's report. rerun(violation dict) -> bool confirms a reported violation."""
        got_stat = False
        stat_dst = self.parts.setdefault(part, {})
        for line in out.splitlines():
            if line.startswith('STAT '):
                got_stat = True
                for k, v in json.loads(line[5:]).items():
                    if isinstance(v, (int, float)): stat_dst[k] = (max(stat_dst.get(k, 0), v) if k.startswith('max_') else stat_dst.get(k, 0) + v)
                    else: stat_dst[k] = v
            elif line.startswith('SAMPLE '):
                if len(self.cov['samples']) < 8 and stat_dst.setdefault('_samples', 0) < 3:
                    stat_dst['_samples'] += 1
                    self.cov['samples'].append(json.loads(line[7:]))
            elif line.startswith('KNOWN '):
                self.seen_known(part, json.loads(line[6:])['key'])
            elif line.startswith('VIOL '):
                self.consider(part, dict(json.loads(line[5:]), **info), rerun)
            elif line.startswith('CRASH ') or line.startswith('HANG '):
                kind, sig, where = line.split(' ', 2)
                try: w = json.loads(where)
                except Exception: w = {'where': where}
                v = dict(w, aspect='crash (signal %s)' % sig if kind == 'CRASH' else 'does not terminate', observed=line[:500], **info)
                self.consider(part, v, rerun)
        if not got_stat and not any(l.startswith(('CRASH', 'HANG', 'VIOL')) for l in out.splitlines()):
            san = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|ERROR: LeakSanitizer[^\n]*)', err)
            if san:
                last = [l for l in err.splitlines() if l.startswith('WHERE ')]
                w = {}
                if last:
                    try: w = json.loads(last[-1][6:])
                    except Exception: w = {'where': last[-1]}
                self.consider(part, dict(w, aspect='sanitizer report', observed=san.group(1)[:500], **info), rerun)
            else:
                raise BuildBroken('explorer %s ended with %s and no report\n%s\n%s' % (part, rc, out[-1500:], err[-3000:]))

    def seen_known(self, part, key):
        k = next((x for x in self.known if x.get('key') == key), None)
        if k: self.known_seen[key] = k
        else: self.consider(part, {'aspect': key, 'observed': 'a deviation that KNOWN_FINDINGS.jsonl does not list'}, None)

    def consider(self, part, v, rerun):
        v['part'] = part
        if len(self.violations) >= 12: return
        if rerun is not None:
            ok = rerun(v)
            if not ok:
                log('not reproduced, dropped:', v)
                self.parts.setdefault('not_reproduced', {}).setdefault('count', 0)
                self.parts['not_reproduced']['count'] += 1
                return
        self.violations.append(v)

    # -- grammar shards ---------------------------------------------------------------------------------
    def grammars(self, part, cases, runargs, prelude='', shard=60, cflags=('-O0',), env=None, header='mc.h', main='main_gram.cpp', crash=True, lflags=(), maxjobs=None, wrap=(), cxx='g++'):
        """cases: list of (id, cpp, sexpr, type, noalloc)."""
        if cxx != 'g++' and not shutil.which(cxx): return
        pchdir = self.pch(header, cflags) if cxx == 'g++' else MC
        nonew = ('-DMC_NO_NEW',) if any('sanitize' in f for f in cflags) else ()
        objs = [self.obj('rt.cpp', nonew), self.obj('ref.cpp'), self.obj(main, nonew)]
        shards = []
        n = max(1, -(-len(cases) // shard))
        n = -(-n // JOBS) * JOBS if n > JOBS else n
        for i in range(n):
            cs = cases[i::n]
            if cs: shards.append((i, cs))
        self.parts.setdefault(part, {})['grammars_generated'] = len(cases)

        def one(item):
            i, cs = item
            src = '%s/%s_%d.cpp' % (self.dir, part, i)
            exe = src[:-4]
            text, lines = shard_source(cs, prelude, header)
            open(src, 'w').write(text)
            try:
                rc, out = self.cc([cxx] + ['-I', pchdir] + BASE + [*cflags, src, *objs, '-o', exe, *lflags])
            except subprocess.TimeoutExpired:
                rc, out = 1, 'compilation timed out'
            if rc: return ('nocompile', item, out, lines, src)
            rc, out, err = self.run_bin([*wrap, exe] + list(runargs), env=env)
            res = ('ran', item, rc, out, err, exe)
            return res

        results = []
        with cf.ThreadPoolExecutor(maxjobs or JOBS) as ex:
            futs = [ex.submit(one, s) for s in shards]
            for f in cf.as_completed(futs):
                r = f.result()
                results.append(r)
                if r[0] == 'ran':
                    _, item, rc, out, err, exe = r
                    cs = {}
                    for c in item[1]:
                        cs[c[0]] = c
                        for k, alt in enumerate(c[5] if len(c) > 5 else ()): cs['%s~%d' % (c[0], k)] = (c[0], alt) + tuple(c[2:5])
                    def rerun(v, exe=exe, cs=cs):
                        cid = v.get('case')
                        if cid in cs:
                            v.setdefault('grammar', cs[cid][1])
                            v['sexpr'], v['type'] = cs[cid][2], cs[cid][3]
                            if len(cs[cid]) > 6 and cs[cid][6]: v['rules'] = cs[cid][6]
                        a = [*wrap, exe] + list(runargs) + ['--hang=30']
                        if cid: a.append('--only=' + cid)
                        if v.get('input_hex') is not None: a.append('--input=' + v['input_hex'])
                        rc2, out2, err2 = self.run_bin(a, env=env, timeout=200)
                        if rc2 != 0: return True
                        # not from this run alone: does the whole history bring it back, at the same point?
                        rc3, out3, err3 = self.run_bin([*wrap, exe] + list(runargs), env=env)
                        same = lambda t: [l for l in t.splitlines() if l.startswith('VIOL ')]
                        if rc3 not in (0, 'timeout') and same(out3) == same(out):
                            v['history'] = 'only after the runs before it (same program, same arguments)'
                            return True
                        return False
                    self.absorb(part, rc, out, err, rerun, {'prelude': prelude, 'cflags': list(cflags), 'runargs': list(runargs)})
                    if os.path.exists(exe) and not self.violations: os.unlink(exe)
        broken = [r for r in results if r[0] == 'nocompile']
        if broken and cxx != 'g++':     # only g++ is what the repository is built with here
            self.parts[part]['not_compiled'] = len(broken)
            print('note: part %s: %d of %d programs do not compile with %s' % (part, len(broken), len(results), cxx), broken[0][2][:300])
        elif broken: self.compile_failure(part, broken, prelude, header, cflags, pchdir, cxx)

    def compile_failure(self, part, broken, prelude, header, cflags, pchdir, cxx='g++'):
        confirmed = 0
        for _, (i, cs), out, lines, src in broken:
            if confirmed >= 3: break
            hit = []
            for m in re.finditer(re.escape(os.path.basename(src)) + r':(\d+):', out):
                l = int(m.group(1))
                if l in lines and lines[l] not in hit: hit.append(lines[l])
            for c in hit[:6] or cs[:12]:
                one = '%s/one.cpp' % self.dir
                open(one, 'w').write(shard_source([c], prelude, header)[0])
                rc, o = self.cc([cxx, '-I', pchdir] + BASE + [*cflags, '-fsyntax-only', one])
                if rc:
                    err = next((l for l in o.splitlines() if 'error' in l), '')[:600]
                    self.violations.append({'part': part, 'case': c[0], 'grammar': c[1], 'sexpr': c[2], 'type': c[3], 'prelude': prelude,
                                            'aspect': 'a well-formed grammar no longer compiles', 'observed': err, 'input_hex': '', 'cflags': list(cflags)})
                    confirmed += 1
                    break
        if not confirmed:
            raise BuildBroken('a shard does not compile but no single grammar explains it:\n' + broken[0][2][:3000])

    # -- hand-written harnesses ------------------------------------------------------------------------------
    def harness(self, part, srcs, args=(), cflags=('-O0',), lflags=(), objs=(), env=None, cc='g++', timeout=800, defines=(), runs=None, compile_is_violation=None):
        """Compile a harness of /verif/mc against the library and run it (runs: list of argument lists, run in parallel)."""
        exe = '%s/%s' % (self.dir, part)
        srcs = [s if os.path.isabs(s) else os.path.join(MC, s) for s in srcs]
        rc, out = self.cc([cc] + BASE + [*cflags, *defines, *srcs, *objs, '-o', exe, *lflags])
        if rc:
            err = '\n'.join([l for l in out.splitlines() if 'error' in l or 'static assertion' in l][:8])[:1500]
            if compile_is_violation:
                self.violations.append({'part': part, 'aspect': compile_is_violation, 'observed': err, 'sources': srcs})
                return
            raise BuildBroken('harness %s does not compile:\n%s' % (part, out[:4000]))
        self.parts.setdefault(part, {})
        def one(a):
            return a, self.run_bin([exe] + list(a), timeout=timeout, env=env)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for a, (rc, out, err) in ex.map(one, runs if runs is not None else [args]):
                def rerun(v, a=a):
                    extra = ['--replay=' + v['replay']] if v.get('replay') else []
                    rc2, out2, err2 = self.run_bin([exe] + list(a) + extra, env=env, timeout=timeout)
                    return rc2 != 0
                if rc == 'timeout':
                    self.consider(part, {'aspect': 'does not terminate', 'observed': 'no answer in %d s' % timeout, 'args': list(a)}, None)
                    continue
                self.absorb(part, rc, out, err, rerun, {'args': list(a), 'sources': [os.path.basename(s) for s in srcs], 'cflags': list(cflags)})

    def harness_parts(self, part, src, nparts, args=(), cflags=('-O0',), defines=(), lflags=(), objs=(), timeout=800, env=None, cxx='g++'):
        """The same source compiled nparts times (or for each of the listed parts) with -DPART=i, in parallel."""
        if cxx != 'g++' and not shutil.which(cxx): return
        which = list(range(nparts)) if isinstance(nparts, int) else list(nparts)
        nparts = max(which) + 1
        src = os.path.join(MC, src)
        def one(i):
            exe = '%s/%s_%d' % (self.dir, part, i)
            rc, out = self.cc([cxx] + BASE + [*cflags, *defines, '-DPART=%d' % i, '-DNPARTS=%d' % nparts, src, *objs, '-o', exe, *lflags])
            if rc: return i, exe, ('nocompile', out, '')
            return i, exe, self.run_bin([exe] + list(args), timeout=timeout, env=env)
        self.parts.setdefault(part, {})
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for i, exe, (rc, out, err) in ex.map(one, which):
                if rc == 'nocompile' and cxx != 'g++':
                    self.parts[part]['not_compiled'] = self.parts[part].get('not_compiled', 0) + 1
                    print('note: harness %s part %d does not compile with %s' % (part, i, cxx), out[:300])
                    continue
                if rc == 'nocompile': raise BuildBroken('harness %s part %d does not compile:\n%s' % (part, i, out[:4000]))
                if rc == 'timeout':
                    self.consider(part, {'aspect': 'does not terminate', 'observed': 'no answer in %d s' % timeout, 'args': list(args)}, None)
                    continue
                def rerun(v, exe=exe): return self.run_bin([exe] + list(args), timeout=timeout, env=env)[0] != 0
                self.absorb(part, rc, out, err, rerun, {'args': list(args), 'sources': [os.path.basename(src)], 'defines': ['-DPART=%d' % i, '-DNPARTS=%d' % nparts], 'cflags': list(cflags)})

    # -- generated programs ------------------------------------------------------------------------------------
    def generated(self, part, srcs, args=(), cflags=('-O0',), objs=(), lflags=(), env=None, timeout=800, compile_is_violation=None):
        """srcs: list of (name, text): each compiled to a program of its own and run."""
        self.parts.setdefault(part, {})
        def one(s):
            name, text = s
            src = '%s/%s_%s.cpp' % (self.dir, part, name)
            open(src, 'w').write(text)
            exe = src[:-4]
            try: rc, out = self.cc(['g++'] + BASE + [*cflags, src, *objs, '-o', exe, *lflags])
            except subprocess.TimeoutExpired: rc, out = 1, 'compilation timed out'
            if rc: return s, exe, ('nocompile', out, '')
            return s, exe, self.run_bin([exe] + list(args), timeout=timeout, env=env)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for s, exe, (rc, out, err) in ex.map(one, srcs):
                if rc == 'nocompile':
                    msg = '\n'.join([l for l in out.splitlines() if 'error' in l][:6])[:1500]
                    if compile_is_violation:
                        self.violations.append({'part': part, 'case': s[0], 'aspect': compile_is_violation, 'observed': msg, 'source': s[1][:4000]})
                        continue
                    raise BuildBroken('generated program %s %s does not compile:\n%s' % (part, s[0], msg + out[:2000]))
                if rc == 'timeout':
                    self.consider(part, {'case': s[0], 'aspect': 'does not terminate', 'observed': 'no answer in %d s' % timeout}, None)
                    continue
                def rerun(v, exe=exe): return self.run_bin([exe] + list(args), timeout=timeout, env=env)[0] != 0
                self.absorb(part, rc, out, err, rerun, {'program': s[0], 'source': s[1][:20000], 'cflags': list(cflags), 'args': list(args)})

    # -- a program that is already built -------------------------------------------------------------------------
    def run_program(self, part, exe, runs, timeout=800, env=None):
        self.parts.setdefault(part, {})
        def one(a): return a, self.run_bin([exe] + list(a), timeout=timeout, env=env)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for a, (rc, out, err) in ex.map(one, runs):
                if rc == 'timeout':
                    self.consider(part, {'aspect': 'does not terminate', 'observed': 'no answer in %d s' % timeout, 'args': list(a)}, None)
                    continue
                def rerun(v, a=a): return self.run_bin([exe] + list(a), timeout=timeout, env=env)[0] != 0
                self.absorb(part, rc, out, err, rerun, {'args': list(a)})

    # -- the end -------------------------------------------------------------------------------------------------
    def finish(self, assumptions=(), notes=None):
        c = self.cov
        for p, d in self.parts.items():
            d.pop('_samples', None)
            c['states'] += d.get('states', 0)
            c['transitions'] += d.get('transitions', 0)
            c['traces_validated_against_impl'] += d.get('runs', 0)
        c['states'], c['transitions'] = int(c['states']), int(c['transitions'])
        c['traces_validated_against_impl'] = int(c['traces_validated_against_impl'])
        c['parts'] = self.parts
        if notes: c['notes'] = notes
        new, known = [], []
        for v in self.violations:
            k = next((x for x in self.known if 'key' not in x and x.get('grammar') == v.get('grammar') and x.get('input_hex') == v.get('input_hex') and x.get('part') == v.get('part')), None)
            (known if k else new).append((v, k))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': c,
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, self.prop), 'w') as f: json.dump(ev, f, indent=1)
        for k in self.known_seen.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k.get('what', '')))
        for v, k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k.get('what', '')))
        if new:
            d = '%s/replays/%s' % (VERIF, self.prop)
            os.makedirs(d, exist_ok=True)
            for i, (v, _) in enumerate(new[:5]):
                path = '%s/%d.json' % (d, i)
                with open(path, 'w') as f: json.dump(dict(v, property=self.prop), f, indent=1)
                log('  %s' % json.dumps({k: v[k] for k in v if k not in ('prelude', 'sexpr', 'runargs')})[:900])
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            sys.stdout.flush()
            return 1
        print('OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs' % (self.prop, self.tier, c['states'], c['transitions'], c['traces_validated_against_impl'], time.time() - self.t0))
        return 0

def elements_of(cpp, T):
    """The same expression over elements of type T (see elem_of in mc.h)."""
    def f(m):
        s = re.sub(r'\\([0-7]{3}|.)', lambda k: chr(int(k.group(1), 8)) if len(k.group(1)) == 3 else k.group(1), m.group(1))
        e = 'mc::el<%s%s>::%s()' % (T, ''.join(', %d' % ord(ch) for ch in s), 'all' if m.group(2) == 'ign' else m.group(2))
        return 'ignore(%s)' % e if m.group(2) == 'ign' else e
    return re.sub(r'"((?:[^"\\]|\\.)*)"_(any|none|all|ign)', f, cpp.replace('anything_parser<char>', 'anything_parser<%s>' % T))

def shard_source(cs, prelude, header):
    out = ['#include "%s"' % header, 'using namespace k3::tok3n;', prelude]
    lines, seen = {}, set()
    n = sum(x.count('\n') + 1 for x in out)
    for j, c in enumerate(cs):
        cid, cpp, sexpr, ty, na = c[:5]
        q = lambda s: '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
        t = 'std::remove_cvref_t<decltype(%s)>'
        a = '%s, %s, %s' % (q(sexpr), q(ty), 'true' if na else 'false')
        el = c[7] if len(c) > 7 else None        # element type other than char
        body = 'mc::reg<%s>(%s, %s, %s);' % (t % cpp, q(cid), q(cpp), a) if not el else 'mc::reg<%s, %s>(%s, %s, %s);' % (t % elements_of(cpp, el), el, q(cid), q('%s: %s' % (el, cpp)), a)
        for k, alt in enumerate(c[5] if len(c) > 5 else ()):
            body += ' mc::reg_alt<%s, %s>(%s, %s, %s);' % (t % cpp, t % alt, q('%s~%d' % (cid, k)), q(alt), a)
        pre = c[6].replace('\n', ' ') + ' ' if len(c) > 6 and c[6] and c[6] not in seen else ''
        if pre: seen.add(c[6])
        out.append('%sstatic void c%d() { %s }' % (pre, j, body))
        n += 1
        lines[n] = c
    out.append('void register_cases() { %s }' % ' '.join('c%d();' % j for j in range(len(cs))))
    return '\n'.join(out) + '\n', lines

def load_known(prop):
    path = VERIF + '/KNOWN_FINDINGS.jsonl'
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('status', 'known') == 'known': out.append(d)
    return out
