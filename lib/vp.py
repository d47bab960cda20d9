"""Solver-based checking of the real termrec code with CBMC.

An Obligation = one harness + the real sources it drives.  For each:
  1. the sources are read from /repo's working tree and compiled by goto-cc,
  2. CBMC executes harness+code symbolically and the SAT back end decides
     every assertion for all symbolic inputs within the unwinding bounds
     (unwinding assertions on: a bound that is too small is reported),
  3. REACH assertions (must be violated) guard against vacuity; their witness
     is replayed against the real code compiled natively,
  4. any other violated assertion: its concrete inputs are replayed against
     the real code compiled natively (gcc, ASan+UBSan); only a reproduced
     failure is reported as VIOLATION.
"""
import os, re, sys, json, time, shutil, subprocess, threading, resource, hashlib, signal
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = int(os.environ.get('VERIF_JOBS', '0') or 0) or min(8, os.cpu_count() or 4)
H = os.path.join(VERIF, 'h')
MEM = 7 << 30

class Ob:
    """name; harness: file(s) under h/; srcs: list of repo files or
    (file, dict(defs=[], subs=[(regex, repl)], include=hdr));
    defs: -D for harness and sources; unwind; unwindset {func-regex: n};
    flags: extra cbmc checks."""
    def __init__(self, name, harness, srcs, defs=(), unwind=10, unwindset=None,
                 flags=(), timeout=300, models=(), libs=(), objbits=10, cap=None,
                 native_srcs=(), note='', about='', hang=10):
        self.name, self.harness = name, [harness] if isinstance(harness, str) else list(harness)
        self.srcs, self.defs, self.unwind = list(srcs), list(defs), unwind
        self.unwindset = unwindset or {}
        self.flags, self.timeout, self.models = list(flags), timeout, list(models)
        self.libs, self.objbits, self.note = list(libs), objbits, note
        self.cap = cap or unwind * 4
        self.about = about
        self.hang = hang

def run(cmd, timeout=None, cwd=None, env=None, out=None, mem=MEM):
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    fo = open(out, 'wb') if out else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=fo, stderr=subprocess.STDOUT, cwd=cwd, env=env,
                         stdin=subprocess.DEVNULL, preexec_fn=pre)
    with PLOCK:
        PROCS.add(p)
    try:
        o, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        killpg(p)
        o, _ = p.communicate()
        rc = 'timeout'
    finally:
        with PLOCK:
            PROCS.discard(p)
        if out:
            fo.close()
    return rc, (o or b'').decode('latin1')

PROCS, PLOCK = set(), threading.Lock()
def killpg(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass

STOP = threading.Event()

class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        # an answer is due within 900 s
        self.deadline = self.t0 + int(os.environ.get('VERIF_DEADLINE', 0) or (1e6 if THOROUGH else 780))
        self.dir = os.path.join(VERIF, 'build', prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.cache, self.clock = {}, threading.Lock()
        self.incs = ['-I' + os.path.join(REPO, d) for d in
                     ('.', 'libtty', 'libstream', 'common', 'rec', 'play', 'sys')]
        if not os.path.exists(os.path.join(REPO, 'config.h')):
            self.incs.append('-I' + os.path.join(VERIF, 'lib', 'fallback'))
        self.learned = {}
        self.notes = []

    # ---- compiling -------------------------------------------------------
    def prep(self, src):
        """-> (path, cflags) of a real source, possibly with scaled constants"""
        opts = {}
        if isinstance(src, tuple):
            src, opts = src
        path = os.path.join(REPO, src.split('+')[0])
        fl = ['-D' + d for d in opts.get('defs', [])]
        for inc in opts.get('include', []):
            fl += ['-include', os.path.join(H, inc)]
        subs = opts.get('subs', [])
        s0 = s = open(path, encoding='latin1').read()
        if '+' in src:      # one unit: CBMC can't see into tables declared elsewhere without a size
            s, seen = '', set()
            def once(m):
                b = os.path.basename(m.group(1))
                if b == 'export.h':
                    return '\n#undef export\n#undef VISIBILITY_ENABLE\n#undef VISIBILITY_DISABLE\n#define export\n#define VISIBILITY_ENABLE\n#define VISIBILITY_DISABLE\n'
                return '' if b in seen or seen.add(b) else m.group(0) + opts.get('after', {}).get(b, '')
            for one in src.split('+'):
                t = open(os.path.join(REPO, one), encoding='latin1').read()
                s += re.sub(r'^\s*#\s*include\s+"([^"]+)"[^\n]*', once, t, flags=re.M) + '\n'
                fl += ['-I' + os.path.dirname(os.path.join(REPO, one))]
            s += opts.get('append', '')
        # goto-cc reads \\e as 'e', and octal escapes past three digits
        s = re.sub(r'(?<!\\)((?:\\\\)*)\\e(?![0-9])', r'\1\\033', s)
        s = re.sub(r'(?<!\\)((?:\\\\)*)\\e(?=[0-9])', r'\1\\033""', s)
        s = re.sub(r'(?<!\\)((?:\\\\)*)(\\[0-7]{3})(?=[0-9])', r'\1\2""', s)
        if subs or s != s0:
            for rx, rep in subs:
                s2, n = re.subn(rx, rep, s, flags=re.M)
                if not n:
                    self.note('scaling pattern %r not found in %s: left unscaled' % (rx, src))
                s = s2
            key = hashlib.md5(repr((src, subs)).encode()).hexdigest()[:8]
            np = os.path.join(self.dir, key + '-' + os.path.basename(src))
            with self.clock:
                if not os.path.exists(np):
                    open(np, 'w', encoding='latin1').write(s)
            fl += ['-I' + os.path.dirname(path)]
            path = np
        return path, fl

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def compile1(self, kind, path, flags):
        key = hashlib.md5(repr((kind, path, flags)).encode()).hexdigest()[:16]
        with self.clock:
            ent = self.cache.get(key)
            if ent is None:
                ent = self.cache[key] = [threading.Lock(), None]
        with ent[0]:
            if ent[1] is None:
                out = os.path.join(self.dir, key + ('.gb' if kind == 'gb' else '.o'))
                base = ['-w', '-U_FORTIFY_SOURCE', '-I' + H] + self.incs + flags
                if kind == 'gb':
                    cmd = ['goto-cc', '-DVERIF_CBMC', '-std=gnu11'] + base
                else:
                    cmd = ['gcc', '-std=gnu11', '-O1', '-g', '-fno-omit-frame-pointer',
                           '-fsanitize=address,bounds,null,integer-divide-by-zero',
                           '-fno-sanitize-recover=all'] + \
                          {'o0': ['-ftrivial-auto-var-init=zero'], 'oA': ['-ftrivial-auto-var-init=pattern'],
                           'oN': []}[kind] + base
                rc, o = run(cmd + ['-c', path, '-o', out], timeout=120, mem=0)
                ent[1] = (rc, out, o)
            rc, out, o = ent[1]
            if rc != 0:
                raise Exception('cannot compile %s: %s' % (path, o[-1500:]))
            return out

    def units(self, ob):
        defs = ['-D' + d for d in ob.defs] + ['-D%s=%s' % kv for kv in sorted(self.learned.items())]
        u = []
        for s in ob.srcs:
            p, fl = self.prep(s)
            u.append((p, fl))
        for h in ob.harness + ob.models + ['v.c']:
            u.append((os.path.join(H, h), defs))
        return u

    def build_gb(self, ob):
        objs = [self.compile1('gb', p, fl) for p, fl in self.units(ob)]
        out = os.path.join(self.dir, ob.name + '.goto')
        rc, o = run(['goto-cc', '--function', 'v_main'] + objs + ['-o', out], timeout=120, mem=0)
        if rc != 0:
            raise Exception('link %s: %s' % (ob.name, o[-1500:]))
        return out

    def build_native(self, ob, kind):
        out = os.path.join(self.dir, ob.name + '.' + kind)
        if os.path.exists(out):
            return out
        objs = [self.compile1(kind, p, fl) for p, fl in self.units(ob)]
        rc, o = run(['gcc', '-fsanitize=address,undefined'] + objs + ob.libs + ['-o', out], timeout=120, mem=0)
        if rc != 0:
            raise Exception('native link %s: %s' % (ob.name, o[-1500:]))
        return out

    def replay(self, ob, inputs, tag, want_reach=None):
        """-> (verdict, text): 'fail', 'ok', 'assume', 'hang'"""
        f = os.path.join(self.dir, '%s.%s.in' % (ob.name, tag))
        open(f, 'w').write('\n'.join(str(x) for x in inputs) + '\n')
        last = ('ok', '')
        for kind, fill in (('o0', 0), ('oA', 170), ('oA', 255), ('oN', 1)):
            exe = self.build_native(ob, kind)
            env = dict(os.environ, VERIF_INPUT=f,
                       ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:exitcode=99:max_malloc_fill_size=1000000:malloc_fill_byte=%d:abort_on_error=0:detect_stack_use_after_return=1' % fill,
                       UBSAN_OPTIONS='exitcode=99')
            rc, o = run([exe], timeout=ob.hang, env=env, mem=0)
            v = {0: 'ok', 77: 'assume', 'timeout': 'hang', 78: 'assume'}.get(rc, 'fail')
            last = (v, o[-3000:], f, 'VERIF_INPUT=%s ASAN_OPTIONS=%s %s' % (f, env['ASAN_OPTIONS'], exe))
            if want_reach is not None:
                if 'REPLAY-REACH ' + want_reach + '\n' in o:
                    return ('reach',) + last[1:]
            elif v in ('fail', 'hang'):
                return last
            if want_reach is None and v == 'assume':
                continue
        return last

    # ---- deciding --------------------------------------------------------
    def cbmc(self, ob, gb, mult=1):
        us = []
        if ob.unwindset:
            rc, o = run(['goto-instrument', '--show-loops', gb], timeout=60)
            for lid in re.findall(r'^Loop (\S+):', o, re.M):
                fn = lid.rsplit('.', 1)[0]
                for rx, n in ob.unwindset.items():
                    if re.fullmatch(rx, lid) or re.fullmatch(rx, fn):
                        us.append('%s:%d' % (lid, n * mult))
                        break
        out = os.path.join(self.dir, '%s.%d.out' % (ob.name, mult))
        cmd = ['cbmc', gb, '--function', 'v_main', '--no-standard-checks', '--no-malloc-may-fail',
               '--object-bits', str(ob.objbits), '--unwinding-assertions', '--drop-unused-functions',
               '--unwind', str(ob.unwind * mult), '--trace', '--verbosity', '8'] + \
              (['--unwindset', ','.join(us)] if us else []) + ob.flags
        t = time.time()
        rc, _ = run(cmd, timeout=min(int(os.environ.get('VERIF_TMO', ob.timeout)), max(1, self.deadline - t)), out=out)
        return rc, out, time.time() - t, ' '.join(cmd)

    @staticmethod
    def parse(out):
        res, traces, cur = {}, {}, None
        st = dict(steps=0, vars=0, clauses=0, solver_s=0.0, queries=0, symex_s=0.0)
        rr = re.compile(r'^\[(\S+)\] (?:line (\d+) )?(.*): (FAILURE|SUCCESS|UNKNOWN|ERROR)$')
        unw, final, curfile = set(), None, ''
        with open(out, encoding='latin1') as f:
            for l in f:
                l = l.rstrip('\n')
                if cur is not None:
                    if l.startswith('  verif_in='):
                        m = re.search(r'\(([01 ]+)\)$', l)    # the number itself may be dressed up
                        traces[cur].append(int(m.group(1).replace(' ', ''), 2) if m else 0)
                        continue
                if l.startswith('Trace for '):
                    cur = l[10:].rstrip(':'); traces[cur] = []
                    continue
                if l.startswith('['):
                    m = rr.match(l)
                    if m:
                        res[m.group(1)] = (m.group(3), m.group(4), m.group(2), curfile)
                    continue
                if ' function ' in l and l.startswith('/'):
                    curfile = l
                if l.startswith('size of program expression:'):
                    st['steps'] += int(l.split()[4])
                elif l.startswith('Runtime Solver:'):
                    st['solver_s'] += float(l.split()[2].rstrip('s')); st['queries'] += 1
                elif l.startswith('Runtime Symex:'):
                    st['symex_s'] += float(l.split()[2].rstrip('s'))
                elif ' variables, ' in l:
                    m = re.match(r'(\d+) variables, (\d+) clauses', l)
                    if m:
                        st['vars'] = max(st['vars'], int(m.group(1))); st['clauses'] = max(st['clauses'], int(m.group(2)))
                elif l.startswith('VERIFICATION '):
                    final = l
        return res, traces, st, final

    def decide(self, ob):
        r = dict(name=ob.name, status='?', detail='', unwind=ob.unwind, reach=[], props=0, about=ob.about)
        if STOP.is_set():
            r['status'] = 'skipped'
            return r
        if time.time() > self.deadline:
            r['status'] = 'inconclusive'; r['detail'] = 'out of time'
            return r
        try:
            gb = self.build_gb(ob)
            mult = 1
            while True:
                rc, out, wall, cmd = self.cbmc(ob, gb, mult)
                if STOP.is_set() and rc not in (0, 10):
                    r['status'] = 'skipped'
                    return r
                r['cmd'] = cmd; r['wall_s'] = round(wall, 2)
                if rc == 'timeout' or rc not in (0, 10):
                    tail = open(out, encoding='latin1').read()[-600:]
                    r['status'] = 'inconclusive'; r['detail'] = 'cbmc rc=%s %s' % (rc, tail)
                    return r
                res, traces, st, final = self.parse(out)
                r.update(st); r['props'] = len(res)
                r['functions'] = self.functions(out)
                if not final or not res:
                    r['status'] = 'inconclusive'; r['detail'] = 'no result from cbmc'
                    return r
                bad = [(n, d) for n, (d, s, _, _) in res.items() if s == 'FAILURE' and not d.startswith('REACH ')]
                viol = [(n, d) for n, d in bad if '.unwind.' not in n and '.no-body.' not in n and '.recursion' not in n]
                unw = [(n, d) for n, d in bad if '.unwind.' in n or '.recursion' in n]
                nob = [(n, d) for n, d in bad if '.no-body.' in n]
                tried = []
                for i, (n, d) in enumerate(viol[:6]):
                    v = self.replay(ob, traces.get(n, []), 'cex%d' % i)
                    tried.append((n, d, v[0]))
                    if v[0] in ('fail', 'hang'):
                        r['status'] = 'violation'
                        r['detail'] = '%s: %s [%s]' % (ob.name, d, n)
                        r['replay'] = dict(inputs=traces[n], outcome=v[0], output=v[1], input_file=v[2], cmd=v[3])
                        return r
                if unw and mult < 4 and ob.unwind * mult * 2 <= ob.cap:
                    mult *= 2
                    r['unwind'] = ob.unwind * mult
                    continue
                if unw:
                    for i, (n, d) in enumerate(unw[:3]):
                        v = self.replay(ob, traces.get(n, []), 'unw%d' % i)
                        tried.append((n, d, v[0]))
                        if v[0] in ('fail', 'hang'):
                            r['status'] = 'violation'
                            r['detail'] = '%s: %s [%s]' % (ob.name, 'does not terminate' if v[0] == 'hang' else d, n)
                            r['replay'] = dict(inputs=traces[n], outcome=v[0], output=v[1], input_file=v[2], cmd=v[3])
                            return r
                if viol or unw or nob:
                    for i, (n, d) in enumerate(nob[:2]):
                        v = self.replay(ob, traces.get(n, []), 'nob%d' % i)
                        tried.append((n, d, v[0]))
                    r['status'] = 'inconclusive'; r['detail'] = 'not reproduced natively or bound too small: %r' % (tried or bad)
                    return r
                break
            # vacuity
            nreach = 0
            for n, (d, s, _, _) in res.items():
                if not d.startswith('REACH '):
                    continue
                nreach += 1
                if s != 'FAILURE':
                    r['status'] = 'inconclusive'; r['detail'] = 'vacuous: %s unreachable' % d
                    return r
                v = self.replay(ob, traces.get(n, []), 'reach%d' % nreach, want_reach=d[6:])
                if v[0] != 'reach':
                    r['status'] = 'inconclusive'
                    r['detail'] = 'witness for %s not reproduced natively: %s %s' % (d, v[0], v[1][-800:])
                    return r
                r['reach'].append(dict(name=d[6:], inputs=traces[n][:64]))
            if not nreach:
                r['status'] = 'inconclusive'; r['detail'] = 'no REACH in the harness was encoded'
                return r
            r['status'] = 'ok'
            for f in os.listdir(self.dir):
                if f.startswith(ob.name + '.') and not f.endswith('.in'):
                    try: os.unlink(os.path.join(self.dir, f))
                    except OSError: pass
            return r
        except Exception as e:
            r['status'] = 'inconclusive'; r['detail'] = str(e)[-1500:]
            return r

    @staticmethod
    def functions(out):
        fs = set()
        with open(out, encoding='latin1') as f:
            for l in f:
                m = re.match(r'^(/\S+) function (\S+)$', l.rstrip('\n'))
                if m and '/verif/h/' not in m.group(1) and (REPO in m.group(1) or '/build/' in m.group(1)):
                    fs.add(re.sub(r'^[0-9a-f]{8}-', '', os.path.basename(m.group(1))) + ':' + m.group(2))
        return sorted(fs)

    def learn(self):
        """concretely learn the parser's private state codes from the real code"""
        self.learned = {}
        o = os.path.join(self.dir, 'learn')
        srcs = [os.path.join(REPO, 'libtty', x) for x in ('tty.c', 'charsets.c', 'wcwidth.c')]
        rc, t = run(['gcc', '-w', '-std=gnu11'] + self.incs + [os.path.join(H, 'learn.c')] + srcs + ['-o', o], timeout=120, mem=0)
        if rc != 0:
            raise Exception('learn: ' + t)
        rc, t = run([o], timeout=20)
        if rc != 0:
            raise Exception('learn run: %s %s' % (rc, t))
        self.learned = dict(x.split('=') for x in t.split())

    # ---- the whole check -------------------------------------------------
    def main(self, obs, assumptions=(), bounds='', explanation=''):
        known = self.known()
        only = os.environ.get('VERIF_ONLY')
        if only:
            obs = [o for o in obs if re.search(only, o.name)]
        results, violations = [], []
        obs = sorted(obs, key=lambda o: -getattr(o, 'prio', 0))
        ex = ThreadPoolExecutor(JOBS)
        futs = [ex.submit(self.decide, o) for o in obs]
        knownhit = []
        for f in as_completed(futs):
            r = f.result()
            results.append(r)
            if os.environ.get('VERIF_V'):
                print('  %-28s %-12s %6.1fs solver %6.1fs steps %7d vars %8d  %s' % (
                    r['name'], r['status'], r.get('wall_s', 0), r.get('solver_s', 0), r.get('steps', 0), r.get('vars', 0), r['detail'][:600]), flush=True)
            if r['status'] == 'violation':
                k = [e for e in known if re.search(e, r['detail'])]
                if k:
                    knownhit.append((r, k[0]))
                    continue
                violations.append(r)
                if not os.environ.get('VERIF_ALL'):
                    STOP.set()
                    with PLOCK:
                        for p in list(PROCS):
                            killpg(p)
                    break
        ex.shutdown(wait=True, cancel_futures=True)
        self.evidence(results, violations, assumptions, bounds, explanation)
        for r, k in knownhit:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, r['detail']))
        rc = 0
        for r in violations[:1]:
            rp = os.path.join(VERIF, 'replays')
            os.makedirs(rp, exist_ok=True)
            rp = os.path.join(rp, '%s-%s.txt' % (self.prop, r['name']))
            with open(rp, 'w') as f:
                f.write('property %s\nobligation %s\nviolated %s\n' % (self.prop, r['name'], r['detail']))
                f.write('symbolic inputs, in the order the harness draws them: %s\n' % r['replay']['inputs'])
                f.write('reproduce: %s\noutcome: %s\n%s\n' % (r['replay']['cmd'], r['replay']['outcome'], r['replay']['output']))
            print('violated: %s' % r['detail'])
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            rc = 1
        if not rc:
            # undecided obligations are not claimed (the evidence lists them); if
            # little is left, there is no answer
            inc = [r for r in results if r['status'] not in ('ok',) and not any(r is k[0] for k in knownhit)]
            for r in inc:
                print('UNDECIDED %s: %s' % (r['name'], r['detail']))
            if len(inc) * 2 > len(results) or not results:
                rc = 2
        n = len(results)
        print('%s %s: %d obligations, %d ok, %.1fs' % (self.prop, TIER, n, sum(r['status'] == 'ok' for r in results), time.time() - self.t0))
        if rc == 0 and not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)
        return rc

    def known(self):
        """regexes (on the violation detail) of listed findings of this property"""
        k = []
        fn = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(fn):
            for l in open(fn):
                m = re.match(r'known: property=(\S+) /(.*)/', l)
                if m and m.group(1) == self.prop:
                    k.append(m.group(2))
        return k

    def evidence(self, results, violations, assumptions, bounds, explanation):
        ok = [r for r in results if r['status'] == 'ok']
        fn = sorted({f for r in results for f in r.get('functions', [])})
        samples = []
        for r in ok[:6]:
            for x in r['reach'][:1]:
                samples.append(dict(obligation=r['name'], reach=x['name'], witness_inputs=x['inputs'],
                                    about=r['about']))
        if not samples:
            samples = [dict(obligation=r['name'], status=r['status'], detail=r['detail'][:300]) for r in results[:3]]
        cov = dict(
            explanation=explanation + ' | Bounded symbolic model checking (CBMC): "states" counts propositional '
                'variables of the encodings (each encodes all states at once), "transitions" counts SSA steps of the '
                'encoded real code + harness, "traces_validated_against_impl" counts solver witnesses replayed on the '
                'natively compiled real code with the outcome the solver predicted.',
            states=sum(r.get('vars', 0) for r in results),
            transitions=sum(r.get('steps', 0) for r in results),
            traces_validated_against_impl=sum(len(r['reach']) for r in ok) + len(violations),
            samples=samples,
            obligations=len(results), discharged=len(ok),
            assertions_decided=sum(r.get('props', 0) for r in ok),
            solver_queries=sum(r.get('queries', 0) for r in results),
            solver_seconds=round(sum(r.get('solver_s', 0) for r in results), 2),
            symex_seconds=round(sum(r.get('symex_s', 0) for r in results), 2),
            sat_clauses=sum(r.get('clauses', 0) for r in results),
            functions_encoded=fn, bounds=bounds,
            per_obligation=[dict(name=r['name'], status=r['status'], about=r['about'], unwind=r['unwind'],
                                 assertions=r.get('props', 0), queries=r.get('queries', 0),
                                 solver_s=round(r.get('solver_s', 0), 2), wall_s=r.get('wall_s', 0),
                                 steps=r.get('steps', 0), variables=r.get('vars', 0), undecided='' if r['status'] == 'ok' else r['detail'][:200]) for r in sorted(results, key=lambda r: r['name'])],
            notes=self.notes)
        ev = dict(property=self.prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED,
                  level=self.level, coverage=cov, assumptions=list(assumptions),
                  wall_s=round(time.time() - self.t0, 2), violations=len(violations))
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + '.json'), 'w'), indent=1)

INTS = ['--cvc5', '--external-smt2-solver', os.path.join(VERIF, 'lib', 'cvc5-int')]
CADICAL = ['--sat-solver', 'cadical']
PATHS = ['--paths', 'lifo']     # one path at a time: for parsers, where merged paths would make all positions symbolic
