"""Common machinery of the checks: TLC runs, conformance runs against the real code, evidence, verdicts."""
import json, os, re, subprocess, sys, tempfile, time, random, hashlib, shutil
import build as B, drv

VERIF = B.VERIF
SPEC = VERIF + '/spec'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
FINDINGS = VERIF + '/KNOWN_FINDINGS.json'


class CheckError(Exception):
    pass


def sha(x):
    return hashlib.sha1((x if isinstance(x, str) else json.dumps(x, sort_keys=True)).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


class Ctx:
    def __init__(self, pid, replay=None):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED') or 1)
        self.tier = os.environ.get('VERIF_TIER') or 'quick'
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random(f'{pid}/{self.seed}')
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f'mxv-{pid}-')
        self.states = self.transitions = self.traces = 0
        self.cov = {}
        self.samples = []
        self.rejected = []
        self.known = []
        self.assumptions = []
        self.replay = replay
        self.n = 0
        self.splits = 0
        self.allfindings = [f for f in (json.load(open(FINDINGS)) if os.path.exists(FINDINGS) else []) if f['property'] == pid]

    def log(self, *a):
        print(f'[{time.time() - self.t0:6.1f}s]', *a, flush=True)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # --- building
    def exe(self, **kw):
        p = B.build(**kw)
        self.log('built', os.path.relpath(p, VERIF))
        return p

    # --- TLC
    def tlc(self, module, cfg, env=None, workers=8, simulate=None, depth=100, timeout=600, fatal=True, jvm=(), heap='6g'):
        """cfg: text of the configuration. Returns the output text. Counts states and transitions."""
        self.n += 1
        d = f'{self.tmp}/tlc{self.n}'
        os.makedirs(d)
        with open(f'{d}/M.cfg', 'w') as f: f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', f'-Djava.io.tmpdir={d}', *jvm, '-cp', JAR, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', d + '/meta',
               '-config', f'{d}/M.cfg', '-workers', str(workers)]
        if simulate: cmd += ['-simulate', f'num={simulate}', '-depth', str(depth), '-seed', str(self.seed)]
        cmd += [module]
        e = dict(os.environ); e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise CheckError(f'TLC did not finish {module} in {timeout} s\n' + (x.stdout or b'')[-800:].decode('utf-8', 'replace'))
        out = p.stdout.decode('utf-8', 'replace')
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if not m: m = [(a, a) for a in re.findall(r'The number of states generated: ([\d,]+)', out)]
        if not m: m = [(a, a) for a in re.findall(r'([\d,]+) states checked', out)]
        if m:
            g, s = (int(x.replace(',', '')) for x in m[-1])
            self.states += s; self.transitions += g
        ok = p.returncode == 0 and 'Error:' not in out
        if not ok and fatal:
            raise CheckError(f'TLC failed on {module} (exit {p.returncode})\n' + '\n'.join([l for l in out.splitlines() if not l.startswith('<<"')][-60:])[-5000:])
        shutil.rmtree(d, ignore_errors=True)
        return out

    def model(self, module, cfg, name=None, **kw):
        """Exhaustive check of the specification itself. A failure is an error of the check, not of the code."""
        s, t = self.states, self.transitions
        self.tlc(module, cfg, **kw)
        self.cov.setdefault('model_runs', []).append({'module': module, 'name': name or module, 'states': self.states - s, 'transitions': self.transitions - t})
        self.log(f'model {name or module}: {self.states - s} distinct states, {self.transitions - t} generated')

    def emitted(self, out, tag='EMIT'):
        """JSON values printed by a specification as <<"EMIT", "...">>"""
        r = []
        for l in out.splitlines():
            if l.startswith(f'<<"{tag}", '):
                r.append(json.loads(json.loads(l[len(f'<<"{tag}", '):-2])))
        return r

    def validate(self, module, cases, cfg=None, env=None, chunk=4000, **kw):
        """TLC decides for every case whether the specification allows it. Returns the indices it does not accept."""
        bad = []
        cfg = cfg or 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n'
        for o in range(0, len(cases), chunk):
            part = cases[o:o + chunk]
            self.n += 1
            f = f'{self.tmp}/cases{self.n}.ndjson'
            with open(f, 'w') as h:
                for c in part: h.write(json.dumps(c, ensure_ascii=True) + '\n')
            out = self.tlc(module, cfg, env={**(env or {}), 'CASES': f}, fatal=False, **kw)
            okc = {int(x) for x in re.findall(r'<<"OK", (\d+)>>', out)}
            if 'Error:' in out or 'Model checking completed' not in out:
                # the specification cannot even be evaluated on some observation: find which
                if not re.search(r'Attempted|attempted|not a valid|evaluat|not in the domain|nonexistent|non-enumerable', out):
                    raise CheckError(f'TLC failed on {module}\n' + out[-4000:])
                rest = [k for k in range(len(part)) if k + 1 not in okc]
                if len(part) == 1: bad.append(o)
                elif self.splits > 60: bad += [o + k for k in rest]
                else:
                    self.splits += 1
                    h = (len(rest) + 1) // 2
                    for half in (rest[:h], rest[h:]):
                        if half: bad += [o + half[q] for q in self.validate(module, [part[k] for k in half], cfg, env, chunk, **kw)]
            else:
                bad += [o + k for k in range(len(part)) if k + 1 not in okc]
            os.remove(f)
        return bad

    def explain(self, module, case, cfg=None, env=None, lines=60):
        """how far the specification follows one case"""
        f = f'{self.tmp}/explain.ndjson'
        with open(f, 'w') as h: h.write(json.dumps(case) + '\n')
        out = self.tlc(module, cfg or 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n', env={**(env or {}), 'CASES': f, 'VERBOSE': '1'}, workers=1, fatal=False)
        ls = out.splitlines()
        ls = [l for l in ls if not re.match(r'(Starting|Computing|Finished|Parsing|Semantic|TLC2|Running|Linting|Warning|Model checking|  calculated|  based|\\d+ states|The depth|The average|Progress|Implied|Finding)', l)]
        return ls[-lines:]

    # --- conformance
    def conform(self, module, items, to_case, exe=None, key=None, cfg=None, env=None, drvargs=None, label=None, chunk=4000, cwd=None, **kw):
        """items: [{'script': ..., ...}]. Each script is executed by the real code, to_case(item, result) turns what was
        observed into a case of the trace specification `module`; TLC accepts or rejects it."""
        if not items: raise CheckError('nothing to execute')
        if self.replay:
            mine = [i for i in self.replay if i['module'] == module and i.get('label') == label]
            items = [i['item'] for i in mine]
            if not items: return
        exe = exe or self.exe()
        res = drv.run(exe, [i['script'] for i in items], **(drvargs or {}))
        cases = [to_case(i, r) for i, r in zip(items, res)]
        self.log(f'{label or module}: executed {len(items)} scripts')
        bad = self.validate(module, cases, cfg, env, chunk, **kw)
        self.log(f'{label or module}: validated, {len(bad)} not accepted')
        self.traces += len(items)
        self.cov.setdefault('conformance_runs', []).append({'module': module, 'label': label or module, 'cases': len(items), 'rejected': len(bad),
                                                            'distinct_cases': len({sha(c) for c in cases})})
        if cases:
            k = self.rng.randrange(len(cases))
            self.samples.append({'module': module, 'item': trim(items[k]), 'case': trim(cases[k])})
        if bad:
            # a rejection counts when it repeats; known findings are told apart first
            fks = {k: key(items[k], cases[k]) if key else items[k].get('key') for k in bad}
            old = [k for k in bad if self.finding(fks[k])]
            for k in old: self.known.append(self.finding(fks[k]))
            self.cov['conformance_runs'][-1]['known_findings'] = len(old)
            b2 = [k for k in bad if not self.finding(fks[k])][:400]
            if not b2: return cases, bad
            res2 = drv.run(exe, [items[k]['script'] for k in b2], **(drvargs or {}))
            cases2 = [to_case(items[k], r) for k, r in zip(b2, res2)]
            again = self.validate(module, cases2, cfg, env, chunk, **kw)
            for q in again:
                k = b2[q]
                fk = key(items[k], cases2[q]) if key else items[k].get('key')
                self.reject(module, label, items[k], cases2[q], res2[q], fk, cfg, env)
        return cases, bad

    def finding(self, fk):
        """the known finding with a key"""
        if fk is not None:
            for f in self.allfindings:
                if f.get('status', 'open') == 'open' and fk in f.get('keys', [f.get('key')]): return f

    def reject(self, module, label, item, case, result, fk, cfg=None, env=None):
        f = self.finding(fk)
        if f: self.known.append(f); return
        self.rejected.append({'module': module, 'label': label, 'item': item, 'case': case, 'result': result, 'cfg': cfg, 'env': env, 'key': fk})

    # --- verdict
    def finish(self):
        viol = 0
        seen = set()
        for f in self.known:
            if f['id'] in seen: continue
            seen.add(f['id'])
            print(f'KNOWN-FINDING: property={self.pid} {f["what"]}')
        d = VERIF + '/evidence/replay'
        os.makedirs(d, exist_ok=True)
        by = {}
        for r in self.rejected: by.setdefault((r['module'], r['label']), []).append(r)
        for rs in by.values():
            rs.sort(key=lambda r: len(json.dumps(r['case'])))
            for r in rs[:3]:
                viol += 1
                path = f'{d}/{self.pid}-{viol}.json'
                try: why = self.explain(r['module'], r['case'], r['cfg'], r['env'])
                except Exception as e: why = [str(e)[-2000:]]
                with open(path, 'w') as h: json.dump({'property': self.pid, **r, 'specification_followed_it_to': why}, h, indent=1)
                print(f'VIOLATION property={self.pid} replay={path}', flush=True)
                print('   ', (r['label'] or r['module']), 'key', r.get('key'), '; the specification followed it to:', ' '.join(why)[-500:], flush=True)
        self.cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples[:6])
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': self.cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.rejected)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        if not self.replay:
            with open(f'{VERIF}/evidence/{self.pid}.json', 'w') as h: json.dump(ev, h, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        self.log(f'{self.pid}: {len(self.rejected)} rejected, {self.traces} traces, {self.states} states')
        return 1 if self.rejected else 0


def trim(x, n=3000):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + '...'
