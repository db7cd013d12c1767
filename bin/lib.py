"""Shared machinery of the checks: build, run the harness against /repo, run TLC, report."""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(V, 'build')
SPEC = os.path.join(V, 'spec')
TLAJAR = '/opt/veriftools/tla/tla2tools.jar'
CMJAR = '/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    pass


def env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith('CARGO_') and k not in ('RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTDOCFLAGS', 'JAVA_TOOL_OPTIONS')}
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='1.70.0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    return e


class Ctx:
    def __init__(self, pid, tier, seed, replay=None):
        self.pid, self.tier, self.seed, self.replay = pid, tier, seed, replay
        self.thorough = tier == 'thorough'
        self.rng = random.Random(f'{pid}-{seed}')
        self.dir = os.path.join(BUILD, pid)
        os.makedirs(self.dir, exist_ok=True)
        self.t0 = time.time()
        self.viol = []
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.notes = []

    # ------------------------------------------------------------- building
    def build(self, crate='harness', bin_='hv', features=()):
        cmd = ['cargo', 'build', '--offline', '--quiet', '--bin', bin_]
        if features:
            cmd += ['--features', ','.join(features)]
        r = subprocess.run(cmd, cwd=os.path.join(V, crate), env=env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError('build failed:\n' + r.stderr[-3000:])
        self.bin = os.path.join(V, crate, 'target', 'debug', bin_)
        self.classes()

    def classes(self):
        out = os.path.join(BUILD, 'classes')
        if not os.path.isdir(out) or any(
                os.path.getmtime(os.path.join(SPEC, 'java', f)) > os.path.getmtime(out) for f in os.listdir(os.path.join(SPEC, 'java'))):
            tmp = out + f'.{os.getpid()}'
            os.makedirs(tmp, exist_ok=True)
            src = [os.path.join(SPEC, 'java', f) for f in os.listdir(os.path.join(SPEC, 'java')) if f.endswith('.java')]
            r = subprocess.run(['javac', '-cp', f'{TLAJAR}:{CMJAR}', '-d', tmp] + src, capture_output=True, text=True)
            if r.returncode != 0:
                raise ToolError('javac failed:\n' + r.stderr)
            if os.path.isdir(out):
                shutil.rmtree(out)
            os.rename(tmp, out)

    # ------------------------------------------------------------- harness
    def _one(self, cmd, cases, name, timeout, threads):
        i = os.path.join(self.dir, f'{name}.in.json')
        o = os.path.join(self.dir, f'{name}.out.json')
        with open(i, 'w') as f:
            json.dump(cases, f)
        if os.path.exists(o):
            os.remove(o)
        e = env()
        if threads:
            e['RAYON_NUM_THREADS'] = str(threads)
        try:
            r = subprocess.run([self.bin, cmd, i, o], env=e, capture_output=True, text=True, timeout=timeout)
            rc, err = r.returncode, r.stderr[-600:]
        except subprocess.TimeoutExpired:
            rc, err = 'timeout', ''
        if rc == 0 and os.path.exists(o):
            with open(o) as f:
                return json.load(f)
        if len(cases) == 1:
            return [{'id': cases[0].get('id'), 'crash': f'{"did not finish in %ds" % timeout if rc == "timeout" else f"process ended with {rc}"} {err}'}]
        mid = len(cases) // 2
        t2 = max(30, timeout // 2) if rc == 'timeout' else timeout
        return self._one(cmd, cases[:mid], name + 'a', t2, threads) + self._one(cmd, cases[mid:], name + 'b', t2, threads)

    def harness(self, cmd, cases, name='h', jobs=NCPU, timeout=240, threads=1):
        """Run cases (each a dict with an id) through the harness, in parallel processes."""
        if not cases:
            return []
        jobs = max(1, min(jobs, len(cases)))
        chunks = [cases[j::jobs] for j in range(jobs)]
        with cf.ThreadPoolExecutor(jobs) as ex:
            outs = list(ex.map(lambda a: self._one(cmd, a[1], f'{name}{a[0]}', timeout, threads), enumerate(chunks)))
        res = [None] * len(cases)
        for j, o in enumerate(outs):
            for i, x in enumerate(o):
                res[j + i * jobs] = x
        return res

    # ------------------------------------------------------------- TLC
    def tlc(self, module, cfg, data=None, name=None, workers=2, timeout=600, simulate=None, heap='4g', extra=(), soft=False):
        """Run TLC on spec/<module>.tla; data = {file: json-able} is put in its directory.
        Returns dict with states, distinct, prints (tuples printed with PrintT), rejects, violated."""
        name = name or module
        d = os.path.join(self.dir, 'tlc_' + name)
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(('.tla', '.json')):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        if module in ('FieldCheck', 'CircCheck', 'PoseidonCheck', 'ForcedCheck'):
            m = module[:-5]         # a copy of the definitions under a name that has no overrides
            s = open(os.path.join(SPEC, m + '.tla')).read().replace(f'MODULE {m} ', f'MODULE {m}Def ')
            open(os.path.join(d, m + 'Def.tla'), 'w').write(s)
        for f, x in (data or {}).items():
            with open(os.path.join(d, f), 'w') as fh:
                if f.endswith('.ndjson'):
                    for l in x:
                        fh.write(json.dumps(l) + '\n')
                else:
                    json.dump(x, fh)
        with open(os.path.join(d, module + '.cfg'), 'w') as fh:
            fh.write(cfg)
        cmd = ['java', f'-Xmx{heap}', '-Xss256m', '-XX:+UseParallelGC', '-cp', f'{BUILD}/classes:{TLAJAR}:{CMJAR}', 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(d, 'states'), '-nowarning', '-config', module + '.cfg']
        if simulate:
            cmd += ['-simulate', f'num={simulate[0]}', '-depth', str(simulate[1]), '-seed', str(self.seed)]
        cmd += list(extra) + [module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=d, env=env(), capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f'TLC timed out on {name}')
        out = r.stdout
        open(os.path.join(d, 'out.txt'), 'w').write(out + r.stderr)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if simulate:
            m = re.findall(r'(?:The number of states generated: |Progress: )([\d,]+)', out)
            if m:
                gen = dist = int(m[-1].replace(',', ''))
        violated = re.findall(r'Error: (?:Invariant|Action property|Temporal properties|Property) (\w+) (?:is|was)', out)
        prints = [eval(l) for l in out.splitlines() if re.match(r'^"[A-Z]+\|.*"$', l)]
        rej = [p for p in prints if p.startswith('REJECT|')]
        ok = 'Model checking completed. No error has been found.' in out or (simulate and r.returncode == 0)
        if not ok and not violated:
            if soft and re.search(r'Error: (?:TLC threw|Evaluating|Attempted|In computing|The |Applying|Could)', out) and 'OutOfMemory' not in out and 'StackOverflow' not in out:
                return dict(gen=gen, distinct=dist, prints=prints, rejects=rej, violated=[], out=out, dir=d, broken=True)
            raise ToolError(f'TLC failed on {name} (rc {r.returncode}), see {d}/out.txt:\n' + out[-2500:] + r.stderr[-500:])
        self.states += dist
        self.transitions += gen
        shutil.rmtree(os.path.join(d, 'states'), ignore_errors=True)
        return dict(gen=gen, distinct=dist, prints=prints, rejects=rej, violated=violated, out=out, dir=d)

    def tlc_cases(self, module, cases, cfg=None, jobs=4, workers=2, heap='3g', name=None, timeout=700):
        """Split the cases over parallel TLC runs of a trace-validation module.  The module reads
        cases.json and prints <<"REJECT", id, reason>> for each case it does not accept, and
        <<"ACCEPT", n>> is not needed: acceptance is counted as cases minus rejected ones."""
        cfg = cfg or 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
        if not cases:
            return []
        jobs = max(1, min(jobs, (len(cases) + 3) // 4))
        parts = [cases[j::jobs] for j in range(jobs)]
        def go(a):
            return self.tlc(module, cfg, {'cases.json': a[1]}, name=f'{name or module}_{a[0]}', workers=workers, heap=heap, timeout=timeout, soft=True)
        with cf.ThreadPoolExecutor(jobs) as ex:
            rs = list(ex.map(go, enumerate(parts)))
        rej = []
        for r in rs:
            r['done'] = {p.split('|')[1] for p in r['prints'] if p.startswith('DONE|')}
            for p in r['rejects']:
                _, i, why = p.split('|', 2)
                rej.append((int(i), why))
        want = {str(c['id']) for c in cases}
        done = set().union(*[r['done'] for r in rs])
        missing = want - done - {str(i) for i, _ in rej}
        if missing and any(r.get('broken') for r in rs):
            # the specification could not even be evaluated on some recording: find which
            left = [c for c in cases if str(c['id']) in missing][:120]

            def one(a):
                return a[1], self.tlc(module, cfg, {'cases.json': [a[1]]}, name=f'{name or module}_one{a[0]}', workers=1, heap=heap, timeout=timeout, soft=True)
            with cf.ThreadPoolExecutor(8) as ex:
                rs = list(ex.map(one, enumerate(left)))
            n = 0
            for c, r in rs:
                for p in r['rejects']:
                    _, i, why = p.split('|', 2)
                    rej.append((int(i), why))
                if r.get('broken'):
                    n += 1
                    if n <= 3:
                        m = re.search(r'Error: (.*(?:\n.*){0,7})', r['out'])
                        rej.append((c['id'], '0: the recording has no meaning in the specification: ' + m.group(1)[-300:]))
            if n:
                missing = set()
        if missing:
            raise ToolError(f'{module}: cases neither accepted nor rejected: {sorted(missing)[:5]}')
        self.traces += len(cases)
        return rej

    # ------------------------------------------------------------- reporting
    def violation(self, what, payload=None):
        self.viol.append((what, payload))

    def known(self):
        f = os.path.join(V, 'known_findings.txt')
        out = []
        if os.path.exists(f):
            for l in open(f):
                m = re.match(r'known: property=(\w+) key=(\S+) (.*)', l.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self, level='model_checking', assumptions=()):
        known = self.known()
        hit, real = set(), []
        for w, p in self.viol:
            k = next((k for k, _ in known if k in w), None)
            if k:
                hit.add(k)
            else:
                real.append((w, p))
        for k, t in known:
            print(f'KNOWN-FINDING: property={self.pid} {t}')
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples[:4])
        cov.update(self.extra)
        if level != 'model_checking':
            cov.setdefault('evaluations', self.traces)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 1), violations=len(real))
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if real:
            rd = os.path.join(BUILD, 'replay')
            os.makedirs(rd, exist_ok=True)
            for n, (w, p) in enumerate(real[:5]):
                path = os.path.join(rd, f'{self.pid}_{n}.json')
                with open(path, 'w') as f:
                    json.dump(dict(property=self.pid, what=w, payload=p, seed=self.seed, tier=self.tier,
                                   rerun=f'VERIF_SEED={self.seed} VERIF_TIER={self.tier} bin/check {self.pid}'), f, indent=1)
                print(f'# {w[:400]}')
                print(f'VIOLATION property={self.pid} replay={path}')
            return 1
        print(f'OK property={self.pid} states={self.states} transitions={self.transitions} traces={self.traces} wall={ev["wall_s"]}s')
        return 0


def specprog(p):
    """The program with every assigned value as a list ([v] or [num, den]), as the modules read it."""
    w = lambda v: v if isinstance(v, list) else [v]
    pos = {'fix': 3, 'advc': 3, 'cc': 2}
    def act(a):
        a = list(a)
        if a[0] == 'adv':
            a[3] = [w(v) for v in a[3]]
        elif a[0] in pos:
            a[pos[a[0]]] = w(a[pos[a[0]]])
        return a
    def op(o):
        o = dict(o)
        if o['op'] == 'region':
            o['acts'] = [act(a) for a in o['acts']]
        elif o['op'] == 'table':
            o['cells'] = [[c, r, w(v)] for c, r, v in o['cells']]
        return o
    return dict(p, ops=[op(o) for o in p['ops']])
