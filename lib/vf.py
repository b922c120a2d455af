"""Shared machinery: run TLC, run the code under test in worker processes,
project results to integers, validate recorded traces, report.

Exit codes: 0 held, 1 violation (with VIOLATION line), 2 machinery failure."""
import importlib, json, math, os, re, shutil, subprocess, sys, tempfile, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
FINDINGS = os.path.join(VERIF, 'known_findings.txt')


class MachineryError(Exception):
    pass


# ------------------------------------------------------------------ projection
LIM = 1 << 30


def fx(v, S):
    """float -> fixed point integer (scale S), None-safe; NaN/inf -> LIM marker"""
    try:
        v = float(v)
    except Exception:
        return LIM
    if v != v or v in (float('inf'), float('-inf')):
        return LIM
    r = int(round(v * S))
    return max(-LIM, min(LIM, r))


def fxa(a, S):
    """array (any dimension) -> nested lists of fixed point integers (real part)"""
    import numpy as np
    a = np.asarray(a)
    if np.iscomplexobj(a):
        a = a.real
    a = a.astype(np.float64)
    with np.errstate(all='ignore'):
        b = np.round(a * S)
    b = np.where(np.isfinite(b), b, LIM)
    b = np.clip(b, -LIM, LIM).astype(np.int64)
    return b.tolist()


def fxc(a, S):
    import numpy as np
    a = np.asarray(a)
    im = a.imag if np.iscomplexobj(a) else np.zeros(a.shape)
    return {'re': fxa(a.real, S), 'im': fxa(im, S)}


# ------------------------------------------------------------------ TLC
def _err(out):
    i = out.find('Parse Error')
    if i < 0:
        i = out.find('Semantic errors')
    if i >= 0:
        return out[i:i + 900]
    keep = [l for l in out.splitlines() if not l.startswith(('Parsing file', 'Semantic processing'))]
    return '\n'.join(keep)[-3500:]


def tlc(module, cfg, env=None, workers=1, timeout=800, extra=(), mem='6g', workdir=None):
    """Runs TLC on spec/<module>.tla with configuration text cfg.
    Returns (stdout, stats). Raises MachineryError unless TLC finished without error."""
    d = tempfile.mkdtemp(prefix='vf_tlc_')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        with open(os.path.join(d, 'M.cfg'), 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss512m', '-Djava.io.tmpdir=' + d, '-cp', CP, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
               '-config', 'M.cfg', *extra, module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True)
        except subprocess.TimeoutExpired:
            raise MachineryError(f'TLC timeout on {module}')
        out = p.stdout
        if p.returncode != 0:
            err = MachineryError(f'TLC failed on {module} rc={p.returncode}\n' + _err(out))
            err.out = out
            raise err
        st = {}
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        if m:
            st['generated'] = int(m[-1][0].replace(',', ''))
            st['distinct'] = int(m[-1][1].replace(',', ''))
        else:
            m = re.findall(r'The number of states generated: ([\d,]+)', out)
            if m:
                st['generated'] = st['distinct'] = int(m[-1].replace(',', ''))
        return out, st
    finally:
        shutil.rmtree(d, ignore_errors=True)


def printed_json(out, tag='CASE'):
    """JSON values printed by PrintT(<<"CASE", ToJson(..)>>)"""
    res = []
    pat = re.compile(r'^<<"%s", "(.*)">>$' % tag)
    for line in out.splitlines():
        m = pat.match(line.strip())
        if m:
            s = m.group(1).replace('\\"', '"').replace('\\\\', '\\')
            res.append(json.loads(s))
    return res


# ------------------------------------------------------------------ workers
def _worker(conn, modname, extra_env):
    os.environ.update(extra_env)
    sys.path.insert(0, VERIF)
    import warnings
    warnings.filterwarnings('ignore')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    try:
        mod = importlib.import_module(modname)
        import cr.sparse
        src = os.path.realpath(cr.sparse.__file__)
        if not src.startswith(os.path.realpath(REPO) + '/'):
            conn.send(('fatal', f'cr.sparse imported from {src}'))
            return
        conn.send(('ready', None))
    except BaseException:
        conn.send(('importerror', traceback.format_exc()))
        return
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        i, case = msg
        try:
            evs = mod.run_case(case)
            conn.send(('ok', i, evs))
        except BaseException:
            conn.send(('exc', i, traceback.format_exc()))


def run_cases(modname, cases, nproc=None, case_timeout=150, env=None, budget=None):
    """Executes run_case(case) for every case in worker processes. Returns list of
    ('ok', events) | ('exc', text). A worker that dies or hangs yields 'exc'."""
    nproc = nproc or min(8, os.cpu_count() or 4)
    nproc = max(1, min(nproc, len(cases)))
    extra = {'JAX_PLATFORMS': 'cpu', 'MPLBACKEND': 'Agg', 'HOME': os.environ.get('HOME', '/root'),
             'PYTHONDONTWRITEBYTECODE': '1', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
             'XLA_FLAGS': '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
             'TF_CPP_MIN_LOG_LEVEL': '3'}
    extra.update(env or {})
    os.environ.update(extra)
    ctx = mp.get_context('spawn')
    results = [None] * len(cases)
    nxt = 0
    done = 0

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, modname, extra), daemon=True)
        p.start()
        b.close()
        return {'p': p, 'c': a, 'i': None, 't': time.time(), 'ready': False}

    ws = [start() for _ in range(nproc)]
    t0 = time.time()
    import_err = None
    hung = None                      # time of the first case that ran out of time: the verdict is settled, finish soon
    while done < len(cases):
        from multiprocessing.connection import wait
        live = [w['c'] for w in ws]
        if not live:
            if import_err:
                for k in range(len(cases)):
                    if results[k] is None:
                        results[k] = ('exc', import_err)
                break
            raise MachineryError('no workers left')
        for c in wait(live, timeout=1.0):
            w = next(x for x in ws if x['c'] is c)
            try:
                msg = c.recv()
            except EOFError:
                # worker died
                if w['i'] is not None:
                    results[w['i']] = ('exc', 'worker process died')
                    done += 1
                elif not w['ready']:
                    import_err = import_err or 'worker died during import'
                ws.remove(w)
                w['p'].join(1)
                if w['ready']:
                    ws.append(start())
                continue
            if msg[0] == 'fatal':
                raise MachineryError(msg[1])
            if msg[0] == 'importerror':
                import_err = msg[1]
                ws.remove(w)
                continue
            if msg[0] == 'ready':
                w['ready'] = True
            else:
                results[msg[1]] = (msg[0], msg[2])
                done += 1
                w['i'] = None
            if nxt < len(cases) and hung is None:
                w['i'] = nxt
                w['t'] = time.time()
                c.send((nxt, cases[nxt]))
                nxt += 1
        now = time.time()
        for w in list(ws):
            if w['i'] is not None and now - w['t'] > case_timeout:
                w['p'].kill()
                w['p'].join(5)
                results[w['i']] = ('exc', f'timeout after {case_timeout}s')
                done += 1
                ws.remove(w)
                hung = hung or now
        if hung and (now - hung > 30 or not any(w['i'] is not None for w in ws)):
            break
        if budget and now - t0 > budget:
            break
    if hung:
        results = [r or ('exc', 'not executed: another case ran out of time') for r in results]
    for w in ws:
        try:
            w['c'].send(None)
        except Exception:
            pass
    for w in ws:
        w['p'].join(2)
        if w['p'].is_alive():
            w['p'].kill()
    return results


# ------------------------------------------------------------------ trace validation
def validate(module, events, consts='', shards=4, timeout=800, verdict='Verdict <- TraceVerdict'):
    """Validates events (list of dict, or list of runs=list of dict) against spec/<module>.tla.
    Returns ({index: [clauses]}, stats)."""
    runs = [r if isinstance(r, list) else [r] for r in events]
    total = sum(len(r) for r in runs)
    shards = max(1, min(shards, (total + 39) // 40))
    # whole runs are dealt to the shards in turn: heavy neighbours are spread
    buckets = [[] for _ in range(shards)]
    idx = 0
    for n, r in enumerate(runs):
        for e in r:
            buckets[n % shards].append((idx, e))
            idx += 1
    buckets = [b for b in buckets if b]
    d = tempfile.mkdtemp(prefix='vf_tr_')
    bad = {}
    stats = {'states': 0, 'events': total}
    try:
        procs = []
        import concurrent.futures as cf

        def one(k):
            tf = os.path.join(d, f't{k}.ndjson')
            of = os.path.join(d, f'o{k}.json')
            with open(tf, 'w') as f:
                for _, e in buckets[k]:
                    f.write(json.dumps(e, separators=(',', ':')) + '\n')
            cfg = 'SPECIFICATION TraceSpec\nCONSTANTS\n ' + verdict + '\n' + consts + '\nCHECK_DEADLOCK FALSE\n'
            try:
                out, st = tlc(module, cfg, env={'TRACE': tf, 'OUT': of}, timeout=timeout, mem='3g')
            except MachineryError as e:
                # recorded numbers so large that the specification's arithmetic leaves its range, or results
                # of another shape than the specification's states have: the event that TLC was judging
                # lies outside the state space and is reported as such
                log = getattr(e, 'out', '')
                m = re.findall(r'^/\\ l = (\d+)$', log, re.M)
                if 'verflow when computing' in log and m:
                    return k, {'bad': [{'line': int(m[-1]), 'clauses': ['out-of-range']}]}, {}
                if 'Attempted to' in log and m:
                    return k, {'bad': [{'line': int(m[-1]), 'clauses': ['wrong-shape']}]}, {}
                raise
            if not os.path.exists(of):
                raise MachineryError('no verdict file from ' + module + '\n' + out[-3000:])
            v = json.load(open(of))
            if v['n'] != len(buckets[k]):
                raise MachineryError('trace not consumed')
            return k, v, st
        with cf.ThreadPoolExecutor(len(buckets)) as ex:
            for k, v, st in ex.map(one, range(len(buckets))):
                stats['states'] += st.get('distinct', 0)
                for b in v['bad']:
                    bad[buckets[k][b['line'] - 1][0]] = sorted(b['clauses'])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bad, stats


# ------------------------------------------------------------------ reporting
def load_findings(pid):
    res = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith('finding:'):
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == pid:
                    res.append((m.group(2), m.group(3)))
    return res


class Report:
    """Collects violations; each has a stable key (case identity + clause)."""

    def __init__(self, pid, level='model_checking', seed=1, tier='quick'):
        self.pid, self.level, self.tier, self.seed = pid, level, tier, seed
        self.t0 = time.time()
        self.viol = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.known = {}

    def add(self, key, what, detail):
        for k, desc in load_findings(self.pid):
            if k.endswith('*') and key.startswith(k[:-1]) or k == key:
                self.known[k] = desc
                return
        self.viol.append((key, what, detail))

    def traces(self, events, st=None):
        self.cov['traces_validated_against_impl'] += len(events)
        if st:
            self.cov['trace_states'] = self.cov.get('trace_states', 0) + st['states']
        step = max(1, len(events) // 3)
        for e in events[::step][:3]:
            if len(self.cov['samples']) < 6:
                t = json.dumps(e, default=str)
                self.cov['samples'].append(json.loads(t) if len(t) < 4000 else t[:4000])

    def model(self, st):
        self.cov['states'] += st.get('distinct', 0)
        self.cov['transitions'] += st.get('generated', 0)

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        path = None
        if self.viol:
            rd = os.path.join(EVID, 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f'{self.pid}-{self.tier}-{self.seed}.json')
            with open(path, 'w') as f:
                json.dump([{'key': k, 'what': w, 'detail': d} for k, w, d in self.viol[:40]], f, indent=1, default=str)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': self.cov, 'wall_s': round(time.time() - self.t0, 1),
              'assumptions': self.assumptions,
              'violations': len(self.viol), 'violation_list': [{'key': k, 'what': w} for k, w, _ in self.viol[:40]]}
        with open(os.path.join(EVID, f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, desc in sorted(self.known.items()):
            print(f'KNOWN-FINDING: property={self.pid} {desc} [{k}]')
        if self.viol:
            for k, w, d in self.viol[:10]:
                print(f'  {k}: {w}')
            print(f'VIOLATION property={self.pid} replay={path}')
            return 1
        print(f'OK property={self.pid} tier={self.tier} {json.dumps({k: v for k, v in self.cov.items() if k != "samples"})}')
        return 0


def chunked(cases, size):
    k = max(1, (len(cases) + size - 1) // size)
    return [cases[i::k] for i in range(k)]


def grouped(cases, size, group):
    """chunks of at most size cases that share a group key (one compilation per worker)"""
    g = {}
    for c in cases:
        g.setdefault(json.dumps(group(c), default=str), []).append(c)
    out = []
    for k in sorted(g):
        n = max(1, (len(g[k]) + size - 1) // size)
        out += [g[k][i::n] for i in range(n)]
    return sorted(out, key=len, reverse=True)


def generate(rep, module, consts, invariants=(), minimum=1, properties=(), tag='CASE', workers=1, timeout=800):
    """Model checks spec/<module>.tla (Spec, with invariants) and returns the cases it prints."""
    cfg = 'SPECIFICATION Spec\n' + ('CONSTANTS\n ' + '\n '.join(consts) + '\n' if consts else '')
    if invariants:
        cfg += 'INVARIANTS ' + ' '.join(invariants) + '\n'
    if properties:
        cfg += 'PROPERTIES ' + ' '.join(properties) + '\n'
    out, st = tlc(module, cfg + 'CHECK_DEADLOCK FALSE\n', workers=workers, timeout=timeout)
    rep.model(st)
    cases = [json.loads(t) for t in sorted({json.dumps(c, sort_keys=True) for c in printed_json(out, tag)})]
    if len(cases) < minimum:
        raise MachineryError(f'{module}: only {len(cases)} cases')
    return cases


def conform(rep, modname, cases, module, verdict, key, corrupt=None, size=8, shards=6, case_timeout=200, consts='', group=None):
    """Runs the cases against the code (run_case(list of cases) -> list of events or of runs),
    lets TLC judge the events, and reports. corrupt(event) -> a corrupted copy that the
    specification must reject (or None)."""
    chunks = grouped(cases, size, group) if group else chunked(cases, size)
    res = run_cases(modname, chunks, case_timeout=case_timeout)
    evs = []
    for ch, r in zip(chunks, res):
        if r is None:
            raise MachineryError('case not executed')
        if r[0] == 'exc' and r[1].startswith('not executed'):
            continue
        if r[0] == 'exc':
            rep.add('harness:' + key(ch[0]), 'exercising the code failed: ' + r[1][-400:], ch)
            continue
        evs += r[1]
    flat = [e for r in evs for e in (r if isinstance(r, list) else [r])]
    n = len(flat)
    sent = []
    if corrupt:
        for e in flat:
            if e.get('exc', '') == '':
                c = corrupt(json.loads(json.dumps(e)))
                if c is not None:
                    sent.append(c)
                    break
    bad, st = validate(module, evs + sent, verdict=f'Verdict <- {verdict}', shards=shards, consts=consts)
    for i in sorted(bad):
        if i < n:
            e = flat[i]
            rep.add(key(e) + ':' + '+'.join(bad[i]), f"{key(e)} breaks {bad[i]} {e.get('exc', '')} {json.dumps(e)[:400]}", e)
    if corrupt and not rep.viol and (not sent or n not in bad):
        raise MachineryError('the specification accepted a corrupted event' if sent else 'no event to corrupt')
    rep.traces(flat, st)
    return flat
