"""Check infrastructure: worker processes running the code under test, TLC runs, canaries, findings, evidence."""
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO_SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src')
TLC_JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = max(1, min(8, os.cpu_count() or 1))

TIER = os.environ.get('VERIF_TIER', 'quick')
try:
    SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
except ValueError:
    SEED = 1


class MachineryError(Exception):
    pass


# ---- the code under test ---------------------------------------------------------------

def import_repo():
    """Import bare_script from the repository's working tree (never from stale byte code)"""
    if REPO_SRC not in sys.path[:1]:
        sys.path.insert(0, REPO_SRC)
    import bare_script  # pylint: disable=import-outside-toplevel
    where = os.path.realpath(bare_script.__file__)
    if not where.startswith(os.path.realpath(REPO_SRC) + os.sep):
        raise MachineryError(f'bare_script imported from {where}')
    return bare_script


class Hang(BaseException):
    pass


def _alarm(_sig, _frame):
    # again, in case something swallows it
    signal.setitimer(signal.ITIMER_REAL, 0.5)
    raise Hang()


def _worker(conn, fn, soft, init):
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.environ['TZ'] = 'UTC'
    time.tzset()
    if init is not None:
        init()
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        ix, item = msg
        try:
            signal.setitimer(signal.ITIMER_REAL, soft)
            try:
                res = ('ok', fn(item))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Hang:
            res = ('hang', None)
        except MemoryError:
            res = ('hang', None)
        except BaseException as exc: # pylint: disable=broad-except
            import traceback
            res = ('error', ''.join(traceback.format_exception(exc)))
        try:
            data = mp.reduction.ForkingPickler.dumps((ix, res))
            if len(data) > 48 << 20:
                # an observation that has grown out of all proportion
                data = mp.reduction.ForkingPickler.dumps((ix, ('hang', None)))
            conn.send_bytes(data)
        except (Hang, MemoryError):
            conn.send((ix, ('hang', None)))


def pmap(fn, items, soft=5.0, init=None, max_hangs=40, retry=True):
    """Run fn over the items in worker processes. Results: ('ok', value), ('hang', None), ('error', traceback) when the
    observation could not be made, or ('skip', None) once too many items hang"""
    items = list(items)
    results = [('skip', None)] * len(items)
    todo = iter(range(len(items)))
    ctx = mp.get_context('fork')
    workers = {}
    hangs = 0

    def start():
        parent, child = ctx.Pipe()
        proc = ctx.Process(target=_worker, args=(child, fn, soft, init), daemon=True)
        proc.start()
        child.close()
        return parent, proc

    def feed(conn):
        ix = next(todo, None) if hangs < max_hangs else None
        if ix is None:
            try:
                conn.send(None)
            except OSError:
                pass
            return False
        conn.send((ix, items[ix]))
        workers[conn][1] = ix
        workers[conn][2] = time.monotonic() + soft + 3
        return True

    for _ in range(min(NPROC, max(1, len(items)))):
        conn, proc = start()
        workers[conn] = [proc, None, 0]
        if not feed(conn):
            workers.pop(conn)[0].join()
    while workers:
        ready = mp.connection.wait(list(workers), timeout=0.5)
        for conn in ready:
            proc, ix, _ = workers[conn]
            try:
                rix, res = conn.recv()
            except (EOFError, OSError):
                # the worker died (memory, crash)
                results[ix] = ('hang', None)
                hangs += 1
                workers.pop(conn)
                proc.join()
                conn, proc = start()
                workers[conn] = [proc, None, 0]
                if not feed(conn):
                    workers.pop(conn)[0].join()
                continue
            results[rix] = res
            if res[0] == 'hang':
                hangs += 1
            if not feed(conn):
                workers.pop(conn)[0].join()
        now = time.monotonic()
        for conn in list(workers):
            proc, ix, dead = workers[conn]
            if now > dead:
                proc.kill()
                proc.join()
                workers.pop(conn)
                results[ix] = ('hang', None)
                hangs += 1
                conn, proc = start()
                workers[conn] = [proc, None, 0]
                if not feed(conn):
                    workers.pop(conn)[0].join()
    # an item that ran out of time on a busy machine gets another, longer chance
    again = [i for i, (status, _) in enumerate(results) if status == 'hang']
    if retry and 0 < len(again) <= 8:
        for i, res in zip(again, pmap(fn, [items[i] for i in again], soft * 3, init, max_hangs, False)):
            results[i] = res
    errors = [value for status, value in results if status == 'error']
    if errors:
        print(f'{len(errors)} observations could not be made, the first: {errors[0][-1500:]}')
    return results


# ---- TLC ----------------------------------------------------------------------------------

_SCRATCH = None


def scratch():
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix='verif-')
    return _SCRATCH


def cleanup():
    if _SCRATCH is not None:
        shutil.rmtree(_SCRATCH, ignore_errors=True)


def _tlc_cmd(module, cfg, metadir, workers, extra=()):
    return ['java', '-Xss200m', '-Xmx3g', '-XX:+UseParallelGC', f'-XX:ParallelGCThreads={2 if workers == 1 else 4}',
            '-XX:CICompilerCount=2', '-cp', TLC_JAR,
            'tlc2.TLC', '-workers', str(workers), '-deadlock', '-noGenerateSpecTE', '-metadir', metadir, '-config', cfg, *extra, module]


RE_STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')
RE_VERDICT = re.compile(r'<<"VERDICT", (\d+), "([^"]*)"(?:, (.*?))?>>')


def parse_states(text):
    found = RE_STATES.findall(text.replace(',', '') if False else re.sub(r'(?<=\d),(?=\d{3})', '', text))
    return (int(found[-1][0]), int(found[-1][1])) if found else (0, 0)


class Tlc:
    """The statistics of this check's TLC runs"""
    states = 0
    transitions = 0
    verdicts = 0
    seconds = 0.0


def model_check(module, cfg=None, timeout=800, workers=NPROC, extra=(), env=None):
    """Check a model (MC_*.tla): returns ('ok'|'violation'|'error', output)"""
    cfg = cfg or module + '.cfg'
    meta = tempfile.mkdtemp(prefix='meta-', dir=scratch())
    start = time.monotonic()
    proc = subprocess.run(_tlc_cmd(module + '.tla', cfg, meta, workers, extra), cwd=SPEC, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout, check=False, env={**os.environ, **(env or {})})
    Tlc.seconds += time.monotonic() - start
    gen, distinct = parse_states(proc.stdout)
    Tlc.states += distinct
    Tlc.transitions += gen
    shutil.rmtree(meta, ignore_errors=True)
    if 'No error has been found' in proc.stdout and proc.returncode == 0:
        return 'ok', proc.stdout
    if 'is violated' in proc.stdout:
        return 'violation', proc.stdout
    return 'error', proc.stdout


def require_model(module, cfg=None, **kwargs):
    """A design model must hold: it does not depend on the code under test"""
    status, out = model_check(module, cfg, **kwargs)
    if status != 'ok':
        raise MachineryError(f'model {module} ({cfg}): {status}\n{out[-3000:]}')
    return out


def require_counterexample(module, cfg, **kwargs):
    """A negative configuration: the model without the mechanism has to break the law"""
    status, out = model_check(module, cfg, **kwargs)
    if status != 'violation':
        raise MachineryError(f'model {module} ({cfg}): {status} where a counterexample is expected\n{out[-3000:]}')


def validate(module, records, timeout=800, weight=None, cfg=None, header=None):
    """Validate trace records with a Trace_* module. Returns a list of (clause, extra) - clause '' is accepted,
    'malformed' is an observation the specification cannot even read"""
    n = len(records)
    verdicts = [None] * n
    if n == 0:
        return verdicts
    weight = weight or (lambda r: 1)
    order = sorted(range(n), key=lambda i: -weight(records[i]))
    nshards = min(NPROC, n)
    shards = [[] for _ in range(nshards)]
    loads = [0.0] * nshards
    for i in order:
        k = loads.index(min(loads))
        shards[k].append(i)
        loads[k] += weight(records[i])
    deadline = time.monotonic() + timeout
    start = time.monotonic()
    running = []

    def launch(ixs):
        d = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
        path = os.path.join(d, 'trace.json')
        with open(path, 'w', encoding='utf-8') as f:
            json.dump([records[i] for i in ixs], f, separators=(',', ':'))
        outf = open(os.path.join(d, 'out'), 'w', encoding='utf-8')
        env = dict(os.environ)
        env['TRACE_FILE'] = path
        if header is not None:
            hp = os.path.join(d, 'header.json')
            with open(hp, 'w', encoding='utf-8') as f:
                json.dump(header, f)
            env['HEADER_FILE'] = hp
        proc = subprocess.Popen(_tlc_cmd(module + '.tla', cfg or module + '.cfg', os.path.join(d, 'meta'), 1), cwd=SPEC,
                                stdout=outf, stderr=subprocess.STDOUT, env=env)
        outf.close()
        running.append((proc, ixs, d))

    for shard in shards:
        launch(shard)
    crashes = 0
    while running:
        for entry in list(running):
            proc, ixs, d = entry
            if proc.poll() is None:
                if time.monotonic() > deadline:
                    for p, _, _ in running:
                        p.kill()
                    raise MachineryError(f'{module}: TLC timeout')
                continue
            running.remove(entry)
            with open(os.path.join(d, 'out'), encoding='utf-8', errors='replace') as f:
                out = f.read()
            gen, distinct = parse_states(out)
            Tlc.states += distinct
            Tlc.transitions += gen
            seen = set()
            for m in RE_VERDICT.finditer(re.sub(r'\n\s+', ' ', out)):
                k = int(m.group(1)) - 1
                verdicts[ixs[k]] = (m.group(2), m.group(3) or '')
                seen.add(k)
            left = [k for k in range(len(ixs)) if k not in seen]
            if 'is violated' in out:
                raise MachineryError(f'{module}: invariant of the specification violated\n{out[-2000:]}')
            if left:
                if 'Parsing or semantic analysis failed' in out or 'Error: ' not in out or crashes > 60:
                    raise MachineryError(f'{module}: TLC failed\n{out[-3000:]}')
                # the record being read when the evaluation failed
                crashes += 1
                bad = ixs[left[0]]
                err = out[out.index('Error: '):][:600]
                verdicts[bad] = ('malformed', err)
                rest = [ixs[k] for k in left[1:]]
                if rest:
                    launch(rest)
            shutil.rmtree(d, ignore_errors=True)
        time.sleep(0.02)
    Tlc.seconds += time.monotonic() - start
    Tlc.verdicts += n
    if any(v is None for v in verdicts):
        raise MachineryError(f'{module}: missing verdicts')
    return verdicts


# ---- findings, replay, evidence -------------------------------------------------------------

class Report:
    """Collects violations of one property"""

    def __init__(self, prop):
        self.prop = prop
        self.violations = []
        self.known = {}
        self.samples = []
        self.coverage = {}
        self.start = time.monotonic()
        self.canaries = 0
        self.canaries_missed = []

    def violation(self, key, detail):
        """key identifies what fails (input, call site or history); detail is the replay content"""
        for line in known_findings(self.prop):
            if line in key:
                self.known.setdefault(line, 0)
                self.known[line] += 1
                return
        self.violations.append((key, detail))

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def finish(self):
        level = LEVELS.get(self.prop, 'model_checking')
        out_dir = os.path.join(VERIF, 'out', self.prop)
        shutil.rmtree(out_dir, ignore_errors=True)
        os.makedirs(out_dir, exist_ok=True)
        for line, n in sorted(self.known.items()):
            print(f'KNOWN-FINDING: property={self.prop} {line} ({n} inputs)')
        shown = 0
        for i, (key, detail) in enumerate(self.violations[:10]):
            path = os.path.join(out_dir, f'violation-{i + 1}.json')
            with open(path, 'w', encoding='utf-8') as f:
                json.dump({'property': self.prop, 'what': key, 'detail': detail}, f, indent=1, default=repr)
            print(f'VIOLATION property={self.prop} replay={path}')
            print('   ' + key[:400].replace('\n', '\\n'))
            shown += 1
        if len(self.violations) > shown:
            print(f'   ... {len(self.violations)} violations in total')
        coverage = dict(self.coverage)
        coverage.setdefault('states', Tlc.states)
        coverage.setdefault('transitions', Tlc.transitions)
        coverage['traces_validated_against_impl'] = coverage.get('traces_validated_against_impl', Tlc.verdicts - self.canaries)
        coverage['canaries_rejected'] = self.canaries - len(self.canaries_missed)
        coverage['samples'] = [str(s)[:600] for s in self.samples[:6]]
        evidence = {
            'property': self.prop,
            'tier': TIER if TIER in ('quick', 'thorough') else 'quick',
            'seed': SEED,
            'level': level,
            'coverage': coverage,
            'wall_s': round(time.monotonic() - self.start, 2),
            'violations': len(self.violations),
            'known_findings': len(self.known),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w', encoding='utf-8') as f:
            json.dump(evidence, f, indent=1)
        if self.violations:
            return 1
        if self.canaries_missed:
            print(f'MACHINERY: {len(self.canaries_missed)} corrupted observations were accepted: {self.canaries_missed[:3]}')
            return 3
        print(f'OK property={self.prop} {json.dumps({k: v for k, v in coverage.items() if k != "samples"})} wall={evidence["wall_s"]}s')
        return 0


LEVELS = {}


def known_findings(prop):
    res = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                m = re.match(r'known: property=(\S+) key=(.*)$', line.rstrip('\n'))
                if m and m.group(1) == prop:
                    res.append(m.group(2).split(' -- ')[0])
    return res
