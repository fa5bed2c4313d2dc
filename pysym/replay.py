"""Concrete execution of a harness on the unmodified code of /repo.

Reads jobs (JSON) from a file, runs each in this process with freshly imported
modules, and writes the outcomes.  Run with the project's own interpreter."""
import gc
import gzip
import importlib
import json
import os
import random
import shutil
import signal
import struct
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


class CheckFailed(BaseException):
    def __init__(self, label, finding=None):
        BaseException.__init__(self, label)
        self.label = label
        self.finding = finding


class Skip(BaseException):
    pass


class Timeout(BaseException):
    pass


class OutOfDraws(BaseException):
    pass


def dec(v):
    if isinstance(v, dict):
        if 'f' in v:
            return float.fromhex(v['f'])
        if 'b' in v:
            return bytes.fromhex(v['b'])
        if 'd' in v:
            return {dec(k): dec(x) for k, x in v['d']}
        return v
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


def enc(v):
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v
    if isinstance(v, float):
        return {'f': v.hex()}
    if isinstance(v, (bytes, bytearray)):
        return {'b': bytes(v).hex()}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {'d': [[enc(k), enc(x)] for k, x in v.items()]}
    return {'r': type(v).__name__}


class Draws(object):
    def __init__(self, values):
        self.values = list(values)
        self.i = 0

    def _next(self):
        if self.i < len(self.values):
            self.i += 1
            return self.values[self.i - 1]
        self.i += 1
        if self.i > len(self.values) + 2000:
            raise OutOfDraws()
        return None

    def random(self):
        v = self._next()
        return 0.5 if v is None else v

    def below(self, n):
        if n <= 0:
            raise ValueError('empty range')
        v = self._next()
        return 0 if v is None else min(int(v), n - 1)


class AnyDraws(object):
    """Draws for looking whether something can happen at all."""

    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def _count(self):
        self.n += 1
        if self.n > 20000:
            raise OutOfDraws()

    def random(self):
        self._count()
        return self.rng.random()

    def below(self, n):
        if n <= 0:
            raise ValueError('empty range')
        self._count()
        return int(self.rng.random() * n)


DRAWS = Draws([])
NOISE = []


def patch_noise():
    import noise
    for n in ('pnoise1', 'pnoise2', 'pnoise3', 'snoise2', 'snoise3', 'snoise4'):
        real = getattr(noise, n, None)
        if real is not None:
            setattr(noise, n, lambda *a, _r=real, **k: NOISE.pop(0) if NOISE else _r(*a, **k))


def patch_random():
    class Holder(object):
        pass

    def uniform(a, b):
        return a + (b - a) * DRAWS.random()

    def randint(a, b):
        return a + DRAWS.below(b - a + 1)

    def randrange(a, b=None, step=1):
        if b is None:
            a, b = 0, a
        n = (b - a + step - 1) // step if step > 0 else (a - b - step - 1) // (-step)
        if n <= 0:
            raise ValueError('empty range for randrange()')
        return a + step * DRAWS.below(n)

    def choice(seq):
        if not len(seq):
            raise IndexError('Cannot choose from an empty sequence')
        return seq[DRAWS.below(len(seq))]

    def sample(population, k, counts=None):
        pool = list(population)
        n = len(pool)
        if not 0 <= k <= n:
            raise ValueError('Sample larger than population or is negative')
        out = []
        for i in range(k):
            j = int(DRAWS.below(n - i)) if n - i > 1 else 0
            out.append(pool[j])
            pool[j] = pool[n - i - 1]
        return out

    def shuffle(x):
        for i in reversed(range(1, len(x))):
            j = int(DRAWS.below(i + 1))
            x[i], x[j] = x[j], x[i]

    def choices(population, weights=None, *, cum_weights=None, k=1):
        pop = list(population)
        if weights is None and cum_weights is None:
            return [pop[int(DRAWS.below(len(pop)))] for _ in range(k)]
        if cum_weights is None:
            cum_weights = []
            t = 0
            for w in weights:
                t = t + w
                cum_weights.append(t)
        total = cum_weights[-1] + 0.0
        out = []
        for _ in range(k):
            r = DRAWS.random() * total
            for i, c in enumerate(cum_weights):
                if i == len(pop) - 1 or r < c:
                    out.append(pop[i])
                    break
        return out

    random.random = lambda: DRAWS.random()
    random.uniform = uniform
    random.randint = randint
    random.randrange = randrange
    random.choice = choice
    random.sample = sample
    random.shuffle = shuffle
    random.choices = choices
    random.getrandbits = lambda k: DRAWS.below(1 << k)
    random.seed = lambda *a, **k: None

    class Random(object):
        def __init__(self, *a):
            pass

        def __getattr__(self, n):
            return getattr(random, n)
    random.Random = random.SystemRandom = Random


class ConCtx(object):
    symbolic = False

    def __init__(self, values, tmp):
        self.vals = {n: dec(v) for n, k, v in values if k not in ('draw', 'noise')}
        self.tmp = tmp
        self.obs = []
        self.reached = []
        self.rng = None

    def _get(self, name, default):
        return self.vals.get(name, default)

    def int(self, name, lo, hi):
        if self.rng is not None and name not in self.vals:
            self.vals[name] = lo + int(self.rng.random() * (hi - lo + 1))
        v = self._get(name, lo)
        return min(max(v, lo), hi)

    def bool(self, name):
        if self.rng is not None and name not in self.vals:
            self.vals[name] = self.rng.random() < 0.5
        return bool(self._get(name, False))

    def real(self, name, lo, hi, bits=0):
        if self.rng is not None and name not in self.vals:
            self.vals[name] = (lo * 2 ** bits + int((hi - lo) * 2 ** bits * self.rng.random())) / 2.0 ** bits
        return float(min(max(self._get(name, float(lo)), lo), hi))

    def bytes(self, name, n, lo=0, hi=255):
        if self.rng is not None and name not in self.vals:
            self.vals[name] = bytes([lo + int(self.rng.random() * (hi - lo + 1)) for _ in range(n)])
        v = self._get(name, bytes([lo]) * n)
        return v

    def text(self, name, n, lo=1, hi=126):
        if self.rng is not None and name not in self.vals:
            self.vals[name] = ''.join([chr(lo + int(self.rng.random() * (hi - lo + 1))) for _ in range(n)])
        return self._get(name, chr(lo) * n)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1)]

    def fix(self, v):
        return v

    def draws_limit(self, n):
        pass

    def assume(self, cond):
        if not cond:
            raise Skip()

    def all(self, *cs):
        return all(bool(c) for c in self._flat(cs))

    def any(self, *cs):
        return any(bool(c) for c in self._flat(cs))

    def _flat(self, cs):
        for c in cs:
            if isinstance(c, (list, tuple)) or hasattr(c, '__next__'):
                for x in self._flat(c):
                    yield x
            else:
                yield c

    def no(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return len(a) == len(b) and all(self.eq(k1, k2) and self.eq(v1, v2)
                                            for (k1, v1), (k2, v2) in zip(a.items(), b.items()))
        return a == b

    def check(self, cond, label, finding=None):
        if not cond:
            raise CheckFailed(label, finding)

    def fail(self, label, finding=None):
        raise CheckFailed(label, finding)

    def reach(self, label):
        self.reached.append(label)

    def observe(self, label, v):
        self.obs.append([label, enc(v)])

    def path(self, name):
        return os.path.join(self.tmp, name)

    def write_file(self, path, data, gz=True):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if gz:
            with gzip.open(path, 'wb') as f:
                f.write(data)
        else:
            with open(path, 'wb') as f:
                f.write(data)

    def read_file(self, path, gz=True):
        if not os.path.exists(path):
            return None
        if gz:
            with gzip.open(path) as f:
                return f.read()
        with open(path, 'rb') as f:
            b = f.read()
        return b

    def read_text(self, path):
        b = self.read_file(path, gz=False)
        return None if b is None else b.decode()

    def shipped(self, path):
        return os.path.exists(path)

    def join(self, parts):
        return b''.join(bytes(p) for p in parts)

    def pack(self, fmt, *vals):
        return struct.pack(fmt, *vals)

    def unpack(self, fmt, b):
        return struct.unpack(fmt, b)

    def open_files(self):
        return 0

    def run_main(self, module, argv):
        import io
        import runpy
        old, err = sys.argv, sys.stderr
        sys.argv = [module] + list(argv)
        sys.stderr = io.StringIO()
        try:
            runpy.run_module(module, run_name='__main__')
        except SystemExit as e:
            if e.code:
                raise RuntimeError('the script ended with %r' % (e.code,))
        finally:
            sys.argv, sys.stderr = old, err
            # the end of the process closes its files
            for o in gc.get_objects():
                if isinstance(o, (io.TextIOWrapper, io.BufferedWriter)) and not o.closed and str(getattr(o, 'name', '')).startswith(self.tmp):
                    o.flush()


TRIES = 400


def run_never(job):
    """Looks for a run that reaches the label: a claim that none does is refuted by one."""
    import time
    from _random import Random
    end = time.time() + job.get('timeout', 60)
    n = 0
    for i in range(TRIES):
        rng = Random(i)
        r = run_job(job, rng)
        if r['status'] == 'ok' and job['never'] in r['reached']:
            return r
        if r['status'] in ('violation', 'exception'):
            return r
        n += r['status'] == 'ok'
        if time.time() > end:
            break
    if not n:
        return {'status': 'timeout', 'obs': [], 'reached': []}
    return {'status': 'violation', 'label': 'can happen: ' + job['never'], 'finding': None, 'obs': [], 'reached': [],
            'trace': 'in none of %d runs with values and draws at random' % n}


def run_some(job):
    """Runs with values and draws at random, for code the encoding cannot follow."""
    import time
    from _random import Random
    end = time.time() + job.get('timeout', 60)
    n = 0
    for i in range(job['some']):
        r = run_job(job, Random(i))
        if r['status'] in ('violation', 'exception'):
            return r
        n += r['status'] == 'ok'
        if time.time() > end:
            break
    return {'status': 'ok' if n else 'timeout', 'obs': [], 'reached': [], 'runs': n}


def run_job(job, rng=None):
    global DRAWS
    if 'never' in job and rng is None:
        return run_never(job)
    if 'some' in job and rng is None:
        return run_some(job)
    for n in list(sys.modules):
        if n.split('.')[0] in ('redeclipse', 'props'):
            del sys.modules[n]
    DRAWS = Draws([dec(v) for n, k, v in job['values'] if k == 'draw'])
    NOISE[:] = [dec(v) for n, k, v in job['values'] if k == 'noise']
    tmp = tempfile.mkdtemp(prefix='vfreplay')
    ctx = ConCtx(job['values'], tmp)
    if rng is not None:
        ctx.rng = rng
        DRAWS = AnyDraws(rng)
    out = {'status': 'ok'}

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, job.get('timeout', 60))
    cwd = os.getcwd()
    try:
        try:
            m = importlib.import_module('props.' + job['module'])
            os.chdir(tmp)
            getattr(m, job['func'])(ctx, **job['config'])
        except CheckFailed as e:
            out = {'status': 'violation', 'label': e.label, 'finding': e.finding}
        except Skip:
            out = {'status': 'skip'}
        except Timeout:
            out = {'status': 'timeout'}
        except OutOfDraws:
            out = {'status': 'draws'}
        except SystemExit as e:
            out = {'status': 'exception', 'label': 'exit:%s' % e.code, 'trace': traceback.format_exc()[-1500:]}
        except Exception as e:
            out = {'status': 'exception', 'label': type(e).__name__, 'trace': traceback.format_exc()[-1500:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    out['obs'] = ctx.obs
    out['reached'] = ctx.reached
    return out


def main():
    src, dst = sys.argv[1], sys.argv[2]
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    patch_random()
    patch_noise()
    import logging
    logging.disable(logging.CRITICAL)
    with open(src) as f:
        jobs = json.load(f)
    devnull = open(os.devnull, 'w')
    res = []
    so, se = sys.stdout, sys.stderr
    for j in jobs:
        sys.stdout = sys.stderr = devnull
        try:
            res.append(run_job(j))
        finally:
            sys.stdout, sys.stderr = so, se
    with open(dst, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
