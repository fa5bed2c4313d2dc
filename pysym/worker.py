"""Explores one harness configuration symbolically."""
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'
TOPS = ('redeclipse', 'props')
_ready = False


def prepare():
    """Once per process: search path, stand-ins and the instrumenting importer."""
    global _ready
    if _ready:
        return
    _ready = True
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    if SITE not in sys.path:
        sys.path.append(SITE)
    import logging
    logging.disable(logging.CRITICAL)
    from . import stubs, loader, hooks
    stubs.install()
    loader.install({'redeclipse': REPO, 'props': VERIF, 'kaitaistruct': SITE, 'colorsys': os.path.dirname(os.__file__),
                    'bresenham': SITE})
    hooks.late()


class Sink(object):
    MAX_PER_LABEL = 4

    def __init__(self, known):
        self.labels = {}
        self.reached = {}
        self.trivial = 0
        self.asserted = 0
        self.candidates = []
        self.per = {}
        self.known = known
        self.rng = random.Random(7)

    def add(self, status, label, finding, values, sure=True):
        k = (status, label, finding)
        n = self.per.get(k, 0)
        self.per[k] = n + 1
        if n < self.MAX_PER_LABEL:
            self.candidates.append({'status': status, 'label': label, 'finding': finding, 'values': values})
        elif finding is None or finding not in self.known:
            from .core import StopExploration
            raise StopExploration()

    def violation(self, ctx, model, label, finding, where=()):
        self.add('violation', label, finding, ctx.values(model))
        # the first values may lie on the edge of a rounding the encoding allows for: some others too
        for i in range(2):
            m = ctx.e.diverse(ctx.wishes(self.rng), where=where)
            if m is not None:
                self.candidates.append({'status': 'violation', 'label': label, 'finding': finding, 'values': ctx.values(m)})


def run_task(task, known, seed):
    t0 = time.monotonic()
    prepare()
    from . import core, loader, symctx
    import importlib
    rng = random.Random(seed)
    seconds = task['seconds']
    e = core.Engine(deadline=t0 + seconds, query_timeout_ms=task.get('query_ms', 20000))
    core.Engine.current = e
    sink = Sink(known)
    out = {'name': task['name'], 'complete': False, 'divergence': None}
    ok = aborted = unsupported = timeouts = exceptions = 0
    reasons = {}
    samples = []           # (values, observations)
    fallbacks = []
    nsamp = task.get('samples', 8)
    fresh = task.get('fresh', True)
    path_s = task.get('path_seconds', 30)
    mod = None
    try:
        while True:
            e.begin_path(path_s)
            if mod is None or fresh:
                loader.purge(TOPS)
                mod = importlib.import_module('props.' + task['module'])
            ctx = symctx.SymCtx(e, sink)
            fallback = None
            try:
                getattr(mod, task['func'])(ctx, **task['config'])
                ok += 1
                if len(samples) < nsamp or rng.random() < nsamp / float(ok):
                    m = e.get_model()
                    item = {'values': ctx.values(m), 'obs': ctx.observations(m)}
                    if len(samples) < nsamp:
                        samples.append(item)
                        if len(samples) <= 2:
                            m = e.diverse(ctx.wishes(rng))
                            if m is not None:
                                samples.append({'values': ctx.values(m), 'obs': ctx.observations(m)})
                    else:
                        samples[rng.randrange(nsamp)] = item
            except core.PathAbort:
                aborted += 1
            except core.Unsupported as x:
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
                unsupported += 1
                r = 'unsupported: %s' % x
                reasons[r] = reasons.get(r, 0) + 1
                fallback = r
            except core.PathTimeout:
                timeouts += 1
                reasons['path time limit'] = reasons.get('path time limit', 0) + 1
                fallback = 'path time limit'
            except core.Divergence as x:
                out['divergence'] = str(x)[:300]
                break
            except RecursionError as x:
                unsupported += 1
                reasons['recursion'] = reasons.get('recursion', 0) + 1
                fallback = 'recursion'
            except (Exception, SystemExit) as x:
                exceptions += 1
                tb = traceback.extract_tb(x.__traceback__)
                where = ''
                for fr in reversed(tb):
                    if '/redeclipse/' in fr.filename or '/props/' in fr.filename:
                        where = '%s:%s' % (os.path.basename(fr.filename), fr.name)
                        break
                lab = ('exit:%s' % x.code) if isinstance(x, SystemExit) else type(x).__name__
                try:
                    sink.add('exception', lab, None, ctx.values(e.get_model()))
                    m = e.diverse(ctx.wishes(rng))
                    if m is not None:
                        sink.candidates.append({'status': 'exception', 'label': lab, 'finding': None, 'values': ctx.values(m)})
                except core.PathAbort:
                    pass
                r = '%s: %s at %s' % (lab, str(x)[:120], where)
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
                reasons[r] = reasons.get(r, 0) + 1
            if fallback is not None and len(fallbacks) < task.get('fallbacks', 32):
                try:
                    fallbacks.append({'values': ctx.values(e.get_model()), 'reason': fallback})
                    # the same path with other values, so that a difference that shows for some only has a chance
                    for _ in range(3):
                        m = e.diverse(ctx.wishes(rng))
                        if m is not None:
                            fallbacks.append({'values': ctx.values(m), 'reason': fallback})
                except (core.PathAbort, core.Unsupported):
                    pass
            if not e.backtrack():
                out['complete'] = True
                break
            if e.deadline is not None and time.monotonic() > e.deadline:
                break
    except core.StopExploration:
        pass
    if not samples and ok and not out['complete']:
        pass
    out.update({
        'paths': e.paths, 'ok': ok, 'aborted': aborted, 'unsupported': unsupported, 'timeouts': timeouts,
        'exceptions': exceptions, 'reasons': reasons, 'queries': e.queries, 'solver_s': round(e.solver_s, 3),
        'unknowns': e.unknowns, 'forks': e.forks, 'labels': sink.labels, 'reached': sink.reached,
        'asserted': sink.asserted, 'trivial': sink.trivial, 'candidates': sink.candidates, 'samples': samples,
        'fallbacks': fallbacks, 'functions': sorted(loader.FUNCS[i] for i in loader.EXECUTED),
        'wall_s': round(time.monotonic() - t0, 3),
    })
    return out
