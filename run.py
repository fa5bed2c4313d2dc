#!/usr/bin/env python3
"""Decides one property:  run.py ID [--tier quick|thorough] [--task NAME]
                         run.py --replay FILE"""
import argparse
import json
import multiprocessing
import os
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
PROJECT_PY = '/opt/venv/bin/python'


def replay(jobs, workers=8):
    """Runs harnesses concretely on the unmodified code, in the project's interpreter."""
    if not jobs:
        return []
    n = max(1, min(workers, (len(jobs) + 5) // 6))
    procs = []
    tmp = tempfile.mkdtemp(prefix='vfjobs')
    try:
        for i in range(n):
            part = jobs[i::n]
            src, dst = os.path.join(tmp, 'j%d' % i), os.path.join(tmp, 'o%d' % i)
            with open(src, 'w') as f:
                json.dump(part, f)
            env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
            procs.append((subprocess.Popen([PROJECT_PY, os.path.join(VERIF, 'pysym', 'replay.py'), src, dst], env=env,
                                           cwd=tmp, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), dst, len(part)))
        res = [None] * len(jobs)
        for i, (p, dst, k) in enumerate(procs):
            err = p.communicate()[1]
            if p.returncode != 0 or not os.path.exists(dst):
                out = [{'status': 'crash', 'label': 'interpreter ended with %s: %s' % (
                    p.returncode, err.decode(errors='replace')[-500:]), 'obs': [], 'reached': []}] * k
            else:
                with open(dst) as f:
                    out = json.load(f)
            res[i::n] = out
        return res
    finally:
        for n_ in os.listdir(tmp):
            os.unlink(os.path.join(tmp, n_))
        os.rmdir(tmp)


def child(task, known, seed, conn):
    try:
        from pysym import worker
        dn = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get('VERIF_DEBUG'):
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        r = worker.run_task(task, known, seed)
        if r['divergence'] and not task.get('fresh', True):
            r = None
            task = dict(task, fresh=True)
            conn.send('again')
            conn.close()
            return
    except BaseException:
        r = {'name': task['name'], 'error': traceback.format_exc()[-3000:]}
    conn.send(r)
    conn.close()


def explore(tasks, known, seed, workers):
    ctx = multiprocessing.get_context('fork')
    todo = list(tasks)
    running = []
    results = []
    while todo or running:
        while todo and len(running) < workers:
            t = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(t, known, seed, b))
            p.start()
            b.close()
            running.append((p, a, t, time.monotonic() + t['seconds'] * 1.5 + 60))
        done = multiprocessing.connection.wait([a for _, a, _, _ in running], timeout=1.0)
        still = []
        for p, a, t, lim in running:
            if a in done:
                try:
                    r = a.recv()
                except EOFError:
                    r = {'name': t['name'], 'error': 'worker ended without a result'}
                p.join()
                if r == 'again':
                    todo.append(dict(t, fresh=True))
                    continue
                r['task'] = t
                results.append(r)
            elif time.monotonic() > lim:
                p.kill()
                p.join()
                results.append({'name': t['name'], 'task': t, 'error': 'worker killed: out of time', 'killed': True})
            else:
                still.append((p, a, t, lim))
        running = still
    order = {t['name']: i for i, t in enumerate(tasks)}
    results.sort(key=lambda r: order[r['name']])
    return results


def job_of(t, values):
    return {'module': t['module'], 'func': t['func'], 'config': t['config'], 'values': values,
            'timeout': t.get('replay_seconds', 60)}


def near(a, b):
    """Equality of observations; floats up to rounding."""
    if isinstance(a, dict) and isinstance(b, dict) and 'f' in a and 'f' in b:
        x, y = float.fromhex(a['f']), float.fromhex(b['f'])
        return x == y or abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    return a == b


def short(values, n=24):
    out = {}
    for name, kind, v in values[:n]:
        out[name] = v
    if len(values) > n:
        out['...'] = len(values) - n
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--task')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            j = json.load(f)
        r = replay([j['job']])[0]
        print(json.dumps(r, indent=1))
        return 1 if r['status'] in ('violation', 'exception', 'crash') else 0
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    from props import specs
    spec = specs.SPECS[a.id]
    tasks = []
    for t in spec['tasks']:
        if t.get('tier') == 'thorough' and tier == 'quick':
            continue
        if t.get('tier') == 'quick' and tier == 'thorough':
            continue
        if a.task and not t['name'].startswith(a.task):
            continue
        t = dict(t)
        t['seconds'] = (t.get('thorough_seconds', 600) if tier == 'thorough' else t.get('seconds', 90)) * a.scale
        tasks.append(t)
    kf = os.path.join(VERIF, 'known_findings.json')
    known = {}
    if os.path.exists(kf):
        with open(kf) as f:
            for k in json.load(f)['findings']:
                if k['property'] == a.id and k['status'] == 'open':
                    known[k['finding']] = k
    workers = int(os.environ.get('VERIF_WORKERS', '8'))
    results = explore(tasks, set(known), seed, workers)
    # paths of a task may share a state that a counterexample of one of them needs: then each starts anew
    suspects = [(r, c) for r in results if r.get('candidates') and not r['task'].get('fresh', True) for c in r['candidates']]
    if suspects:
        outs = replay([job_of(r['task'], c['values']) for r, c in suspects], workers)
        names = set(r['name'] for (r, c), o in zip(suspects, outs) if o['status'] == 'ok')
        if names:
            anew = {r['name']: r for r in explore([dict(t, fresh=True) for t in tasks if t['name'] in names], set(known), seed, workers)}
            results = [anew.get(r['name'], r) for r in results]
    problems = []
    notes = []

    # counterexamples and path samples are run on the real code
    jobs, meta = [], []
    for r in results:
        if 'error' in r:
            continue
        for c in r['candidates']:
            jobs.append(job_of(r['task'], c['values']))
            meta.append(('candidate', r, c))
        # labels that are claims: some values and draws lead there
        if r['complete'] and not (r['candidates'] or r['unsupported'] or r['timeouts']):
            for x in [x for x in r['task'].get('must', []) if x not in r['reached']][:3]:
                c = {'values': [], 'status': 'never', 'label': x, 'obs': []}
                r['candidates'].append(c)
                jobs.append(dict(job_of(r['task'], []), never=x))
                meta.append(('candidate', r, c))
        for s in r['samples']:
            jobs.append(job_of(r['task'], s['values']))
            meta.append(('sample', r, s))
        for s in r['fallbacks']:
            jobs.append(job_of(r['task'], s['values']))
            meta.append(('fallback', r, s))
    outs = replay(jobs, workers)
    violations = []
    validated = mismatches = unreproduced = 0
    fallback_ok = 0
    for (kind, r, c), o, j in zip(meta, outs, jobs):
        bad = o['status'] in ('violation', 'exception', 'crash')
        if o['status'] in ('timeout', 'draws'):
            if kind == 'candidate':
                notes.append('a counterexample of %s ran out of time in replay' % r['name'])
            continue
        if bad:
            violations.append((r, c, o, j, kind))
        elif kind == 'candidate':
            c['reproduced'] = False
        elif kind == 'sample':
            if o['status'] == 'ok' and near(c['obs'], o['obs']):
                validated += 1
            else:
                mismatches += 1
                notes.append('path sample of %s behaves differently on the real code: %s' % (r['name'], json.dumps(
                    {'values': short(c['values']), 'status': o['status'], 'sym': c['obs'], 'real': o['obs']})[:1500]))
        else:
            fallback_ok += 1
    # where the encoding could follow no path of a task, some runs of the real code are better than none
    lost = [r for r in results if 'error' in r or not r['ok']]
    lost = [r for r in lost if 'error' in r or any(r[k] for k in ('unsupported', 'timeouts', 'exceptions', 'aborted'))]
    lost = [r for r in lost if not any(v[0] is r for v in violations)]
    sampled = 0
    some = [r for r in results if r not in lost and not any(v[0] is r for v in violations)
            and (r['unsupported'] or r['timeouts'] or not r['complete'])]
    jobs2 = [dict(job_of(r['task'], []), some=200) for r in lost] + [dict(job_of(r['task'], []), some=40, timeout=20) for r in some]
    for r, o, j in zip(lost + some, replay(jobs2, workers), jobs2):
        sampled += o.get('runs', 0)
        if o['status'] in ('violation', 'exception'):
            violations.append((r, {'values': []}, o, j, 'run at random'))
        elif o.get('runs'):
            if r in some:
                continue
            r['sampled'] = o['runs']
            notes.append('the encoding could not follow task %s: %d runs of the real code at random instead' % (r['name'], o['runs']))

    # counterexamples that do not reproduce
    for r in results:
        if 'error' in r:
            continue
        groups = {}
        for c in r['candidates']:
            groups.setdefault((c['status'], c['label']), []).append(c)
        for (st, lab), cs in groups.items():
            if all(c.get('reproduced') is False for c in cs):
                unreproduced += 1
                msg = 'counterexample "%s" of %s does not reproduce on the real code: %s' % (
                    lab, r['name'], json.dumps(short(cs[0]['values']))[:800])
                if st == 'exception':
                    notes.append(msg + ' (%s)' % '; '.join(r['reasons'])[:600])
                else:
                    problems.append(msg)

    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(a.id + '-'):
            os.unlink(os.path.join(rdir, f))
    reported = {}
    seen_known = {}
    for r, c, o, j, kind in violations:
        tag = o.get('finding')
        if tag in known:
            seen_known.setdefault(tag, (r, c, o, j))
            continue
        key = (r['name'], o['status'], o.get('label'))
        reported.setdefault(key, (r, c, o, j, kind))
    for tag, (r, c, o, j) in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (a.id, known[tag]['what']))
    vlist = []
    shown = set()
    for i, (key, (r, c, o, j, kind)) in enumerate(sorted(reported.items(), key=lambda kv: str(kv[0]))):
        path = os.path.join(rdir, '%s-%d.json' % (a.id, i))
        with open(path, 'w') as f:
            json.dump({'property': a.id, 'task': r['name'], 'found_by': kind, 'label': o.get('label'),
                       'outcome': o['status'], 'trace': o.get('trace'), 'job': j}, f, indent=1)
        vlist.append({'task': r['name'], 'label': o.get('label'), 'replay': path})
        if (o['status'], o.get('label')) in shown and i >= 3:
            continue
        shown.add((o['status'], o.get('label')))
        print('  %s: %s %s with %s' % (r['name'], o['status'], o.get('label'), json.dumps(short(c['values']))[:600]))
        if o.get('trace'):
            print('    ' + o['trace'].strip().splitlines()[-1][:300])
        print('VIOLATION property=%s replay=%s' % (a.id, path))

    # totals
    tot = {k: 0 for k in ('paths', 'ok', 'aborted', 'unsupported', 'timeouts', 'exceptions', 'queries', 'unknowns',
                          'forks', 'asserted', 'trivial')}
    solver_s = 0.0
    funcs, labels, reasons = set(), {}, {}
    per_task = []
    for r in results:
        if 'error' in r:
            (notes if r.get('killed') or r.get('sampled') else problems).append('task %s: %s' % (r['name'], r['error']))
            per_task.append({'task': r['name'], 'error': r['error'][-300:]})
            continue
        for k in tot:
            tot[k] += r[k]
        solver_s += r['solver_s']
        funcs.update(r['functions'])
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r['reasons'].items():
            reasons[k] = reasons.get(k, 0) + v
        if r['divergence']:
            problems.append('task %s is not deterministic: %s' % (r['name'], r['divergence']))
        missing = [x for x in r['task'].get('reach', []) + r['task'].get('must', []) if x not in r['reached']]
        if missing and not r['candidates'] and r['complete'] and not r['unsupported']:
            problems.append('task %s never reached %s' % (r['name'], missing))
        elif missing:
            notes.append('task %s never reached %s' % (r['name'], missing))
        per_task.append({'task': r['name'], 'config': r['task']['config'], 'complete': r['complete'], 'paths': r['paths'],
                         'paths_ok': r['ok'], 'paths_assumed_away': r['aborted'], 'inconclusive': r['unsupported'] +
                         r['timeouts'], 'queries': r['queries'], 'solver_s': r['solver_s'], 'wall_s': r['wall_s'],
                         'assertions_by_solver': r['asserted'], 'assertions_by_normal_form': r['trivial']})
    if not tot['ok'] and not vlist and not seen_known and not problems and not sampled:
        problems.append('nothing was explored')
    if not labels and not vlist and not problems and not sampled:
        problems.append('no assertion was reached')
    complete = all(r.get('complete') and not r.get('unsupported') and not r.get('timeouts') for r in results)
    wall = time.monotonic() - t0
    samples = []
    for r in results:
        for s in r.get('samples', [])[:1]:
            if len(samples) < 12:
                samples.append({'task': r['name'], 'values': short(s['values'])})
    if vlist:
        samples = [{'violation': v} for v in vlist[:4]] + samples
    ev = {
        'property': a.id, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['forks'] + tot['paths'],
            'traces_validated_against_impl': validated, 'samples': samples or ['none'],
            'meaning': 'states: symbolic paths explored; transitions: path segments between feasible branch decisions',
            'exhaustive': bool(complete),
            'complete_within_bounds': bool(complete),
            'bounds': spec.get('bounds'),
            'functions_encoded': sorted(f for f in funcs if f.startswith('redeclipse')),
            'solver_queries': tot['queries'], 'solver_s': round(solver_s, 3), 'solver_unknown': tot['unknowns'],
            'assertions': labels, 'assertions_by_solver': tot['asserted'], 'assertions_by_normal_form': tot['trivial'],
            'paths_ok': tot['ok'], 'paths_assumed_away': tot['aborted'],
            'paths_inconclusive': tot['unsupported'] + tot['timeouts'], 'inconclusive_reasons': reasons,
            'inconclusive_paths_run_concretely': fallback_ok, 'runs_at_random_where_nothing_was_encoded': sampled,
            'sample_mismatches': mismatches, 'unreproduced_counterexamples': unreproduced,
            'tasks': per_task, 'notes': notes[:20], 'problems': problems[:20],
            'known_findings_seen': sorted(seen_known),
        },
        'assumptions': spec.get('assumptions', []) + specs.COMMON_ASSUMPTIONS,
        'violations': len(vlist), 'wall_s': round(wall, 3),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d paths (%d ok, %d assumed away, %d inconclusive), %d queries, %.1fs solver, %d validated, %s, %.1fs' % (
        a.id, tier, tot['paths'], tot['ok'], tot['aborted'], tot['unsupported'] + tot['timeouts'], tot['queries'],
        solver_s, validated, 'complete' if complete else 'INCOMPLETE', wall))
    for n in notes[:6 if not a.v else 100]:
        print('  note: ' + n[:1500 if a.v else 400])
    if a.v:
        for p in per_task:
            print('   ', json.dumps(p))
        print('   reasons', json.dumps(reasons, indent=1))
    if vlist:
        return 1
    if mismatches:
        problems.append('%d path samples behave differently on the real code' % mismatches)
    if problems:
        for p in problems[:6]:
            print('  PROBLEM: ' + p[:3000])
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
