#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current source by static analysis.

1. driver/ (a rustc_private compiler driver) type-checks /repo's working tree and dumps its resolved MIR;
2. the obligations of the property (checks/__init__.py) are decided over that MIR by the abstract interpreter in
   absint/ or by the rules in checks/rules.py;
3. every obligation is proved, violated, or undecided.  A violated one is reported as VIOLATION (exit 1), unless
   known_findings.json lists it by its key; undecided ones never raise an alarm, they are listed in the evidence and
   fewer discharged obligations than the floor counted by hand are an error of the check (exit 2).
"""
import json, multiprocessing as mp, multiprocessing.connection, os, resource, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(10000)
from absint.core import Program
from absint.harness import Checker, Rep, Missing
import checks

PROG = None
START = time.time()
PROP = None
LIMIT = 160          # seconds per task


def work(task):
    mod, fn, args = task
    ck = Checker(PROG, PROP)
    t = time.time()
    ck.deadline = min(t + LIMIT, START + 700)
    try:
        ck.rep = REP
        getattr(__import__('checks.' + mod, fromlist=[fn]), fn)(ck, *args)
    except Missing as m:
        ck.add('%s.%s%r' % (mod, fn, tuple(args)), fn, 'undecided', 0, 0, [], 'anchor not found: %s' % m)
    except Exception as e:
        if os.environ.get('ABSINT_DEBUG'): traceback.print_exc()
        ck.add('%s.%s%r' % (mod, fn, tuple(args)), fn, 'undecided', 0, 0, [], 'internal error: %s %s' % (type(e).__name__, e))
    return ck.obs, sorted(PROG.visited_fns), time.time() - t, task


def child(conn, task):
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    r = work(task)
    conn.send(r)
    conn.close()


def parallel(tasks, stop=None):
    """one process per task, at most one per core; a process that dies or overruns its time leaves its obligations undecided.
    Once stop[0] is set (a violation has been found), what is not decided soon is left undecided"""
    stop = stop or [None]
    ctx = mp.get_context('fork')
    todo = list(reversed(tasks)); run = {}
    while todo or run:
        if stop[0] and time.time() > stop[0]:
            for p, task, t in run.values(): p.kill(); p.join()
            for task, t in [(x[1], x[2]) for x in run.values()] + [(x, time.time()) for x in todo]: yield lost(task, t, 'not decided: another obligation is violated')
            return
        while todo and len(run) < min(8, os.cpu_count() or 1):
            task = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, task)); p.start()
            b.close()
            run[a] = (p, task, time.time())
        for a in mp.connection.wait(list(run), 5):
            p, task, t = run.pop(a)
            try: r = a.recv()
            except (EOFError, OSError): r = lost(task, t, 'the analysis process died')
            p.join()
            yield r
        for a in [a for a, (p, task, t) in run.items() if time.time() > min(t + LIMIT, START + 700) + 30]:
            p, task, t = run.pop(a)
            p.kill(); p.join()
            yield lost(task, t, 'time limit')


def lost(task, t, why):
    return [{'obligation': '%s.%s%r' % (task[0], task[1], tuple(task[2])), 'function': task[1], 'verdict': 'undecided', 'states': 0, 'exits': 0,
             'problems': [], 'note': why, 'steps': 0}], [], time.time() - t, task


def dump(features=()):
    d = tempfile.mkdtemp(prefix='vdump.')
    out = os.path.join(d, 'd.json')
    cmd = ['bash', os.path.join(HERE, 'dump.sh'), out]
    if features: cmd += ['--features', ','.join(features)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-3000:])
            print('ERROR: the source could not be analysed (it does not compile?)')
            sys.exit(2)
        return Program(out)
    finally:
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)


def main():
    global PROG, PROP, REP, LIMIT
    prop = PROP = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    for a in sys.argv[2:]:
        if a == '--thorough': tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier == 'thorough': LIMIT = 600
    t0 = time.time()
    spec = checks.PROPS[prop]
    PROG = dump(spec.get('features', ()))
    try: REP = Rep(PROG)
    except Missing as m:
        REP = None
        print('note: representation not recognised: %s' % m)
    tasks = spec['tasks'](tier) if callable(spec['tasks']) else spec['tasks']
    obs = []; fns = set()
    slow = []
    known = {}
    kf = os.path.join(HERE, 'known_findings.json')
    for k in json.load(open(kf))['findings']:
        if k['property'] == prop: known[k['key']] = k
    stop = [None]
    for o, f, dt, tk in map(work, tasks) if os.environ.get('VERIF_SERIAL') else parallel(tasks, stop):
        obs += o; fns |= set(f); slow.append((dt, tk))
        if stop[0] is None and any(x['verdict'] == 'violated' and (x.get('key') or x['obligation']) not in known for x in o): stop[0] = time.time() + 20
    obs.sort(key=lambda o: o['obligation'])
    viol = []; seen_known = []
    for o in obs:
        if o['verdict'] != 'violated': continue
        key = o.get('key') or o['obligation']
        if key in known: seen_known.append((key, o))
        else: viol.append(o)
    for key, o in seen_known:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, known[key]['what']))
    proved = [o for o in obs if o['verdict'] == 'proved']
    und = [o for o in obs if o['verdict'] == 'undecided']
    replay = None
    if viol:
        rd = os.path.join(HERE, 'out'); os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, 'violation-%s.json' % prop)
        json.dump(viol, open(replay, 'w'), indent=1)
    tot = sum(o['states'] for o in obs); ex = sum(o['exits'] for o in obs); steps = sum(o['steps'] for o in obs)
    cov = {
        'obligations': len(obs), 'discharged': len(proved) + len(seen_known), 'checker_cmd': 'python3 check.py %s' % prop,
        'trusted_base': ['rustc (type checking, MIR construction and callee resolution)', 'driver/ (MIR serialisation)',
                         'absint/ (abstract semantics of MIR and of the standard library calls)', 'the obligations and oracles in checks/'],
        'explanation': spec['explanation'],
        'technique': spec['technique'],
        'undecided': [{'obligation': o['obligation'], 'why': o['note']} for o in und][:60],
        'initial_abstract_states': tot, 'exit_states_judged': ex, 'mir_steps': steps,
        'functions_analysed': sorted(fns),
        'samples': [{k: o[k] for k in ('obligation', 'function', 'verdict', 'states', 'exits', 'steps')} for o in obs][:400],
        'known_findings': [k for k, _ in seen_known],
        'exhaustive': not und,
    }
    wall = round(time.time() - t0, 2)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec['level'], 'coverage': cov, 'assumptions': spec.get('assumptions', []),
          'wall_s': wall, 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d proved, %d undecided, %d violated, %d known; %d initial states, %d exits, %d steps; %.1f s'
          % (prop, len(obs), len(proved), len(und), len(viol), len(seen_known), tot, ex, steps, wall))
    for o in und[:20]: print('  undecided: %s: %s' % (o['obligation'], o['note']))
    if os.environ.get('VERIF_SLOW'):
        for dt, tk in sorted(slow, key=lambda x: -x[0])[:8]: print('  %.1f s %s' % (dt, tk))
    if viol:
        for o in viol[:12]:
            print('  violated: %s [%s]' % (o['obligation'], o['function']))
            for pb in o['problems'][:3]: print('      ' + pb)
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        sys.exit(1)
    floor = spec['floor'](tier) if callable(spec['floor']) else spec['floor']
    if len(proved) + len(seen_known) < floor:
        print('ERROR: %d obligations discharged, at least %d expected' % (len(proved) + len(seen_known), floor))
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
