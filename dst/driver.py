"""Runs campaigns over worker processes, minimises and replays violations, writes evidence."""
import copy
import hashlib
import json
import os
import random
import select
import subprocess
import sys
import time

TITLES = {}
# cases per quick / thorough run
CASES = {'C01': (800, 6000), 'C02': (440, 4000), 'C03': (1200, 8000), 'C04': (450, 4500), 'C05': (400, 5000), 'C06': (720, 5000),
         'C07': (640, 5000), 'C08': (480, 4000), 'C09': (540, 5000), 'C10': (1200, 9000), 'C11': (720, 5000), 'C12': (600, 5000),
         'C13': (960, 6000), 'C14': (720, 5000), 'C15': (600, 5000), 'C16': (1600, 16000), 'C17': (1280, 9000), 'C18': (900, 7000),
         'C19': (800, 7000)}
SOFT_LIMIT = {'quick': 420, 'thorough': 780}
MAX_FOUND = 3


# ================================================================ inside a worker (code under test imported)
def run_case(prop, seed, i, tier, emit, stop):
    from . import camp, sim
    rng = random.Random('%s|%s|%s' % (prop, seed, i))
    st = {'case': i, 'runs': 0, 'clock': 0.0, 'fired': {}, 'states': set(), 'inter': set(), 'probes': {}, 'scn': [], 'viol': [], 'herr': [],
          'cmds': {}, 'plans': [], 'points': 0, 'nontrivial': 0, 'hashes': []}

    def ex(scn, hashes=False):
        if stop():
            raise StopIteration
        scn = sim.norm(scn)
        o = sim.execute(scn, prop)
        st['runs'] += 1
        if o.get('hang'):
            o2 = sim.execute(scn, prop)
            if not o2.get('hang'):
                o = o2
        if o.get('herr'):
            st['herr'].append({'case': i, 'err': o['herr'], 'scn': scn})
        elif not o.get('hang'):
            st['clock'] += o['clock']
            st['points'] += len(o['points'])
            for f in o['fired']:
                k = '%s@%s' % (f[3], f[4])
                st['fired'][k] = st['fired'].get(k, 0) + 1
            st['states'].update(o['states'])
            if o['inter']:
                st['inter'].add(o['inter'])
            for k, v in o['probes'].items():
                st['probes'][k] = st['probes'].get(k, 0) + v
            w = 0
            for r in o['results']:
                if r['cmd']:
                    k = '%s %s' % (r['cmd'], 'ok' if r['success'] else (r['ended'] if r['ended'] in ('killed', 'runaway') else 'failed'))
                    st['cmds'][k] = st['cmds'].get(k, 0) + 1
                    w += r['writes']
            d = hashlib.sha256(json.dumps(scn, sort_keys=True).encode()).hexdigest()[:16]
            st['scn'].append(d)
            if w or o['fired'] or len(o['states']) > 1:
                st['nontrivial'] += 1
            if hashes:
                st['hashes'].append([[r['cmd'], r['success'], r['plan']] for r in o['results'] if r['cmd']])
                st.setdefault('hash_scn', []).append(scn)
        for v in o['viol']:
            st['viol'].append({'sig': v[0], 'text': v[1], 'scn': scn, 'case': i})
        if o['viol'] or o.get('herr'):
            o.setdefault('points', [])
        return o
    try:
        camp.CAMPAIGNS[prop](rng, ex, tier)
    except StopIteration:
        st['stopped'] = True
    st['states'] = sorted(st['states'])
    st['inter'] = sorted(st['inter'])
    emit(st)
    return st


def internal(argv, repo):
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open('/dev/null', os.O_WRONLY)
    os.dup2(devnull, 1)

    def emit(x):
        out.write(json.dumps(x) + '\n')
        out.flush()
    cmd = argv[0]
    if cmd == '--internal-worker':
        prop, seed, k, n, total, tier, limit = argv[1], argv[2], int(argv[3]), int(argv[4]), int(argv[5]), argv[6], float(argv[7])
        end = time.monotonic() + limit
        found = {}
        case = list(range(k, total, n))
        if len(argv) > 8:
            case = [int(x) for x in argv[8].split(',')]
        for i in case:
            if time.monotonic() > end:
                emit({'late': i})
                break
            st = run_case(prop, seed, i, tier, emit, lambda: time.monotonic() > end)
            for v in st['viol']:
                found[v['sig']] = found.get(v['sig'], 0) + 1
            if sum(found.values()) >= MAX_FOUND or len(st['herr']) > 0 and sum(1 for _ in st['herr']) > 5:
                break
        emit({'done': True})
    elif cmd == '--internal-run':
        # one scenario from stdin: {"prop","scn"}
        from . import sim
        job = json.load(sys.stdin)
        o = sim.execute(job['scn'], job['prop'])
        emit({'viol': o['viol'], 'herr': o.get('herr'), 'digest': o.get('digest'), 'hang': o.get('hang'),
              'plans': [[r['cmd'], r['success'], r['plan']] for r in o.get('results', []) if r['cmd']]})
    elif cmd == '--internal-digests':
        # event digests of the runs of some cases (determinism self-check)
        from . import camp, sim
        prop, seed = argv[1], argv[2]
        res = []
        for i in [int(x) for x in argv[3].split(',')]:
            rng = random.Random('%s|%s|%s' % (prop, seed, i))
            ds = []

            def ex(scn, hashes=False):
                o = sim.execute(sim.norm(scn), prop)
                ds.append(o.get('digest') or str(o.get('herr') or 'hang'))
                return o
            camp.CAMPAIGNS[prop](rng, ex, 'quick')
            res.append(ds)
        emit({'digests': res})
    elif cmd == '--internal-shrink':
        from . import shrink
        job = json.load(sys.stdin)
        emit(shrink.shrink(job['scn'], job['prop'], job['sig'], job.get('budget', 60)))


# ================================================================ the parent
class Ctl:
    def __init__(self, here, repo, py, env_for):
        self.here, self.repo, self.py, self.env_for = here, repo, py, env_for

    def start(self, args, hashseed, stdin=None):
        return subprocess.Popen([self.py, '-W', 'ignore', os.path.join(self.here, 'check.py')] + args, stdin=subprocess.PIPE if stdin else subprocess.DEVNULL,
                                stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.env_for(hashseed), cwd=self.here)

    def call(self, args, hashseed, job=None, timeout=300):
        p = self.start(args, hashseed, stdin=job is not None)
        try:
            so, se = p.communicate(json.dumps(job).encode() if job is not None else None, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return None
        try:
            return json.loads(so.decode().strip().split('\n')[-1])
        except ValueError:
            sys.stderr.write(se.decode('utf8', 'replace')[-2000:])
            return None


def fold(tot, st):
    for k in ('runs', 'points', 'nontrivial'):
        tot[k] = tot.get(k, 0) + st[k]
    tot['clock'] = tot.get('clock', 0.0) + st['clock']
    for k in ('fired', 'probes', 'cmds'):
        d = tot.setdefault(k, {})
        for a, b in st[k].items():
            d[a] = d.get(a, 0) + b
    for k in ('states', 'inter', 'scn'):
        tot.setdefault(k, set()).update(st[k])
    tot['cases'] = tot.get('cases', 0) + 1


def campaign(ctl, prop, seed, tier, total, nworkers, limit):
    procs = []
    for k in range(nworkers):
        p = ctl.start(['--internal-worker', prop, str(seed), str(k), str(nworkers), str(total), tier, str(limit)], k + 1)
        os.set_blocking(p.stdout.fileno(), False)
        procs.append([p, b'', False, k])
    tot, viol, herr, late, hashes = {}, [], [], [], {}
    errs = []
    hard = time.monotonic() + limit + 260
    openp = list(procs)
    while openp:
        r, _, _ = select.select([x[0].stdout for x in openp], [], [], 5)
        if time.monotonic() > hard:
            for x in openp:
                x[0].kill()
            errs.append('workers did not finish in time')
            break
        for x in list(openp):
            if x[0].stdout not in r:
                continue
            b = x[0].stdout.read()
            if b is None:
                continue
            if b == b'':
                openp.remove(x)
                x[0].wait()
                if not x[2]:
                    errs.append('worker %d ended early (%s): %s' % (x[3], x[0].returncode, x[0].stderr.read().decode('utf8', 'replace')[-1500:]))
                continue
            x[1] += b
            while b'\n' in x[1]:
                line, x[1] = x[1].split(b'\n', 1)
                st = json.loads(line)
                if st.get('done'):
                    x[2] = True
                elif 'late' in st:
                    late.append(st['late'])
                else:
                    fold(tot, st)
                    for v in st['viol']:
                        v['hash'] = x[3] + 1
                        viol.append(v)
                    herr += st['herr']
                    if st['hashes']:
                        hashes[st['case']] = (x[3] + 1, st['hashes'], st['hash_scn'])
    return tot, viol, herr, late, errs, hashes


def write_replay(here, prop, item):
    d = os.path.join(here, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(item['scn'], sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, '%s-%s-%s.json' % (prop, ''.join(c if c.isalnum() else '_' for c in item['sig'])[:30], h))
    with open(p, 'w') as f:
        json.dump(item, f, indent=1, sort_keys=True, ensure_ascii=False)
    return p


def replay(ctl, path):
    with open(path) as f:
        item = json.load(f)
    prop = item['property']
    if item.get('hashes'):
        got = [ctl.call(['--internal-run'], h, {'prop': prop, 'scn': item['scn']}) for h in item['hashes']]
        if any(g is None or g['herr'] for g in got):
            return item, None, got
        bad = got[0]['plans'] != got[1]['plans']
        return item, [[item['sig'], item['text']]] if bad else [], got
    g = ctl.call(['--internal-run'], item.get('hash', 1), {'prop': prop, 'scn': item['scn']})
    if g is None or g['herr']:
        return item, None, g
    return item, g['viol'], g


def load_known(here, prop):
    p = os.path.join(here, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


def main(argv, here, repo, py, env_for, nworkers):
    ctl = Ctl(here, repo, py, env_for)
    if argv[:1] == ['--replay']:
        item, viol, got = replay(ctl, argv[1])
        if viol is None:
            print('replay failed: %s' % (got,))
            return 2
        hit = [v for v in viol if v[0] == item['sig']]
        for v in viol:
            print('%s: %s' % (v[0], v[1]))
        if isinstance(got, dict) and item.get('digest') and got.get('digest') != item['digest']:
            print('note: the run differs from the recorded one (the code has changed)')
        if hit:
            print('VIOLATION property=%s replay=%s' % (item['property'], argv[1]))
            return 1
        print('not reproduced')
        return 0
    if argv[:1] == ['--selftest']:
        det = determinism(ctl, 'C02', 1, 24)
        print('simulator: %s' % det)
        return 0 if det and det['equal'] else 2
    prop = argv[0]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    total = CASES[prop][1 if tier == 'thorough' else 0]
    if len(argv) > 1:
        total = int(argv[1])
    t0 = time.time()
    # an import failure of the code under test is no verdict
    tot, viol, herr, late, errs, hashes = campaign(ctl, prop, seed, tier, total, nworkers, SOFT_LIMIT[tier])
    t1 = time.time()
    sameh = compare_hashes(ctl, prop, hashes, viol, tot, nworkers)
    # determinism of the simulator itself, on some cases, under another hash seed and in another process
    det = determinism(ctl, prop, seed, min(total, 400))
    known = run_known(ctl, here, prop)
    rc = 0
    replays = []
    seen = set()
    viol.sort(key=lambda v: (v['case'], v['sig']))
    for v in viol:
        if v['sig'] in seen or len(seen) >= 3:
            continue
        seen.add(v['sig'])
        item = {'property': prop, 'sig': v['sig'], 'text': v['text'], 'scn': v['scn'], 'hash': v.get('hash', 1), 'seed': seed, 'case': v['case']}
        if v.get('hashes'):
            item['hashes'] = v['hashes']
        else:
            g = ctl.call(['--internal-shrink'], item['hash'], {'prop': prop, 'scn': v['scn'], 'sig': v['sig'], 'budget': 45 if tier == 'quick' else 120}, timeout=400)
            if g:
                item.update(scn=g['scn'], text=g['text'] or item['text'], digest=g['digest'], shrink=g['info'])
        path = write_replay(here, prop, item)
        it, got, _ = replay(ctl, path)
        if not got or not any(x[0] == v['sig'] for x in got):
            herr.append({'case': v['case'], 'err': 'a violation (%s: %s) was not reproduced by its replay file' % (v['sig'], v['text'])})
            continue
        print('%s: %s' % (v['sig'], item['text']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        replays.append(path)
        rc = 1
    for k, ok in known:
        if ok:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    wall = time.time() - t0
    if rc == 0 and (herr or errs or (det and not det['equal'])):
        rc = 2
        for h in herr[:3]:
            print('HARNESS case %s: %s' % (h.get('case'), h['err'][:1500]))
            if 'scn' in h:
                with open('/tmp/dst-harness-error.json', 'w') as f:
                    json.dump({'property': prop, 'sig': 'harness', 'text': h['err'], 'scn': h['scn']}, f, indent=1)
        for e in errs[:3]:
            print('HARNESS %s' % e)
        if det and not det['equal']:
            print('HARNESS not deterministic: %s' % det)
    evidence(here, prop, tier, seed, total, tot, viol, wall, t1 - t0, det, known, late, replays, sameh)
    print('%s %s: %d cases, %d runs, %d statements and I/O points, %d faults, %d distinct database states, %.0f s%s' % (
        prop, tier, tot.get('cases', 0), tot.get('runs', 0), tot.get('points', 0), sum(tot.get('fired', {}).values()), len(tot.get('states', ())), wall,
        ' (stopped early)' if late else ''))
    return rc


def compare_hashes(ctl, prop, hashes, viol, tot, nworkers):
    """The same inputs under other hash seeds, in fresh interpreters."""
    if prop != 'C11' or not hashes:
        return None
    n = 0
    jobs = []
    for case in sorted(hashes)[:64]:
        h, got, scns = hashes[case]
        for g, s in zip(got, scns):
            other = (h * 7919 + case) % 4294967295
            jobs.append((case, h, other, g, s))
    run = []
    while jobs or run:
        while jobs and len(run) < nworkers:
            j = jobs.pop(0)
            p = ctl.start(['--internal-run'], j[2], stdin=True)
            p.stdin.write(json.dumps({'prop': prop, 'scn': j[4]}).encode())
            p.stdin.close()
            run.append((p, j))
        p, j = run.pop(0)
        so = p.stdout.read()
        p.wait()
        try:
            g = json.loads(so.decode().strip().split('\n')[-1])
        except ValueError:
            continue
        n += 1
        if not g['herr'] and g['plans'] != j[3]:
            viol.append({'sig': 'hash-seed', 'text': 'the plan differs between PYTHONHASHSEED=%s and %s' % (j[1], j[2]), 'scn': j[4], 'case': j[0],
                         'hashes': [j[1], j[2]], 'hash': j[1]})
    return n


def determinism(ctl, prop, seed, total):
    cases = sorted({0 % total, 7 % total, 23 % total})
    arg = ','.join(map(str, cases))
    a = ctl.start(['--internal-digests', prop, str(seed), arg], 1)
    b = ctl.start(['--internal-digests', prop, str(seed), arg], 1)
    out = []
    for p in (a, b):
        try:
            so, _ = p.communicate(timeout=300)
            out.append(json.loads(so.decode().strip().split('\n')[-1])['digests'])
        except (ValueError, subprocess.TimeoutExpired):
            p.kill()
            return None
    return {'cases': cases, 'runs': sum(len(x) for x in out[0]), 'equal': out[0] == out[1]}


def run_known(ctl, here, prop):
    out = []
    for k in load_known(here, prop):
        p = os.path.join(here, k['replay'])
        item, viol, _ = replay(ctl, p)
        out.append((k, bool(viol) and any(v[0] == item['sig'] for v in viol)))
    return out


REAL = ['mygrate.py and the whole mygrations package (parsing, comparison, planning, commands, driver)', 'pymysql (protocol, cursors, errors)',
        'argparse, glob, json, re and the rest of the interpreter']
STUB = ['MySQL server: a simulated one (dst/engine.py, dst/sqlparse.py, dst/wire.py) with transactions, locks, metadata locks, implicit commits, '
        'foreign keys and crash recovery', 'file system below /simfs', 'network sockets', 'clock and sleep', 'process death (unwinding the thread, closing its sockets)']


def evidence(here, prop, tier, seed, total, tot, viol, wall, cw, det, known, late, replays, sameh):
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    from .rules import RULES
    runs = tot.get('runs', 0)
    cov = {'evaluations': runs, 'distinct_nontrivial': min(tot.get('nontrivial', 0), len(tot.get('scn', ()))), 'rule': RULES[prop],
           'samples': samples(prop, seed), 'cases': tot.get('cases', 0), 'seeds_per_hour': round(tot.get('cases', 0) / max(cw, .001) * 3600),
           'runs_per_hour': round(runs / max(cw, .001) * 3600), 'simulated_seconds': round(tot.get('clock', 0.0), 1),
           'io_points': tot.get('points', 0), 'faults_fired': dict(sorted(tot.get('fired', {}).items())),
           'distinct_database_states': len(tot.get('states', ())), 'distinct_interleavings': len(tot.get('inter', ())),
           'states_measure': 'canonical structure and rows of the committed database; interleavings: order of actors and faults',
           'commands': dict(sorted(tot.get('cmds', {}).items())), 'probes': dict(sorted(tot.get('probes', {}).items())),
           'determinism': det, 'real_components': REAL, 'stub_components': STUB, 'stopped_early_at_cases': late,
           'known_findings': [{'what': k['what'], 'reproduced': ok} for k, ok in known], 'replays': replays}
    if sameh is not None:
        cov['hash_seed_comparisons'] = sameh
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(viol),
          'assumptions': ['the simulated server behaves like MySQL 5.7 / 8.0 on the statements the tool sends',
                          'declared schemas stay inside the dialect of DESIGN.md']}
    with open(os.path.join(here, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, ensure_ascii=False)


def samples(prop, seed):
    """The first scenarios of this run, written out."""
    from . import camp
    out = []

    class Enough(Exception):
        pass

    def ex(scn, hashes=False):
        out.append(json.loads(json.dumps(scn)))
        raise Enough
    for i in range(3):
        try:
            camp.CAMPAIGNS[prop](random.Random('%s|%s|%s' % (prop, seed, i)), ex, 'quick')
        except Enough:
            pass
    for s in out:
        s.pop('note', None)
    return out[:2]
