"""Campaigns: how each property's scenarios are made.  campaign(rng, ex, tier): ex(scn) executes one scenario."""
import copy
import random
import re

from . import dialect, gen, judge, model, render, sqlparse, sqltok
from .engine import Server, Table
from .gen import pick
from .values import SqlError

ERRS = [(1205, 'Lock wait timeout exceeded; try restarting transaction', 'HY000'),
        (1213, 'Deadlock found when trying to get lock; try restarting transaction', '40001'),
        (1053, 'Server shutdown in progress', '08S01'), (1114, 'The table is full', 'HY000'),
        (1317, 'Query execution was interrupted', '70100'), (1041, 'Out of memory', 'HY000'),
        (1142, 'command denied to user', '42000'), (1021, 'Disk full; waiting for someone to free some space', 'HY000'),
        (1290, 'The MySQL server is running with the --read-only option', 'HY000'), (1062, "Duplicate entry '1' for key 'PRIMARY'", '23000'),
        (1452, 'Cannot add or update a child row: a foreign key constraint fails', '23000'), (1406, "Data too long for column", '22001')]
SOFT = ('stall', 'frag')


# ---------------------------------------------------------------- building blocks
def server(rng, **kw):
    s = {'style': pick(rng, ['5.7', '8.0'])}
    s.update(kw)
    return s


def layout(rng, target):
    out = {}
    names = [m['n'] for m in target]
    if names and rng.random() < .5:
        rng.shuffle(names)
        groups = []
        while names:
            k = rng.randrange(1, 4)
            groups.append(names[:k])
            names = names[k:]
        out['split'] = groups
        out['names'] = {str(k): '%s_%02d.sql' % (pick(rng, ['zz', 'aa', 'part', '0']), k) for k in range(len(groups)) if rng.random() < .5}
    if rng.random() < .25:
        out['rows_apart'] = True
    return out


def style(rng, ft):
    s = gen.style(rng, ft)
    if rng.random() < .2:
        s['head'] = pick(rng, ['all about it', "it's; here", 'CREATE TABLE nothing (x INT);', '"half', 'ünïcode'])
        s['cstyle'] = rng.random() < .4
    if rng.random() < .1:
        s['hash'] = 1
    return s


def tree(rng, ft, target, plain=False):
    if plain:
        return {'model': target}
    return {'model': target, 'style': style(rng, ft), 'layout': layout(rng, target)}


def base(rng, ft=None, nmut=None, **kw):
    ft = ft or gen.Features(rng)
    p = gen.pair(rng, ft, nmut, **kw)
    if p is None:
        return None, ft
    live, target, done = p
    scn = {'server': server(rng), 'live': live, 'trees': {'A': tree(rng, ft, target)}, 'fs_seed': rng.randrange(1000),
           'phases': [], 'note': done}
    if rng.random() < .15:
        scn['read_chunk'] = pick(rng, [1, 7, 64, 500])
    return scn, ft


def via_of(rng):
    return pick(rng, ['cli', 'cli', 'cli', 'prog', 'conn', 'conn'])


def cmd(rng, c, t='A', via=None, name='c', **kw):
    """Steps that run one command."""
    via = via or via_of(rng)
    st = {'do': 'cmd', 'cmd': c, 'via': via, 'tree': t}
    out = []
    if via == 'conn':
        out.append({'do': 'connect', 'conn': name, 'autocommit': rng.random() < .3})
        st['conn'] = name
        st['form'] = pick(rng, ['dir', 'dir/', 'dir', 'files', 'dirlist'])
        st['print'] = rng.random() < .5
    elif via == 'prog':
        st['print'] = rng.random() < .5
    st.update(kw)
    out.append(st)
    if via == 'conn' and c != 'apply':
        out.append({'do': 'sql', 'conn': name, 'sql': ['@rollback']})
    return out


def phase(*steps, **kw):
    ph = {'actors': [{'name': 'm1', 'steps': [s for x in steps for s in (x if isinstance(x, list) else [x])]}]}
    ph.update(kw)
    return ph


def net_fault(rng, kind, n, detail='', actor='m1', only=None):
    """A fault for an I/O point of the given kind."""
    if kind == 'connect':
        ks = ['refuse', 'timeout', 'dns', 'crash', 'kill']
    elif kind == 'req':
        ks = ['kill', 'kill_after', 'kill_after', 'req_lost', 'resp_lost', 'resp_lost', 'resp_trunc', 'err', 'err', 'err', 'crash_before', 'crash_after',
              'sigint']
        if detail == 'LOGIN':
            ks = ['kill', 'req_lost', 'resp_lost', 'resp_trunc', 'crash_before', 'crash_after']
    elif kind == 'read':
        ks = ['eio', 'garble', 'kill', 'sigint']
    elif kind == 'list':
        ks = ['eio', 'mid', 'kill']
    else:
        ks = ['eio', 'eio', 'kill', 'sigint']
    if only:
        ks = [k for k in ks if k in only] or [k for k in ks if k == 'kill']
    k = pick(rng, ks)
    f = {'actor': actor, 'n': n, 'kind': k}
    if k == 'err':
        f['code'], f['msg'], f['state'] = pick(rng, ERRS)
    elif k == 'kill_after' and rng.random() < .4:
        f['zombie'] = pick(rng, [5, 30])
    elif k == 'resp_trunc':
        f['frac'] = rng.random()
    elif k in ('crash_before', 'crash_after'):
        f['lose'] = rng.random() < .3
    elif k == 'eio':
        f['errno'] = pick(rng, ['EIO', 'EACCES', 'EMFILE', 'ENOENT', 'ESTALE', 'ENOMEM'])
    elif k in ('garble', 'truncate', 'mid'):
        f['at'] = rng.randrange(0, 400) if k != 'mid' else rng.randrange(0, 4)
    return f


def soft_fault(rng, n, actor='m1'):
    if rng.random() < .5:
        return {'actor': actor, 'n': n, 'kind': 'stall', 'secs': pick(rng, [1, 20, 300])}
    return {'actor': actor, 'n': n, 'kind': 'frag', 'size': pick(rng, [1, 3, 50])}


def points_of(o, ph=0, actor='m1', kinds=None, cmdstep=None):
    return [p for p in o.get('points') or [] if p[0] == ph and p[1] == actor and (kinds is None or p[4] in kinds) and
            (cmdstep is None or p[2] == cmdstep)]


def is_write(p):
    d = p[5].lstrip().upper()
    return p[4] == 'req' and not d.startswith(('SELECT', 'SHOW', 'LOGIN', 'COM_', 'SET AUTOCOMMIT', 'SET NAMES'))


def pick_points(rng, pts, k, bias=is_write):
    """k points, half of them where changes are made."""
    w = [p for p in pts if bias(p)]
    out = []
    for _ in range(k):
        src = w if w and rng.random() < .7 else pts
        if src:
            out.append(pick(rng, src))
    return out


def with_faults(scn, ph, faults):
    s = copy.deepcopy(scn)
    s['phases'][ph]['faults'] = faults
    return s


def chain(rng, ft, scn, k):
    """k more declared schemas after tree A, each reachable from the one before; returns the names of the trees."""
    names = ['A']
    try:
        cur = model.ideal(model.build(scn['live']), scn['trees']['A']['model'])
    except Exception:
        return names
    hist = [gen.strip(scn['live']), scn['trees']['A']['model']]
    for i in range(k):
        for _ in range(6):
            if rng.random() < .3:
                b = copy.deepcopy(pick(rng, hist))
                for m in b:
                    m.pop('data', None)
            else:
                b, _d = gen.mutate(rng, ft, hist[-1], None)
            if gen.valid(b) is None or not gen.supported(b):
                continue
            try:
                cur2 = model.ideal(cur, b)
            except Exception:
                continue
            n = 'BCDEFG'[i]
            scn['trees'][n] = tree(rng, ft, b)
            names.append(n)
            hist.append(b)
            cur = cur2
            break
    return names


# ---------------------------------------------------------------- application programs
def app_sql(rng, live, target, k, ft, tracked_ok=False):
    """Statements an application might run on tables the declared change keeps."""
    tgt = {m['n']: m for m in target}
    out = []
    for _ in range(k):
        cand = [m for m in live if m['n'] in tgt and tgt[m['n']].get('rows') is None and m.get('data') is not None]
        if not cand:
            return out
        m = pick(rng, cand)
        tm = tgt[m['n']]
        cols = [c for c in m['cols'] if gen.col(tm, c['n']) is not None and gen.col(tm, c['n']).get('t') == c['t'] and c['t'] != 'bit']
        fkc = {f['c'] for f in m['fks']} | {f['c'] for f in tm['fks']}
        u = gen.uniq_cols(m) | gen.uniq_cols(tm)
        free = [c for c in cols if c['n'] not in fkc and c['n'] not in u and c['n'] != 'id']
        r = rng.random()
        has_id = gen.col(m, 'id') is not None and gen.col(tm, 'id') is not None
        ids = [x['id'] for x in m['data'] if 'id' in x]
        if r < .5 and free and has_id and ids:
            c = pick(rng, free)
            v = gen.gen_value(rng, ft, c, rng.randrange(100), False)
            if v is None and not (c.get('null', True) and gen.col(tm, c['n']).get('null', True)):
                continue
            out.append('UPDATE `%s` SET `%s`=%s WHERE `id`=%s' % (m['n'], c['n'], sqlv(v), sqlv(pick(rng, ids))))
        elif r < .7 and has_id and ids:
            out.append('DELETE FROM `%s` WHERE `id`=%s' % (m['n'], sqlv(pick(rng, ids))))
        elif has_id:
            i = 100 + rng.randrange(27)
            vals = {'id': gen.id_value(m, i)}
            for c in cols:
                if c['n'] == 'id' or c['n'] in fkc and c.get('null', True) or c['t'] == 'json':
                    continue
                vals[c['n']] = gen.gen_value(rng, ft, c, i, c['n'] in u)
            out.append('INSERT INTO `%s` (%s) VALUES (%s)' % (m['n'], ', '.join('`%s`' % x for x in vals), ', '.join(sqlv(v) for v in vals.values())))
    return out


def sqlv(v):
    if v is None:
        return 'NULL'
    if isinstance(v, bool):
        return str(int(v))
    if isinstance(v, (int, float)):
        return repr(v)
    return "'" + str(v).replace('\\', '\\\\').replace("'", "''") + "'"


def app_actor(rng, name, sql, tx=None):
    tx = rng.random() < .5 if tx is None else tx
    out = []
    for q in sql:
        out.append(q)
        if rng.random() < .15:
            out.append('@sleep')
        if tx and rng.random() < .5:
            out.append(pick(rng, ['COMMIT', 'COMMIT', 'COMMIT', 'ROLLBACK']))
    if tx:
        out.append(pick(rng, ['COMMIT', 'COMMIT', 'ROLLBACK']))
    return {'name': name, 'steps': [{'do': 'app', 'sql': out, 'tx': tx}]}


def sched(rng):
    if rng.random() < .5:
        return {'seed': rng.randrange(1 << 30), 'policy': 'rand', 'switch': pick(rng, [.1, .3, .5, .9])}
    return {'seed': rng.randrange(1 << 30), 'policy': 'pct', 'depth': rng.randrange(1, 5), 'horizon': pick(rng, [20, 60, 150])}


def row_edits(rng, ft, target, k=3):
    """Someone changes declared rows behind the tool's back (but leaves them valid)."""
    out = []
    for m in target:
        if not m.get('rows'):
            continue
        u = gen.uniq_cols(m)
        fkc = {f['c'] for f in m['fks']}
        for _ in range(rng.randrange(0, k + 1)):
            r = pick(rng, m['rows'])
            cs = [c for c in m['cols'] if c['n'] != 'id' and c['n'] not in u and c['n'] not in fkc and c['t'] != 'bit']
            x = rng.random()
            if x < .5 and cs:
                c = pick(rng, cs)
                v = gen.nudge(rng, ft, c, r[c['n']]) if c['n'] in r and rng.random() < .5 else gen.gen_value(rng, ft, c, rng.randrange(50), False)
                if v is None and not c.get('null', True):
                    continue
                out.append('UPDATE `%s` SET `%s`=%s WHERE `id`=%s' % (m['n'], c['n'], sqlv(v), sqlv(r['id'])))
            elif x < .8:
                out.append('DELETE FROM `%s` WHERE `id`=%s' % (m['n'], sqlv(r['id'])))
            else:
                i = 50 + rng.randrange(40)
                q = gen.one_row(rng, ft, m, i)
                q = {k2: v for k2, v in q.items() if k2 not in fkc or v is not None}
                out.append('INSERT INTO `%s` (%s) VALUES (%s)' % (m['n'], ', '.join('`%s`' % a for a in q), ', '.join(sqlv(v) for v in q.values())))
    rng.shuffle(out)
    return out


def edit_step(sql):
    return {'do': 'app', 'sql': ['SET FOREIGN_KEY_CHECKS=0'] + sql, 'tx': False}


FKOPS = ['fk_dup', 'fk_dup', 'fk_dup', 'retype_pk', 'retype_pk', 'retype_pk', 'fk_rename', 'drop_fk', 'add_fk', 'fk_move', 'fk_act', 'mod_col', 'rename_index']


def fk_ridden(rng):
    """Features and operations where foreign keys are most of what changes."""
    ft = gen.Features(rng, fks=True)
    ft.twinfk = rng.random() < .6
    return ft, FKOPS


# ---------------------------------------------------------------- C01
def c01(rng, ex, tier):
    if rng.random() < .1:
        ft, ops = fk_ridden(rng)
        scn, ft = base(rng, ft, nmut=rng.randrange(2, 7), only=ops)
    else:
        scn, ft = base(rng)
    if not scn:
        return
    names = chain(rng, ft, scn, rng.randrange(0, 3))
    steps = []
    for n in names:
        via = via_of(rng)
        if rng.random() < .5:
            steps += cmd(rng, 'check', n, via=via, expect='ok')
        steps += cmd(rng, 'apply', n, expect='ok')
        steps += cmd(rng, 'plan', n, again=True, expect='ok')
        if rng.random() < .4:
            steps += cmd(rng, 'apply', n, again=True, expect='ok')
    scn['phases'] = [phase(steps)]
    o = ex(scn)
    pts = points_of(o, kinds=('req',))
    if not pts or o['viol']:
        return
    if rng.random() < .5:
        # slow and fragmented, but undisturbed
        ex(with_faults(scn, 0, [soft_fault(rng, pick(rng, pts)[3]) for _ in range(3)]))
    else:
        # started from wherever an interrupted run left the database
        s = copy.deepcopy(scn)
        first = phase(cmd(rng, 'apply', 'A', via='cli'))
        n = pick(rng, [p[3] for p in points_of(o) if p[2] <= 3] or [0])
        first['faults'] = [{'actor': 'm1', 'n': n, 'kind': pick(rng, ['kill', 'kill_after'])}]
        rest = []
        for n in names:
            rest += cmd(rng, 'apply', n, via='cli')
            rest += cmd(rng, 'apply', n, via='cli')
            rest += cmd(rng, 'plan', n, via='cli', again=True)
        s['phases'] = [first, phase(rest)]
        ex(s)


# ---------------------------------------------------------------- C02
def c02(rng, ex, tier):
    ft = gen.Features(rng)
    if rng.random() < .6:
        ft.tracked = True
    if rng.random() < .15:
        ft, ops = fk_ridden(rng)
        scn, ft = base(rng, ft, nmut=rng.randrange(2, 7), only=ops)
    else:
        scn, ft = base(rng, ft)
    if not scn:
        return
    scn['phases'] = [phase(cmd(rng, 'apply')), phase(cmd(rng, 'apply', via='cli'), cmd(rng, 'apply', via='cli'))]
    o = ex(scn)
    if o['viol']:
        return
    pts = points_of(o)
    wr = [p for p in pts if is_write(p)]
    for p in pick_points(rng, wr or pts, 6):
        s = with_faults(scn, 0, [net_fault(rng, p[4], p[3], p[5])])
        if rng.random() < .35:
            extra = phase(cmd(rng, 'apply', via='cli'))
            q = pick(rng, pts)
            extra['faults'] = [net_fault(rng, 'req', q[3])] if rng.random() < .8 else []
            s['phases'].insert(1, extra)
            if rng.random() < .3:
                e2 = copy.deepcopy(extra)
                e2['faults'] = [net_fault(rng, 'req', pick(rng, pts)[3])]
                s['phases'].insert(2, e2)
        ex(s)


def cut_after(s, p):
    """Ends the first phase with the step that point p belongs to; returns the name of the declared schema it concerns."""
    a = next(a for a in s['phases'][0]['actors'] if a['name'] == p[1])
    a['steps'] = a['steps'][:p[2] + 1]
    return next((st['tree'] for st in reversed(a['steps']) if st.get('tree')), 'A')


# ---------------------------------------------------------------- C03
def c03(rng, ex, tier):
    if rng.random() < .22:
        ft, ops = fk_ridden(rng)
        scn, ft = base(rng, ft, nmut=rng.randrange(2, 7), only=ops)
    else:
        scn, ft = base(rng)
    if not scn:
        return
    steps = []
    if rng.random() < .4:
        steps = cmd(rng, 'plan') + [{'do': 'run_plan'}] + cmd(rng, 'apply')
    else:
        names = chain(rng, ft, scn, rng.randrange(0, 3))
        for n in names:
            steps += cmd(rng, 'apply', n)
    scn['phases'] = [phase(steps)]
    o = ex(scn)
    if o['viol']:
        return
    # from where an interrupted run left the database
    pts = [p for p in points_of(o) if is_write(p)]
    for p in pick_points(rng, pts, 2):
        s = with_faults(scn, 0, [net_fault(rng, 'req', p[3], p[5], only=('kill', 'kill_after', 'crash_after'))])
        n = cut_after(s, p)
        s['phases'].append(phase(cmd(rng, 'apply', n, via='cli'), cmd(rng, 'apply', n, via='cli')))
        ex(s)


# ---------------------------------------------------------------- C04
def c04(rng, ex, tier):
    k = rng.random()
    ft = gen.Features(rng, tracked=True) if k < .45 else gen.Features(rng)
    # what differs decides what a plan has to work out: only rows, only keys, or anything
    scn, ft = base(rng, ft, only=['rows'] if k < .25 else ['add_fk', 'drop_fk', 'fk_act', 'fk_rename', 'add_index', 'drop_index'] if k < .35 else None)
    if not scn:
        return
    if rng.random() < .3:
        b = break_model(rng, scn['trees']['A']['model'])
        if b:
            scn['trees']['A'] = dict(scn['trees']['A'], **b[1])
    elif rng.random() < .15:
        scn['trees']['A']['damage'] = [{'kind': pick(rng, ['cut', 'garble']), 'k': rng.randrange(9), 'at': rng.randrange(300)}]
    steps = []
    for _ in range(rng.randrange(2, 6)):
        c = pick(rng, ['check', 'plan', 'plan_export', 'plan', 'plan_export', 'version'])
        steps += cmd(rng, c)
    scn['phases'] = [phase(steps)]
    o = ex(scn)
    pts = points_of(o)
    for p in pick_points(rng, pts, 3, bias=lambda p: p[4] == 'req'):
        ex(with_faults(scn, 0, [net_fault(rng, p[4], p[3], p[5])]))


# ---------------------------------------------------------------- C05
def c05(rng, ex, tier):
    scn, ft = base(rng)
    if not scn:
        return
    steps = []
    names = chain(rng, ft, scn, rng.randrange(0, 2))
    conn = rng.random() < .4
    if conn:
        steps.append({'do': 'connect', 'conn': 'c', 'autocommit': rng.random() < .4})
    for k, n in enumerate(names):
        if conn:
            form = pick(rng, ['dir', 'dir/', 'files', 'strings', 'string'])
            kw = [{'do': 'cmd', 'via': 'conn', 'conn': 'c', 'tree': n, 'form': form, 'print': rng.random() < .6} for _ in range(2)]
        else:
            kw = [{'do': 'cmd', 'via': pick(rng, ['cli', 'cli', 'prog']), 'tree': n, 'print': rng.random() < .6} for _ in range(2)]
        steps.append(dict(kw[0], cmd='plan', pair=k))
        steps.append(dict(kw[1], cmd='apply', pair=k, expect='ok'))
        if rng.random() < .5:
            steps.append(dict(kw[0], cmd='plan', pair=k + 100))
            steps.append(dict(kw[1], cmd='apply', pair=k + 100, expect='ok'))
    scn['phases'] = [phase(steps)]
    o = ex(scn)
    if o['viol']:
        return
    ap = {i for i, st in enumerate(steps) if st.get('cmd') == 'apply'}
    pts = [p for p in points_of(o, kinds=('req',)) if p[2] in ap]
    for p in pick_points(rng, pts, 3):
        ex(with_faults(scn, 0, [net_fault(rng, 'req', p[3], p[5], only=('req_lost', 'resp_lost', 'err', 'crash_after', 'sigint'))]))


# ---------------------------------------------------------------- C06
def depend(rng, ft, scn):
    """Lets application rows depend on live rows which the declared rows do not have (any more)."""
    tgt = scn['trees']['A']['model']
    for m in scn['live']:
        t = gen.find(tgt, m['n'])
        if m.get('data') is None or t is None or t.get('rows'):
            continue
        u = gen.uniq_cols(m)
        for f in m['fks']:
            p, q = gen.find(scn['live'], f['rt']), gen.find(tgt, f['rt'])
            if p is None or q is None or not p.get('rows') or not q.get('rows') or f['rc'] != 'id' or p is m or f['c'] in u:
                continue
            ids = [r['id'] for r in p['rows']]
            gone = [i for i in ids if all(r['id'] != i for r in q['rows'])]
            oldm, oldq = copy.deepcopy(m['data']), list(q['rows'])
            if not gone and len(q['rows']) > 1:
                r = pick(rng, [r for r in q['rows'] if r['id'] in ids] or q['rows'])
                q['rows'].remove(r)
                gone = [r['id']]
            if not m['data']:
                gen.gen_data(rng, ft, m, 2)
            for k, r in enumerate(m['data']):
                r[f['c']] = pick(rng, gone or ids) if k == 0 or rng.random() < .6 else pick(rng, ids)
            if gen.valid(scn['live']) is None or gen.feasible(scn['live'], tgt) is None:
                m['data'], q['rows'] = oldm, oldq
                continue
            return True
    return False


def c06(rng, ex, tier):
    k = rng.random()
    ft = gen.Features(rng, tracked=True, fks=True) if k < .4 else gen.Features(rng)
    scn, ft = base(rng, ft, only=['rows', 'rows', 'add_col', 'mod_col', 'drop_index'] if k < .25 else None)
    if not scn:
        return
    if k < .7:
        depend(rng, ft, scn)
    for m in scn['live']:
        if m.get('data') is not None and len(m['data']) < 2 and rng.random() < .5:
            old = m['data']
            gen.gen_data(rng, ft, m, 3)
            if gen.valid(scn['live']) is None or gen.feasible(scn['live'], scn['trees']['A']['model']) is None:
                m['data'] = old
    if rng.random() < .3:
        scn['server']['dbs'] = ['app', 'other']
        scn['other_dbs'] = {'other': copy.deepcopy(scn['live'])}
    scn['phases'] = [phase(cmd(rng, 'apply')), phase(cmd(rng, 'apply', via='cli'))]
    o = ex(scn)
    if o['viol']:
        return
    pts = points_of(o)
    for p in pick_points(rng, pts, 2):
        ex(with_faults(scn, 0, [net_fault(rng, p[4], p[3], p[5])]))
    sql = app_sql(rng, scn['live'], scn['trees']['A']['model'], rng.randrange(2, 7), ft)
    if sql:
        for _ in range(2):
            s = copy.deepcopy(scn)
            half = len(sql) // 2 if rng.random() < .4 else len(sql)
            s['phases'][0]['actors'].append(app_actor(rng, 'app1', sql[:half]))
            if sql[half:]:
                s['phases'][0]['actors'].append(app_actor(rng, 'app2', sql[half:]))
            s['phases'][0]['sched'] = sched(rng)
            if rng.random() < .4:
                p = pick(rng, pts)
                s['phases'][0]['faults'] = [net_fault(rng, p[4], p[3], p[5])]
            ex(s)


# ---------------------------------------------------------------- C07
def many_rows(rng, ft, model_):
    """Far more declared rows than a hand-written file usually has."""
    ok = [m for m in model_ if m.get('rows') and not m['fks'] and gen.uniq_cols(m) <= {'id'}
          and gen.col(m, 'id')['t'] in ('smallint', 'mediumint', 'int', 'integer', 'bigint')]
    if not ok:
        return
    m = pick(rng, ok)
    n = pick(rng, [60, 60, 130, 130, 300, 1001])
    have = {r['id'] for r in m['rows']}
    m['rows'] = m['rows'] + [gen.one_row(rng, ft, m, i, cols=set(m['rows'][0])) for i in range(20, 20 + n) if i not in have]


def c07(rng, ex, tier):
    ft = gen.Features(rng, tracked=True, quotes=True, bit=False)
    if rng.random() < .5:
        ft.text = ft.dates = ft.decimal = True
    scn, ft = base(rng, ft, only=pick(rng, [None, ['rows'], ['rows', 'rows', 'rows', 'mod_col', 'add_col', 'track', 'drop_col']]))
    if not scn:
        return
    if rng.random() < .08:
        many_rows(rng, ft, scn['trees']['A']['model'])
    names = chain(rng, ft, scn, rng.randrange(0, 2))
    steps = []
    for n in names:
        steps += cmd(rng, 'apply', n, expect='ok')
        if rng.random() < .5:
            e = row_edits(rng, ft, scn['trees'][n]['model'])
            if e:
                steps.append(edit_step(e))
                steps += cmd(rng, 'apply', n)
        if rng.random() < .6:
            steps += cmd(rng, 'apply', n, again=True)
    scn['phases'] = [phase(steps)]
    o = ex(scn)
    if o['viol']:
        return
    pts = [p for p in points_of(o) if is_write(p)]
    for p in pick_points(rng, pts, 2):
        s = with_faults(scn, 0, [net_fault(rng, 'req', p[3], p[5])])
        n = cut_after(s, p)
        s['phases'].append(phase(cmd(rng, 'apply', n, via='cli'), cmd(rng, 'apply', n, via='cli'), cmd(rng, 'apply', n, via='cli', again=True)))
        ex(s)


# ---------------------------------------------------------------- C08
def is_dml(p):
    return p[4] == 'req' and p[5].lstrip().upper().startswith(('INSERT', 'UPDATE', 'DELETE', 'COMMIT', 'SET FOREIGN', 'ROLLBACK'))


def c08(rng, ex, tier):
    ft = gen.Features(rng, tracked=True)
    scn, ft = base(rng, ft, nmut=rng.randrange(1, 5))
    if not scn:
        return
    e = row_edits(rng, ft, [m for m in scn['trees']['A']['model'] if m.get('rows') and any(x['n'] == m['n'] for x in scn['live'])]) \
        if rng.random() < .6 else []
    kw = dict(via=via_of(rng))
    pre = [edit_step(e)] if e else []
    scn['phases'] = [phase(pre)] if pre else []
    ph = len(scn['phases'])
    scn['phases'] += [phase(cmd(rng, 'apply', **kw)), phase(cmd(rng, 'apply', via='cli'))]
    o = ex(scn)
    if o['viol']:
        return
    pts = points_of(o, ph)
    for p in pick_points(rng, pts, 5, bias=is_dml):
        ex(with_faults(scn, ph, [net_fault(rng, p[4], p[3], p[5])]))


# ---------------------------------------------------------------- C09
def inside_cuts(text):
    """Byte positions strictly inside a statement of the text, where the rest is undoubtedly missing."""
    from .sqltok import tokenize
    toks = tokenize(text)
    out, start, last_close, depth = [], None, None, 0
    kind = None
    for t in toks:
        if start is None:
            start, kind, last_close = t.pos, t.val.upper() if isinstance(t.val, str) else '', None
        if t.kind == 'y' and t.val == '(':
            depth += 1
        if t.kind == 'y' and t.val == ')':
            depth -= 1
            if depth == 0:
                last_close = t.pos
        if t.kind == 'y' and t.val == ';' and depth == 0:
            end = t.pos if kind == 'INSERT' else last_close
            if end is not None:
                out.append((len(text[:start].encode('utf8')) + 1, len(text[:end].encode('utf8'))))
            start = None
    return out


def c09(rng, ex, tier):
    from .world import tree_files
    scn, ft = base(rng)
    if not scn:
        return
    ctl = []
    for c in ('check', 'plan'):
        ctl += cmd(rng, c, via='cli', control=True)
    forms = []
    via = pick(rng, ['cli', 'cli', 'prog', 'conn', 'conn'])
    kw = {'via': via}
    if via == 'conn':
        kw['form'] = pick(rng, ['dir', 'dir/', 'files', 'dirlist'])
    # fault-free run that tells where the input is read
    steps = cmd(rng, 'apply', **kw)
    scn['phases'] = [phase(ctl), phase(steps)]
    o = ex(scn)
    if o['viol']:
        return
    fsp = [p for p in points_of(o, 1) if p[4] in ('stat', 'list', 'open', 'read')]
    declared = [p for p in fsp if '/database' in p[5]]
    fl = tree_files(scn['trees']['A'])
    for p in pick_points(rng, declared or fsp, 5, bias=lambda p: p[4] in ('read', 'list')):
        s = copy.deepcopy(scn)
        c = pick(rng, ['apply', 'apply', 'apply', 'plan', 'check'])
        if c != 'apply':
            s['phases'][1]['actors'][0]['steps'][-1]['cmd'] = c
        f = net_fault(rng, p[4], p[3], p[5], only=('eio', 'mid', 'garble'))
        if p[4] == 'read' and rng.random() < .5:
            text = fl.get(p[5].rsplit('/', 1)[1])
            if isinstance(text, str):
                r = [x for x in inside_cuts(text) if x[1] > x[0]]
                if r:
                    a, b = pick(rng, r)
                    f = {'actor': 'm1', 'n': p[3], 'kind': 'truncate', 'at': rng.randrange(a, b)}
        if f['kind'] in ('garble',):
            text = fl.get(p[5].rsplit('/', 1)[1]) or ''
            f['at'] = rng.randrange(0, max(1, len(text)))
        s['phases'][1]['faults'] = [f]
        ex(s)
    # damage that is there before the run
    for _ in range(3):
        s = copy.deepcopy(scn)
        s['phases'] = [phase(*[cmd(rng, c, **dict(kw, bad='x')) for c in ('check', 'plan', 'apply')])]
        k = rng.random()
        why = None
        names = sorted(n for n in fl if isinstance(fl[n], str))
        if k < .55 and names:
            n = pick(rng, names)
            r = [x for x in inside_cuts(fl[n]) if x[1] > x[0]]
            if not r:
                continue
            a, b = pick(rng, r)
            s['trees']['A']['damage'] = [{'kind': 'cut', 'file': n, 'at': rng.randrange(a, b)}]
            why = '%s cut off inside a statement' % n
            if via == 'conn' and rng.random() < .3:
                for st in s['phases'][0]['actors'][0]['steps']:
                    if st.get('form'):
                        st['form'] = 'strings'
        elif k < .75 and names:
            n = pick(rng, names)
            s['trees']['A']['damage'] = [{'kind': 'garble', 'file': n, 'at': rng.randrange(0, len(fl[n].encode('utf8')) + 1)}]
            why = '%s is not UTF-8' % n
        elif k < .85:
            s['trees']['A'] = dict(s['trees']['A'], files={})
            # the configured location does not exist
            if via == 'conn':
                for st in s['phases'][0]['actors'][0]['steps']:
                    if st.get('form'):
                        st.update(form='path', path=pick(rng, ['/simfs/A/nowhere', '/simfs/A/nowhere/', '/simfs/A/database/none.sql', 'nowhere']))
            else:
                s['trees']['A']['cfg'] = {'conf': 'hostname_key = "DB_HOSTNAME"\nusername_key = "DB_USERNAME"\npassword_key = "DB_PASSWORD"\n'
                                          'database_key = "DB_DATABASE"\nenv_file = ".env"\nfiles_directory = "%s"\n' %
                                          pick(rng, ['nowhere/', 'nowhere', '/simfs/gone/', '../database/'])}
            why = 'the location does not exist'
        elif names:
            n = pick(rng, names)
            s['noaccess'] = [pick(rng, ['/simfs/A/database', '/simfs/A/database/' + n])]
            why = 'no permission for ' + s['noaccess'][0]
            if kw.get('form') == 'files' and s['noaccess'][0] == '/simfs/A/database':
                continue
        if not why:
            continue
        for st in s['phases'][0]['actors'][0]['steps']:
            if 'bad' in st:
                st['bad'] = why
        ex(s)


# ---------------------------------------------------------------- C10
def plain_style(tree):
    """Without the forms in which a missing index is implied."""
    if 'style' in tree:
        tree['style'] = {k: v for k, v in tree['style'].items() if k not in ('barefk', 'nofkidx', 'inlinepk')}


def break_model(rng, target):
    """(what, tree fields) that make the declared schema contradict itself."""
    t = copy.deepcopy(target)
    for m in t:
        m.pop('data', None)
    ops = [b_fk_table, b_fk_col, b_fk_type, b_fk_noindex, b_fk_setnull, b_dup_table, b_dup_col, b_dup_idx, b_dup_fk, b_row_table, b_row_col,
           b_row_noid, b_row_dup, b_syntax, b_fk_type, b_dup_fk, b_idx_col, b_fk_noindex, b_fk_selfindex, b_two_auto, b_two_primary,
           b_pk_col, b_auto_nokey, b_row_count, b_slip, b_slip] + [b_noise] * 9
    for _ in range(12):
        got = pick(rng, ops)(rng, copy.deepcopy(t))
        if got:
            return got
    return None


CONTRADICTION = {1050: 'a table twice', 1060: 'a column twice', 1061: 'an index name twice', 1068: 'two primary keys', 1072: 'a key on a missing column',
                 1075: 'AUTO_INCREMENT twice or without a key', 1822: 'no index on the referenced column', 1824: 'a reference to a missing table',
                 1826: 'a constraint name twice', 1830: 'SET NULL on a column that is not nullable', 3734: 'a reference to a missing column',
                 3780: 'mismatched types'}


def contradiction(t):
    """What the server has against the declared structure, created one table at a time and its foreign keys last; None if it takes it all
    or refuses it for another reason."""
    srv = Server(dbs=('app',))
    s = srv.open_session('root', 'app')
    db = srv.dbs['app']
    try:
        for m in t:
            if m['n'] in db:
                return 1050
            x = Table(m['n'])
            x.opts = {k: v for k, v in (m.get('opts') or {}).items() if k != 'AUTO_INCREMENT'}
            srv._build(s, x, None, model.table_acts(dict(m, fks=[])))
            db[m['n']] = x
        for m in t:
            for f in m['fks']:
                x = db[m['n']].clone()
                srv._build(s, x, db[m['n']], [('add_fk', model.mkfk(f))])
                db[m['n']] = x
    except SqlError as e:
        if e.code == 3780:
            a, b = gen.col(m, f['c']), gen.col(gen.find(t, f['rt']), f['rc'])
            cs = [{'utf8': 'utf8mb3'}.get(o, o) for o in ((y.get('opts') or {}).get('CHARSET') for y in (m, gen.find(t, f['rt'])))]
            if a['t'] in ('varchar', 'char', 'enum') and b['t'] == a['t'] and not (a.get('cs') or b.get('cs')) and (None in cs or cs[0] == cs[1]):
                return 0    # depends on what the server's defaults are
        return e.code if e.code in CONTRADICTION else 0
    return None


def is_bad(tree, orig):
    """Whether a smaller version of an invalid declared schema is still invalid."""
    t = tree['model']
    if tree.get('damage'):
        return t == orig['model']
    if contradiction(t):
        return True
    for m in t:
        if any(not any(i['c'][0] == f['c'] for i in m['idx']) for f in m['fks']):
            return True
        cols = {c['n'] for c in m['cols']}
        ids = [r.get('id') for r in m.get('rows') or []]
        if None in ids or len(set(ids)) < len(ids) or any(set(r) - cols for r in m.get('rows') or []):
            return True
    return False


def noise_op(rng, t):
    """One thoughtless edit."""
    if any(not x['cols'] for x in t):
        return None
    m, f = fkpick(rng, t)
    if f is None or rng.random() < .35:
        m = pick(rng, t)
        f = None
    p = gen.find(t, f['rt']) if f else None
    own = f and gen.col(m, f['c'])
    far = p and gen.col(p, f['rc'])
    kinds = ['col', 'idx', 'idx1', 'idxrev', 'idxname', 'type', 'null', 'auto', 'pk', 'table', 'dupcol', 'opts']
    if f:
        kinds += ['c', 'rc', 'rc', 'rt', 'otype', 'otype', 'ftype', 'ftype', 'uns', 'setnull', 'fkname', 'oidx', 'fidx', 'fidx', 'cs', 'cs2', 'last', 'far', 'own', 'osize', 'fsize']
    k = pick(rng, kinds)
    who = {'o': (m, own), 'f': (p, far)}.get(k[0]) if k in ('otype', 'ftype', 'oidx', 'fidx', 'osize', 'fsize') else None
    if who and not who[1]:
        return None
    if k == 'col':
        m['cols'].remove(pick(rng, m['cols']))
        if not m['cols']:
            return None
    elif k in ('far', 'own'):
        x, c = (p, far) if k == 'far' else (m, own)
        if not c or len(x['cols']) < 2:
            return None
        x['cols'].remove(c)
    elif k == 'table':
        if len(t) < 2:
            return None
        t.remove(p or m)
    elif k in ('oidx', 'fidx'):
        x, c = who
        for i in x['idx']:
            if i['c'][0] == c['n'] and (i['t'] != 'PRIMARY' or not any(y.get('auto') for y in x['cols'])):
                if rng.random() < .5:
                    o = [y['n'] for y in x['cols'] if y['n'] not in i['c'] and gen.indexable(y) and (i['t'] != 'PRIMARY' or not y.get('null', True))]
                    if o:
                        i['c'] = [pick(rng, o)] + i['c']
                        continue
                i['c'] = i['c'][1:]
        x['idx'] = [i for i in x['idx'] if i['c']]
    elif k in ('idx', 'idx1', 'idxrev', 'idxname'):
        if not m['idx']:
            return None
        i = pick(rng, m['idx'])
        if k == 'idx':
            m['idx'].remove(i)
        elif k == 'idx1':
            i['c'] = i['c'][1:] or [pick(rng, [c['n'] for c in m['cols']])]
        elif k == 'idxrev':
            i['c'] = i['c'][::-1]
        else:
            i['n'] = pick(rng, m['idx'])['n'] or i['n']
    elif k in ('type', 'otype', 'ftype'):
        c = who[1] if who else pick(rng, m['cols'])
        if c.get('auto'):
            return None
        new = gen.gen_type(rng, gen.Features(rng)) if rng.random() < .5 else {'t': pick(rng, list(gen.INTS)), 'uns': bool(c.get('uns'))}
        for a in ('len', 'dec', 'uns', 'w', 'cs', 'co', 'ascii', 'def', 'vals', 't', 'rawdef'):
            c.pop(a, None)
        c.update({a: v for a, v in new.items() if a not in ('null', 'n', 'def', 'rawdef')})
    elif k in ('osize', 'fsize'):
        c = who[1]
        if c['t'] != 'decimal':
            return None
        c.pop('def', None)
        c['len'] += 1
    elif k == 'uns':
        c = own if rng.random() < .5 or not far else far
        if not c or c['t'] not in gen.INTS or c.get('len') == 1:
            return None
        c['uns'] = not c.get('uns')
    elif k == 'null':
        c = pick(rng, m['cols'])
        c['null'] = not c.get('null', True)
        if c.get('def') == ['null']:
            c.pop('def')
    elif k == 'setnull':
        f[pick(rng, ['od', 'ou'])] = 'SET NULL'
        if own and rng.random() < .6:
            own['null'] = False
            if own.get('def') == ['null']:
                own.pop('def')
    elif k == 'auto':
        c = pick(rng, m['cols'])
        if c['t'] not in gen.INTS or c.get('len') == 1:
            return None
        c['auto'], c['null'] = not c.get('auto'), False
        c.pop('def', None)
    elif k == 'pk':
        c = pick(rng, m['cols'])
        if not gen.indexable(c) or c.get('null', True):
            return None
        m['idx'].append({'n': '', 't': 'PRIMARY', 'c': [c['n']]})
    elif k == 'dupcol':
        c = dict(pick(rng, m['cols']), n=pick(rng, m['cols'])['n'])
        c.pop('auto', None)
        m['cols'].insert(rng.randrange(len(m['cols']) + 1), c)
    elif k == 'opts':
        for x in t:
            x.setdefault('opts', {'ENGINE': 'InnoDB', 'CHARSET': 'utf8mb4'})
        m['opts'] = {'ENGINE': 'InnoDB', 'CHARSET': pick(rng, ['latin1', 'utf8', 'ascii'])}
    elif k == 'cs':
        c = own if rng.random() < .5 or not far else far
        if not c or c['t'] not in ('varchar', 'char'):
            return None
        c['cs'], c['co'] = pick(rng, [('latin1', 'latin1_swedish_ci'), ('utf8mb4', 'utf8mb4_bin'), ('utf8mb4', 'utf8mb4_unicode_ci')])
    elif k == 'cs2':
        # one character set, two collations
        if not own or not far or own is far or own['t'] not in ('varchar', 'char') or far['t'] not in ('varchar', 'char'):
            return None
        cs, a, b = pick(rng, [('utf8mb4', 'utf8mb4_bin', 'utf8mb4_unicode_ci'), ('latin1', 'latin1_swedish_ci', 'latin1_bin'),
                              ('utf8mb4', 'utf8mb4_unicode_ci', 'utf8mb4_general_ci')])
        own.update(cs=cs, co=a)
        far.update(cs=cs, co=b)
    elif k == 'last':
        # the column is in an index, but does not lead it
        x, c = pick(rng, [(m, own), (p, far)])
        if not c or c.get('auto'):
            return None
        x['idx'] = [i for i in x['idx'] if i['c'][0] != c['n']]
        o = [i for i in x['idx'] if c['n'] not in i['c'] and (i['t'] != 'PRIMARY' or not c.get('null', True))]
        if not o:
            return None
        pick(rng, o)['c'].append(c['n'])
    elif k == 'c':
        f['c'] = pick(rng, m['cols'])['n']
    elif k == 'rc':
        f['rc'] = pick(rng, (p or m)['cols'])['n'] if rng.random() < .7 else pick(rng, pick(rng, t)['cols'])['n']
    elif k == 'rt':
        f['rt'] = pick(rng, t)['n']
    elif k == 'fkname':
        o = [g for x in t for g in x['fks'] if g is not f]
        if not o:
            return None
        f['n'] = pick(rng, o)['n']
    return k


def b_noise(rng, t):
    """Thoughtless edits of a valid schema, kept when the server's own rules say that the result contradicts itself."""
    if not t:
        return None
    for _ in range(8):
        x = copy.deepcopy(t)
        for m in x:
            m['rows'] = None
        done = []
        for _ in range(pick(rng, [1, 1, 1, 2, 2, 3])):
            if x:
                done.append(noise_op(rng, x))
        if any(not m['cols'] for m in x):
            continue
        code = contradiction(x)
        if code:
            return '%s (after careless edits: %s)' % (CONTRADICTION[code], ', '.join(k for k in done if k)), {'model': x}
    return None


def fkpick(rng, t):
    c = [(m, f) for m in t for f in m['fks']]
    return pick(rng, c) if c else (None, None)


def b_fk_table(rng, t):
    m, f = fkpick(rng, t)
    if not f:
        return None
    f['rt'] = 'no_such_table'
    return 'foreign key to a missing table', {'model': t}


def b_fk_col(rng, t):
    m, f = fkpick(rng, t)
    if not f:
        return None
    if rng.random() < .5:
        f['rc'] = 'no_such_col'
        return 'foreign key to a missing column', {'model': t}
    f['c'] = 'no_such_col'
    return 'foreign key from a missing column', {'model': t}


def b_fk_type(rng, t):
    m, f = fkpick(rng, t)
    if not f:
        return None
    c = gen.col(m, f['c'])
    if c['t'] not in ('int', 'bigint', 'smallint', 'tinyint', 'mediumint') or c.get('auto') or (f['rt'] == m['n'] and f['rc'] == f['c']):
        return None
    if any(f2['rc'] == c['n'] and f2['rt'] == m['n'] for x in t for f2 in x['fks']):
        return None
    if rng.random() < .5:
        c['uns'] = not c.get('uns')
    else:
        c['t'] = 'bigint' if c['t'] != 'bigint' else 'int'
        c.pop('len', None)
        c['len'] = 20 if c['t'] == 'bigint' else 11
    if gen_same_type(t, m, f):
        return None
    return 'foreign key with mismatched types', {'model': t}


def gen_same_type(t, m, f):
    p = [x for x in t if x['n'] == f['rt']][0]
    a, b = gen.col(m, f['c']), gen.col(p, f['rc'])
    return a['t'] == b['t'] and bool(a.get('uns')) == bool(b.get('uns'))


def b_fk_noindex(rng, t):
    """The referenced or the referencing column has no index."""
    m, f = fkpick(rng, t)
    if not f:
        return None
    if rng.random() < .5:
        p, c = [x for x in t if x['n'] == f['rt']][0], f['rc']
    else:
        p, c = m, f['c']
    idx = [i for i in p['idx'] if i['c'][0] == c]
    if not idx or any(i['t'] == 'PRIMARY' for i in idx):
        return None
    p['idx'] = [i for i in p['idx'] if i['c'][0] != c]
    return 'foreign key without an index on %s.%s' % (p['n'], c), {'model': t}


def b_fk_setnull(rng, t):
    m, f = fkpick(rng, t)
    if not f:
        return None
    c = gen.col(m, f['c'])
    c['null'] = False
    if c.get('def') == ['null']:
        c.pop('def')
    f[pick(rng, ['od', 'ou'])] = 'SET NULL'
    return 'SET NULL on a column that is not nullable', {'model': t}


def b_dup_table(rng, t):
    if not t:
        return None
    m = pick(rng, t)
    e = copy.deepcopy(m)
    e['rows'] = None
    if rng.random() < .5 and len(e['cols']) > 1:
        e = {'n': m['n'], 'cols': [{'n': 'id', 't': 'int', 'len': 10, 'null': False}], 'idx': [{'n': '', 't': 'PRIMARY', 'c': ['id']}], 'fks': []}
    text = render.table_text(e)
    return 'table %s is declared twice' % m['n'], {'model': t, 'damage': [{'kind': 'append', 'k': rng.randrange(9), 'text': '\n' + text}]}


def b_dup_col(rng, t):
    c = [m for m in t if m['cols']]
    if not c:
        return None
    m = pick(rng, c)
    e = copy.deepcopy(pick(rng, m['cols']))
    e.pop('auto', None)
    if rng.random() < .5:
        e = {'n': e['n'], 't': 'int', 'len': 10, 'null': True}
    m['cols'].append(e)
    return 'column %s.%s is declared twice' % (m['n'], e['n']), {'model': t}


def b_dup_idx(rng, t):
    c = [m for m in t if any(i['t'] != 'PRIMARY' for i in m['idx'])]
    if not c:
        return None
    m = pick(rng, c)
    i = copy.deepcopy(pick(rng, [i for i in m['idx'] if i['t'] != 'PRIMARY']))
    m['idx'].append(i)
    return 'index %s of %s is declared twice' % (i['n'], m['n']), {'model': t}


def b_dup_fk(rng, t):
    c = [(m, f) for m in t for f in m['fks']]
    if not c:
        return None
    m, f = pick(rng, c)
    if len(c) > 1 and rng.random() < .6:
        o, g = pick(rng, [x for x in c if x[1] is not f])
        g['n'] = f['n']
        return 'constraint name %s is used twice' % f['n'], {'model': t}
    m['fks'].append(copy.deepcopy(f))
    return 'constraint %s is declared twice' % f['n'], {'model': t}


def b_row_table(rng, t):
    return 'rows for an unknown table', {'model': t, 'damage': [
        {'kind': 'append', 'k': rng.randrange(9), 'text': "\nINSERT INTO `no_such_table` (`id`,`name`) VALUES (1,'x');\n"}]} if t else None


def b_row_col(rng, t):
    c = [m for m in t if m.get('rows')]
    if not c:
        return None
    m = pick(rng, c)
    for r in m['rows']:
        r['no_such_col'] = 'x'
    return 'rows of %s give an unknown column' % m['n'], {'model': t}


def b_row_noid(rng, t):
    c = [m for m in t if m.get('rows') and len(m['cols']) > 1 and any(len(r) > 1 for r in m['rows'])]
    if not c:
        return None
    m = pick(rng, c)
    if rng.random() < .5:
        m['rows'] = [{k: v for k, v in r.items() if k != 'id'} for r in m['rows'] if len(r) > 1]
    else:
        pick(rng, m['rows'])['id'] = None
    return 'rows of %s without an id' % m['n'], {'model': t}


def b_row_dup(rng, t):
    c = [m for m in t if m.get('rows')]
    if not c:
        return None
    m = pick(rng, c)
    m['rows'].append(copy.deepcopy(pick(rng, m['rows'])))
    return 'two rows of %s have the same id' % m['n'], {'model': t}


def b_syntax(rng, t):
    if not t:
        return None
    bad = pick(rng, ['\nCREATE TABLE `broken` (`id` int(10) NOT NULL\n', '\nthis is no SQL;\n', '\nCREATE TABLE `broken` `id` int;\n',
                     "\nINSERT INTO `%s` VALUES 1;\n" % t[0]['n'],
                     '\nDROP TABLE `%s`;\n' % t[0]['n'], '\nCREATE TABLE broken (id INT(10), PRIMARY KEY (`id`) ENGINE=InnoDB;\n',
                     '\nINSERT INTO `%s` (`id`) VALUES (1\n' % t[0]['n']])
    return 'a statement that cannot be understood', {'model': t, 'damage': [{'kind': 'append', 'k': rng.randrange(9), 'text': bad}]}


def b_idx_col(rng, t):
    c = [m for m in t if any(i['t'] != 'PRIMARY' for i in m['idx'])]
    if not c:
        return None
    m = pick(rng, c)
    pick(rng, [i for i in m['idx'] if i['t'] != 'PRIMARY'])['c'] = ['no_such_col']
    return 'an index of %s on a missing column' % m['n'], {'model': t}


def b_fk_selfindex(rng, t):
    """A table that references a column of its own which has no index."""
    c = [m for m in t if any(x['n'] == 'id' for x in m['cols'])]
    if not c:
        return None
    m = pick(rng, c)
    for n in ('own_ref', 'own_target'):
        if any(x['n'] == n for x in m['cols']):
            return None
        m['cols'].append({'n': n, 't': 'int', 'null': True})
    m['idx'].append({'n': 'own_ref_ix', 't': 'INDEX', 'c': ['own_ref']})
    m['fks'].append({'n': m['n'] + '_own_fk', 'c': 'own_ref', 'rt': m['n'], 'rc': 'own_target', 'od': None, 'ou': 'CASCADE'})
    return 'foreign key to a column of the same table without an index', {'model': t}


def b_two_auto(rng, t):
    c = [m for m in t if any(x.get('auto') for x in m['cols'])]
    if not c:
        return None
    m = pick(rng, c)
    if any(x['n'] == 'second_auto' for x in m['cols']):
        return None
    m['cols'].append({'n': 'second_auto', 't': 'int', 'null': False, 'auto': True})
    if rng.random() < .5:
        m['idx'].append({'n': 'second_auto_ix', 't': 'UNIQUE', 'c': ['second_auto']})
    return 'two AUTO_INCREMENT columns in %s' % m['n'], {'model': t}


def b_two_primary(rng, t):
    c = [m for m in t if any(i['t'] == 'PRIMARY' for i in m['idx']) and any(not x.get('null', True) and x['n'] != 'id' and x['t'] == 'int' for x in m['cols'])]
    if not c:
        return None
    m = pick(rng, c)
    x = pick(rng, [x for x in m['cols'] if not x.get('null', True) and x['n'] != 'id' and x['t'] == 'int'])
    m['idx'].append({'n': '', 't': 'PRIMARY', 'c': [x['n']]})
    return 'two primary keys in %s' % m['n'], {'model': t}


def b_pk_col(rng, t):
    c = [m for m in t if any(i['t'] == 'PRIMARY' for i in m['idx']) and not any(x.get('auto') for x in m['cols']) or
         any(i['t'] == 'PRIMARY' and len(i['c']) > 1 for i in m['idx'])]
    if not c:
        return None
    m = pick(rng, c)
    i = [i for i in m['idx'] if i['t'] == 'PRIMARY'][0]
    i['c'] = i['c'][:-1] + ['no_such_col']
    return 'the primary key of %s is on a missing column' % m['n'], {'model': t}


def b_auto_nokey(rng, t):
    c = [m for m in t if any(x.get('auto') for x in m['cols']) and any(i['t'] == 'PRIMARY' for i in m['idx'])]
    c = [m for m in c if not any(i['t'] != 'PRIMARY' and i['c'][0] == [x['n'] for x in m['cols'] if x.get('auto')][0] for i in m['idx'])]
    c = [m for m in c if not any(f['rt'] == m['n'] for x in t for f in x['fks'])]
    if not c:
        return None
    m = pick(rng, c)
    m['idx'] = [i for i in m['idx'] if i['t'] != 'PRIMARY']
    return 'AUTO_INCREMENT in %s, which has no key' % m['n'], {'model': t}


def b_row_count(rng, t):
    c = [m for m in t if len(m['cols']) > 1]
    if not c:
        return None
    m = pick(rng, c)
    n = rng.randrange(2, len(m['cols']) + 1)
    cols = [x['n'] for x in m['cols']][:n]
    vals = ['1'] * (n + pick(rng, [-1, 1]))
    more = '(%s), ' % ','.join(['2'] * n) if rng.random() < .5 else ''
    return 'a row of %s has %d values for %d columns' % (m['n'], len(vals), n), {'model': t, 'damage': [
        {'kind': 'append', 'k': rng.randrange(9), 'text': '\nINSERT INTO `%s` (%s) VALUES %s(%s);\n' % (
            m['n'], ','.join('`%s`' % x for x in cols), more, ','.join(vals))}]}


def c10(rng, ex, tier):
    ft = gen.Features(rng, fks=True)
    if rng.random() < .5:
        ft.tracked = True
    scn, ft = base(rng, ft)
    if not scn:
        return
    for _ in range(4):
        got = break_model(rng, scn['trees']['A']['model'])
        if not got:
            return
        why, fields = got
        s = copy.deepcopy(scn)
        s['trees']['A'] = dict(s['trees']['A'], **fields)
        plain_style(s['trees']['A'])
        via = via_of(rng)
        kw = {'via': via, 'bad': why}
        if via == 'conn':
            kw['form'] = pick(rng, ['dir', 'dir/', 'files', 'dirlist', 'strings', 'string'])
        steps = []
        for c in rng.sample(['check', 'plan', 'apply'], 3):
            steps += cmd(rng, c, **kw)
        s['phases'] = [phase(steps)]
        o = ex(s)
        if o['viol']:
            return
        pts = points_of(o)
        if pts and rng.random() < .4:
            p = pick(rng, pts)
            ex(with_faults(s, 0, [net_fault(rng, p[4], p[3], p[5])]))


def slip(rng, text):
    """A statement with one slip of the pen in it that leaves it no statement at all, or None."""
    toks = sqltok.tokenize(text)
    depth, last = 0, len(toks) - 1
    if text[:6].upper() == 'CREATE':
        for i, t in enumerate(toks):
            depth += (t.kind == 'y') * ((t.val == '(') - (t.val == ')'))
            if depth == 0 and t.kind == 'y' and t.val == ')':
                last = i
    at = [t.pos for t in toks] + [len(text)]
    end = [len(text[:at[i + 1]].rstrip()) for i in range(len(toks))]
    ok = [i for i, t in enumerate(toks) if 2 < i <= last and not (t.kind == 'y' and t.val == ',') and not
          (t.kind == 'w' and t.val.upper() in ('KEY', 'INDEX', 'DEFAULT', 'PRIMARY', 'UNIQUE'))]
    if not ok:
        return None
    i = pick(rng, ok)
    a, b = at[i], end[i]
    k = pick(rng, ['del', 'dup', 'ins', 'swap'])
    if k == 'del':
        return 'without ' + text[a:b], text[:a] + text[b:]
    if k == 'dup':
        return 'twice ' + text[a:b], text[:b] + ' ' + text[a:b] + text[b:]
    if k == 'ins':
        x = pick(rng, [')', '(', ')', '(', '=', '5', 'x', "'"])
        if i == last:
            return None
        return 'a stray ' + x, text[:b] + ' ' + x + ' ' + text[b:]
    if i + 1 not in ok:
        return None
    c, d = at[i + 1], end[i + 1]
    return 'the wrong way round: %s' % text[a:d], text[:a] + text[c:d] + text[b:c] + text[a:b] + text[d:]


def b_slip(rng, t):
    if not t:
        return None
    m = copy.deepcopy(pick(rng, t))
    m['n'], m['fks'] = 'zz_more', []
    st = {k: 1 for k in ('lower', 'bare', 'sp', 'oneline', 'nlrows', 'one_per') if rng.random() < .2}
    parts = [render.create(m, st).strip()] + ([x for x in [render.inserts(m, st).strip()] if x] if m.get('rows') else [])
    w = rng.randrange(len(parts))
    for _ in range(20):
        try:
            got = slip(rng, parts[w].rstrip(';'))
        except sqltok.SqlSyntax:
            return None
        if not got:
            continue
        try:
            sqlparse.parse(got[1])
        except sqlparse.Unsupported:
            continue
        except sqltok.SqlSyntax:
            parts[w] = got[1] + ';'
            return 'a slip of the pen, ' + got[0], {'model': t, 'damage': [
                {'kind': 'append', 'k': rng.randrange(9), 'text': '\n' + '\n'.join(parts) + '\n'}]}
        except Exception:
            continue
    return None


# ---------------------------------------------------------------- C11
def c11(rng, ex, tier):
    scn, ft = base(rng)
    if not scn:
        return
    tgt = scn['trees']['A']['model']
    re_ = gen.reorder(rng, tgt)
    scn['trees']['B'] = tree(rng, ft, tgt)
    scn['trees']['C'] = tree(rng, ft, re_) if re_ is not None else tree(rng, ft, tgt)
    other = gen.pair(rng, gen.Features(rng))
    if other:
        scn['trees']['Z'] = tree(rng, ft, other[1])
    steps = []
    form = pick(rng, ['dir', 'dir/', 'files', 'dirlist'])
    use_conn = rng.random() < .5
    if use_conn:
        steps.append({'do': 'connect', 'conn': 'c'})

    def plan(t, form=None, **kw):
        st = {'do': 'cmd', 'cmd': 'plan', 'tree': t}
        if use_conn or form:
            if not use_conn:
                st.update(via='prog', form=form, print=False)
            else:
                st.update(via='conn', conn='c', form=form or 'dir', print=False)
        else:
            st.update(via='cli')
        st.update(kw)
        return st
    for k in range(3):
        steps.append(plan('A', form if use_conn else None, fs_seed=rng.randrange(1000), grp='g', same='A'))
        if k == 0 and other:
            steps.append(plan('Z', form if use_conn else None, fs_seed=1))
            steps.append({'do': 'cmd', 'cmd': 'check', 'via': 'cli', 'tree': 'Z'})
            steps.append({'do': 'cmd', 'cmd': 'plan_export', 'via': 'cli', 'tree': 'Z'})
    for t in ('B', 'C'):
        steps.append(plan(t, fs_seed=rng.randrange(1000), grp='g'))
    for f in rng.sample(['dir', 'dir/', 'files', 'dirlist', 'strings', 'string'], 3):
        steps.append(plan(pick(rng, ['A', 'B', 'C']), f, grp='g', why='given as ' + f, order=rng.randrange(1, 99)))
    scn['phases'] = [phase(steps)]
    ex(scn)
    # the same under other hash seeds: the parent compares what the workers report
    s = {k: v for k, v in scn.items() if k != 'phases'}
    s['phases'] = [phase([{'do': 'cmd', 'cmd': 'plan', 'via': 'cli', 'tree': t} for t in ('A', 'C')] +
                         [{'do': 'cmd', 'cmd': 'plan_export', 'via': 'cli', 'tree': 'A'}])]
    ex(s, hashes=True)


# ---------------------------------------------------------------- C12
def c12(rng, ex, tier):
    ft = gen.Features(rng)
    if rng.random() < .5:
        ft.tracked = True
    scn, ft = base(rng, ft)
    if not scn:
        return
    if rng.random() < .25:
        got = break_model(rng, scn['trees']['A']['model'])
        if got:
            scn['trees']['A'] = dict(scn['trees']['A'], **got[1])
            plain_style(scn['trees']['A'])
            via = via_of(rng)
            scn['phases'] = [phase(*[cmd(rng, c, via=via, bad=got[0]) for c in ('check', 'plan', 'apply')])]
            ex(scn)
        return
    via = via_of(rng)
    kw = {'via': via}
    scn['phases'] = [phase(cmd(rng, 'plan', control='k', **kw)), phase(cmd(rng, 'plan', control_of='k', **kw)), phase(cmd(rng, 'apply', **kw))]
    o = ex(scn)
    if o['viol']:
        return
    ap = points_of(o, 2)
    commits = [p for p in ap if p[4] == 'req' and p[5].upper().startswith('COMMIT')]
    for k in range(6):
        if k == 0 and commits:
            p = pick(rng, commits)
        else:
            p = pick_points(rng, ap, 1)[0]
        ex(with_faults(scn, 2, [net_fault(rng, p[4], p[3], p[5], only=None if rng.random() < .2 else
                                          ('req_lost', 'resp_lost', 'resp_trunc', 'err', 'crash_before', 'crash_after', 'refuse', 'timeout', 'dns', 'eio', 'mid', 'garble', 'sigint'))]))
    pl = [p for p in points_of(o, 1) if p[4] in ('connect', 'req')]
    if pl:
        p = pick(rng, pl)
        ex(with_faults(scn, 1, [net_fault(rng, p[4], p[3], p[5])]))


# ---------------------------------------------------------------- C13
def c13(rng, ex, tier):
    ft = gen.Features(rng)
    if rng.random() < .6:
        ft.tracked = True
    scn, ft = base(rng, ft)
    if not scn:
        return
    auto = rng.random() < .4
    init = ['SET FOREIGN_KEY_CHECKS=0'] if rng.random() < .1 else []
    c = {'do': 'connect', 'conn': 'c', 'autocommit': auto, 'init': init}
    probe = ['SELECT @@foreign_key_checks', '@commit', '@ping', 'SELECT @@foreign_key_checks']
    form = pick(rng, ['dir', 'files', 'string'])
    steps = [c, {'do': 'sql', 'conn': 'c', 'sql': ['SELECT @@foreign_key_checks'], 'role': 'pre'},
             {'do': 'cmd', 'cmd': 'apply', 'via': 'conn', 'conn': 'c', 'tree': 'A', 'form': form, 'print': rng.random() < .3},
             {'do': 'sql', 'conn': 'c', 'sql': probe, 'role': 'post'}]
    if rng.random() < .2:
        got = break_model(rng, scn['trees']['A']['model'])
        if got and not init:
            scn['trees']['A'] = dict(scn['trees']['A'], **got[1])
    if init:
        # a session without checks stays one at most: only what was on must be on again
        return
    scn['phases'] = [phase(steps)]
    o = ex(scn)
    if o['viol']:
        return
    pts = [p for p in points_of(o) if p[2] == 2]
    for p in pick_points(rng, pts, 5):
        only = ('err', 'err', 'sigint', 'req_lost', 'resp_lost', 'eio', 'garble')
        f = net_fault(rng, p[4], p[3], p[5], only=only)
        ex(with_faults(scn, 0, [f]))
    if rng.random() < .5 and len(scn['live']) > 1:
        # a lock held by an application makes a statement of apply time out
        sql = app_sql(rng, scn['live'], scn['trees']['A']['model'], 3, ft)
        if sql:
            s = copy.deepcopy(scn)
            s['server']['lock_wait'] = 3
            s['phases'][0]['actors'].append({'name': 'app1', 'steps': [{'do': 'app', 'sql': sql + ['@sleep'] * 8 + ['COMMIT'], 'tx': True}]})
            s['phases'][0]['sched'] = {'seed': rng.randrange(1000), 'policy': 'rand', 'switch': .5}
            ex(s)


# ---------------------------------------------------------------- C14
def c14(rng, ex, tier):
    ft = gen.Features(rng)
    if rng.random() < .6:
        ft.tracked = True
    scn, ft = base(rng, ft, nmut=rng.randrange(1, 6))
    if not scn:
        return
    names = ['A']
    if rng.random() < .5:
        # a second team declares something else
        b, _ = gen.mutate(rng, ft, scn['trees']['A']['model'], None)
        if gen.valid(b) is not None and gen.supported(b) and gen.feasible(scn['live'], b) is not None and both_ways(scn, b):
            scn['trees']['B'] = tree(rng, ft, b)
            names.append('B')
    sql = app_sql(rng, scn['live'], scn['trees']['A']['model'], rng.randrange(0, 5), ft)
    fin = pick(rng, names)
    o = None
    for k in range(4):
        s = copy.deepcopy(scn)
        acts = []
        for i in range(rng.randrange(2, 4)):
            st = cmd(rng, 'apply', pick(rng, names), name='c%d' % i)
            if rng.random() < .3:
                st += cmd(rng, 'apply', pick(rng, names), name='d%d' % i)
            acts.append({'name': 'm%d' % (i + 1), 'steps': st})
        if sql and rng.random() < .7:
            acts.append(app_actor(rng, 'app1', sql))
        kept = [m['n'] for m in scn['live'] if any(x['n'] == m['n'] and x.get('rows') is not None for x in scn['trees']['A']['model'])]
        if len(kept) > 1 and rng.random() < .5:
            # somebody locks the tables with declared rows in another order
            look = ['SELECT * FROM `%s` %s' % (n, pick(rng, ['FOR UPDATE', 'LOCK IN SHARE MODE'])) for n in reversed(kept)]
            if rng.random() < .4:
                rng.shuffle(look)
            acts.append({'name': 'app2', 'steps': [{'do': 'app', 'sql': sum([look[:3] + ['COMMIT'] for _ in range(3)], []), 'tx': True}]})
        s['phases'] = [{'actors': acts, 'sched': sched(rng)}, phase(cmd(rng, 'apply', fin, via='cli', final=True), fresh=True)]
        at = o and [p for p in o.get('points') or [] if p[0] == 0 and p[1][0] == 'm' and re.match(r'\s*(INSERT|UPDATE|DELETE)', p[5], re.I)]
        if at and rng.random() < .4:
            p = pick(rng, at)
            e = pick(rng, ERRS[:2])
            s['phases'][0]['faults'] = [{'actor': p[1], 'n': p[3], 'kind': 'err', 'code': e[0], 'msg': e[1], 'state': e[2]}]
        elif rng.random() < .35:
            s['phases'][0]['faults'] = [{'actor': 'm%d' % rng.randrange(1, 3), 'n': rng.randrange(5, 60),
                                         'kind': pick(rng, ['kill', 'kill_after', 'resp_lost', 'err']), 'code': 1213, 'msg': 'Deadlock found', 'state': '40001'}]
            for f in s['phases'][0]['faults']:
                if f['kind'] != 'err':
                    f.pop('code')
        o = ex(s)


def both_ways(scn, b):
    """Each of the two declared schemas can be reached from the other (with its data)."""
    a = scn['trees']['A']['model']
    try:
        ta, tb = model.ideal(model.build(scn['live']), a), model.ideal(model.build(scn['live']), b)
        model.ideal(ta, b)
        model.ideal(tb, a)
    except Exception:
        return False
    return True


# ---------------------------------------------------------------- C15
def c15(rng, ex, tier):
    ft = gen.Features(rng)
    if rng.random() < .6:
        ft.tracked = True
    scn, ft = base(rng, ft)
    if not scn:
        return
    via = via_of(rng)
    kw = {'via': via}
    if via == 'conn':
        kw['form'] = 'dir'
    if rng.random() < .2 and scn['live']:
        # a live table whose definition the tool cannot understand
        s = copy.deepcopy(scn)
        m = pick(rng, s['live'])
        c = pick(rng, m['cols'])
        what = None
        if c['t'] in ('datetime', 'timestamp') or rng.random() < .6:
            m['cols'].append({'n': 'stamp_x', 't': 'timestamp', 'null': False, 'def': ['now', None], 'onup': True})
            what = 'ON UPDATE'
        else:
            c['comment'] = 'a comment'
            what = 'COMMENT'
        if gen.valid(s['live']) is None:
            return
        steps = cmd(rng, 'plan', unreadable=what, **kw) + cmd(rng, 'apply', unreadable=what, **kw)
        s['phases'] = [phase(steps)]
        ex(s)
        return
    scn['phases'] = [phase(cmd(rng, 'plan', control='k', **kw)), phase(cmd(rng, 'plan', control_of='k', **kw)), phase(cmd(rng, 'apply', control_of='k', **kw))]
    o = ex(scn)
    if o['viol']:
        return
    for _ in range(6):
        ph = pick(rng, [1, 2, 2])
        pts = [p for p in points_of(o, ph) if p[4] == 'connect' or p[4] == 'req' and p[5].upper().startswith(('SHOW', 'SELECT', 'LOGIN'))]
        if not pts:
            return
        p = pick(rng, pts)
        if ph == 1 and rng.random() < .25 and p[4] == 'req':
            ex(with_faults(scn, 1, [soft_fault(rng, p[3])]))
            continue
        if p[4] == 'req' and p[5].upper().startswith('SHOW CREATE') and rng.random() < .25:
            f = {'actor': 'm1', 'n': p[3], 'kind': 'drift', 'sql': ['SET FOREIGN_KEY_CHECKS=0', 'DROP TABLE ' + p[5].split()[-1]]}
            s = with_faults(scn, ph, [f])
            for st in s['phases'][ph]['actors'][0]['steps']:
                if st.get('cmd'):
                    st['unreadable'] = 'table dropped while it was read'
            ex(s)
            continue
        ex(with_faults(scn, ph, [net_fault(rng, p[4], p[3], p[5], only=('req_lost', 'resp_lost', 'resp_trunc', 'err', 'crash_before', 'crash_after', 'refuse', 'timeout', 'dns', 'sigint'))]))


# ---------------------------------------------------------------- C16
VAL_CH = ['a', 'b', 'Z', '9', '_', '-', '.', '@', '!', '$', '%', '&', '*', '+', '/', '?', '(', ')']
HARD_CH = ['#', "'", '"', ' ', '=', ':', ';', '\\x', ',', '{', '}', '[', '`']


def env_value(rng, hard):
    v = ''.join(pick(rng, VAL_CH if rng.random() < .75 or not hard else HARD_CH) for _ in range(rng.randrange(3, 11)))
    return 'p' + v + 'q'


def env_line(rng, k, v):
    """One line of an env or configuration file that gives key k the value v."""
    sep = pick(rng, [' = ', '=', ': ', ' : ', '= '])
    tail = pick(rng, ['', '', '', ' # the "%s"' % k, '  # comment', ' '])
    qs = [q for q in ('"', "'") if q not in v or rng.random() < .4]
    if not any(c in v for c in '#\'"') and rng.random() < .4:
        return '%s%s%s%s' % (k, sep, v, tail)
    if not qs:
        qs = ['"']
    q = pick(rng, qs)
    return '%s%s%s%s%s%s' % (k, sep, q, v.replace(q, '\\' + q), q, tail if rng.random() < .7 else ';')


def env_text(rng, d):
    items = list(d.items())
    rng.shuffle(items)
    if rng.random() < .15:
        import json
        return json.dumps(dict(items), indent=rng.choice([None, 1]), ensure_ascii=rng.random() < .5)
    out = []
    for k, v in items:
        if rng.random() < .2:
            out.append(pick(rng, ['', '# %s = "nothing"' % k, '   ', '#', '#"']))
        out.append(pick(rng, ['', '', '  ', '\t']) + env_line(rng, k, v))
    nl = pick(rng, ['\n', '\n', '\n', '\r\n'])
    return nl.join(out) + pick(rng, ['', nl])


def c16(rng, ex, tier):
    from .world import tree_files
    ft = gen.Features(rng)
    scn, ft = base(rng, ft)
    if not scn:
        return
    target = scn['trees']['A']['model']
    good = tree_files(scn['trees']['A'])
    other = gen.pair(rng, gen.Features(rng))
    decoy = tree_files({'model': other[1]}) if other else {}
    fs, dbs, users, hosts = {}, [], {}, []
    names = rng.sample(['srv', 'app', 'src', 'my project', 'data', 'lib', 'x.y', 'Ünï', 'database'], rng.randrange(1, 5))
    dirs = ['/simfs/w']
    for n in names:
        dirs.append(dirs[-1] + '/' + n)
    cwdk = rng.randrange(0, len(dirs)) if rng.random() < .4 else len(dirs) - 1
    cwd = dirs[cwdk]
    for d in dirs:
        fs[d + '/keep'] = ''
    conf = pick(rng, ['mygrate.conf', 'mygrate.conf', 'mygrate.conf', 'db.conf', 'my grate.cfg'])
    mode = pick(rng, ['up', 'up', 'up', 'up', 'abs', 'sub'])
    sites = [d for d in dirs if rng.random() < .55]
    if mode == 'abs':
        use = pick(rng, dirs + ['/simfs/etc'])
        arg = use + '/' + conf
    elif mode == 'sub':
        use = cwd + '/' + pick(rng, ['conf', 'sub/dir', 'a b'])
        arg = use[len(cwd) + 1:] + '/' + conf
    else:
        if not [d for d in sites if cwd.startswith(d)]:
            sites.append(pick(rng, [d for d in dirs if cwd == d or cwd.startswith(d + '/')]))
        use = max([d for d in sites if cwd == d or cwd.startswith(d + '/')], key=len)
        arg = conf
    sites = sorted(set(sites) | {use} | ({cwd + '/zz'} if rng.random() < .3 else set()))
    cmdname = pick(rng, ['apply', 'apply', 'plan', 'plan', 'plan_export', 'check'])
    fail = None
    if rng.random() < .3:
        fail = pick(rng, ['no config', 'no files_directory', 'no env_file', 'no env', 'no key', 'no value', 'empty value', 'garbage', 'password', 'db', 'host', 'nodir',
                          'config is a directory', 'unclosed'])
    if cmdname == 'check' and fail not in (None, 'no config', 'no files_directory', 'garbage', 'nodir', 'config is a directory'):
        cmdname = 'plan'
    exp = {}
    base_keys = ['DB_HOSTNAME', 'DB_USERNAME', 'DB_PASSWORD', 'DB_DATABASE']
    for k, d in enumerate(sites):
        mine = d == use
        db, user, host = 'app%d' % k, pick(rng, ['root%d', 'us er%d', 'u-%d']) % k, 'db%d.example' % k
        pw = env_value(rng, mine)
        if rng.random() < .3:
            keys = list(base_keys)
        else:
            keys = [pick(rng, ['MY_', 'DB_', 'x.', '']) + x + pick(rng, ['', str(k)]) for x in ('HOST', 'USER', 'PASS', 'NAME')]
        env = dict(zip(base_keys, ['decoyhost', 'decoyuser', 'decoypw', 'decoydb'])) if rng.random() < .5 else {}
        env.update(zip(keys, [host, user, pw, db]))
        env['OTHER'] = env_value(rng, False)
        fd = pick(rng, ['database/', 'database', './sql', 'a b/sql files/', '../sib%d/' % k, '/simfs/abs/sql%d' % k])
        ef = pick(rng, ['.env', '.env', 'env/.env', '/simfs/abs/env%d' % k, '../.env%d' % k])
        cf = dict(zip(['hostname_key', 'username_key', 'password_key', 'database_key'], keys))
        cf.update(env_file=ef, files_directory=fd)
        files = tidy(fd if fd[0] == '/' else d + '/' + fd)
        envp = tidy(ef if ef[0] == '/' else d + '/' + ef)
        ctext, etext = None, None
        if mine and fail:
            exp['fail'] = fail
            if fail == 'no files_directory':
                cf.pop('files_directory')
            elif fail == 'no env_file':
                cf.pop('env_file')
            elif fail == 'no env':
                etext = False
            elif fail == 'no key':
                cf.pop(pick(rng, ['hostname_key', 'username_key', 'password_key', 'database_key']))
            elif fail == 'no value':
                env.pop(pick(rng, keys))
            elif fail == 'empty value':
                env[pick(rng, [keys[0], keys[3]])] = ''
            elif fail == 'garbage':
                ctext = env_text(rng, cf).replace('=', ' ').replace(':', ' ') if rng.random() < .5 else {'hex': 'fffe00c328'}
            elif fail == 'password':
                env[keys[2]] = pw + 'x'
            elif fail == 'db':
                env[keys[3]] = 'nodb'
                db = 'nodb'
            elif fail == 'host':
                env[keys[0]] = 'nohost.example'
                host = 'nohost.example'
            elif fail == 'unclosed':
                etext = env_text(rng, {x: y for x, y in env.items() if x != keys[2]}).rstrip()
                if etext.startswith('{'):
                    etext = etext.rstrip('}')
                etext += '\n%s = "%s' % (keys[2], pw.replace('"', ''))
        if mine:
            exp.update(files=files, conn=[host, 3306, user, db], dir=d)
        if not (mine and fail == 'host'):
            hosts.append(host)
        if db != 'nodb':
            dbs.append(db)
        users[user] = pw
        if mine:
            scn['server']['db'] = db if db != 'nodb' else 'app%d' % k
            if db == 'nodb':
                dbs.append('app%d' % k)
        if ctext is None:
            ctext = env_text(rng, cf)
        if mine and fail == 'no config':
            # only where the search does not look
            fs[d + '/' + conf + '.bak'] = ctext
        elif mine and fail == 'config is a directory':
            fs[d + '/' + conf + '/x'] = ctext
        else:
            fs[d + '/' + conf] = ctext
        if etext is None:
            etext = env_text(rng, env)
        if etext is not False:
            fs[envp] = etext
        if not (mine and fail == 'nodir'):
            for n, t in (good if mine else decoy).items():
                fs[files + '/' + n] = t
            if not (good if mine else decoy):
                fs[files] = None
    if fail in ('no config', 'config is a directory') and mode == 'up':
        # a configuration further up would rightly be used
        for d in sites:
            if d != use and (cwd == d or cwd.startswith(d + '/')):
                fs.pop(d + '/' + conf, None)
    if fail in ('no config', 'config is a directory') and mode == 'sub':
        for d in [cwd] + dirs:
            fs.pop(d + '/' + conf, None)
    if fail == 'nodir' and any(x == exp['files'] or x.startswith(exp['files'] + '/') for x in fs):
        return      # it happens to exist
    scn['fs'] = fs
    scn['trees']['A'] = dict(scn['trees']['A'], cfg={'none': True})
    scn['server'].update(dbs=sorted(set(dbs)), users=users, hosts=sorted(set(hosts)) or ['none'])
    mydb = scn['server']['db']
    scn['other_dbs'] = {x: copy.deepcopy(scn['live']) for x in dbs if x != mydb}
    via = pick(rng, ['cli', 'cli', 'prog'])
    st = {'do': 'cmd', 'cmd': cmdname, 'via': via, 'tree': 'A', 'cwd': cwd, 'exp': exp}
    if arg != 'mygrate.conf' or rng.random() < .3:
        st['config'] = arg
    if via == 'prog':
        st['print'] = rng.random() < .5
    scn['phases'] = [phase([st])]
    o = ex(scn)
    if o['viol']:
        return
    pts = [p for p in points_of(o) if p[4] in ('stat', 'open', 'read', 'connect') and '.sql' not in p[5]]
    for p in [pick(rng, pts) for _ in range(2) if pts]:
        f = net_fault(rng, p[4], p[3], p[5], only=('eio', 'garble', 'refuse', 'timeout', 'dns'))
        if f.get('errno') == 'ENOENT':
            f['errno'] = 'EIO'     # a file that is not there may rightly be looked for elsewhere
        ex(with_faults(scn, 0, [f]))


def tidy(p):
    out = []
    for x in p.split('/'):
        if x in ('', '.'):
            continue
        if x == '..':
            out.pop()
        else:
            out.append(x)
    return '/' + '/'.join(out)


# ---------------------------------------------------------------- C17
def c17(rng, ex, tier):
    ft = gen.Features(rng)
    scn, ft = base(rng, ft)
    if not scn:
        return
    if ft.width:
        # what 5.7 reports for INT is INT(11), and the tool connects INT(10) to INT(11) by no foreign key
        scn['server']['style'] = '8.0'
    # the live database is what some earlier declared schema made of it: valid by the rules of the tool
    if scn['server'].get('style') == '5.7':
        # (known finding) 5.7 reports the collation of every text column of such a table, which declarations may not have
        for m in scn['live'] + scn['trees']['A']['model']:
            (m.get('opts') or {}).pop('COLLATE', None)
    live = {m['n']: m for m in scn['live']}
    tgt = {m['n']: m for m in scn['trees']['A']['model']}
    only = sorted(n for n in tgt if n not in live)
    via = pick(rng, ['cli', 'prog', 'conn'])
    steps = cmd(rng, 'plan_export', via=via, expect='ok')
    for st in steps:
        if st.get('form'):
            st['form'] = 'dir'
    steps.append({'do': 'adopt', 'tree': 'A', 'declared_only': only})
    steps += cmd(rng, 'check', via='cli', after='adopt')
    steps += cmd(rng, 'plan', via='cli', after='adopt')
    scn['phases'] = [phase(steps)]
    o = ex(scn)
    if o['viol']:
        return
    pts = [p for p in points_of(o) if p[2] <= 1]
    for p in pick_points(rng, pts, 2, bias=lambda p: p[4] == 'req'):
        ex(with_faults(scn, 0, [net_fault(rng, p[4], p[3], p[5])]))


# ---------------------------------------------------------------- C18
def c18(rng, ex, tier):
    ft = gen.Features(rng)
    k = rng.random()
    if k < .5:
        scn, ft = base(rng, ft, nmut=rng.randrange(0, 3))
    else:
        scn, ft = base(rng, ft, nmut=0)
    if not scn:
        return
    scn['phases'] = [phase(cmd(rng, 'apply')), phase(cmd(rng, 'apply', via='cli'))]
    o = ex(scn)
    if o['viol']:
        return
    # second half of the property: with nothing to do, locks of applications do not matter
    s = copy.deepcopy(scn)
    tgt = s['trees']['A']['model']
    sql = app_sql(rng, [m for m in s['live'] if any(x['n'] == m['n'] for x in tgt)], tgt, 4, ft)
    locks = ['SELECT * FROM `%s` FOR UPDATE' % m['n'] for m in tgt]
    rng.shuffle(locks)
    app = {'name': 'app1', 'steps': [{'do': 'app', 'sql': locks + sql + ['@sleep'] * 3 + ['COMMIT'], 'tx': True}]}
    s['phases'] = [phase(cmd(rng, 'apply', via='cli'), cmd(rng, 'apply', via='cli')),
                   {'actors': [{'name': 'm1', 'steps': cmd(rng, 'apply', still=True)}, app], 'sched': sched(rng)}]
    ex(s)
    pts = [p for p in points_of(o) if is_write(p)]
    for p in pick_points(rng, pts, 2):
        ex(with_faults(scn, 0, [net_fault(rng, 'req', p[3], p[5], only=('kill', 'kill_after', 'resp_lost', 'err'))]))


# ---------------------------------------------------------------- C19
def c19(rng, ex, tier):
    ft = gen.Features(rng)
    ft.tracked = ft.tracked or rng.random() < .5
    scn, ft = base(rng, ft)
    if not scn:
        return
    target = scn['trees']['A']['model']
    for _ in range(4):
        for _ in range(12):
            got = dialect.write(rng, target, lambda: gen.style(rng, ft))
            if not got:
                continue
            fs, what = got
            ref = judge.reference([fs[n] for n in sorted(fs)], scn['server']['style'])
            if ref[0] != 'refused':
                break
        else:
            return
        s = copy.deepcopy(scn)
        s['trees']['A'] = {'model': target, 'files': fs}
        s['note'] = what
        s['beyond'] = 1
        if rng.random() < .6:
            s['live'] = []
        steps = []
        via = via_of(rng)
        form = pick(rng, ['dir', 'dir/', 'files', 'strings', 'string'])
        for c in rng.sample(['check', 'plan'], rng.randrange(0, 3)) + ['apply', 'apply']:
            steps += cmd(rng, c, via=via, **({'form': form} if via == 'conn' else {}))
        s['phases'] = [phase(steps)]
        o = ex(s)
        if o['viol']:
            return
        pts = [p for p in points_of(o) if is_write(p)]
        if pts and rng.random() < .3:
            p = pick(rng, pts)
            s['phases'] = [phase(cmd(rng, 'apply', via='cli')), phase(cmd(rng, 'apply', via='cli'), cmd(rng, 'apply', via='cli'))]
            o = ex(s)
            pts = [p for p in points_of(o) if is_write(p) and p[0] == 0]
            if pts and not o['viol']:
                p = pick(rng, pts)
                ex(with_faults(s, 0, [net_fault(rng, 'req', p[3], p[5])]))


CAMPAIGNS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10,
             'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19}
