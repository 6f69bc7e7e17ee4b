"""The oracles: what each property says, decided over the recorded history of one simulated run.

A judge is a function (world) -> list of (signature, text).  It looks only at observable things: statements the
simulated server received, committed states, files, what the command printed and returned.
"""
import re

from . import model, sqlparse, sqltok
from .engine import Server, eff_charset, is_char
from .values import SqlError
from .world import READ_KINDS, db_digest, tree_files

INTRO = READ_KINDS - {'set'} | {None}
HARMFUL = {'kill', 'kill_after', 'sigint', 'req_lost', 'resp_lost', 'resp_trunc', 'crash_before', 'crash_after', 'err'}


# ---------------------------------------------------------------- helpers
def target_of(w, r):
    t = r['step'].get('tree')
    return w.scn['trees'][t]['model'] if t else None


_built = {}


def want_of(w, target):
    k = id(target)
    if k not in _built:
        _built[k] = (target, model.build(target, with_rows=False), None)
    return _built[k][1]


def want_rows(w, target):
    k = id(target)
    want_of(w, target)
    if _built[k][2] is None:
        full = model.build(target)
        cols = {m['n']: model.declared_columns(m) for m in target if m.get('rows') is not None}
        _built[k] = _built[k][:2] + ((full, cols),)
    return _built[k][2]


def tracked(target):
    return {m['n'] for m in target if m.get('rows') is not None}


def snap_tables(snap):
    out = {}
    for n, (t, rows) in snap.items():
        c = t.clone()
        c.rows = dict(rows)
        out[n] = c
    return out


def struct_of(snap):
    return {n: t for n, (t, rows) in snap.items()}


def after(w, r):
    return w.states[r['state1']]['snap']


def before(w, r):
    return w.states[r['state0']]['snap']


def rows_diff(w, target, snap):
    out = []
    full, cols = want_rows(w, target)
    for n in sorted(tracked(target)):
        if n not in snap:
            out.append('tracked table %s does not exist' % n)
            continue
        t, rows = snap[n]
        out += model.rows_equal_declared(t, rows, full[n], cols[n])
    return out


def order_tables(live_snap, want):
    """Tables whose column order is decided: new ones, and those where the kept columns already stood in declared order."""
    out = set()
    for n, t in want.items():
        w = [c.name for c in t.cols]
        if n not in live_snap:
            out.add(n)
            continue
        have = [c.name for c in live_snap[n][0].cols if c.name in w]
        if have == [c for c in w if c in have]:
            out.add(n)
    return out


def state_diff(w, target, snap, start=None, rows=True):
    want = want_of(w, target)
    d = model.struct_diff(struct_of(snap), want, order_tables(start, want) if start is not None else None)
    if rows:
        d += rows_diff(w, target, snap)
    return d


def alone(w, r):
    """No other actor worked in the phase of r."""
    return len(w.scn['phases'][r['phase']]['actors']) == 1


def faults_in(w, r):
    return [f for f in w.fired_list[r['fi0']:r['fi1']] if f[1] == r['actor']]


def harmful(fs):
    return [f for f in fs if f[3].startswith('err') or f[3] in HARMFUL or f[3] in ('refuse', 'timeout', 'dns', 'crash', 'eio', 'mid', 'garble', 'truncate')]


def applies(w, **kw):
    return w.cmds('apply', **kw)


def short(x, n=300):
    x = str(x)
    return x if len(x) <= n else x[:n] + '...'


def brief(r):
    s = '%s of tree %s via %s' % (r['step']['cmd'], r['step'].get('tree'), r['step'].get('via', 'cli'))
    if r.get('ended') == 'exit':
        s += ' ended with status %s' % r.get('status')
    else:
        s += ' ended by %s (flag %s)' % (r.get('ended'), r.get('flag'))
    if r.get('exc'):
        s += ' %s: %s' % (r['exc'], short(r.get('msg'), 200))
    elif not r['success'] and (r.get('err') or r.get('out')):
        s += ': ' + short((r.get('err') or r.get('out')).strip().replace('\n', ' / '), 200)
    return s


def quiet(w, r):
    """Nothing disturbed this command: no harmful fault, no other actor, no lock held by a session left open."""
    return alone(w, r) and not harmful(faults_in(w, r)) and not any(x['err'] in (1205, 1213) for x in w.sent(r))


def possible(w, r):
    """The database, with its data, can take the declared schema."""
    try:
        model.ideal(snap_tables(before(w, r)), target_of(w, r))
    except (model.Infeasible, SqlError):
        return False
    return True


def expected_ok(w, r):
    """This command has to succeed: it says so, nothing disturbed it, and the live schema can take the declared one."""
    return r['step'].get('expect') == 'ok' and quiet(w, r) and possible(w, r)


def follows_apply(w, r):
    """The state this command starts from is the one a successful apply of the same declarations left."""
    last = None
    for x in w.results:
        if x is r:
            break
        if x['step']['do'] == 'cmd' and x['step']['cmd'] == 'apply' and x['success'] and alone(w, x) and x['step'].get('tree') == r['step'].get('tree') \
                and not harmful(faults_in(w, x)):
            last = x
    return last is not None and last['state1'] == r['state0']


def runaways(w):
    return [('runaway', '%s did not end: more than the allowed number of I/O operations' % brief(r))
            for r in w.cmds() if r.get('ended') == 'runaway']


def claims_success(r):
    return bool(r['success'] or (r.get('ended') != 'killed' and
                                 ('Applied:' in r['out'] or 'No changes required' in r['out'])))


# ---------------------------------------------------------------- plan text
def split_sql(text):
    """Statements of a text, as printed.  Returns a list of strings."""
    toks = sqltok.tokenize(text)
    out, start, seen = [], 0, False
    for t in toks:
        if t.kind == 'y' and t.val == ';':
            if seen:
                out.append(text[start:t.pos + 1].strip())
            start, seen = t.pos + 1, False
        else:
            seen = True
    if seen:
        out.append(text[start:].strip())
    return out


def plan_statements(r):
    if isinstance(r.get('value'), list):
        return [str(x) for x in r['value']]
    out = r['out']
    if out.startswith('Applied:\n'):
        out = out[len('Applied:\n'):]
    if out.strip() == 'No changes required':
        return []
    try:
        return split_sql(out)
    except sqltok.SqlSyntax:
        return [out]


def shown_plan(r):
    """The plan as shown: text without surrounding whitespace."""
    if isinstance(r.get('value'), list):
        return '\n'.join(str(x) for x in r['value']).strip()
    return r['out'].strip()


def is_session_noise(x):
    """Statements that are no part of a plan: introspection, transaction control, session settings."""
    k = x['kind']
    if k == 'set':
        return 'FOREIGN_KEY_CHECKS' not in x['sql'].upper()
    return k in INTRO and not (k is None and x['err'])


def run_statements(tables, stmts, db='app', fk=1):
    """Effect of statements on copies of tables: (digest, errors)."""
    srv = Server(dbs=(db,))
    srv.dbs[db] = {n: t.clone() for n, t in tables.items()}
    s = srv.open_session('root', db)
    s.vars['autocommit'] = 0
    errs = []
    for q in stmts:
        try:
            srv.query(s, q)
        except SqlError as e:
            errs.append('%s: %s' % (e.msg, short(q, 160)))
    srv.commit(s)
    return srv.dbs[db], errs


def tabs_digest(tables):
    return db_digest({n: (t, t.rows) for n, t in tables.items()})


def own_transitions(w, r):
    for k in range(r['state0'] + 1, r['state1'] + 1):
        if w.states[k]['actor'] == r['actor']:
            yield k, w.states[k - 1], w.states[k]


def bag(rows, cols):
    out = {}
    for r in rows.values():
        k = tuple(repr(r.get(c)) for c in cols)
        out[k] = out.get(k, 0) + 1
    return out


# ---------------------------------------------------------------- C01
def c01(w):
    out = []
    for r in w.cmds():
        if not r['success'] and r['step']['cmd'] in ('apply', 'check', 'plan') and expected_ok(w, r):
                out.append(('refused', 'the declared schema is valid and the database could take it, but %s' % brief(r)))
        if not (r['success'] and alone(w, r)):
            continue
        if r['step']['cmd'] == 'apply':
            tgt = target_of(w, r)
            d = state_diff(w, tgt, after(w, r), before(w, r), rows=False)
            if d:
                out.append(('structure', 'after a successful apply: ' + short('; '.join(d[:3]), 500)))
            if follows_apply(w, r):
                ws = w.writes(r)
                if ws or r['state1'] != r['state0']:
                    out.append(('not-at-rest', 'an apply right after a successful apply sends %s' % short([x['sql'] for x in ws[:3]])))
        elif r['step']['cmd'] == 'plan' and follows_apply(w, r):
            if shown_plan(r):
                out.append(('not-at-rest', 'the plan right after a successful apply is not empty: %s' % short(shown_plan(r))))
    return out


# ---------------------------------------------------------------- C02
def c02(w):
    """The last phase of the scenario holds the undisturbed runs."""
    out = []
    last = len(w.scn['phases']) - 1
    rs = applies(w, phase=last)
    if not rs:
        return out
    good = None
    for k, r in enumerate(rs[:2]):
        if r['success']:
            good = r
            break
    if good is None:
        return [('not-recovered', 'after the disturbance %d undisturbed applies do not succeed: %s' % (len(rs[:2]), '; then '.join(brief(r) for r in rs[:2])))]
    tgt = target_of(w, good)
    d = state_diff(w, tgt, after(w, rs[min(1, len(rs) - 1)]))
    if d:
        out.append(('wrong-state', 'after recovery: ' + short('; '.join(d[:3]), 500)))
    return out


# ---------------------------------------------------------------- C03
def c03(w):
    out = []
    for r in w.results:
        if r['step']['do'] == 'cmd' and r['step']['cmd'] == 'apply' and alone(w, r):
            for x in w.sent(r):
                if x['err'] and not x.get('forced') and x['err'] not in (1205, 1213, 2013, 1053, 1317) and not (x['kind'] in INTRO and x['kind']):
                    out.append(('rejected-%s' % x['err'], 'statement refused by the server (%s %s): %s' % (x['err'], x.get('msg'), short(x['sql'], 400))))
        if r['step']['do'] == 'run_plan':
            for e in r.get('errors') or []:
                if ' (1205): ' in e:
                    continue
                out.append(('plan-rejected', 'planned statement refused by the server: %s' % short(e, 500)))
    return out


# ---------------------------------------------------------------- C04
def c04(w):
    out = []
    for r in w.cmds():
        c = r['step']['cmd']
        if c not in ('check', 'plan', 'plan_export', 'version', None):
            continue
        bad = [x for x in w.writes(r) if x['actor'] == r['actor']]
        if bad:
            out.append(('write-sent', '%s sent %s' % (brief(r), short(bad[0]['sql']))))
        for x in w.sent(r):
            if x['kind'] == 'set' and 'GLOBAL' in x['sql'].upper():
                out.append(('global', '%s sent %s' % (brief(r), short(x['sql']))))
        if any(w.states[k]['actor'] == r['actor'] for k in range(r['state0'] + 1, r['state1'] + 1)):
            out.append(('db-changed', '%s changed the database' % brief(r)))
        if r['fsw1'] > r['fsw0']:
            out.append(('files-changed', '%s wrote %s' % (brief(r), w.fs_writes[r['fsw0']:r['fsw1']][:2])))
        if c in ('check', 'version', None):
            mine = [x for x in w.server.connects[r['con0']:r['con1']] if x[0] == r['actor']]
            tried = [p for p in w.points[r['pt0']:r['pt1']] if p[1] == r['actor'] and p[4] == 'connect']
            if mine or tried or w.sent(r):
                out.append(('contact', '%s contacted the database' % brief(r)))
    if not any(r['step']['cmd'] not in ('check', 'plan', 'plan_export', 'version', None) for r in w.cmds()):
        if not any(r['step']['do'] in ('edit', 'adopt') for r in w.results) and w.fs_digest() != w.fs_before:
            out.append(('files-changed', 'the files are not what they were'))
        if not any(r['step']['do'] in ('app', 'sql', 'run_plan') for r in w.results) and not any(f[3] == 'drift' for f in w.fired_list) \
                and w.db_start != w.digest_db():
            out.append(('db-changed', 'the database is not what it was'))
    return out


# ---------------------------------------------------------------- C05
def c05(w):
    """A plan step with 'pair': k is compared with the apply step that has the same 'pair'."""
    out = []
    by = {}
    for r in w.cmds():
        p = r['step'].get('pair')
        if p is None:
            continue
        if r['step']['cmd'] == 'plan':
            by[p] = r
            continue
        pl = by.get(p)
        if pl is None or not pl['success']:
            continue
        plan = [x.strip() for x in plan_statements(pl)]
        sent = [x['sql'].strip() for x in w.sent(r) if not is_session_noise(x)]
        fs = harmful(faults_in(w, r))
        if r['success']:
            if isinstance(r.get('value'), list) and [str(x).strip() for x in r['value']] != plan:
                out.append(('reported', 'apply reports %s, the plan was %s' % (short(r['value']), short(plan))))
            if r['step'].get('via', 'cli') == 'cli' or r['step'].get('print', True):
                shown = r['out'].strip()
                exp = ('Applied:\n' + '\n'.join(plan)).strip() if plan else 'No changes required'
                if pl['step'].get('via', 'cli') == 'cli':
                    exp = ('Applied:\n' + shown_plan(pl)) if plan else 'No changes required'
                if norm_ws(shown) != norm_ws(exp):
                    out.append(('reported', 'apply printed %s, the plan was %s' % (short(shown), short(plan))))
            if not same_statements(sent, plan):
                out.append(('sent', 'apply sent %s, the plan was %s' % first_diff(sent, plan)))
        else:
            # a disturbed apply has sent a prefix of the plan (and possibly what cleans up the session)
            while sent and len(sent) > len(plan):
                sent = sent[:-1]
            k = len(sent)
            while k and not same_statements(sent[:k], plan[:k]) and 'FOREIGN_KEY_CHECKS' in sent[k - 1].upper():
                k -= 1
            if not same_statements(sent[:k], plan[:k]):
                out.append(('sent', 'a disturbed apply sent %s, the plan was %s' % first_diff(sent, plan)))
            if 'Applied:' in r['out']:
                out.append(('reported', 'a failed apply (%s) reports statements as applied' % brief(r)))
            if not any(x['err'] for x in w.sent(r)) and r.get('ended') != 'killed' and expected_ok(w, r):
                out.append(('refused', 'the plan was shown without errors, but %s' % brief(r)))
    return out


def norm_ws(s):
    return '\n'.join(x.rstrip() for x in s.strip().split('\n'))


def same_statements(a, b):
    return [x.rstrip(';').strip() for x in a] == [x.rstrip(';').strip() for x in b]


def first_diff(a, b):
    for k in range(max(len(a), len(b))):
        x, y = (a[k] if k < len(a) else '(nothing)'), (b[k] if k < len(b) else '(nothing)')
        if x.rstrip(';').strip() != y.rstrip(';').strip():
            return ('statement %d: %s' % (k, short(x)), short(y))
    return ('%d statements' % len(a), '%d statements' % len(b))


# ---------------------------------------------------------------- C06
def c06(w):
    out = []
    for r in applies(w):
        tgt = target_of(w, r)
        if tgt is None:
            continue
        want = want_of(w, tgt)
        tr = tracked(tgt)
        for k, s0, s1 in own_transitions(w, r):
            out += lost(s0, s1, want, tr, tgt, w)
            if out:
                return out
    for d, dig in w.other_start.items():
        if dig != tabs_digest(w.server.dbs.get(d, {})):
            out.append(('other-db', 'database %s was changed' % d))
    return out


def lost(s0, s1, want, tr, tgt, w):
    a, b = s0['snap'], s1['snap']
    what = s1['what']
    for n in a:
        if n not in want:
            continue
        t0, r0 = a[n]
        if n not in b:
            return [('table-lost', 'table %s is declared but was removed (%s)' % (n, what))]
        t1, r1 = b[n]
        if t0 is t1 and r0 is r1:
            continue
        w1 = want[n]
        keep = []
        for c in t0.cols:
            d = w1.col(c.name)
            if d is not None and model.same_coldef(c, d):
                if t1.col(c.name) is None:
                    return [('column-lost', 'column %s.%s is declared unchanged but was removed (%s)' % (n, c.name, what))]
                keep.append(c.name)
        if n not in tr:
            x, y = bag(r0, keep), bag(r1, keep)
            if x != y:
                gone = [k for k in x if x[k] > y.get(k, 0)]
                new = [k for k in y if y[k] > x.get(k, 0)]
                return [('data-changed', 'rows of %s (columns %s) changed: %s became %s (%s)' % (n, keep, short(gone[:2]), short(new[:2]), what))]
        else:
            full, cols = want_rows(w, tgt)
            decl = model.declared_rows(full[n])
            m0, m1 = model.row_key_map(t0, r0), model.row_key_map(t1, r1)
            if 'id' not in keep:
                continue
            for i in m0:
                if i not in m1:
                    if i in decl:
                        return [('row-lost', 'declared row id=%r of %s was removed (%s)' % (i, n, what))]
                    continue
                for c in keep:
                    if m0[i][c] != m1[i][c] and not (i in decl and c in cols[n].get(i, ())):
                        return [('undeclared-value', 'row id=%r of %s: column %s, which the declared row does not give, changed from %r to %r (%s)'
                                 % (i, n, c, m0[i][c], m1[i][c], what))]
    return []


# ---------------------------------------------------------------- C07
def c07(w):
    out = []
    for r in applies(w):
        if not r['success'] and expected_ok(w, r):
            out.append(('refused', 'the declared rows are valid, but %s' % brief(r)))
            continue
        if not (r['success'] and alone(w, r)):
            continue
        tgt = target_of(w, r)
        d = rows_diff(w, tgt, after(w, r))
        if d:
            out.append(('rows', 'after a successful apply: ' + short('; '.join(d[:3]), 500)))
        if follows_apply(w, r):
            ws = [x for x in w.writes(r)]
            if ws:
                out.append(('again', 'a second apply still sends %s' % short([x['sql'] for x in ws if x['kind'] != 'set'][:2])))
        # nothing else touched
        want = want_of(w, tgt)
        tr = tracked(tgt)
        for k, s0, s1 in own_transitions(w, r):
            x = lost(s0, s1, want, tr, tgt, w)
            if x and x[0][0] in ('undeclared-value', 'row-lost', 'data-changed'):
                out.append(x[0])
                break
    return out


# ---------------------------------------------------------------- C08
def row_commits(w, r, names):
    """Transitions of r (no DDL) that change the rows of any of the tables."""
    out = []
    for k, s0, s1 in own_transitions(w, r):
        ch = []
        for n in names:
            if n in s0['snap'] and n in s1['snap']:
                (t0, r0), (t1, r1) = s0['snap'][n], s1['snap'][n]
                if r0 is r1:
                    continue
                cols = [c.name for c in t0.cols if t1.col(c.name) is not None]
                if bag(r0, cols) != bag(r1, cols):
                    ch.append(n)
        if ch and isinstance(s1['what'], tuple) and s1['what'][0] == 'commit':
            out.append((k, ch))
        elif ch and isinstance(s1['what'], tuple) and s1['what'][0] in ('truncate', 'drop'):
            out.append((k, ch))
    return out


def c08(w):
    out = []
    for r in applies(w):
        tgt = target_of(w, r)
        names = tracked(tgt)
        rc = row_commits(w, r, names)
        if len(rc) > 1:
            out.append(('two-steps', 'the declared rows changed in %d visible steps (%s)' % (len(rc), [c for k, c in rc])))
        elif len(rc) == 1 and alone(w, r):
            d = rows_diff(w, tgt, w.states[rc[0][0]]['snap'])
            if d:
                out.append(('half', 'row changes became visible although not all were done: ' + short('; '.join(d[:2]), 400)))
            elif any(n not in w.states[rc[0][0]]['snap'] for n in names):
                out.append(('half', 'row changes became visible before all declared-row tables existed'))
    return out


# ---------------------------------------------------------------- C09
def c09(w):
    """Steps with 'bad': the declared input as a whole cannot be seen.  Other steps: only if an input fault fired."""
    out = []
    for r in w.cmds():
        bad = r['step'].get('bad')
        c = r['step']['cmd']
        if c not in ('apply', 'plan', 'check') or r.get('ended') == 'killed':
            continue
        hit = None
        if not bad:
            fs = [f for f in faults_in(w, r) if f[3] in ('eio', 'mid', 'garble', 'truncate')]
            if not fs:
                continue
            hit = '%s at %s' % (fs[0][3], next((p[5] for p in w.points[r['pt0']:r['pt1']] if p[1] == r['actor'] and p[3] == fs[0][2]), ''))
        ws = w.writes(r)
        if c == 'apply' and (ws or any(w.states[k]['actor'] == r['actor'] for k in range(r['state0'] + 1, r['state1'] + 1))):
            # a fault in something that was not needed may leave the apply whole
            if bad or not r['success'] or state_diff(w, target_of(w, r), after(w, r)):
                out.append(('changed', 'declared input damaged (%s), yet apply sent %s' % (bad or hit, short([x['sql'] for x in ws[:3]]))))
                continue
        if r['success'] and not (not bad and harmless(w, r)):
            out.append(('not-reported', 'declared input damaged (%s), but %s' % (bad or hit, brief(r))))
    return out


def harmless(w, r):
    c = r['step']['cmd']
    if c == 'apply':
        return not state_diff(w, target_of(w, r), after(w, r))
    pts = {p[3]: p for p in w.points[r['pt0']:r['pt1']] if p[1] == r['actor']}
    if c == 'check' and all(pts.get(f[2], (0,) * 5)[4] == 'stat' for f in faults_in(w, r)):
        # a failed look at the directory does no harm when all files were read all the same
        d = '/simfs/%s/database/' % r['step']['tree']
        if {p for p in w.vfs.files if p.startswith(d)} <= {p for a, p in w.opened[r['op0']:r['op1']]}:
            return True
    if c == 'plan':
        return plan_right(w, r)
    return False


def plan_right(w, r):
    """The plan as shown leads from the live state to the declared one."""
    tabs, errs = run_statements(snap_tables(before(w, r)), plan_statements(r))
    return not errs and not state_diff(w, target_of(w, r), {n: (t, t.rows) for n, t in tabs.items()})


# ---------------------------------------------------------------- C10
def c10(w):
    out = []
    for r in w.cmds():
        bad = r['step'].get('bad')
        if bad is None or r['step'].get('force'):
            continue
        c = r['step']['cmd']
        ws = w.writes(r)
        if c in ('apply', 'plan') and (ws or r['state1'] != r['state0'] and alone(w, r)):
            out.append(('sent', 'invalid declared schema (%s), yet %s sent %s' % (bad, c, short([x['sql'] for x in ws[:3]]))))
        elif c in ('apply', 'plan', 'check') and claims_success(r):
            out.append(('accepted', 'invalid declared schema (%s), but %s' % (bad, brief(r))))
        elif c in ('apply', 'plan', 'check') and r.get('ended') != 'killed' and not (r['out'].strip() or r['err'].strip() or r.get('exc') or r.get('value')):
            out.append(('silent', 'invalid declared schema (%s) and %s says nothing' % (bad, brief(r))))
        elif c in ('apply', 'plan', 'check') and str(r.get('exc')).split('.')[-1] in CRASHES and not faults_in(w, r):
            out.append(('crashed', 'invalid declared schema (%s): instead of reporting it %s' % (bad, brief(r))))
        elif ADDRESS.search(r['out'] + r['err'] + str(r.get('value') or '')):
            out.append(('address', 'invalid declared schema (%s): %s reports a memory address in place of what is wrong' % (bad, brief(r))))
        if c == 'plan' and plan_statements(r) and r.get('ended') in ('return', 'exit') and not r.get('exc'):
            if r['out'].strip() or isinstance(r.get('value'), list) and r['value']:
                out.append(('planned', 'invalid declared schema (%s), yet a plan was made: %s' % (bad, short(shown_plan(r)))))
    return out


CRASHES = ('AttributeError', 'KeyError', 'IndexError', 'TypeError', 'NameError', 'UnboundLocalError', 'RecursionError', 'AssertionError',
           'ZeroDivisionError', 'NotImplementedError')
ADDRESS = re.compile(r' object at 0x')


# ---------------------------------------------------------------- C11
def c11(w):
    """Plan steps of one group ('grp') describe the same content against the same live state: same effect.
    Steps that also share 'same' have the same input form: same plan."""
    out = []
    grp, same = {}, {}
    for r in w.cmds('plan'):
        g = r['step'].get('grp')
        if g is None:
            continue
        if r.get('ended') == 'killed' or faults_in(w, r):
            continue
        key = (r['success'], shown_plan(r) if r['success'] else None)
        s = r['step'].get('same')
        if s is not None:
            if s in same and same[s][0] != key:
                out.append(('plan-differs', 'the same input gives different plans: %s' % plan_diff(same[s][1], r)))
            same.setdefault(s, (key, r))
        start = before(w, r)
        base = grp.get(g)
        if not r['success']:
            eff = 'refused'
        else:
            tabs, errs = run_statements(snap_tables(start), plan_statements(r))
            eff = (tabs_digest(tabs), tuple(errs))
        if base is None:
            grp[g] = (eff, r)
        elif base[0] != eff:
            out.append(('effect-differs', 'the same content declared in another way (%s) has another effect: %s' % (
                r['step'].get('why') or r['step'].get('tree'), plan_diff(base[1], r))))
    return out


def plan_diff(a, b):
    if a['success'] != b['success']:
        return '%s, but %s' % (brief(a), brief(b))
    x, y = plan_statements(a), plan_statements(b)
    d = first_diff(x, y)
    return '%s / %s' % d


# ---------------------------------------------------------------- C12
def unfinished(w, r, reads=True):
    """What the command sent and the server did not do, or undid, and what was not sent again with success.  None if there is nothing."""
    failed, tx, auto = {}, [], True
    for x in w.sent(r):
        m = re.match(r'\s*SET\s+(?:SESSION\s+)?AUTOCOMMIT\s*=\s*(\d)', x['sql'], re.I)
        if x['err']:
            if reads or x['kind'] not in READ_KINDS:
                failed[x['sql']] = 'the server refused %s (%s)' % (short(x['sql']), x['err'])
            if x['err'] in (1213, 1053):
                for q in tx:
                    failed[q] = '%s was undone by a failure (%s)' % (short(q), x['err'])
                tx = []
            continue
        failed.pop(x['sql'], None)
        if m:
            auto = m.group(1) != '0'
            tx = []
        elif x['kind'] == 'begin':
            auto, tx = False, []
        elif x['kind'] == 'rollback':
            for q in tx:
                failed[q] = '%s was rolled back' % short(q)
            tx = []
        elif x['kind'] in ('insert', 'update', 'delete'):
            if not auto:
                tx.append(x['sql'])
        elif x['kind'] == 'show_tables':
            # looks again at what there is
            failed, tx = ({} if not reads else failed), []
        elif x['kind'] not in READ_KINDS or x['kind'] == 'commit':
            tx = []
    for q in failed:
        return failed[q]


def c12(w):
    out = []
    for r in w.cmds():
        c = r['step']['cmd']
        if r.get('ended') == 'killed':
            continue
        if c == 'apply' and claims_success(r):
            failed = unfinished(w, r)
            if failed:
                out.append(('refused-statement', '%s, but %s' % (failed, brief(r))))
            elif alone(w, r) and not r['step'].get('force'):
                d = state_diff(w, target_of(w, r), after(w, r))
                if d:
                    out.append(('not-done', '%s, but %s' % (brief(r), short('; '.join(d[:2]), 400))))
            if r['step'].get('bad'):
                out.append(('bad-input', 'the input has errors (%s), but %s' % (r['step']['bad'], brief(r))))
        elif c in ('check', 'plan') and r['success'] and r['step'].get('bad') and not r['step'].get('force'):
            out.append(('bad-input', 'the input has errors (%s), but %s' % (r['step']['bad'], brief(r))))
        if c == 'plan' and r['success']:
            fs = [f for f in harmful(faults_in(w, r)) if f[4] in ('connect', 'req')]
            if fs and not plan_right(w, r):
                out.append(('plan-disturbed', 'contact with the database failed (%s), but %s' % (fs[0][3], brief(r))))
        if r['success'] and r.get('exc'):
            out.append(('exception', 'success although %s' % brief(r)))
    return out


def control(w, tag):
    for r in w.cmds('plan'):
        if r['step'].get('control') == tag:
            return shown_plan(r) if r['success'] else None
    return None


# ---------------------------------------------------------------- C13
def c13(w):
    """Each caller step sequence: probe (sql, role 'pre'), apply, probe ('post')."""
    out = []
    rs = w.results
    for k, r in enumerate(rs):
        if r['step']['do'] != 'sql' or r['step'].get('role') != 'post':
            continue
        ap = [x for x in rs[:k] if x['step']['do'] == 'cmd' and x['actor'] == r['actor']]
        if not ap or ap[-1].get('ended') == 'killed':
            continue
        ap = ap[-1]
        pre = [x for x in rs[:k] if x['step']['do'] == 'sql' and x['step'].get('role') == 'pre' and x['actor'] == r['actor']]
        pre = pre[-1]
        fs = faults_in(w, ap)
        gone = [f for f in fs if f[3] in ('req_lost', 'resp_lost', 'resp_trunc', 'crash_before', 'crash_after', 'err1053')]
        sent = w.sent(ap)
        refused_cleanup = [x for x in sent if x['err'] and x.get('forced') and x['kind'] in ('set', 'rollback')]
        if refused_cleanup and len(fs) > 1:
            continue
        rows = r.get('rows') or []
        if gone:
            # the connection itself is lost; nothing may have been left behind by it, which the next step shows
            continue
        first = rows[0] if rows else None
        if isinstance(first, dict) and 'err' in first:
            out.append(('unusable', 'after %s the connection of the caller cannot be used: %s' % (brief(ap), first)))
            continue
        was = pre['rows'][0]
        if was != first:
            out.append(('checks', 'foreign key checks of the session of the caller were %s before and are %s after %s' % (was, first, brief(ap))))
        # '@commit' is the second statement: must make nothing durable
        if any(w.states[j]['actor'] == r['actor'] and db_digest(w.states[j]['snap']) != db_digest(w.states[j - 1]['snap'])
               for j in range(r['state0'] + 1, r['state1'] + 1)):
            out.append(('pending', 'after %s a commit by the caller makes row changes durable' % brief(ap)))
        for x in rows[1:]:
            if isinstance(x, dict) and 'err' in x:
                out.append(('unusable', 'after %s the connection of the caller cannot be used: %s' % (brief(ap), x)))
                break
    return out


# ---------------------------------------------------------------- C14
def c14(w):
    out = c06(w)
    for r in applies(w):
        if r['step'].get('final'):
            continue
        names = tracked(target_of(w, r))
        rc = row_commits(w, r, names)
        if len(rc) > 1:
            out.append(('rows-in-steps', 'declared rows changed in %d visible steps' % len(rc)))
        if claims_success(r):
            bad = unfinished(w, r, False)
            if bad:
                out.append(('not-done', '%s, but %s' % (bad, brief(r))))
        if r.get('ended') not in ('exit', 'return', 'exc', 'killed'):
            out.append(('no-answer', '%s reports neither success nor failure' % brief(r)))
    for r in applies(w):
        if not r['step'].get('final'):
            continue
        if r['success']:
            d = state_diff(w, target_of(w, r), after(w, r))
            if d:
                out.append(('wrong-state', 'after the others stopped, a successful apply leaves: ' + short('; '.join(d[:2]), 400)))
        elif possible(w, r):
            out.append(('not-recovered', 'after the others stopped, %s' % brief(r)))
        break
    return out


# ---------------------------------------------------------------- C15
def c15(w):
    out = []
    for r in w.cmds():
        c = r['step']['cmd']
        if c not in ('plan', 'apply', 'plan_export') or r.get('ended') == 'killed':
            continue
        mine = [x for x in w.sent(r)]
        fw = next((k for k, x in enumerate(mine) if x['kind'] not in READ_KINDS), None)
        why = r['step'].get('unreadable')
        fs = harmful(faults_in(w, r))
        if not why:
            hit = []
            for f in fs:
                if f[4] not in ('req', 'connect'):
                    continue
                d = next((p[5] for p in w.points[r['pt0']:r['pt1']] if p[1] == r['actor'] and p[3] == f[2]), '')
                if f[4] == 'connect' or d == 'LOGIN' or re.match(r'\s*(SHOW|SELECT|DESC|EXPLAIN)', d, re.I):
                    hit.append((f, d))
            if not hit:
                # slow or fragmented answers: nothing changes
                ctl = r['step'].get('control_of')
                if c == 'plan' and ctl is not None and not fs and faults_in(w, r) and not any(f[3] == 'drift' for f in faults_in(w, r)):
                    k = control(w, ctl)
                    if k is not None and (not r['success'] or shown_plan(r) != k):
                        out.append(('slow-differs', 'slow or fragmented answers change the outcome: %s' % brief(r)))
                continue
            why = '%s at %s' % (hit[0][0][3], short(hit[0][1], 60))
        if r['success'] and c == 'plan' and not r['step'].get('unreadable') and plan_right(w, r):
            continue
        if fw is not None and c == 'apply':
            if r['success'] and not r['step'].get('unreadable') and not state_diff(w, target_of(w, r), after(w, r)):
                continue
            out.append(('written', 'the live schema could not be read (%s), yet apply sent %s' % (why, short(mine[fw]['sql']))))
        elif claims_success(r) and c != 'plan_export':
            out.append(('not-reported', 'the live schema could not be read (%s), but %s' % (why, brief(r))))
        if c == 'plan' and re.search(r'\b(CREATE|ALTER|DROP|INSERT|UPDATE|DELETE)\b', r['out']):
            out.append(('planned', 'the live schema could not be read (%s), yet a plan was shown: %s' % (why, short(r['out']))))
    return out


# ---------------------------------------------------------------- C16
def c16(w):
    out = []
    for r in w.cmds():
        exp = r['step'].get('exp')
        if exp is None:
            continue
        c = r['step']['cmd']
        host, port, user, db = exp['conn']
        cons = [x for x in w.server.connects[r['con0']:r['con1']] if x[0] == r['actor']]
        tried = [p[5] for p in w.points[r['pt0']:r['pt1']] if p[1] == r['actor'] and p[4] == 'connect']
        for t in tried:
            if t != '%s:%s' % (host, port):
                out.append(('elsewhere', 'connected to %s instead of %s:%s' % (t, host, port)))
        for x in cons:
            if x[3] is not None and (x[3] != user or x[4] != db):
                out.append(('elsewhere', 'logged in as %r to database %r instead of %r, %r' % (x[3], x[4], user, db)))
        for a, p in w.opened[r['op0']:r['op1']]:
            if p.endswith('.sql') and not p.startswith(exp['files'] + '/'):
                out.append(('other-files', 'read %s, the declared files are in %s' % (p, exp['files'])))
                break
        fs = faults_in(w, r)
        if exp.get('fail'):
            if claims_success(r):
                out.append(('not-refused', 'the configuration cannot work (%s), but %s' % (exp['fail'], brief(r))))
            if any(w.states[k]['actor'] == r['actor'] for k in range(r['state0'] + 1, r['state1'] + 1)):
                out.append(('changed', 'the configuration cannot work (%s), yet the database was changed' % exp['fail']))
            if exp['fail'] not in ('password', 'db', 'host', 'nodir') and tried:
                out.append(('contact', 'the configuration cannot work (%s), yet the database was contacted' % exp['fail']))
        elif not fs:
            if not r['success']:
                out.append(('refused', 'the configuration is complete, but %s' % brief(r)))
            elif c != 'check' and len([x for x in cons if x[5]]) != 1:
                out.append(('connections', '%s made %d connections' % (brief(r), len(cons))))
        if r['success'] and not exp.get('fail'):
            if c == 'apply' and state_diff(w, target_of(w, r), after(w, r)):
                out.append(('wrong-files', 'apply reports success, but %s' % short(state_diff(w, target_of(w, r), after(w, r))[0])))
            elif c == 'plan' and not plan_right(w, r):
                out.append(('wrong-files', 'the plan does not lead from the configured database to the configured files: %s' % short(shown_plan(r))))
    for d, dig in w.other_start.items():
        if dig != tabs_digest(w.server.dbs.get(d, {})):
            out.append(('other-db', 'database %s was changed' % d))
    return out


# ---------------------------------------------------------------- C17
def c17(w):
    out = []
    rs = w.results
    for r in w.cmds('plan_export'):
        if any(w.states[k]['actor'] == r['actor'] for k in range(r['state0'] + 1, r['state1'] + 1)) or w.writes(r):
            out.append(('changed', '%s changed the database' % brief(r)))
        if not r['success'] and expected_export(w, r):
            out.append(('refused', 'the database can be exported, but %s' % brief(r)))
    for k, r in enumerate(rs):
        if r['step']['do'] != 'adopt':
            continue
        e = [x for x in rs[:k] if x['step']['do'] == 'cmd' and x['step']['cmd'] == 'plan_export' and x['actor'] == r['actor']]
        if not e or not e[-1]['success'] or harmful(faults_in(w, e[-1])):
            continue
        e = e[-1]
        live, tgt = before(w, e), target_of(w, e)
        must, may = differing(w, live, tgt)
        got = set(r['exported'])
        if must - got:
            out.append(('not-exported', 'tables %s differ from their declarations and are not exported' % sorted(must - got)))
        if got - may:
            out.append(('exported', 'tables %s match their declarations and are exported' % sorted(got - may)))
        made = w.made.get(id(r))
        if isinstance(made, str):
            out.append(('export-sql', 'a statement of the export is not accepted: %s' % made))
        elif made is not None:
            track = {m['n'] for m in tgt if m.get('rows')}
            for n in sorted(got & set(live)):
                if n not in made or not model.tables_equal(live[n][0], made[n]):
                    out.append(('export-structure', 'the exported text for table %s does not describe the live table' % n))
                elif n in track and live[n][0].col('id') is not None and model.row_key_map(live[n][0], live[n][1]) != model.row_key_map(made[n], made[n].rows):
                    out.append(('export-rows', 'the rows exported for table %s are not its rows: %s' % (n, short([
                        (i, x) for i, x in sorted(model.row_key_map(live[n][0], live[n][1]).items(), key=str)
                        if model.row_key_map(made[n], made[n].rows).get(i) != x]))))
        for x in rs[k + 1:]:
            if x['step']['do'] in ('adopt', 'edit', 'app', 'sql') or x['state1'] != e['state1'] or harmful(faults_in(w, x)):
                break
            if x['step']['do'] != 'cmd' or x['step']['cmd'] not in ('check', 'plan'):
                continue
            if not x['success']:
                out.append(('adopted', 'with the exported text in place, %s' % brief(x)))
            elif x['step']['cmd'] == 'plan' and shown_plan(x) and r.get('only_live'):
                out.append(('adopted', 'with the exported text in place, the plan is not empty: %s' % short(shown_plan(x))))
    return out


def expected_export(w, r):
    return r['step'].get('expect') == 'ok' and quiet(w, r)


def differing(w, live, tgt):
    """(tables that have to be exported, tables that may be)."""
    want = want_of(w, tgt)
    full, cols = want_rows(w, tgt)
    must, may = set(), set()
    for n in live:
        t, rows = live[n]
        if n not in want:
            must.add(n)
            continue
        d = want[n]
        if not model.tables_equal(t, d) or (n in full and n in tracked(tgt) and model.rows_equal_declared(t, rows, full[n], cols[n])):
            must.add(n)
        elif not idx_exact(t, d) or [c.name for c in t.cols] != [c.name for c in d.cols] or t.opts != d.opts or \
                [(c.name, c.coll, c.cs) for c in t.cols if hasattr(c, 'coll')] != [(c.name, c.coll, c.cs) for c in d.cols if hasattr(c, 'coll')]:
            may.add(n)
    may |= must
    # foreign keys between a table that changes and its neighbours
    for n in live:
        if n in want and n not in may:
            if any(f.ref_table in may or f.ref_table not in live for f in live[n][0].fks) or \
                    any(f.ref_table == n for o in may if o in live for f in live[o][0].fks):
                may.add(n)
    return must, may


# ---------------------------------------------------------------- C18
def write_targets(x):
    """Tables a writing statement names as its object."""
    m = re.match(r"\s*(?:ALTER\s+TABLE|CREATE\s+TABLE(?:\s+IF\s+NOT\s+EXISTS)?|DROP\s+TABLE(?:\s+IF\s+EXISTS)?|INSERT\s+(?:IGNORE\s+)?INTO|"
                 r"REPLACE\s+INTO|UPDATE|DELETE\s+FROM|TRUNCATE(?:\s+TABLE)?|RENAME\s+TABLE)\s+(`[^`]+`|[\w$]+)", x, re.I)
    return m.group(1).strip('`') if m else None


def c18(w):
    out = []
    for r in applies(w):
        if r['step'].get('force') or not alone(w, r):
            if not r['step'].get('still'):
                continue
        tgt = target_of(w, r)
        want = want_of(w, tgt)
        full, cols = want_rows(w, tgt)
        tr = tracked(tgt)
        s0 = before(w, r)
        changing = set()
        same = set()
        for n, t in want.items():
            if n not in s0:
                continue
            lt, lr = s0[n]
            if [c.name for c in lt.cols] == [c.name for c in t.cols] and model.tables_equal(lt, t) and idx_exact(lt, t) and \
                    (n not in tr or not model.rows_equal_declared(lt, lr, full[n], cols[n])):
                same.add(n)
            for c in lt.cols:
                d = t.col(c.name)
                if d is not None and not model.same_coldef(c, d):
                    changing.add(n)
                if d is None:
                    changing.add(n)
        # tables that disappear or change types force the foreign keys of their neighbours
        changing |= {n for n in s0 if n not in want}
        forced = set()
        for n in same:
            for f in s0[n][0].fks:
                if f.ref_table in changing:
                    forced.add(n)
            for o in s0:
                if o in changing and any(f.ref_table == n for f in s0[o][0].fks):
                    forced.add(n)
        for x in w.writes(r):
            if x['actor'] != r['actor']:
                continue
            n = write_targets(x['sql'])
            if n in same and not (n in forced and re.search(r'FOREIGN|CONSTRAINT', x['sql'], re.I)):
                out.append(('touched', 'table %s already matched, yet apply sent %s' % (n, short(x['sql']))))
                break
        if set(want) == set(s0) == same:
            ws = [x for x in w.writes(r) if x['actor'] == r['actor']]
            if ws:
                out.append(('needless', 'nothing was to be done, yet apply sent %s' % short(ws[0]['sql'])))
            if r['step'].get('still') and any(a == r['actor'] for a, q in w.waits):
                out.append(('blocked', 'an apply with nothing to do waited for a lock of an application'))
    return out


# ---------------------------------------------------------------- C19
_refs = {}


def reference(texts, style):
    """What a server makes of declared text: ('ok', tables, {table: {row: columns}}), ('beyond', why) when the simulated server
    does not know the feature, ('refused', why)."""
    key = (style, tuple(texts))
    if key in _refs:
        return _refs[key]
    srv = Server(style=style, dbs=('app', 'other'))
    s = srv.open_session('root', 'app')
    s.vars['foreign_key_checks'] = 0
    given, got = {}, None
    try:
        for q in [q for t in texts for q in split_sql(t)]:
            if not q.strip(' ;\n\t'):
                continue
            ast = sqlparse.parse(q)
            n = ast[1] if ast[0] == 'insert' else None
            had = set(srv.dbs['app'][n].rows) if n in srv.dbs['app'] else set()
            srv.query(s, q)
            if n in srv.dbs['app']:
                for k in set(srv.dbs['app'][n].rows) - had:
                    given.setdefault(n, {})[k] = set(ast[2]) if ast[2] is not None else {c.name for c in srv.dbs['app'][n].cols}
        got = ('ok', srv.dbs['app'], given) if not srv.dbs['other'] else ('beyond', 'another database')
    except sqlparse.Unsupported as e:
        got = ('beyond', str(e))
    except (SqlError, sqltok.SqlSyntax) as e:
        got = ('refused', str(e))
    _refs.clear()
    _refs[key] = got
    return got


NAMELESS = re.compile(r'_ibfk_\d+$')


def more_canon(t):
    return {'columns': {c.name: (eff_charset(t, c) if is_char(c) else None, c.zerofill, c.comment or '') for c in t.cols},
            'comment': t.opts.get('COMMENT') or '', 'engine': str(t.opts.get('ENGINE') or 'InnoDB').upper()}


def meaning_diff(live, start, ref, given):
    """Differences between the tables an apply left and what the server itself makes of the declared text."""
    ref = {n: t.clone() for n, t in ref.items()}
    live = {n: t.clone() for n, t in live.items()}
    for n, t in ref.items():
        if n in live:
            # whatever a foreign key without a name is called
            for f in t.fks:
                if NAMELESS.search(f.name):
                    x = [g for g in live[n].fks if (g.cols, g.ref_table, g.ref_cols) == (f.cols, f.ref_table, f.ref_cols) and not any(g.name == h.name for h in t.fks)]
                    if x:
                        f.name = x[0].name
            t.fks.sort(key=lambda f: f.name)
            live[n].fks.sort(key=lambda f: f.name)
    new = {n for n in ref if n not in start}
    out = model.struct_diff(live, ref, new)
    for n in sorted(new & set(live)):
        a, b = more_canon(live[n]), more_canon(ref[n])
        out += ['%s of %s is %r, declared %r' % (k, n, a[k], b[k]) for k in sorted(b) if a[k] != b[k]]
    for n in sorted(given):
        if n not in live:
            continue
        a, b = model.row_key_map(live[n], live[n].rows), {}
        for k, cols in given[n].items():
            r = ref[n].rows.get(k)
            if r is not None:
                b[r.get('id')] = {c: v for c, v in r.items() if c.lower() in {x.lower() for x in cols}}
        out += ['row id=%r of %s is not declared but present' % (i, n) for i in sorted(set(a) - set(b), key=str)]
        out += ['declared row id=%r of %s is missing' % (i, n) for i in sorted(set(b) - set(a), key=str)]
        for i in sorted(set(a) & set(b), key=str):
            out += ['row id=%r of %s: column %s is %r, declared %r' % (i, n, c, a[i].get(c), v) for c, v in sorted(b[i].items()) if a[i].get(c) != v]
    return out


def c19(w):
    out = []
    for r in w.cmds():
        if r['step']['cmd'] not in ('check', 'plan', 'apply'):
            continue
        tree = w.scn['trees'][r['step']['tree']]
        fs = tree_files(tree)
        ref = reference([fs[n] for n in sorted(fs)], w.server.style)
        if ref[0] == 'refused':
            continue
        if ref[0] == 'beyond':
            if r['success']:
                out.append(('taken', 'a declaration with %s is none of mygrations\' features, yet %s' % (ref[1], brief(r))))
            elif w.writes(r):
                out.append(('sent', 'a declaration with %s is none of mygrations\' features, yet %s sent %s' % (
                    ref[1], r['step']['cmd'], short([x['sql'] for x in w.writes(r)[:3]]))))
            continue
        if r['step']['cmd'] != 'apply' or not alone(w, r):
            continue
        if follows_apply(w, r) and not harmful(faults_in(w, r)):
            ws = w.writes(r)
            if ws or r['state1'] != r['state0'] or not r['success']:
                out.append(('not-at-rest', 'an apply right after a successful apply sends %s and %s' % (short([x['sql'] for x in ws[:3]]), brief(r))))
        if r['success']:
            start = {n for n in before(w, r)} if not harmful(w.fired_list) else set(after(w, r))
            d = meaning_diff(snap_tables(after(w, r)), start, ref[1], ref[2])
            if d:
                out.append(('meaning', 'after a successful apply the database is not what the server itself makes of the declared text: ' + short('; '.join(d[:3]), 500)))
        elif not before(w, r) and not harmful(faults_in(w, r)) and w.writes(r):
            out.append(('fails', 'the declaration was accepted for an empty database, the server has nothing against its text, but %s' % brief(r)))
    return out


def idx_exact(a, b):
    x, y = model.canon(a)['idx'], model.canon(b)['idx']
    return model.idx_equal(x, y)


JUDGES = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10,
          'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19}
