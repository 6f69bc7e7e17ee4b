"""Minimises a failing scenario: fewer phases, steps, faults, tables, columns, rows, and a shorter schedule."""
import copy
import json
import time

from . import camp, sim, sqltok


def pieces(text):
    """[(from, to)]: what can be cut out of some SQL: statements, and one of several things between commas."""
    if not isinstance(text, str):
        return []
    try:
        toks = sqltok.tokenize(text)
    except sqltok.SqlSyntax:
        return []
    out, start, depth, item = [], 0, 0, {}
    ends = [t.pos for t in toks[1:]] + [len(text)]
    for t, end in zip(toks, ends):
        if t.kind != 'y':
            continue
        if t.val == ';':
            out.append((start, end))
            start, depth, item = end, 0, {}
        elif t.val == '(':
            depth += 1
            item[depth] = [end, None]
        elif t.val in ',)':
            at, before = item.get(depth, (None, None))
            if at is not None:
                if t.val == ',':
                    out.append((at, end))
                elif before is not None:
                    out.append((before, t.pos))
            if t.val == ',':
                item[depth] = [end, t.pos]
            else:
                item.pop(depth, None)
                depth = max(depth - 1, 0)
    return out


class Shrinker:
    def __init__(self, scn, prop, sig, budget):
        self.prop, self.sig = prop, sig
        self.end = time.monotonic() + budget
        self.bad = {st['tree']: copy.deepcopy(scn['trees'][st['tree']]) for ph in scn['phases'] for ac in ph['actors'] for st in ac['steps']
                    if st.get('bad') and st.get('tree')} if prop == 'C10' else {}
        self.tried = 0
        self.best = scn
        self.out = sim.execute(scn, prop)
        self.seen = {json.dumps(scn, sort_keys=True)}

    def left(self):
        return time.monotonic() < self.end and self.tried < 600

    def check(self, s):
        s = sim.norm(s)
        k = json.dumps(s, sort_keys=True)
        if k in self.seen or not self.left():
            return None
        self.seen.add(k)
        if any(n in s['trees'] and not camp.is_bad(s['trees'][n], o) for n, o in self.bad.items()):
            return None
        self.tried += 1
        try:
            o = sim.execute(s, self.prop)
        except Exception:
            return None
        return o if sim.has(o, self.sig) else None

    def attempt(self, s):
        o = self.check(s)
        if o:
            self.best, self.out = s, o
            return True
        return False

    def attempt_retarget(self, s):
        """The same candidate; faults move to the corresponding points when earlier points went away."""
        if self.attempt(s):
            return True
        fs = [(k, f) for k, ph in enumerate(s['phases']) for f in ph.get('faults') or []]
        if len(fs) != 1:
            return False
        k, f = fs[0]
        det = next((p for p in self.out.get('points') or [] if p[0] == k and p[1] == f['actor'] and p[3] == f['n']), None)
        if det is None:
            return False
        plain = copy.deepcopy(s)
        plain['phases'][k]['faults'] = []
        try:
            o = sim.execute(sim.norm(plain), self.prop)
        except Exception:
            return False
        self.tried += 1
        word = ' '.join(det[5].split()[:2])
        cand = [p[3] for p in o.get('points') or [] if p[0] == k and p[1] == f['actor'] and p[4] == det[4] and ' '.join(p[5].split()[:2]) == word]
        for n in cand[:4]:
            t = copy.deepcopy(s)
            t['phases'][k]['faults'][0]['n'] = n
            if self.attempt(t):
                return True
        return False

    # ---- passes
    def passes(self):
        # an explicit schedule
        s = copy.deepcopy(self.best)
        ch = self.out.get('choices') or []
        if any(len(ph['actors']) > 1 for ph in s['phases']):
            for k, ph in enumerate(s['phases']):
                if len(ph['actors']) > 1 and k < len(ch):
                    ph['sched'] = {'choices': ch[k]}
            self.attempt(s)
        again = True
        while again and self.left():
            again = self.p_phases() | self.p_faults() | self.p_actors() | self.p_steps() | self.p_trees() | self.p_tables() | self.p_fields() | self.p_files() | self.p_sched()

    def each(self, items, make, retarget=True):
        hit = False
        for x in items():
            if not self.left():
                break
            s = copy.deepcopy(self.best)
            try:
                if make(s, x) is False:
                    continue
            except (KeyError, IndexError, ValueError, TypeError):
                continue
            if (self.attempt_retarget(s) if retarget else self.attempt(s)):
                hit = True
        return hit

    def p_phases(self):
        def make(s, k):
            if len(s['phases']) < 2:
                return False
            del s['phases'][k]
        return self.each(lambda: range(len(self.best['phases']) - 1, -1, -1), make)

    def p_faults(self):
        def make(s, x):
            s['phases'][x[0]]['faults'].pop(x[1])
        return self.each(lambda: [(k, i) for k, ph in enumerate(self.best['phases']) for i in range(len(ph.get('faults') or []) - 1, -1, -1)], make)

    def p_actors(self):
        def make(s, x):
            if len(s['phases'][x[0]]['actors']) < 2:
                return False
            s['phases'][x[0]]['actors'].pop(x[1])
        return self.each(lambda: [(k, i) for k, ph in enumerate(self.best['phases']) for i in range(len(ph['actors']) - 1, -1, -1)], make)

    def p_steps(self):
        def make(s, x):
            st = s['phases'][x[0]]['actors'][x[1]]['steps']
            if len(st) < 2:
                return False
            d = st.pop(x[2])
            if d.get('do') == 'connect' and any(y.get('conn') == d.get('conn') for y in st):
                return False

        def sql(s, x):
            st = s['phases'][x[0]]['actors'][x[1]]['steps'][x[2]]
            st['sql'].pop(x[3])
            if not st['sql']:
                return False
        a = self.each(lambda: [(k, i, j) for k, ph in enumerate(self.best['phases']) for i, ac in enumerate(ph['actors'])
                               for j in range(len(ac['steps']) - 1, -1, -1)], make)
        b = self.each(lambda: [(k, i, j, q) for k, ph in enumerate(self.best['phases']) for i, ac in enumerate(ph['actors'])
                               for j, st in enumerate(ac['steps']) if st.get('do') == 'app' for q in range(len(st['sql']) - 1, -1, -1)], sql)
        return a | b

    def p_trees(self):
        def used(s):
            return {st.get('tree') for ph in s['phases'] for ac in ph['actors'] for st in ac['steps']}

        def drop(s, n):
            if n in used(s):
                return False
            del s['trees'][n]

        def plain(s, x):
            n, f = x
            if not s['trees'][n].get(f):
                return False
            s['trees'][n].pop(f)
        a = self.each(lambda: list(self.best.get('trees') or {}), drop)
        b = self.each(lambda: [(n, f) for n in self.best.get('trees') or {} for f in ('style', 'styles', 'layout')], plain)

        def other(s, k):
            if k not in s:
                return False
            s.pop(k)
        c = self.each(lambda: ['read_chunk', 'other_dbs', 'note'], other)
        return a | b | c

    def models(self, s):
        out = [s.get('live') or []]
        for t in (s.get('trees') or {}).values():
            if t.get('model'):
                out.append(t['model'])
        return out

    def names(self):
        return sorted({m['n'] for ms in self.models(self.best) for m in ms})

    def p_tables(self):
        def everywhere(s, n):
            for ms in self.models(s):
                ms[:] = [m for m in ms if m['n'] != n]
                for m in ms:
                    m['fks'] = [f for f in m['fks'] if f['rt'] != n]

        def fks(s, n):
            for ms in self.models(s):
                for m in ms:
                    if m['n'] == n:
                        if not m['fks']:
                            continue
                        m['fks'] = []

        def rows(s, n):
            for ms in self.models(s):
                for m in ms:
                    if m['n'] == n:
                        if m.get('rows'):
                            m['rows'] = None
                        if m.get('data'):
                            m['data'] = []
        a = self.each(self.names, everywhere)
        b = self.each(self.names, fks)
        c = self.each(self.names, rows)
        return a | b | c

    def p_fields(self):
        def cols():
            return sorted({(m['n'], c['n']) for ms in self.models(self.best) for m in ms for c in m['cols']}, reverse=True)

        def col(s, x):
            for ms in self.models(s):
                for m in ms:
                    if m['n'] == x[0]:
                        m['cols'] = [c for c in m['cols'] if c['n'] != x[1]]
                        if not m['cols']:
                            return False
                        m['idx'] = [i for i in m['idx'] if x[1] not in i['c']]
                        m['fks'] = [f for f in m['fks'] if f['c'] != x[1]]
                        for k in ('rows', 'data'):
                            for r in m.get(k) or []:
                                r.pop(x[1], None)
                    m['fks'] = [f for f in m['fks'] if not (f['rt'] == x[0] and f['rc'] == x[1])]

        def idxs():
            return sorted({(m['n'], i['n']) for ms in self.models(self.best) for m in ms for i in m['idx'] if i['n']})

        def idx(s, x):
            for ms in self.models(s):
                for m in ms:
                    if m['n'] == x[0]:
                        m['idx'] = [i for i in m['idx'] if i['n'] != x[1]]

        def rows():
            return [(a, b, k, j) for a, ms in enumerate(self.models(self.best)) for b, m in enumerate(ms) for k in ('rows', 'data')
                    for j in range(len(m.get(k) or []) - 1, -1, -1)]

        def row(s, x):
            r = self.models(s)[x[0]][x[1]][x[2]]
            if x[2] == 'rows' and len(r) < 2:
                return False
            r.pop(x[3])

        def vals():
            return [(a, b, k, j, c) for a, ms in enumerate(self.models(self.best)) for b, m in enumerate(ms) for k in ('rows',)
                    for j, r in enumerate(m.get(k) or []) for c in sorted(r) if c != 'id']

        def val(s, x):
            self.models(s)[x[0]][x[1]][x[2]][x[3]].pop(x[4])
        return self.each(cols, col) | self.each(idxs, idx) | self.each(rows, row) | self.each(vals, val)

    def p_files(self):
        """Declared text: fewer files, statements, definitions and rows."""
        if self.prop != 'C19' or not any(t.get('files') for t in (self.best.get('trees') or {}).values()):
            return False

        def one(s, x):
            s['trees'][x[0]]['files'].pop(x[1])

        def cuts():
            return [(n, f, k) for n, t in self.best['trees'].items() for f in sorted(t.get('files') or {}) for k in reversed(range(len(pieces(t['files'][f]))))]

        def cut(s, x):
            fs = s['trees'][x[0]]['files']
            a, b = pieces(fs[x[1]])[x[2]]
            fs[x[1]] = fs[x[1]][:a] + fs[x[1]][b:]
        a = self.each(lambda: [(n, f) for n, t in self.best['trees'].items() for f in sorted(t.get('files') or {})], one)
        b = self.each(cuts, cut)
        return a | b

    def p_sched(self):
        hit = False
        for k, ph in enumerate(self.best['phases']):
            ch = (ph.get('sched') or {}).get('choices')
            if ch is None:
                continue
            n = len(ch)
            while n and self.left():
                s = copy.deepcopy(self.best)
                s['phases'][k]['sched']['choices'] = ch[:n // 2]
                if self.attempt(s):
                    ch = ch[:n // 2]
                    n //= 2
                    hit = True
                else:
                    break
            i = len(ch) - 1
            while i > 0 and self.left():
                if ch[i] != ch[i - 1]:
                    s = copy.deepcopy(self.best)
                    c2 = ch[:i] + [ch[i - 1]] + ch[i + 1:]
                    s['phases'][k]['sched']['choices'] = c2
                    if self.attempt(s):
                        ch, hit = c2, True
                i -= 1
        return hit


def shrink(scn, prop, sig, budget=60):
    sh = Shrinker(sim.norm(scn), prop, sig, budget)
    if not sim.has(sh.out, sig):
        return {'scn': scn, 'text': None, 'digest': sh.out.get('digest'), 'info': {'tried': 0, 'note': 'not reproduced'}}
    sh.passes()
    o = sim.execute(sim.norm(sh.best), prop)
    text = next((v[1] for v in o['viol'] if v[0] == sig), None)
    return {'scn': sim.norm(sh.best), 'text': text, 'digest': o.get('digest'), 'info': {'tried': sh.tried}}
