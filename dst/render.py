"""Rendering abstract schemas as declared .sql text, in the ways people write it."""
import random


def q(n, st):
    return n if st.get('bare') else '`%s`' % n


def sql_str(s, st):
    """A MySQL string literal."""
    if st.get('esc') == 'dbl':
        return "'" + s.replace('\\', '\\\\').replace("'", "''") + "'"
    return "'" + s.replace('\\', '\\\\').replace("'", "\\'") + "'"


def kw(s, st):
    return s.lower() if st.get('lower') else s


SYN = {'int': 'integer', 'decimal': 'numeric'}


def as_bool(c, st):
    return st.get('syn') and c['t'] == 'tinyint' and c.get('len') == 1 and not c.get('uns') and not c.get('auto')


def typ(c, st):
    t = c['t']
    if as_bool(c, st):
        return kw('BOOLEAN' if st.get('sp') else 'BOOL', st)
    if st.get('syn'):
        t = SYN.get(t, t)
    if c.get('vals'):
        s = '%s(%s)' % (t, ', '.join("'" + v.replace("'", "''") + "'" for v in c['vals']) if st.get('sp') else
                        ','.join("'" + v.replace("'", "''") + "'" for v in c['vals']))
    elif c.get('nolen'):
        s = t
    elif c.get('dec') is not None:
        s = '%s(%d,%d)' % (t, c['len'], c['dec'])
    elif c.get('len') is not None:
        s = '%s(%d)' % (t, c['len'])
    elif c.get('w') is not None:
        s = '%s(%d)' % (t, c['w'])
    else:
        s = t
    s = s if st.get('lower') else (s.upper() if not c.get('vals') else t.upper() + s[len(t):])
    if c.get('uns'):
        s += kw(' UNSIGNED', st)
    return s


def default(c, st):
    d = c.get('def')
    if d is None:
        return ''
    if d[0] == 'null':
        return kw(' DEFAULT NULL', st)
    if d[0] == 'now':
        return kw(' DEFAULT CURRENT_TIMESTAMP', st) + ('(%d)' % d[1] if d[1] else '')
    v = d[1]
    if as_bool(c, st) and v in (0, 1):
        return kw(' DEFAULT ', st) + kw('TRUE' if v else 'FALSE', st)
    if isinstance(v, str):
        return kw(' DEFAULT ', st) + sql_str(v, st)
    if st.get('qnum'):
        return kw(' DEFAULT ', st) + "'%s'" % v
    return kw(' DEFAULT ', st) + str(v)


def inline_pk(m, st):
    """The column whose PRIMARY KEY is written with the column."""
    if not st.get('inlinepk'):
        return None
    pk = [i for i in m['idx'] if i['t'] == 'PRIMARY']
    if len(pk) != 1 or len(pk[0]['c']) != 1:
        return None
    c = [c for c in m['cols'] if c['n'] == pk[0]['c'][0]]
    if len(c) != 1 or c[0].get('len') is not None or c[0].get('w') is not None or c[0].get('dec') is not None or c[0].get('vals') or \
            c[0]['t'] not in ('int', 'bigint', 'smallint', 'mediumint', 'tinyint') or c[0].get('cs') or c[0].get('co'):
        return None
    return c[0]['n']


def col(c, st, pk=False, inpk=False):
    s = '%s %s' % (q(c['n'], st), typ(c, st))
    if c.get('cs'):
        s += kw(' CHARACTER SET ', st) + c['cs']
    if c.get('co'):
        s += kw(' COLLATE ', st) + c['co']
    if not c.get('null', True):
        if not (inpk and st.get('nopknull')):
            s += kw(' NOT NULL', st)
    elif st.get('barenull') and c['t'] not in ('datetime', 'timestamp'):
        s += kw(' NULL', st)
    if pk:
        s += kw(' PRIMARY KEY', st)
    s += default(c, st)
    if c.get('auto'):
        s += kw(' AUTO_INCREMENT', st)
    return s


def index(i, st):
    cols = (', ' if st.get('sp') else ',').join(q(x, st) for x in i['c'])
    if i['t'] == 'PRIMARY':
        return kw('PRIMARY KEY ', st) + '(%s)' % cols
    word = {'UNIQUE': 'UNIQUE KEY' if not st.get('uq') else 'UNIQUE', 'INDEX': 'KEY' if not st.get('ix') else 'INDEX'}[i['t']]
    return kw(word, st) + ' %s (%s)' % (q(i['n'], st), cols)


def bare_fk(m, f, st):
    return st.get('barefk') and f['n'] == ('%s_%s_%s_fk' % (m['n'], f['c'], f['rt']))[:64]


def implied(m, i, st):
    """Is this the index that a foreign key without a name brings along?"""
    return st.get('nofkidx') and i['t'] == 'INDEX' and i['c'] == [i['n']] and \
        any(bare_fk(m, f, st) and f['c'] == i['n'] for f in m['fks']) and \
        not any(j is not i and i['n'] in j['c'] for j in m['idx'])


def fk(f, st, bare=False):
    s = ('' if bare else kw('CONSTRAINT ', st) + q(f['n'], st) + ' ') + kw('FOREIGN KEY ', st) + '(%s)' % q(f['c'], st) + kw(' REFERENCES ', st) + \
        '%s (%s)' % (q(f['rt'], st), q(f['rc'], st))
    if f.get('od'):
        s += kw(' ON DELETE ' + f['od'], st)
    if f.get('ou'):
        s += kw(' ON UPDATE ' + f['ou'], st)
    return s


def create(m, st=None):
    st = st or {}
    ipk = inline_pk(m, st)
    inpk = {x for i in m['idx'] if i['t'] == 'PRIMARY' for x in i['c']}
    kinds = [[col(c, st, c['n'] == ipk, c['n'] in inpk) for c in m['cols']],
             [index(i, st) for i in m['idx'] if not (i['t'] == 'PRIMARY' and ipk) and not implied(m, i, st)],
             [fk(f, st, bare_fk(m, f, st)) for f in m['fks']]]
    if st.get('mix'):
        rng = random.Random(st['mix'])
        order = [k for k in range(3) for _ in kinds[k]]
        rng.shuffle(order)
        lines = [kinds[k].pop(0) for k in order]
    else:
        lines = kinds[0] + kinds[1] + kinds[2]
    sep = ',\n  ' if not st.get('oneline') else ', '
    head = kw('CREATE TABLE ', st) + (kw('IF NOT EXISTS ', st) if st.get('ine') else '') + q(m['n'], st) + ' ('
    if st.get('comments'):
        body = ''
        for k, ln in enumerate(lines):
            if k % 3 == 1:
                body += '  -- note %d\n' % k
            note = {0: '-- %s', 1: '# %s', 2: '/* %s */'}[st.get('ckind', 0)] % st['comments']
            body += '  ' + ln + (',' if k < len(lines) - 1 else '') + ('  ' + note if k % 4 == 2 else '') + '\n'
        text = head + '\n' + body + ')'
    elif st.get('oneline'):
        text = head + sep.join(lines) + ')'
    else:
        text = head + '\n  ' + sep.join(lines) + '\n)'
    o = m.get('opts') or {}
    if o.get('ENGINE'):
        text += ' ENGINE=%s' % o['ENGINE']
    if o.get('CHARSET'):
        text += ' DEFAULT CHARSET=%s' % o['CHARSET']
    if o.get('COLLATE'):
        text += ' COLLATE=%s' % o['COLLATE']
    return text + ';'


def value(v, st):
    if v is None:
        return 'NULL'
    if isinstance(v, str):
        return sql_str(v, st)
    if st.get('qval'):
        return "'%s'" % v
    return str(v)


def inserts(m, st=None):
    """INSERT statements for the declared rows."""
    st = st or {}
    rows = m.get('rows')
    if not rows:
        return ''
    groups = []
    for r in rows:
        k = tuple(r)
        if groups and groups[-1][0] == k and not st.get('one_per'):
            groups[-1][1].append(r)
        else:
            groups.append((k, [r]))
    out = []
    for k, rs in groups:
        note = ''
        if st.get('inote'):
            note = {0: ' -- %s\n', 1: ' # %s\n', 2: ' /* %s */ '}[st.get('ckind', 0)] % st['inote']
        out.append(kw('INSERT INTO ', st) + q(m['n'], st) + note + ' (%s)' % ','.join(q(c, st) for c in k) + kw(' VALUES', st) + note +
                   (',\n' if st.get('nlrows') else ', ').join('(%s)' % (', ' if st.get('sp') else ',').join(value(r[c], st) for c in k) for r in rs) + ';')
    return '\n'.join(out)


def table_text(m, st=None):
    st = st or {}
    s = ''
    if st.get('head'):
        s += '/* %s */\n' % st['head'] if st.get('cstyle') else '-- %s\n' % st['head']
    s += create(m, st)
    if m.get('rows'):
        s += '\n\n' + (('# %s rows\n' % m['n']) if st.get('hash') else '') + inserts(m, st)
    return s + '\n'


def files(schema, layout, st_of):
    """{filename: text}.  layout: {"split": [[table, ...], ...] or None}; st_of(table name) -> style dict."""
    out = {}
    groups = layout.get('split') or [[m['n']] for m in schema]
    by = {m['n']: m for m in schema}
    for k, g in enumerate(groups):
        g = [n for n in g if n in by]
        if not g:
            continue
        name = layout.get('names', {}).get(str(k)) or ('%s.sql' % g[0])
        if layout.get('rows_apart'):
            parts = [table_text(dict(by[n], rows=None), st_of(n)) for n in g]
            out[name] = '\n'.join(parts)
            r = [inserts(by[n], st_of(n)) for n in g if by[n].get('rows')]
            if r:
                out['zz_rows_%d.sql' % k] = '\n'.join(r) + '\n'
        else:
            out[name] = '\n'.join(table_text(by[n], st_of(n)) for n in g)
    return out
