"""An independent tokenizer for the SQL the simulated server accepts.

Nothing here is shared with mygrations' own parser: the simulated server has to be
a second opinion on what a statement says.
"""


class SqlSyntax(Exception):
    def __init__(self, near):
        super().__init__(near)
        self.near = near


ESC = {'0': '\0', "'": "'", '"': '"', 'b': '\b', 'n': '\n', 'r': '\r', 't': '\t', 'Z': '\x1a', '\\': '\\'}
WORD = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$')


class Tok:
    __slots__ = ('kind', 'val', 'pos')

    # kind: 'w' bare word, 'q' backquoted identifier, 's' string, 'n' number, 'b' bit/hex literal, 'y' symbol
    def __init__(self, kind, val, pos):
        self.kind, self.val, self.pos = kind, val, pos

    def __repr__(self):
        return '%s:%r' % (self.kind, self.val)


def tokenize(sql):
    out = []
    i, n = 0, len(sql)
    while i < n:
        c = sql[i]
        if c in ' \t\r\n\f\v':
            i += 1
            continue
        if c == '#' or (c == '-' and sql[i:i + 2] == '--' and (i + 2 >= n or sql[i + 2] in ' \t\r\n')):
            j = sql.find('\n', i)
            i = n if j < 0 else j + 1
            continue
        if c == '/' and sql[i:i + 2] == '/*':
            j = sql.find('*/', i + 2)
            if j < 0:
                raise SqlSyntax(sql[i:i + 40])
            i = j + 2
            continue
        start = i
        if c == '`':
            buf = []
            i += 1
            while True:
                if i >= n:
                    raise SqlSyntax(sql[start:start + 40])
                if sql[i] == '`':
                    if sql[i + 1:i + 2] == '`':
                        buf.append('`')
                        i += 2
                        continue
                    i += 1
                    break
                buf.append(sql[i])
                i += 1
            if not buf:
                raise SqlSyntax(sql[start:start + 40])
            out.append(Tok('q', ''.join(buf), start))
            continue
        if c in '\'"':
            s, i = _string(sql, i)
            if out and out[-1].kind == 's' and sql[out[-1].pos] == c and sql[start - 1] in ' \t\r\n':
                # adjacent string literals are concatenated, as MySQL does
                out[-1].val += s
            else:
                out.append(Tok('s', s, start))
            continue
        if c.isdigit() or (c == '.' and sql[i + 1:i + 2].isdigit()):
            if c == '0' and sql[i + 1:i + 2] in ('x', 'b') and sql[i + 2:i + 3].isalnum():
                j = i + 2
                while j < n and sql[j].isalnum():
                    j += 1
                try:
                    val = int(sql[i:j], 16 if sql[i + 1] == 'x' else 2)
                except ValueError:
                    raise SqlSyntax(sql[start:start + 40])
                out.append(Tok('b', val, start))
                i = j
                continue
            j = i
            while j < n and sql[j].isdigit():
                j += 1
            if j < n and sql[j] == '.':
                j += 1
                while j < n and sql[j].isdigit():
                    j += 1
            if j < n and sql[j] in 'eE':
                k = j + 1
                if k < n and sql[k] in '+-':
                    k += 1
                if k < n and sql[k].isdigit():
                    while k < n and sql[k].isdigit():
                        k += 1
                    j = k
            if j < n and sql[j] in WORD:
                # an identifier may start with digits
                while j < n and sql[j] in WORD:
                    j += 1
                out.append(Tok('w', sql[i:j], start))
            else:
                out.append(Tok('n', sql[i:j], start))
            i = j
            continue
        if c in WORD or ord(c) > 127:
            if c in 'bBxX' and sql[i + 1:i + 2] == "'":
                j = sql.find("'", i + 2)
                if j < 0:
                    raise SqlSyntax(sql[start:start + 40])
                try:
                    val = int(sql[i + 2:j] or '0', 2 if c in 'bB' else 16)
                except ValueError:
                    raise SqlSyntax(sql[start:start + 40])
                out.append(Tok('b', val, start))
                i = j + 1
                continue
            j = i
            while j < n and (sql[j] in WORD or ord(sql[j]) > 127):
                j += 1
            out.append(Tok('w', sql[i:j], start))
            i = j
            continue
        two = sql[i:i + 2]
        if two in ('<=', '>=', '<>', '!=', '@@', ':='):
            out.append(Tok('y', two, start))
            i += 2
            continue
        out.append(Tok('y', c, start))
        i += 1
    return out


def _string(sql, i):
    q = sql[i]
    n = len(sql)
    start = i
    buf = []
    i += 1
    while True:
        if i >= n:
            raise SqlSyntax(sql[start:start + 40])
        c = sql[i]
        if c == '\\':
            if i + 1 >= n:
                raise SqlSyntax(sql[start:start + 40])
            e = sql[i + 1]
            if e in '%_':
                buf.append('\\' + e)
            else:
                buf.append(ESC.get(e, e))
            i += 2
            continue
        if c == q:
            if sql[i + 1:i + 2] == q:
                buf.append(q)
                i += 2
                continue
            return ''.join(buf), i + 1
        buf.append(c)
        i += 1


RESERVED = set('''ACCESSIBLE ADD ALL ALTER ANALYZE AND AS ASC ASENSITIVE BEFORE BETWEEN BIGINT BINARY BLOB BOTH BY CALL
CASCADE CASE CHANGE CHAR CHARACTER CHECK COLLATE COLUMN CONDITION CONSTRAINT CONTINUE CONVERT CREATE CROSS CUBE
CUME_DIST CURRENT_DATE CURRENT_TIME CURRENT_TIMESTAMP CURRENT_USER CURSOR DATABASE DATABASES DAY_HOUR
DAY_MICROSECOND DAY_MINUTE DAY_SECOND DEC DECIMAL DECLARE DEFAULT DELAYED DELETE DENSE_RANK DESC DESCRIBE
DETERMINISTIC DISTINCT DISTINCTROW DIV DOUBLE DROP DUAL EACH ELSE ELSEIF EMPTY ENCLOSED ESCAPED EXCEPT EXISTS EXIT
EXPLAIN FALSE FETCH FIRST_VALUE FLOAT FLOAT4 FLOAT8 FOR FORCE FOREIGN FROM FULLTEXT FUNCTION GENERATED GET GRANT
GROUP GROUPING GROUPS HAVING HIGH_PRIORITY HOUR_MICROSECOND HOUR_MINUTE HOUR_SECOND IF IGNORE IN INDEX INFILE INNER
INOUT INSENSITIVE INSERT INT INT1 INT2 INT3 INT4 INT8 INTEGER INTERSECT INTERVAL INTO IO_AFTER_GTIDS IO_BEFORE_GTIDS
IS ITERATE JOIN JSON_TABLE KEY KEYS KILL LAG LAST_VALUE LATERAL LEAD LEADING LEAVE LEFT LIKE LIMIT LINEAR LINES LOAD
LOCALTIME LOCALTIMESTAMP LOCK LONG LONGBLOB LONGTEXT LOOP LOW_PRIORITY MASTER_BIND MASTER_SSL_VERIFY_SERVER_CERT
MATCH MAXVALUE MEDIUMBLOB MEDIUMINT MEDIUMTEXT MIDDLEINT MINUTE_MICROSECOND MINUTE_SECOND MOD MODIFIES NATURAL NOT
NO_WRITE_TO_BINLOG NTH_VALUE NTILE NULL NUMERIC OF ON OPTIMIZE OPTIMIZER_COSTS OPTION OPTIONALLY OR ORDER OUT OUTER
OUTFILE OVER PARTITION PERCENT_RANK PRECISION PRIMARY PROCEDURE PURGE RANGE RANK READ READS READ_WRITE REAL RECURSIVE
REFERENCES REGEXP RELEASE RENAME REPEAT REPLACE REQUIRE RESIGNAL RESTRICT RETURN REVOKE RIGHT RLIKE ROW ROWS
ROW_NUMBER SCHEMA SCHEMAS SECOND_MICROSECOND SELECT SENSITIVE SEPARATOR SET SHOW SIGNAL SMALLINT SPATIAL SPECIFIC SQL
SQLEXCEPTION SQLSTATE SQLWARNING SQL_BIG_RESULT SQL_CALC_FOUND_ROWS SQL_SMALL_RESULT SSL STARTING STORED
STRAIGHT_JOIN SYSTEM TABLE TERMINATED THEN TINYBLOB TINYINT TINYTEXT TO TRAILING TRIGGER TRUE UNDO UNION UNIQUE
UNLOCK UNSIGNED UPDATE USAGE USE USING UTC_DATE UTC_TIME UTC_TIMESTAMP VALUES VARBINARY VARCHAR VARCHARACTER VARYING
VIRTUAL WHEN WHERE WHILE WINDOW WITH WRITE XOR YEAR_MONTH ZEROFILL'''.split())
