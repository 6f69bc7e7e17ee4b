"""Writes /verif/properties.jsonl (one place to edit the list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe, hook_needed=None)))
MY='mygrations/formats/mysql/mygrations/mygration.py'; ROWM='mygrations/formats/mysql/mygrations/row_mygration.py'
TB='mygrations/formats/mysql/definitions/table.py'; CT='mygrations/core/definitions/table.py'
PLAN='mygrations/core/commands/plan.py'; APPLY='mygrations/core/commands/apply.py'; CHECK='mygrations/core/commands/check.py'
BASE='mygrations/core/commands/base.py'; DRV='mygrations/drivers/pymysql/pymysql.py'
FDB='mygrations/formats/mysql/file_reader/database.py'; DDB='mygrations/formats/mysql/db_reader/database.py'
CDB='mygrations/core/definitions/database.py'; RD='mygrations/formats/mysql/file_reader/reader.py'

p('C01','A successful apply makes the database match the declared schema, and then rests',
  'After an apply that reports success, the structure of the live database (tables, columns with type, nullability, default and auto-increment, indexes, foreign keys and their actions) equals the declared structure, whatever state it started from and whichever way the declared schema moved (forwards, backwards, sideways). A plan made immediately afterwards is empty, and a further apply sends no change. An undisturbed apply of a valid declared schema that the data allows does succeed.',
  ['histories','inputs'],'every sequence of declared schemas (in the supported CREATE TABLE dialect) applied one after another to every starting database, on servers that report their schema in either the 5.7 or the 8.0 style',
  'The tests compare a few hand-written before/after pairs as strings; no test ever executes a plan, so nothing checks that the statements have the intended effect, compose over histories, or reach a fixpoint as the server reports it back.',
  [MY,TB,CT,PLAN,APPLY,RD],[('structural diff of two tables','Table.to in '+TB),('operation ordering','Mygration._process in '+MY)],
  ['server catalog after each apply','statements sent by a follow-up plan/apply'])
p('C02','An interrupted apply is always recoverable by running apply again',
  'If an apply is cut short at any point (process killed, connection lost before or after a statement took effect, statement refused, server restarted), then once the disturbance is over running apply again succeeds and brings structure and tracked rows to the declared state. At most two undisturbed runs are needed, however many runs were interrupted before.',
  ['crash_points','fault_sequences','histories'],'every point of every apply at which the client or server can stop, every subset of statements that took effect, repeated interruptions included',
  'The tests never execute a plan, so no intermediate state between two statements is ever visited, and the migration has no recorded progress: recovery depends on every intermediate state being a state the differ can start from.',
  [MY,TB,ROWM,DRV,APPLY],[('stateless re-diff against the live catalog',PLAN),('one statement at a time, commit at the end','PyMySQL.execute in '+DRV)],
  ['server catalog and rows after recovery runs','number of runs until a plan is empty'])
p('C03','Every planned statement is acceptable to the server at its place in the plan',
  'For every feasible change from a live schema to a valid declared schema, executing the plan in order on an undisturbed server never has a statement rejected: no statement refers to a table, column, index or foreign key that does not exist (or already exists) at that moment, no column changes type or disappears while a foreign key still depends on it, and no foreign key is added before what it references. Statements are well-formed SQL for every declared value.',
  ['inputs','histories'],'every pair of live schema and valid declared schema (with foreign-key chains, cycles and self references), including partially applied ones',
  'The tests pin the text and order of a few plans but never run them against anything that enforces the server\'s ordering rules (foreign key type, index and existence rules).',
  [MY,TB,CDB],[('foreign keys split off and ordered around column changes','Mygration._process and _find_fk_ops_for_column_type_changes in '+MY),('1215 detection','Database.unfulfilled_fks in '+CDB)],
  ['server accept/reject decision for each statement'])
p('C04','Read-only commands never change anything',
  'check, plan, plan_export and version leave the database (structure, rows, durable state) and the declared files exactly as they were, whatever they find and however they are interrupted; check and version do not contact the database at all. While only such commands run, no statement that writes is ever sent.',
  ['inputs','fault_sequences','histories'],'every live database, every declared input (valid, invalid or unreadable), every fault while the command runs',
  'The tests use mock cursors that return canned answers, so a stray write or connection would not be noticed, and no fault is ever injected.',
  [PLAN,CHECK,'mygrations/core/commands/plan_export.py','mygrations/core/commands/version.py',BASE],[('plan prints, only apply executes',PLAN)],
  ['every statement received by the server','full catalog and row digest before and after','sha of declared files'])
p('C05','Plan shows exactly what apply executes and reports',
  'For the same declared files and the same live database, the statements shown by plan are exactly the statements apply then sends, in the same order, and the statements apply reports as applied are the ones the server received. This holds for command-line and programmatic use alike.',
  ['inputs','histories'],'every live database and declared input, from an untouched or a half-applied database',
  'No test runs apply at all; plan is only compared with canned text.',
  [PLAN,APPLY,DRV],[('apply reuses the plan builder',APPLY)],['statements received by the server','printed and returned statement lists'])
p('C06','Data the declared change does not concern is never lost or altered',
  'Through any apply, completed or interrupted at any point, and with applications writing meanwhile, rows of tables whose rows are not declared, and values of columns present both before and after with an unchanged definition, keep exactly the values their owners last committed. Only tables and columns absent from the declared schema, and rows of declared-row tables that are not declared, may disappear.',
  ['crash_points','schedules','histories','inputs'],'every start database, declared schema, interleaving with application writes, and interruption point',
  'The tests have no rows outside the tracked tables and no executing database, so a change realised as drop-and-recreate, or a statement touching the wrong table, column or row, is invisible to them.',
  [MY,TB,CT,ROWM],[('in-place ALTER/CHANGE instead of rebuild',TB),('row statements addressed by primary key','mygrations/formats/mysql/mygrations/operations/row_update.py')],
  ['row contents after every statement against a shadow copy of what the applications committed'])
p('C07','Declared rows are synchronised exactly',
  'After a successful apply, every table with declared rows holds exactly the declared rows, keyed by id: missing rows inserted, undeclared rows deleted, differing rows updated to the declared values (quotes, backslashes, NULLs, numbers, dates and non-ASCII text included), and nothing else touched. A second apply finds nothing to do.',
  ['inputs','histories'],'every set of declared rows and every live content of those tables, including values that need quoting and tables whose structure changes in the same apply',
  'The tests compare the text of a handful of row statements with plain values; none is executed, and no value is read back.',
  [ROWM,TB,CT,'mygrations/formats/mysql/mygrations/operations/row_insert.py','mygrations/formats/mysql/mygrations/operations/row_update.py','mygrations/formats/mysql/mygrations/operations/row_delete.py','mygrations/core/parse/rule_delimited.py'],
  [('row diff by id','Table.to_rows in '+TB),('value comparison across types','_loose_equal in '+CT)],['row contents on the server','statements of a follow-up plan'])
p('C08','Row synchronisation is all or nothing',
  'The row changes of one apply become visible together: at every instant any other session sees the declared-row tables either all as before the row changes or all as after them. If the apply is interrupted during the row changes, none of them survives.',
  ['crash_points','schedules','fault_sequences'],'every interruption point and every interleaving of observing sessions during the row changes of an apply',
  'Requires crash points between statements and concurrent observers; the tests have neither.',
  [DRV,PLAN],[('autocommit off and a single commit after the last statement','PyMySQL.execute in '+DRV),('row statements after all structure statements',PLAN)],
  ['snapshots taken by observer sessions and after crashes'])
p('C09','Unreadable or damaged declared input never changes the database',
  'If the declared files cannot be listed, opened, read completely or decoded, or are cut off in the middle of a statement, or the configured location does not exist, then apply changes nothing in the database: no table, column or row is dropped because its declaration could not be seen. The failure is reported as a failure.',
  ['fault_sequences','inputs'],'every file-system fault at every listing, open or read, and every truncation point inside a statement',
  'The tests read well-formed strings and never make the file system fail.',
  [FDB,RD,PLAN,CHECK,'mygrations/core/parse/parser.py'],[('errors of the declared input stop the plan',PLAN),('directory and file reading',FDB)],
  ['statements received by the server','exit status / returned success / exception'])
p('C10','Invalid declared schemas are refused before anything is sent',
  'A declared schema that contradicts itself (a foreign key to a missing table or column, with mismatched types, without an index, or SET NULL on a non-nullable column; an index on a missing column; more than one primary key or AUTO_INCREMENT column, or AUTO_INCREMENT without a key; duplicate tables, columns, index or constraint names; declared rows for unknown tables or columns, with too few or too many values, or without or with duplicate ids; unparsable statements) is refused: check, plan and apply report the problem and report failure, and apply and plan send no statement that writes. Only the explicit force option overrides this.',
  ['inputs','configurations'],'every valid schema damaged by any one or more of these mistakes, in any table, through string, file or directory input',
  'The tests check a few messages on the parser objects; none runs the commands on an invalid schema or looks at success status and statements sent.',
  [CDB,CT,PLAN,CHECK,RD,'mygrations/core/definitions/columns/column.py'],[('error collection','Database.errors in '+CDB),('early exit',PLAN)],
  ['statements received by the server','reported errors and success status'])
p('C11','The plan is a function of declared content and live state only',
  'The planned change does not depend on the order in which the file system lists files, how declarations are split over files, whether the input is a directory, file list or string, on earlier runs in the same process, or on hash randomisation: the same inputs give the same effect, and equal input form gives the identical plan. Whitespace, comments, quoting style and keyword case in the declared files do not matter either.',
  ['configurations','schedules','inputs'],'every directory listing order, split of declarations over files, formatting variant, hash seed and preceding history of commands in the process',
  'The tests pass single strings, in one process with one listing order and one hash seed.',
  [FDB,RD,MY,'mygrations/formats/mysql/file_reader/comment_parser.py'],[('directory processing','Database._process_directory in '+FDB)],
  ['statement lists and resulting catalogs across the variants'])
p('C12','Success is reported only when everything was done',
  'apply reports success (exit status 0, success flag, "Applied" or "No changes required") only if every planned statement was executed and committed and the declared state is in place; whenever the server refuses a statement or the commit, the connection is lost or cannot be made, or input errors stop the run, the failure is visible to the caller as a non-success. check and plan likewise report success only when they found no errors.',
  ['fault_sequences','crash_points','configurations'],'every fault at every connection, statement, response and commit, through the command line and the programmatic interface',
  'No fault is ever injected and exit status is never tested.',
  [APPLY,PLAN,DRV,'mygrations/mygrate.py','mygrate.py'],[('exceptions propagate from the driver',DRV),('success flag to exit status','mygrations/mygrate.py')],
  ['exit status, return value, printed text against server state'])
p('C13','Foreign key checking is never left switched off on the caller\'s session',
  'After apply returns or raises on a connection supplied by the caller, that session enforces foreign keys again whenever it did before and the connection is still usable; it also carries no half-done row changes that a later commit by the caller would make durable. This holds for every failure in between.',
  ['fault_sequences','crash_points'],'every statement of the plan at which the server can refuse, and every later use of the same connection',
  'Nothing executes plans or fails statements in the tests.',
  [PLAN,DRV,'mygrations/formats/mysql/mygrations/operations/enable_checks.py'],[('bracketing statements around the plan',PLAN)],
  ['session variable and open transaction of the caller\'s session after apply; row contents after a later commit'])
p('C14','Concurrent migrators and applications cannot corrupt the outcome',
  'When several apply runs (of the same or of different declared schemas) and application sessions work on one database at the same time, each apply either reports success or reports failure, no application data outside the declared changes is lost, and tracked rows are never half-synchronised. Once the others have stopped, one more apply of a declared schema succeeds and yields exactly that schema.',
  ['schedules','fault_sequences'],'every interleaving at statement granularity of concurrent migrators, application transactions and their faults',
  'The tests are single-threaded and never execute statements.',
  [PLAN,DRV,APPLY,MY],[('statements refused by the server surface as errors',DRV),('stateless re-diff',PLAN)],
  ['history of all sessions, final catalog and rows'])
p('C15','A live schema that could not be read completely never yields a plan',
  'If listing the live tables, reading any table definition or reading the rows of any tracked table fails, is cut short or is disturbed, then neither plan nor apply reports a plan computed from the partial picture: apply sends no writing statement in that run and the command does not report success. Slow or fragmented answers alone change nothing.',
  ['fault_sequences','crash_points','schedules'],'every fault at every introspection request and response byte, and concurrent table drops between the introspection requests',
  'The tests replace the connection by a canned dictionary that always answers completely.',
  [DRV,DDB,PLAN],[('introspection through the driver',DRV),('live schema reader',DDB)],
  ['statements sent after a failed introspection request','reported status'])
p('C16','The database and files acted on are exactly the configured ones',
  'The configuration used is the named one in the nearest directory from the working directory upwards (or exactly the absolute path given); the declared-files directory and env file are resolved relative to that configuration; and the one connection made uses exactly the configured user, password, host and database. When any of these is missing or unreadable the command fails without connecting to anything else and without changing anything.',
  ['configurations','fault_sequences'],'every directory layout, shadowing configuration, relative or absolute path, key naming, and file-system fault while resolving',
  'The tests cover env-file syntax on strings and credential lookup on one fixture; the path search and the command line are not run.',
  [BASE,'mygrations/helpers/db_credentials.py','mygrations/helpers/dotenv.py',DRV],[('configuration search','_resolve_and_check_config_file_path in '+BASE),('credential lookup','mygrations/helpers/db_credentials.py')],
  ['connection attempts with host, user, password, database','files opened'])
p('C17','Export describes the live database faithfully',
  'plan_export lists exactly the tables whose live structure or tracked rows differ from the declared files, and replacing their declarations by the exported text makes the files describe the live database: a plan made with the updated files is empty. The database is not changed.',
  ['inputs','histories'],'every live database and declared input differing from it',
  'The command has no test at all.',
  ['mygrations/core/commands/plan_export.py',TB,'mygrations/core/definitions/columns/column.py','mygrations/formats/mysql/mygrations/operations/create_table.py'],[('rendering of live tables as CREATE/INSERT text','Table.nice in '+CT)],
  ['exported text fed back as declared files','statements of the plan computed from it'])
p('C18','Tables that already match are left alone',
  'apply sends no statement that alters, drops, re-creates or writes rows of a table whose live structure and declared rows already match the declaration, unless a foreign key between it and a table whose column type changes forces it. No-change applies send no writing statement and block on no lock held by applications.',
  ['inputs','histories','schedules'],'every database and declared schema in which some tables match, in every way the server may print the matching definition (5.7 and 8.0 styles, auto-created indexes, implied defaults)',
  'The tests cover a few false-positive cases found in the past, as strings; the ways a server re-prints a definition are not enumerated.',
  [TB,CT,'mygrations/core/definitions/columns/column.py','mygrations/core/definitions/columns/numeric.py','mygrations/core/definitions/columns/string.py',MY],[('false-positive suppression','is_really_the_same_as in mygrations/core/definitions/columns/'),('auto-created index matching',TB)],
  ['tables named by writing statements, and lock requests on the server'])
p('C19','Declared SQL means what it means to the server',
  'A declaration that mygrations accepts has the meaning MySQL gives the same text: after a successful apply the tables and rows are the ones the server itself makes of the statements (up to index prefix lengths, names given automatically, and unquoted numbers for text), and a further apply sends nothing. Text which uses something mygrations has no representation for (expressions, generated columns, ON UPDATE, fractional seconds, checks, fulltext indexes, other statements) is reported as an error instead of being dropped or misread, and nothing is sent. A declaration accepted for an empty database, and valid for the server, can be applied.',
  ['inputs','histories','crash_points'],'every valid CREATE TABLE or INSERT text in the forms the language of the server has: order and repetition of attributes, omitted and implied ones, type synonyms, ways to write literals, quoting, key definitions, table options, remarks and blanks between any two words; undisturbed and after an interrupted run',
  'The parser tests check a few dozen strings against what the parser keeps of them; no test executes a declaration on a server to see whether it means the same, and the combinations of forms are unbounded.',
  ['mygrations/formats/mysql/file_reader/create_parser.py','mygrations/formats/mysql/file_reader/insert_parser.py','mygrations/formats/mysql/file_reader/reader.py','mygrations/core/parse/parser.py','mygrations/core/parse/rule_delimited.py','mygrations/core/parse/quoting.py','mygrations/formats/mysql/file_reader/parsers/type.py','mygrations/core/definitions/columns/column.py','mygrations/core/definitions/columns/string.py','mygrations/core/definitions/columns/numeric.py','mygrations/core/definitions/columns/date.py'],
  [('recognition of statements and definitions','mygrations/formats/mysql/file_reader/'),('values as the server stores them','as_stored in mygrations/core/definitions/columns/')],
  ['catalog and rows after applying, against a second simulated server which executed the declared text itself','statements of a second apply'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
