"""How cases are made, and what makes one non-trivial (one line per property, for the evidence files)."""
_B = ('A case is a seeded random pair of a live database (5.7 or 8.0 dialect, with data) and a declared schema reached from it by random changes, rendered to '
      '.sql files in a random style and layout; ')
_N = ' A run is non-trivial if a statement that writes was sent, a fault fired or the database changed; distinct by the whole scenario.'
RULES = {
    'C01': _B + 'apply, plan, apply over a chain of up to 3 declared schemas, undisturbed, slow, or after a run killed at a random I/O point.' + _N,
    'C02': _B + 'apply is disturbed once to three times at random I/O points (kill, lost request or answer, refused statement, server crash, signal), then runs undisturbed.' + _N,
    'C03': _B + 'plans are executed by apply or statement by statement, from the original state and from states left by killed runs.' + _N,
    'C04': _B + 'random sequences of check, plan, plan_export and version, also with broken declarations, with a fault at random I/O points.' + _N,
    'C05': _B + 'plan then apply with the same input, through command line, program and given connection, undisturbed and with a fault in apply.' + _N,
    'C06': _B + 'apply with faults at random I/O points and with application sessions writing under a seeded scheduler.' + _N,
    'C07': _B + 'with declared rows and tricky values; rows are edited behind the tool; apply, also after interruptions.' + _N,
    'C08': _B + 'with declared rows; faults at the row statements and the commit.' + _N,
    'C09': _B + 'faults at random points of reading the declared input (stat, list, open, read), damaged files, missing locations, missing permissions.' + _N,
    'C10': _B + 'made invalid in one of 16 ways, given in 6 forms to check, plan and apply, also with a fault.' + _N,
    'C11': _B + 'planned with other listing orders, layouts, styles, table orders, input forms, process histories and hash seeds.' + _N,
    'C12': _B + 'faults at every kind of I/O point of apply, the commit first of all, and of plan; invalid input.' + _N,
    'C13': _B + 'apply on a connection of the caller with a fault at a random point; then the session is probed.' + _N,
    'C14': _B + 'two or three migrators (of one or two declared schemas) and applications under a seeded scheduler, with faults; then one undisturbed apply.' + _N,
    'C15': _B + 'faults at random introspection statements of plan and apply, tables dropped meanwhile, live definitions the tool cannot understand.' + _N,
    'C16': 'A case is a random directory tree with configuration files at several levels, env files, decoy databases and accounts; faults at the configuration reads.' + _N,
    'C17': _B + 'plan_export, its text adopted into the files, then check and plan; with faults.' + _N,
    'C18': _B + 'apply with most tables already matching, with locks held by applications, with faults.' + _N,
    'C19': _B + 'then a few statements are written in other forms of the language of the server: order of attributes, synonyms, literals, keys, options, rows, remarks; check, plan and apply twice, also with a fault.' + _N,
}
