"""SQLite as an execution oracle."""
import sqlite3

from .judge import Violation


def connect():
    con = sqlite3.connect(':memory:', isolation_level=None)
    con.create_function('regexp', 2, lambda p, v: None if p is None or v is None else int(str(p) in str(v)))
    con.create_function('concat', -1, lambda *a: None if any(x is None for x in a) else ''.join(str(x) for x in a))
    return con


def q(name):
    return '"' + name.replace('"', '""') + '"'


def run(con, sql):
    """Execute library SQL; anything SQLite refuses is a violation."""
    try:
        return con.execute(sql).fetchall()
    except (sqlite3.Error, sqlite3.Warning) as e:
        raise Violation('SQLite refuses the statement: %s' % e, sql=sql)


def storable(s):
    """Text SQLite can store and compare faithfully."""
    if '\0' in s:
        return False
    try:
        s.encode('utf-8')
    except UnicodeEncodeError:
        return False
    return True
