"""Planted bugs: databases."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools.mkseed import make

DB, PG, SQ = "recap/clients/dbapi.py", "recap/clients/postgresql.py", "recap/clients/sqlite.py"
D = '''
import re, sqlite3
class Cursor:
    def __init__(self, c):
        self.c = c
    def execute(self, sql, params=()):
        self.c.execute(re.sub(r"\\b\\w+\\.(\\w+)\\.\\*", r"\\1.*", sql).replace("%s", "?"), params)
    def fetchall(self):
        return self.c.fetchall()
    @property
    def description(self):
        return self.c.description
class Db:
    def __init__(self):
        self.db = sqlite3.connect(":memory:")
        self.db.create_aggregate("array_agg", 1, Labels)
        self.db.execute("ATTACH ':memory:' AS information_schema")
        self.db.execute("ATTACH ':memory:' AS pg_catalog")
    def cursor(self):
        return Cursor(self.db.cursor())
    def table(self, name, cols, rows):
        self.db.execute(f"CREATE TABLE {name} ({', '.join(cols)})")
        self.db.executemany(f"INSERT INTO {name} VALUES ({', '.join('?' * len(cols))})", rows)
class Labels:
    def __init__(self): self.v = []
    def step(self, x): self.v.append(x)
    def finalize(self): return ",".join(self.v)
COLS = ["table_catalog", "table_schema", "table_name", "ordinal_position", "column_name", "data_type", "is_nullable", "column_default", "character_octet_length",
        "character_maximum_length", "numeric_precision", "numeric_scale", "datetime_precision", "udt_name"]
def col(schema, table, i, name):
    return ["db", schema, table, i, name, "bigint", "NO", None, None, None, None, None, None, None]
'''
make("pg-same-table-name", "C21", [(PG, '''                    AND pg_catalog.pg_class.relnamespace = pg_catalog.pg_namespace.oid
''', "")], D + '''
from recap.clients.postgresql import PostgresqlClient
d = Db()
d.table("information_schema.columns", COLS, [col("a", "t", 1, "x"), col("b", "t", 1, "x")])
d.table("pg_catalog.pg_namespace", ["oid", "nspname"], [(1, "a"), (2, "b")])
d.table("pg_catalog.pg_class", ["oid", "relname", "relnamespace"], [(11, "t", 1), (12, "t", 2)])
d.table("pg_catalog.pg_attribute", ["attrelid", "attname", "atttypid", "attndims"], [(11, "x", 20, 0), (12, "x", 20, 0)])
d.table("pg_catalog.pg_type", ["oid", "typtype"], [(20, "b")])
d.table("pg_catalog.pg_enum", ["enumtypid", "enumlabel", "enumsortorder"], [])
s = PostgresqlClient(d).schema("db", "a", "t")
assert [f.extra_attrs["name"] for f in s.fields] == ["x"], s
''', "tables of the same name in two schemas", "every column appears once per table of that name")
make("ls-tables-like", "C21", [(DB, '''                    AND table_schema = {self.param_style}
            """,
            (catalog, schema),''', '''                    AND table_schema LIKE {self.param_style}
            """,
            (catalog, schema),''')], D + '''
from recap.clients.snowflake import SnowflakeClient
d = Db()
d.table("information_schema.tables", ["table_catalog", "table_schema", "table_name"], [("db", "my_app", "t"), ("db", "myXapp", "secret")])
assert SnowflakeClient(d).ls("db", "my_app") == ["t"]
''', "a schema name with an underscore and another schema that matches it as a pattern", "tables of another schema are listed")
make("column-names-by-row", "C21", [(PG, '''        names = [name[0].upper() for name in cursor.description]
        return self.converter.to_recap(
            # Make each row be a dict with the column names as keys
            [dict(zip(names, row)) for row in cursor.fetchall()]
        )''', '''        names = [name[0].upper() for name in cursor.description]
        return self.converter.to_recap(
            # Make each row be a dict with the column names as keys
            list(
                {
                    row["COLUMN_NAME"].lower(): row
                    for row in (dict(zip(names, row)) for row in cursor.fetchall())
                }.values()
            )
        )''')], D + '''
from recap.clients.postgresql import PostgresqlClient
d = Db()
d.table("information_schema.columns", COLS, [col("a", "t", 1, "x"), col("a", "t", 2, "X")])
d.table("pg_catalog.pg_namespace", ["oid", "nspname"], [(1, "a")])
d.table("pg_catalog.pg_class", ["oid", "relname", "relnamespace"], [(11, "t", 1)])
d.table("pg_catalog.pg_attribute", ["attrelid", "attname", "atttypid", "attndims"], [(11, "x", 20, 0), (11, "X", 20, 0)])
d.table("pg_catalog.pg_type", ["oid", "typtype"], [(20, "b")])
d.table("pg_catalog.pg_enum", ["enumtypid", "enumlabel", "enumsortorder"], [])
s = PostgresqlClient(d).schema("db", "a", "t")
assert [f.extra_attrs["name"] for f in s.fields] == ["x", "X"], s
''', "two columns whose names differ in case only", "one of the columns is missing")
make("sqlite-composite-key", "C21", [(SQ, '''row["NOTNULL"] or row["PK"]''', '''row["NOTNULL"] or row["PK"] == 1''')], '''
import sqlite3
from recap.clients.sqlite import SQLiteClient
db = sqlite3.connect(":memory:")
db.execute("CREATE TABLE t (a INT, b INT, PRIMARY KEY (a, b))")
s = SQLiteClient(db).schema("t")
assert [f.type_ for f in s.fields] == ["int", "int"], s
''', "a composite primary key", "its second column becomes nullable")
