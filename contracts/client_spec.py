"""Databases: what reading and listing ask for, and what they make of the answer.

Natively the database is SQLite with databases named information_schema and pg_catalog, so
that the SQL that the clients send is really run; in the proof it is known by its contract
(p_client.py): the query for the columns of a table answers with the table's rows."""
import re
import sqlite3

from recap.clients.mysql import MysqlClient
from recap.clients.postgresql import PostgresqlClient
from recap.clients.snowflake import SnowflakeClient
from recap.clients.sqlite import SQLiteClient
from recap.converters.mysql import MysqlConverter
from recap.converters.postgresql import PostgresqlConverter
from recap.converters.snowflake import SnowflakeConverter
from recap.converters.sqlite import SQLiteConverter

from contracts.speclib import Rejected

WHERE = ["table_catalog", "table_schema", "table_name", "ordinal_position"]
COLUMNS = [*WHERE, "column_name", "data_type", "is_nullable", "column_default", "character_octet_length",
           "character_maximum_length", "numeric_precision", "numeric_scale", "datetime_precision", "column_type", "udt_name"]
PG_COLUMNS = [*COLUMNS, "attndims", "enum_values"]
SQLITE_COLUMNS = ["cid", "name", "type", "notnull", "dflt_value", "pk"]


class Cursor:
    def __init__(self, cursor):
        self.cursor = cursor

    def execute(self, sql, params=()):
        sql = re.sub(r"\b\w+\.(\w+)\.\*", r"\1.*", sql).replace("%s", "?")
        self.cursor.execute(sql, params)

    def fetchall(self):
        d = [x[0] for x in self.cursor.description]
        return [tuple(unpack(v) if n == "enum_values" else v for n, v in zip(d, r)) for r in self.cursor.fetchall()]

    def fetchone(self):
        return self.cursor.fetchone()

    @property
    def description(self):
        return self.cursor.description


def unpack(v):
    return v.split(",") if isinstance(v, str) else v


class Labels:
    def __init__(self):
        self.v = []

    def step(self, x):
        self.v.append(x)

    def finalize(self):
        return ",".join(self.v)


class Database:
    def __init__(self):
        self.c = sqlite3.connect(":memory:")
        self.c.create_aggregate("array_agg", 1, Labels)
        for d in ("information_schema", "pg_catalog"):
            self.c.execute(f"ATTACH ':memory:' AS {d}")

    def table(self, name, columns, rows):
        self.c.execute(f"CREATE TABLE {name} ({', '.join(columns)})")
        self.c.executemany(f"INSERT INTO {name} VALUES ({', '.join('?' * len(columns))})", rows)

    def cursor(self):
        return Cursor(self.c.cursor())


def connect(rows, catalog, schema, table):
    db = Database()
    db.table("information_schema.columns", COLUMNS, [r[: len(COLUMNS)] for r in rows])
    return db


def connect_pg(rows, catalog, schema, table):
    db = connect(rows, catalog, schema, table)
    spaces, classes, attributes, types, enums = [], [], [], [], []
    for i, r in enumerate(rows):
        if r[1] not in spaces:
            spaces.append(r[1])
        k = (r[1], r[2])
        if k not in classes:
            classes.append(k)
        t = 9000 + i
        attributes.append((classes.index(k), r[4], t, r[-2]))
        types.append((t, "e" if r[-1] is not None else "b"))
        labels = [(t, x, j) for j, x in enumerate(r[-1] or [])]
        enums += labels[1:] + labels[:1]  # not stored in order
    db.table("pg_catalog.pg_namespace", ["oid", "nspname"], [(i, s) for i, s in enumerate(spaces)])
    db.table("pg_catalog.pg_class", ["oid", "relname", "relnamespace"], [(i, t, spaces.index(s)) for i, (s, t) in enumerate(classes)])
    db.table("pg_catalog.pg_attribute", ["attrelid", "attname", "atttypid", "attndims"], attributes)
    db.table("pg_catalog.pg_type", ["oid", "typtype"], types)
    db.table("pg_catalog.pg_enum", ["enumtypid", "enumlabel", "enumsortorder"], enums)
    return db


def columns_of(rows, catalog, schema, table):
    return sorted([r for r in rows if r[0] == catalog and r[1] == schema and r[2] == table], key=lambda r: r[3])


def named(columns, rows):
    return [dict(zip(columns, r)) for r in rows]


UPPER = [c.upper() for c in COLUMNS]
PG_UPPER = [c.upper() for c in PG_COLUMNS]
SQLITE_UPPER = [c.upper() for c in SQLITE_COLUMNS]


def code_mysql(rows, schema, table):
    return MysqlClient(connect(rows, "def", schema, table)).schema(schema, table)


def spec_mysql(rows, schema, table):
    return MysqlConverter().to_recap(named(UPPER, columns_of(rows, "def", schema, table)))


def code_snowflake(rows, catalog, schema, table):
    return SnowflakeClient(connect(rows, catalog, schema, table)).schema(catalog, schema, table)


def spec_snowflake(rows, catalog, schema, table):
    return SnowflakeConverter().to_recap(named(UPPER, columns_of(rows, catalog, schema, table)))


def code_postgresql(rows, catalog, schema, table):
    return PostgresqlClient(connect_pg(rows, catalog, schema, table)).schema(catalog, schema, table)


def spec_postgresql(rows, catalog, schema, table):
    return PostgresqlConverter().to_recap(named(PG_UPPER, columns_of(rows, catalog, schema, table)))


def code_twice(rows, catalog, schema, table, table2):
    """Two tables through one client, then one through another."""
    a = PostgresqlClient(connect_pg(rows, catalog, schema, table))
    first = a.schema(catalog, schema, table)
    second = a.schema(catalog, schema, table2)
    return [first, second, PostgresqlClient(connect_pg(rows, catalog, schema, table)).schema(catalog, schema, table)]


def spec_twice(rows, catalog, schema, table, table2):
    t = [spec_postgresql(rows, catalog, schema, x) for x in (table, table2)]
    return [t[0], t[1], t[0]]


# ---- SQLite --------------------------------------------------------------------------------
def quote(x):
    return '"' + x.replace('"', '""') + '"'


def connect_sqlite(rows, exists, table):
    db = sqlite3.connect(":memory:")
    db.execute('CREATE TABLE "other" ("id" int, "x" text)')
    if exists:
        keys = [quote(r[1]) for r in rows if r[5]]
        db.execute(f"CREATE TABLE {quote(table)} (" + ", ".join(
            [f"{quote(r[1])} {r[2]}" + (" NOT NULL" if r[3] else "") + (f" DEFAULT {r[4]}" if r[4] is not None else "") for r in rows]
            + ([f"PRIMARY KEY ({', '.join(keys)})"] if keys else [])) + ")")
    return db


def table_info(rows, table):
    c = connect_sqlite(rows, True, table).execute(f"PRAGMA table_info({quote(table)})")
    return c.fetchall()


def code_sqlite(rows, exists, table):
    return SQLiteClient(connect_sqlite(rows, exists, table)).schema(table)


def spec_sqlite(rows, exists, table):
    if not exists:
        raise Rejected()
    return SQLiteConverter().to_recap([described(dict(zip(SQLITE_UPPER, r))) for r in table_info(rows, table)])


def described(row):
    t = row["TYPE"]
    params = re.search(r"\w\s*\(\s*(\d+)\s*(?:,\s*(\d+)\s*)?\)", t)
    precision = scale = length = None
    if params is not None:
        u = t.upper() if t else ""
        if not u or "INT" not in u and ("CHAR" in u or "TEXT" in u or "CLOB" in u or "BLOB" in u):
            length = int(params.group(1))
        else:
            precision = int(params.group(1))
            scale = int(params.group(2)) if params.group(2) else 0
    return row | {
        "COLUMN_NAME": row["NAME"],
        "IS_NULLABLE": "NO" if row["NOTNULL"] or row["PK"] else "YES",
        "COLUMN_DEFAULT": row["DFLT_VALUE"],
        "NUMERIC_PRECISION": precision,
        "NUMERIC_SCALE": scale,
        "CHARACTER_OCTET_LENGTH": length,
    }


# ---- listing -------------------------------------------------------------------------------
def connect_list(view, rows, parents):
    """A catalog view: rows are the parents' names and the name."""
    db = Database()
    db.table(*{
        "tables": ("information_schema.tables", ["table_catalog", "table_schema", "table_name"]),
        "schemata": ("information_schema.schemata", ["catalog_name", "schema_name"]),
        "catalogs": ("information_schema.catalogs", ["catalog_name"]),
        "databases": ("information_schema.databases", ["database_name"]),
        "pg_database": ("pg_catalog.pg_database", ["datname"]),
    }[view], rows)
    return db


def children(rows, parents):
    """Their names, in order."""
    return sorted([r[-1] for r in rows if [*r[:-1]] == parents])


def firsts(rows):
    return [r[0] for r in rows]


def sqlite_possible(rows, exists, table):
    """Can SQLite have this table?"""
    try:
        connect_sqlite(rows, exists, table)
    except sqlite3.Error:
        return False
    return table != "other" and "\0" not in table


def sqlite_names(rows):
    try:
        sqlite_tables(rows)
    except sqlite3.Error:
        return False
    return True


def in_order(names):
    """Whatever the order in which the database gives them."""
    return sorted(names)


def code_mysql_tables(rows, schema):
    return in_order(MysqlClient(connect_list("tables", rows, ["def", schema])).ls(schema))


def spec_mysql_tables(rows, schema):
    return children(rows, ["def", schema])


def code_mysql_schemas(rows):
    return in_order(MysqlClient(connect_list("schemata", rows, ["def"])).ls())


def spec_mysql_schemas(rows):
    return children(rows, ["def"])


def code_tables(rows, catalog, schema):
    return in_order(PostgresqlClient(connect_list("tables", rows, [catalog, schema])).ls(catalog, schema))


def code_snowflake_tables(rows, catalog, schema):
    return in_order(SnowflakeClient(connect_list("tables", rows, [catalog, schema])).ls(catalog, schema))


def spec_tables(rows, catalog, schema):
    return children(rows, [catalog, schema])


def code_schemas(rows, catalog):
    return in_order(PostgresqlClient(connect_list("schemata", rows, [catalog])).ls(catalog))


def code_snowflake_schemas(rows, catalog):
    return in_order(SnowflakeClient(connect_list("schemata", rows, [catalog])).ls(catalog))


def spec_schemas(rows, catalog):
    return children(rows, [catalog])


def code_catalogs(rows):
    return PostgresqlClient(connect_list("pg_database", rows, [])).ls()


def code_snowflake_catalogs(rows):
    return SnowflakeClient(connect_list("databases", rows, [])).ls()


def spec_catalogs(rows):
    return children(rows, [])


def code_sqlite_tables(rows):
    return in_order(SQLiteClient(sqlite_tables(rows)).ls())


def spec_sqlite_tables(rows):
    return children(rows, [])


def sqlite_tables(rows):
    db = sqlite3.connect(":memory:")
    for i, r in enumerate(rows):
        db.execute(f"CREATE TABLE {quote(r[-1])} (x)")
        db.execute(f"CREATE INDEX i{i} ON {quote(r[-1])} (x)")
    return db
