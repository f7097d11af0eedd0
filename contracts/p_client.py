"""Reading and listing databases (C21)."""
import re

import z3

from engine.contract import Task
from engine.interp import Model
from engine.sorts import Bool, Choice, Int, ListOf, OptInt, Sort, Str, Union, Const
from engine.values import *

from contracts import client_spec as S
from contracts.p_dbapi import MYSQL, PG, SNOW, SQLITE, NUM

NAMES = ["t", "T", "t2", "a b", "x'y", 'q"r', "%", "t_", "t%", "", "def", "main"]


class Answer(ListOf):
    """The rows that a query answers with."""

    def __init__(self, elem, rand):
        super().__init__(elem)
        self.rows = rand

    def rand(self, r):
        out = self.rows(r)
        self.pick = r.choice(out) if out else None
        return out


class Asked(Str):
    """A name of the answer, or a similar one."""

    def __init__(self, answer, i, words):
        super().__init__(words=words)
        self.answer, self.i, self.near = answer, i, words

    def rand(self, r):
        p = self.answer.pick
        return p[self.i] if p and r.random() < 0.85 else r.choice(self.near)


class Row(Sort):
    def __init__(self, *parts):
        self.parts = parts

    def sym(self, it, name):
        return VList([s.sym(it, f"{name}.{i}") for i, s in enumerate(self.parts)])

    def conc(self, c, name):
        return [s.conc(c, f"{name}.{i}") for i, s in enumerate(self.parts)]

    def rand(self, r):
        return [s.rand(r) for s in self.parts]


NAME = Str(words=NAMES)
OPT = OptInt(**NUM)


def row(words, *more, catalog=NAME):
    return Row(catalog, NAME, NAME, Int(lo=1), Str(words=["id", "a", "b", "X"]), Str(words=words), Union(Const("YES"), Const("NO")), Union(Const(None), Str(words=["0"])),
               OPT, OPT, OPT, OPT, OPT, Str(words=words), Union(Const(None), Str(words=["_int4", "_text"])), *more)


def table_rows(words, *more, catalog=None):
    """Columns of a few tables with similar names."""
    def rand(r):
        out = []
        for t in [(r.choice(catalog or NAMES[:4]), r.choice(NAMES), r.choice(NAMES)) for _ in range(r.randint(1, 3))]:
            if any((x[0], x[1], x[2]) == t for x in out):
                continue
            names = r.choice([["id", "a", "A", "X"], ["X", "x", "a.b", "id"], ["a b", "a_b", "A_B", "q"]])[:]
            for i in r.sample(range(1, 12), r.randint(0, 4)) if hasattr(r, "sample") else positions(r):
                w = r.choice(words)
                small = lambda: r.choice([None, 1, 3, 8, 10])
                out.append([*t, i, names.pop(0), w, r.choice(["YES", "NO"]), r.choice([None, "0"]), 10, 16, 10, 2, r.choice([0, 3, 6]), w, "_int4",
                            *[m(r, w) for m in more]])
        return out
    return rand


def positions(r):
    out = []
    for _ in range(r.randint(0, 4)):
        i = r.randint(1, 12)
        if i not in out:
            out.append(i)
    return out


def query(text):
    """(view, columns, {column: placeholder number or literal}, order) of a simple query."""
    t = re.sub(r"--[^\n]*", " ", text)
    t = re.sub(r"\bpragma_table_info\s*\(\s*\?\s*\)", "pragma_table_info where arg = ?", t, flags=re.I)
    while True:
        u = re.sub(r"\([^()]*\)", " ", t)
        if u == t:
            break
        t = u
    t = " ".join(t.split())
    m = re.fullmatch(r"(?is)select (.*?) from (\S+)((?: (?!where |order by )\S+)*)(?: where (.*?))?(?: order by (.*?))?;?", t)
    if m is None:
        return None
    last = lambda x: x.strip().split(".")[-1].lower()
    conds, n = {}, 0
    for c in re.split(r"(?i) and ", m.group(4)) if m.group(4) else []:
        k = re.fullmatch(r"([\w.]+) ?= ?(%s|\?|'[^']*')", c.strip())
        if k is None or last(k.group(1)) in conds:
            return None
        v = k.group(2)
        if v in ("%s", "?"):
            v, n = n, n + 1
        conds[last(k.group(1))] = v
    order = [last(re.sub(r"(?i) asc$", "", x.strip())) for x in m.group(5).split(",")] if m.group(5) else []
    return m.group(2).lower(), [x.strip().lower() for x in m.group(1).split(",")], conds, order


class CursorModel(Model):
    def __init__(self, db):
        self.db, self.rows, self.columns = db, None, None

    def clone(self, memo, cloner):
        c = CursorModel(self.db)
        c.rows, c.columns = cloner(self.rows), self.columns
        return c

    def m_execute(self, it, args, kw):
        text = it.force(args[0])
        if not isinstance(text, str):
            raise Unsupported("SQL text made from the input")
        q = query(text)
        if q is None:
            raise Unsupported("query of an unknown shape")
        params = it.segments(args[1]) if len(args) > 1 else []
        if any(isinstance(p, Star) for p in params) or len([v for v in q[2].values() if isinstance(v, int)]) != len(params):
            raise Unsupported("parameters of an unknown number")
        self.rows, self.columns = self.db.answer(it, q[0], q[1], {k: params[v] if isinstance(v, int) else v[1:-1] for k, v in q[2].items()}, q[3])

    def m_fetchall(self, it, args, kw):
        if self.rows is None:
            raise Unsupported("no query")
        return self.rows

    def m_fetchone(self, it, args, kw):
        if not isinstance(self.rows, (tuple, type(None))):
            raise Unsupported("the first of several rows")
        return self.rows

    def a_description(self, it):
        if self.columns is None:
            raise Unsupported("description")
        return VList([VList([c] + [None] * 6) for c in self.columns])


class DbModel(Model):
    """A database in which the wanted query answers with given rows."""

    def __init__(self, sort, rows, columns, view, want, values, order=None):
        self.sort, self.rows, self.columns, self.view, self.want, self.values, self.order = sort, rows, columns, view, want, values, order
        self.exists = None

    def m_cursor(self, it, args, kw):
        return CursorModel(self)

    def answer(self, it, view, what, conds, order):
        if view == "sqlite_master" or view == "sqlite_schema":
            if self.exists is not None and set(conds) == {"type", "name"} and conds["type"] == "table" and it.path.decide(z3_eq(it, conds["name"], self.values["arg"])):
                return (("found",) if it.truth(self.exists) else None), ["name"]
        if view != self.view:
            raise Unsupported("another view")
        ok = set(conds) == set(self.values) and (self.order is None or order[:1] == [self.order]) and (self.want in what or self.want == "*" and any(x.endswith(".*") for x in what))
        ok = ok and all(it.path.decide(z3_eq(it, conds[k], v)) for k, v in self.values.items())
        if not ok:
            it.path.taints.add("the query is judged by its shape")
        return (self.rows if ok else self.sort.sym(it, "other rows")), self.columns


def z3_eq(it, a, b):
    r = it.eq(a, b)
    return z3.BoolVal(r) if isinstance(r, bool) else r.t if isinstance(r, Sym) else r


CONVERTERS = [S.MysqlConverter, S.PostgresqlConverter, S.SnowflakeConverter, S.SQLiteConverter]


def setup(answer, columns=None, view="information_schema.columns", want="*", order="ordinal_position", run=False):
    """run: the database can only be run."""
    def go(e):
        f = lambda it, args, n: [it.force(a) for a in args[:n]]

        def connect(it, args, kw):
            if run:
                raise Unsupported("executed only")
            rows, catalog, schema, table = f(it, args, 4)
            return DbModel(answer, rows, columns, view, want, {"table_catalog": catalog, "table_schema": schema, "table_name": table}, order)

        def connect_list(it, args, kw):
            view, rows, parents = f(it, args, 3)
            v, want, ks, order = {
                "tables": ("information_schema.tables", "table_name", ["table_catalog", "table_schema"], None),
                "schemata": ("information_schema.schemata", "schema_name", ["catalog_name"], None),
                "catalogs": ("information_schema.catalogs", "catalog_name", [], "catalog_name"),
                "databases": ("information_schema.databases", "database_name", [], "database_name"),
                "pg_database": ("pg_database", "datname", [], "datname"),
            }[view]
            return DbModel(answer, rows, None, v, want, dict(zip(ks, parents.items)), order)

        def connect_sqlite(it, args, kw):
            rows, exists, table = f(it, args, 3)
            d = DbModel(answer, rows, S.SQLITE_COLUMNS, "pragma_table_info", "*", {"arg": table})
            d.exists = exists
            return d

        def converted(it, args, kw):
            me = it.force(args[0])
            return ("converted", me.cls.__name__, it.force(args[1]))

        e.models[S.connect] = e.models[S.connect_pg] = connect
        e.models[S.connect_list] = connect_list
        e.models[S.connect_sqlite] = connect_sqlite
        e.models[S.sqlite_tables] = lambda it, args, kw: DbModel(answer, it.force(args[0]), None, "sqlite_schema", "name", {"type": "table"})
        e.models[S.sqlite_possible] = e.models[S.sqlite_names] = lambda it, args, kw: True
        e.models[S.columns_of] = lambda it, args, kw: args[0]
        e.models[S.table_info] = lambda it, args, kw: args[0]
        e.models[S.children] = lambda it, args, kw: firsts(it, args[0])
        e.models[S.in_order] = lambda it, args, kw: args[0]
        for k in CONVERTERS:
            e.models[k.to_recap] = converted
    return go


def firsts(it, rows):
    return it.call(S.firsts, [rows])


def list_rows(n, first=None):
    def rand(r):
        out = []
        for _ in range(r.randint(0, 6)):
            x = [r.choice(first or NAMES)] * (n > 0) + [r.choice(NAMES) for _ in range(n)]
            if x[-len(x):] not in out:
                out.append(x)
        return out
    return rand


def sqlite_rand(r):
    out, keys = [], r.random() < 0.5
    for i, n in enumerate(["id", "a", "b c", 'd"e', "X"][: r.randint(1, 5)]):
        t = r.choice(SQLITE + ["CHARACTER VARYING(20)", "VARCHAR (30)", "decimal( 10 , 2 )", "FLOAT(20)", "REAL(24)", "BLOB(9)", "LONG VARCHAR(5)", "double precision(10)", "xINT(3)", "weird type (7,1)"])
        out.append([i, n, t, r.choice([0, 1]), r.choice([None, None, "0", "'x'", "NULL"]), int(keys and r.random() < 0.4)])
    return out


class C21:
    trusted = ["a DB-API cursor answers the query for a table's columns with that table's rows, under the result's column names (the search runs the SQL in SQLite)",
               "the converters are known by their own contracts (C09 to C13)"]
    assumptions = ["queries have the shape SELECT .. FROM .. WHERE column = parameter AND .. ORDER BY ..; joins to further views are checked by execution only"]

    @staticmethod
    def tasks(tier):
        out = []

        def table(name, code, spec, words, columns, more_sorts=(), more=(), catalog=None, inputs=("catalog", "schema", "table"), **kw):
            a = Answer(row(words, *more_sorts), table_rows(words, *more, catalog=catalog))
            ins = {k: Choice(*catalog) if k == "catalog" and catalog == ["db"] else Asked(a, ["catalog", "schema", "table"].index(k.rstrip("2")), NAMES) for k in inputs}
            out.append(Task(name, code, spec, {"rows": a, **ins}, setup=setup(a, columns, run="bounded_only" in kw), frame=False, **kw))

        upper = lambda cs: [c.upper() for c in cs]
        table("mysql.schema", S.code_mysql, S.spec_mysql, ["int", "varchar", "decimal", "timestamp"], upper(S.COLUMNS), inputs=("schema", "table"), catalog=["def", "def", "t"])
        table("snowflake.schema", S.code_snowflake, S.spec_snowflake, ["float", "varchar", "number", "boolean"], upper(S.COLUMNS))
        pg = dict(more_sorts=(Int(0, 6), Union(Const(None), Const("labels"))), catalog=["db"],
                  more=(lambda r, w: r.choice([1, 2]), lambda r, w: ["lo", "mid", "hi"][: r.randint(1, 3)] if w == "user-defined" else None))
        words = ["int4", "varchar", "array", "user-defined", "numeric", "timestamp"]
        table("postgresql.schema", S.code_postgresql, S.spec_postgresql, words, S.PG_COLUMNS, **pg)
        table("postgresql.schema(joins)", S.code_postgresql, S.spec_postgresql, words, S.PG_COLUMNS, **pg, bounded_only=True,
              note="bounded: the joins for array dimensions and enum symbols are executed on catalogs of a few tables")
        table("postgresql.schema(several tables)", S.code_twice, S.spec_twice, words, S.PG_COLUMNS, **pg, inputs=("catalog", "schema", "table", "table2"), bounded_only=True,
              note="bounded: two tables through one client and one more through another")
        a = Answer(Row(Int(), NAME, Str(words=SQLITE), Int(lo=0, hi=1), Union(Const(None), Str()), Int(lo=0)), sqlite_rand)
        out.append(Task("sqlite.schema", S.code_sqlite, S.spec_sqlite, {"rows": a, "exists": Bool(), "table": Str(words=NAMES)}, setup=setup(a), frame=False,
                        requires=S.sqlite_possible))

        def ls(name, code, spec, n, first=None, **ins):
            a = Answer(Row(*[NAME] * (n + 1)), list_rows(n, first))
            ins = {k: Asked(a, i, NAMES) for k, i in ins.items()}
            out.append(Task(name, code, spec, {"rows": a, **ins}, setup=setup(a), frame=False, requires=S.sqlite_names if "sqlite" in name else None))

        ls("mysql.ls(tables)", S.code_mysql_tables, S.spec_mysql_tables, 2, ["def", "def", "t"], schema=1)
        ls("mysql.ls(schemas)", S.code_mysql_schemas, S.spec_mysql_schemas, 1, ["def", "def", "t"])
        ls("postgresql.ls(tables)", S.code_tables, S.spec_tables, 2, NAMES[:3], catalog=0, schema=1)
        ls("postgresql.ls(schemas)", S.code_schemas, S.spec_schemas, 1, NAMES[:3], catalog=0)
        ls("postgresql.ls(databases)", S.code_catalogs, S.spec_catalogs, 0)
        ls("snowflake.ls(tables)", S.code_snowflake_tables, S.spec_tables, 2, NAMES[:3], catalog=0, schema=1)
        ls("snowflake.ls(schemas)", S.code_snowflake_schemas, S.spec_schemas, 1, NAMES[:3], catalog=0)
        ls("snowflake.ls(databases)", S.code_snowflake_catalogs, S.spec_catalogs, 0)
        ls("sqlite.ls", S.code_sqlite_tables, S.spec_sqlite_tables, 0)
        return out
