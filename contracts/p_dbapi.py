from engine.contract import Task
from engine.sorts import Choice, Const, DictOf, Int, ListOf, Maybe, OptInt, OptStr, Scalar, Str

from contracts import dbapi_types as D

MYSQL = """bigint int integer mediumint smallint tinyint double float text json mediumtext longtext
tinytext varchar varchar(10) char char(3) enum set blob mediumblob longblob tinyblob varbinary
varbinary(4) binary binary(2) bit bit(1) timestamp datetime datetime(6) dec decimal numeric year
date time geometry BIGINT Float""".split()
PG = """bigint int8 bigserial serial8 integer int int4 serial serial4 smallint int2 smallserial
serial2 float8 real float4 boolean bool text json jsonb varchar char uuid bytea bit timestamp
timestamptz decimal numeric array ARRAY user-defined USER-DEFINED date time""".split() + [
    "double precision", "character varying", "character", "bit varying", "timestamp without time zone"]
SNOW = """float float4 float8 double real boolean number number(10,2) decimal numeric int integer
bigint smallint tinyint byteint varchar varchar(3) string text nvarchar nvarchar2 char nchar character
binary varbinary blob date timestamp timestamp_ntz(9) timestamp(3) timestamp(0) datetime time time(6)
time(9) variant TIMESTAMP_LTZ(3)""".split() + ["double precision", "char varying", "nchar varying", "time( 3 , 1)"]
SQLITE = """INT INTEGER TINYINT BIGINT CHARACTER(20) VARCHAR(255) NCHAR(55) TEXT CLOB BLOB REAL DOUBLE FLOAT
NUMERIC DECIMAL(10,5) BOOLEAN DATE DATETIME integer floatint charblob""".split() + ["DOUBLE PRECISION", "", "UNSIGNED BIG INT"]
YN = Str(words=["YES", "NO", "yes", "no"])
NUM = dict(lo=0, hi=2**40, picks=[0, 1, 3, 4, 6, 7, 9, 10, 23, 24, 38, 53, 255])


def column(words, **more):
    return DictOf({
        "COLUMN_NAME": Str(words=["id", "a.b", "x"]),
        "DATA_TYPE": Str(words=words),
        "CHARACTER_OCTET_LENGTH": OptInt(**NUM),
        "CHARACTER_MAXIMUM_LENGTH": OptInt(**NUM),
        "NUMERIC_PRECISION": OptInt(**NUM),
        "NUMERIC_SCALE": OptInt(**NUM),
        "DATETIME_PRECISION": OptInt(**NUM),
        "IS_NULLABLE": YN,
        "COLUMN_DEFAULT": OptStr(words=["0", "NULL", ""]),
        **more,
    })


class P:
    trusted = ["str.lower/str.upper are treated as uninterpreted functions"]
    assumptions = ["column dictionaries have the INFORMATION_SCHEMA keys with None/int/str values"]


class C10(P):
    @staticmethod
    def tasks(tier):
        return [Task("mysql.to_recap", D.code_mysql, D.spec_mysql, {"column": column(MYSQL)})]


class C09(P):
    @staticmethod
    def tasks(tier):
        return [Task("columns.to_recap", D.code_mysql_columns, D.spec_mysql_columns,
                     {"columns": ListOf(column(MYSQL))})]


PGCOL = column(PG, UDT_NAME=OptStr(words=["_" + w for w in PG] + PG + ["_int4_", "__text", "_varchar_", "_bit_"]), ATTNDIMS=Int(0, 6),
               ENUM_VALUES=Const(None))
PGENUM = column(PG, UDT_NAME=OptStr(words=PG), ATTNDIMS=Int(0, 6), ENUM_VALUES=ListOf(Str()))


PGARRAY = DictOf({k: Const(None) for k in column(PG).fields} | {
    "COLUMN_NAME": Str(words=["id", "a.b", "x"]), "DATA_TYPE": Const("ARRAY"), "UDT_NAME": Choice("_int4", "text"), "IS_NULLABLE": YN, "ATTNDIMS": Int(0, 6), "ENUM_VALUES": Const(None)})


def pg_column(c):
    """Array elements are not themselves arrays in the catalog."""
    return (c["UDT_NAME"] or "").lower().lstrip("_") not in ("array", "user-defined")


def pg_name(c):
    import re

    if c["DATA_TYPE"].lower() != "array":
        return True
    n = c["COLUMN_NAME"].replace(".", "_")
    return pg_column(c) and re.fullmatch(r"[a-zA-Z_][a-zA-Z0-9_]*", n) is not None


def pg_names(column, column2):
    return pg_name(column) and pg_name(column2)


class C11(P):
    @staticmethod
    def tasks(tier):
        return [
            Task("postgresql.to_recap(enforce dimensions)", D.code_pg_dims, D.spec_pg_dims, {"column": PGCOL}, requires=pg_column),
            Task("postgresql.to_recap", D.code_pg, D.spec_pg, {"column": PGCOL}, requires=pg_name),
            Task("postgresql.to_recap(enum)", D.code_pg, D.spec_pg, {"column": PGENUM}, requires=pg_name),
            Task("postgresql.to_recap(two tables)", D.code_pg_history, D.spec_pg_history, {"column": PGARRAY, "column2": PGARRAY}, requires=pg_names),
        ]


class C12(P):
    @staticmethod
    def tasks(tier):
        return [Task("snowflake.to_recap", D.code_snowflake, D.spec_snowflake, {"column": column(SNOW)})]


class C13(P):
    @staticmethod
    def tasks(tier):
        return [Task("sqlite.to_recap", D.code_sqlite, D.spec_sqlite,
                     {"column": column(SQLITE, TYPE=OptStr(words=SQLITE))})]
