"""Contracts of the four INFORMATION_SCHEMA style converters (one column at a time)
and of the column list (any number of columns)."""
from recap.converters.mysql import MysqlConverter
from recap.converters.postgresql import PostgresqlConverter
from recap.converters.snowflake import SnowflakeConverter
from recap.converters.sqlite import SQLiteConverter

from contracts.speclib import (
    Bool, Bytes, Enum, Float, Int, List, Node, Null, Proxy, Rejected, String, Struct, Union,
    column_field, time_unit,
)

DECIMAL = "build.recap.Decimal"
TIMESTAMP = "build.recap.Timestamp"
MAX_FIELD_SIZE = 1073741824
SQLITE_MAX = 2147483647


# ---- MySQL -----------------------------------------------------------------
def mysql_type(props):
    t = props["DATA_TYPE"].lower()
    octets = props["CHARACTER_OCTET_LENGTH"]
    ints = {"bigint": 64, "int": 32, "integer": 32, "mediumint": 24, "smallint": 16, "tinyint": 8}
    for name, bits in ints.items():
        if t == name:
            return Int(bits)
    if t == "year":
        return Int(16, signed=False)
    if t == "double":
        return Float(64)
    if t == "float":
        p = props["NUMERIC_PRECISION"]
        if p is None:
            raise Rejected()
        return Float(64 if p > 23 else 32)
    if t in ("text", "json", "mediumtext", "longtext", "tinytext") or t.startswith("varchar"):
        return String(octets, True)
    if t in ("enum", "set") or t.startswith("char"):
        return String(octets, False)
    if t in ("blob", "mediumblob", "longblob", "tinyblob") or t.startswith("varbinary"):
        return Bytes(octets, True)
    if t.startswith("binary"):
        return Bytes(octets, False)
    if t.startswith("bit"):
        return Bytes(8, False)
    if t.startswith("timestamp") or t.startswith("datetime"):
        return Int(64, logical=TIMESTAMP, unit=time_unit(props["DATETIME_PRECISION"], "microsecond"))
    if t in ("dec", "decimal", "numeric"):
        return Bytes(32, False, logical=DECIMAL, precision=props["NUMERIC_PRECISION"],
                     scale=props["NUMERIC_SCALE"])
    raise Rejected()


def code_mysql(column):
    return MysqlConverter().to_recap([column])


def spec_mysql(column):
    return Struct([column_field(mysql_type(column), column)])


def code_mysql_columns(columns):
    return MysqlConverter().to_recap(columns)


def spec_mysql_columns(columns):
    return Struct([column_field(mysql_type(c), c) for c in columns])


# ---- PostgreSQL ---------------------------------------------------------------
def pg_scalar(props):
    t = props["DATA_TYPE"].lower()
    octets = props["CHARACTER_OCTET_LENGTH"]
    if t in ("bigint", "int8", "bigserial", "serial8"):
        return Int(64)
    if t in ("integer", "int", "int4", "serial", "serial4"):
        return Int(32)
    if t in ("smallint", "smallserial", "serial2"):
        return Int(16)
    if t in ("double precision", "float8"):
        return Float(64)
    if t in ("real", "float4"):
        return Float(32)
    if t == "boolean":
        return Bool()
    if t in ("text", "json", "jsonb") or t.startswith("character varying") or t.startswith("varchar"):
        return String(octets, True)
    if t.startswith("char"):
        return String(octets, False)
    if t == "uuid":
        return String(36, False, logical="build.recap.UUID")
    if t == "bytea" or t.startswith("bit varying"):
        return Bytes(MAX_FIELD_SIZE, True)
    if t.startswith("bit"):
        n = props["CHARACTER_MAXIMUM_LENGTH"]
        if n is None:
            raise Rejected()
        return Bytes((n + 7) // 8, False)
    if t.startswith("timestamp"):
        if "DATETIME_PRECISION" not in props:
            raise Rejected()
        return Int(64, logical=TIMESTAMP, unit=time_unit(props["DATETIME_PRECISION"], "microsecond"))
    if t.startswith("decimal") or t.startswith("numeric"):
        if "NUMERIC_PRECISION" not in props:
            raise Rejected()
        return Bytes(32, False, logical=DECIMAL, precision=props["NUMERIC_PRECISION"],
                     scale=props["NUMERIC_SCALE"])
    return None


def nested(t, n):
    return t if n == 0 else nested(List(t), n - 1)


def pg_type(props, namespace, dims):
    t = pg_scalar(props)
    if t is not None:
        return t
    kind = props["DATA_TYPE"].lower()
    if kind == "array":
        elem = (props["UDT_NAME"] or "").lower().lstrip("_")
        value = pg_scalar({
            "DATA_TYPE": elem,
            "CHARACTER_OCTET_LENGTH": MAX_FIELD_SIZE,
            "CHARACTER_MAXIMUM_LENGTH": MAX_FIELD_SIZE * 8,
        })
        if value is None:
            raise Rejected()
        if dims:
            return nested(Union([Null(), value]), props["ATTNDIMS"])
        alias = namespace + "." + props["COLUMN_NAME"].replace(".", "_")
        return List(Union([value, Proxy(alias)]), alias=alias)
    if kind == "user-defined" and props["ENUM_VALUES"]:
        return Enum(props["ENUM_VALUES"])
    raise Rejected()


def code_pg_dims(column):
    return PostgresqlConverter(True).to_recap([column])


def spec_pg_dims(column):
    return Struct([column_field(pg_type(column, "_root", True), column)])


def code_pg(column):
    return PostgresqlConverter(False, "ns").to_recap([column])


def spec_pg(column):
    return Struct([column_field(pg_type(column, "ns", False), column)])


def code_pg_history(column, column2):
    c = PostgresqlConverter(False, "ns")
    return [c.to_recap([column]), c.to_recap([column2])]


def spec_pg_history(column, column2):
    return [spec_pg(column), spec_pg(column2)]


# ---- Snowflake -------------------------------------------------------------------
def snowflake_precision(t):
    """First number in parentheses, or None."""
    import re

    m = re.search(r"\((.*?)\)", t)
    if m is None:
        return None
    p = m.group(1).split(",")[0].strip()
    try:
        return int(p)
    except ValueError:
        raise Rejected()


def snowflake_type(props):
    t = props["DATA_TYPE"].lower()
    octets = props["CHARACTER_OCTET_LENGTH"]
    if t in ("float", "float4", "float8", "double", "double precision", "real"):
        return Float(64)
    if t == "boolean":
        return Bool()
    if (t in ("int", "integer", "bigint", "smallint", "tinyint", "byteint")
            or t.startswith("number") or t.startswith("decimal") or t.startswith("numeric")):
        return Bytes(16, False, logical=DECIMAL, precision=props["NUMERIC_PRECISION"] or 38,
                     scale=props["NUMERIC_SCALE"] or 0)
    if (t.startswith("varchar") or t.startswith("string") or t.startswith("text")
            or t.startswith("nvarchar") or t.startswith("char varying")
            or t.startswith("nchar varying")):
        return String(octets or 16777216, True)
    if t.startswith("char") or t.startswith("nchar"):
        return String(octets or 1, True)
    if t in ("binary", "varbinary", "blob"):
        return Bytes(octets or 8388608, True)
    if t == "date":
        return Int(32, logical="build.recap.Date", unit="day")
    if t.startswith("timestamp") or t.startswith("datetime"):
        p = snowflake_precision(t)
        unit = "nanosecond" if p is None else time_unit(p, "nanosecond")
        return Int(64, logical=TIMESTAMP, unit=unit)
    if t.startswith("time"):
        p = snowflake_precision(t)
        unit = "nanosecond" if p is None else time_unit(p, "nanosecond")
        return Int(32, logical="build.recap.Time", unit=unit)
    raise Rejected()


def code_snowflake(column):
    return SnowflakeConverter().to_recap([column])


def spec_snowflake(column):
    return Struct([column_field(snowflake_type(column), column)])


# ---- SQLite -------------------------------------------------------------------------
def sqlite_type(props):
    t = (props["TYPE"] or "").upper()
    octets = props["CHARACTER_OCTET_LENGTH"]
    if "INT" in t:
        return Int(64)
    if "CHAR" in t or "CLOB" in t or "TEXT" in t:
        return String(octets or SQLITE_MAX)
    if "BLOB" in t or t == "":
        return Bytes(octets or SQLITE_MAX)
    if "REAL" in t or "FLOA" in t or "DOUB" in t:
        p = props["NUMERIC_PRECISION"]
        if p and p <= 23:
            return Float(32)
        return Float(64)
    return Union([Null(), Int(64), Float(64), String(SQLITE_MAX), Bytes(SQLITE_MAX)])


def code_sqlite(column):
    return SQLiteConverter().to_recap([column])


def spec_sqlite(column):
    return Struct([column_field(sqlite_type(column), column)])
