"""Contract of the BigQuery converter."""
from recap.converters.bigquery import BigQueryConverter

from contracts.speclib import Bool, Bytes, Float, Int, List, Rejected, String, Struct, as_node, nullable

DECIMAL = "build.recap.Decimal"


def bq_type(f):
    t = f.field_type
    if t in ("STRING", "JSON"):
        return String(f.max_length, True)
    if t == "BYTES":
        return Bytes(f.max_length, True)
    if t in ("INT64", "INTEGER", "INT", "SMALLINT", "TINYINT", "BYTEINT"):
        return Int(64)
    if t in ("FLOAT", "FLOAT64"):
        return Float(64)
    if t == "BOOLEAN":
        return Bool()
    if t in ("TIMESTAMP", "DATETIME"):
        return Int(64, logical="build.recap.Timestamp", unit="microsecond")
    if t == "TIME":
        return Int(32, logical="build.recap.Time", unit="microsecond")
    if t == "DATE":
        return Int(32, logical="build.recap.Date", unit="day")
    if t in ("RECORD", "STRUCT"):
        return as_node(bq_struct(f.fields))
    if t in ("NUMERIC", "DECIMAL"):
        return Bytes(16, False, logical=DECIMAL, precision=f.precision or 38, scale=f.scale or 0)
    if t in ("BIGNUMERIC", "BIGDECIMAL"):
        return Bytes(32, False, logical=DECIMAL, precision=f.precision or 76, scale=f.scale or 0)
    raise Rejected()


def bq_field(f):
    t = bq_type(f)
    if f.mode == "REPEATED":
        t = List(t)
    if f.mode == "NULLABLE":
        t = nullable(t)
    if f.name:
        t.attrs["name"] = f.name
    if f.description:
        t.doc = f.description
    if f.default_value_expression:
        t.attrs["default"] = f.default_value_expression
    return t


def bq_struct(fields):
    return Struct([bq_field(f) for f in fields])


def code_bigquery(fields):
    return BigQueryConverter().to_recap(fields)


def spec_bigquery(fields):
    return bq_struct(fields)
