from mkseed import make
D = open(__file__.replace("seeds2", "seeds1")).read().split("'''")[1]
make("sqlite-float-precision", "C13", [("recap/converters/sqlite.py", "if precision and precision <= 23:", "if precision is not None and precision <= 23:")],
  D.format(m="sqlite", c="SQLiteConverter") + '''
t = SQLiteConverter().to_recap([col(TYPE="DOUBLE(0)", NUMERIC_PRECISION=0)]).fields[0]
assert t.bits == 64, t
''', "a REAL-affinity column declared with precision 0 (no precision)", "a double is mapped to a 32-bit float")
make("sqlite-affinity-order", "C13", [("recap/converters/sqlite.py", '''        elif "INT" in column_type:
            return SQLiteAffinity.INTEGER
        elif "CHAR" in column_type or "TEXT" in column_type or "CLOB" in column_type:
            return SQLiteAffinity.TEXT
''', '''        elif "CHAR" in column_type or "TEXT" in column_type or "CLOB" in column_type:
            return SQLiteAffinity.TEXT
        elif "INT" in column_type:
            return SQLiteAffinity.INTEGER
''')],
  D.format(m="sqlite", c="SQLiteConverter") + '''
t = SQLiteConverter().to_recap([col(TYPE="CHARINT")]).fields[0]
assert t.type_ == "int", t
''', "a declared type containing both INT and CHAR", "the affinity rules' precedence is broken")
BQ = '''
from google.cloud.bigquery import SchemaField as F
from recap.converters.bigquery import BigQueryConverter
'''
make("bigquery-repeated-record-doc", "C14", [("recap/converters/bigquery.py", '''            if field.mode == "REPEATED":
                field_type = ListType(field_type)
            if field.mode''', '''            if field.mode == "REPEATED":
                if isinstance(field_type, StructType) and not field_type.fields:
                    continue
                field_type = ListType(field_type)
            if field.mode''')], BQ + '''
t = BigQueryConverter().to_recap([F("a", "RECORD", mode="REPEATED", fields=()), F("b", "STRING", mode="REQUIRED")])
assert [f.extra_attrs["name"] for f in t.fields] == ["a", "b"], t
''', "a repeated record without sub-fields", "a schema field is dropped")
make("bigquery-shared-decimal", "C14", [("recap/converters/bigquery.py", "precision=field.precision or 76,", "precision=field.precision or (38 if field.scale else 76),")], BQ + '''
t = BigQueryConverter().to_recap([F("a", "BIGNUMERIC", mode="REQUIRED", scale=3)]).fields[0]
assert t.extra_attrs["precision"] == 76, t.extra_attrs
''', "a BIGNUMERIC with a scale but no precision", "the decimal's precision is too small")
HV = '''
from pymetastore.htypes import *
from pymetastore.metastore import HColumn
from recap.converters.hive_metastore import HiveMetastoreConverter
def conv(t):
    class T: name = "t"; columns = [HColumn("c", t)]
    return HiveMetastoreConverter().to_recap(T()).fields[0]
'''
make("hive-union-order", "C15", [("recap/converters/hive_metastore.py", "types = [NullType()] + [self._parse_schema(t) for t in htype.types]", "types = [NullType()] + [self._parse_schema(t) for t in htype.types if not isinstance(t, HUnionType)]")], HV + '''
i, s = HPrimitiveType(PrimitiveCategory.INT), HPrimitiveType(PrimitiveCategory.STRING)
t = conv(HUnionType([HUnionType([i]), s]))
assert [x.type_ for x in t.types] == ["null", "int", "string"], t
''', "a union nested directly in a union", "alternatives of the inner union are lost")
make("hive-struct-zip", "C15", [("recap/converters/hive_metastore.py", '''self._parse_schema(HColumn(n, t)) for n, t in zip(names, types)''', '''self._parse_schema(HColumn(n, t)) for n, t in dict(zip(names, types)).items()''')], HV + '''
i, s = HPrimitiveType(PrimitiveCategory.INT), HPrimitiveType(PrimitiveCategory.STRING)
t = conv(HStructType(["a", "a"], [i, s]))
assert len(t.types[1].fields) == 2, t
''', "a struct type with a repeated field name", "a struct field is lost")
make("hive-char-in-union", "C15", [("recap/converters/hive_metastore.py", '''                elif flattened not in flattened_types:
''', '''                elif flattened.type_ not in [t.type_ for t in flattened_types]:
'''), ("recap/converters/hive_metastore.py", "[t for t in flattened.types if t not in flattened_types]", "[t for t in flattened.types if t.type_ not in [x.type_ for x in flattened_types]]")], HV + '''
t = conv(HUnionType([HVarcharType(5), HVarcharType(9)]))
assert [x.type_ for x in t.types] == ["null", "string", "string"], t
''', "a union of two types of the same kind that differ in an attribute", "an alternative of the union is lost")
AV = '''
import json
from recap.converters.avro import AvroConverter
from recap.types import *
'''
make("avro-nested-namespace", "C16", [("recap/converters/avro.py", '''            case {"type": "map", "values": values}:
                keys = StringType(9_223_372_036_854_775_807)
                return_type = MapType(
                    keys,
                    self._parse(values, namespace),''', '''            case {"type": "map", "values": values}:
                keys = StringType(9_223_372_036_854_775_807)
                return_type = MapType(
                    keys,
                    self._parse(values, avro_schema.get("namespace")),''')], AV + '''
s = {"type": "record", "name": "a.R", "fields": [{"name": "m", "type": {"type": "map", "values": {"type": "enum", "name": "E", "symbols": ["X"]}}}]}
t = AvroConverter().to_recap(json.dumps(s))
assert t.fields[0].values.alias == "a.E", t.fields[0].values.alias
''', "a named type defined inside a map, inheriting the record's namespace", "the named type is registered under the wrong qualified name")
make("avro-field-default-null", "C16", [("recap/converters/avro.py", '''        if "default" in avro_schema:
            extra_attrs["default"] = avro_schema["default"]
        if logical_type''', '''        if (default := avro_schema.get("default")) is not None or (
            "default" in avro_schema and "null" in (avro_schema.get("type") or ())
        ):
            extra_attrs["default"] = default
        if logical_type''')], AV + '''
s = {"type": "record", "name": "a.R", "fields": [{"name": "m", "type": [{"type": "null"}, "int"], "default": None}]}
t = AvroConverter().to_recap(json.dumps(s))
assert "default" in t.fields[0].extra_attrs, t.fields[0].extra_attrs
''', "a field with a null default whose null branch is written as a schema object", "a null default is dropped, making the field required")
make("avro-zero-default", "C17", [("recap/converters/avro.py", '''        if "default" in recap_type.extra_attrs:
            avro_schema["default"] = recap_type.extra_attrs["default"]

        if (alias''', '''        if "default" in recap_type.extra_attrs and (
            recap_type.extra_attrs["default"] or recap_type.extra_attrs["default"] is None
        ):
            avro_schema["default"] = recap_type.extra_attrs["default"]

        if (alias''')], AV + '''
t = AvroConverter().from_recap(IntType(32, default=0))
assert t == {"type": "int", "default": 0}, t
''', "a default that is zero, false or empty", "the default is dropped, so the field becomes required")
JS = '''
import json
from recap.converters.json_schema import JSONSchemaConverter
from recap.types import *
'''
make("json-required-nested", "C20", [("recap/converters/json_schema.py", '''                        if not field.is_nullable():
                            field = field.make_nullable()''', '''                        if not isinstance(field, (NullType, UnionType)):
                            field = field.make_nullable()''')], JS + '''
s = {"type": "object", "properties": {"a": {"type": ["string", "integer"]}}}
t = JSONSchemaConverter().to_recap(json.dumps(s)).fields[0]
assert t.is_nullable(), t
''', "an optional property whose type is a list without null", "the optional property does not admit null")
make("json-array-item-default", "C20", [("recap/converters/json_schema.py", '''        if "default" in json_schema:
            extra_attrs["default"] = json_schema["default"]''', '''        if "default" in json_schema and (
            json_schema["default"] is not None or json_schema.get("type") != "string"
        ):
            extra_attrs["default"] = json_schema["default"]''')], JS + '''
s = {"type": "object", "required": ["a"], "properties": {"a": {"type": "string", "default": None}}}
t = JSONSchemaConverter().to_recap(json.dumps(s)).fields[0]
assert "default" in t.extra_attrs, t.extra_attrs
''', "a required string property with an explicit null default", "the declared default is lost")
make("json-required-optional-alias", "C24", [("recap/converters/json_schema.py", '''                        if not isinstance(field, UnionType) or not field.is_optional:''', '''                        if not isinstance(field, UnionType) or not field.is_nullable():''')], JS + '''
s = StructType([UnionType([NullType(), IntType(32)], name="a")])
t = JSONSchemaConverter().from_recap(s)
assert t.get("required") == ["a"], t
''', "a nullable field without a default", "a required field is no longer listed as required")
make("json-optional-many", "C24", [("recap/types.py", '''        has_non_null = len(list(filter(lambda t: t != NullType(), self.types))) == 1''', '''        has_non_null = len({t.type_ for t in self.types if t != NullType()}) == 1''')], JS + '''
u = UnionType([NullType(), IntType(32), IntType(64)], default=None, name="a")
assert not u.is_optional
t = JSONSchemaConverter().from_recap(StructType([u]))
assert t["required"] == ["a"] and len(t["properties"]["a"]["oneOf"]) == 3, t
''', "a union of null and two types of the same kind, with a default", "a union with several alternatives is treated as optional")
