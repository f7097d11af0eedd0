from mkseed import make
D = '''
from recap.converters.{m} import {c}
def col(**kw):
    d = dict(COLUMN_NAME="c", DATA_TYPE="int", CHARACTER_OCTET_LENGTH=None, CHARACTER_MAXIMUM_LENGTH=None, NUMERIC_PRECISION=None,
             NUMERIC_SCALE=None, DATETIME_PRECISION=None, IS_NULLABLE="NO", COLUMN_DEFAULT=None, UDT_NAME=None, ATTNDIMS=0, ENUM_VALUES=None, TYPE="", COLUMN_TYPE=None)
    d.update(kw); return d
'''
make("mysql-char-zero", "C10", [("recap/converters/mysql.py", "StringType(bytes_=octet_length, variable=False)", "StringType(bytes_=octet_length or None, variable=False)")],
  D.format(m="mysql", c="MysqlConverter") + '''
t = MysqlConverter().to_recap([col(DATA_TYPE="char", CHARACTER_OCTET_LENGTH=0)]).fields[0]
assert t.bytes_ == 0, t
''', "a CHAR(0) column", "a fixed-length string loses its length")
make("dbapi-falsy-default", "C09", [("recap/converters/dbapi.py", 'if column["COLUMN_DEFAULT"] is not None or is_nullable:', 'if column["COLUMN_DEFAULT"] or is_nullable:')],
  D.format(m="mysql", c="MysqlConverter") + '''
t = MysqlConverter().to_recap([col(DATA_TYPE="varchar", COLUMN_DEFAULT="")]).fields[0]
assert t.extra_attrs.get("default", 1) == "", t
''', "a NOT NULL column whose default is the empty string", "the column's default is dropped")
make("pg-array-dims", "C11", [("recap/converters/postgresql.py", "self._create_n_dimension_list(value_type, ndims)", "self._create_n_dimension_list(value_type, min(ndims, 3))")],
  D.format(m="postgresql", c="PostgresqlConverter") + '''
t = PostgresqlConverter(True).to_recap([col(DATA_TYPE="ARRAY", UDT_NAME="_int4", ATTNDIMS=4)]).fields[0]
n = 0
while t.type_ == "list":
    t, n = t.values, n + 1
assert n == 4, n
''', "an array declared with four or more dimensions, dimensions enforced", "dimensions beyond the third are lost")
make("snowflake-time-unit", "C12", [("recap/converters/snowflake.py", '''            unit = self._get_time_unit(params) or "nanosecond"
            base_type = IntType(bits=32, logical="build.recap.Time", unit=unit)''', '''            unit = self._get_time_unit(params) or ("microsecond" if params and params[0] == "7" else "nanosecond")
            base_type = IntType(bits=32, logical="build.recap.Time", unit=unit)''')],
  D.format(m="snowflake", c="SnowflakeConverter") + '''
t = SnowflakeConverter().to_recap([col(DATA_TYPE="TIME(7)")]).fields[0]
assert t.extra_attrs["unit"] == "nanosecond", t
''', "a TIME(7) column", "a unit too coarse for the declared precision")
make("from-dict-length-limit", "C02", [("recap/types.py", '''                recap_type = ListType(
                    from_dict(type_dict.pop("values"), registry),
                    **type_dict,
                )''', '''                values = from_dict(type_dict.pop("values"), registry)
                if not type_dict.get("length"):
                    type_dict.pop("length", None)
                recap_type = ListType(values, **type_dict)''')],
'''
from recap.types import from_dict
try:
    t = from_dict({"type": "list", "values": "bool", "length": 0})
except Exception:
    raise SystemExit(0)
raise SystemExit(f"accepted: {t.__dict__}")
''', "a list with an explicit length of zero", "an out-of-range length is silently accepted as unlimited")
make("register-shares-type", "C04", [("recap/types.py", "            self._resolved = copy.deepcopy(self.registry.from_alias(self.alias))", "            self._resolved = copy.copy(self.registry.from_alias(self.alias))")],
'''
from recap.types import *
r = RecapTypeRegistry()
r.register_alias(StructType([IntType(32)], alias="a.b"))
ProxyType("a.b", r, foo=1).resolve()
t = r.from_alias("a.b")
assert "foo" not in t.extra_attrs, t.extra_attrs
''', "a reference with an overriding extra attribute, then a second look at the same alias", "resolving a reference modifies the registered type")
make("nullable-drops-falsy-default", "C03", [("recap/types.py", '''            "default": extra_attrs.pop("default", None),''', '''            "default": extra_attrs.pop("default", None) or None,''')],
'''
from recap.types import *
t = IntType(32, default=0).make_nullable()
assert t.extra_attrs["default"] == 0 and t.extra_attrs["default"] is not None, t.extra_attrs
''', "a type whose default is 0, False or the empty string", "the default becomes null")
