"""Planted bugs: registry, Hive comments, Avro maps, JSON Schema defaults, storage names."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools.mkseed import make

T, H, A, J, G, P = "recap/types.py", "recap/converters/hive_metastore.py", "recap/converters/avro.py", "recap/converters/json_schema.py", "recap/storage/registry.py", "recap/converters/protobuf.py"
make("register-before-check", "C04", [(T, """        if fullmatch(ALIAS_REGEX, alias) is None:
            raise ValueError(f"Alias {alias} must be a fully qualified name.")
        recap_type = copy.deepcopy(recap_type)
""", """        recap_type = copy.deepcopy(recap_type)
        self._type_registry[alias] = recap_type
        if fullmatch(ALIAS_REGEX, alias) is None:
            raise ValueError(f"Alias {alias} must be a fully qualified name.")
""")], """
from recap.types import IntType, RecapTypeRegistry
r = RecapTypeRegistry()
try:
    r.register_alias(IntType(bits=32, alias="order"))
    raise SystemExit("accepted")
except ValueError:
    pass
try:
    r.from_alias("order")
    raise SystemExit("a refused alias can be referred to")
except (ValueError, TypeError):
    pass
""", "a registration that is refused, then a reference to that alias", "the refused alias is registered")
make("alias-prefix-match", "C04", [(T, "from re import fullmatch\n", "from re import match as fullmatch\n")], """
from recap.types import IntType, RecapTypeRegistry
try:
    RecapTypeRegistry().register_alias(IntType(bits=32, alias="com.acme.order\\n"))
    raise SystemExit("malformed alias accepted")
except ValueError:
    pass
""", "an alias that ends in a newline", "malformed aliases are accepted")
make("hive-union-comment", "C15", [(H, "            if htype.comment:\n", "            if htype.comment and not isinstance(htype.type, HUnionType):\n")], """
from pymetastore.htypes import HPrimitiveType, HUnionType, PrimitiveCategory
from pymetastore.metastore import HColumn, HStorage, HTable, StorageFormat
from recap.converters.hive_metastore import HiveMetastoreConverter
u = HUnionType([HPrimitiveType(PrimitiveCategory.INT), HPrimitiveType(PrimitiveCategory.STRING)])
t = HTable("d", "t", "MANAGED_TABLE", [HColumn("c", u, comment="either")], [], HStorage(StorageFormat("", "", "")), {})
r = HiveMetastoreConverter().to_recap(t)
assert r.fields[0].doc == "either", r
""", "a column of a union type with a comment", "the comment is lost")
make("avro-map-reference-keys", "C17", [(A, """            case MapType(
                keys=StringType(),
                values=values,
""", """            case MapType(
                keys=StringType() | ProxyType(),
                values=values,
""")], """
from recap.converters.avro import AvroConverter
from recap.types import IntType, MapType, ProxyType, RecapTypeRegistry
r = RecapTypeRegistry()
r.register_alias(IntType(bits=32, alias="com.acme.Key"))
try:
    s = AvroConverter().from_recap(MapType(ProxyType("com.acme.Key", r), IntType(bits=32)))
    raise SystemExit(f"a map with integer keys was written as {s}")
except ValueError:
    pass
""", "a map whose keys are a reference to an integer type", "the map is written as an Avro map (whose keys are strings)")
make("json-optional-inner-default", "C24", [(J, "                    type_dict |= self._convert_field(non_null_types[0])\n", "                    type_dict = self._convert_field(non_null_types[0]) | type_dict\n")], """
from recap.converters.json_schema import JSONSchemaConverter
from recap.types import IntType, NullType, StructType, UnionType
s = JSONSchemaConverter().from_recap(StructType([UnionType([NullType(), IntType(bits=32, doc="inner")], name="f", doc="outer", default=None)]))
assert s["properties"]["f"]["description"] == "inner", s
""", "an optional field that is documented twice", "the documentation of the value is lost")
make("storage-name-space", "C05", [(G, "                unquote_plus(file_path[len(self.root_path) + 1 :])\n", "                unquote_plus(file_path[len(self.root_path) + 1 :].rstrip(\"/+\"))\n")], """
import tempfile
from recap.storage.registry import RegistryStorage
from recap.types import IntType
with tempfile.TemporaryDirectory() as d:
    s = RegistryStorage(d)
    s.put("order ", IntType(bits=32))
    assert s.ls() == ["order "], s.ls()
""", "a type name that ends in a space", "the listing names another type")
make("from-dict-keys-registry", "C02", [(T, 'from_dict(type_dict.pop("keys"), registry),', 'from_dict(type_dict.pop("keys")),')], """
from recap.types import from_dict
t = from_dict({"type": "struct", "fields": [
    {"name": "a", "type": "string", "bytes": 8, "alias": "com.acme.Key"},
    {"name": "m", "type": "map", "keys": "com.acme.Key", "values": "bool"}]})
assert t.fields[1].keys.resolve().bytes_ == 8
""", "map keys that refer to an alias", "the reference cannot be resolved")
make("avro-fixed-scale", "C16", [(A, 'scale=avro_schema.get("scale", 0)', 'scale=avro_schema.get("scale") or (avro_schema["precision"] // 2 if avro_schema["type"] == "fixed" else 0)')], """
from recap.converters.avro import AvroConverter
t = AvroConverter().to_recap('{"type": "record", "name": "R", "fields": [{"name": "d", "type": {"type": "fixed", "name": "F", "size": 8, "logicalType": "decimal", "precision": 10}}]}')
assert t.fields[0].extra_attrs["scale"] == 0, t
""", "a fixed decimal without a scale", "its scale is made up")
make("protobuf-float-bits", "C19", [(P, "case FloatType(bits=int(bits)) if bits <= 32:\n                return Field(field_name", "case FloatType(bits=int(bits)) if bits < 64:\n                return Field(field_name")], """
from recap.converters.protobuf import ProtobufConverter
from recap.types import FloatType, StructType
t = StructType([FloatType(bits=40, name="f")], alias="com.acme.R")
s = ProtobufConverter().from_recap(t)
assert "double" in str(s), s
""", "a float of 33 to 63 bits", "it is written as a float of 32 bits")
