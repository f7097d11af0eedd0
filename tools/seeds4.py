from mkseed import make
S = '''
from recap.settings import RecapSettings
def conf(*urls):
    return RecapSettings(urls=list(urls), _env_file=None)
'''
ST, PB = "recap/settings.py", "recap/converters/protobuf.py"
make("safe-url-dedup", "C07", [(ST, '''        for url in self.urls:
            split_url =''', '''        for url in {str(u).partition("?")[0]: u for u in self.urls}.values():
            split_url =''')], S + '''
assert conf("https://h/a?x=1", "https://h/a?x=2").safe_urls == ["https://h/a?x=1", "https://h/a?x=2"]
''', "two configured URLs that differ only in their query", "a configured URL is missing from the list")
make("url-query-precedence", "C08", [(ST, "merged_qs = unsafe_qs | url_qs", "merged_qs = unsafe_qs | url_qs | unsafe_qs")], S + '''
got = conf("postgresql://u:p@h/d?a=1").unsafe_url("postgresql://h/d?a=2")
assert got == "postgresql://u:p@h/d?a=2", got
''', "the same query parameter in the requested and the configured URL", "the requested parameter is ignored")
make("url-missing-port", "C08", [(ST, "and unsafe_url_split.port == url_split.port", "and (unsafe_url_split.port or url_split.port) == url_split.port")], S + '''
try:
    got = conf("postgresql://u:p@h/d").unsafe_url("postgresql://h:9999/d")
except ValueError:
    got = None
assert got is None, got
''', "a configured URL without port and a request for some port", "credentials are lent to another service on the host")
make("url-host-suffix", "C08", [(ST, "and unsafe_url_split.hostname == url_split.hostname", 'and f".{url_split.hostname}".endswith(f".{unsafe_url_split.hostname}")')], S + '''
try:
    got = conf("https://u:p@example.com/d").unsafe_url("https://evil.example.com/d")
except ValueError:
    got = None
assert got is None, got
''', "a request for a subdomain of the configured host", "credentials are lent to another host")
P = '''
from recap.converters.protobuf import ProtobufConverter
from recap.types import *
def conv(s):
    return ProtobufConverter().to_recap('syntax = "proto3";\\n' + s)
'''
make("pb-repeated-null", "C18", [(PB, '''        if field.cardinality == FieldCardinality.REPEATED:
            recap_type = ListType''', '''        if field.cardinality == FieldCardinality.REPEATED and not isinstance(
            recap_type, NullType
        ):
            recap_type = ListType''')], P + '''
t = conv("message M { repeated google.protobuf.NullValue a = 1; }")
assert t.fields[0] == UnionType([NullType(), ListType(NullType())], default=None, name="a"), t.fields[0]
''', "a repeated NullValue field", "the field admits only null instead of lists")
make("pb-enum-aliases", "C18", [(PB, "                symbols.append(element.name)", "                if element.name not in symbols and element.number != 0 or not symbols:\n                    symbols.append(element.name)")], P + '''
t = conv("message M { E e = 1; } enum E { option allow_alias = true; A = 0; B = 0; C = 1; }")
assert t.fields[0].types[1].symbols == ["A", "B", "C"], t.fields[0]
''', "an enum with an alias of its first value", "a symbol of the enum is missing")
make("pb-oneof-repeat", "C18", [(PB, '''                types.append(recap_type)
        return UnionType(types=types, name=oneof.name, default=None)''', '''                if isinstance(recap_type, NullType):
                    continue
                types.append(recap_type)
        return UnionType(types=types, name=oneof.name, default=None)''')], P + '''
t = conv("message M { oneof o { google.protobuf.NullValue a = 1; string b = 2; } }")
assert [x.extra_attrs.get("name") for x in t.fields[0].types] == [None, "a", "b"], t.fields[0]
''', "a oneof with a NullValue alternative", "an alternative of the union is missing")
W = '''
from recap.converters.protobuf import ProtobufConverter
from recap.types import *
from proto_schema_parser import ast
def write(t):
    return ProtobufConverter().from_recap(t).file_elements
'''
make("pb-write-enum-order", "C19", [(PB, "recap_type.symbols, range(len(recap_type.symbols))", "sorted(recap_type.symbols), range(len(recap_type.symbols))")], W + '''
es = write(StructType([EnumType(["NONE", "ALL"], alias="p.E", name="e")], alias="p.M"))
assert [(v.name, v.number) for v in es[1].elements] == [("NONE", 0), ("ALL", 1)], es[1]
''', "an enum whose symbols are not in alphabetical order", "the symbols get other numbers")
make("pb-write-union-declarations", "C19", [(PB, '''                for type_ in types:
                    self._from_recap_gather_types(type_, package_to_types)''', '''                for type_ in types[:2] if NullType() in types else types:
                    self._from_recap_gather_types(type_, package_to_types)''')], W + '''
a, b = StructType([BoolType(name="x")], alias="p.A"), StructType([BoolType(name="x")], alias="p.B")
es = write(StructType([UnionType([NullType(), a, b], name="u")], alias="p.M"))
assert {e.name for e in es[1:]} == {"A", "B", "M"}, es
''', "a nullable union of two messages", "a message that is referred to is not declared")
make("pb-write-deep-nesting", "C19", [(PB, '''                subelements = self._from_recap_construct_elements(
                    f"{package}.{package_type.name}",
                    package_to_types,
                )''', '''                subelements = package_to_types.get(
                    f"{package}.{package_type.name}", []
                )''')], W + '''
c = StructType([BoolType(name="x")], alias="p.A.B.C", name="c")
b = StructType([c], alias="p.A.B", name="b")
es = write(StructType([b], alias="p.A"))
inner = [e for e in es[1].elements if isinstance(e, ast.Message)][0]
assert [e.name for e in inner.elements if isinstance(e, ast.Message)] == ["C"], es
''', "messages nested two levels deep", "the innermost message is missing from the file")
make("pb-write-oneof-number", "C19", [(PB, '''                    oneof_field_num = field_number
''', '''                    oneof_field_num = max(field_number, len(non_null_types) - 1)
''')], W + '''
u = UnionType([BoolType(name="a"), IntType(32, name="b"), IntType(64, name="c")], name="u")
es = write(StructType([u, BoolType(name="d")], alias="p.M"))
ns = [f.number for e in es[1].elements for f in (e.elements if isinstance(e, ast.OneOf) else [e])]
assert sorted(ns) == [1, 2, 3, 4], ns
''', "a union of three types as the first field", "two fields of the message get the same number")
