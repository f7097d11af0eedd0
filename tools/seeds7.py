"""Planted bugs: writing types."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools.mkseed import make

T = "recap/types.py"
make("write-null-attribute", "C01", [(T, """            if k not in param_defaults or param_defaults[k] != v
""", """            if k == "default" or v != param_defaults.get(k)
""")], """
from recap.types import IntType, from_dict, to_dict
t = IntType(7, deprecated=None)
assert from_dict(to_dict(t)) == t, to_dict(t)
""", "an attribute of its own that is null", "the attribute is lost")
make("write-alias-drops-attribute", "C01", [(T, """        if recap_type == alias_type:
            return {"type": alias}
""", """        if recap_type == alias_type:
            return {"type": alias}
        if type(recap_type) is type(alias_type) and (
            {k: v for k, v in vars(recap_type).items() if k not in ("alias", "extra_attrs")}
            == {k: v for k, v in vars(alias_type).items() if k not in ("alias", "extra_attrs")}
        ):
            # Keep the attributes that the alias doesn't have
            return {**{k: v for k, v in recap_type.extra_attrs.items() if k not in alias_type.extra_attrs}, "type": alias}
""")], """
from recap.types import BytesType, from_dict, to_dict
t = BytesType(bytes_=16, variable=False, logical="build.recap.Decimal", precision=10, scale=2)
u = from_dict(to_dict(t))
if hasattr(u, "resolve"):
    u = u.resolve()
assert u.extra_attrs == {"precision": 10, "scale": 2}, u
""", "a 16-byte decimal with a precision and scale of its own", "the precision and scale become those of decimal128")
make("write-map-keys-unaliased", "C01", [(T, """        if type_name == "map":
            type_dict["keys"] = clean_dict(type_dict["keys"])
""", """        if type_name == "map":
            type_dict["keys"] = clean_dict(type_dict["keys"])
            if type_dict["keys"] == type_dict["values"]:
                # Written once
                type_dict["keys"] = "string"
""")], """
from recap.types import IntType, MapType, from_dict, to_dict
t = MapType(IntType(7), IntType(7))
assert from_dict(to_dict(t)) == t, to_dict(t)
""", "a map with equal key and value types", "the key type becomes string")
