"""Property id -> module that lists its tasks."""
import importlib

MODULES = {
    "C01": "contracts.p_types:C01",
    "C02": "contracts.p_types:C02",
    "C03": "contracts.p_types:C03",
    "C04": "contracts.p_types:C04",
    "C05": "contracts.p_store:C05",
    "C06": "contracts.p_store:C06",
    "C16": "contracts.p_avro:C16",
    "C17": "contracts.p_avro:C17",
    "C20": "contracts.p_json:C20",
    "C24": "contracts.p_json:C24",
    "C14": "contracts.p_converters:C14",
    "C15": "contracts.p_converters:C15",
    "C07": "contracts.p_url:C07",
    "C08": "contracts.p_url:C08",
    "C18": "contracts.p_pb:C18",
    "C19": "contracts.p_pb:C19",
    "C21": "contracts.p_client:C21",
    "C22": "contracts.p_route:C22",
    "C23": "contracts.p_give:C23",
    "C25": "contracts.p_give:C25",
    "C09": "contracts.p_dbapi:C09",
    "C10": "contracts.p_dbapi:C10",
    "C11": "contracts.p_dbapi:C11",
    "C12": "contracts.p_dbapi:C12",
    "C13": "contracts.p_dbapi:C13",
}


def load(pid):
    mod, name = MODULES[pid].split(":")
    return getattr(importlib.import_module(mod), name)
