"""Planted bugs: commands, gateway and clients without SQL."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools.mkseed import make

C, G, FS, CR, HM, BQ = "recap/commands.py", "recap/server/gateway.py", "recap/clients/fs.py", "recap/clients/confluent_registry.py", "recap/clients/hive_metastore.py", "recap/clients/bigquery.py"
make("ls-root-credentials", "C23", [(C, """        return settings.safe_urls
""", """        return [str(u).rstrip("/") for u in settings.urls]
""")], """
from recap import commands
from recap.settings import RecapSettings
commands.settings.urls = RecapSettings(urls=["mysql://me:secret@h:3306"]).urls
assert "secret" not in str(commands.ls()), commands.ls()
""", "a configured URL with a password", "listing shows the password")
make("gateway-ls-unconfigured", "C23", [(G, """    children = commands.ls(url)
""", """    children = commands.ls(url, strict=not url)
""")], """
import os, tempfile
from fastapi.testclient import TestClient
from recap.server.app import app
with tempfile.TemporaryDirectory() as d:
    open(d + "/private.avsc", "w").close()
    r = TestClient(app, raise_server_exceptions=False).get("/gateway/ls/file:///" + d)
    assert "private" not in r.text, r.text
""", "a URL that is not configured", "the gateway lists what was never configured")
make("gateway-ls-empty", "C23", [(G, """    if children is not None:
        return children
""", """    if children:
        return children
""")], """
from unittest.mock import patch
from fastapi.testclient import TestClient
from recap.server.app import app
with patch("recap.commands.ls", return_value=[]):
    r = TestClient(app).get("/gateway/ls/mysql://h/db")
assert r.status_code == 200 and r.json() == [], (r.status_code, r.text)
""", "a URL without children", "it is reported as not found")
make("hive-zero-decimal", "C25", [(HM, """                    if col_stats.stats.highValue is not None:
                        stats["high"] = col_stats.stats.highValue
""", """                    if col_stats.stats.highValue:
                        stats["high"] = col_stats.stats.highValue
""")], """
from unittest.mock import MagicMock
from pymetastore.htypes import HPrimitiveType, PrimitiveCategory
from pymetastore.metastore import HColumn, HStorage, HTable, StorageFormat
from pymetastore.stats import DecimalTypeStats
from recap.clients.hive_metastore import HiveMetastoreClient
hms = MagicMock()
hms.get_table.return_value = HTable("d", "t", "MANAGED_TABLE", [HColumn("c", HPrimitiveType(PrimitiveCategory.INT))], [], HStorage(StorageFormat("", "", "")), {})
hms.get_table_stats.return_value = [MagicMock(columnName="c", stats=DecimalTypeStats(cardinality=3, numNulls=0, lowValue=-5, highValue=0))]
t = HiveMetastoreClient(hms).schema("d", "t", True)
assert t.fields[0].extra_attrs.get("high") == 0, t
""", "a decimal column whose highest value is zero", "the highest value is lost")
make("confluent-key-inside", "C25", [(CR, """        has_kv = subject.endswith("-key") or subject.endswith("-value")
""", """        has_kv = "-key" in subject or "-value" in subject
""")], """
from unittest.mock import MagicMock
from recap.clients.confluent_registry import ConfluentRegistryClient
r = MagicMock()
r.get_latest_version.return_value.schema.schema_type = "AVRO"
r.get_latest_version.return_value.schema.schema_str = '{"type": "record", "name": "R", "fields": []}'
ConfluentRegistryClient(r).schema("api-key-events")
assert r.get_latest_version.call_args.args == ("api-key-events-value",), r.get_latest_version.call_args
""", "a topic with -key or -value inside its name", "another subject is read")
make("fs-suffix-first-dot", "C25", [(FS, """        suffix = Path(path).suffix.lower().strip(".")
""", """        suffix = Path(path).name.lower().partition(".")[2].strip(".")
""")], """
import os, tempfile
from recap.clients.fs import FilesystemClient
with tempfile.TemporaryDirectory() as d:
    with open(d + "/order.v2.avsc", "w") as f:
        f.write('{"type": "record", "name": "R", "fields": []}')
    FilesystemClient("file").schema(d + "/order.v2.avsc")
""", "a file name with several dots", "the file is rejected")
make("bigquery-tables-project", "C25", [(BQ, """        dataset_ref = self.client.dataset(dataset, project)
        return""", """        dataset_ref = self.client.dataset(dataset)
        return""")], """
from unittest.mock import MagicMock
from google.cloud import bigquery
from recap.clients.bigquery import BigQueryClient
c = MagicMock()
c.dataset.side_effect = lambda d, p=None: bigquery.DatasetReference(p or "default", d)
c.list_tables.return_value = []
BigQueryClient(c).ls("other", "ds")
assert c.list_tables.call_args.args[0].project == "other", c.list_tables.call_args
""", "a project other than the client's default", "tables of another project are listed")
