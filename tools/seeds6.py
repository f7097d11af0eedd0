"""Planted bugs: routing of URLs."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools.mkseed import make

DB, PG, MY, CR, HM, FS = ["recap/clients/" + f for f in ("dbapi.py", "postgresql.py", "mysql.py", "confluent_registry.py", "hive_metastore.py", "fs.py")]
SN = "recap/clients/snowflake.py"
make("pg-sslmode-dropped", "C22", [(PG, '''    "sslmode",
''', "")], '''
from unittest import mock
import psycopg2
from recap.clients import create_client
with mock.patch.object(psycopg2, "connect") as connect:
    with create_client("postgresql://h/db?sslmode=verify-full"):
        assert connect.call_args.kwargs.get("sslmode") == "verify-full", connect.call_args
''', "a PostgreSQL URL with a TLS option", "the option is dropped and the connection is not verified")
make("fs-host-lowered", "C22", [(FS, """            path += split_url.netloc + "/"
""", """            path += (split_url.hostname or "") + "/"
""")], """
from recap.clients import parse_url
assert parse_url("schema", "file://Data/x.avsc", False)[1] == ["/Data/x.avsc/"]
""", "a file URL with an upper case first directory and two slashes", "another directory is read")
make("mysql-options-lowered", "C22", [(MY, """        kwargs = {k: v for k, v in url_args.items() if k in DEFAULT_CONFIGURATION}
""", """        kwargs = {
            k.lower(): str(v).lower() if k == "host" or k == "database" else v
            for k, v in url_args.items()
            if k in DEFAULT_CONFIGURATION
        }
""")], """
from unittest import mock
import mysql.connector
from recap.clients import create_client
with mock.patch.object(mysql.connector, "connect") as connect:
    with create_client("mysql://h/Shop"):
        assert connect.call_args.kwargs.get("database") == "Shop", connect.call_args
""", "a database with capital letters in its name", "another database is connected to")
