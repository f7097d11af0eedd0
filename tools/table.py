TYPES = "recap/types.py"
ENGINE = ("Obligations are generated on every run from the source of the functions in /repo and discharged by the engine's string "
          "procedure and z3. Trusted: engine/ (evaluator of the Python subset, loop and frame rules), z3. ")


def fill(prop):
    prop("C01", "Writing a type and reading it back gives the same type",
         "Writing any valid type as a description (to_dict, with or without its two shortening options) and reading that description "
         "gives the same type again: the same kind, sizes, members in the same order, aliases, documentation, defaults and extra "
         "attributes. With the alias option a type may come back as a reference to the built-in name that denotes it.",
         "all types of every kind and nesting, with any attributes, and all settings of clean and alias",
         "the tests write a few dozen fixed types; the shortenings interact with defaults, nulls, extra attributes and nesting",
         [TYPES], [("to_dict / clean_dict / alias_dict", "recap/types.py"), ("from_dict", "recap/types.py:from_dict")],
         level_note=ENGINE + "Nested types are handled by the functions' own contracts (induction on the type). "
         "Unions are proved for up to three members (with at most two that are not the bare null); longer ones are searched.")
    prop("C02", "Parsing a type description means exactly what it says, or is rejected",
         "Parsing a type description (a name, a list or a dictionary) yields the type the description denotes: every attribute, "
         "nested type, default, documentation, alias and extra attribute is carried over, missing ones get their documented default, "
         "'optional' means a union with null and a null default, and the caller's description is not modified. "
         "Descriptions that lack a required attribute, use out-of-range sizes or a malformed or already used alias are rejected with an error.",
         "all type descriptions of every kind, with any nesting, any number of members and any scalar attribute values",
         "the tests parse a few dozen fixed dictionaries; combinations of kind, attributes, sugar and nesting are unbounded",
         [TYPES], [("from_dict", "recap/types.py:from_dict"), ("constructors and validate", "recap/types.py")],
         level_note=ENGINE + "Nested descriptions are handled by the function's own contract (induction on the description). "
         "Attribute values other than the documented ones are scalars; reserved constructor keywords are excluded as keys.")
    prop("C03", "Making a type nullable only adds null",
         "Making any type nullable gives a union that admits null and every value the original type admits, keeps the original's "
         "alternatives, name, documentation and default, and leaves the original type unchanged; a type reports itself nullable exactly "
         "when it is null or a union with null among its members. Doing it twice adds nothing.",
         "all types, of any nesting and with any attributes",
         "the tests cover four fixed types; the guarantee is about every type, including unions with defaults",
         [TYPES], [("make_nullable / is_nullable", "recap/types.py")],
         level_note=ENGINE + "Domain: all trees of the twelve type classes with scalar attributes.")
    prop("C04", "References resolve to the type registered under their name",
         "A type registered under an alias is found under exactly that name; malformed names and names already in use (including the "
         "built-in ones) are rejected and change nothing. A reference resolves to a copy of the registered type with the reference's own "
         "attributes overriding, never modifying the registered type, and the built-in names denote their documented types.",
         "all registered types, all names and all overriding attributes",
         "the tests register and resolve a handful of names", [TYPES],
         [("registry", "recap/types.py:RecapTypeRegistry"), ("resolve", "recap/types.py:ProxyType"), ("built-in names", "recap/types.py:BUILTIN_ALIASES")],
         level_note=ENGINE + "Overriding attributes range over name, default, bits and one further attribute.")
    prop("C09", "Database columns map one to one onto struct fields",
         "Reading a table's columns gives a struct with exactly one field per column, in order, named as the column. "
         "A field admits null exactly when the column is nullable, and carries the column's default exactly when the column has one or is nullable.",
         "all column lists of any length and all values of the catalog's attributes",
         "tests use lists of one or a few fixed columns", ["recap/converters/dbapi.py", "recap/converters/mysql.py"],
         [("to_recap", "recap/converters/dbapi.py:DbapiConverter.to_recap")],
         level_note=ENGINE + "The loop over columns is closed by a loop summary (no bound on the number of columns). str.lower/upper are uninterpreted.")
    dims = "all catalog rows: every type name and every length, precision, scale, nullability and default"
    why = "the tests sample one row per type name; boundaries of lengths, precisions and name prefixes are not covered"
    prop("C10", "MySQL columns keep their width, signedness, length and precision",
         "Every MySQL column type maps to the Recap type with the same value range: integer width and sign, float width, "
         "character and binary length and whether it is variable, decimal precision and scale, and timestamp unit; unknown types are rejected.",
         dims, why, ["recap/converters/mysql.py", "recap/converters/dbapi.py"], [("type mapping", "recap/converters/mysql.py:MysqlConverter._parse_type")],
         level_note=ENGINE + "str.lower is uninterpreted; integers in the catalog row are below 2**40.")
    prop("C11", "PostgreSQL columns keep their width, length, precision, arrays and enums",
         "Every PostgreSQL column type maps to the Recap type with the same value range: integer and float width, character and bit "
         "length and whether it is variable, decimal precision and scale, timestamp unit and enum labels; unknown types are rejected. "
         "Array columns become lists of the element type, either nested to the declared dimensions or self-referencing for any dimension.",
         dims + ", array dimensions 0 to 6", why, ["recap/converters/postgresql.py", "recap/converters/dbapi.py"],
         [("type mapping", "recap/converters/postgresql.py:PostgresqlConverter._parse_type")],
         level_note=ENGINE + "Array dimensions are enumerated 0..6 (PostgreSQL's MAXDIM); integers in the catalog row are below 2**40.")
    prop("C12", "Snowflake columns keep their length, precision, scale and time unit",
         "Every Snowflake column type maps to the Recap type with the same value range: character and binary length (with Snowflake's "
         "defaults), decimal precision and scale (38 and 0 when absent), and the time unit given by the declared precision; unknown types are rejected.",
         dims, why, ["recap/converters/snowflake.py", "recap/converters/dbapi.py"], [("type mapping", "recap/converters/snowflake.py:SnowflakeConverter._parse_type")],
         level_note=ENGINE + "str.lower is uninterpreted; the parenthesised parameter is read by a regular expression translated to z3.")
    prop("C13", "SQLite columns follow the type affinity rules",
         "Every declared SQLite type, whatever its spelling, maps to the Recap type of its affinity: integer, text, blob, real "
         "(by precision) or, for numeric affinity, a union of everything SQLite may store; declared lengths are kept.",
         "all declared type strings, lengths, precisions, nullability and defaults", why,
         ["recap/converters/sqlite.py", "recap/converters/dbapi.py"], [("affinity", "recap/converters/sqlite.py:SQLiteConverter")],
         level_note=ENGINE + "str.upper is uninterpreted.")

    prop("C14", "BigQuery schemas keep every field, mode, size and description",
         "Converting a BigQuery schema gives a struct with one field per schema field, in order and at every nesting level: the type with "
         "the documented width, decimal precision and scale (defaulting to the service's own), repeated fields as lists, nullable fields as "
         "unions with null, required fields unchanged, and each field's name, description and default carried over. Unknown types are rejected.",
         "all schemas: any number and nesting of fields, any type name, mode, length, precision, scale, description and default",
         "the tests convert single fields with fixed types; combinations of mode, nesting and metadata are unbounded",
         ["recap/converters/bigquery.py"], [("to_recap", "recap/converters/bigquery.py:BigQueryConverter.to_recap")],
         level_note=ENGINE + "Nested records use the function's own contract (induction on the schema); the field loop is closed by a loop summary.")
    prop("C15", "Hive table columns keep their types, names and comments",
         "Converting a Hive table gives a struct named after the table with one field per column, in order: every primitive, character, "
         "decimal, list, map, struct and union type maps, at every nesting level, to a nullable Recap type of the same value range, with "
         "column name and comment carried over. Unions admit null and each alternative once, and the alternatives keep their attributes.",
         "all tables: any number of columns and any nesting of Hive types, lengths, precisions and comments",
         "the tests convert a few fixed tables", ["recap/converters/hive_metastore.py"],
         [("to_recap", "recap/converters/hive_metastore.py:HiveMetastoreConverter.to_recap")],
         level_note=ENGINE + "Nested types use the function's own contract, whose shape and invariance under flattening are proved as lemmas. "
         "Removal of duplicates inside Hive unions is bounded (two members), not proved.")
    AV = "recap/converters/avro.py"
    prop("C16", "Reading an Avro schema keeps its types, names, defaults and references",
         "Converting an Avro schema gives the Recap type it denotes at every nesting level: primitive widths, fixed sizes, logical types with "
         "their precision, scale and unit, record fields in order with name, documentation and default, enum symbols, arrays, maps and unions. "
         "Named types are known under their qualified name (own namespace, else the enclosing one) and a reference by simple or qualified name "
         "denotes that type; documents that are not schemas are rejected.",
         "all Avro schemas: any nesting, any number of fields, branches and symbols, any attribute values",
         "the tests convert a few dozen fixed schemas; namespace inheritance and nesting combine without bound",
         [AV], [("to_recap", AV + ":AvroConverter.to_recap"), ("_parse", AV + ":AvroConverter._parse")],
         level_note=ENGINE + "Nested schemas use the parser's own contract (induction on the schema, keyed by the namespace they are parsed in); "
         "json.loads(json.dumps(x)) is assumed to copy x.")
    prop("C17", "Writing an Avro schema never narrows a type and keeps the document structure",
         "Converting a Recap type to Avro yields a schema that admits every value of the type: integers and floats of sufficient width (wider "
         "ones as decimals), bounded strings and bytes, records with every field in order with its name, documentation and default, maps with "
         "string keys, unions with every alternative, references by their qualified name; types that Avro cannot express are rejected.",
         "all Recap types of any nesting and any attribute values",
         "the tests convert a few dozen fixed types", [AV], [("from_recap", AV + ":AvroConverter.from_recap")],
         level_note=ENGINE + "Nested types use the function's own contract. Integers wider than 64 bits are enumerated up to a stated bound, "
         "not proved.")
    JS = "recap/converters/json_schema.py"
    prop("C20", "Reading a JSON Schema keeps its structure, formats, defaults and optionality",
         "Converting a JSON Schema gives the Recap type it denotes at every nesting level: objects become structs with one field per property, in "
         "order and named after it; a property not listed as required is made nullable and, unless it declares a default, gets a null default, "
         "while a required one is left as declared; arrays become lists, "
         "type lists become unions, formats become the documented logical types, and description and default are carried over. "
         "Unknown types are rejected.",
         "all JSON Schemas without references: any nesting, number of properties, required lists, formats and defaults",
         "the tests convert a few dozen fixed schemas", [JS], [("to_recap", JS + ":JSONSchemaConverter.to_recap"), ("_parse", JS + ":JSONSchemaConverter._parse")],
         level_note=ENGINE + "Nested schemas use the parser's own contract (induction on the schema). Schemas with $id, $ref or $dynamicRef are out of the domain.")
    prop("C23", "Commands and gateway give what is asked for, in the format asked for",
         "The commands, the command line and the HTTP gateway give the schema of the requested URL in exactly the requested format (Recap's own by default; "
         "over HTTP by content type, others are refused with 415), and a URL's children unchanged and in order, even when there are none. Without a URL they list "
         "the configured URLs without user names and passwords. Through the gateway, only configured URLs are ever connected to; "
         "the command line prints schemas unaltered, whatever their length.",
         "all types, formats, content types, lists of children, and configured and unconfigured URLs",
         "the tests replace the commands by mocks, so the gateway and the commands are never run together",
         ["recap/commands.py", "recap/server/gateway.py", "recap/cli.py"], [("ls and schema", "recap/commands.py"), ("endpoints", "recap/server/gateway.py"), ("commands", "recap/cli.py")],
         level_note=ENGINE + "Converters, parse_url and create_client are known by the contracts of the other properties; natively a stand-in client behind the real "
         "parse_url, create_client, settings, ASGI application and command line answers.")
    prop("C25", "Files, schema registries, Hive and BigQuery are read as what they store",
         "A schema file is read in the format of its suffix (in any case, the last one) and a registry's subject (its value, unless a key or value is named) in its "
         "latest version and registered type; other suffixes and types are rejected. Listing and reading Hive, BigQuery, a registry or a directory asks for exactly "
         "the named database, table, project, dataset or path and gives the answer unchanged. Hive statistics, only when asked for, are noted on the column they are about.",
         "all file names and contents, subjects and schema types, names of databases, tables, projects and datasets, and all column statistics",
         "the tests cover one name per client, with the file's or table's content mocked",
         ["recap/clients/fs.py", "recap/clients/confluent_registry.py", "recap/clients/hive_metastore.py", "recap/clients/bigquery.py"],
         [("FilesystemClient", "recap/clients/fs.py"), ("ConfluentRegistryClient", "recap/clients/confluent_registry.py"), ("_load_stats", "recap/clients/hive_metastore.py"),
          ("BigQueryClient", "recap/clients/bigquery.py")],
         level_note=ENGINE + "The converters are known by their contracts. Hive statistics are proved for tables of two columns with statistics of every kind, and searched for more; "
         "directory listings are searched on real and in-memory file systems.")
    prop("C24", "Writing a JSON Schema keeps fields, requiredness, defaults and definitions",
         "Converting a Recap type to JSON Schema yields a schema with the corresponding type at every nesting level: a struct becomes an object "
         "with one property per field, and lists as required exactly the fields that are not optional; optional fields become their inner type, "
         "other unions a oneOf with every alternative; defaults and documentation are carried over; an aliased type is defined once under its "
         "alias and referred to from where it is used; fields without a name are rejected.",
         "all Recap types of any nesting and any attribute values",
         "the tests convert a few dozen fixed types", [JS, TYPES],
         [("from_recap", JS + ":JSONSchemaConverter.from_recap"), ("is_optional", "recap/types.py:UnionType.is_optional")],
         level_note=ENGINE + "Nested types use the function's own contract. Proved for types whose nested types have no aliases; nested "
         "definitions are searched with a bound, not proved.")
    ST = "recap/storage/registry.py"
    prop("C05", "The registry storage keeps every version of every name, and nothing else",
         "A stored type is returned unchanged under exactly the name and version it was stored under, for any non-empty name (slashes, dots and other "
         "special characters included) and any history of operations, also through a new connection. Storing without a version takes one more "
         "than the highest existing version (1 for a new name) and never replaces one. Versions are listed in ascending order, the latest is the "
         "highest, names are listed sorted, unknown names and versions give None, and no operation touches another name, another version "
         "or anything outside the storage's root.",
         "all store contents (any number of names and versions), all names, versions and types, all operations and histories",
         "the tests use a couple of names and consecutive versions", [ST], [("RegistryStorage", ST + ":RegistryStorage")], over=("inputs", "histories"),
         level_note=ENGINE + "Each operation is proved to refine the abstract store from every state; histories follow by induction and are also "
         "run with a bound on fsspec's memory file system. The file system is modelled as a map from paths to contents; unquote_plus inverts quote_plus.")
    SV = "recap/server/registry.py"
    prop("C06", "The HTTP registry never overwrites a version and answers precisely",
         "Whatever other requests do while a request's payload is on its way, PUT of a version writes it only if that version does not exist at the time of "
         "writing (409 otherwise), and POST writes the version after the highest existing one at that time; no existing version is ever replaced. "
         "Reads return the stored type and version, or the versions in ascending order, or the names, and 404 for unknown names or versions. "
         "A payload with another content type gives 415, one that does not describe a type gives 400, and in both cases nothing is written.",
         "all store contents, names, versions, payloads and content types, and all interleavings of requests at their await points",
         "the tests send a few requests one after the other; interleavings are not sampled at all", [SV, ST],
         [("routes", SV)], over=("inputs", "schedules"),
         level_note=ENGINE + "Rely/guarantee: at every await the store may have gained any versions; RegistryStorage is known by its contract (C05). "
         "FastAPI's routing and serialisation are trusted; the bounded search drives the real application.")
    SE = "recap/settings.py"
    prop("C07", "Listed URLs never reveal user names or passwords",
         "The list of root URLs contains every configured URL, in order, without its user information and otherwise the same URL: scheme, host, "
         "port, path (up to trailing slashes), query and fragment are kept exactly, also for hosts in brackets and for URLs without a host, which "
         "keep their double slash.",
         "all lists of configured URLs: any scheme, user information, host, port, path, query and fragment",
         "the tests list a dozen fixed URLs", [SE], [("safe_urls", SE + ":RecapSettings.safe_urls")],
         level_note=ENGINE + "The loop over URLs is closed by a loop summary. urllib's splitting and joining are modelled part by part.")
    prop("C08", "Configured credentials go only to URLs that their configuration covers",
         "A requested URL gets the user information of the first configured URL with the same scheme, host and port whose path, taken by whole "
         "segments, contains the requested path; a path that climbs with '..' is covered by none. The result keeps the requested path, adds the "
         "configured query parameters (the requested ones win) and the configured fragment if none is requested. A URL that is not covered is an "
         "error, or in non-strict mode is returned unchanged, without any credentials.",
         "all lists of configured URLs, all requested URLs, both modes",
         "the tests merge a dozen fixed pairs; near misses of host, port and path prefix are unbounded", [SE],
         [("unsafe_url", SE + ":RecapSettings.unsafe_url")],
         level_note=ENGINE + "The search through the configured URLs is closed by a loop summary. pathlib's is_relative_to, parts and as_posix and "
         "urllib's query functions are assumed contracts (uninterpreted), run for real in the search.")
    PB = "recap/converters/protobuf.py"
    prop("C18", "Reading a Protobuf file keeps its messages, fields, types and references",
         "Converting a Protobuf file gives the struct of its first message with every field, map and oneof in order and by name: built-in types keep "
         "width and sign, repeated fields are lists, fields that are not required admit null and default to it, and a oneof is a union of null and all its "
         "alternatives. A reference by simple name, package-qualified name or with a leading dot denotes the message or enum declared under it in the file "
         "(enums with their symbols in order), also in files converted one after the other. Files without a message and references to unknown names are rejected.",
         "all files: messages with any number of fields, maps and oneofs of any type, any package",
         "the tests convert a few dozen fixed files; kinds, cardinalities and references combine without bound", [PB],
         [("to_recap", PB + ":ProtobufConverter.to_recap"), ("names", PB + ":ProtobufConverter._protobuf_type_to_recap_type")],
         level_note=ENGINE + "Proved for a file of one message (and one enum); files with several declarations and references between them are searched "
         "within a stated bound. The parser of .proto text is trusted. Nested declarations have names of their own in the package (see DESIGN.md).")
    prop("C19", "Writing a Protobuf file keeps every field, declaration and number",
         "A struct becomes one message per struct and one enum per enum, each declared once under its full name, in the root's package or inside the "
         "message it belongs to. Every field keeps its place and name (the name of the innermost named type, else the field's), fields and oneof members "
         "together are numbered 1, 2, 3, ... in order, integers and floats get the type of their width and sign, lists (nullable ones too) are repeated, "
         "nullable fields optional, maps keep key and value, and other unions become oneofs with all their alternatives. Whatever Protobuf cannot express "
         "is rejected, never silently changed.",
         "all structs with any number of fields of every kind and attribute, any alias",
         "the tests convert a few fixed structs; kinds, nesting and numbering combine without bound", [PB],
         [("from_recap", PB + ":ProtobufConverter.from_recap"), ("fields and declarations", PB + ":ProtobufConverter")],
         level_note=ENGINE + "Proved per kind of field for a message with one field, and for any number of fields of a few kinds; an enum of any number of "
         "symbols. Whole documents (nested messages, packages, references) are searched within a stated bound, writing and parsing the real .proto text. "
         "Aliases are distinct and references name declarations of the document.")
    CL = ["recap/clients/dbapi.py", "recap/clients/postgresql.py", "recap/clients/mysql.py", "recap/clients/snowflake.py", "recap/clients/sqlite.py"]
    prop("C21", "Database clients read and list exactly what is asked for",
         "Reading a table converts the columns of exactly the named table, schema and catalog, in ordinal order, each value under its column's name, whatever "
         "the names are; PostgreSQL adds array dimensions and enum symbols in declared order, SQLite takes nullability, default, precision, scale and length "
         "from the table's declaration and rejects tables that do not exist. Listing gives exactly the tables of the named schema, the schemas of the named "
         "catalog, or the catalogs (sorted). What one table contains never affects how another is read.",
         "all catalogs with any number of tables and columns, all names (quotes, wildcards, spaces, case)",
         "the unit tests mock the database or read one fixed table; decoys with similar names and hostile names are unbounded", CL,
         [("schema and ls", CL[0] + ":DbapiClient"), ("PostgreSQL schema", CL[1] + ":PostgresqlClient.schema"), ("SQLite", CL[4] + ":SQLiteClient")],
         level_note=ENGINE + "The database answers the catalog query for a table's columns by contract (its text is judged by its conditions and parameters); the "
         "bounded search runs the same SQL in SQLite with information_schema and pg_catalog tables. PostgreSQL's joins are checked by execution only.")
    CI = "recap/clients/__init__.py"
    prop("C22", "A requested URL reaches the right system with the right arguments",
         "Every supported scheme selects its own client; URLs of unsupported schemes are rejected. The client connects to the host, port, user, password "
         "(percent-decoded) and database that the URL names, with the options among its query parameters, which never override the other parts of the URL. "
         "It is asked for exactly the path segments of the URL as catalog, schema, table, subject or file, in order and unchanged; URLs with too few "
         "segments to name what is asked for are rejected, never answered for something else.",
         "all URLs of all schemes with any path, user information and query parameters",
         "the tests parse some fifty fixed URLs with mocked parsers, and never follow one from its text to the connection", [CI, CL[0], CL[1]],
         [("parse_url and create_client", CI), ("parse", CL[0] + ":DbapiClient.parse"), ("create", CL[1] + ":PostgresqlClient.create")],
         level_note=ENGINE + "Proved per client: which arguments a path of up to five segments becomes, and what PostgreSQL, MySQL and Snowflake are connected "
         "with, whatever the parts. From the text of a URL to the connection is searched within a stated bound, with recording stand-ins for the drivers. "
         "Extra segments are ignored where the tests say so (databases).")
