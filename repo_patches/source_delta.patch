From 340fea9b1032221b035760f0d65035cf0c84dbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:33 +0000
Subject: [PATCH 01/45] fix: make_nullable no longer modifies the type it is
 called on

---
 recap/types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 7773800..207c135 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -44,7 +44,8 @@ class RecapType:
         # Move doc to the union type
         doc = attrs.pop("doc", None)
         # Unnest extra_attrs for copy or we end up with extra_attrs["extra_attrs"]
-        extra_attrs = attrs.pop("extra_attrs", {})
+        # (and copy it so that the original type is left unmodified)
+        extra_attrs = dict(attrs.pop("extra_attrs", {}))
         union_attrs = {
             "default": extra_attrs.pop("default", None),
             "doc": doc,
@@ -64,7 +65,7 @@ class RecapType:
         # type_copy.types` because equality checks extra_attrs, which can vary.
         # Instead, just look for any NullType instance.
         if not list(filter(lambda t: isinstance(t, NullType), type_copy.types)):
-            type_copy.types.insert(0, NullType())
+            type_copy.types = [NullType(), *type_copy.types]
         return type_copy
 
     def is_nullable(self) -> bool:
-- 
2.43.0


From 39d240cf0afd503956ab04cf6ea24ecd3a8b0bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:13 +0000
Subject: [PATCH 02/45] fix: from_dict no longer drops list members of a union
 given as a list type

---
 recap/types.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index 207c135..54d40f5 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -410,12 +410,7 @@ def from_dict(
 
     if isinstance(type_name, list):
         # If type is a list, handle as a union
-        union_types = []
-        for t in type_name:
-            if isinstance(t, dict):
-                union_types.append(from_dict(t, registry))
-            elif isinstance(t, str):
-                union_types.append(from_dict({"type": t}, registry))
+        union_types = [from_dict(t, registry) for t in type_name]
         recap_type = UnionType(union_types, **type_dict)
     elif isinstance(type_name, str):
         match type_name:
-- 
2.43.0


From 6b0c5752ca7c110c043644e2f23839d0c17c30c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:37 +0000
Subject: [PATCH 03/45] fix: keep attributes of list and map members when
 flattening Hive unions

---
 recap/converters/hive_metastore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/hive_metastore.py b/recap/converters/hive_metastore.py
index 996eb7f..ca65a69 100644
--- a/recap/converters/hive_metastore.py
+++ b/recap/converters/hive_metastore.py
@@ -216,13 +216,13 @@ class HiveMetastoreConverter:
         elif isinstance(recap_type, ListType):
             return ListType(
                 values=self._flatten_unions(recap_type.values),
-                extra_attrs=extra_attrs,
+                **extra_attrs,
             )
         elif isinstance(recap_type, MapType):
             return MapType(
                 keys=self._flatten_unions(recap_type.keys),
                 values=self._flatten_unions(recap_type.values),
-                extra_attrs=extra_attrs,
+                **extra_attrs,
             )
         else:
             # No nested union type to flatten
-- 
2.43.0


From c046bd8c90d4b19f8ba72aba56d2c2f4a2bf3a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:59 +0000
Subject: [PATCH 04/45] fix: write the resolved type of built-in aliases to
 Avro schemas

---
 recap/converters/avro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 3e0d0b1..914ffad 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -138,7 +138,7 @@ class AvroConverter:
                     if isinstance(alias_type, dict):
                         avro_schema |= alias_type
                     else:
-                        avro_schema["type"] = alias
+                        avro_schema["type"] = alias_type
                 else:
                     # Fully qualified (non-builtin) aliases should just be referenced.
                     avro_schema["type"] = alias
-- 
2.43.0


From ded8b3622f3cd895dc358f0bcab84503b32eec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:05 +0000
Subject: [PATCH 05/45] fix: don't register Avro field names as type aliases

---
 recap/converters/avro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 914ffad..35a2efa 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -271,7 +271,9 @@ class AvroConverter:
             if not namespace:
                 namespace = "_root"
             extra_attrs["name"] = name
-            alias = f"{namespace}.{name}"
+            # Only records, enums, and fixed are named types. A field's name isn't.
+            if avro_schema.get("type") in ("record", "enum", "fixed"):
+                alias = f"{namespace}.{name}"
         if "default" in avro_schema:
             extra_attrs["default"] = avro_schema["default"]
         if logical_type := avro_schema.get("logicalType"):
-- 
2.43.0


From e51f023d90e11c7486fb0661c628a33c12a8a1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:10 +0000
Subject: [PATCH 06/45] fix: accept unions as Avro array items and map values

---
 recap/converters/avro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 35a2efa..85be467 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -258,7 +258,7 @@ class AvroConverter:
         alias: str | None = None
         extra_attrs = {}
 
-        if isinstance(avro_schema, str):
+        if isinstance(avro_schema, (str, list)):
             avro_schema = {"type": avro_schema}
         if "doc" in avro_schema:
             extra_attrs["doc"] = avro_schema["doc"]
-- 
2.43.0


From 7b8d9122c6bf309cf2669b200516605cc125fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:16 +0000
Subject: [PATCH 07/45] fix: keep the doc of Avro fields that define their type
 inline

---
 recap/converters/avro.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index 85be467..efdad60 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -347,6 +347,10 @@ class AvroConverter:
             case {"type": dict(type_)}:
                 return_type = self._parse(type_, namespace)
 
+                # Doc is an attribute of its own, not an extra attribute.
+                if "doc" in extra_attrs:
+                    return_type.doc = extra_attrs.pop("doc")
+
                 # Don't pass extra_attrs into _parse since we don't want field
                 # "name" to overwrite "alias" for record/enum/fixed.
                 return_type.extra_attrs |= extra_attrs
-- 
2.43.0


From 07930153abccd608356d2d97335628b07d33c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:22 +0000
Subject: [PATCH 08/45] fix: register named Avro fixed types that have a
 logical type

---
 recap/converters/avro.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/recap/converters/avro.py b/recap/converters/avro.py
index efdad60..7850bb6 100644
--- a/recap/converters/avro.py
+++ b/recap/converters/avro.py
@@ -277,7 +277,11 @@ class AvroConverter:
         if "default" in avro_schema:
             extra_attrs["default"] = avro_schema["default"]
         if logical_type := avro_schema.get("logicalType"):
-            return self._parse_logical(logical_type, avro_schema, extra_attrs)
+            return_type = self._parse_logical(logical_type, avro_schema, extra_attrs)
+            if alias is not None:
+                return_type.alias = alias
+                self.registry.register_alias(return_type)
+            return return_type
 
         match avro_schema:
             case {"type": "null"}:
-- 
2.43.0


From 6387ff1933ddf59f4ddbb9651694f25780ae9307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:58 +0000
Subject: [PATCH 09/45] fix: keep every registry type name inside the storage
 root

---
 recap/storage/registry.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 2904d8d..8623b1a 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -25,7 +25,7 @@ class RegistryStorage:
         name: str,
         version: int | None = None,
     ) -> tuple[RecapType, int] | None:
-        quoted_name = quote_plus(name)
+        quoted_name = self._quote(name)
 
         if version is None:
             versions = self.versions(name)
@@ -47,7 +47,7 @@ class RegistryStorage:
         type_: RecapType,
         version: int | None = None,
     ) -> int:
-        quoted_name = quote_plus(name)
+        quoted_name = self._quote(name)
 
         if version is None:
             version = (self.latest(name) or 0) + 1
@@ -63,7 +63,7 @@ class RegistryStorage:
         return version
 
     def versions(self, name: str) -> list[int] | None:
-        quoted_name = quote_plus(name)
+        quoted_name = self._quote(name)
         path_without_version = f"{self.root_path}/{quoted_name}"
 
         try:
@@ -81,3 +81,19 @@ class RegistryStorage:
         if not versions:
             return None
         return max(versions)
+
+    @staticmethod
+    def _quote(name: str) -> str:
+        """
+        Quote a type name, so that it's a single path segment below the root path.
+
+        :param name: The type name to quote.
+        :return: The quoted type name.
+        """
+
+        if not name:
+            raise ValueError("Type name must not be empty")
+        if name in (".", ".."):
+            # quote_plus doesn't quote dots, but these segments aren't names.
+            return name.replace(".", "%2E")
+        return quote_plus(name)
-- 
2.43.0


From 99eb811e063c4e64dc16a567554a739a1e327eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:58 +0000
Subject: [PATCH 10/45] fix: check that a version is free after the last await
 before writing it

---
 recap/server/registry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index 365bb63..087a659 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -76,14 +76,16 @@ async def put(
     request: Request,
     storage: RegistryStorage = Depends(get_storage),
 ):
+    type_ = await _request_to_type(request)
+
+    # Check after the last await. Otherwise, another request could create the
+    # version between the check and the write.
     if storage.get(name, version):
         raise HTTPException(
             status_code=409,
             detail=f"Type {name} version {version} already exists",
         )
 
-    type_ = await _request_to_type(request)
-
     return storage.put(name, type_, version)
 
 
-- 
2.43.0


From 177abe13b41cec67d3bb201cbd67961535ebf093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:58 +0000
Subject: [PATCH 11/45] fix: answer 400 to a registry payload that is not UTF-8

---
 recap/server/registry.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/recap/server/registry.py b/recap/server/registry.py
index 087a659..25f6c7d 100644
--- a/recap/server/registry.py
+++ b/recap/server/registry.py
@@ -99,7 +99,14 @@ async def _request_to_type(request: Request) -> RecapType:
         )
 
     type_bytes = await request.body()
-    type_str = type_bytes.decode("utf-8")
+
+    try:
+        type_str = type_bytes.decode("utf-8")
+    except UnicodeDecodeError as e:
+        raise HTTPException(
+            status_code=400,
+            detail=f"Failed to decode type: {e}",
+        )
 
     try:
         type_json = json.loads(type_str)
-- 
2.43.0


From e640fe803ef3954d2eda08a74fea66a2aaf45ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:25 +0000
Subject: [PATCH 12/45] fix: list the registry storage without details on every
 file system

---
 recap/storage/registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/storage/registry.py b/recap/storage/registry.py
index 8623b1a..cf55b26 100644
--- a/recap/storage/registry.py
+++ b/recap/storage/registry.py
@@ -16,7 +16,7 @@ class RegistryStorage:
         return sorted(
             [
                 unquote_plus(file_path[len(self.root_path) + 1 :])
-                for file_path in self.fs.ls(self.root_path)
+                for file_path in self.fs.ls(self.root_path, detail=False)
             ]
         )
 
@@ -70,7 +70,7 @@ class RegistryStorage:
             return sorted(
                 [
                     int(Path(file_path).stem)
-                    for file_path in self.fs.ls(path_without_version)
+                    for file_path in self.fs.ls(path_without_version, detail=False)
                 ]
             )
         except FileNotFoundError:
-- 
2.43.0


From 59f3b25964df7eb2e406f5cf115406151d939803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:44 +0000
Subject: [PATCH 13/45] fix: list bracketed hosts and file URLs unchanged

---
 recap/settings.py | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index 0ec5c5c..626d9e0 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -45,30 +45,17 @@ class RecapSettings(BaseSettings):
 
         for url in self.urls:
             split_url = urlsplit(str(url))
-            netloc = split_url.netloc
-
-            if split_url.username or split_url.password:
-                if split_url.hostname is not None:
-                    netloc = split_url.hostname
-
-                if split_url.port is not None:
-                    netloc += f":{split_url.port}"
-
-            sanitized_url = urlunsplit(
-                (
-                    split_url.scheme,
-                    netloc,
-                    split_url.path.rstrip("/"),
-                    split_url.query,
-                    split_url.fragment,
-                )
-            )
 
-            # urlunsplit does not double slashes if netloc is empty. But most
-            # URLs with empty netloc should have a double slash (e.g.
-            # bigquery:// or sqlite:///some/file.db).
-            if not netloc:
-                sanitized_url = sanitized_url.replace(":", "://", 1)
+            # The user info is everything up to the last "@".
+            netloc = split_url.netloc.rpartition("@")[2]
+            path = split_url.path.rstrip("/")
+
+            # Don't let urlunsplit build the whole URL: when netloc is empty, it
+            # drops the double slash of most schemes, but not all (e.g.
+            # bigquery:// or sqlite:///some/file.db, but file:///some/dir).
+            sanitized_url = f"{split_url.scheme}://{netloc}{path}" + urlunsplit(
+                ("", "", "", split_url.query, split_url.fragment)
+            )
 
             safe_urls_list.append(sanitized_url)
 
-- 
2.43.0


From 4c475cab4a6b5a6355f12e779f673a615287427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:44 +0000
Subject: [PATCH 14/45] fix: lend credentials by whole path segments, not by
 path prefix

---
 recap/settings.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/recap/settings.py b/recap/settings.py
index 626d9e0..00962ff 100644
--- a/recap/settings.py
+++ b/recap/settings.py
@@ -76,6 +76,8 @@ class RecapSettings(BaseSettings):
 
         url_split = urlsplit(url)
         url_path = Path(url_split.path or "/").as_posix()
+        # Compare paths by whole segments, below a single root slash.
+        url_dir = Path("/" + url_split.path.lstrip("/"))
 
         for unsafe_url in self.urls:
             unsafe_url_split = urlsplit(unsafe_url.unicode_string())
@@ -84,7 +86,8 @@ class RecapSettings(BaseSettings):
                 unsafe_url_split.scheme == url_split.scheme
                 and unsafe_url_split.hostname == url_split.hostname
                 and unsafe_url_split.port == url_split.port
-                and url_path.startswith(Path(unsafe_url_split.path).as_posix())
+                and ".." not in url_dir.parts
+                and url_dir.is_relative_to("/" + unsafe_url_split.path.lstrip("/"))
             ):
                 netloc = unsafe_url_split.netloc
 
@@ -96,22 +99,13 @@ class RecapSettings(BaseSettings):
                 merged_qs = unsafe_qs | url_qs
                 query = urlencode(merged_qs, doseq=True)
 
-                merged_url = urlunsplit(
-                    (
-                        url_split.scheme,
-                        netloc,
-                        url_path.rstrip("/"),
-                        query,
-                        url_split.fragment or unsafe_url_split.fragment,
-                    )
+                # See safe_urls for why this isn't left to urlunsplit.
+                fragment = url_split.fragment or unsafe_url_split.fragment
+                merged_url = (
+                    f"{url_split.scheme}://{netloc}{url_path.rstrip('/')}"
+                    + urlunsplit(("", "", "", query, fragment))
                 )
 
-                # urlunsplit does not double slashes if netloc is empty. But most
-                # URLs with empty netloc should have a double slash (e.g.
-                # bigquery:// or sqlite:///some/file.db).
-                if not netloc:
-                    merged_url = merged_url.replace(":", "://", 1)
-
                 return merged_url
 
         if strict:
-- 
2.43.0


From 3283df303a90c28853431039dc37977d308904dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:44 +0000
Subject: [PATCH 15/45] fix: keep the Protobuf default namespace after a file
 without package

---
 recap/converters/protobuf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index ec8833f..34c44ee 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -117,7 +117,8 @@ class ProtobufConverter:
         if root_message is None:
             raise ValueError("Protobuf schema must contain at least one Message")
 
-        self.namespaces.pop()
+        if packages:
+            self.namespaces.pop()
 
         return root_message
 
-- 
2.43.0


From 208d26c93a433f1c84a842c68cacdb2b8f30df55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:44 +0000
Subject: [PATCH 16/45] fix: resolve fully qualified Protobuf type names

---
 recap/converters/protobuf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 34c44ee..b56a951 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -246,6 +246,8 @@ class ProtobufConverter:
                 return NullType()
             case _:
                 # Create a ProxyType and hope we have a type alias for this type.
+                # A leading dot marks a fully qualified name.
+                protobuf_type = protobuf_type.removeprefix(".")
                 alias = (
                     protobuf_type
                     if "." in protobuf_type
-- 
2.43.0


From 9e0d731b72fac7360725354e9fb05122ba7c0cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:44 +0000
Subject: [PATCH 17/45] fix: share the registry between copies of a reference

---
 recap/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/recap/types.py b/recap/types.py
index 54d40f5..f65b99e 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -338,6 +338,10 @@ class RecapTypeRegistry:
         # Define and register built-in aliases
         self._type_registry: dict[str, RecapType] = copy.deepcopy(BUILTIN_ALIASES)
 
+    def __deepcopy__(self, memo) -> RecapTypeRegistry:
+        # Types refer to their registry; a copied type refers to the same one.
+        return self
+
     def register_alias(self, recap_type: RecapType):
         alias = recap_type.alias
         if alias is None:
-- 
2.43.0


From 0fd9b553b510904bf617b85c2d4d26257ccfef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:02 +0000
Subject: [PATCH 18/45] fix: forget the namespace of a Protobuf file that fails
 to convert

---
 recap/converters/protobuf.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index b56a951..54d2614 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -46,7 +46,14 @@ class ProtobufConverter:
         protobuf_schema_str: str,
     ) -> StructType:
         file = Parser().parse(protobuf_schema_str)
-        root_message = self._parse(file)
+        namespaces = list(self.namespaces)
+
+        try:
+            root_message = self._parse(file)
+        finally:
+            # A file that can't be parsed must not leave its namespace behind.
+            self.namespaces = namespaces
+
         root_message = self._resolve_proxies(root_message)
 
         if not isinstance(root_message, StructType):
-- 
2.43.0


From f5258563871db5454b51811f07dcbb0d97887707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:57 +0000
Subject: [PATCH 19/45] fix: number Protobuf fields after a oneof uniquely

---
 recap/converters/protobuf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 54d2614..8800110 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -331,10 +331,12 @@ class ProtobufConverter:
                 message_elements: list[MessageElement] = []
 
                 for field in recap_type.fields:
-                    message_elements.append(
-                        self._recap_to_field(field, field_number, package)
+                    element = self._recap_to_field(field, field_number, package)
+                    message_elements.append(element)
+                    # The fields of a oneof share the numbers of the message.
+                    field_number += (
+                        len(element.elements) if isinstance(element, OneOf) else 1
                     )
-                    field_number += 1
                     self._from_recap_gather_types(field, package_to_types)
 
                 package_to_types.setdefault(package, []).append(
-- 
2.43.0


From 47f9f8c215d07270a790059080f4008b2f523cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:30 +0000
Subject: [PATCH 20/45] fix: name Protobuf lists and nullable fields as the
 Recap field

---
 recap/converters/protobuf.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 8800110..eeccd44 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -396,6 +396,7 @@ class ProtobufConverter:
         recap_type: RecapType,
         field_number: int,
         package: str,
+        default_name: str | None = None,
     ) -> Field | MapField | OneOf:
         """
         Convert a Recap type to a Protobuf field. This method is recursive and
@@ -404,10 +405,13 @@ class ProtobufConverter:
         :param recap_type: The Recap type to convert.
         :param field_number: The field number to assign to the field.
         :param package: The package of the field.
+        :param default_name: The name of the field if the type has none.
         :return: The Protobuf field.
         """
 
-        field_name = recap_type.extra_attrs.get("name", f"field_{field_number}")
+        field_name = recap_type.extra_attrs.get(
+            "name", default_name or f"field_{field_number}"
+        )
         match recap_type:
             case NullType():
                 return Field(field_name, field_number, "google.protobuf.NullValue")
@@ -444,7 +448,9 @@ class ProtobufConverter:
             case BytesType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_647:
                 return Field(field_name, field_number, "bytes")
             case ListType(values=values):
-                nested_field = self._recap_to_field(values, field_number, package)
+                nested_field = self._recap_to_field(
+                    values, field_number, package, field_name
+                )
                 assert isinstance(
                     nested_field,
                     Field,
@@ -473,6 +479,7 @@ class ProtobufConverter:
                         non_null_types[0],
                         field_number,
                         package,
+                        field_name,
                     )
                     assert isinstance(field, Field), "Maps can't be nullable."
                     field.cardinality = FieldCardinality.OPTIONAL
-- 
2.43.0


From 4d449f66a6bef1897a8b0e83610cdd239f1a1ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:57 +0000
Subject: [PATCH 21/45] fix: keep nullable lists repeated in Protobuf

---
 recap/converters/protobuf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index eeccd44..55f6bd0 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -482,7 +482,9 @@ class ProtobufConverter:
                         field_name,
                     )
                     assert isinstance(field, Field), "Maps can't be nullable."
-                    field.cardinality = FieldCardinality.OPTIONAL
+                    # Repeated fields are never marked optional.
+                    if field.cardinality != FieldCardinality.REPEATED:
+                        field.cardinality = FieldCardinality.OPTIONAL
                     return field
                 else:
                     # Multiple non-null types means this is a true union of multiple types.
-- 
2.43.0


From 9da4364aacbe0af9d769ee052ce3267fae590456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:57 +0000
Subject: [PATCH 22/45] fix: write the string and bytes limits that Protobuf
 reading gives

---
 recap/converters/protobuf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 55f6bd0..b01bf67 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -443,9 +443,9 @@ class ProtobufConverter:
                     "Invalid bit size for FloatType. Protobuf supports only 32 "
                     "or 64 bits for floating-point types."
                 )
-            case StringType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_647:
+            case StringType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_648:
                 return Field(field_name, field_number, "string")
-            case BytesType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_647:
+            case BytesType(bytes_=int(bytes_)) if bytes_ <= 2_147_483_648:
                 return Field(field_name, field_number, "bytes")
             case ListType(values=values):
                 nested_field = self._recap_to_field(
-- 
2.43.0


From 11e541a921441ee9b985fea5345811b3264234a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:57 +0000
Subject: [PATCH 23/45] fix: reject nested lists, maps and unions that Protobuf
 can't express

---
 recap/converters/protobuf.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index b01bf67..0931507 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -451,20 +451,21 @@ class ProtobufConverter:
                 nested_field = self._recap_to_field(
                     values, field_number, package, field_name
                 )
-                assert isinstance(
-                    nested_field,
-                    Field,
-                ), "Maps and unions can't be repeated (lists)."
+                assert (
+                    isinstance(nested_field, Field) and nested_field.cardinality is None
+                ), "Lists, maps, and unions can't be repeated (lists)."
                 nested_field.cardinality = FieldCardinality.REPEATED
                 return nested_field
             case MapType(keys=keys, values=values):
                 # 0 field_number because we ignore it. We just need types.
                 key_field = self._recap_to_field(keys, 0, package)
                 value_field = self._recap_to_field(values, 0, package)
-                assert isinstance(
-                    key_field, Field
+                assert isinstance(key_field, Field) and isinstance(
+                    keys, (BoolType, IntType, StringType)
                 ), "Key must be integral or string type."
-                assert isinstance(value_field, Field), "Value must not be a map type."
+                assert (
+                    isinstance(value_field, Field) and value_field.cardinality is None
+                ), "Value must not be a list, map, or union type."
                 return MapField(
                     field_name,
                     field_number,
@@ -497,6 +498,12 @@ class ProtobufConverter:
                             oneof_field_num,
                             package,
                         )
+                        assert (
+                            isinstance(field, Field)
+                            and field.cardinality != FieldCardinality.REPEATED
+                        ), "Unions can't contain lists, maps, and unions."
+                        # OneOf fields have no label.
+                        field.cardinality = None
                         oneof_fields.append(field)
                         oneof_field_num += 1
                     return OneOf(field_name, oneof_fields)
-- 
2.43.0


From 53e0ab8542a466c24bf0405fb2c49fc93a871217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:57 +0000
Subject: [PATCH 24/45] fix: accept bool keys of Protobuf maps

---
 recap/converters/protobuf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 0931507..83877e8 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -174,8 +174,8 @@ class ProtobufConverter:
     def _parse_map_field(self, field: MapField) -> RecapType:
         key_type = self._protobuf_type_to_recap_type(field.key_type)
 
-        # Proto map keys are always strings or integers.
-        assert isinstance(key_type, IntType) or isinstance(key_type, StringType)
+        # Proto map keys are always strings, integers, or booleans.
+        assert isinstance(key_type, (BoolType, IntType, StringType))
 
         value_type = self._protobuf_type_to_recap_type(field.value_type)
         map_type = UnionType(
-- 
2.43.0


From faaa17f5a0e6cf3c4c0158b1a157e5214ea7590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:57 +0000
Subject: [PATCH 25/45] fix: reject Protobuf declarations that would be left
 out of the file

---
 recap/converters/protobuf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 83877e8..90fd588 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -296,9 +296,15 @@ class ProtobufConverter:
         self._from_recap_gather_types(struct_type, package_to_types)
         # Lexicographical sort always puts the root package first.
         package = sorted(package_to_types.keys())[0]
-        # Verify all subpackages are under the root package.
+        # Verify all subpackages are messages under the root package.
+        messages = {
+            f"{subpackage}.{type_.name}"
+            for subpackage, types in package_to_types.items()
+            for type_ in types
+            if isinstance(type_, Message)
+        }
         for subpackage in package_to_types.keys():
-            assert subpackage.startswith(package), (
+            assert subpackage == package or subpackage in messages, (
                 "Proto files must contain messages in a single root package space, "
                 f"but found root={package} and subpackage={subpackage}."
             )
-- 
2.43.0


From 4f8a77e022cd9630dc4245b5d6ea646253461a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:31 +0000
Subject: [PATCH 26/45] fix: reject empty unions, which Protobuf can't express

---
 recap/converters/protobuf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recap/converters/protobuf.py b/recap/converters/protobuf.py
index 90fd588..edbd393 100644
--- a/recap/converters/protobuf.py
+++ b/recap/converters/protobuf.py
@@ -495,6 +495,7 @@ class ProtobufConverter:
                     return field
                 else:
                     # Multiple non-null types means this is a true union of multiple types.
+                    assert non_null_types, "Unions must contain a non-null type."
                     oneof_field_num = field_number
                     oneof_fields = []
                     # OneOf fields are always optional, so no need to include NullType.
-- 
2.43.0


From a7fe200d6333422e17a5546b560a5d9bc2cb751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:10 +0000
Subject: [PATCH 27/45] fix: read SQLite tables whatever their name

---
 recap/clients/sqlite.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 0cf65a2..3d4950e 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -80,12 +80,11 @@ class SQLiteClient:
     def schema(self, table: str) -> StructType:
         cursor = self.connection.cursor()
 
-        # Validate that table exists since we want to prevent SQL injections in
-        # the PRAGMA call
+        # Validate that table exists since the PRAGMA returns no columns if not
         if not self._table_exists(table):
             raise ValueError(f"Table '{table}' does not exist in the database.")
 
-        cursor.execute(f"PRAGMA table_info({table});")
+        cursor.execute("SELECT * FROM pragma_table_info(?)", (table,))
         names = [name[0].upper() for name in cursor.description]
         rows = []
 
-- 
2.43.0


From 498e000e6ae477320f2723af4bbba916a8a7523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:10 +0000
Subject: [PATCH 28/45] fix: tell SQLite column lengths by the whole declared
 type

---
 recap/clients/sqlite.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index 3d4950e..b577375 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -125,12 +125,11 @@ class SQLiteClient:
 
         if param_match:
             # Extract matched values
-            base_type, precision, scale = param_match.groups()
-            base_type = base_type.upper()
+            _, precision, scale = param_match.groups()
             precision = int(precision)
             scale = int(scale) if scale else 0
 
-            match SQLiteConverter.get_affinity(base_type):
+            match SQLiteConverter.get_affinity(row["TYPE"]):
                 case SQLiteAffinity.INTEGER | SQLiteAffinity.REAL | SQLiteAffinity.NUMERIC:
                     information_schema_cols["NUMERIC_PRECISION"] = precision
                     information_schema_cols["NUMERIC_SCALE"] = scale
-- 
2.43.0


From 409eacdb49e26f824c7397d3ed1b791fe63878f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:10 +0000
Subject: [PATCH 29/45] fix: convert PostgreSQL tables that share array column
 names

---
 recap/converters/postgresql.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/recap/converters/postgresql.py b/recap/converters/postgresql.py
index d5c17cf..21a6b7b 100644
--- a/recap/converters/postgresql.py
+++ b/recap/converters/postgresql.py
@@ -14,6 +14,7 @@ from recap.types import (
     RecapType,
     RecapTypeRegistry,
     StringType,
+    StructType,
     UnionType,
 )
 
@@ -38,6 +39,11 @@ class PostgresqlConverter(DbapiConverter):
         self.namespace = namespace
         self.registry = RecapTypeRegistry()
 
+    def to_recap(self, columns: list[dict[str, Any]]) -> StructType:
+        # Array aliases are unique in a table, but not across tables
+        self.registry = RecapTypeRegistry()
+        return super().to_recap(columns)
+
     def _parse_type(self, column_props: dict[str, Any]) -> RecapType:
         column_name = column_props["COLUMN_NAME"]
         data_type = column_props["DATA_TYPE"].lower()
-- 
2.43.0


From dc86d4a122b6e99f08496cc826e30e1ef603c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:10 +0000
Subject: [PATCH 30/45] fix: order PostgreSQL enum symbols as declared

---
 recap/clients/postgresql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/clients/postgresql.py b/recap/clients/postgresql.py
index 246d043..3a960bb 100644
--- a/recap/clients/postgresql.py
+++ b/recap/clients/postgresql.py
@@ -111,7 +111,7 @@ class PostgresqlClient(DbapiClient):
                 LEFT JOIN (
                     SELECT
                         enumtypid,
-                        array_agg(enumlabel) AS enum_values
+                        array_agg(enumlabel ORDER BY enumsortorder) AS enum_values
                     FROM pg_catalog.pg_enum
                     GROUP BY enumtypid
                 ) enums ON enums.enumtypid = pg_catalog.pg_type.oid
-- 
2.43.0


From 0a20d75605061580bf8dbce29dc1f6361cadae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:57 +0000
Subject: [PATCH 31/45] fix: read SQLite column lengths written with spaces

---
 recap/clients/sqlite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index b577375..b189788 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -120,12 +120,12 @@ class SQLiteClient:
         # This regex matches the following patterns:
         # - <type>(<param1>(, <param2>)?)
         # param1 can be a precision or octet length, and param2 can be a scale.
-        numeric_pattern = re_compile(r"(\w+)\((\d+)(?:,\s*(\d+))?\)")
+        numeric_pattern = re_compile(r"\w\s*\(\s*(\d+)\s*(?:,\s*(\d+)\s*)?\)")
         param_match = numeric_pattern.search(row["TYPE"])
 
         if param_match:
             # Extract matched values
-            _, precision, scale = param_match.groups()
+            precision, scale = param_match.groups()
             precision = int(precision)
             scale = int(scale) if scale else 0
 
-- 
2.43.0


From a64eb1085f5e9a3abdcda3767684ff6122cf7862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:53 +0000
Subject: [PATCH 32/45] fix: don't let query parameters override a URL's
 components

---
 recap/clients/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index fe91054..03e2cac 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -124,6 +124,16 @@ def _url_to_dict(url: str) -> dict[str, str]:
     parsed_qs = {
         key: value[0] if len(value) == 1 else value for key, value in parsed_qs.items()
     }
+    # Query parameters can add a password or port (or user and host), but never
+    # override what the rest of the URL says. Only `query` itself can be.
+    for component, value in parsed_dict.items():
+        if component != "query" and (value or component not in {"password", "port"}):
+            parsed_qs[component] = value
+
+    for component in ("dialect", "driver"):
+        if component not in parsed_dict:
+            parsed_qs.pop(component, None)
+
     parsed_dict |= parsed_qs
 
     return parsed_dict
-- 
2.43.0


From dab361d188d680e88098a3d37083d6c107b8fbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:53 +0000
Subject: [PATCH 33/45] fix: keep the driver in the connection URLs of
 Confluent and Hive

---
 recap/clients/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index 03e2cac..daca475 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -65,6 +65,9 @@ def parse_url(method: str, url: str, strict: bool = True) -> tuple[str, list[Any
         module = import_module(module_path)
         client_class = getattr(module, class_name)
         connection_url, method_args = client_class.parse(method, **url_args)
+        if "+" in scheme:
+            # Clients drop the driver, but settings and create_client need it.
+            connection_url = f"{scheme}://{connection_url.split('://', 1)[1]}"
         return (settings.unsafe_url(connection_url, strict), method_args)
     else:
         raise ValueError(f"No clients available for scheme: {scheme}")
-- 
2.43.0


From 4a175819d39dcef23e22269a4ad70875a7ea7e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:53 +0000
Subject: [PATCH 34/45] fix: accept the arguments that BigQuery URLs are parsed
 to in ls

---
 recap/clients/bigquery.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/recap/clients/bigquery.py b/recap/clients/bigquery.py
index 5434ada..b70a526 100644
--- a/recap/clients/bigquery.py
+++ b/recap/clients/bigquery.py
@@ -29,13 +29,18 @@ class BigQueryClient:
             case _:
                 raise ValueError("Invalid method")
 
-    def ls(self, project: str | None = None, dataset: str | None = None) -> list[str]:
-        match (project, dataset):
-            case (None, None):
+    def ls(
+        self,
+        project: str | None = None,
+        dataset: str | None = None,
+        table: str | None = None,
+    ) -> list[str]:
+        match (project, dataset, table):
+            case (None, None, None):
                 return self.ls_projects()
-            case (str(project), None):
+            case (str(project), None, None):
                 return self.ls_datasets(project)
-            case (str(project), str(dataset)):
+            case (str(project), str(dataset), None):
                 return self.ls_tables(project, dataset)
             case _:
                 raise ValueError("Invalid arguments")
-- 
2.43.0


From c1134dadf29a332b97bb7ed18f822ddfdd7e42cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:53 +0000
Subject: [PATCH 35/45] fix: keep the absolute paths of SQLite databases

---
 recap/clients/sqlite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recap/clients/sqlite.py b/recap/clients/sqlite.py
index b189788..f06105b 100644
--- a/recap/clients/sqlite.py
+++ b/recap/clients/sqlite.py
@@ -53,7 +53,8 @@ class SQLiteClient:
                         url_args.get("dialect") or url_args.get("scheme"),
                         url_args.get("netloc"),
                         # Include / prefix for paths
-                        "/".join(url_args.get("paths", [])),
+                        "/" * url_args["path"].startswith("//")
+                        + "/".join(url_args.get("paths", [])),
                         url_args.get("params"),
                         url_args.get("query"),
                         url_args.get("fragment"),
-- 
2.43.0


From b94035ee6d98be0e7004489688f5479f5311f47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:53 +0000
Subject: [PATCH 36/45] fix: connect to the Snowflake account and database that
 the URL names

---
 recap/clients/snowflake.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recap/clients/snowflake.py b/recap/clients/snowflake.py
index b604992..57a41a4 100644
--- a/recap/clients/snowflake.py
+++ b/recap/clients/snowflake.py
@@ -20,13 +20,13 @@ class SnowflakeClient(DbapiClient):
         snowflake_args["account"] = url_args.pop("host")
 
         match url_args.get("paths"):
-            case str(database), None:
+            case [str(database)]:
                 snowflake_args["database"] = database
-            case str(database), str(schema):
+            case [str(database), str(schema), *_]:
                 snowflake_args["database"] = database
                 snowflake_args["schema"] = schema
 
-        with snowflake.connector.connect(**(snowflake_args | url_args)) as client:
+        with snowflake.connector.connect(**(url_args | snowflake_args)) as client:
             yield SnowflakeClient(client)  # type: ignore
 
     def ls_catalogs(self) -> list[str]:
-- 
2.43.0


From 43b9abde43ab60bf9a515a8f5e9b30648d1f5f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:28 +0000
Subject: [PATCH 37/45] fix: decode the user names and passwords of URLs

---
 recap/clients/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/recap/clients/__init__.py b/recap/clients/__init__.py
index daca475..5fe1a61 100644
--- a/recap/clients/__init__.py
+++ b/recap/clients/__init__.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from contextlib import contextmanager
 from importlib import import_module
 from typing import Any, Generator, Protocol
-from urllib.parse import parse_qs, urlparse
+from urllib.parse import parse_qs, unquote, urlparse
 
 from recap.settings import RecapSettings
 from recap.types import StructType
@@ -114,7 +114,11 @@ def _url_to_dict(url: str) -> dict[str, str]:
         parsed_dict["driver"] = driver
         url = url.replace(f"{dialect}+{driver}://", f"{dialect}://")
 
-    if username := parsed_url.username:
+    for field in ("username", "password"):
+        if parsed_dict[field]:
+            parsed_dict[field] = unquote(parsed_dict[field])
+
+    if username := parsed_dict["username"]:
         parsed_dict["user"] = username
 
     if hostname := parsed_url.hostname:
-- 
2.43.0


From e0a99b565e9d965a2e67b0a18342a13cabdfcb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:51 +0000
Subject: [PATCH 38/45] fix: keep the brackets of IPv6 addresses in Hive URLs

---
 recap/clients/hive_metastore.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/clients/hive_metastore.py b/recap/clients/hive_metastore.py
index 4ae4d62..b29aeaa 100644
--- a/recap/clients/hive_metastore.py
+++ b/recap/clients/hive_metastore.py
@@ -37,7 +37,9 @@ class HiveMetastoreClient:
         include_stats: str | None = None,
         **url_args,
     ) -> tuple[str, list[Any]]:
-        clean_url = f"thrift://{url_args['host']}"
+        host = url_args["host"]
+        # IPv6 addresses need their brackets in a URL.
+        clean_url = f"thrift://[{host}]" if ":" in host else f"thrift://{host}"
         if url_args["port"]:
             clean_url += f":{url_args['port']}"
         match method:
-- 
2.43.0


From 0cbb48af262b1f0c2a2ac40a15f340b055139f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:38 +0000
Subject: [PATCH 39/45] fix: shorten optional unions only when the result
 denotes the same type

---
 recap/types.py | 62 ++++++++++++++++++++++----------------------------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index f65b99e..f33280a 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -663,46 +663,38 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
     # Support "optional" sytnactic sugar.
     # Shorten {"type": "union", "types": ["null", ...], "default": ...}
     # to {"type": "union", "types": [...], "optional": True}
+    # Only do it if reading the result gives the same type again: null has to come
+    # first (and once), and the union must have no other (non-standard) attributes.
+    standard = {"type", "types", "alias", "logical", "default", "doc", "name"}
     if (
         type_dict["type"] == "union"
-        and "null" in type_dict["types"]
+        and type_dict["types"].count("null") == 1
+        and type_dict["types"][0] == "null"
         and "default" in type_dict
+        and type_dict.keys() <= standard
     ):
-        # Pop off standard attributes that should be kept whether the type is kept
-        # as a union or converted to a single nested type.
-        alias = type_dict.pop("alias", None)
-        logical = type_dict.pop("logical", None)
-        default = type_dict.pop("default")
-        doc = type_dict.pop("doc", None)
-        name = type_dict.pop("name", None)
+        types = type_dict["types"][1:]
+        nested_type = types[0] if len(types) == 1 else None
+        if isinstance(nested_type, str):
+            nested_type = {"type": nested_type}
+
+        # If the type was ["null", <some type>], use <some type> instead of a
+        # union of a single type. Don't do this if the union or the type has
+        # attributes of its own that would get mixed up with the other's.
+        if (
+            isinstance(nested_type, dict)
+            and nested_type["type"] != "union"
+            and not nested_type.keys() & {"default", "name", "optional"}
+            and not type_dict.keys() & {"alias", "logical", "doc"}
+        ):
+            attributes = {k: type_dict[k] for k in ("default", "name") if k in type_dict}
+            type_dict = nested_type | attributes
+        else:
+            type_dict["types"] = types
 
-        # Only do syntactic sugar if the union is a union with no other
-        # (non-standard) extra attributes.
-        if len(type_dict) == 2:
-            type_dict["types"].remove("null")
-
-            # If the type was ["null", <some type>], use <some type> instead
-            # of a union of a single type. Don't do this if union is an alias or
-            # logical type, since we promoting the nested type would change what
-            # the alias/logical type means.
-            if len(type_dict["types"]) == 1 and alias is None and logical is None:
-                nested_type = type_dict["types"][0]
-                if isinstance(nested_type, str):
-                    nested_type = {"type": nested_type}
-                type_dict = nested_type
-            assert isinstance(type_dict, dict), "Expected type_dict to be a dict."
-            attributes = {
-                "alias": alias,
-                "default": default,
-                "doc": doc,
-                "logical": logical,
-                "name": name,
-                "optional": True,
-            }
-            # Filter None values
-            attributes = {k: v for k, v in attributes.items() if v is not None}
-            # Add attributes to the type_dict.
-            type_dict |= attributes
+        type_dict["optional"] = True
+        if type_dict["default"] is None:
+            del type_dict["default"]
 
     # Shorten simple types {"type": "type"} to "type"
     if len(type_dict) == 1:
-- 
2.43.0


From dd604b12c131941ab2d09797f5a8d278b626a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:41 +0000
Subject: [PATCH 40/45] fix: clean unions that are written as a list of types

---
 recap/types.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/recap/types.py b/recap/types.py
index f33280a..35779ed 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -616,6 +616,10 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
             "type": type_dict,
         }
 
+    if isinstance(type_dict["type"], list):
+        # A list as the type is a union, too
+        type_dict = {**type_dict, "type": "union", "types": type_dict["type"]}
+
     type_name = type_dict.get("type")
 
     if isinstance(type_name, str):
@@ -654,11 +658,6 @@ def clean_dict(type_dict: dict | list | str) -> dict | list | str:
 
         if type_name == "union":
             type_dict["types"] = [clean_dict(t) for t in type_dict["types"]]
-    elif isinstance(type_name, list):
-        type_dict = {
-            "type": "union",
-            "types": [clean_dict(t) for t in type_dict["types"]],
-        }
 
     # Support "optional" sytnactic sugar.
     # Shorten {"type": "union", "types": ["null", ...], "default": ...}
-- 
2.43.0


From 0fd2d7bab74560ec0fd20715066be538cdfb1b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:45 +0000
Subject: [PATCH 41/45] fix: write types that contain types with an alias

---
 recap/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recap/types.py b/recap/types.py
index 35779ed..dde831e 100644
--- a/recap/types.py
+++ b/recap/types.py
@@ -733,7 +733,9 @@ def alias_dict(
         return type_dict
 
     registry = registry or RecapTypeRegistry()
-    recap_type = from_dict(type_dict, registry)
+    # Nested types can define aliases, which must not be defined again when they
+    # are visited themselves.
+    recap_type = from_dict(type_dict, RecapTypeRegistry())
 
     # If there's a matching alias, replace the type_dict with it
     for alias, alias_type in registry._type_registry.items():
-- 
2.43.0


From 725cce72d3d8c64084122f0662b26ce1434c670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 42/45] fix: list directories of file systems that describe
 their entries

---
 recap/clients/fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/clients/fs.py b/recap/clients/fs.py
index 1a1496b..c9476ed 100644
--- a/recap/clients/fs.py
+++ b/recap/clients/fs.py
@@ -38,7 +38,7 @@ class FilesystemClient:
             import fsspec
 
             fs = fsspec.filesystem(self.scheme)
-            return [Path(p).name for p in fs.ls(path)]
+            return [Path(p).name for p in fs.ls(path, detail=False)]
 
     def schema(self, path: str = "/") -> StructType:
         suffix = Path(path).suffix.lower().strip(".")
-- 
2.43.0


From d9898fca4e49ffd73b7aad1f7448ea833275919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 43/45] fix: print Protobuf schemas as they are

---
 recap/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recap/cli.py b/recap/cli.py
index 6de5dba..10bd1a1 100644
--- a/recap/cli.py
+++ b/recap/cli.py
@@ -1,7 +1,7 @@
 from typing import Annotated, Optional
 
 import typer
-from rich import print, print_json
+from rich import print_json
 
 from recap import commands
 
@@ -35,7 +35,8 @@ def schema(
         case dict():
             print_json(data=struct_obj)
         case str():
-            print(struct_obj)
+            # Not rich's print, which wraps long lines and interprets markup.
+            typer.echo(struct_obj)
         case _:
             raise ValueError(f"Unexpected schema type: {type(struct_obj)}")
 
-- 
2.43.0


From e01847b9a7cc2d4b07750c2454628e2ccc3084a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:59 +0000
Subject: [PATCH 44/45] fix: keep JSON Schema definitions that are referred to

---
 recap/converters/json_schema.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index 24721ae..cace3a7 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -164,7 +164,12 @@ class JSONSchemaConverter:
 
         defs = {}
 
-        if (alias := recap_type.alias) and alias not in BUILTIN_ALIASES:
+        if (
+            (alias := recap_type.alias)
+            and alias not in BUILTIN_ALIASES
+            # References must not replace the definition they refer to.
+            and not isinstance(recap_type, ProxyType)
+        ):
             # Don't use $ref for concrete types, since we're defining them,
             # not referencing them.
             defs[alias] = self._convert_field(recap_type, False)
-- 
2.43.0


From fb6c50049fdb4661a343ec418fe5107b878af22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:59 +0000
Subject: [PATCH 45/45] fix: keep the documentation of references in JSON
 Schema

---
 recap/converters/json_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recap/converters/json_schema.py b/recap/converters/json_schema.py
index cace3a7..c86eadd 100644
--- a/recap/converters/json_schema.py
+++ b/recap/converters/json_schema.py
@@ -264,7 +264,7 @@ class JSONSchemaConverter:
                 # If there are attribute overrides, we can't use refs. JSON
                 # schema doesn't support $def overrides. Also, if the alias
                 # is a built-in type, convert to standard types instead of $defs
-                return self._convert_field(field.resolve())
+                return type_dict | self._convert_field(field.resolve())
             case ProxyType(alias=str(alias)):
                 return type_dict | {"$ref": f"#/$defs/{alias}"}
             case _:
-- 
2.43.0

