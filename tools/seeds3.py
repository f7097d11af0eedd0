from mkseed import make
ST = '''
from recap.storage.registry import RegistryStorage
from recap.types import *
import tempfile, shutil, os
root = os.path.join(os.getcwd(), "store", "registry")
s = RegistryStorage("file://" + root)
'''
make("storage-next-version", "C05", [("recap/storage/registry.py", "            version = (self.latest(name) or 0) + 1", "            version = len(self.versions(name) or []) + 1")], ST + '''
s.put("n", BoolType(), 1); s.put("n", IntType(32), 3); s.put("n", FloatType(64))
t, v = s.get("n", 3)
assert t.type_ != "float" and s.latest("n") == 4, (t, s.versions("n"))
''', "versions that are not consecutive, then a store without a version", "an existing version is replaced")
make("storage-version-order", "C05", [("recap/storage/registry.py", '''        try:
            return sorted(
                [
                    int(Path(file_path).stem)''', '''        try:
            return sorted(
                [
                    int(Path(file_path).stem.lstrip("0") or 0)'''), ("recap/storage/registry.py", "        return max(versions)", "        return versions[-1]"),
     ("recap/storage/registry.py", "            version = max(versions)", "            version = max(versions, key=str)")], ST + '''
for _ in range(10):
    s.put("n", BoolType())
s.put("n", FloatType(64), 10)
t, v = s.get("n")
assert v == 10, v
''', "ten or more versions", "an outdated version is returned as the latest")
make("storage-ls-quoting", "C05", [("recap/storage/registry.py", "from urllib.parse import quote_plus, unquote_plus", "from urllib.parse import quote_plus, unquote"), ("recap/storage/registry.py", "unquote_plus(file_path", "unquote(file_path")], ST + '''
s.put("a b", BoolType())
assert s.ls() == ["a b"], s.ls()
''', "a name with a space", "a name is listed that was never stored")
SV = '''
import asyncio, json, os
from recap.server import registry as R
from recap.server.app import app
from recap.storage.registry import RegistryStorage
from recap.types import *
url = "file://" + os.path.join(os.getcwd(), "store", "registry")
s = RegistryStorage(url)
app.dependency_overrides[R.get_storage] = lambda: RegistryStorage(url)
def call(method, path, body=b"", headers=(), meanwhile=None):
    out = {"body": b""}
    async def receive():
        if meanwhile: meanwhile()
        return {"type": "http.request", "body": body, "more_body": False}
    async def send(m):
        if "status" in m: out["status"] = m["status"]
        out["body"] += m.get("body", b"")
    scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "path": path, "raw_path": path.encode(), "query_string": b"",
             "headers": list(headers), "client": ("c", 1), "server": ("s", 80), "scheme": "http", "root_path": ""}
    asyncio.run(app(scope, receive, send))
    return out["status"], out["body"]
'''
make("http-post-stale-version", "C06", [("recap/server/registry.py", '''    type_ = await _request_to_type(request)

    return storage.put(name, type_)''', '''    next_version = (storage.latest(name) or 0) + 1
    type_ = await _request_to_type(request)

    return storage.put(name, type_, next_version)''')], SV + '''
s.put("n", BoolType())
print(call("POST", "/registry/n", b'"float64"', meanwhile=lambda: s.put("n", StringType(5))))
assert s.versions("n") == [1, 2, 3] and s.get("n", 2)[0].type_ == "string", s.versions("n")
''', "another client stores a version while a POST's payload is on its way", "the other client's version is overwritten")
make("http-version-zero", "C06", [("recap/server/registry.py", "    if type_and_version := storage.get(name, version):", "    if type_and_version := storage.get(name, version or None):")], SV + '''
s.put("n", BoolType(), 1)
assert call("GET", "/registry/n/versions/0")[0] == 404
''', "a request for version 0 of a name without one", "another version is returned instead of 404")
make("http-put-gap", "C06", [("recap/server/registry.py", "    if storage.get(name, version):", "    if version <= (storage.latest(name) or 0):")], SV + '''
s.put("n", BoolType(), 3)
assert call("PUT", "/registry/n/versions/2", b'"float64"')[0] == 200
''', "a PUT of a free version below the latest", "409 although the version is free") 
make("http-empty-versions", "C06", [("recap/server/registry.py", '''    content_type = request.headers.get("content-type") or "application/x-recap+json"

    if content_type != "application/x-recap+json":''', '''    content_type = request.headers.get("content-type") or "application/x-recap+json"

    if "json" not in content_type:''')], SV + '''
assert call("POST", "/registry/n", b'"float64"', [(b"content-type", b"application/schema+json")])[0] == 415
''', "a payload in another JSON-based format", "a schema of another format is stored as if it were a Recap type")
