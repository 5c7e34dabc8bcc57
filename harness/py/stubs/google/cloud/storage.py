"""Stand-in for google-cloud-storage: buckets of the world under test."""
import sys
import types

import world
from google.api_core import exceptions


class Blob:
    def __init__(self, name, bucket, **kw):
        self.name, self.bucket = name, bucket
        self.public_url = "https://storage.test/%s/%s" % (bucket.name, name)

    def _get(self):
        return world.W.gcs_get(self.bucket.name, self.name)

    def _put(self, data):
        world.W.gcs_put(self.bucket.name, self.name, data)

    def exists(self, *a, **k):
        return world.W.gcs_exists(self.bucket.name, self.name)

    def download_as_bytes(self, *a, **k):
        return self._get()

    download_as_string = download_as_bytes

    def download_as_text(self, *a, encoding="utf-8", **k):
        return self._get().decode(encoding)

    def download_to_file(self, f, *a, **k):
        f.write(self._get())

    def download_to_filename(self, fn, *a, **k):
        d = self._get()
        with open(fn, "wb") as f:
            f.write(d)

    def upload_from_filename(self, fn, *a, **k):
        with open(fn, "rb") as f:
            self._put(f.read())

    def upload_from_file(self, f, *a, **k):
        self._put(f.read())

    def upload_from_string(self, d, *a, **k):
        self._put(d.encode() if isinstance(d, str) else d)

    def delete(self, *a, **k):
        world.W.gcs_delete(self.bucket.name, self.name)

    def reload(self, *a, **k):
        if not self.exists():
            raise exceptions.NotFound(self.name)


class Bucket:
    def __init__(self, client, name):
        self.client, self.name = client, name

    def blob(self, name, *a, **k):
        return Blob(name, self)

    def get_blob(self, name, *a, **k):
        b = Blob(name, self)
        return b if b.exists() else None

    def list_blobs(self, prefix="", delimiter=None, **k):
        return self.client.list_blobs(self, prefix=prefix, delimiter=delimiter)

    def exists(self, *a, **k):
        return True

    def copy_blob(self, blob, dest, new_name=None, **k):
        b = Blob(new_name or blob.name, dest)
        b._put(blob._get())
        return b


class _Listing(list):
    prefixes = ()


class Client:
    def __init__(self, *a, **k):
        self._connection = types.SimpleNamespace(api_request=None)
        self.project = "test"

    def bucket(self, name, *a, **k):
        return Bucket(self, name)

    def get_bucket(self, name, *a, **k):
        return Bucket(self, name)

    def list_blobs(self, bucket, prefix="", delimiter=None, **k):
        b = bucket if isinstance(bucket, Bucket) else Bucket(self, bucket)
        items, prefixes = world.W.gcs_list(b.name, prefix or "", delimiter)
        out = _Listing(Blob(n, b) for n in items)
        out.prefixes = set(prefixes)
        return out


blob = types.ModuleType("google.cloud.storage.blob")
blob.Blob = Blob
bucket = types.ModuleType("google.cloud.storage.bucket")
bucket.Bucket = Bucket
sys.modules["google.cloud.storage.blob"] = blob
sys.modules["google.cloud.storage.bucket"] = bucket
