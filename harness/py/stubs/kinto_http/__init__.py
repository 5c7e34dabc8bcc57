"""Stand-in for kinto-http: the calls go to the collection server of the world under test."""
import copy
import types

import world
from kinto_http.exceptions import BucketNotFound, CollectionNotFound, KintoException


class Client:
    def __init__(self, *, server_url=None, session=None, auth=None, bucket="default", collection=None, retry=0, retry_after=None, timeout=None, headers=None, **kw):
        self.session = session or types.SimpleNamespace(server_url=server_url, auth=auth, nb_retry=retry)
        self.bucket_name, self.collection_name = bucket, collection
        self._auth = self.session.auth

    def clone(self, **kw):
        c = copy.copy(self)
        c.bucket_name, c.collection_name = kw.get("bucket", self.bucket_name), kw.get("collection", self.collection_name)
        return c

    def _c(self, c):
        c = c or self.collection_name
        if c is None:
            raise KintoException("no collection")
        return c

    def server_info(self):
        return world.W.kinto("info", None, {})

    def get_records(self, *, collection=None, bucket=None, **filters):
        return world.W.kinto("list", self._c(collection), {"filters": filters})

    def get_record(self, *, id, collection=None, bucket=None):
        return world.W.kinto("get", self._c(collection), {"id": id})

    def create_record(self, *, id=None, bucket=None, collection=None, data=None, permissions=None, safe=True, if_match=None, if_exists=None):
        return world.W.kinto("create", self._c(collection), {"id": id or (data or {}).get("id"), "data": data or {}, "auth": self.session.auth})

    def update_record(self, *, id=None, collection=None, bucket=None, data=None, permissions=None, safe=True, if_match=None):
        return world.W.kinto("update", self._c(collection), {"id": id or (data or {}).get("id"), "data": data or {}, "auth": self.session.auth})

    def patch_record(self, *, id=None, collection=None, bucket=None, changes=None, data=None, original=None, permissions=None, safe=True, if_match=None):
        d = data if data is not None else changes.data
        return world.W.kinto("patch", self._c(collection), {"id": id or (original or {}).get("id") or (d or {}).get("id"), "data": d or {}, "auth": self.session.auth})

    def delete_record(self, *, id, collection=None, bucket=None, safe=True, if_match=None, if_exists=False):
        return world.W.kinto("delete", self._c(collection), {"id": id, "auth": self.session.auth, "if_exists": if_exists})

    def delete_records(self, *, collection=None, bucket=None, safe=True, if_match=None):
        out = []
        for r in self.get_records(collection=collection):
            self.delete_record(id=r["id"], collection=collection, if_exists=True)
            out.append(r)
        return out

    def get_collection(self, *, id=None, bucket=None):
        return world.W.kinto("collection", self._c(id), {})

    def patch_collection(self, *, id=None, bucket=None, changes=None, data=None, original=None, permissions=None, safe=True, if_match=None):
        d = data if data is not None else changes.data
        if if_match is None and original:
            if_match = original.get("last_modified")
        return world.W.kinto("patch_collection", self._c(id or (original or {}).get("id")), {"data": d or {}, "auth": self.session.auth, "if_match": if_match if safe else None})

    def update_collection(self, *, id=None, bucket=None, data=None, permissions=None, safe=True, if_match=None):
        if if_match is None and data:
            if_match = data.get("last_modified")
        return world.W.kinto("patch_collection", self._c(id or (data or {}).get("id")), {"data": data or {}, "auth": self.session.auth, "if_match": if_match if safe else None})
