"""Object stores behind the real providers: a dictionary behind the calls of the S3 and Google clients."""
import contextlib
import sys
import types

from symx import core, world
from symx.core import sym_and, sym_or, is_sym

world.install()

import litdata.streaming.fs_provider as m_fs  # noqa: E402
import litdata.streaming.resolver as m_res  # noqa: E402


class Missing(Exception):
    pass


class Store:
    """Objects (name, content) in the order the store lists them; pages of at most `page` objects; every change is
    recorded."""

    def __init__(self, objects, page=1000, bucket="b"):
        self.objects = list(objects)
        self.live = [True] * len(self.objects)
        self.page, self.bucket = page, bucket
        self.removed, self.foreign, self.written, self.copied = [], [], [], []
        self.fail = None

    def find(self, key):
        for i, (k, _) in enumerate(self.objects):
            if self.live[i] and k == key:
                return i
        return None

    def get(self, bucket, key):
        i = self.find(key) if bucket == self.bucket else None
        if i is None:
            raise Missing(f"{bucket}/{key}")
        return self.objects[i][1]

    def put(self, bucket, key, data):
        if bucket != self.bucket:
            self.foreign.append((bucket, key))
            return
        if self.fail is not None and self.fail(key):
            raise OSError("the store refuses")
        i = self.find(key)
        if i is not None:
            self.live[i] = False
        self.objects.append((key, data))
        self.live.append(True)
        self.written.append(key)

    def delete(self, bucket, key):
        if bucket != self.bucket:
            self.foreign.append((bucket, key))
            return
        i = self.find(key)
        if i is not None:
            self.live[i] = False
            self.removed.append(i)

    def matching(self, bucket, prefix, start=0):
        if bucket != self.bucket:
            return
        for i in range(start, len(self.objects)):
            if self.live[i] and (not prefix or self.objects[i][0].startswith(prefix)):
                yield i

    def names(self):
        return [k for (k, _), l in zip(self.objects, self.live) if l]


class S3:
    """boto3's client."""

    def __init__(self, store):
        self.s = store

    def list_objects_v2(self, Bucket, Prefix="", Delimiter=None, ContinuationToken=None, MaxKeys=1000, StartAfter=None, **k):
        start = int(ContinuationToken) if ContinuationToken is not None else 0
        if StartAfter is not None:
            start = max([i + 1 for i, (n, _) in enumerate(self.s.objects) if n == StartAfter], default=0)
        out, more = [], None
        for i in self.s.matching(Bucket, Prefix, start):
            if len(out) >= min(self.s.page, MaxKeys):
                more = i
                break
            out.append(i)
        r = {"KeyCount": len(out), "IsTruncated": more is not None, "Name": Bucket, "Prefix": Prefix}
        if Delimiter:
            if out:
                r["CommonPrefixes"] = [{"Prefix": Prefix}]
            return r
        if out:
            r["Contents"] = [{"Key": self.s.objects[i][0], "Size": 1} for i in out]
        if more is not None:
            r["NextContinuationToken"] = str(more)
        return r

    def get_paginator(self, name):
        assert name == "list_objects_v2", name
        me = self

        class P:
            def paginate(self, **k):
                k.pop("PaginationConfig", None)
                token = None
                while True:
                    r = me.list_objects_v2(**k, **({"ContinuationToken": token} if token else {}))
                    yield r
                    token = r.get("NextContinuationToken")
                    if not token:
                        return

        return P()

    def delete_object(self, Bucket, Key, **k):
        self.s.delete(Bucket, Key)
        return {}

    def delete_objects(self, Bucket, Delete, **k):
        for o in Delete["Objects"]:
            self.s.delete(Bucket, o["Key"])
        return {}

    def head_object(self, Bucket, Key, **k):
        import botocore.exceptions

        try:
            self.s.get(Bucket, Key)
        except Missing:
            raise botocore.exceptions.ClientError({"Error": {"Code": "404", "Message": "Not Found"}}, "HeadObject")
        return {"ContentLength": 1}

    def upload_file(self, Filename, Bucket, Key, **k):
        with open(Filename, "rb") as f:
            self.s.put(Bucket, Key, f.read())

    def download_fileobj(self, Bucket, Key, Fileobj, **k):
        Fileobj.write(self.s.get(Bucket, Key))

    def download_file(self, Bucket, Key, Filename, **k):
        data = self.s.get(Bucket, Key)
        with open(Filename, "wb") as f:
            f.write(data)

    def copy(self, CopySource, Bucket, Key, **k):
        self.s.put(Bucket, Key, self.s.get(CopySource["Bucket"], CopySource["Key"]))
        self.s.copied.append((CopySource["Key"], Key))


class Blob:
    def __init__(self, store, bucket, name):
        self.s, self.bucket, self.name = store, bucket, name

    def delete(self, *a, **k):
        self.s.delete(self.bucket.name, self.name)

    def exists(self, *a, **k):
        return self.bucket.name == self.s.bucket and self.s.find(self.name) is not None

    def upload_from_filename(self, f, **k):
        with open(f, "rb") as h:
            self.s.put(self.bucket.name, self.name, h.read())

    def download_to_filename(self, f, **k):
        data = self.s.get(self.bucket.name, self.name)
        with open(f, "wb") as h:
            h.write(data)


class Bucket:
    def __init__(self, store, name):
        self.s, self.name = store, name

    def blob(self, name, **k):
        return Blob(self.s, self, name)

    def list_blobs(self, prefix=None, delimiter=None, max_results=None, **k):
        n = 0
        for i in list(range(len(self.s.objects))):
            if self.s.live[i] and self.name == self.s.bucket and (not prefix or self.s.objects[i][0].startswith(prefix)):
                yield Blob(self.s, self, self.s.objects[i][0])
                n += 1
                if max_results is not None and n >= max_results:
                    return

    def delete_blob(self, name, **k):
        self.s.delete(self.name, name)

    def delete_blobs(self, blobs, **k):
        for b in blobs:
            self.s.delete(self.name, b if isinstance(b, str) else b.name)

    def copy_blob(self, blob, bucket, new_name=None, **k):
        name = new_name if new_name is not None else blob.name
        self.s.put(bucket.name, name, self.s.get(blob.bucket.name, blob.name))
        self.s.copied.append((blob.name, name))

    def get_blob(self, name, **k):
        b = self.blob(name)
        return b if b.exists() else None


class Gcs:
    def __init__(self, store):
        self.s = store

    def bucket(self, name, **k):
        return Bucket(self.s, name)

    get_bucket = bucket

    def list_blobs(self, bucket, **k):
        return (bucket if isinstance(bucket, Bucket) else Bucket(self.s, bucket)).list_blobs(**k)


@contextlib.contextmanager
def connected(store):
    """The providers' clients talk to the store."""
    g = types.ModuleType("google.cloud.storage")
    g.Client = lambda *a, **k: Gcs(store)
    names = ["google", "google.cloud", "google.cloud.storage"]
    old = {n: sys.modules.get(n) for n in names}
    gc = types.ModuleType("google.cloud")
    gc.storage = g
    go = types.ModuleType("google")
    go.cloud = gc
    s3 = m_fs.S3Client
    avail = m_fs._GOOGLE_STORAGE_AVAILABLE

    class Client:
        def __init__(self, *a, **k):
            self.client = S3(store)

    for n, m in zip(names, (go, gc, g)):
        sys.modules[n] = m
    m_fs.S3Client, m_fs._GOOGLE_STORAGE_AVAILABLE = Client, True
    try:
        yield store
    finally:
        m_fs.S3Client, m_fs._GOOGLE_STORAGE_AVAILABLE = s3, avail
        for n in names:
            if old[n] is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = old[n]
