"""Data fetched from a URL: exactly the bytes served, or an error, whatever the server and the network do."""
import contextlib
import gzip
import io
import json
import os
import socket
import ssl
import struct
import threading

import fastavro
import pandas as pd
import pyarrow as pa
import pyarrow.parquet as pq

import dataprofiler as dp
from dataprofiler.data_readers import data_utils

from .. import core, gen

PROP = "P31"
LEVEL = "exploration"
RULE = ("each case serves one generated document (CSV, JSON, JSON lines, Parquet, Avro, text, binary) from a scripted loopback server or a stand-in object store, with random framing "
        "(declared length, chunks of any size, compression, redirects, slow pieces) or an injected fault (error status, early close, reset, broken chunk, untrusted certificate, declared size over the limit); "
        "distinct = (kind, framing, size class, fault)")
CASES = {"quick": 700, "thorough": 6000}
CASE_TIMEOUT = 60
BUDGET = {"quick": 300, "thorough": 3000}
ASSUMPTIONS = ["the server is a scripted HTTP/1.1 server on the loopback interface; the object store is a stand-in for the cloud client that records its calls"]
REQUIRED = ["chk.url.bytes", "chk.url.kind", "chk.url.table", "chk.url.fault", "chk.url.limit", "chk.url.tls", "chk.s3.object", "chk.s3.bytes", "chk.s3.credentials", "chk.url.profile"]

os.environ["NO_PROXY"] = os.environ["no_proxy"] = "127.0.0.1,localhost"
TLS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tls")


def document(r):
    """(kind, bytes)"""
    kind = r.choice(["csv", "csv", "json", "lines", "parquet", "avro", "text"])
    n = r.choice([4, 9, 40, 300, 1500])
    rows = [{"ident": i, "name": r.choice(gen.WORDS) + r.choice(["", "é", "日"]), "score": r.randint(-99, 999) / 4} for i in range(n)]
    if kind == "csv":
        raw = ("ident,name,score\n" + "".join(f"{x['ident']},{x['name']},{x['score']}\n" for x in rows)).encode()
    elif kind == "json":
        raw = json.dumps(rows).encode()
    elif kind == "lines":
        raw = "\n".join(json.dumps(x) for x in rows).encode()
    elif kind == "parquet":
        b = io.BytesIO()
        pq.write_table(pa.Table.from_pylist(rows), b)
        raw = b.getvalue()
    elif kind == "avro":
        b = io.BytesIO()
        fastavro.writer(b, fastavro.parse_schema({"type": "record", "name": "T", "fields": [{"name": "ident", "type": "long"}, {"name": "name", "type": "string"}, {"name": "score", "type": "double"}]}), rows)
        raw = b.getvalue()
    else:
        raw = "\n".join(" ".join(r.choice(gen.WORDS) for _ in range(r.randint(1, n))) + "." for _ in range(r.randint(1, 3))).encode()
    return kind, raw


WANT = {"csv": "csv", "json": "json", "lines": "json", "parquet": "parquet", "avro": "avro", "text": "text"}


class Server(threading.Thread):
    """answers every request on a connection of its own with what `script(path)` says: a list of byte pieces and 'reset'/'close'"""

    def __init__(self, script, tls=False):
        super().__init__(daemon=True)
        self.script, self.tls = script, tls
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(8)
        self.port = self.sock.getsockname()[1]
        self.paths, self.sent = [], 0
        self.stop = False

    def run(self):
        ctx = None
        if self.tls:
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            ctx.load_cert_chain(os.path.join(TLS, "cert.pem"), os.path.join(TLS, "key.pem"))
        while not self.stop:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            try:
                c.settimeout(20)
                if ctx:
                    c = ctx.wrap_socket(c, server_side=True)
                head = b""
                while b"\r\n\r\n" not in head:
                    x = c.recv(65536)
                    if not x:
                        break
                    head += x
                if not head:
                    continue
                path = head.split(b" ", 2)[1].decode()
                self.paths.append(path)
                for piece in self.script(path):
                    if piece == "reset":
                        c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                        break
                    c.sendall(piece)
                    self.sent += len(piece)
            except OSError:
                pass
            finally:
                with contextlib.suppress(OSError):
                    c.close()

    def __enter__(self):
        self.start()
        return self

    def __exit__(self, *a):
        self.stop = True
        with contextlib.suppress(OSError):
            self.sock.shutdown(socket.SHUT_RDWR)
        self.sock.close()
        self.join(5)

    def url(self, path="/doc"):
        return f"http{'s' if self.tls else ''}://127.0.0.1:{self.port}{path}"


def cuts(r, raw, sizes):
    out, i = [], 0
    while i < len(raw):
        k = r.choice(sizes)
        out.append(raw[i:i + k])
        i += k
    return out


def framed(r, raw, frame=None):
    """(name, head + body pieces) of a good answer"""
    frame = frame or r.choice(["length", "length", "chunked", "chunked", "close", "gzip", "gzip-chunked"])
    body, h = raw, b"HTTP/1.1 200 OK\r\nContent-Type: application/octet-stream\r\nConnection: close\r\n"
    if frame.startswith("gzip"):
        body = gzip.compress(raw)
        h += b"Content-Encoding: gzip\r\n"
    if frame in ("length", "gzip"):
        h += f"Content-{r.choice(['Length', 'length'])}: {len(body)}\r\n".encode()
        pieces = cuts(r, body, r.choice([[1 << 20], [1, 100, 5000], [8192], [8191, 8193]]))
    elif frame == "close":
        pieces = cuts(r, body, [4096, 100000])
    else:
        h += b"Transfer-Encoding: chunked\r\n"
        pieces = [f"{len(c):x}\r\n".encode() + c + b"\r\n" for c in cuts(r, body, r.choice([[1 << 20], [8192], [1, 17, 4000], [8192, 1], [16384, 3]]))] + [b"0\r\n\r\n"]
    return frame, h + b"\r\n", pieces


def size_class(n):
    return len(str(n)), n % 8192 == 0


def good(ctx):
    r = ctx.rng
    kind, raw = document(r)
    if kind == "text" and r.random() < .4:       # exact multiples of the usual buffer sizes
        raw = raw.replace(b"\n", b" ")
        raw = (raw * (1 + 3 * 8192 // len(raw)))[:r.choice([8191, 8192, 8193, 16384, 3 * 8192])]
    frame, head, pieces = framed(r, raw)
    hops = r.choice([0, 0, 0, 1, 2])
    ctx.note(kind=kind, frame=frame, size=len(raw), hops=hops, pieces=len(pieces))

    def script(path):
        k = int(path.rsplit("h", 1)[1])
        if k:
            return [f"HTTP/1.1 {r.choice([301, 302, 307])} Moved\r\nLocation: /d/h{k-1}\r\nContent-Length: 0\r\nConnection: close\r\n\r\n".encode()]
        return [head] + pieces
    with Server(script) as s:
        u = s.url(f"/d/h{hops}")
        got = data_utils.url_to_bytes(u, {})
        ctx.eq(got.tell(), 0, "url.bytes", "the stream is at its start")
        b = got.read()
        ctx.check(b == raw, "url.bytes", f"{frame}: fetched {len(b)} bytes, served {len(raw)}; first difference at {next((i for i, (x, y) in enumerate(zip(b, raw)) if x != y), None)}")
        f = dp.Data(u)
        ctx.eq(f.data_type, WANT[kind], "url.kind")
        m = dp.Data(io.BytesIO(raw))
        a, w = f.data, m.data
        if isinstance(w, pd.DataFrame):
            ctx.check(isinstance(a, pd.DataFrame) and list(a.columns) == list(w.columns) and a.values.tolist() == w.values.tolist(), "url.table", f"{kind} table read from the URL differs from the same bytes in memory")
        else:
            ctx.check(a == w, "url.table", f"{kind} read from the URL differs from the same bytes in memory")
        ctx.eq(f.data_type, m.data_type, "url.kind")
    ctx.seen("good", kind, frame, size_class(len(raw)), hops)


def fault(ctx):
    """an answer that is not the whole document never becomes data"""
    r = ctx.rng
    kind, raw = document(r)
    what = r.choice(["status", "short", "short", "reset", "chunk", "nochunkend", "gzipcut", "refused", "loop"])
    at = r.choice([0, 1, len(raw) // 3, len(raw) // 2, len(raw) - 1])
    H = b"HTTP/1.1 200 OK\r\nConnection: close\r\n"
    code = r.choice([400, 401, 403, 404, 410, 429, 500, 502, 503])
    if what == "status":
        pieces = [f"HTTP/1.1 {code} No\r\nContent-Length: {len(raw)}\r\nConnection: close\r\n\r\n".encode(), raw]
    elif what == "short":
        pieces = [H + f"Content-Length: {len(raw)}\r\n\r\n".encode(), raw[:at]]
    elif what == "reset":
        pieces = [H + f"Content-Length: {len(raw)}\r\n\r\n".encode(), raw[:at], "reset"]
    elif what == "chunk":
        pieces = [H + b"Transfer-Encoding: chunked\r\n\r\n", f"{len(raw):x}\r\n".encode() + raw[:at]]
    elif what == "nochunkend":
        pieces = [H + b"Transfer-Encoding: chunked\r\n\r\n"] + [f"{len(c):x}\r\n".encode() + c + b"\r\n" for c in cuts(r, raw[:max(at, 1)], [100, 8192])]
    elif what == "gzipcut":
        z = gzip.compress(raw)
        pieces = [H + f"Content-Encoding: gzip\r\nContent-Length: {len(z)}\r\n\r\n".encode(), z[:len(z) * 2 // 3]]
    else:
        pieces = [b"HTTP/1.1 302 Moved\r\nLocation: /doc\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"]
    ctx.note(kind=kind, what=what, at=at, size=len(raw), code=code if what == "status" else None)
    ctx.seen("fault", kind, what, at if at < 2 else "mid", code if what == "status" else 0)
    with Server(lambda p: pieces) as s:
        u = s.url()
        if what == "refused":
            with socket.socket() as q:
                q.bind(("127.0.0.1", 0))
                u = f"http://127.0.0.1:{q.getsockname()[1]}/doc"     # bound, not listening
                ctx.raises(lambda: dp.Data(u), Exception, "url.fault", "connection refused")
            return
        f = None
        try:
            f = dp.Data(u)
        except Exception as e:
            ctx.count("refused:" + type(e).__name__)
        ctx.check(f is None, "url.fault", lambda: f"{what} after {at} of {len(raw)} bytes gave a {f.data_type} reader of {len(f.data)} rows")


def limit(ctx):
    """a document declared to be a gigabyte or more is refused before its body is read; smaller ones are taken"""
    r = ctx.rng
    size = r.choice([1024**3, 1024**3 + 1, 2 * 1024**3, 10**12])
    kind, raw = document(r)
    with Server(lambda p: [f"HTTP/1.1 200 OK\r\nContent-Length: {size}\r\nConnection: close\r\n\r\n".encode(), raw]) as s:
        ctx.raises(lambda: dp.Data(s.url()), ValueError, "url.limit", f"declared size {size}")
    ctx.seen("limit", size, kind)
    n = r.choice([1, 500, 3000])                 # many small pieces of a small document are fine
    raw = b"a,b\n" + b"".join(b"%d,%d\n" % (i, i) for i in range(n + 4))
    with Server(lambda p: [b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n", b"".join(b"1\r\n" + raw[i:i + 1] + b"\r\n" for i in range(len(raw))), b"0\r\n\r\n"]) as s:
        b = data_utils.url_to_bytes(s.url(), {}).read()
    ctx.check(b == raw, "url.bytes", f"{len(raw)} one-byte pieces: fetched {len(b)} bytes")


def tiny(ctx):
    """a small document in more than 2**17 pieces is far below a gigabyte"""
    if ctx.index > 80:
        raise core.Skip
    n = 131072 + ctx.rng.choice([1, 50])
    body = b"1\r\nx\r\n" * n
    ctx.seen("tiny", n)
    with Server(lambda p: [b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n", body, b"0\r\n\r\n"]) as s:
        try:
            got, err = data_utils.url_to_bytes(s.url(), {}).read(), None
        except ValueError as e:
            got, err = None, e
    ctx.check(got == b"x" * n, "url.pieces", f"a document of {n} bytes in pieces of one byte: {err!r}")


def big(ctx):
    """a body that grows over the limit without saying so is refused"""
    if ctx.tier != "thorough" or ctx.index > 60:
        raise core.Skip
    one = gzip.compress(b"\0" * (1 << 24))
    with Server(lambda p: [b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nConnection: close\r\n\r\n"] + [one] * 65) as s:
        ctx.raises(lambda: data_utils.url_to_bytes(s.url(), {}), ValueError, "url.limit", "1.02 GiB once unpacked")
    ctx.seen("big")


def tls(ctx):
    r = ctx.rng
    kind, raw = document(r)
    frame, head, pieces = framed(r, raw)
    ctx.seen("tls", kind, frame)
    with Server(lambda p: [head] + pieces, tls=True) as s:
        for o in (None, {}, {"verify_ssl": True}):
            ctx.raises(lambda: dp.Data(s.url(), options=o), RuntimeError, "url.tls", f"untrusted certificate, options {o}")
        ctx.eq(s.paths, [], "url.tls", "nothing is asked of a server that is not trusted")
        o = {"verify_ssl": False}
        f = dp.Data(s.url(), options=o)
        ctx.eq(f.data_type, WANT[kind], "url.tls", "certificate check switched off")
        w = dp.Data(io.BytesIO(raw)).data
        ctx.check(f.data.equals(w) if isinstance(w, pd.DataFrame) else f.data == w, "url.tls", "data read with the certificate check switched off")


class Store:
    def __init__(self, objects, log):
        self.objects, self.log = objects, log

    def get_object(self, Bucket, Key):
        self.log.append((Bucket, Key))
        if (Bucket, Key) not in self.objects:
            raise KeyError("NoSuchKey")
        return {"Body": io.BytesIO(self.objects[(Bucket, Key)])}


KEYS = ["a.csv", "dir/b.json", "x y.csv", "a#1.csv", "q?v=2.csv", "deep/er/ü.txt", "/lead", "a//b", "p%20q", "s3://odd", "t;u,v=w&z", "dir/"]


def s3(ctx):
    r = ctx.rng
    b = r.choice(["bucket", "my-bucket.x", "b1"])
    keys = r.sample(KEYS, 4) + ["a", "q", "p q", "b"]
    objs, docs = {}, {}
    for k in keys:
        docs[k] = document(r)
        objs[(b, k)] = docs[k][1]
    key = r.choice(keys[:4])
    calls, log = [], []
    want = {k: r.choice([None, f"{k}-opt"]) for k in ("aws_access_key_id", "aws_secret_access_key", "aws_session_token", "region_name")}
    env = {"AWS_ACCESS_KEY_ID": "envA", "AWS_SECRET_ACCESS_KEY": "envS", "AWS_SESSION_TOKEN": "envT", "AWS_REGION": "envR"}
    for k in list(env):
        if r.random() < .4:
            env.pop(k)
    so = {k: v for k, v in want.items() if v}
    opts = {"storage_options": so} if so else {}

    def client(service, **kw):
        calls.append((service, kw))
        return Store(objs, log)
    old = {k: os.environ.pop(k, None) for k in ("AWS_ACCESS_KEY_ID", "AWS_SECRET_ACCESS_KEY", "AWS_SESSION_TOKEN", "AWS_REGION")}
    os.environ.update(env)
    import boto3
    real = boto3.client
    boto3.client = client
    try:
        f = dp.Data(f"{r.choice(['s3', 's3a'])}://{b}/{key}", options=opts)
        got = f.data
    finally:
        boto3.client = real
        for k, v in old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    kind, raw = docs[key]
    ctx.note(bucket=b, key=key, opts=so, env=env, kind=kind)
    ctx.seen("s3", key, tuple(sorted(so)), tuple(sorted(env)), kind)
    ctx.eq(log, [(b, key)], "s3.object", "the one object asked for")
    ctx.eq(f.data_type, WANT[kind], "s3.bytes")
    w = dp.Data(io.BytesIO(raw)).data
    ctx.check(got.equals(w) if isinstance(w, pd.DataFrame) else got == w, "s3.bytes", f"{kind} object read differs from the bytes stored")
    E = {"aws_access_key_id": "AWS_ACCESS_KEY_ID", "aws_secret_access_key": "AWS_SECRET_ACCESS_KEY", "aws_session_token": "AWS_SESSION_TOKEN", "region_name": "AWS_REGION"}
    ctx.eq(len(calls), 1, "s3.credentials", "one client")
    service, kw = calls[0]
    ctx.eq(service, "s3", "s3.credentials")
    for k, e in E.items():
        ctx.eq(kw.get(k), want[k] or env.get(e) or ("us-east-1" if k == "region_name" else None), "s3.credentials", f"{k} (options first, then {e})")


def profiled(ctx):
    """the profile of a URL's document is the profile of the same document in memory"""
    from .. import util
    r = ctx.rng
    while True:
        kind, raw = document(r)
        if kind in ("csv", "json", "parquet") and len(raw) < 20000:
            break
    frame, head, pieces = framed(r, raw)
    with Server(lambda p: [head] + pieces) as s:
        f = dp.Data(s.url())
        a = util.rep(util.profile(f))
    b = util.rep(util.profile(dp.Data(io.BytesIO(raw))))
    ctx.seen("profiled", kind, frame)
    ctx.eq(core.deep_diff(a, b), [], "url.profile")


SCENARIOS = [("good", 8, good), ("fault", 8, fault), ("limit", 2, limit), ("tls", 2, tls), ("s3", 4, s3), ("profiled", 1, profiled), ("big", 1, big), ("tiny", 1, tiny)]
