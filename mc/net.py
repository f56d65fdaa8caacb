"""Scripted HTTP transport: every request answers with the next fault of a script (no network involved)."""
import contextlib
import hashlib
import io
import os

import requests
import urllib3

BODY_S = bytes((i * 7 + 13) % 251 for i in range(1500))
BODY_L = bytes((i * 31 + i // 97) % 253 for i in range(40000))
TRANSPORT = ("conn", "timeout", "500", "404", "cut", "reset", "206")  # the failure is visible in the exchange
CORRUPT = ("short", "bad", "empty")  # looks like a success


def md5(b):
    return hashlib.md5(b).hexdigest()


class Exhausted(BaseException):
    """More requests than the script answers."""


class Stop(BaseException):
    """Interruption (as by the user) at a chosen point."""


class Body(io.RawIOBase):
    """A readable stream delivering data in pieces, optionally failing after `fail_at` pieces."""

    def __init__(self, data, fail=None, fail_at=None, hook=None):
        self.data, self.pos, self.n, self.fail, self.fail_at, self.hook = data, 0, 0, fail, fail_at, hook

    def readable(self):
        return True

    def read(self, n=-1):
        if self.hook:
            self.hook(self.n)
        if self.fail is not None and self.n >= self.fail_at:
            raise self.fail
        self.n += 1
        n = 1024 if n is None or n < 0 else min(n, 1024)
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


class Server:
    def __init__(self, good, script, hook=None):
        self.good, self.script, self.urls, self.hook = good, list(script), [], hook

    def answer(self, adapter, request):
        i = len(self.urls)
        if i >= len(self.script):
            raise Exhausted()
        self.urls.append(request.url)
        f, good = self.script[i], self.good
        if f == "conn":
            raise requests.ConnectionError("scripted: connection refused", request=request)
        if f == "timeout":
            raise requests.ReadTimeout("scripted: timeout", request=request)
        status, body, headers = 200, Body(good, hook=self.hook), {"Content-Length": str(len(good))}
        if f in ("500", "404"):
            page = b"<html>error</html>"
            status, body, headers = int(f), Body(page), {"Content-Length": str(len(page))}
        elif f == "206":
            status, body, headers = 206, Body(good[:len(good) // 2]), {"Content-Length": str(len(good) // 2)}
        elif f == "cut":
            body = Body(good[:len(good) * 2 // 3])
        elif f == "reset":
            body = Body(good, urllib3.exceptions.ProtocolError("scripted: connection reset", ConnectionResetError(104, "reset")), 1)
        elif f == "short":
            body, headers = Body(good[:len(good) * 2 // 3]), {}
        elif f == "bad":
            body = Body(good[:-1] + bytes([good[-1] ^ 1]))
        elif f == "empty":
            body, headers = Body(b""), {"Content-Length": "0"}
        raw = urllib3.HTTPResponse(body=body, headers=headers, status=status, preload_content=False, request_method="GET")
        return adapter.build_response(request, raw)


@contextlib.contextmanager
def serving(server):
    old = requests.adapters.HTTPAdapter.send

    def send(self, request, *a, **k):
        return server.answer(self, request)

    requests.adapters.HTTPAdapter.send = send
    try:
        yield server
    finally:
        requests.adapters.HTTPAdapter.send = old


def contents(good):
    """Initial contents of a cached file."""
    return {
        "absent": None, "valid": good, "empty": b"", "half": good[:len(good) // 2], "one": good[:1], "less": good[:-1],
        "flip": good[:-1] + bytes([good[-1] ^ 1]), "more": good + b"\0", "other": b"<html>not found</html>",
    }


def put(path, data):
    if data is None:
        if path.exists():
            path.unlink()
        return
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_bytes(data)
    os.utime(path, ns=(1_000_000_000, 1_000_000_000))


def get(path):
    return path.read_bytes() if path.exists() else None
