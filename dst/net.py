"""Simulated HTTP: requests' transport adapter answered by an in-memory server."""
import io

from . import core
from .core import SimKilled, cur


class Resource:
    def __init__(self, data, etag):
        self.data, self.etag = data, etag


class Server:
    """Documents by URL. ``opts``: ranges (True, False or "ignored": announced, not obeyed), length
    ("length": announced, "chunked" or "close": not announced), latency, chunk, chunk_latency, etag."""

    def __init__(self, sim, opts=None):
        self.sim = sim
        self.docs = {}
        self.history = {}      # url -> list of (step, data)
        self.requests = []     # [step, time, thread, method, url, outcome, version]
        self.opts = dict(ranges=True, length="length", latency=0.02, chunk_latency=0.01,
                         etag=True)
        self.opts.update(opts or {})
        self.down = False
        self.seq = 0
        self.script = []       # forced outcomes: list of dicts consumed by matching requests

    def put(self, url, data):
        self.seq += 1
        self.docs[url] = Resource(data, '"e%d"' % self.seq)
        self.history.setdefault(url, []).append((self.sim.step, data))

    def remove(self, url):
        self.docs.pop(url, None)


def garbled(url, data, frac):
    """``data`` with one byte changed such that its checksums tell; None when there is no such byte."""
    r = _garbled(url, data, frac)
    return None if r is None or _intact(url, r) else r


def _intact(url, data):
    """The change can be in bits which are not used, at the end of a compressed part."""
    import gzip
    import zipfile
    try:
        if url.endswith(".gz"):
            gzip.decompress(data)
            return True
        with zipfile.ZipFile(io.BytesIO(data)) as f:
            return f.testzip() is None
    except Exception:
        return False


def _garbled(url, data, frac):
    if url.endswith(".npz"):
        import zipfile
        spans = []
        with zipfile.ZipFile(io.BytesIO(data)) as f:
            for i in f.infolist():
                n, m = data[i.header_offset + 26:i.header_offset + 28], data[i.header_offset + 28:i.header_offset + 30]
                a = i.header_offset + 30 + int.from_bytes(n, "little") + int.from_bytes(m, "little")
                spans.append((a, a + i.compress_size))
        n = int(sum(b - a for a, b in spans) * min(frac, 0.999))
        for a, b in spans:
            if n < b - a:
                n += a
                break
            n -= b - a
        else:
            return None
    elif url.endswith(".gz"):
        n = 10 + int((len(data) - 10) * min(frac, 0.999))
    else:
        return None
    return data[:n] + bytes([data[n] ^ 0x10]) + data[n + 1:]


def _menu(rng):
    x = rng.random()
    if x < 0.30:
        return {"k": "net", "e": rng.choice(["refused", "reset", "500", "502", "503", "504", "429"])}
    if x < 0.42:
        return {"k": "net", "e": "conn-timeout"}
    if x < 0.54:
        return {"k": "net", "e": "read-timeout"}
    if x < 0.75:
        return {"k": "net", "e": "truncate", "frac": round(rng.random(), 2)}
    if x < 0.80:
        return {"k": "net", "e": "garble", "frac": round(rng.random(), 2)}
    if x < 0.92:
        return {"k": "net", "e": "stall", "frac": round(rng.random(), 2)}
    if x < 0.96:
        return {"k": "kill", "when": "before"}
    return {"k": "kill", "when": "after"}


class _Body(io.RawIOBase):
    """Response body: data arrives in pieces of simulated time; may break off or stall."""

    def __init__(self, sim, data, fault, timeout, chunk, lat):
        self.sim, self.data, self.fault = sim, data, fault
        self.pos = 0
        self.timeout = timeout
        self.chunk = chunk
        self.lat = lat
        self.cut = None
        self.length_known = "length"
        if fault is not None and fault.get("e") in ("truncate", "stall", "reset-body"):
            self.cut = int(len(data) * fault.get("frac", 0.5))

    def readable(self):
        return True

    def read(self, n=-1):
        import urllib3
        t = cur()
        if t is None:
            return b""
        if t.unwinding:
            raise SimKilled()
        sim = self.sim
        end = len(self.data)
        if n is None or n < 0:
            n = end - self.pos
        if self.pos < end or self.cut is not None:
            sim.sleep(self.lat)
        else:
            sim.yield_(t)
        m = min(n, self.chunk, end - self.pos)
        if self.cut is not None and self.pos + m >= self.cut:
            m = max(0, self.cut - self.pos)
            if m == 0:
                e = self.fault["e"]
                if e == "stall":
                    if self.timeout is None:
                        sim.event("net-stall-forever")
                        sim.block("net-stall-forever")
                    sim.sleep(self.timeout)
                    raise TimeoutError("timed out")
                if self.fault.get("reset"):
                    raise ConnectionResetError(104, "Connection reset by peer")
                if self.length_known == "close":
                    sim.probe("truncated-silently")
                    return b""
                if self.length_known == "chunked":
                    # broken chunked encoding
                    import http.client
                    raise http.client.IncompleteRead(b"")
                return b""
        r = self.data[self.pos:self.pos + m]
        self.pos += m
        return r

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


def install():
    import requests
    import urllib3
    from requests.adapters import HTTPAdapter
    from requests.structures import CaseInsensitiveDict

    orig = HTTPAdapter.send

    def send(self, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        t = cur()
        if t is None:
            raise requests.exceptions.ConnectionError("no network outside the simulation")
        if t.unwinding:
            raise SimKilled()
        sim = t.sim
        srv = sim.server
        sim.yield_(t)
        ct = rt = timeout
        if isinstance(timeout, tuple):
            ct, rt = timeout
        url, method = request.url, request.method
        rec = [sim.step, sim.now(), t.name, method, url, None, None]
        if srv is None:
            raise core.HarnessError("no server in this scenario: " + url)
        srv.requests.append(rec)
        if t.op is not None:
            t.op.requests.append(rec)
        sim.event("http", method, url.rsplit("/", 1)[-1][-24:])
        p = None
        for i, s in enumerate(srv.script):
            if s.get("method", method) == method and s.get("match", "") in url:
                p = dict(s, k="net")
                s["n"] = s.get("n", 1) - 1
                if s["n"] <= 0:
                    srv.script.pop(i)
                sim.event("scripted", p["e"])
                sim.fault_steps.append((sim.step, "script", "net"))
                sim.count_fault("net:" + p["e"])
                break
        if p is None and srv.down:
            p = {"k": "net", "e": "refused"}
        if p is None:
            p = sim.faults.decide(t, "net", _menu, url) if t.session is not None else None
            if p is not None and p["k"] == "net":
                sim.count_fault("net:" + p["e"])
        kill_after = False
        e = p.get("e") if p else None
        if p is not None and p["k"] == "kill":
            if p["when"] == "before":
                from .seams import _kill
                _kill(t, "net")
            kill_after = True
            e = None
        lat = srv.opts["latency"]
        if e == "refused":
            sim.sleep(lat)
            rec[5] = "refused"
            raise requests.exceptions.ConnectionError("Connection refused")
        if e == "conn-timeout":
            if ct is None:
                sim.block("net-stall-forever")
            sim.sleep(ct)
            rec[5] = e
            raise requests.exceptions.ConnectTimeout("connect timed out")
        if e == "read-timeout":
            if rt is None:
                sim.block("net-stall-forever")
            sim.sleep(rt)
            rec[5] = e
            raise requests.exceptions.ReadTimeout("read timed out")
        if e == "reset":
            sim.sleep(lat)
            rec[5] = e
            raise requests.exceptions.ConnectionError("Connection aborted", ConnectionResetError(104))
        sim.sleep(lat)
        headers = CaseInsensitiveDict()
        doc = srv.docs.get(url)
        rec[6] = len(srv.history.get(url, ()))      # the version answered with
        status, body = 200, b""
        fault = None
        if e in ("500", "502", "503", "504", "429"):
            status, body = int(e), b"server trouble"
        elif doc is None:
            status, body = 404, b"not found"
        else:
            body = doc.data
            if e == "garble":
                body = garbled(url, body, p["frac"]) or body
            if srv.opts["ranges"]:
                headers["Accept-Ranges"] = "bytes"
            if srv.opts["etag"]:
                headers["ETag"] = doc.etag
            rng = request.headers.get("range")
            if rng and srv.opts["ranges"] is True and method == "GET":
                spec = rng.split("=", 1)[1]
                a, _, b = spec.partition("-")
                a = int(a)
                b = int(b) if b else len(body) - 1
                sim.probe("range-request")
                if a >= len(body):
                    status, body = 416, b"range not satisfiable"
                else:
                    headers["Content-Range"] = f"bytes {a}-{b}/{len(body)}"
                    body = body[a:b + 1]
                    status = 206
            if e in ("truncate", "stall"):
                fault = p
        rec[5] = status
        if srv.opts["length"] == "length" or status >= 400:
            headers["Content-Length"] = str(len(body))
        headers["Content-Type"] = "application/octet-stream"
        if method == "HEAD":
            data = b""
            fault = None
        else:
            data = body
        body_io = _Body(sim, data, fault, rt, srv.opts.get("chunk", 700), srv.opts["chunk_latency"])
        body_io.length_known = "length" if "Content-Length" in headers else srv.opts["length"]
        raw = urllib3.HTTPResponse(
            body=body_io,
            headers=urllib3.HTTPHeaderDict(headers), status=status, reason=str(status),
            preload_content=False, request_method=method, decode_content=False)
        if kill_after:
            from .seams import _kill
            _kill(t, "net-after")
        return self.build_response(request, raw)

    HTTPAdapter.send = send

    # requests.head/get create a Session per call and read proxies from the environment
    import requests.sessions
    requests.sessions.get_environ_proxies = lambda *a, **k: {}
    requests.sessions.get_netrc_auth = lambda *a, **k: None

    def no_socket(*a, **k):
        raise core.HarnessError("real network use in the simulation")
    import socket
    real_connect = socket.create_connection

    def guard(*a, **k):
        if cur() is not None:
            return no_socket()
        return real_connect(*a, **k)
    socket.create_connection = guard
