"""Dataset download under every fault script, initial cache content and interruption point."""
import itertools
import os
import pickle
import shutil
import tempfile
import warnings
from pathlib import Path

from mc import net

PID = "F01"
LEVEL = "fault_enumeration"
TECHNIQUE = "stateless model checking of the real downloader under a controlled transport: exhaustive enumeration of fault scripts (grown request by request), initial cache states and interruption/crash points"
CHUNK = {"quick": 6, "thorough": 4}
A_Q = ["conn", "500", "cut", "bad"]
A_ALL = ["conn", "timeout", "500", "404", "206", "cut", "reset", "short", "bad", "empty"]
BOUNDS = {
    "quick": "every script over {refused, status 500, cut body, corrupt body, good} until the call ends, and every script whose first 3 answers are any of 10 faults or good; initial file absent/valid/empty/truncated/extended/flipped/foreign; legacy cache absent/valid/corrupt; cache or user data root; dataset host or foreign host; small and multi-buffer bodies; process death and user interruption at every read of the body of each attempt; after every failure or interruption a recovery call; bodies of 1 byte to 5 MiB damaged (bit flip, cut, missing or appended bytes) at every kind of position, in the cache and on the wire",
    "thorough": "as quick with every script over all 10 faults until the call ends",
}
ASSUME = ["the transport is replaced at requests' adapter; a single process uses the cache", "a call makes up to three attempts (dataset host, then its mirror); one of them may be used up by each corrupt cached copy", "process death keeps what the operating system was given"]
MAXREQ = 12


def cases(tier):
    th = tier == "thorough"
    for init in net.contents(net.BODY_S):
        for where in ("cache", "user"):
            for big in (0, 1):
                yield ["check", init, where, big]
    for f in A_ALL + ["ok"]:
        for init in ("absent", "valid", "flip"):
            yield ["file", f, init]
    # initial contents x short scripts
    for init, leg, where, host in itertools.product(net.contents(net.BODY_S), ("absent", "valid", "flip", "half"), ("cache", "user"), ("main", "foreign")):
        if leg != "absent" and (where == "user" or init not in ("absent", "valid", "flip")):
            continue
        yield ["tree", init, leg, where, host, ["conn", "bad"], [], 0]
    for where, host, first in itertools.product(("cache", "user"), ("main", "foreign"), A_Q):
        yield ["tree", "absent", "absent", where, host, A_Q, [first], 1]
        yield ["tree", "half", "absent", where, host, A_Q, [first], 1]
    for a, b in itertools.product(A_ALL, repeat=2):
        yield ["tree3", "absent", "absent", "user", "main", A_ALL, [a, b], 0]
        if th:
            for c in A_ALL:
                yield ["tree", "absent", "absent", "cache", "main", A_ALL, [a, b, c], 0]
    for a in A_ALL:
        yield ["tree" if th else "tree3", "less", "absent", "cache", "foreign", A_ALL, [a], 0]
    for how in ("die", "interrupt"):
        for big in (0, 1):
            for init in ("absent", "half", "flip"):
                for pre in ([], ["conn"], ["bad"], ["500", "cut"], ["conn", "conn"], ["bad", "bad"]):
                    yield ["crash", how, big, init, pre]
    for size in (1, 2, 1023, 1024, 1025, 4096, 8192, 8193, 65536, 65537, 1 << 20, (1 << 20) + 1, 5 << 20) + ((33 << 20,) if th else ()):
        for where in ("cache", "user"):
            yield ["body", size, where]


class Room:
    def __init__(self, where):
        import dhg._global as g

        self.base = Path(tempfile.mkdtemp(prefix="f01-", dir=os.environ["HOME"]))
        name = self.base.name
        self.made = [self.base]
        if where == "cache":
            self.path = g.CACHE_ROOT / "datasets" / name / "data.bin"
            assert str(self.path).startswith(os.environ["HOME"]), "the cache is not in scratch space"
            self.legacy = Path.home() / ".dhg" / "datasets" / name / "data.bin"
            self.made += [self.path.parent, self.legacy.parent]
        else:
            self.path = self.base / "root" / "set" / "data.bin"
            self.legacy = None

    def close(self):
        for d in self.made:
            shutil.rmtree(d, ignore_errors=True)


def urls(host):
    import dhg._global as g

    if host == "foreign":
        return "https://example.invalid/files/data.bin", None
    return g.REMOTE_DATASETS_ROOT + "set/data.bin", g.BACKUP_REMOTE_DATASETS_ROOT + "set/data.bin"


def call(url, path, good, script, hook=None):
    """-> (kind, detail, urls requested)"""
    from dhg.utils import download_and_check

    srv = net.Server(good, script, hook)
    with net.serving(srv), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r = download_and_check(url, path, net.md5(good))
            return ("returned", r, srv.urls)
        except net.Exhausted:
            return ("more", None, srv.urls)
        except net.Stop:
            return ("stopped", None, srv.urls)
        except Exception as e:
            return ("raised", e, srv.urls)


def run(case, ctx):
    ctx.count(case[0])
    globals()["do_" + case[0]](case, ctx)


def do_check(case, ctx):
    from dhg.utils import check_file

    _, init, where, big = case
    good = (net.BODY_S, net.BODY_L)[big]
    room = Room(where)
    try:
        net.put(room.path, net.contents(good)[init])
        ctx.step()
        ctx.trace()
        ctx.state(str(case))
        try:
            r = check_file(room.path, net.md5(good))
        except FileNotFoundError:
            ctx.check(init == "absent", "check-file", f"{case}: present file reported missing")
            return
        ctx.check(init != "absent" and bool(r) == (init == "valid"), "check-file", f"{case}: check_file returned {r}")
        ctx.outcome((init, bool(r)))
    finally:
        room.close()


def do_body(case, ctx):
    """Bodies of many sizes: damage at every kind of position is noticed, in the cache and on the wire."""
    from dhg.utils import check_file

    _, size, where = case
    unit = bytes((i * 31 + i // 97) % 253 for i in range(4099))
    good = (unit * (size // len(unit) + 1))[:size]
    at = sorted({i for k in (0, 1, 511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 65535, 65536, (1 << 20) - 1, 1 << 20, size // 3, size // 2) for i in (k, size - 1 - k) if 0 <= i < size})
    if size > 1 << 20:
        at = at[:1] + at[len(at) // 2:len(at) // 2 + 2] + at[-3:]
    bad = [("good", good), ("a zero appended", good + b"\0"), ("a newline appended", good + b"\n"), ("twice", good * 2)]
    for i in at:
        bad.append((f"bit flipped at {i}", good[:i] + bytes([good[i] ^ (1 << i % 8)]) + good[i + 1:]))
        bad.append((f"cut after {i}", good[:i]))
        bad.append((f"byte {i} missing", good[:i] + good[i + 1:]))
    url, _ = urls("main")
    room = Room(where)
    try:
        for what, b in bad:
            if b == good and what != "good":
                continue
            net.put(room.path, b)
            ctx.step()
            ctx.check(bool(check_file(room.path, net.md5(good))) == (b == good), "check-file", f"{size} bytes, {what}: accepted {b != good}")
            if b != good:
                # on disk: replaced by a good download; on the wire: not accepted
                ctx.trace()
                kind, val, asked = call(url, room.path, good, ["ok"])
                ctx.check(kind == "returned" and net.get(room.path) == good and len(asked) == 1, "damaged-cache", f"{size} bytes, cached file with {what}: {kind} {val!r}, {len(asked)} requests")
                net.put(room.path, None)
                srv = wire(url, room.path, [b, good], good)
                ctx.check(srv[0] == "returned" and net.get(room.path) == good and srv[2] == 2, "damaged-body", f"{size} bytes, body with {what}: {srv[0]} {srv[1]!r}, {srv[2]} requests")
                ctx.step(2)
            else:
                kind, val, asked = call(url, room.path, good, [])
                ctx.check(kind == "returned" and not asked, "cached-not-used", f"{size} bytes: {kind} {val!r}, requested {asked}")
            ctx.state((size, where, what))
        ctx.outcome((size, where))
    finally:
        room.close()


class Bodies:
    """A server sending the given bodies one after another."""

    def __init__(self, bodies):
        self.bodies, self.n = bodies, 0

    def answer(self, adapter, request):
        if self.n >= len(self.bodies):
            raise net.Exhausted()
        self.n += 1
        return net.Server(self.bodies[self.n - 1], ["ok"]).answer(adapter, request)


def wire(url, path, bodies, good):
    from dhg.utils import download_and_check

    srv = Bodies(bodies)
    with net.serving(srv), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return ("returned", download_and_check(url, path, net.md5(good)), srv.n)
        except net.Exhausted:
            return ("more", None, srv.n)
        except Exception as e:
            return ("raised", e, srv.n)


def do_file(case, ctx):
    from dhg.utils import download_file

    _, f, init = case
    room = Room("user")
    try:
        net.put(room.path, net.contents(net.BODY_L)[init])
        with net.serving(net.Server(net.BODY_L, [f])):
            ctx.step()
            ctx.trace()
            try:
                download_file(urls("main")[0], room.path)
                ok = True
            except Exception:
                ok = False
        left = net.get(room.path)
        sent = {"short": net.BODY_L[:len(net.BODY_L) * 2 // 3], "bad": net.BODY_L[:-1] + bytes([net.BODY_L[-1] ^ 1]), "empty": b""}.get(f, net.BODY_L)
        ctx.check(ok == (f not in net.TRANSPORT), "download-file", f"{case}: {'completed' if ok else 'raised'}")
        ctx.check(left == sent if ok else left in (None, net.BODY_L, net.contents(net.BODY_L)[init]), "download-file-content", f"{case}: {'completed' if ok else 'failed'} leaving {None if left is None else len(left)} bytes")
        ctx.state(str(case))
    finally:
        room.close()


def do_tree3(case, ctx):
    do_tree(case, ctx, full=3)


def do_tree(case, ctx, full=99):
    _, init, leg, where, host, alpha, prefix, big = case
    good = (net.BODY_S, net.BODY_L)[big]
    url, mirror = urls(host)
    room = Room(where)
    cont = net.contents(good)
    work = [list(prefix)]
    try:
        while work:
            script = work.pop()
            for d in room.made[1:]:
                shutil.rmtree(d, ignore_errors=True)
            net.put(room.path, cont[init])
            if room.legacy:
                net.put(room.legacy, cont[leg])
            before = os.stat(room.path) if init != "absent" else None
            kind, val, asked = call(url, room.path, good, script)
            ctx.step()
            where_ = f"initially {init}, legacy {leg}, {where} root, {host} host, answers {script}"
            if kind == "more":
                ctx.check(len(script) < MAXREQ, "unbounded", f"{where_}: still asking after {MAXREQ} faulty answers")
                nxt = alpha if len(script) < full else ["conn", "bad"]
                work += [script + [f] for f in ["ok"] + nxt]
                continue
            if len(asked) < len(script):
                script = script[:len(asked)]  # the prefix of the partition was not needed entirely
            ctx.trace()
            left = net.get(room.path)
            state = "absent" if left is None else "valid" if left == good else f"corrupt ({len(left)} bytes)"
            desc = f"{where_}: {kind} {val!r}, requested {asked}, file is {state}"
            judge(ctx, kind, val, asked, script, init, leg if room.legacy else "absent", url, mirror, state, desc)
            if init == "valid":
                st = os.stat(room.path)
                ctx.check((st.st_mtime_ns, st.st_ino, st.st_size) == (before.st_mtime_ns, before.st_ino, before.st_size), "rewritten", desc + ": the valid cached file was rewritten")
                if room.legacy:
                    ctx.check(net.get(room.legacy) == cont[leg], "legacy-touched", desc + ": the legacy file changed")
            ctx.state((init, leg, where, host, tuple(script), kind, state))
            ctx.outcome((kind, state, len(asked)))
            if kind == "raised":
                recover(ctx, url, room.path, good, desc)
    finally:
        room.close()


def judge(ctx, kind, val, asked, script, init, leg, url, mirror, state, desc):
    ctx.check(kind in ("returned", "raised"), "outcome", desc)
    if init == "valid" or (init == "absent" and leg == "valid"):
        ctx.check(kind == "returned" and val is not False and not asked and state == "valid", "cached-not-used", desc)
        return
    if kind == "returned":
        ctx.check(state == "valid", "accepted-corrupt", desc)
        ctx.check(leg == "valid" or (script and script[-1] == "ok"), "success-without-good-answer", desc)
    else:
        ctx.check(state in ("absent", "valid"), "left-corrupt", desc)
        ctx.check("ok" not in script, "failed-after-good-answer", desc)
        need = 3 - (init != "absent") - (leg != "absent")
        ctx.check(sum(u == url for u in asked) >= need, "gave-up-early", desc + f": the host was asked {sum(u == url for u in asked)} times")
    ctx.check("ok" not in script[:-1], "asked-again", desc + ": requested again after a good answer")
    for u in asked:
        ctx.check(u in (url, mirror), "url", desc)
    if asked:
        ctx.check(asked[0] == url, "url-order", desc)
    if mirror:
        for i, (u, f) in enumerate(zip(asked, script)):
            if u == url and f in net.TRANSPORT:
                ctx.check(i + 1 < len(asked) and asked[i + 1] == mirror, "no-fallback", desc + f": request {i} failed ({f}) and the mirror was not asked next")


def recover(ctx, url, path, good, desc):
    """Whatever is on disk now, a later call succeeds as soon as the network does, and never accepts garbage."""
    disk = net.get(path)
    for script in (["ok"], ["conn", "conn", "bad", "ok"]):
        net.put(path, disk)
        want_ok = ["ok"] if disk is None else script[-1:]
        kind, val, asked = call(url, path, good, script if script == ["ok"] else script)
        ctx.step()
        if kind == "more" or (kind == "raised" and script != ["ok"]):
            ctx.check(script != ["ok"], "no-recovery", f"{desc}; later call with a working network: {kind} {val!r}")
            ctx.check(net.get(path) in (None, good), "left-corrupt", f"{desc}; later call left a corrupt file")
            continue
        ctx.check(kind == "returned" and net.get(path) == good, "no-recovery", f"{desc}; later call with answers {script}: {kind} {val!r}")
    net.put(path, disk)


def do_crash(case, ctx):
    _, how, big, init, pre = case
    good = (net.BODY_S, net.BODY_L)[big]
    url, _ = urls("main")
    room = Room("user")
    cont = net.contents(good)
    try:
        reads = len(good) // 1024 + 2
        for at in [-1] + list(range(reads + 1)):
            net.put(room.path, cont[init])

            def hook(i):
                if i == at:
                    if how == "die":
                        os._exit(9)
                    raise net.Stop()

            script = list(pre) + ["ok"]
            if at == -1:
                script = list(pre)  # dies before the next request is sent
            if how == "die":
                pid = os.fork()
                if pid == 0:
                    try:
                        call(url, room.path, good, script, hook)
                    finally:
                        os._exit(0)
                os.waitpid(pid, 0)
            else:
                call(url, room.path, good, script, hook)
            ctx.step()
            ctx.trace()
            left = net.get(room.path)
            ctx.state((how, big, init, tuple(pre), None if left is None else len(left), left == good))
            ctx.outcome((how, None if left is None else len(left)))
            desc = f"initially {init}, answers {script}, {how} at read {at} leaving {None if left is None else len(left)} bytes"
            recover(ctx, url, room.path, good, desc)
            kind, val, asked = call(url, room.path, good, ["conn"] * 8)
            ctx.check(kind != "returned" or left == good, "accepted-corrupt", f"{desc}; later call without network: {kind} {val!r}")
            ctx.check(net.get(room.path) in (None, good), "left-corrupt", f"{desc}; later call without network left a corrupt file")
    finally:
        room.close()
