"""Mirroring the standard output to files: every sequence of prints, flushes, redirections and directory changes."""
import io
import itertools
import logging
import os
import shutil
import sys
import tempfile
from pathlib import Path

PID = "L01"
LEVEL = "model_checking"
CHUNK = {"quick": 300, "thorough": 2000}
BOUNDS = {
    "quick": "every sequence of <=4 steps over {print, print without newline, raw writes of several lines, blanks, a carriage return and a long line, flush, redirect to a new file, to another file given as Path, to a file with earlier contents, to a path relative to the current directory, to a missing directory, change of directory}, terminal and every file compared after each step; the log formatter over all levels, messages and times of a grid",
    "thorough": "as quick with <=5 steps",
}
ASSUME = ["one process; nobody else writes the files; a file is redirected to once (what a second time should do is not documented); redirections to several files all stay in force"]
OPS = ["print", "part", "write", "flush", "new", "path", "old", "rel", "missing", "cd"]


def cases(tier):
    n = 5 if tier == "thorough" else 4
    for k in range(1, n + 1):
        for h in itertools.product(range(len(OPS)), repeat=k):
            yield ["seq", list(h)]
    yield ["fmt"]


class Term(io.StringIO):
    def __init__(self):
        super().__init__()
        self.flushes = 0

    def flush(self):
        self.flushes += 1


def run(case, ctx):
    if case[0] == "fmt":
        return fmt(ctx)
    from dhg.utils import simple_stdout2file

    root = Path(tempfile.mkdtemp(prefix="l01-", dir=os.environ["HOME"]))
    saved, cwd = sys.stdout, os.getcwd()
    term = Term()
    opened = []
    try:
        (root / "a").mkdir(), (root / "b").mkdir()
        (root / "old.txt").write_text("earlier\n")
        os.chdir(root / "a")
        sys.stdout = term
        here = root / "a"
        shown, files = "", {root / "old.txt": "earlier\n"}
        active = []
        for i, k in enumerate(case[1]):
            op = OPS[k]
            text = None
            where = [OPS[j] for j in case[1][: i + 1]]
            if op == "print":
                text = f"line {i}\n"
                print("line", i)
            elif op == "part":
                text = f"{i};"
                print(i, end=";")
            elif op == "write":
                text = f"\u00e9{i}\n\n  x" + " \n\t\n" + "\r" + "a--b\n" + "z" * 3000
                sys.stdout.write(text[: -3010])
                sys.stdout.write(" \n\t\n")
                sys.stdout.write("")
                sys.stdout.write("\r")
                print("a", "b", sep="--")
                sys.stdout.write("z" * 3000)
            elif op == "flush":
                sys.stdout.flush()
            elif op == "cd":
                here = root / "b" if here == root / "a" else root / "a"
                os.chdir(here)
            elif op == "missing":
                was = sys.stdout
                try:
                    simple_stdout2file(str(root / "nowhere" / "x.txt"))
                    ctx.fail("missing-directory", f"{where}: a file in a missing directory was accepted")
                except (AssertionError, OSError):
                    pass
                ctx.check(sys.stdout is was and not (root / "nowhere").exists(), "missing-directory", f"{where}: the failed redirection had an effect")
            else:
                arg, p = {"new": (str(root / "new.txt"), root / "new.txt"), "path": (root / "b" / "p.txt", root / "b" / "p.txt"), "old": (str(root / "old.txt"), root / "old.txt"), "rel": ("r.txt", here / "r.txt")}[op]
                if p in active:
                    continue
                simple_stdout2file(arg)
                opened.append(sys.stdout)
                files.setdefault(p, "")
                active.append(p)
            if text is not None:
                shown += text
                for p in active:
                    files[p] += text
            ctx.step()
            ctx.check(term.getvalue() == shown, "terminal", lambda: f"{where}: the terminal shows {term.getvalue()!r}, printed {shown!r}")
            for p, want in files.items():
                got = p.read_bytes().decode("utf-8")
                ctx.check(got == want, "file", lambda: f"{where}: {p.name} holds {got!r}, should hold {want!r}")
            have = {q for q in root.rglob("*") if q.is_file()}
            ctx.check(have == set(files), "extra-files", lambda: f"{where}: files {sorted(map(str, have))}")
            ctx.state((shown, tuple(sorted((p.name, t) for p, t in files.items())), here.name))
        ctx.trace()
        ctx.outcome((shown, len(files)))
    finally:
        sys.stdout = saved
        os.chdir(cwd)
        for o in opened:
            for v in list(vars(o).values()):
                if isinstance(v, io.TextIOWrapper) and v not in (saved, sys.__stdout__):
                    v.close()
        shutil.rmtree(root, ignore_errors=True)


def fmt(ctx):
    import datetime

    from dhg.utils import default_log_formatter

    f = default_log_formatter()
    for level, (msg, args), t in itertools.product((logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL), (("plain", ()), ("%s has %d", ("x", 3)), ("100%", ()), ("", ())), (0.0, 1.7e9, 1.75e9 + 0.25)):
        r = logging.LogRecord("dhg", level, __file__, 1, msg, args, None)
        r.created = t
        out = f.format(r)
        ctx.step()
        ctx.check(logging.getLevelName(level) in out, "level", f"{out!r} lacks its level")
        ctx.check(out.endswith(msg % args if args else msg), "message", f"{out!r} for {msg!r} {args}")
        ctx.check(datetime.datetime.fromtimestamp(t).strftime("%Y-%m-%d %H:%M:%S") in out, "time", f"{out!r} lacks the time")
        ctx.check("\n" not in out, "one-line", repr(out))
        ctx.state((level, msg, t))
    ctx.trace()
    ctx.outcome("fmt")
