"""Shared case spaces for the "views follow the history" properties (S02, S03, S04, S06).

  warm      every sequence of edits up to a depth, every view read after every edit
  probe     base history, read ONE view, one (or two) edits, then read everything: every (base, view, edit) triple.
            This is the space in which a stale cache entry shows: view read, edit, view (or a dependent view) read
  order     base history, read view P then Q first, then all: every ordered pair of views
  sweep     every small structure over a weight alphabet (built by one bulk addition), all views cold
"""
from . import hist


def warm(inits, alphabet, depth):
    for init in inits:
        for ops in hist.trie(alphabet, depth):
            yield [init, list(ops), "warm"]


def probe(init, bases, alphabet, mode="cold"):
    for base in bases:
        names = hist.probes(init, base)
        for op in alphabet:
            for n in names:
                yield [init, list(base) + [["read", n], op], mode]


def probe2(init, bases, alphabet, alphabet2):
    """read, edit, read another view, edit"""
    for base in bases:
        names = hist.probes(init, base)
        for op in alphabet:
            for op2 in alphabet2:
                for n in names:
                    yield [init, list(base) + [["read", n], op, op2], "cold"]
                    yield [init, list(base) + [op, ["read", n], op2], "coldrev"]


def order(init, bases):
    for base in bases:
        names = hist.probes(init, base)
        for p in names:
            for q in names:
                if p != q:
                    yield [init, list(base) + [["read", p], ["read", q]], "cold"]


def run(case, ctx):
    hist.run_history(case[0], case[1], case[2], ctx, store_only=len(case) > 3)


def shrink(case):
    yield from hist.shrink_history(case, 1)
