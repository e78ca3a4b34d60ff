"""Checks that the explorer itself is exhaustive, on spaces of known size"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from mc.core import ScriptedRandom, Stats, check, explore, split  # noqa: E402


def seqs(ctx):
    ctx.outcome([ctx.choose(3) for _ in range(4)])


def shuffled(ctx):
    l = list(range(4))
    ScriptedRandom(ctx.ch).shuffle(l)
    ctx.outcome(l)


def ordered(ctx):
    r = ScriptedRandom(ctx.ch, None)
    ctx.outcome(sorted(range(3), key=lambda _: r.random()))


def bad(ctx):
    check([ctx.choose(2) for _ in range(5)] != [1, 0, 1, 1, 0], "found")


def main():
    for (f, n, m) in ((seqs, 81, 81), (shuffled, 24, 24), (ordered, 6, 6)):
        s = Stats()
        assert explore(f, {}, s) is None
        assert (s.executions, len(s.outcomes)) == (n, m), (f, s.executions, len(s.outcomes))
        parts = Stats()
        for r in split(f, {}, 2):
            assert explore(f, {}, parts, root=r) is None
        assert (parts.executions, len(parts.outcomes)) == (n, m), (f, parts.executions)
    ce = explore(bad, {}, Stats())
    assert ce and [c for (_, c) in ce["choices"]] == [1, 0, 1, 1, 0], ce
    print("the explorer works")


if __name__ == "__main__":
    main()
