"""setup_cmd: checks the checker itself (not /repo): the explorer covers a known tree
exactly once, prunes, finds and replays a planted violation; the model's half-float
arithmetic agrees with the machine's."""
import struct
import sys

import explore
import refmodel as R


def tree(ch):
    a = ch.choose('a', [0, 1, 2])
    for i in range(a):
        b = ch.choose('b', 'xyz')
        if b == 'z' and a == 1:
            raise explore.Prune()
    ch.state([t[2] for t in ch.trail])
    ch.step()


def buggy(ch):
    a = [ch.choose('q', [0, 1]) for _ in range(9)]
    ch.check(a != [0, 1, 1, 0, 1, 0, 0, 1, 0], 'found')


def main():
    r = explore.explore(tree, 'tree', 'quick')
    assert (r['executions'], r['pruned'], r['states'], r['complete']) == (1 + 2 + 9, 1, 12, True), r
    r = explore.explore(buggy, 'buggy', 'quick')
    assert len(r['violations']) == 1 and r['executions'] == 512, r
    v = explore.replay(buggy, 'buggy', 'quick', r['violations'][0]['choices'])
    assert v['violation'], v
    for c in range(65536):
        x = struct.unpack('<e', struct.pack('<H', c))[0]
        y = R.half_of_code(c)
        assert x == y or (x != x and y != y)
        if x == x:
            assert R.code_of_half(y) == c
    print('self-test passed')
    return 0


sys.exit(main())
