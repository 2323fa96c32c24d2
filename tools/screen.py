#!/usr/bin/env python3
"""screen.py STRIDE: every STRIDE-th case of every check against PSC_REPO, stopping at the first mismatch (for mutate.py --screen; no check uses it)"""
import importlib
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + '/checks', HERE + '/props', HERE + '/ref', HERE + '/harness']
import engine  # noqa: E402
import client  # noqa: E402
import build  # noqa: E402
PROPS = ['C%02d' % k for k in (3, 5, 4, 9, 7, 6, 8, 19, 2, 17, 16, 13, 14, 15, 10, 11, 18, 12, 20, 1)]


def work(k, n, stride, exe, stop, q):
    srv = client.Server(exe)
    try:
        for p in PROPS:
            mod = importlib.import_module(p.lower())
            ctx = engine.Ctx(srv, time.time() + 900)
            ctx.tier, ctx.prop = 'quick', p
            for i, case in enumerate(mod.cases('quick')):
                if (i * 2654435761 >> 13) % (n * stride) != k:
                    continue
                if stop.is_set():
                    return
                for again in (1, 6):
                    ctx.long, ctx.log = again, []
                    try:
                        case[0](ctx, *case[1:])
                        break
                    except engine.Mismatch as e:
                        if again == 6:
                            stop.set()
                            q.put((p, i, e.what[:300]))
                            return
    except BaseException as e:
        stop.set()
        q.put((p, -1, repr(e)[:300]))
    finally:
        srv.close()
        q.put(None)


if __name__ == '__main__':
    exe = build.build('plain')
    n = int(os.environ.get('VERIF_JOBS') or 8)
    stop, q = mp.Event(), mp.Queue()
    ws = [mp.Process(target=work, args=(k, n, int(sys.argv[1]), exe, stop, q)) for k in range(n)]
    t0 = time.time()
    for w in ws:
        w.start()
    left, found = n, None
    while left:
        x = q.get()
        if x is None:
            left -= 1
        else:
            found = found or x
    for w in ws:
        w.join()
    print('%s %.0f s' % (found, time.time() - t0))
    sys.exit(1 if found else 0)
