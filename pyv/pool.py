"""Proves obligations in parallel. A solver call that does not respect its time limit is ended and the obligation is
tried again in a fresh process without that configuration."""
import multiprocessing as mp
import multiprocessing.connection
import time
import traceback
from . import solver

GRACE = 25


def _worker(conn, todo, plan, sem, beat, held, skip, retry, budget):
    def on_call(what, secs):
        beat.value = time.time() + secs + GRACE
        held.value = (0 if what is None else what + 2) * 2 + held.value % 2
    solver.BEAT = on_call
    while True:
        i = conn.recv()
        if i is None:
            return
        beat.value = 0.0
        sem.acquire()
        held.value = 1
        try:
            if time.time() > budget:
                ans = (False, 'not attempted: out of time', '', 0.0, '')
            else:
                solver.SKIP = set(skip.get(i, ()))
                o = todo[i]
                on_call(None, 120)
                r = solver.prove(o.hyps, o.goal, plan)
                if not r.ok and r.status != 'sat' and retry and time.time() < budget:
                    r = solver.prove(o.hyps, o.goal, retry)
                ans = (r.ok, r.status, r.backend, r.secs, '' if r.ok else r.detail[:6000])
        except BaseException as e:
            ans = (False, 'error %s' % type(e).__name__, '', 0.0, traceback.format_exc()[-2000:])
        held.value = 0
        sem.release()
        beat.value = 0.0
        conn.send((i, ans))


def prove_all(todo, plan, retry, n, sem, budget):
    """[(ok, status, backend, seconds, detail)] in the order of todo"""
    ctx = mp.get_context('fork')
    res, skip, tries = {}, {}, {}
    queue = list(range(len(todo)))
    workers = []

    def spawn():
        a, b = ctx.Pipe()
        beat, held = ctx.Value('d', 0.0, lock=False), ctx.Value('i', 0, lock=False)
        p = ctx.Process(target=_worker, args=(b, todo, plan, sem, beat, held, skip, retry, budget))
        p.start()
        b.close()
        w = {'p': p, 'c': a, 'beat': beat, 'held': held, 'i': None}
        workers.append(w)
        return w

    def give(w):
        if queue:
            w['i'] = queue.pop(0)
            w['c'].send(w['i'])
        else:
            w['i'] = None
            w['c'].send(None)
    for _ in range(min(n, len(todo))):
        give(spawn())
    while len(res) < len(todo):
        busy = [w for w in workers if w['i'] is not None]
        ready = mp.connection.wait([w['c'] for w in busy], timeout=2)
        for w in busy:
            dead = False
            if w['c'] in ready:
                try:
                    i, ans = w['c'].recv()
                    res[i] = ans
                    give(w)
                    continue
                except EOFError:
                    dead = True
            elif w['beat'].value and time.time() > w['beat'].value or time.time() > budget + 60:
                dead = True
            if dead:
                i, h = w['i'], w['held'].value
                w['p'].kill()
                w['p'].join()
                if h % 2:
                    sem.release()
                w['i'] = None
                if h // 2 >= 2:
                    skip.setdefault(i, set()).add(h // 2 - 2)
                tries[i] = tries.get(i, 0) + 1
                if tries[i] < 4 and time.time() < budget:
                    queue.insert(0, i)
                elif time.time() > budget:
                    res[i] = (False, 'not attempted: out of time', '', 0.0, '')
                else:
                    res[i] = (False, 'unknown (the solver had to be ended)', '', 0.0, '')
                if queue:
                    give(spawn())
    for w in workers:
        w['p'].join(5)
        if w['p'].is_alive():
            w['p'].kill()
    return [res[i] for i in range(len(todo))]
