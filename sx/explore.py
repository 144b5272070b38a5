"""Explores all paths of the harnesses of one property, over several worker processes."""
import json
import multiprocessing as mp
import os
import queue
import random
import signal
import subprocess
import sys
import time
import traceback
import z3
from . import core, api, loader, rt

PATH_SECONDS = 20   # of processor time; a path that waits (a lock) is given up after WAIT_SECONDS
WAIT_SECONDS = 60
TRACES = 3          # passing paths per harness and worker whose model is re-run on the unmodified code


def _alarm(sig, frm):
    raise core.PathTimeout()


def _limit(on):
    signal.setitimer(signal.ITIMER_PROF, PATH_SECONDS if on else 0, 1)
    signal.setitimer(signal.ITIMER_REAL, WAIT_SECONDS if on else 0, 1)


class Worker:
    def __init__(self, harnesses, deadline, snap, seed=1):
        self.hs = harnesses
        self.deadline = deadline
        self.snap = snap
        self.Sym = api.symbolic_api()
        self.solver = core.SolverStack()
        self.stats = {h.name: core.Stats() for h in harnesses}
        self.info = {h.name: {'incomplete': {}, 'witness': {}, 'engine': {}, 'traces': []} for h in harnesses}
        sys.setrecursionlimit(3000)
        self.rng = random.Random(seed)
        self.geo_tries = 3000
        signal.signal(signal.SIGALRM, _alarm)
        signal.signal(signal.SIGPROF, _alarm)

    def run_path(self, hi, prefix):
        h = self.hs[hi]
        st = self.stats[h.name]
        params = dict(summary=h.summary)
        c = self.Sym(self.solver, prefix, st, params)
        core.set_current(c)
        self.snap.restore()
        rt.SYMKEYED.clear()
        core.SERIALS.clear()
        rt.SNAP = self.snap
        cand = []
        info = self.info[h.name]
        st.paths += 1
        _limit(True)
        exc = None
        try:
            h.run(c)
        except (core.Infeasible,):
            _limit(False)
            return c.pending, []
        except core.StopPath:
            pass
        except core.PathTimeout:
            exc = ('timeout', 'no result within %d s' % PATH_SECONDS)
        except RecursionError as e:
            exc = ('exception:RecursionError', 'RecursionError')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            exc = ('exception:%s' % type(e).__name__, '%s: %s @ %s' % (type(e).__name__, str(e)[:200], [
                '%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]]))
        finally:
            _limit(False)
        try:
            if exc is not None or c.failures:
                label = c.failures[0] if c.failures else exc[0]
                r, m = self.solver.check()
                m = self.realistic(c, m)
                if r == z3.sat:
                    cand.append((hi, label, self.inputs(c, m), exc[1] if exc else ''))
                elif r == z3.unknown:
                    info['incomplete']['solver gave no model'] = 1
            elif c.obligations:
                st.oblig_queries += 1
                bad = z3.Not(z3.And([e for e, _ in c.obligations]))
                r, m = self.solver.check(bad)
                m = self.realistic(c, m, bad)
                if r == z3.sat:
                    label = next((l for e, l in c.obligations
                                  if not z3.is_true(m.eval(e, model_completion=True))), c.obligations[0][1])
                    cand.append((hi, label, self.inputs(c, m), ''))
                elif r == z3.unknown:
                    info['incomplete']['solver answered unknown'] = info['incomplete'].get(
                        'solver answered unknown', 0) + 1
            if not cand:
                self.keep_trace(hi, c, st, info)
        except z3.Z3Exception as e:
            info['engine'][str(e)[:100]] = 1
        for w in c.incomplete:
            info['incomplete'][w] = info['incomplete'].get(w, 0) + 1
        for w in c.witness:
            info['witness'][w] = info['witness'].get(w, 0) + 1
        return c.pending, cand

    def realistic(self, c, m, *bad):
        """A model of the same constraints in which the geodesic library, an uninterpreted function to the solver,
        agrees with the real one at the arguments of the model (the model itself if none is found)."""
        if m is None or not c.geo_calls or self.geo_tries <= 0:
            return m
        first, end = m, time.time() + 6
        s = self.solver.s
        s.push()
        try:
            s.add(*bad)
            s.add(rt.geo_laws(c.geo_calls))
            if s.check() == z3.sat:
                m = s.model()
            for n in range(60):
                self.geo_tries -= 1
                s.push()
                facts = rt.geo_facts(c.geo_calls, m)
                if facts is None:
                    return first
                s.add([v == m.eval(v, model_completion=True) for v in c.vars.values()])
                s.add(facts)
                # arguments that are results of other calls change with the facts: repeat until they settle
                for _ in range(4):
                    if s.check() != z3.sat:
                        break
                    m2 = s.model()
                    more = rt.geo_facts(c.geo_calls, m2)
                    if more is None:
                        break
                    if all(z3.is_true(m2.eval(f, model_completion=True)) for f in more):
                        return m2
                    s.add(more)
                s.pop()
                if time.time() > end:
                    break
                # somewhere else: random digits wherever the constraints leave them free
                s.push()
                vs = list(c.vars.values())
                self.rng.shuffle(vs)
                for v in vs:
                    s.push()
                    s.add(v == self.rng.choice((48, 49, 50, 51, 52, 53, 54, 55, 56, 57)))
                    if s.check() != z3.sat:
                        s.pop()
                m = s.model() if s.check() == z3.sat else None
                depth = s.num_scopes()
                s.pop(depth - len(self.solver.stack) - 1)
                if m is None:
                    break
        finally:
            s.pop(s.num_scopes() - len(self.solver.stack))
        return first

    def keep_trace(self, hi, c, st, info):
        """Keep a model of this passing path (a uniform sample over the paths of the harness)."""
        tr = info['traces']
        if len(tr) < TRACES:
            slot = len(tr)
        else:
            slot = self.rng.randrange(st.paths)
            if slot >= TRACES:
                return
        r, m = self.solver.check()
        if r != z3.sat:
            return
        t = (hi, self.inputs(c, m), sorted(c.witness))
        if slot == len(tr):
            tr.append(t)
        else:
            tr[slot] = t

    def inputs(self, c, m):
        out = {}
        for n, v in c.vars.items():
            x = m.eval(v, model_completion=True)
            if z3.is_int_value(x):
                out[n] = x.as_long()
        return out


def worker_main(wid, harnesses, deadline, snap, q, out, idle, outstanding, stop, seed):
    try:
        w = Worker(harnesses, deadline, snap, seed)
        left = {h.name: 0 for h in harnesses}
        sent = {}
        while not stop.value:
            with idle.get_lock():
                idle.value += 1
            item = None
            while item is None and not stop.value:
                try:
                    item = q.get(timeout=0.05)
                except queue.Empty:
                    if outstanding.value == 0:
                        break
            with idle.get_lock():
                idle.value -= 1
            if item is None:
                break
            hi, prefix = item
            stack = [prefix]
            n = 0
            while stack and not stop.value:
                if time.time() > deadline:
                    left[harnesses[hi].name] += len(stack)
                    stack = []
                    break
                pf = stack.pop()
                pend, cand = w.run_path(hi, pf)
                stack.extend(pend)
                for x in cand:
                    k = (x[0], x[1])
                    sent[k] = sent.get(k, 0) + 1
                    if sent[k] <= 6:
                        out.put(('cand', x))
                n += 1
                if len(stack) > 1 and idle.value > 0 and n % 4 == 0:
                    give = stack[:max(1, len(stack) // 2)]
                    del stack[:len(give)]
                    with outstanding.get_lock():
                        outstanding.value += len(give)
                    for g in give:
                        q.put((hi, g))
            with outstanding.get_lock():
                outstanding.value -= 1
        out.put(('done', wid, {n: s.as_dict() for n, s in w.stats.items()}, w.info, left, sorted(rt.SEEN)))
    except BaseException:
        out.put(('crash', wid, traceback.format_exc()))
    finally:
        out.close()
        out.join_thread()
        q.cancel_join_thread()


def explore(harnesses, seconds, on_candidate, nproc=None, seed=1):
    """Returns (stats per harness, info per harness, unexplored per harness, functions seen, crashes)."""
    nproc = nproc or min(8, os.cpu_count() or 1)
    snap = loader.Snapshot(loader.FINDER.loaded)
    q, out = mp.Queue(), mp.Queue()
    idle, outstanding, stop = mp.Value('i', 0), mp.Value('i', len(harnesses)), mp.Value('i', 0)
    for i in range(len(harnesses)):
        q.put((i, []))
    deadline = time.time() + seconds
    ps = [mp.Process(target=worker_main, args=(i, harnesses, deadline, snap, q, out, idle, outstanding, stop,
                                               seed * 100 + i)) for i in range(nproc)]
    for p in ps:
        p.start()
    stats = {h.name: core.Stats() for h in harnesses}
    info = {h.name: {'incomplete': {}, 'witness': {}, 'engine': {}, 'traces': []} for h in harnesses}
    left = {h.name: 0 for h in harnesses}
    seen = set()
    crashes = []
    done = 0
    hard = deadline + 90
    while done < nproc:
        try:
            m = out.get(timeout=1)
        except queue.Empty:
            if time.time() > hard or not any(p.is_alive() for p in ps):
                crashes.append('%d worker(s) did not report' % (nproc - done))
                break
            continue
        if m[0] == 'cand':
            if not stop.value and on_candidate(m[1]):
                stop.value = 1
        elif m[0] == 'done':
            done += 1
            for n, d in m[2].items():
                stats[n].add(d)
            for n, d in m[3].items():
                for f in ('incomplete', 'witness', 'engine'):
                    for k, v in d[f].items():
                        info[n][f][k] = info[n][f].get(k, 0) + v
                info[n]['traces'] += d['traces']
            for n, v in m[4].items():
                left[n] += v
            seen.update(m[5])
        else:
            done += 1
            crashes.append(m[2])
    for p in ps:
        if p.is_alive():
            p.terminate()
        p.join(5)
    return stats, info, left, seen, crashes, bool(stop.value)
