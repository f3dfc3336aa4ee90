"""defaultlist."""
from rt.gen import rng_for
from rt.harness import call, need

from coinflip.collections import defaultlist

RULE = "random histories of gets, sets, deletions, insertions, appends, extends, pops, slice gets/sets/deletions (all steps, open ends, negative indices) compared after each operation with an endlessly padded Python list; counted per history"
PAD = 500
WIN = 120


def cases(tier, seed):
    for i in range(250000 if tier == "thorough" else 40000):
        yield (seed, i)


def run(case):
    rng = rng_for("C21", *case)
    fac, dflt = rng.choice([(int, 0), (None, None), (lambda: "d", "d")])
    d = defaultlist(fac) if fac else defaultlist()
    m = [dflt] * PAD
    log = []
    peek = rng.random() < .5
    top = rng.choice([4, 8, 14])

    def L():
        return len(d)

    for _ in range(rng.randint(1, 10)):
        op = rng.choice(["get", "set", "set", "set", "del", "ins", "app", "ext", "gets", "sets", "dels", "pop", "oob", "rem"])
        n = L()
        i = rng.randint(0, top)
        if n and rng.random() < .3:
            i = -rng.randint(1, n)
        j = i if i >= 0 else n + i
        v = rng.randint(1, 99)
        if op == "get":
            log.append((op, i))
            need(d[i] == m[j], f"{log}: {d[i]!r}, should be {m[j]!r}")
        elif op == "set":
            log.append((op, i, v))
            d[i] = v
            m[j] = v
        elif op == "del":
            log.append((op, i))
            del d[i]
            del m[j]
        elif op == "ins":
            log.append((op, i, v))
            d.insert(i, v)
            m.insert(j, v)
        elif op == "app":
            log.append((op, v))
            d.append(v)
            m[n] = v
        elif op == "ext":
            vs = [rng.randint(1, 99) for _ in range(rng.randint(0, 3))]
            log.append((op, vs))
            d.extend(vs)
            m[n:n + len(vs)] = vs
        elif op == "pop":
            if not n:
                continue
            log.append((op, i))
            need(d.pop(i) == m[j], f"{log}: popped something else than {m[j]!r}")
            del m[j]
        elif op == "rem":
            log.append((op, v))
            if v in list(d):
                d.remove(v)
                m.remove(v)
        elif op == "oob":
            k = -n - rng.randint(1, 3)
            log.append((op, k))
            for f in (lambda: d[k], lambda: d.__setitem__(k, 1), lambda: d.__delitem__(k)):
                o = call(f)
                need(isinstance(o.error, IndexError), f"{log}: gave {o.result!r} {o.error!r}")
        else:
            step = rng.choice([None, 1, 1] if op == "sets" else [None, 1, 1, 2, 3, -1, -2])

            def bound():
                r = rng.random()
                if r < .3:
                    return None
                if r < .45 and n:
                    return -rng.randint(1, n)
                return rng.randint(0, top)
            sl = slice(bound(), bound(), step)
            st = step or 1
            lo = (0 if st > 0 else n - 1) if sl.start is None else sl.start if sl.start >= 0 else n + sl.start
            hi = (n if st > 0 else -1) if sl.stop is None else sl.stop if sl.stop >= 0 else n + sl.stop
            r = range(lo, hi, st)
            if op == "gets":
                log.append((op, sl))
                got = d[sl]
                need(isinstance(got, defaultlist), f"{log}: a slice is a {type(got).__name__}")
                need(list(got) == [m[k] for k in r], f"{log}: {list(got)}, should be {[m[k] for k in r]}")
            elif op == "dels":
                log.append((op, sl))
                del d[sl]
                m = [x for k, x in enumerate(m) if k not in r]
            else:
                vs = [rng.randint(1, 99) for _ in range(rng.randint(0, 4))]
                log.append((op, sl, vs))
                d[sl] = vs if rng.random() < .7 else iter(vs)
                m[lo:max(lo, hi)] = vs
        m += [dflt] * (PAD - len(m))
        n = len(d)
        need(n <= WIN, f"{log}: length {n}")
        need(all(x == dflt for x in m[n:WIN]), f"{log}: length {n} cuts off {m[:WIN]}")
        if peek:
            got = list(d)
            need(got == m[:n], f"{log}: {got}, should be {m[:n]}")
    n = len(d)
    need(list(d) == m[:n], f"{log}: {list(d)}, should be {m[:n]}")
    need([d[k] for k in range(40)] == m[:40], f"{log}: {[d[k] for k in range(40)]}, should be {m[:40]}")
