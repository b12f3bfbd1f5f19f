"""C23 Poisson clocks"""
from crowddynamics.core.rand import poisson_clock, poisson_timings
from symx import stubs
from symx.reg import harness


@harness(configs=[dict(k=k) for k in (1, 2, 3, 4)], thorough=[dict(k=k) for k in range(1, 8)],
         bounds='any mean interval in (0, 10], any window to 100, the first 4 (thorough: 7) ticks')
def clock(S, k):
    interval, dt = S.pos('interval', 10), S.real('dt', 0, 100)
    draws = []
    stubs.HOOKS['exponential'] = draws.append
    gen = poisson_clock(interval, dt)
    total = 0
    for i in range(k):
        try:
            t = next(gen)
        except StopIteration:
            t = None
        S.check('one draw per tick', len(draws) == i + 1)
        total = total + interval * draws[i]
        if t is None:
            S.check('stops only when the window is over', S.le(dt, total))
            return
        S.equal('sum of the intervals', t, total)
        S.check('inside the window', S.lt(t, dt))
        S.observe('t', t)


@harness(configs=[dict(n=1, ticks=1), dict(n=2, ticks=1), dict(n=3, ticks=1), dict(n=1, ticks=3), dict(n=2, ticks=2)],
         thorough=[dict(n=1, ticks=4), dict(n=2, ticks=2), dict(n=3, ticks=1), dict(n=2, ticks=3)],
         bounds='up to 3 players (up to 2 ticks each for two, 3 for one), any intervals, window and order; equal times in the harness together')
def timings(S, n, ticks):
    S.coarse(60)
    interval, dt = S.pos('interval', 10), S.pos('dt', 100)
    ids = [7, 3, 11][:n]
    players = S.np.array(ids, dtype=S.np.int64)
    draws = []

    def drawn(e):
        draws.append(e)
        S.assume(S.le(dt, (ticks + 1) * interval * e))
    stubs.HOOKS['exponential'] = drawn
    stubs.LOG[:] = []
    got = [int(g) for g in poisson_timings(players, interval, dt)]
    orders = [v for name, v in stubs.LOG if name == 'order']
    order = [int(v) for v in orders[-1]] if orders else [int(v) for v in players]
    S.check('players kept', sorted(int(v) for v in players) == sorted(ids) and sorted(order) == sorted(ids))
    events = []
    k = 0
    for p in order:
        t = 0
        while True:
            t = t + interval * draws[k]
            k += 1
            if not S.branch(S.lt(t, dt)):
                break
            events.append((t, p))
    S.check('every draw belongs to a player', k == len(draws))
    want = []
    while events:
        first = 0
        for i in range(1, len(events)):
            if S.branch(S.lt(events[i][0], events[first][0])):
                first = i
            else:
                S.assume(S.lt(events[first][0], events[i][0]))
        want.append(events.pop(first)[1])
    S.check('each player once per own tick, sorted by time', got == want)
    S.observe('got', got)


@harness(configs=[dict(n=2, ticks=1), dict(n=3, ticks=1), dict(n=2, ticks=2)], bounds='2 or 3 players whose ticks fall together, up to two each; any interval and window')
def together(S, n, ticks):
    interval, dt = S.pos('interval', 10), S.pos('dt', 100)
    S.assume(S.lt(interval * 0.5 * ticks + 0.001, dt))
    S.assume(S.lt(dt + 0.001, interval * 0.5 * ticks + interval * 32))
    count = [0]

    def drawn(e):
        count[0] += 1
        S.assume(S.eq(e, 0.5 if count[0] % (ticks + 1) else 32))
    stubs.HOOKS['exponential'] = drawn
    ids = [7, 3, 11][:n]
    got = [int(g) for g in poisson_timings(S.np.array(ids, dtype=S.np.int64), interval, dt)]
    S.check('each player once per own tick', sorted(got) == sorted(ids * ticks))
    for k in range(ticks):
        S.check('sorted by time', sorted(got[k * n:(k + 1) * n]) == sorted(ids))


@harness(configs=[dict(k=40)], thorough=[dict(k=40), dict(k=300)], bounds='40 (thorough: 300) equal intervals of any length in one window')
def long_clock(S, k):
    interval = S.pos('interval', 10)
    stubs.HOOKS['exponential'] = lambda e: S.assume(S.eq(e, 0.25))
    n = 0
    for t in poisson_clock(interval, interval * (0.25 * k + 0.125)):
        n += 1
        if n > k:
            break
        S.equal('sum of the intervals', t, 0.25 * n * interval)
    S.check('every tick of the window', n == k)


@harness(configs=[dict(n=30, ticks=1), dict(n=1, ticks=30), dict(n=3, ticks=12)], bounds='30 players with one tick, one player with 30, three with twelve each, at different times; one interval anywhere between its neighbours')
def crowd(S, n, ticks):
    ids = [(7 * k) % 41 for k in range(n)]
    count = [0]
    when = {}

    def drawn(e):
        p, c = divmod(count[0], ticks + 1)
        count[0] += 1
        if c == ticks:
            S.assume(S.eq(e, 32))
        elif p == n // 2 and c == 0:
            S.assume(S.between(0.5 + ((p * 11) % 31) / 64 - 1 / 256, e, 0.5 + ((p * 11) % 31) / 64 + 1 / 256))
        else:
            S.assume(S.eq(e, 0.5 + ((p * 11) % 31) / 64 if c == 0 else 1.0))
    stubs.HOOKS['exponential'] = drawn
    stubs.HOOKS['permutation'] = lambda n: [(k * 7 + 3) % n for k in range(n)] if n % 7 else list(range(n))
    stubs.LOG[:] = []
    got = [int(g) for g in poisson_timings(S.np.array(ids, dtype=S.np.int64), 2.0, 63.0)]
    orders = [v for name, v in stubs.LOG if name == 'order']
    order = [int(v) for v in orders[-1]] if orders else ids
    for p, i in enumerate(order):
        when[i] = 0.5 + ((p * 11) % 31) / 64
    S.check('each player once per own tick, sorted by time', got == sorted(order, key=lambda i: when[i]) * ticks)
