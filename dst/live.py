"""A live process on the virtual clock: it receives bars, computes now and then, crashes, restarts."""
from dst.market import Clock, Feed, MS


class Tick:
    __slots__ = ("n", "restarted", "now", "frame")

    def __init__(self, n, restarted, now, frame):
        self.n, self.restarted, self.now, self.frame = n, restarted, now, frame


def live(sim, frame, calls, faults=("delay", "stall", "loss", "dup", "crash"), first=1, always_last=True):
    """Yields up to `calls` Ticks: the process computes on the gap-free prefix it has received.

    A crash loses everything in memory; the transport re-sends the history, in bursts.
    """
    n = len(frame)
    if n == 0:
        return
    clock = Clock(sim)
    clock.now = int(frame.index[0].value // MS)
    feed = Feed(sim, clock, "bars", frame, faults)
    end = int(frame.index[-1].value // MS)
    span = max(1, end - clock.now)
    for k in range(calls):
        clock.at(clock.now + 1 + sim.w.below(1000) * span // 1000 + span // 200, "compute")
    if "crash" in faults and sim.f.chance(35):
        clock.at(clock.now + sim.f.below(1000) * span // 1000, "crash")
    restarted = False
    done = 0
    last_n = -1
    while clock:
        what, payload = clock.next()
        if what == "row":
            payload[0].deliver(payload[1])
        elif what == "crash":
            sim.fault("process crash and restart")
            sim.schedule_event("crash", clock.now)
            sim.log("crash at", clock.now)
            known = [i for i in range(n) if feed.have[i]]
            feed.reset()
            for i in known:          # the history is re-read from the feed's archive
                clock.at(clock.now + 1 + sim.s.below(3), "row", feed, i)
            restarted = True
        elif what == "compute":
            p = feed.prefix_len()
            sim.schedule_event("compute", p)
            if p >= first and done < calls and (p != last_n or sim.s.chance(30)):
                done += 1
                last_n = p
                yield Tick(p, restarted, clock.now, frame.iloc[:p])
                restarted = False
    if always_last and last_n != n:
        yield Tick(n, restarted, clock.now, frame)
