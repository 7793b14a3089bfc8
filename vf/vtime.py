"""An event loop whose time passes only when nothing is left to do."""
import asyncio
import selectors


class Deadlock(Exception):
    pass


class VSelector(selectors.DefaultSelector):
    loop = None
    external = 0  # real things (threads, processes) somebody is waiting for

    def select(self, timeout=None):
        ev = super().select(0)
        if self.loop.vt != self.at:
            self.at, self.spins = self.loop.vt, 0
        self.spins += 1
        if self.spins > 50000 and not self.external:
            raise Deadlock("busy without end")
        if ev or timeout is not None and timeout <= 0:
            return ev
        if self.external > 0:
            return super().select(0.02 if timeout is None else min(timeout, 0.02))
        if timeout is None:
            # nothing planned: leave some time for the rest of the world
            ev = super().select(5)
            if not ev:
                raise Deadlock("nothing will ever happen again")
            return ev
        # sockets of the loopback network answer at once
        ev = super().select(self.patience) if self.patience else ev
        if ev:
            return ev
        self.loop.vt += timeout
        return []

    patience = 0
    at, spins = None, 0


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self, patience=0):
        self.vt = 0.0
        s = VSelector()
        s.loop = self
        s.patience = patience
        super().__init__(s)

    def time(self):
        return self.vt

    def run_in_executor(self, executor, func, *args):
        f = super().run_in_executor(executor, func, *args)
        self._selector.external += 1

        def done(_):
            self._selector.external -= 1

        f.add_done_callback(done)
        return f
