"""Several processes at work at the same time, one step at a time.

Every process is a real fork; each of its disk operations waits for the parent's grant, so the
parent (a seeded scheduler) decides the interleaving and nothing runs next to anything else.
"""
import json
import os
import select
import traceback

from .prng import Rng

STALL_S = 3.0       # a process that neither reaches a disk operation nor ends waits for another one
MAX_STEPS = 60000
KINDS = ("start", "open_r", "open_w", "read", "write", "close_w", "mkdir", "rename", "unlink", "stat", "list", "meta", "sync")


class Livelock(Exception):
    pass


class Member:
    def __init__(self, body):
        self.ev_r, self.ev_w = os.pipe()
        self.go_r, self.go_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.read(self.go_r, 1)
                out = body(self._gate)
            except BaseException:
                out = {"harness": traceback.format_exc()}
            self._send(b"d", json.dumps(out).encode())
            os._exit(0)
        os.close(self.ev_w)
        os.close(self.go_r)
        self.steps, self.done, self.out, self.busy, self.at = 0, False, None, False, ("start", "")
        self.last = ""
        self.buf = b""

    # in the child
    def _send(self, tag, data):
        data = tag + len(data).to_bytes(4, "big") + data
        while data:
            data = data[REAL_WRITE(self.ev_w, data):]

    def _gate(self, kind, rel):
        self._send(b"o", json.dumps([kind, rel]).encode())
        REAL_READ(self.go_r, 1)

    # in the parent
    def poll(self, timeout):
        """-> True if the member reached its next operation or its end"""
        while True:
            if len(self.buf) >= 5:
                n = int.from_bytes(self.buf[1:5], "big")
                if len(self.buf) >= 5 + n:
                    tag, data = self.buf[:1], json.loads(self.buf[5:5 + n])
                    self.buf = self.buf[5 + n:]
                    self.busy = False
                    if tag == b"d":
                        self.done, self.out = True, data
                        os.waitpid(self.pid, 0)
                        os.close(self.ev_r)
                        os.close(self.go_w)
                    else:
                        self.at = tuple(data)
                    return True
            r, _, _ = select.select([self.ev_r], [], [], timeout)
            if not r:
                return False
            b = os.read(self.ev_r, 1 << 16)
            if not b:
                self.done, self.out, self.busy = True, {"harness": "member died"}, False
                return True
            self.buf += b


REAL_READ, REAL_WRITE = os.read, os.write


def run(bodies, seed, mode):
    """Run the bodies interleaved. mode: {"p": switch probability, "on": around operations of these kinds} or {"at": [[step, who], ...]}"""
    r = Rng("crowd", seed)
    ms = [Member(b) for b in bodies]
    cur, total, order, stalls = r.randrange(len(ms)), 0, [], 0
    at = {k: w for k, w in mode.get("at", [])}
    while any(not m.done for m in ms):
        ready = [i for i, m in enumerate(ms) if not m.done and not m.busy]
        if not ready:  # everybody is busy: one must come back, or they wait for each other
            if not any(m.poll(STALL_S) for m in ms if m.busy):
                raise Livelock("every build waits for another one")
            continue
        pick = at.get(total)
        if cur not in ready or pick is not None or ("p" in mode and (ms[cur].at[0] in mode.get("on", KINDS) or ms[cur].last in mode.get("on", KINDS)) and r.random() < mode["p"]):
            others = [i for i in ready if i != cur] or ready
            new = others[(pick if pick is not None else r.randrange(len(others))) % len(others)]
            if new != cur:
                order.append((total, cur, new, *ms[new].at))
            cur = new
        m = ms[cur]
        m.busy, m.last = True, m.at[0]
        os.write(m.go_w, b"g")
        m.steps += 1
        total += 1
        if total > MAX_STEPS:
            raise Livelock(f"{total} disk operations and no end")
        if not m.poll(STALL_S):
            stalls += 1
    return [m.out for m in ms], order, [m.steps for m in ms]
