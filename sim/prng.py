"""The only source of randomness: a splittable PRNG derived from one integer."""
import hashlib
import random


def derive(*parts) -> int:
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Rng(random.Random):
    """random.Random with a few helpers; seeded only through derive()."""

    def __init__(self, *parts):
        super().__init__(derive(*parts))

    def chance(self, p: float) -> bool:
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def some(self, seq, lo=1, hi=None):
        seq = list(seq)
        hi = len(seq) if hi is None else min(hi, len(seq))
        return self.sample(seq, self.randint(min(lo, hi), hi))
