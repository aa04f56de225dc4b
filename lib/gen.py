"""Thin layer over the choice source of Hypothesis: every random decision goes through it."""


class Skip(Exception):
    """The generated case cannot be judged (counted as discarded)."""


class G:
    def __init__(self, cd):
        self.cd = cd
        self.tags = []

    def int(self, lo, hi):
        return lo if lo == hi else self.cd.draw_integer(lo, hi)

    def near(self, lo, hi, *marks):
        """An integer in [lo, hi] that is often one of the marks or next to one."""
        ok = [m for m in marks if lo <= m <= hi]
        if ok and self.chance(60):
            v = self.pick(ok) + self.int(-1, 1)
            return min(max(v, lo), hi)
        return self.int(lo, hi)

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def chance(self, percent):
        if percent <= 0:
            return False
        if percent >= 100:
            return True
        return self.cd.draw_boolean(percent / 100)

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first one is the simplest for shrinking."""
        total = sum(w for w, _ in pairs)
        n = self.int(0, total - 1)
        for w, v in pairs:
            if n < w:
                return v
            n -= w
        raise AssertionError

    def shuffle(self, seq):
        s = list(seq)
        for i in range(len(s) - 1, 0, -1):
            j = self.int(0, i)
            s[i], s[j] = s[j], s[i]
        return s

    def sample(self, seq, k):
        return self.shuffle(seq)[:k]

    def tag(self, *names):
        self.tags.extend(names)


class Case:
    """What a generator returns: the data to be judged and its classification."""

    def __init__(self, files, runs, nontrivial=True):
        self.data = {"files": files, "runs": runs}
        self.nontrivial = nontrivial
