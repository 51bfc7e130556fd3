"""Concrete mode of a harness: replay of a counter-model, and the labelled bounded random search, on the real modules."""
import random
import uuid as _uuid

from . import sym  # noqa: F401 (before text)
from .text import CS


class Reject(BaseException):
    """The generated input does not meet the harness' precondition."""


class Violated(BaseException):
    def __init__(self, name, inputs):
        self.name = name
        self.inputs = inputs


_INT_EDGES = [0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 24, 28, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, (1 << 31) - 1,
              1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]


class CVC:
    symbolic = False

    def __init__(self, loader, inputs=None, rng=None):
        self.loader = loader
        self.given = inputs
        self.rng = rng or random.Random(0)
        self.inputs = {}
        self.checks = 0
        self.reached = set()
        self.missing = []

    def _get(self, name, gen):
        if name in self.inputs:
            raise RuntimeError("duplicate input " + name)
        if self.given is not None:
            if name in self.given:
                v = self.given[name]
            else:
                self.missing.append(name)
                v = gen()
        else:
            v = gen()
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None, gen=None):
        r = self.rng

        def g():
            if gen is not None and r.random() < 0.8:
                return gen(r)
            a = lo if lo is not None else -(1 << 70)
            b = hi if hi is not None else 1 << 70
            p = r.random()
            if p < 0.25:
                return r.choice([a, b, min(b, a + 1), max(a, b - 1)])
            if p < 0.6:
                e = [x for x in _INT_EDGES if a <= x <= b]
                if e:
                    return r.choice(e)
            if p < 0.8:
                return r.randint(a, min(b, a + 300))
            return r.randint(a, b)

        v = self._get(name, g)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        return v

    def bool(self, name):
        return self._get(name, lambda: self.rng.random() < 0.5)

    def choice(self, name, options):
        options = list(options)
        i = self._get(name, lambda: self.rng.randrange(len(options)))
        if not 0 <= i < len(options):
            raise Reject()
        return options[i]

    def bytes(self, name, length=None, min_len=0, max_len=None, gen=None):
        r = self.rng

        def g():
            if gen is not None:
                return gen(r)
            if length is not None:
                n = length
            else:
                hi = max_len if max_len is not None else min_len + 80
                hi = min(hi, min_len + 400)
                n = r.choice([min_len, min(hi, min_len + 1), r.randint(min_len, min(hi, min_len + 9)), r.randint(min_len, hi)])
            if n > 1 << 16:
                raise Reject()
            m = r.random()
            if m < 0.15:
                return bytes(n)
            if m < 0.3:
                return b"\xff" * n
            return r.randbytes(n)

        v = self._get(name, g)
        if length is not None and len(v) != length:
            raise Reject()
        if len(v) < min_len or (max_len is not None and len(v) > max_len):
            raise Reject()
        return v

    def text(self, name, chars, lo=0, hi=None, gen=None, neg=False):
        r = self.rng
        cs = CS(chars, neg)

        def g():
            if gen is not None and r.random() < 0.8:
                return gen(r)
            n = r.choice([lo, lo, lo + 1, lo + 2, lo + r.randint(0, 12)])
            if hi is not None:
                n = min(n, hi)
            return "".join(r.choice(cs.sample()) for _ in range(n))

        v = self._get(name, g)
        if not isinstance(v, str) or len(v) < lo or hi is not None and len(v) > hi or not all(cs.has(c) for c in v):
            raise Reject()
        return v

    def chars(self, name, specials, gen=None):
        return self.text(name, "", neg=True, gen=gen or (lambda r: "".join(r.choice(list(specials) * 2 + ["a", "b", " ", "\t"]) for _ in range(r.randint(0, 9)))))

    def data(self, name, gen):
        """A JSON-able concrete datum (only in concrete-only harnesses)."""
        return self._get(name, lambda: gen(self.rng))

    def chunks(self, name, min_item=0, max_total=None, max_n=None, gen=None):
        from .lists import CChunks
        r = self.rng

        def g():
            n = r.choice([0, 0, 1, 1, 2, 3, 5])
            if max_n is not None:
                n = min(n, max_n)
            if gen is not None:
                return [gen(r) for _ in range(n)]
            return [r.randbytes(min_item + r.choice([0, 1, 2, 7])) for _ in range(n)]

        v = self._get(name, g)
        if any(len(x) < min_item for x in v):
            raise Reject()
        return CChunks(v)

    def contract(self, key, c):
        pass

    def patch(self, obj, name, new):
        raise RuntimeError("callee contracts are for the symbolic mode only")

    def uuid(self, name):
        return _uuid.UUID(bytes_le=self.bytes(name, 16))

    def module(self, name):
        return self.loader.module(name)

    def assume(self, cond):
        if not cond:
            raise Reject()

    def check(self, cond, name):
        self.checks += 1
        if not cond:
            raise Violated(name, self.inputs)

    def reach(self, name):
        self.reached.add(name)

    def note(self, text):
        pass

    bound = note

    def covers(self, *names):
        pass


def run_concrete(loader, fn, inputs=None, rng=None):
    """('ok'|'reject'|'violated'|'error', detail, inputs)."""
    vc = CVC(loader, inputs, rng)
    try:
        fn(vc)
    except Reject:
        return "reject", None, vc
    except Violated as v:
        return "violated", v.name, vc
    except RecursionError as e:
        return "error", repr(e), vc
    except Exception as e:
        import traceback
        return "error", traceback.format_exc(), vc
    return "ok", None, vc
