"""Core of the simulator: seeded randomness, plans, run contexts, violations and shrinking.

A *plan* is plain JSON: {"prop", "seed", "index", "tier", "config": {...}, "ops": [...]} and fully determines one run
(with the code under test): every choice -- operations, data (by integer seeds), faults, schedule -- is in it.
"""
import hashlib
import json
import random
import time

import numpy as np


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, key, msg):
        super().__init__(f'{key}: {msg}')
        self.key, self.msg = key, msg


class HarnessError(Exception):
    """The machinery (not the code under test) failed."""


def derive(*parts):
    """A 63-bit integer derived from the parts (independent of PYTHONHASHSEED)."""
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'little') >> 1


class Rng(random.Random):
    """The only source of choices when plans are made."""

    def chance(self, p):
        return self.random() < p

    def seed32(self):
        return self.randrange(1 << 32)

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        x = self.random() * total
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def subset(self, seq, p=0.5, nonempty=False):
        out = [s for s in seq if self.random() < p]
        return out or ([self.choice(list(seq))] if nonempty else out)


def nprng(seed):
    return np.random.RandomState(seed % (1 << 32))


class Ctx:
    """Context of one run: event log, fault counts, states reached, checks made."""

    def __init__(self, plan):
        self.plan = plan
        self.events = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.interleavings = set()
        self.checks = 0
        self.steps = 0
        self.sim_time = 0.0
        self.max_err = 0.0
        self.op_index = -1

    # ---- recording (never draws randomness, never reads a clock)
    def log(self, *parts):
        self.events.append(' '.join(str(p) for p in parts))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.log('fault', kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *parts):
        self.states.add(derive(*parts) & 0xffffffffffff)

    def interleaving(self, *parts):
        self.interleavings.add(derive(*parts) & 0xffffffffffff)

    # ---- oracles
    def fail(self, key, msg):
        raise Violation(key, f'[op {self.op_index}] {msg}')

    def check(self, cond, key, msg=''):
        self.checks += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)

    def close(self, got, want, key, tol=1e-6, scale=None, msg=''):
        """|got - want| <= tol * scale elementwise, scale = max|want| unless given."""
        self.checks += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(key, f'{msg} shape {got.shape}, expected {want.shape}')
        if got.dtype == object:
            self.fail(key, f'{msg} dtype object')
        if want.size == 0:
            return
        s = float(np.max(np.abs(want))) if scale is None else float(scale)
        with np.errstate(all='ignore'):
            err = np.abs(got - want)
            e = float(np.max(err)) if np.all(np.isfinite(err)) else float('inf')
        bound = tol * max(s, 1e-300)
        if not e <= bound:
            where = np.unravel_index(int(np.argmax(np.where(np.isfinite(err), err, np.inf))), err.shape)
            self.fail(key, f'{msg} off by {e:.3g} (allowed {bound:.3g}) at {tuple(int(w) for w in where)}: '
                           f'got {got[where]}, expected {want[where]}')
        if bound > 0:
            self.max_err = max(self.max_err, e / bound)

    def same(self, got, want, key, msg=''):
        """Bitwise equal arrays (NaN-free)."""
        self.checks += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape or not np.array_equal(got, want):
            d = '' if got.shape != want.shape else f' max diff {np.max(np.abs(got - want)):.3g}'
            self.fail(key, f'{msg} differs: shapes {got.shape} {want.shape}{d}')

    def expect(self, fn, exc, key, msg=''):
        """fn() has to raise one of exc; returns the exception."""
        self.checks += 1
        try:
            r = fn()
        except exc as e:
            return e
        self.fail(key, f'{msg} no error was raised, returned {type(r).__name__}')

    def digest(self):
        return hashlib.sha256('\n'.join(self.events).encode()).hexdigest()[:24]


def sig(x, digits=4):
    """A coarse, stable signature of a value for the event log."""
    x = np.asarray(x)
    if x.size == 0 or not np.issubdtype(x.dtype, np.number):
        return f'{x.shape}'
    v = float(np.linalg.norm(np.abs(x).ravel().astype(float)))
    return f'{x.shape}|{v:.{digits}g}'


def ddmin(items, fails, deadline):
    """Greedy delta debugging on a list. fails(list of candidates) -> index of first failing candidate or None."""
    n = 2
    while len(items) >= 1 and time.monotonic() < deadline:
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        cands = [sum(chunks[:i] + chunks[i + 1:], []) for i in range(len(chunks))]
        hit = fails(cands)
        if hit is not None:
            items = cands[hit]
            n = max(2, n - 1)
            continue
        if size == 1:
            break
        n = min(len(items), n * 2)
    return items


def load_json(path):
    with open(path) as f:
        return json.load(f)


def dump_json(path, obj):
    with open(path, 'w') as f:
        json.dump(obj, f, indent=1, default=lambda o: o.item() if hasattr(o, 'item') else str(o))
        f.write('\n')
