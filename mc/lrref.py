"""Reference of the learning-rate schedules: rates of every batch of a run, from the parameters alone."""
import math


class Ref(object):
    """kind: none/exp/cos/adam/plateau.  bases, mins: one rate for each group."""

    def __init__(self, kind, bases, mins, p, warmup=0, by_batch=False):
        self.kind, self.bases, self.mins, self.p, self.W, self.by_batch = kind, list(bases), list(mins), dict(p), warmup, by_batch
        self.lrs = list(bases)
        self.epoch = -1
        self.batch = -1
        if kind in ('cos', 'adam'):
            self.start, self.P, self.j = 0, p.get('T'), 0
        if kind == 'plateau':
            self.best, self.bad, self.cool = (math.inf if p['mode'] == 'min' else -math.inf), 0, 0

    def rate(self, s):
        p = self.p
        if self.kind == 'exp':
            if s < p['hold']:
                return list(self.bases)
            return [max(m, b * p['rate'] ** ((s - p['hold']) / p['steps'])) for b, m in zip(self.bases, self.mins)]
        x = s - self.start
        if self.kind == 'cos':
            if x >= self.P and self.by_batch and p['restarts'] and self.epoch == 0:
                self.P = x + 1                    # the first period lasts to the end of the first epoch at least
            over = x >= self.P
        else:
            over = x > self.P
        if over:
            if not p['restarts']:
                return list(self.mins)
            self.start, self.P, self.j, x = s, self.P * p['mul'], self.j + 1, 0
        c = (1 + math.cos(math.pi * x / self.P)) / 2
        a = p['gamma'] ** self.j
        return [m + (a * b - m) * c for b, m in zip(self.bases, self.mins)]

    def epoch_begin(self):
        self.epoch += 1
        if self.kind in ('exp', 'cos', 'adam') and not self.by_batch:
            self.lrs = self.rate(self.epoch)

    def batch_step(self):
        self.batch += 1
        if self.kind == 'none':
            return
        if self.W > 0 and self.batch <= self.W:
            self.lrs = [m + (b - m) * self.batch / self.W for b, m in zip(self.bases, self.mins)]
        elif self.by_batch and self.kind != 'plateau':
            self.lrs = self.rate(self.batch)

    def epoch_end(self, metric=None):
        p = self.p
        if self.kind in ('cos', 'adam') and self.by_batch and p['restarts'] and self.epoch == 0:
            n = self.batch + 1
            self.P = -(-self.P // n) * n
        if self.kind == 'plateau':
            t, b = p['threshold'], self.best
            if p['tmode'] == 'rel':
                lim = b * (1 - t) if p['mode'] == 'min' else b * (1 + t)
            else:
                lim = b - t if p['mode'] == 'min' else b + t
            good = metric < lim if p['mode'] == 'min' else metric > lim
            if good:
                self.best, self.bad = metric, 0
            else:
                self.bad += 1
            if self.cool > 0:
                self.cool -= 1
                self.bad = 0
            if self.bad > p['patience']:
                for i, lr in enumerate(self.lrs):
                    new = max(lr * p['factor'], self.mins[i])
                    if lr - new > p['eps']:
                        self.lrs[i] = new
                self.cool, self.bad = p['cooldown'], 0
