"""Reference model of a streamed read, shared by several properties."""
import numpy as np
import pandas as pd

import world as W
from core import Violation


def ts(sec, tz='UTC'):
    return None if sec is None else pd.Timestamp(W.T0 + sec, unit='s', tz='UTC').tz_convert(tz)


def tframe(spec, tz='UTC'):
    """spec: [start, end, include_end] in seconds, None = open."""
    from nilmtk import TimeFrame
    tf = TimeFrame(ts(spec[0], tz), ts(spec[1], tz))
    if len(spec) > 2 and spec[2]:
        tf.include_end = True
    return tf


def clip(spec, win):
    """Intersection of a section with the window -> (start, end, include_end) or None if empty."""
    s, e = spec[0], spec[1]
    inc = bool(len(spec) > 2 and spec[2])
    if win is not None:
        if win[0] is not None:
            s = win[0] if s is None else max(s, win[0])
        if win[1] is not None:
            if e is None or win[1] < e:
                e, inc = win[1], False
    if s is not None and e is not None and s >= e:
        return None
    return s, e, inc


def rows_of(secs, cl):
    """Positions of the samples inside a clipped section."""
    if cl is None:
        return np.zeros(0, dtype=int)
    s, e, inc = cl
    m = np.ones(len(secs), bool)
    if s is not None:
        m &= secs >= s
    if e is not None:
        m &= (secs <= e) if inc else (secs < e)
    return np.nonzero(m)[0]


def instants(df):
    return df.index.tz_convert('UTC').tz_localize(None).values.astype('datetime64[s]').astype('int64') - W.T0


def frame_eq(a, b):
    return (list(map(tuple, a.columns)) == list(map(tuple, b.columns)) and len(a) == len(b)
            and (len(a) == 0 or (bool((instants(a) == instants(b)).all()) and np.array_equal(a.values.astype(b.values.dtype), b.values, equal_nan=True))))


def show(df, n=6):
    return df.to_string(max_rows=n)


class StreamCheck:
    """Feed it the parts of one stream as they arrive; it raises at the first wrong one.

    The parts of a section are its samples, in order, each once -- except that a part may
    repeat the last sample of the part before it.
    """

    def __init__(self, df, secs, sections, win, columns=None, look_ahead=0, chunksize=None,
                 empties=True, check_tf=True, single_ok=False, la_cols=True, hook=None):
        self.df, self.secs = df, secs
        self.cols = columns
        self.look_ahead = look_ahead
        self.chunksize = chunksize
        self.empties, self.check_tf, self.single_ok, self.la_cols = empties, check_tf, single_ok, la_cols
        sections = [[None, None]] if sections is None else sections
        self.todo = [(clip(s, win), s) for s in sections]
        self.i = -1
        self.pos = None
        self.left = None
        self.part = 0
        self.n_parts = 0
        self.lost_single = 0
        self._next()

    def _next(self):
        self.i += 1
        self.part = 0
        self.last = None
        self.last_tf = None
        if self.i < len(self.todo):
            self.pos = list(rows_of(self.secs, self.todo[self.i][0]))
            self.done = 0
        else:
            self.pos = None

    def fail(self, cls, msg):
        raise Violation(cls, 'section %d (%s): %s' % (self.i, self.todo[self.i][0] if self.i < len(self.todo) else '-', msg))

    def _finish_section(self):
        """The stream has left this section."""
        if self.done < len(self.pos):
            if len(self.pos) == 1 and self.single_ok:
                self.lost_single += 1
            else:
                self.fail('samples-lost', '%d of %d samples delivered' % (self.done, len(self.pos)))
        elif len(self.pos) and self.check_tf:
            cl = self.todo[self.i][0]
            if cl[1] is not None and self.last_tf is not None and self.last_tf.end is not None and \
                    self.last_tf.end != ts(cl[1]):
                self.fail('wrong-timeframe', 'last part covers until %s' % self.last_tf.end)
        if len(self.pos) == 0 and self.empties and self.part != 1:
            self.fail('empty-section-parts', '%d parts for a section without samples' % self.part)
        self._next()

    def feed(self, chunk):
        self.n_parts += 1
        if len(chunk) == 0:
            # belongs to the next section without samples
            while self.pos is not None and not (len(self.pos) == 0 and self.part == 0) and \
                    not (len(self.pos) == 1 and self.single_ok and self.part == 0):
                self._finish_section()
            if self.pos is None:
                raise Violation('extra-part', 'an empty part after the last section')
            self.part += 1
            return
        got = instants(chunk)
        # an overlap with the part before?
        if self.pos is not None and self.part and self.last is not None and got[0] == self.secs[self.last] and \
                (self.done < len(self.pos) or len(got) == 1):
            off = self.done - 1
        else:
            while self.pos is not None and self.done == len(self.pos):
                self._finish_section()
            if self.pos is not None and self.part == 0 and len(self.pos) == 1 and self.single_ok and got[0] != self.secs[self.pos[0]]:
                self._finish_section()
                while self.pos is not None and self.done == len(self.pos):
                    self._finish_section()
            if self.pos is None:
                raise Violation('extra-part', 'a part after the last section: %s' % show(chunk))
            off = self.done
        want = self.pos[off:off + len(chunk)]
        exp = self.df.iloc[want]
        if self.cols is not None:
            exp = exp[[c for c in exp.columns if tuple(c) in self.cols]]
            chunk_cmp = chunk[sorted(chunk.columns, key=lambda c: list(map(tuple, exp.columns)).index(tuple(c))
                                     if tuple(c) in list(map(tuple, exp.columns)) else -1)]
        else:
            chunk_cmp = chunk
        if not frame_eq(chunk_cmp, exp):
            self.fail('wrong-samples', 'part %d is\n%s\nexpected\n%s' % (self.part, show(chunk), show(exp)))
        if self.chunksize is not None and len(chunk) > self.chunksize + 1:
            self.fail('part-too-big', '%d samples with a chunk size of %d' % (len(chunk), self.chunksize))
        if self.check_tf:
            tf = chunk.timeframe
            cl = self.todo[self.i][0]
            if (tf.start is not None and tf.start > chunk.index[0]) or (tf.end is not None and tf.end < chunk.index[-1]):
                self.fail('wrong-timeframe', '%s for samples %s to %s' % (tf, chunk.index[0], chunk.index[-1]))
            if self.part == 0 and cl[0] is not None and tf.start != ts(cl[0]):
                self.fail('wrong-timeframe', '%s: first part of a section from %s' % (tf, ts(cl[0])))
            if self.part and self.last_tf is not None and tf.start != self.last_tf.end:
                self.fail('wrong-timeframe', '%s does not follow %s' % (tf, self.last_tf))
            self.last_tf = tf
        if self.look_ahead:
            la = chunk.look_ahead
            nxt = list(range(want[-1] + 1, min(want[-1] + 1 + self.look_ahead, len(self.df))))
            if len(la) != len(nxt):
                self.fail('wrong-look-ahead', '%d samples, expected %d' % (len(la), len(nxt)))
            if len(nxt):
                e = self.df.iloc[nxt]
                if self.la_cols:
                    if self.cols is not None:
                        e = e[[c for c in e.columns if tuple(c) in self.cols]]
                        la = la[list(e.columns)]
                    if not frame_eq(la, e):
                        self.fail('wrong-look-ahead', 'is\n%s\nexpected\n%s' % (show(la), show(e)))
                elif not ((pd.to_datetime(la.index, utc=True).values.astype('datetime64[s]').astype('int64') - W.T0) == instants(e)).all() \
                        or not np.array_equal(la.values.astype(e.values.dtype), e.values, equal_nan=True):
                    self.fail('wrong-look-ahead', 'is\n%s\nexpected\n%s' % (show(la), show(e)))
        self.done = off + len(chunk)
        self.last = want[-1]
        self.part += 1

    def finish(self):
        while self.pos is not None:
            self._finish_section()


# ---------------------------------------------------------------- generators

def gen_series(rng, cols, n=None, t0=None, big=False, aligned=True):
    step = rng.choice([1, 5, 6, 10, 60])
    n = n or rng.weighted([(rng.randint(2, 8), 2), (rng.randint(9, 40), 4), (rng.randint(41, 160), 2)] +
                          ([(rng.randint(500, 3000), 1)] if big else []))
    gaps = [[rng.randint(1, max(1, n - 1)), step * rng.choice([1, 2, 5, 20, 200])] for _ in range(rng.randint(0, 4))]
    return {'t0': rng.choice([0, 0, 37, 3600, 86399]) if t0 is None else t0, 'n': n, 'step': step,
            'gaps': gaps, 'jit': 0 if rng.chance(.7) else rng.randint(1, 10 ** 6) if step > 3 else 0,
            'cols': cols, 'kind': 'uniq', 'vseed': rng.randint(1, 50)}


def edge(rng, secs):
    """An instant worth choosing: on a sample, beside one, in a gap, outside."""
    k = rng.weighted([('on', 4), ('beside', 2), ('mid', 2), ('out', 1)])
    i = rng.randrange(len(secs))
    if k == 'on':
        return int(secs[i])
    if k == 'beside':
        return int(secs[i]) + rng.choice([-1, 1])
    if k == 'mid':
        j = min(i + 1, len(secs) - 1)
        return int(secs[i] + secs[j]) // 2
    return int(rng.choice([secs[0] - rng.randint(1, 5000), secs[-1] + rng.randint(1, 5000)]))


def gen_sections(rng, secs, hi=4, inc=True, opened=True):
    """None, or a list of sections (usually disjoint and in order)."""
    if rng.chance(.3):
        return None
    k = rng.randint(1, hi)
    pts = sorted({edge(rng, secs) for _ in range(2 * k + 2)})
    out = []
    mode = rng.weighted([('split', 3), ('apart', 3), ('overlap', 1)])
    if mode == 'split':
        out = [[a, b] for a, b in zip(pts, pts[1:])][:hi]
    elif mode == 'apart':
        out = [[pts[i], pts[i + 1]] for i in range(0, len(pts) - 1, 2)][:hi]
    else:
        for _ in range(k):
            a, b = sorted((edge(rng, secs), edge(rng, secs)))
            if a < b:
                out.append([a, b])
    if not out:
        return None
    if opened and rng.chance(.15):
        out[0][0] = None
    if opened and rng.chance(.15):
        out[-1][1] = None
    if rng.chance(.1):
        out = out[::-1]
    if inc:
        out = [s + [True] if s[1] is not None and rng.chance(.12) else s for s in out]
    return out


def gen_window(rng, secs, p=.4):
    if not rng.chance(p):
        return None
    a, b = sorted((edge(rng, secs), edge(rng, secs)))
    if a == b:
        b += 1
    if rng.chance(.2):
        return [None, b]
    if rng.chance(.2):
        return [a, None]
    return [a, b]


def gen_chunk(rng, n):
    return rng.weighted([(1, 1), (2, 1), (3, 1), (rng.randint(1, max(2, n)), 4), (max(1, n - 1), 1), (n, 1), (n + 1, 1),
                         (rng.randint(n, 10 * n + 5), 1), (None, 1)])


def unambiguous(secs, sections, win):
    """Leave out sections which begin with the very sample that the one before ended with: parts
    may overlap by one sample, so the model could not tell what belongs where."""
    if sections is None:
        return None
    out, last = [], None
    for s in sections:
        pos = rows_of(secs, clip(s, win))
        if len(pos):
            if pos[0] == last:
                continue
            last = pos[-1]
        out.append(s)
    return out or None
