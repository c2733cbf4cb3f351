"""Reference model of time series of fields: a list of (time, field model)
sorted by time."""
import numpy as np

from mc.core import expect
from mc import fm
from mc.fm import U, ratio, same_unit


class S(object):
    def __init__(self, items, ut="s"):
        self.items = sorted(items, key=lambda i: i[0])
        self.ut = U(ut) if isinstance(ut, str) else ut

    def copy(self):
        return S([(t, m.copy()) for t, m in self.items], self.ut)

    @property
    def times(self):
        return [t for t, _ in self.items]

    @property
    def fields(self):
        return [m for _, m in self.items]

    def __len__(self):
        return len(self.items)

    def map(self, fn):
        """None as soon as the operation is undefined for an element"""
        its = []
        for t, m in self.items:
            r = fn(m)
            if r is None:
                return None
            its.append((t, r))
        return S(its, self.ut)

    def key(self):
        return (tuple(np.round(self.times, 6)), fm.ustr(self.ut),
                tuple(m.key() for m in self.fields))

    def real(self, kind=None, order=None):
        from IMTreatment import TemporalScalarFields, TemporalVectorFields
        if kind is None:
            kind = "s" if len(self.fields[0].comps) == 1 else "v"
        ts = TemporalScalarFields() if kind == "s" else TemporalVectorFields()
        for i in (order or range(len(self.items))):
            t, m = self.items[i]
            ts.add_field(m.real(), time=t, unit_times=self.ut)
        return ts


def compare(ts, s, what="", rtol=1e-8):
    from IMTreatment import TemporalScalarFields, TemporalVectorFields
    if len(s):
        cls = TemporalScalarFields if len(s.fields[0].comps) == 1 else \
            TemporalVectorFields
        expect(isinstance(ts, cls), "class" + what, lambda: repr(type(ts)))
    expect(len(ts) == len(s) == len(ts.fields), "number of fields" + what,
           lambda: (len(ts), len(s)))
    tm = np.array(ts.times, dtype=float)
    expect(fm.close(tm, np.array(s.times, dtype=float)), "times" + what,
           lambda: (tm.tolist(), s.times))
    if not len(s):
        return s.key()
    expect(same_unit(ts.unit_times, s.ut), "time unit" + what,
           lambda: (str(ts.unit_times), str(s.ut)))
    m0 = s.fields[0]
    expect(fm.close(ts.axe_x, m0.ax, rtol), "series x axis" + what,
           lambda: (np.array(ts.axe_x).tolist(), m0.ax.tolist()))
    expect(fm.close(ts.axe_y, m0.ay, rtol), "series y axis" + what,
           lambda: (np.array(ts.axe_y).tolist(), m0.ay.tolist()))
    expect(same_unit(ts.unit_x, m0.ux), "series x unit" + what,
           lambda: (str(ts.unit_x), str(m0.ux)))
    expect(same_unit(ts.unit_y, m0.uy), "series y unit" + what,
           lambda: (str(ts.unit_y), str(m0.uy)))
    expect(same_unit(ts.unit_values, m0.uv), "series values unit" + what,
           lambda: (str(ts.unit_values), str(m0.uv)))
    expect(tuple(ts.shape) == m0.shape, "series shape" + what)
    for i, m in enumerate(s.fields):
        fm.wellformed(ts.fields[i])
        fm.compare(ts.fields[i], m, rtol=rtol, what=" of an element" + what)
        expect(ts[i] is ts.fields[i], "indexing" + what)
    mk = np.array(ts.mask)
    expect(mk.shape == (len(s),) + m0.shape and
           np.array_equal(mk, np.array([m.mask for m in s.fields])),
           "series mask" + what)
    got = [(float(t), id(f)) for t, f in ts]
    expect(len(got) == len(s) and fm.close([g[0] for g in got], s.times) and
           [g[1] for g in got] == [id(f) for f in ts.fields],
           "iteration" + what)
    return s.key()
