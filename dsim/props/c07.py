"""C07: discovery does not depend on the clock or the time zone."""
import os
import time
from random import Random

from .. import gen, oplib
from ..worker import H, Outcome
from .base import Base, short

NS = 10 ** 9


def wall(y, mo, d, h=0, mi=0, s=0):
    import calendar
    return calendar.timegm((y, mo, d, h, mi, s)) * NS


STARTS = [(2016, 7, 1), (2015, 2, 28), (2016, 2, 29), (2017, 1, 31), (2017, 2, 1), (2017, 4, 30), (2019, 12, 31), (2020, 1, 1), (1999, 12, 31),
          (2000, 2, 29), (2001, 6, 30), (2038, 1, 19), (2050, 11, 15), (2068, 2, 28), (2069, 3, 30), (2100, 2, 28), (1970, 1, 1), (2049, 12, 31),
          (2026, 9, 30), (1985, 5, 31), (2080, 8, 29), (2024, 10, 6), (2024, 3, 31), (2096, 2, 29), (2200, 2, 28)]
ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Kiritimati', 'EST5EDT', 'CET-1CEST', 'Pacific/Apia', 'XYZ12', 'UTC0', 'NPT-5:45', 'MON8', 'AM3PM', 'XST3XDT,M11.1.0/0,M2.3.0/0', 'America/Sao_Paulo',
         'GAP-2GAQ,M4.1.6/0,M10.1.6/0', 'Asia/Beirut', 'HST10HDT,M3.2.0/0:30,M11.1.0/0:30', 'LMT-0:07:30', 'Africa/Monrovia']

YSTARTS = [1971, 1980, 1990, 2001, 2010, 2016, 2026, 2033, 2048, 2070, 2099, 2101, 2150, 2199, 2250]

MONTHS = ['Jan', 'Feb', 'March', 'apr', 'May', 'JUN', 'July', 'Aug', 'Sept', 'Oct', 'November', 'Dec']
DAYS = ['Mon', 'Tuesday', 'wed', 'Thu', 'FRI', 'Saturday', 'Sun']
YEARS = ['00', '15', '16', '20', '26', '36', '49', '50', '66', '67', '68', '69', '70', '76', '96', '99', '1999', '2000', '2012', '2015', "'99", '0001', '9999', '100']
TIMES = ['10:30', '00:00', '0:00', '23:59:59', '12am', '12 am', '10 pm', '10pm', '24:00', '10h', '10h30m', '12:00:00.000', '00:00:00.5', '10:30 EST', '00:00 UTC',
         '10:00+05:30', '00:00Z', '10:00 CET', 'T1030', '0', '3pm GMT+3', '00:00 CET', '10:30 XYZ', '0:00 am', '00:00-08:00', '10:30 MON', '12:30 AM',
         '10:30:00 EST', '23:59:59 CET', '00:00:00 UTC', '10:20:30 XYZ', '01:02:03 MON', '10:20:30 AM', '12:00:00 PM', '10:20:30.5 EST', '10:20:30 IST', '10:20:30 NPT',
         '10:20:30 EDT', '10:20:30EST', '10:20:30 GMT', '10:20:30+0530', '10:20 EST', '102030', '10:20:30 America/New_York', '10:20:30 CEST']


# around the moments the clocks of one of the zones go forward or back
EDGES = ['2014-11-02', '2015-11-01', '2016-11-06', '2016-02-21', '2017-10-15', '2016-03-13', '2016-03-27', '2016-10-30', '2014-04-05', '2016-04-02', '2016-10-01', '2011-12-30', '2011-12-29', '2018-11-04', '2015-03-29', '2016-04-01',
         '2017-03-26', '1970-01-01', '1969-12-31', '1972-05-01', '1972-01-07', '1901-12-13', '1900-01-01', '2038-01-19', '2016-12-31', '1883-11-18', '2000-10-08', '2018-11-03']
ETIMES = ['', '', '', ' 00:00', ' 00:00:00', ' 00:30', ' 01:30', ' 02:30', ' 02:00', ' 23:59:59', ' 23:00', ' 03:14:08', ' 00:44:30', ' 01:00', 'T00:00', ' 12am', ' 24:00', ' 00:00:00.0']


def datestr(r):
    if r.random() < 0.2:
        y, m, d = r.choice(EDGES).split('-')
        return r.choice((y + '-' + m + '-' + d, y + '-' + m + '-' + d, m + '/' + d + '/' + y, y + m + d, MONTHS[int(m) - 1] + ' ' + d + ' ' + y, d + ' ' + MONTHS[int(m) - 1] + ', ' + y)) + r.choice(ETIMES)
    d = r.choice([1, 2, 5, 9, 12, 13, 28, 29, 29, 29, 30, 30, 31, 31, 32, 0])
    m = r.choice(MONTHS + ['Feb', 'Feb', 'February', 'Apr', 'Sep'])
    mn = r.choice([1, 2, 2, 2, 3, 4, 6, 9, 11, 12, 13])
    y = r.choice(YEARS)
    if r.random() < 0.3:
        # near, or a round number of years from, the moments processes start at
        y = str(r.choice(YSTARTS + [s[0] for s in STARTS]) + r.choice((0, 1, -1, 10, -10, 49, 50, 51, -49, -50, -51, 99, 100, 101, -99, -100, -101, 200, -200)))
    k = r.randrange(24)
    s = ['%s %d' % (m, d), '%d %s' % (d, m), '%s %s' % (m, y), m + ' ' + r.choice(TIMES), '%d/%d' % (mn, d), '%d-%d' % (mn, d), '%d/%d/%s' % (mn, d, y), '%d/%d/%s' % (d, mn, y),
         '%s-%d-%d' % (y, mn, d), '%s %d, %s' % (m, d, y), '%d %s %s' % (d, m, y), r.choice(DAYS) + ' ' + r.choice(TIMES), '%s %d' % (r.choice(DAYS), d), r.choice(TIMES),
         str(d), '%dth' % d, '%s, %d %s %s' % (r.choice(DAYS), d, m, y), '%s%02d%02d' % (y, mn, d), '%02d%02d%02d' % (int(y[-2:]) if y[-2:].isdigit() else 0, mn, d), '%d.%d.%s' % (d, mn, y),
         '%s-%d' % (y, mn), '%d %s' % (mn, y), r.choice(['today', 'now', 'noon', 'tomorrow', 'at 10', 'of 5', 'and 3', 'a.m. 3', 'ad 3', 'm 5', 'on 31', 'st', 'T5', '1st of Feb', '31 of Apr 15', '%d-%s' % (d, m), '%s-%s' % (m, y), '%d %s' % (d, r.choice(DAYS)),
                                               '%dT%02d' % (d, d % 24), '29 2', '2 29', '31 4', '30 2 15', '29 02 00', '29.02', '31.', '+5', '-3', '5.', '1/31', '.5', '3 days', '1 month', '2 Y', '30 s', '10 M', 'W5'],
                                              ),
         '%d %s %s' % (d, m, r.choice(TIMES))][k]
    if r.random() < 0.2:
        s += ' ' + r.choice(TIMES)
    if r.random() < 0.05:
        s = ' ' + s + ' '
    return s


def date_op(r):
    k = r.random()
    if k < 0.6:
        return 'D.discover(%r)' % datestr(r)
    if k < 0.75:
        return 'D.discover([%s])' % ', '.join(repr(datestr(r)) for _ in range(3))
    if k < 0.85:
        return 'D.discover({%r: %r, %r: [(%r, 1), (%r, 2)]})' % ('a', datestr(r), 'b', datestr(r), datestr(r))
    if k < 0.9:
        return 'D.discover(MyStr(%r))' % datestr(r)
    if k < 0.95:
        return r.choice(('D.discover(dt.datetime.fromtimestamp(0))', 'D.discover(dt.date(2016, 2, 29))', "D.discover(np.datetime64('2016-02-29'))", "D.from_numpy((), 'M8[s]')",
                         "D.discover(np.str_('Feb 29'))", "D.DateTime('EST')", "D.dshape(\"datetime[tz='EST']\")", "D.validate('date', dt.date(2016, 2, 29))",
                         "D.validate('datetime', dt.datetime(2016, 2, 29))", "D.discover(np.array(['2016-02-29'], 'M8[D]'))"))
    return 'D.discover((%r, %r))' % (datestr(r), datestr(r))


class Prop(Base):
    CHUNK = 60

    def begin_chunk(self, ch):
        r = Random(H(self.ctx.seed, 'c07', ch))
        self.pool = [date_op(r) for _ in range(260)] + [e for _ in range(12) for e in gen.group(r, 0)]

    def plan(self, rs, ch, i):
        r = Random(rs)
        ops = []
        for _ in range(r.choice((1, 1, 2))):
            ops.append(['start', self.when(r), r.choice(ZONES), r.choice((1000, 1000, 10 ** 6, 13 * 3600 * NS))])
            few = r.sample(self.pool, r.choice((3, 8)))
            for _ in range(r.choice((5, 15, 30))):
                k = r.random()
                if k < 0.72:
                    ops.append(['op', r.choice(few)])
                elif k < 0.82:
                    ops.append(['set', self.when(r)])
                elif k < 0.9:
                    ops.append(['tz', r.choice(ZONES)])
                else:
                    ops.append(['jump', r.randrange(1, 8), r.choice((1, -1)) * r.choice((NS, 3600 * NS, 86400 * NS, 31 * 86400 * NS, 366 * 86400 * NS, 36600 * 86400 * NS))])
        return {'ops': ops}

    @staticmethod
    def when(r):
        y, m, d = r.choice(STARTS)
        if r.random() < 0.3:
            y, m, d = r.choice(YSTARTS), r.randrange(1, 13), r.randrange(1, 29)
        return wall(y, m, d, r.choice((0, 0, 12, 23)), r.choice((0, 59)), r.choice((0, 59)))

    def start(self, w, step):
        import dateutil.parser._parser as dp
        self.ctx.clock.set(wall_ns=w, step_ns=step)
        dp.DEFAULTPARSER = dp.parser()            # as a process started now would have it
        return self.ctx.node()

    def tz(self, z):
        os.environ['TZ'] = z
        time.tzset()

    def execute(self, plan):
        out = Outcome()
        ctx = self.ctx
        try:
            refs = {}
            self.tz('UTC')
            for it in plan['ops']:
                if it[0] == 'op' and it[1] not in ctx.refs:
                    self.reset()
                refs[it[1]] = ctx.ref(it[1]) if it[0] == 'op' else None
            self.reset()
            node = env = None
            dig = []
            now = step = None
            reads = 0
            for n, it in enumerate(plan['ops']):
                if it[0] == 'start':
                    self.tz(it[2])
                    now, step = it[1], it[3]
                    node = self.start(now, step)
                    env = oplib.make_env(node.D)
                    out.bump('process starts')
                elif it[0] == 'set':
                    now = it[1]
                    ctx.clock.set(wall_ns=now, step_ns=step or 1000)
                    out.bump('clock changes')
                elif it[0] == 'tz':
                    self.tz(it[1])
                    out.bump('time zone changes')
                elif it[0] == 'jump':
                    ctx.clock.set(wall_ns=now or wall(2016, 7, 1), step_ns=step or 1000, jumps=[(it[1], it[2])])
                    out.bump('jumps armed inside a call')
                elif node is not None:
                    w0 = ctx.clock.reads()[1]
                    got = oplib.evaluate(it[1], env)[0]
                    w1 = ctx.clock.reads()[1]
                    out.bump('calls')
                    if w1 > w0:
                        out.bump('calls that read the clock')
                        reads += 1
                    dig.append(got)
                    if got != refs[it[1]]:
                        out.bad('depends-on-the-clock', step=n, op=it[1], expected=short(refs[it[1]]), got=short(got),
                                clock=time.strftime('%Y-%m-%d', time.gmtime(ctx.clock.now() // NS)), tz=os.environ['TZ'])
                        break
        finally:
            self.tz('UTC')
            self.reset()
        out.key = H(repr(plan))
        out.nontrivial = len(set(repr(x) for x in plan['ops'] if x[0] in ('start', 'set', 'tz'))) > 0 and bool(dig)
        out.digest = H(repr(dig))
        return out

    def reset(self):
        import dateutil.parser._parser as dp
        self.ctx.reset_clock()
        dp.DEFAULTPARSER = dp.parser()
        self.ctx.reset_clock()
