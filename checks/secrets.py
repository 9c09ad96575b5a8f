"""C47: where credentials go."""
from wlsa.runner import prop, REGISTRY
from wlsa.harness import *
from wlsa import interp
from wlsa import terms as tm
from checks.frame import FrameLab
from checks import my

SECRETS = {'password', 'token'}
# the services, by the part of the package that has credentials for them
HOSTS = {'weatherlink.downloader': ('https://api.weatherlink.com/',),
         'weatherlink.exporter.wunderground': ('http://weatherstation.wunderground.com/', 'http://rtupdate.wunderground.com/',
                                               'https://weatherstation.wunderground.com/', 'https://rtupdate.wunderground.com/')}
CONNECT = 'call:mysql.connector.connect'


def carries(t, memo):
    """A secret, or what holds one, is part of the value (what a service answered is not, but the address that it was asked at is)."""
    if isinstance(t, tuple):
        return any(carries(x, memo) for x in t)
    if not isinstance(t, T):
        return False
    r = memo.get(t)
    if r is None:
        memo[t] = False
        if t.op == 'sym':
            r = t.args[0] in SECRETS
        elif t.op in ('res', 'excval'):
            r = False
        elif t.op == 'app' and t.args[0] == 'attr' and is_response(t.args[1][0]) and tm.pyval(t.args[1][1]) in ('url', 'request', 'history'):
            r = True
        else:
            r = carries(t.args, memo)
        memo[t] = r
    return r


def is_response(t):
    return isinstance(t, T) and t.op == 'res' and t.args[0] in ('.get', '.post', '.put', '.request')


def starts(t):
    """The constant texts that t may begin with, or None where it begins with something else."""
    if t.op == 'ite':
        return starts(t.args[1]) + starts(t.args[2])
    if t.op == 'const':
        return [t.args[1]]
    if t.op == 'seq' and t.args[0] == 'str':
        out = []
        for kind, g, x in t.args[1]:
            out += starts(x)
            if g is TRUE:
                return out
        return out + [None]
    return [None]


class SecretLab(FrameLab):
    def engine(self, *a, **k):
        it = Lab.engine(self, *a, **k)
        it.frame_hook = self.watch
        it.log_events = True
        return it

    def watch(self, it, fn, args, kwargs, st):
        start = st.trace

        def after(end, exits):
            memo = {}
            found = self.touched.setdefault(fn.qual, {'errors': None, 'effects': None})
            for e in exits:
                if e.kind == 'raise' and e.st.pc is not FALSE and carries(e.value, memo):
                    found['errors'] = 'the %s carries a credential' % tm.show(exc_type_of(it, e.value), 3)
            for s in [end] + [e.st for e in exits]:
                if s.pc is FALSE:
                    continue
                for ev in events(s.trace.since(start)):
                    bad = self.leak(fn, ev, memo)
                    if bad:
                        found['effects'] = bad
        return after

    def leak(self, fn, e, memo):
        if not carries((e.args, tuple(v for k, v in e.kw)), memo):
            return None
        if e.name == CONNECT:
            return None if not carries(e.args, memo) and [k for k, v in e.kw if carries(v, memo)] == ['password'] else (
                'the connector is given a credential as something else than the password')
        if e.name in ('.get', '.post', '.put', '.request', 'call:requests.get', 'call:requests.post'):
            hosts = HOSTS.get(fn.module, ())
            rest = [x for x in e.args if x.op != 'const' or x.args[1] not in ('GET', 'POST')] + [v for k, v in e.kw if k == 'url']
            if not rest or not all(p is not None and p.startswith(hosts) for p in starts(rest[0])):
                return 'a credential is sent to %s' % (tm.show(rest[0], 3)[:100] if rest else 'an unknown address')
            for k, v in [('', x) for x in rest[1:]] + [x for x in e.kw if x[0] not in ('url', 'params', 'data')]:
                if carries(v, memo):
                    return 'a credential is sent as %s' % (k or tm.show(v, 3)[:100])
            return None
        return 'a credential reaches %s' % e.name


def events(es):
    for e in es:
        if e.body is not None:
            for x in events(e.body):
                yield x
        else:
            yield e


@prop('C47', 20, 'taint analysis on the value graphs: the password and the token are part of no argument of an effect but the address of a '
      'request that begins with the address of their service, or the password of the database connection, and of no error raised')
def secrets(lab):
    touched = {}
    for pid in ('C12', 'C13', 'C14', 'C38', 'C40', 'C43'):
        sub = SecretLab(lab, touched)
        try:
            REGISTRY[pid].fn(sub)
        except tm.AnalysisError as e:
            lab.assumptions.append('the calls of check %s were not all followed: %s' % (pid, str(e)[:200]))
        lab.functions |= sub.functions
        lab.call_sites += sub.call_sites
    for q, t in sorted(touched.items()):
        for what, bad in sorted(t.items()):
            lab.oblige(q, 'no credential in its %s but where it belongs' % what, bad is None, bad)
