"""Replies: how many replies each command queues."""
import re
import lib
import sim
from lib import commands, replies
from registry import prop
from rules_record import norm


class Count(sim.Rule):
    def __init__(self, p, extra=(), multi=False):
        self.p = p
        self.rep = set(replies(p).fns) | set(extra)
        self.events = tuple(self.rep)
        self.opaque = tuple(self.rep)
        self.classes = ('redis_client_t.watching',)
        self.multi = multi
        self.bad = []

    def initial(self):
        return (0, 0, 0, 0, ())

    def apart(self, st):
        return st.auto[3]

    def live(self, st):
        return frozenset().union(*[sim.leaves(x) for a, b in st.auto[4] for x in (a, b[1])])

    def piece(self, S, st, args):
        """does this call complete a reply?  A bulk reply may be queued as length, bytes and line end"""
        n, w, l, part, text = st.auto
        t = lib.strval(S, args[1]) if len(args) > 1 else None
        if t is None and len(args) > 1:
            b = dict(text).get(args[1])
            t = b[0] if b and len(args) > 2 and norm(args[2]) == b[1] else None
        if part == 0:
            part = 1 if t is not None and re.fullmatch(r'\$%[a-z]+\r\n', t) else 0
        elif part == 1:
            part = 2
        else:
            part = 0 if t == '\r\n' else 3
        st.auto = (n if part else min(n + 1, 3), w, l, part, text)

    def on_call(self, S, st, ins, name, args):
        if name in self.rep:
            self.piece(S, st, args)
            st.note('%s: reply queued' % ins.loc)
            return [(st, 0 if name in replies(self.p).fns else None)] if not ins.ty or name in replies(self.p).fns else [(st, lib.fresh(S, st, ins, name))]
        if name in ('sprintf', 'snprintf'):
            t = lib.strval(S, args[1 if name == 'sprintf' else 2])
            d = dict(st.auto[4])
            d.pop(args[0], None)
            if t is not None and t.startswith('$%') and len(t) < 8:
                r = lib.fresh(S, st, ins, name)
                S.addfact(st, r, (4, 40, frozenset()))
                d[args[0]] = (t, r)
                st.auto = st.auto[:4] + (tuple(sorted(d.items(), key=repr)),)
                S.killroot(st, args[0], ('c', ins.fn.name, ins.id))
                return [(st, r)]
            st.auto = st.auto[:4] + (tuple(sorted(d.items(), key=repr)),)
        if name == 'strlen':
            b = dict(st.auto[4]).get(args[0])
            return [(st, b[1])] if b else None
        return None

    def on_store(self, S, st, ins, key, cls, val):
        if cls == 'redis_client_t.watching' and S.truth_zero(st, val) is False:
            st.auto = (st.auto[0], 1) + st.auto[2:]

    def replying(self, fn, h):
        return any(i.op == 'call' and set(self.p.targets(i)) & self.emit for b in fn.loops[h] for i in fn.blocks[b])

    def on_loopentry(self, S, st, fn, h):
        if self.multi and self.replying(fn, h):
            if st.auto[0] != 1 or st.auto[2] or st.auto[3]:
                self.bad.append((fn.loc, st.path(), 'the loop over the elements starts after %d header replies' % st.auto[0]))
            st.auto = (0, st.auto[1], 1) + st.auto[3:]

    def on_backedge(self, S, st, fn, h):
        if self.multi and self.replying(fn, h):
            if st.auto[0] != 1 or st.auto[3]:
                self.bad.append((fn.loc, st.path(), 'an iteration of the element loop queues %d replies' % st.auto[0]))
            st.auto = (0, st.auto[1], 1) + st.auto[3:]

    @property
    def emit(self):
        if not hasattr(self, '_emit'):
            self._emit = self.rep | {n for n in self.p.defined if self.p.reach[n] & self.rep}
        return self._emit


@prop('P16', 'Reply-counting automaton simulated over all paths of every handler of the command table and of the dispatcher: exactly one reply is queued on '
      'every path (one header plus one reply per loop iteration for the array-streaming commands, none when the client is put on WAIT).')
def p16(ctx):
    p = ctx.prog()
    seen = set()
    for name, h in commands(p):
        if h in seen:
            continue
        seen.add(h)
        multi = name in ('MGET', 'NSLIST')
        okay = lambda a: not a[3] and ((a[0] == 1 and not a[1] and not a[2]) or (a[1] and a[0] == 0) or (a[2] and a[0] == 0))
        r, ex = ctx.refine(p, lambda: Count(p, multi=multi), h, bad=lambda r, ex: r.bad or any(not okay(s.auto) for s, v in ex))
        bad = None
        for s, v in ex:
            n, w = s.auto[:2]
            if not okay(s.auto):
                bad = (s, n, w)
                key = 'reply-%s' % ('missing' if n == 0 else 'twice')
                ctx.bad('%s:%s' % (key, name), p.defined[h].loc, 'command %s: a path queues %s' % (name, 'an incomplete reply' if s.auto[3] else 'no reply' if n == 0 else 'more than one reply' if not w else 'a reply and waits'), s.path())
        if r.bad:
            bad = r.bad[0]
            ctx.bad('reply-element:' + name, bad[0], 'command %s: %s' % (name, bad[2]), bad[1])
        if not bad:
            ctx.ok('reply:' + name, 'command %s: %d paths, one reply each' % (name, len(ex)), p.defined[h].loc)
    ctx.need(len(seen), 30, 'handlers')
    # the dispatcher: one handler or one reply
    hs = {h for _, h in commands(p)}
    disp = [n for n, f in p.defined.items() if n not in hs and hs <= p.callees[n] | p.reach[n] and any(i.target() is None and set(p.targets(i)) >= hs for i in f.calls())]
    ctx.need(len(disp), 1, 'dispatchers')
    for d in disp:
        r, ex = ctx.refine(p, lambda: Count(p, extra=hs), d, bad=lambda r, ex: any(s.auto[0] != 1 or s.auto[3] for s, v in ex))
        bad = [s for s, v in ex if s.auto[0] != 1 or s.auto[3]]
        if bad:
            ctx.bad('dispatch:%d' % bad[0].auto[0], p.defined[d].loc, 'a request is answered by %d replies or handlers' % bad[0].auto[0], bad[0].path())
        else:
            ctx.ok('dispatch', 'dispatcher: %d paths, each runs one handler or queues one reply' % len(ex), p.defined[d].loc)
