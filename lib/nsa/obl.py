"""Registry of obligations and the pool that discharges them."""
import gc, os, sys, time, signal, traceback, multiprocessing as mp
OBS = {}
class Ob:
    def __init__(self, id, props, fn, parts, opts, timeout, roots):
        self.id = id; self.props = props; self.fn = fn; self.parts = parts; self.opts = opts
        self.timeout = timeout; self.roots = roots
def ob(id, *props, parts=None, timeout=240, roots=None, **opts):
    def d(f):
        assert id not in OBS, id
        OBS[id] = Ob(id, props, f, parts or [{}], opts, timeout, roots)
        return f
    return d
class TimeUp(BaseException): pass       # passes every 'except Exception' of the analysis
def _alarm(sig, frm): raise TimeUp()
def alarm(t):
    """TimeUp after t seconds, again every 5 s in case it is lost in a finaliser"""
    signal.setitimer(signal.ITIMER_REAL, t, 5 if t else 0)
PROGS = {}
T0 = [time.time()]
# seconds since the start after which no further attempt of the kind is made
SMALL_BY, CONFIRM_BY, ALL_BY, LAST_BY = 330, 560, 760, 800
def elapsed(): return time.time() - T0[0]
def task(arg):
    oid, ix = arg
    from .harness import H, Missing, Found
    from .interp import Undecided
    o = OBS[oid]; kw = dict(o.parts[ix])
    t = time.time()
    r = {'ob': oid, 'part': kw, 'bad': [], 'checks': 0, 'paths': 0, 'runs': 0, 'err': None, 'fns': [], 'steps': 0, 'loops': 0, 'calls': 0}
    h = None
    signal.signal(signal.SIGALRM, _alarm)
    alarm(max(1, min(o.timeout, int(ALL_BY - elapsed()))))
    try:
        h = H(PROGS['main'].ffi if o.opts.get('crate') == 'ffi' else PROGS['main'].narrow, **o.opts)
        # with one violation in hand the rest of the analysis is of less interest
        h.hurry = lambda: alarm(max(1, min(90, o.timeout - (time.time() - t), ALL_BY - elapsed())))
        o.fn(h, **kw)
    except Missing as e: r['err'] = ('missing', str(e))
    except TimeUp: r['err'] = ('time', 'analysis of %s did not finish in %d s' % (h.what if h else '', o.timeout))
    except Undecided as e: r['err'] = ('und', str(e))
    except RecursionError: r['err'] = ('und', 'recursion')
    except Exception as e: r['err'] = ('und', 'internal: %s: %s' % (type(e).__name__, traceback.format_exc()[-700:]))
    finally: alarm(0)
    if h is not None and h.wits:
        try: h.bad = confirm(o, kw, h)
        except TimeUp: pass
        finally: alarm(0)
    if h is not None and h.bad and not r['err'] and not any(b[0] == 'violated' for b in h.bad):
        h = apart(o, kw, h) or h
    if h is not None and (h.bad or r['err']) and not any(b[0] == 'violated' for b in h.bad) and not (r['err'] and r['err'][0] == 'missing'):
        v = small(o, kw, h)
        if v: h.bad = v + h.bad
    if h is not None:
        r.update(bad=h.bad, checks=h.checks, paths=h.paths, runs=h.runs, fns=sorted(h.I.cov_fns, key=str), steps=h.I.steps, loops=h.I.cov_loops, calls=h.I.cov_calls, what=h.what)
    r['t'] = time.time() - t
    return r
def confirm(o, kw, h):
    """A violation found behind a summarised loop may be an artefact of the
    summary: it stands only if the analysis of the same function for the pinned
    input, where no loop needs a summary, reports a violation as well."""
    from .harness import H, Missing, Found
    from .interp import Undecided
    bare = [b for b in h.bad if b[0] == 'violated' and not any(m == b[2] for m, _ in h.wits)]
    seen = set(); todo = []
    for m, pin in h.wits:
        k = m.split(' [')[0]
        if (k, pin) in seen: continue
        seen.add((k, pin)); todo.append((sum(1 for _, x, _ in todo if x == k), k, pin))
    todo.sort(key=lambda t: t[0])
    tried = 0; why = []; got = []; done = set()
    for _, k, pin in todo[:6]:
        if k in done: continue
        if elapsed() > CONFIRM_BY: why.append('out of time'); break
        # one confirmed violation settles an obligation, unless it may be a listed finding
        h2 = H(h.prog, **dict(o.opts, pin=pin, unroll=True, first=not o.opts.get('every')))
        tried += 1
        alarm(60)
        try: o.fn(h2, **kw)
        except Found: pass
        except TimeUp: why.append('time')
        except (Missing, Undecided, RecursionError) as e: why.append(str(e))
        except Exception as e: why.append('%s: %s' % (type(e).__name__, e))
        finally: alarm(0)
        v = [b for b in h2.bad if b[0] == 'violated']
        if v and not o.opts.get('every'): return bare + v + [b for b in h.bad if b[0] != 'violated']
        if v:
            got += [b for b in v if b not in got]; done |= {b[2].split(' [')[0] for b in v}
            continue
        why += [b[2][:120] for b in h2.bad][:2]
    if got: return bare + got + [b for b in h.bad if b[0] != 'violated']
    return bare + [('undecided', b[1], 'not confirmed for the pinned input (%s): %s' % ('; '.join(why)[:200], b[2])) if b[0] == 'violated' and b not in bare else b for b in h.bad if b not in bare]
def apart(o, kw, h):
    """Joining paths forgets what held on one of them only: look at every path
    on its own before giving up.  The result when it decides, else None"""
    from .harness import H, Missing, Found
    from .interp import Undecided
    if 'nomerge' in o.opts or elapsed() > SMALL_BY: return None
    h2 = H(h.prog, **dict(o.opts, nomerge=True))
    alarm(45)
    try: o.fn(h2, **kw)
    except (Exception, TimeUp): return None
    finally: alarm(0)
    if not h2.bad: return h2
    if h2.wits:
        try: h2.bad = confirm(o, kw, h2)
        except TimeUp: return None
        finally: alarm(0)
        if any(b[0] == 'violated' for b in h2.bad): return h2
    return None
def small(o, kw, h):
    """Nothing was decided: analyse the function again for inputs of small sizes,
    where loops end on their own and need no summary.  Only a violation counts,
    and it has to stand for one pinned input."""
    from .harness import H, Missing, Found
    from .interp import Undecided
    t = time.time()
    for k in (3, 12, 70):
        if elapsed() > SMALL_BY or time.time() - t > 110: break
        h2 = H(h.prog, **dict(o.opts, unroll=True, small=k, first=True))
        alarm(40)
        try: o.fn(h2, **kw)
        except TimeUp: pass
        except (Missing, Undecided, RecursionError): pass
        except Exception: pass
        finally: alarm(0)
        if any(b[0] == 'violated' for b in h2.bad):
            try: v = [b for b in confirm(o, kw, h2) if b[0] == 'violated']
            except TimeUp: v = []
            if v: return v
    return []
def run(oids, prog, jobs=8, progress=None):
    PROGS['main'] = prog; T0[0] = time.time()
    # parse the inputs once, before forking
    for o in oids: prog.ffi if OBS[o].opts.get('crate') == 'ffi' else prog.narrow
    tasks = [(oid, i) for oid in oids for i in range(len(OBS[oid].parts))]
    out = []
    if jobs == 1:
        for t in tasks:
            out.append(task(t))
            if progress: progress(out[-1])
        return out
    gc.collect(); gc.freeze()
    ctx = mp.get_context('fork')
    with ctx.Pool(jobs, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(task, tasks, chunksize=1)
        while len(out) < len(tasks):
            try: r = it.next(timeout=max(1, LAST_BY - elapsed()))
            except (mp.TimeoutError, StopIteration): break     # a worker that died or does not answer
            out.append(r)
            if progress: progress(r)
    got = {(r['ob'], str(r['part'])) for r in out}
    for oid, i in tasks:
        if (oid, str(OBS[oid].parts[i])) not in got:
            out.append({'ob': oid, 'part': OBS[oid].parts[i], 'bad': [], 'err': ('time', 'the analysis gave no answer in time'), 'checks': 0, 'paths': 0, 'runs': 0, 'fns': [], 'steps': 0, 'loops': 0, 'calls': 0, 't': 0.0, 'what': ''})
    return out
