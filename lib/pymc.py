"""Exhaustive-exploration driver for Python explorers (the counterpart of
harness/mc.h): a property enumerates its whole bounded space as a sequence of
(key, configuration); forked workers take every 8th one.  A worker that dies
or stops making progress is a violation of the configuration it ran."""
import argparse, ctypes, hashlib, json, mmap, os, signal, sys, time, traceback

NAMES = ('configs', 'evaluations', 'steps', 'accepted', 'rejected')


class Fail(Exception):
    pass


class Ctx:
    def __init__(self, thorough):
        self.thorough = thorough
        self.n = dict.fromkeys(NAMES, 0)
        self.outcomes = set()
        self.samples = []
        self.key = None

    def step(self, n=1):
        self.n['steps'] += n

    def eval(self):
        self.n['evaluations'] += 1

    def accepted(self):
        self.n['accepted'] += 1

    def rejected(self):
        self.n['rejected'] += 1

    def outcome(self, o):
        self.outcomes.add(hashlib.blake2b(repr(o).encode(), digest_size=8).hexdigest())

    def sample(self, s):
        if len(self.samples) < 1:
            self.samples.append('%s | %s' % (self.key, s))

    def fail(self, msg):
        raise Fail(msg)

    def check(self, cond, msg, *a):
        if not cond:
            raise Fail(msg % a if a else msg)


def _worker(w, jobs, start, space, run, thorough, mm, path, replay):
    c = Ctx(thorough)
    viol = []
    for i, (key, cfg) in enumerate(space(thorough)):
        if replay is None:
            if i % jobs != w or i < start:
                continue
        elif key != replay:
            continue
        mm[2 * w] = i
        mm[2 * w + 1] = int(time.time())
        c.key = key
        c.n['configs'] += 1
        try:
            run(c, cfg)
        except Fail as e:
            viol.append(dict(key=key, msg=str(e)))
        except Exception:
            viol.append(dict(key=key, msg='unexpected exception: ' + traceback.format_exc()[-1500:]))
        if viol and (len(viol) >= 8):
            break
    with open(path + '.tmp', 'w') as f:
        json.dump(dict(n=c.n, outcomes=sorted(c.outcomes), samples=c.samples, violations=viol), f)
    os.rename(path + '.tmp', path)


def main(spaces, setup=None, stall=120):
    """spaces: property -> (space(thorough) yielding (key, cfg), run(ctx, cfg))"""
    a = argparse.ArgumentParser()
    a.add_argument('--prop')
    a.add_argument('--tier', default='quick')
    a.add_argument('--out')
    a.add_argument('--replay')
    a.add_argument('--jobs', type=int, default=8)
    o = a.parse_args()
    space, run = spaces[o.prop]
    t0 = time.time()
    jobs = 1 if o.replay is not None else o.jobs
    mm = (ctypes.c_int64 * (2 * jobs)).from_buffer(mmap.mmap(-1, 16 * jobs))
    paths = ['%s.w%d' % (o.out, w) for w in range(jobs)]
    live, parts, viol = {}, [], []

    def spawn(w, start):
        mm[2 * w] = -1
        mm[2 * w + 1] = int(time.time())
        sys.stdout.flush()
        sys.stderr.flush()
        p = os.fork()
        if p == 0:
            try:
                fd = os.open(paths[w] + '.err', os.O_CREAT | os.O_TRUNC | os.O_WRONLY)
                os.dup2(fd, 2)
                _worker(w, jobs, start, space, run, o.tier == 'thorough', mm, paths[w], o.replay)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(78)
        live[p] = w

    def key_of(i):
        for j, (k, _) in enumerate(space(o.tier == 'thorough')):
            if j == i:
                return k
        return '(between configurations)'

    for w in range(jobs):
        spawn(w, 0)
    while live:
        p, st = os.waitpid(-1, os.WNOHANG)
        now = time.time()
        if p == 0:
            for q, w in list(live.items()):
                i, t = mm[2 * w], mm[2 * w + 1]
                if now - t > stall:
                    os.kill(q, signal.SIGKILL)
            time.sleep(0.02)
            continue
        w = live.pop(p)
        i, t = mm[2 * w], mm[2 * w + 1]
        if st == 0:
            parts.append(json.load(open(paths[w])))
            os.unlink(paths[w])
            continue
        tail = open(paths[w] + '.err', errors='replace').read()[:2200]
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 78:
            for q in live:
                os.kill(q, signal.SIGKILL)
            print(tail)
            sys.exit(77)
        what = 'does not terminate' if now - t > stall else 'died (status %d)' % st
        viol.append(dict(key=key_of(i), msg='execution %s: %s' % (what, tail)))
        if len(viol) < 12 and o.replay is None:
            spawn(w, i + 1)
    for p in paths:
        if os.path.exists(p + '.err'):
            os.unlink(p + '.err')
    r = {k: sum(x['n'][k] for x in parts) for k in NAMES}
    r['distinct_outcomes'] = len(set().union(*[x['outcomes'] for x in parts])) if parts else 0
    r['samples'] = [s for x in parts for s in x['samples']][:6]
    r['violations'] = (viol + [v for x in parts for v in x['violations']])[:48]
    r['wall_s'] = round(time.time() - t0, 2)
    with open(o.out, 'w') as f:
        json.dump(r, f)
    sys.exit(1 if r['violations'] else 0)
