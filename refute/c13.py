"""C13: an incompletely written database is never taken for complete"""
from common import *
import json
import shutil
import sys

RULE = 'the write stops after the n-th executed line of the database code (child process ends without flushing), or an error comes from the records; non-trivial: the write did not complete'


def cases(rng, fixed):
    if fixed:
        for how in ('error', 'badrec', 'dup'):
            for at in (0, 1, 2, 3, 5):
                for api in ('create', 'with', 'manual'):
                    yield dict(n=6, size=2, how=how, at=at, api=api, pre=[], overwrite=False)
        for pre in (['a'], ['a', '_SUCCESS'], ['part-000', 'part-000.meta']):
            for ow in (False, True):
                for how in ('none', 'error'):
                    yield dict(n=4, size=2, how=how, at=1, api='create', pre=pre, overwrite=ow)
        for how in ('error', 'badrec', 'crash', 'none'):
            for at in (0, 1, 3) if how != 'crash' else range(0, 140, 5):
                for api in ('create', 'manual'):
                    yield dict(n=6, size=2, how=how, at=at, api=api, pre='db', overwrite=True)
        yield dict(n=25, size=1, how='none', at=0, api='create', pre=[], overwrite=False)
        for at in range(0, 400, 9):
            yield dict(n=4, size=2, how='crash', at=at, api='create', pre=[], overwrite=False)
    while True:
        n = rng.choice([1, 3, 5, 12])
        yield dict(n=n, size=rng.choice([1, 2, 5]), how=rng.choice(['crash', 'crash', 'crash', 'error', 'badrec', 'dup', 'none']), at=rng.randrange(0, 80 * n + 60) if rng.random() < .8 else rng.randint(0, 3),
                   api=rng.choice(['create', 'with', 'manual']), pre=[], overwrite=rng.random() < .3)
        yield dict(n=rng.choice([3, 5, 12]), size=rng.choice([1, 2, 5]), how=rng.choice(['crash', 'error', 'none']), at=rng.randint(0, 300), api=rng.choice(['create', 'with', 'manual']), pre='db', overwrite=rng.random() < .8)


def records(c):
    for i in range(c['n']):
        if i == c['at'] % max(1, c['n']):
            if c['how'] == 'error':
                raise RuntimeError('bad record')
            if c['how'] == 'badrec':
                yield i, [[1]]
                continue
            if c['how'] == 'dup' and i % c['size']:      # twice in one part
                yield i - 1, [[1], [2]]
                continue
        yield i, [[i, i + 1], [i]]


def write(c, path):
    from nlcodec.db.core import MultipartDb
    if c['api'] == 'create':
        MultipartDb.create(path, records(c), ['x', 'y'], has_id=True, overwrite=c['overwrite'], part_size=c['size'])
    elif c['api'] == 'with':
        with MultipartDb.Writer(path, ['x', 'y'], overwrite=c['overwrite']) as w:
            for k, s in enumerate(MultipartDb.slices(records(c), c['size'])):
                w(k, s)
    else:
        w = MultipartDb.Writer(path, ['x', 'y'], overwrite=c['overwrite'])
        for k, s in enumerate(MultipartDb.slices(records(c), c['size'])):
            w(k, s)
        w.close()


def load_all(path):
    from nlcodec.db.core import MultipartDb
    db = MultipartDb.load(path)
    return len(db), sorted((r.id, list(map(int, r.x)), list(map(int, r.y))) for r in db)


def snapshot(path):
    return {f: open(os.path.join(path, f), 'rb').read() for f in sorted(os.listdir(path))}


def check(c):
    import nlcodec.db.core as core
    d = scratch()
    path = os.path.join(d, 'db')
    try:
        if c['pre'] == 'db':        # a complete database is in its place
            write(dict(n=5, size=2, how='none', at=0, api='create', overwrite=False), path)
            before = snapshot(path)
        elif c['pre']:
            os.makedirs(path)
            for f in c['pre']:
                open(os.path.join(path, f), 'w').write('{"parts": {}, "field_names": []}' if f == '_SUCCESS' else 'precious')
            before = snapshot(path)
        want = [(i, [i, i + 1], [i]) for i in range(c['n'])]
        done = None
        if c['how'] == 'crash':
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    left = [c['at']]
                    fname = core.__file__

                    def tr(frame, ev, arg):
                        if not frame.f_code.co_filename.endswith('core.py') or frame.f_code.co_filename != fname:
                            return None
                        if ev == 'line':
                            left[0] -= 1
                            if left[0] < 0:
                                os._exit(9)
                        return tr
                    sys.settrace(tr)
                    write(c, path)
                    sys.settrace(None)
                    os._exit(0)
                except BaseException:      # noqa
                    os._exit(7)
            st = os.waitpid(pid, 0)[1]
            code = os.waitstatus_to_exitcode(st)
            require(code in (0, 9) or code == 7 and c['pre'] and not c['overwrite'], 'writing failed by itself', code)
            done = code == 0
        else:
            try:
                write(c, path)
                done = True
            except Exception:       # noqa
                done = False
        if c['pre'] and not c['overwrite']:
            require(not done and snapshot(path) == before, 'existing data touched without overwrite')
            return True
        if c['how'] == 'none':
            require(done, 'a complete write failed')
        if c['pre'] == 'db' and not done and os.path.isdir(path) and snapshot(path) == before:
            return True     # the earlier database, still complete
        try:
            got = load_all(path)
        except Exception:       # noqa
            got = None
        if done:
            require(got == (c['n'], want), 'a completed database does not load', got)
            meta = json.loads(open(os.path.join(path, '_SUCCESS')).read())
            files = sorted(f for f in os.listdir(path) if f.startswith('part-') and not f.endswith('.meta'))
            require(sorted(meta['parts']) == files, 'listed parts', meta, files)
            require(sum(p['count'] for p in meta['parts'].values()) == c['n'], 'listed counts', meta)
            require(all(p['count'] == c['size'] for p in list(meta['parts'][f] for f in files)[:-1]), 'listed count per part', meta)
        elif c['how'] == 'crash':
            # a crash after the flag was written leaves a complete database
            require(got is None or got == (c['n'], want), 'an incomplete database loads', got)
            if got is not None:
                require(os.path.getsize(os.path.join(path, '_SUCCESS')) > 0, 'flag')
        else:
            require(got is None, 'a database whose writing failed loads', got)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return not done
