"""Evaluate a function in a forked child: nothing it does is seen here."""
import os
import pickle
import signal
import traceback


def in_child(func, *args):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ('ok', func(*args))
            except Exception as err:
                out = ('raised', type(err).__name__ + ': ' + str(err)[:200])
            with os.fdopen(w, 'wb') as fh:
                pickle.dump(out, fh)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        return ('raised', 'child died')
    return pickle.loads(data)


def many(func, argslist, workers=6):
    """in_child over a list, a few at a time"""
    out = [None] * len(argslist)
    running = {}
    todo = list(range(len(argslist)))[::-1]

    def launch(i):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    res = ('ok', func(*argslist[i]))
                except Exception as err:
                    res = ('raised', type(err).__name__)
                with os.fdopen(w, 'wb') as fh:
                    pickle.dump(res, fh)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(w)
        return r, pid
    while todo or running:
        while todo and len(running) < workers:
            i = todo.pop()
            running[i] = launch(i)
        i = next(iter(running))
        r, pid = running.pop(i)
        with os.fdopen(r, 'rb') as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        out[i] = pickle.loads(data) if data else ('raised', 'child died')
    return out
