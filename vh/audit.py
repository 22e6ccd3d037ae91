"""What the code under test does to the file system, as the interpreter reports it (sys.addaudithook)."""
import contextlib
import os
import sys

WRITES = {'os.mkdir': (0,), 'os.remove': (0,), 'os.rmdir': (0,), 'os.rename': (0, 1), 'os.truncate': (0,), 'os.link': (1,),
          'os.symlink': (1,), 'os.chmod': (0,), 'os.chown': (0,), 'os.utime': (0,)}
STARTS = ('subprocess.Popen', 'os.system', 'os.exec', 'os.posix_spawn', 'os.fork', 'socket.connect', 'socket.bind')
_log = None
_on = False
_pause = None


def _hook(event, args):
    global _pause, _log
    if _pause is not None and event in ('open', 'os.mkdir', 'os.remove', 'os.rename') and isinstance(args[0], (str, bytes)):
        if _abs(args[0]).startswith(_pause[0]):
            _pause[1] -= 1
            if _pause[1] < 0:
                do, _pause = _pause[2], None
                old, _log = _log, None
                try:
                    do()
                finally:
                    _log = old
    if _log is None:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return
        w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) if isinstance(flags, int) else 0
        if isinstance(mode, str) and set(mode) & set('wax+'):
            w = 1
        _log.append(('write' if w else 'read', _abs(path)))
    elif event in WRITES:
        for k in WRITES[event]:
            if not isinstance(args[k], int):
                _log.append(('exists' if event == 'os.mkdir' and os.path.isdir(_abs(args[k])) else event, _abs(args[k])))
    elif event in STARTS:
        _log.append((event, ''))


def _abs(p):
    return os.path.normpath(os.path.join(os.getcwd(), os.fsdecode(p)))


@contextlib.contextmanager
def watch():
    """List of (what, absolute path) of everything opened, made, changed or removed inside."""
    global _log, _on
    if not _on:
        sys.addaudithook(_hook)
        _on = True
    old, _log = _log, []
    mine = _log
    try:
        yield mine
    finally:
        _log = old


@contextlib.contextmanager
def pause(place, after, do):
    """Calls do() once, before the access number `after` to something in the place."""
    global _pause, _on
    if not _on:
        sys.addaudithook(_hook)
        _on = True
    _pause = [place, after, do]
    try:
        yield
    finally:
        _pause = None
