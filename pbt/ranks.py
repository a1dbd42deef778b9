"""Runs a function on several real processes that form a torch.distributed group over the loopback network."""
import os, pickle, select, signal, socket, struct, sys, time, traceback

from .core import fail


_next = 0


def free_port():
    """A port no other worker of this run hands out, below the range of the ports the system hands out."""
    global _next
    first = 10000 + os.getpid() % 100 * 200
    for _ in range(200):
        _next += 1
        with socket.socket() as s:
            try:
                s.bind(("127.0.0.1", first + _next % 200))
                return first + _next % 200
            except OSError:
                pass
    raise RuntimeError("no free port")


class Unusable(Exception):
    """The processes did not find each other (port taken meanwhile, overloaded machine): says nothing about the code."""


def _child(rank, world, port, fn, args, fd):
    os.environ.update(RANK=str(rank), WORLD_SIZE=str(world), LOCAL_RANK=str(rank), MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port),
                      GLOO_SOCKET_IFNAME="lo", TORCH_CPP_LOG_LEVEL="FATAL")
    try:
        out = ("ok", fn(*args))
    except Unusable as e:
        out = ("unusable", str(e))
    except BaseException as e:
        out = ("error", f"{type(e).__name__}: {e}\n{''.join(traceback.format_tb(e.__traceback__)[-3:])}")
    data = pickle.dumps(out)
    with os.fdopen(fd, "wb") as f:
        f.write(data)


def _once(world, fn, args, seconds):
    port, pids, fds = free_port(), [], []
    sys.stdout.flush(), sys.stderr.flush()
    for r in range(world):
        a, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                signal.setitimer(signal.ITIMER_PROF, 0)
                os.close(a)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 2)
                _child(r, world, port, fn, args, b)
                code = 0
            finally:
                os._exit(code)
        os.close(b)
        pids.append(pid), fds.append(a)
    data, open_fds, end = {f: b"" for f in fds}, set(fds), time.time() + seconds
    try:
        while open_fds and time.time() < end:
            for f in select.select(list(open_fds), [], [], 1.0)[0]:
                piece = os.read(f, 1 << 20)
                data[f] += piece
                if not piece:
                    open_fds.discard(f)
    finally:
        for f in fds:
            os.close(f)
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(p, 0)
    return [pickle.loads(data[f]) if f not in open_fds and data[f] else ("silent", "no answer" if f in open_fds else "ended")
            for f in fds]


def on_ranks(world, fn, *args, seconds=30, what=""):
    """Results of ``fn(*args)`` on every rank; fails if a rank raises or waits for ever for the others, time and again."""
    broken = 0
    for attempt in range(6):
        out = _once(world, fn, args, seconds)
        bad = [(r, s, m) for r, (s, m) in enumerate(out) if s != "ok"]
        if not bad:
            return [v for _, v in out]
        # the others complain about the rank that went away
        lost = [b for b in bad if b[1] != "error" or any(x in b[2] for x in ("Connection", "gloo"))]
        cause = [b for b in bad if b not in lost]
        if cause:
            fail(f"{what}{world} ranks: rank {cause[0][0]} {cause[0][1]}: {cause[0][2]}")
        if all(s != "unusable" for _, s, _ in bad):
            broken += 1
            if broken == 3:
                fail(f"{what}{world} ranks: rank {lost[0][0]} {lost[0][1]}: {lost[0][2]}")
        time.sleep(0.2 * (attempt + 1))
    raise RuntimeError("could not set up a group of local processes")
