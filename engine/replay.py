"""Child process: loads a native build of the harnesses and runs one of them on concrete buffers
placed flush against inaccessible guard pages. Reads a pickled job on stdin, writes a pickled result."""
import ctypes
import mmap
import pickle
import sys

PAGE = 4096
libc = ctypes.CDLL(None)


def guarded(data, align, after):
    """place data so it ends (after=True) or starts (after=False) at a guard page"""
    n = len(data)
    pages = (n + PAGE - 1) // PAGE + 1
    tot = (pages + 2) * PAGE
    m = mmap.mmap(-1, tot)
    base = ctypes.addressof(ctypes.c_char.from_buffer(m))
    end = base + tot - PAGE
    if after:
        addr = end - n
        addr -= addr % align
    else:
        addr = base + PAGE
    # canaries everywhere else
    ctypes.memset(base + PAGE, 0xA5, tot - 2 * PAGE)
    ctypes.memmove(addr, bytes(data), n)
    libc.mprotect(ctypes.c_void_p(base), PAGE, 0)
    libc.mprotect(ctypes.c_void_p(base + tot - PAGE), PAGE, 0)
    return m, base, tot, addr, n


def canary_ok(g):
    m, base, tot, addr, n = g
    lo = ctypes.string_at(base + PAGE, addr - base - PAGE)
    hi = ctypes.string_at(addr + n, base + tot - PAGE - addr - n)
    return set(lo) <= {0xA5} and set(hi) <= {0xA5}


def main():
    job = pickle.load(sys.stdin.buffer)
    lib = ctypes.CDLL(job['so'])
    f = getattr(lib, job['sym'])
    f.restype = None
    res = []
    for bufs in job['inputs']:
        r = {}
        for after in (True, False):
            gs = [guarded(d, al, after) for d, al in bufs]
            f(*[ctypes.c_void_p(g[3]) for g in gs])
            out = [ctypes.string_at(g[3], g[4]) for g in gs]
            r['ok' if after else 'ok2'] = [canary_ok(g) for g in gs]
            r['out' if after else 'out2'] = out
        res.append(r)
        sys.stdout.buffer.write(pickle.dumps(r))
        sys.stdout.buffer.flush()


main()
