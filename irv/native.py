"""Concrete execution of the compiled sources (ctypes), in forked children, for replay and differential validation."""
import ctypes, json, mmap, os, pickle, random, select, shutil, signal, struct, tempfile, time, traceback
from . import front

class Lib:
    def __init__(self, path):
        self.l = ctypes.CDLL(path)
    def fn(self, name, res, *args):
        f = getattr(self.l, name)
        f.restype = res; f.argtypes = list(args)
        return f

class Native:
    """builds the library variants once"""
    def __init__(self):
        self.tmp = tempfile.mkdtemp(prefix='irvn')
        self.so = {}
    def lib(self, variant):
        if variant not in self.so:
            d = os.path.join(self.tmp, variant); os.mkdir(d)
            self.so[variant] = front.native_lib(d, noasm=(variant == 'noasm'), opt=os.environ.get('IRV_OPT'))
        return self.so[variant]
    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

def buf(n): return (ctypes.c_uint8 * max(n, 1))()

GUARD = 0xA7
class Guarded:
    """a buffer of exactly n bytes ending at an inaccessible page (reads or writes past the end fault)"""
    def __init__(self, n, fill=None, data=None):
        pg = 4096
        sz = ((n + pg - 1) // pg + 1) * pg
        self.m = mmap.mmap(-1, sz + pg)
        base = ctypes.addressof(ctypes.c_char.from_buffer(self.m))
        ctypes.CDLL(None).mprotect(ctypes.c_void_p(base + sz), ctypes.c_size_t(pg), 0)
        self.addr = base + sz - n
        self.n = n
        if data is not None: ctypes.memmove(self.addr, bytes(data), n)
        elif fill is not None: ctypes.memset(self.addr, fill, n)
    def get(self, off=0, n=None):
        return ctypes.string_at(self.addr + off, self.n - off if n is None else n)

class Stop(Exception): pass

MARK = [None]
def forked(fn, timeout, cell_size=1 << 16):
    """fn(report) runs in a child.  report(case) notes the case being tried.  fn returns (evals, violation or None).
    result: (evals, violation)"""
    m = mmap.mmap(-1, cell_size)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 2)
            cnt = [0]; MARK[0] = m
            def report(case):
                cnt[0] += 1
                b = json.dumps(case, default=lambda x: x.hex() if isinstance(x, (bytes, bytearray)) else str(x)).encode()[:cell_size - 24]
                m[0:16] = struct.pack('<QQ', cnt[0], len(b)); m[24:24 + len(b)] = b
            v = fn(report)
            os.write(w, pickle.dumps(('ok', cnt[0], v))[:60000])
        except Stop: os.write(w, pickle.dumps(('ok', cnt[0], None)))
        except BaseException as e:
            try: os.write(w, pickle.dumps(('err', 0, ''.join(traceback.format_exception(e))[-3000:])))
            except Exception: pass
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    end = time.time() + timeout
    hung = False
    while True:
        t = end - time.time()
        if t <= 0:
            hung = True; break
        rr, _, _ = select.select([r], [], [], t)
        if not rr: hung = True; break
        c = os.read(r, 65536)
        if not c: break
        data += c
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    n, ln = struct.unpack('<QQ', m[0:16])
    case = m[24:24 + ln].decode(errors='replace') if ln else ''
    if data:
        k, c, v = pickle.loads(data)
        if k == 'ok': return c, v
        raise RuntimeError('replay harness: ' + v)
    t_in = struct.unpack('<d', m[16:24])[0]
    if hung and t_in < 0: return n, None          # time ran out outside the compiled code
    if hung and t_in > 0 and time.monotonic() - t_in < 40: return n, None
    if hung: return n, dict(what='the call did not return (time limit)', case=case)
    return n, dict(what=f'the process died with status {status} (signal {status & 127})', case=case)
