"""The same protocol as h.h, for explorers of the Python module."""
import sys, os, struct, mmap, json, time, ctypes
if not os.environ.get("H_NOASLR"):
    os.environ["H_NOASLR"] = "1"; os.environ["PYTHONHASHSEED"] = "0"
    libc = ctypes.CDLL(None)
    p = libc.personality(ctypes.c_ulong(0xffffffff))
    if p != -1 and libc.personality(ctypes.c_ulong(p | 0x0040000)) != -1: os.execv(sys.executable, [sys.executable, *sys.argv])
A = sys.argv[1:]
def _opt(n, d=None): return A[A.index(n) + 1] if n in A else d
thorough = _opt("--tier") == "thorough"
only, upto = int(_opt("--only", -1)), int(_opt("--upto", -1))
shard, shards = int(_opt("--shard", 0)), int(_opt("--shards", 1))
limit = float(_opt("--limit", 500))
class Stop(BaseException): pass
n = executed = transitions = traces = nfail = 0
states = set(); perkey = {}; samples = []; desc = ""; capped = False; t0 = time.time(); phases = []
_f = open(_opt("--fails"), "w") if _opt("--fails") else sys.stdout
_crumb = None
if _opt("--crumb"):
    fd = os.open(_opt("--crumb"), os.O_RDWR | os.O_CREAT, 0o644); os.ftruncate(fd, 8 + (1 << 16)); _crumb = mmap.mmap(fd, 8 + (1 << 16))
def esc(s): return "".join("\\" + c if c == "\\" else "\\t" if c == "\t" else "\\n" if c == "\n" else c if 32 <= ord(c) < 127 else "\\x%02x" % ord(c) for c in s)
def tick(d):
    global n, executed, desc, capped
    n += 1
    if only >= 0 and n != only:
        if n > only: raise Stop()
        return False
    if upto >= 0 and n > upto: raise Stop()
    if only < 0 and shards > 1 and n % shards != shard:
        if n % 256 == 0 and time.time() - t0 > limit: capped = True; raise Stop()
        return False
    if executed % 16 == 0 and only < 0 and time.time() - t0 > limit: capped = True; raise Stop()
    executed += 1; desc = d
    if _crumb is not None:
        b = d.encode("utf8", "replace")[:(1 << 16) - 1]
        _crumb[8:8 + len(b) + 1] = b + b"\0"; _crumb[:8] = struct.pack("<Q", n)
    if len(samples) < 12 and (executed in (1, 7, 50, 333) or executed > 4000 and executed & (executed - 1) == 0): samples.append(d)
    return True
def fail(key, msg):
    global nfail
    nfail += 1; perkey[key] = perkey.get(key, 0) + 1
    if perkey[key] <= 25: _f.write("%d\t%s\t%s\t%s\n" % (n, esc(key), esc(msg), esc(desc))); _f.flush()
    if nfail > 20000: raise Stop()
def state(s): states.add(hash(s))
def trans(k=1):
    global transitions; transitions += k
def trace(k=1):
    global traces; traces += k
def phase(name): phases.append("before phase %s: %d cases, %.1f s" % (name, executed, time.time() - t0))
def load():
    sys.path.insert(0, os.environ.get("NARSESE_DIR", "/repo/_build"))
    import narsese
    return narsese
def main(run):
    if not os.environ.get("H_STDERR"): fd = os.open("/dev/null", os.O_WRONLY); os.dup2(fd, 2)
    rc = 0
    try: run()
    except Stop: pass
    except BaseException:
        import traceback; fail("exception", traceback.format_exc()[-800:])
    if _opt("--states"):
        with open(_opt("--states"), "wb") as f: f.write(b"".join(struct.pack("<q", h) for h in states))
    if _opt("--out"): json.dump(dict(cases=executed, states=len(states), transitions=transitions, traces_validated_against_impl=traces, failures=nfail, capped=capped, explore_s=round(time.time() - t0, 2), phases="; ".join(phases), samples=[esc(s)[:300] for s in samples]), open(_opt("--out"), "w"))
    _f.flush(); sys.stdout.flush()
    if _crumb is not None: _crumb[:8] = struct.pack("<Q", 0)
    os._exit(rc)
