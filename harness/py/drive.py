"""driver of C36: runs the binding of the repository against a stand-in for the reasoner which records what it gets and prints what was planned,
and the relation tool; reports what it saw as lines of fields, separated by tabs.
usage: drive.py SEED SECONDS SCRATCH REPO MAIN"""
import hashlib, importlib.util, json, os, random, shutil, signal, subprocess, sys, time, unicodedata

seed, secs, scratch, repo, main = int(sys.argv[1]), float(sys.argv[2]), sys.argv[3], sys.argv[4], sys.argv[5]
r = random.Random(seed)
deadline = time.time() + secs
out = sys.stdout

def emit(*a):
    out.write("\t".join(ascii(str(x))[1:-1].replace("\\'", "'") for x in a) + "\n"); out.flush()
def seen(h, **k):
    emit("S", h)
    for x in k: emit("C", x.replace("_", " "), k[x])
def gone(pid):
    """has the process ended?"""
    try: return open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()[0] in "ZX"
    except OSError: return True

class Late(Exception): pass
class Viol(Exception): pass
def alarm(_s, _f): raise Late()
signal.signal(signal.SIGALRM, alarm)

FAKE = r'''#!/usr/bin/python3
import json, os, sys
if os.environ.get("VH_REAL"):
    open(os.environ["VH_LOG"], "w").write(str(os.getpid()))
    os.execv(os.environ["VH_REAL"], [os.environ["VH_REAL"]] + sys.argv[3:])
plan = json.load(open(os.environ["VH_PLAN"], encoding="utf-8"))
log = open(os.environ["VH_LOG"], "a", encoding="utf-8")
def rec(x): log.write(json.dumps(x) + "\n"); log.flush()
o = sys.stdout.buffer
def say(ls):
    for l in ls: o.write(l.encode("utf-8") + b"\n")
    o.flush()
rec({"argv": sys.argv[1:], "cwd": os.getcwd(), "pid": os.getpid()})
say(plan["start"])
k = 0
for l in sys.stdin.buffer:
    rec({"line": l.decode("utf-8", "replace")})
    if k < len(plan["on"]): say(plan["on"][k])
    k += 1
    if k == plan["end"]: break
rec({"end": k})
'''
bind = os.path.join(scratch, "bin"); os.makedirs(bind, exist_ok=True)
open(bind + "/cargo", "w").write(FAKE); os.chmod(bind + "/cargo", 0o755)
os.environ["PATH"] = bind + ":" + os.environ["PATH"]

spec = importlib.util.spec_from_file_location("module.Binding", repo + "/Binding.py")
B = importlib.util.module_from_spec(spec); spec.loader.exec_module(B)

WORDS = ["a", "b-1", "<a --> b>.", "<{({SELF}*x)} --> ^op>!", "!s5", "!dt", "// c", "", " ", "  lead", "trail  ", "\t", "äöü", "中文", "😀", "'q' \"d\"", "%s {} \\n", "None", "0", "\u2028x", "\x0b", "g! :|:", "TRACE answer: "]
def text():
    k = r.randrange(12)
    if k < 5: return r.choice(WORDS)
    if k < 10: return " ".join(r.choice(WORDS) for _ in range(r.randrange(1, 6)))
    if k == 10: return "".join(r.choice("abcxyz<>-{}*,.!?:| ") for _ in range(r.randrange(200)))
    return r.choice(["x", "ab", "ü"]) * r.choice([100, 5000, 70000])
def numbered(n): return ["%d %s" % (i, r.choice(WORDS)) for i in range(n)]

def wait(f, t, what):
    e = time.time() + t
    while not f():
        if time.time() > e: raise Viol(what)
        time.sleep(0.002)

class One:
    """one binding with its stand-in and everything that is expected of it"""
    def __init__(self, n):
        self.dir = os.path.join(scratch, "d%d" % n); shutil.rmtree(self.dir, ignore_errors=True); os.makedirs(self.dir)
        self.log = self.dir + "/log"; open(self.log, "w").close()
        self.n = r.choice([1, 2, 5, 20, 60])
        on = []
        for _ in range(self.n):
            k = r.randrange(10)
            on.append([] if k < 3 else [text() for _ in range(r.randrange(1, 5))] if k < 8 else numbered(r.choice([50, 300])) if k < 9 else [text()] * r.randrange(2, 5))
        if r.randrange(5) == 0: on[r.randrange(self.n)] = numbered(r.choice([3000, 20000]))
        self.ends = r.randrange(3)  # 0: goes on, 1: ends by itself, 2: is killed
        self.plan = {"start": [text() for _ in range(r.choice([0, 0, 1, 3, 200]))], "on": on, "end": self.n if self.ends == 1 else -1}
        json.dump(self.plan, open(self.dir + "/plan", "w", encoding="utf-8"))
        os.environ["VH_PLAN"] = self.dir + "/plan"; os.environ["VH_LOG"] = self.log
        os.environ.pop("VH_REAL", None)
        self.b = B.Binding(self.dir)
        self.sent = []; self.got = []
        self.want = list(self.plan["start"])
    def records(self):
        return [json.loads(l) for l in open(self.log, encoding="utf-8").read().split("\n")[:-1]]
    def lines(self): return [x["line"] for x in self.records() if "line" in x]
    def send(self):
        k = r.randrange(8); i = len(self.sent)
        if k == 0: self.sent.append("!sp"); self.call(self.b.sp)
        elif k == 1: self.sent.append("!s"); self.call(self.b.s)
        else:
            t = text(); self.sent.append(t); self.call(lambda: self.b.i(t))
        self.want += self.plan["on"][i]
        if r.randrange(2) == 0: self.arrived()
    def call(self, f):
        signal.setitimer(signal.ITIMER_REAL, 60)
        try: return f()
        except Late: raise Viol("a call did not return")
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
    def arrived(self):
        want = [s + "\n" for s in self.sent]
        try: wait(lambda: len(self.lines()) >= len(want), 60, "x")
        except Viol: pass
        got = self.lines()
        if got != want:
            k = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), min(len(got), len(want)))
            raise Viol("line %d of %d: the reasoner got %r instead of %r (%d lines arrived)" % (k, len(want), got[k][:200] if k < len(got) else None, want[k][:200] if k < len(want) else None, len(got)))
    def read(self):
        l = self.call(self.b.tryRead)
        if l is None: return False
        k = len(self.got); self.got.append(l)
        if k >= len(self.want): raise Viol("read %r but only %d lines were printed so far" % (l[:200], k))
        if l != self.want[k] + "\n": raise Viol("output line %d of %d: read %r instead of %r" % (k, len(self.want), l[:200], self.want[k][:200] + "\n"))
        return True
    def all_read(self):
        e = time.time() + 60
        while len(self.got) < len(self.want):
            if not self.read():
                if time.time() > e: raise Viol("only %d of %d printed lines can be read, next is %r" % (len(self.got), len(self.want), self.want[len(self.got)][:200]))
                time.sleep(0.002)
        if self.read(): raise Viol("more lines than were printed")
    def started(self):
        wait(lambda: len(self.records()) > 0, 60, "the reasoner was not started by cargo in the given directory")
        x = self.records()[0]
        if x["argv"] != ["run", "--release", "it"] or os.path.realpath(x["cwd"]) != os.path.realpath(self.dir):
            raise Viol("started with %r in %r" % (x["argv"], x["cwd"]))
        self.pid = x["pid"]
    def finish(self):
        self.arrived(); self.all_read()
        if self.ends:
            if self.ends == 2: os.kill(self.pid, signal.SIGKILL)
            # a process which is not there any more prints nothing
            wait(lambda: gone(self.pid), 60, "the stand-in does not end")
            took = []
            for _ in range(20):
                t = time.time()
                if self.read(): raise Viol("a line was read after the end of the reasoner")
                took.append(time.time() - t)
                time.sleep(0.003)
            if min(took) > 0.05: raise Viol("every read of nothing blocks, for at least %.3f s" % min(took))
        else: self.kill()
        shutil.rmtree(self.dir, ignore_errors=True)

    def kill(self):
        if hasattr(self, "pid") and not gone(self.pid): os.kill(self.pid, signal.SIGKILL)

def binding(n):
    bs = [One(n * 4 + k) for k in range(r.choice([1, 1, 1, 2, 3]))]
    try:
        for b in bs: b.started()
        todo = [b for b in bs for _ in range(b.n)]
        r.shuffle(todo)
        reading = r.randrange(3)  # 0: only at the end
        for b in todo:
            b.send()
            if reading:
                for _ in range(r.randrange(4)): r.choice(bs).read()
        for b in bs: b.finish()
    finally:
        for b in bs: b.kill()
    h = hashlib.md5(json.dumps([b.sent for b in bs]).encode()).hexdigest()
    seen(h, bindings=len(bs), lines_sent=sum(len(b.sent) for b in bs), lines_read=sum(len(b.got) for b in bs), ended_reasoners=sum(b.ends > 0 for b in bs))

def real(n):
    """the real program behind the binding"""
    os.environ["VH_REAL"] = main
    d = os.path.join(scratch, "r%d" % n); os.makedirs(d, exist_ok=True)
    os.environ["VH_LOG"] = d + "/pid"
    b = B.Binding(d)
    pid = lambda: int(open(d + "/pid").read() or "0") if os.path.exists(d + "/pid") else 0
    try:
        x = "w%d" % r.randrange(1000)
        b.i("<%s --> b>." % x); b.i("!dt")
        e = time.time() + 60; got = []
        while not any(x in l and "credit=" in l for l in got):
            l = b.tryRead()
            if l is not None: got.append(l)
            elif time.time() > e: raise Viol("the told fact %s is not in the list of tasks: %r" % (x, got[-5:]))
            else: time.sleep(0.005)
        b.i("!QQ")
        wait(lambda: gone(pid()), 60, "the reasoner does not end after !QQ")
        seen("real%s" % x, sessions_with_the_real_reasoner=1)
    finally:
        if pid() and not gone(pid()): os.kill(pid(), signal.SIGKILL)
        os.environ.pop("VH_REAL", None); shutil.rmtree(d, ignore_errors=True)

def tool(n):
    """the relation tool"""
    names = ["tom", "fat", "cat", "is", "likes", "a1", "X", "b-c", "is-a", "isa", "this", "sky", "_q"]
    ins, want = [], []
    for _ in range(r.choice([1, 2, 5, 30])):
        rel, x, y = (r.choice(["is", "is", "likes", "is-a", "isa", "IS", "has", "this"]), r.choice(names), r.choice(names))
        sp = lambda: " " * r.choice([0, 0, 0, 1, 2])
        ins.append("%s%s%s(%s%s%s%s%s)%s" % (sp(), rel, sp(), sp(), x, " " * r.choice([1, 1, 1, 2, 4]), y, sp(), sp()))
        want.append([x, y, rel])
        if rel == "is": want.append([x, y, ""])
    try: p = subprocess.run([sys.executable, repo + "/Tooling_NLU1.py"], input="\n".join(ins) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=scratch, timeout=120)
    except subprocess.TimeoutExpired: raise Viol("the relation tool does not end after the end of its input")
    got = [l for l in p.stdout.split("\n") if l.strip() != "" and not l.startswith("//")]
    if len(got) != len(want): raise Viol("relation tool: input %r: %d lines instead of %d: %r" % (ins, len(got), len(want), got))
    seen(hashlib.md5("".join(ins).encode()).hexdigest(), relations_converted=len(ins))
    # the reasoner has to understand them as expected
    for l, w in zip(got, want): emit("P", l, *w)

n = 0
while time.time() < deadline or n < 3:
    f = [binding, real, tool][n] if n < 3 else (real if r.randrange(40) == 0 else tool if r.randrange(5) == 0 else binding)
    try: f(n)
    except Viol as e: emit("V", f.__name__, "seed %d, scenario %d: %s" % (seed, n, e)); break
    except Late: emit("V", f.__name__, "seed %d, scenario %d: a call did not return" % (seed, n)); break
    except (BrokenPipeError, AttributeError, TypeError, ValueError, OSError, NameError) as e:
        emit("V", f.__name__, "seed %d, scenario %d: %s: %s" % (seed, n, type(e).__name__, e)); break
    n += 1
emit("D", n)
os._exit(0)
