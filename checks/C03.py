"""C03: a function called with a time limit is stopped when the alarm comes, at whatever instruction, and no alarm or handler is left."""
import itertools, os, signal, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import lib

lib.quiet()
from hachoir.core import timeout
from hachoir.core.timeout import Timeout, fixTimeout, limitedTime


class Fail(Exception):
    pass


class Alarm:
    """Stand-in of alarm(): notes what is asked; the real clock is not used. An alarm may come while alarm(0) is called: it is delivered then."""

    def __init__(self):
        self.pending = None
        self.calls = []
        self.late = False

    def __call__(self, second):
        if not isinstance(second, int) or second < 0:
            raise lib.Violation("alarm(%r) is called" % (second,))
        if second == 0 and self.late and self.pending is not None:
            self.fire()
        old, self.pending = self.pending, (second or None)
        self.calls.append(second)
        return old or 0

    def fire(self):
        self.pending = None
        signal.raise_signal(signal.SIGALRM)


def install(alarm):
    real, had = signal.alarm, hasattr(timeout, "alarm")
    signal.alarm = alarm
    if had:
        timeout.alarm = alarm

    def undo():
        signal.alarm = real
        if had:
            timeout.alarm = real
    return undo


def work(steps, outcome, trace, nested):
    for k in range(steps):
        trace.append(k)
    if nested:
        try:
            trace.append("try")
        finally:
            trace.append("finally")
    if outcome == "error":
        raise Fail("x")
    if outcome == "timeout":
        raise Timeout("mine")
    return ("result", steps)


def own_handler(signum, frame):
    own_handler.hits += 1


own_handler.hits = 0


def once(case, ctx, at, late):
    """One call; the alarm comes at instruction 'at' (None: never). Returns the number of instructions with an armed alarm."""
    alarm = Alarm()
    alarm.late = late
    undo = install(alarm)
    own_handler.hits = 0
    before = {"default": signal.SIG_DFL, "ignored": signal.SIG_IGN, "own": own_handler}[case["handler"]]
    signal.signal(signal.SIGALRM, before)
    trace = []
    count = [0]
    fired = [False]

    def tracer(frame, event, arg):
        frame.f_trace_opcodes = True
        if frame.f_code is not work.__code__ and frame.f_code.co_filename != limitedTime.__code__.co_filename:
            return None
        if event == "opcode" and alarm.pending is not None:
            if count[0] == at:
                count[0] += 1
                fired[0] = True
                alarm.fire()
            else:
                count[0] += 1
        return tracer

    result = error = None
    try:
        try:
            # CPython 3.12 gives these events when a frame asked for them before settrace()
            sys._getframe().f_trace_opcodes = True
            sys.settrace(tracer)
            result = limitedTime(case["second"], work, case["steps"], outcome=case["outcome"], trace=trace, nested=case["nested"])
        finally:
            sys.settrace(None)
    except (Timeout, Fail) as e:
        error = e
    what = "%s, alarm at instruction %s%s" % (case, at, " or while it is cancelled" if late else "")
    if signal.getsignal(signal.SIGALRM) is not before:
        ctx.report("%s: the handler of SIGALRM is %r afterwards, it was %r" % (what, signal.getsignal(signal.SIGALRM), before))
    if alarm.pending is not None:
        ctx.report("%s: an alarm is left" % what)
    if own_handler.hits:
        ctx.report("%s: the alarm reaches the handler of the caller" % what)
    if alarm.calls[:1] != [max(1, -int(-case["second"] // 1))]:
        ctx.report("%s: alarm%s is called for a limit of %r" % (what, tuple(alarm.calls[:1]), case["second"]))
    timed = fired[0] or late
    if timed:
        if not (isinstance(error, Timeout) and str(error) != "mine"):
            ctx.report("%s: gives %r, %r instead of Timeout" % (what, result, error))
    elif case["outcome"] == "error":
        if not isinstance(error, Fail):
            ctx.report("%s: gives %r, %r" % (what, result, error))
    elif case["outcome"] == "timeout":
        if not isinstance(error, Timeout) or str(error) != "mine":
            ctx.report("%s: gives %r, %r" % (what, result, error))
    elif result != ("result", case["steps"]) or error is not None:
        ctx.report("%s: gives %r, %r" % (what, result, error))
    done = list(range(case["steps"])) + (["try", "finally"] if case["nested"] else [])
    if not timed and trace != done:
        ctx.report("%s: the function did %s" % (what, trace))
    undo()
    ctx.count("transitions", count[0])
    ctx.count("traces")
    ctx.seen("states", (what,))
    return count[0]


def schedules(case, ctx):
    old = signal.getsignal(signal.SIGALRM)
    if timeout.IMPLEMENTATION != "signal.alarm()":
        raise lib.HarnessError("limitedTime() uses %s" % timeout.IMPLEMENTATION)
    try:
        n = once(case, ctx, None, False)
        if n < 5:
            ctx.report("only %s instructions run with an alarm: no time limit" % n)
        for at in range(n):
            once(case, ctx, at, False)
        once(case, ctx, None, True)
    finally:
        signal.signal(signal.SIGALRM, old)


def sequences(case, ctx):
    """Calls which follow each other, each with and without an alarm; then with the real clock."""
    old = signal.getsignal(signal.SIGALRM)
    undo = lambda: None
    try:
        for seq in itertools.product(("ok", "alarm", "error"), repeat=case["n"]):
            undo()
            alarm = Alarm()
            undo = install(alarm)
            signal.signal(signal.SIGALRM, own_handler)
            for kind in seq:
                ctx.count("transitions")

                def f():
                    if kind == "alarm":
                        alarm.fire()
                    if kind == "error":
                        raise Fail("x")
                    return kind
                try:
                    got = limitedTime(3, f)
                except (Timeout, Fail) as e:
                    got = {"Timeout": "alarm", "Fail": "error"}[type(e).__name__]
                if got != kind:
                    ctx.report("calls %s: %s gives %s" % (seq, kind, got))
                if alarm.pending or signal.getsignal(signal.SIGALRM) is not own_handler:
                    ctx.report("calls %s: alarm %s or handler %s left" % (seq, alarm.pending, signal.getsignal(signal.SIGALRM)))
            ctx.count("traces")
            ctx.seen("states", seq)
    finally:
        undo()
        signal.signal(signal.SIGALRM, old)


def limits(case, ctx):
    for k in range(0, 400):
        for v in (k, k / 64.0, k + 0.001, -k, 1e-9 * k, k / 3.0):
            ctx.count("transitions")
            got = fixTimeout(v)
            want = max(1, -int(-v // 1))
            if got != want or type(got) is not int:
                ctx.report("fixTimeout(%r) is %r" % (v, got))
    ctx.count("traces")


def main():
    c = lib.Check("C03", "model_checking",
                  "all instructions of limitedTime() and of the function at which the alarm comes, also while it is cancelled, x outcomes, previous handlers; all sequences of calls",
                  assumptions=["calls are not nested", "the alarm is delivered by hand: the clock of the system is not used"],
                  bounds={"function": "up to 3 steps", "sequences": "length 5 (thorough 8)"})
    q = c.quick
    c.domain("schedules", [{"steps": s, "outcome": o, "handler": h, "second": v, "nested": n} for s in range(4) for o in ("ok", "error", "timeout") for h in ("default", "ignored", "own") for v in (5, 0, 1.5, 100)
                           for n in (False, True)], schedules, cpu_limit=120)
    for n in range(1, 6 if q else 9):
        c.domain("sequences %s" % n, [{"n": n}], sequences, batch=1)
    c.domain("limits", [{}], limits, batch=1)
    c.main()


if __name__ == "__main__":
    main()
