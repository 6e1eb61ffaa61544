"""Replay engine shared by the harnesses."""
import traceback
import cothread


def settle(n=30):
    """Let every runnable cothread run until it blocks (n scheduler rounds)."""
    for _ in range(n):
        cothread.Yield()


def replay_steps(make_driver, steps, init):
    """steps: [[act, state-or-list-of-states]...]. Compare after every step.

    Driver: step(act) executes; check(state) returns None if what is observed agrees
    with the model state, else a message."""
    drv = None
    i = -1
    try:
        drv = make_driver(init)
        m = drv.check(init)
        if m:
            return dict(ok=False, step=-1, msg="initial: " + m)
        for i, (act, st) in enumerate(steps):
            drv.step(act)
            sts = st if isinstance(st, list) else [st]
            msgs = []
            for s in sts:
                m = drv.check(s)
                if m is None:
                    msgs = None
                    break
                msgs.append(m)
            if msgs is not None:
                return dict(ok=False, step=i, act=act, msg=" || ".join(msgs[:3]))
            fin = getattr(drv, "after_check", None)
            if fin:
                fin()
        return dict(ok=True, steps=len(steps))
    except Exception:
        return dict(ok=False, step=i, act=steps[i][0] if 0 <= i < len(steps) else None,
                    msg="exception: " + traceback.format_exc()[-2500:])
    finally:
        if drv is not None:
            try:
                drv.close()
            except Exception:
                pass
