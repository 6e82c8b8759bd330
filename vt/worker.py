"""Runs the cases of one property with index = start, start+stride, ... and logs begin/end of each as JSON lines."""
import importlib, json, os, sys, time, traceback, faulthandler


def main():
    prop, tier, seed, start, stride, stop, out, scratch = sys.argv[1:9]
    seed, start, stride, stop = int(seed), int(start), int(stride), int(stop)
    from vt import core
    mod = importlib.import_module("vt." + prop.lower())
    f = open(out, "a", buffering=1)

    def emit(o):
        f.write(json.dumps(o, default=str) + "\n")
    if hasattr(mod, "setup"):
        mod.setup()
    for i in range(start, stop, stride):
        emit({"b": i})
        c = core.Ctx(prop, tier, seed, i, scratch)
        rec = {"e": i}
        t = time.time()
        try:
            with c:
                mod.case(c, i)
        except core.Violation as v:
            rec["viol"] = {"key": v.key, "msg": v.msg[:4000], "log": c.log[-60:]}
        except core.HarnessError as e:
            rec["err"] = repr(e)
        except MemoryError as e:
            rec["err"] = "MemoryError"
        except Exception as e:
            tb = traceback.format_exc()
            if isinstance(e, OSError) and e.errno in (28, 24, 12, 23):
                rec["err"] = tb[-3000:]
            else:
                # z5 raised on a call the property requires to succeed
                rec["viol"] = {"key": "unexpected-exception:" + type(e).__name__, "msg": tb[-3000:], "log": c.log[-60:]}
        rec.update(ev=c.events, sig=c.sig, nt=bool(c.nontrivial), sample=c.sample, t=round(time.time() - t, 4))
        emit(rec)
    emit({"done": 1})
    f.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
