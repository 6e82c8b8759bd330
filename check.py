#!/usr/bin/env python3
"""check.py <PROPERTY> [--replay FILE] [--cases N] : builds the code under test from /repo and decides one property.
exit 0 held on everything explored / 1 VIOLATION / 2 harness error (no verdict)"""
from concurrent.futures import ThreadPoolExecutor
import argparse, fnmatch, importlib.util, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from vt import build  # noqa: E402
from vt import meta  # noqa: E402

NW = 8


def known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "known" and k["property"] == prop]


class Runner:
    def __init__(self, prop, tier, seed, ncases, cfg):
        self.prop, self.tier, self.seed, self.n, self.cfg = prop, tier, seed, ncases, cfg
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and \
            os.statvfs("/dev/shm").f_bavail * os.statvfs("/dev/shm").f_frsize > (1 << 30) else tempfile.gettempdir()
        self.scratch = tempfile.mkdtemp(prefix="vt-%s-" % prop, dir=base)
        self.viol, self.errors, self.recs, self.incon = [], [], {}, []
        self.hang_s = cfg.get("hang_s", 150)
        self.t0 = time.time()

    def launch(self, env, start, stride, stop, tag):
        out = os.path.join(self.scratch, "w-%s.jsonl" % tag)
        err = os.path.join(self.scratch, "w-%s.err" % tag)
        sc = os.path.join(self.scratch, "s-%s" % tag)
        os.makedirs(sc, exist_ok=True)
        p = subprocess.Popen([build.PY, "-m", "vt.worker", self.prop, self.tier, str(self.seed), str(start), str(stride),
                              str(stop), out, sc], env=env, cwd=ROOT, stdout=subprocess.DEVNULL, stderr=open(err, "a"),
                             start_new_session=True)
        return dict(p=p, out=out, err=err, pos=0, cur=None, since=time.time(), start=start, stride=stride, stop=stop, tag=tag,
                    done=False, next=start)

    def poll(self, w):
        with open(w["out"]) if os.path.exists(w["out"]) else open(os.devnull) as f:
            f.seek(w["pos"])
            while True:
                line = f.readline()
                if not line or not line.endswith("\n"):
                    break
                w["pos"] = f.tell()
                o = json.loads(line)
                if "b" in o:
                    w["cur"], w["since"] = o["b"], time.time()
                elif "e" in o:
                    w["cur"] = None
                    w["next"] = o["e"] + w["stride"]
                    w["since"] = time.time()
                    self.recs[o["e"]] = o
                    if "viol" in o:
                        self.viol.append((o["e"], o["viol"]["key"], o["viol"]["msg"], o["viol"]["log"]))
                    if "err" in o:
                        self.errors.append((o["e"], o["err"]))
                elif "done" in o:
                    w["done"] = True

    def crash(self, w, rc):
        txt = open(w["err"], errors="replace").read()[-20000:]
        i = w["cur"]
        w["crashes"] = w.get("crashes", 0) + 1
        m = re.search(r"ERROR: AddressSanitizer: (out of memory|[\w-]+)", txt) or re.search(r"WARNING: (ThreadSanitizer): ", txt)
        ub = re.search(r"([\w./+-]+:\d+:\d+): runtime error: (.{0,200})", txt)
        if i is None:
            self.errors.append((w["next"], "worker died (rc %s) between cases: %s" % (rc, txt[-1500:])))
            return
        if m and m.group(1) in ("allocation-size-too-big", "out-of-memory", "out of memory", "calloc-overflow", "requested"):
            self.incon.append((i, "allocation refused by the sanitizer runtime"))
            return
        if ub:
            key = "ubsan:" + re.sub(r"\d+", "N", ub.group(2))[:80] + "@" + os.path.basename(ub.group(1).split(":")[0])
        elif m:
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (z5[\w:~<>]*?)[(<]", txt)
            key = "asan:" + m.group(1) + (":" + fr[0] if fr else "")
        elif "Assertion" in txt or "terminate called" in txt or rc in (-6, -11, -8, -7, -4, 134, 139):
            key = "abort:rc%s" % rc
        elif rc == -9:
            self.errors.append((i, "worker was killed (out of memory?)"))
            return
        else:
            self.errors.append((i, "worker exited with %s in case: %s" % (rc, txt[-1500:])))
            return
        self.viol.append((i, key, txt[-6000:], []))

    def enough(self):
        """a verdict has been reached and looking for more violations would take long"""
        new = [v for v in self.viol if not any(fnmatch.fnmatchcase(v[1], k["key"]) for k in known(self.prop))]
        return new and (len(new) >= 24 or time.time() - self.t0 > (240 if self.tier == "quick" else 3600))

    def run(self, env, indices=None):
        n = self.n
        if indices is not None:
            ws = [self.launch(env, i, 1, i + 1, "r%d" % i) for i in indices]
        else:
            nw = min(self.cfg.get("workers", NW), n)
            ws = [self.launch(env, k, nw, n, str(k)) for k in range(nw)]
        retry = []
        while ws:
            time.sleep(0.05)
            if self.enough():
                for w in ws:
                    try:
                        os.killpg(w["p"].pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    w["p"].wait()
                return
            for w in list(ws):
                self.poll(w)
                rc = w["p"].poll()
                if rc is not None:
                    self.poll(w)
                    ws.remove(w)
                    if w["done"] and rc == 0:
                        continue
                    self.crash(w, rc)
                    cur = w["cur"] if w["cur"] is not None else w["next"]
                    nxt = cur + w["stride"]
                    if len(self.viol) < 40 and len(self.errors) < 20 and nxt < w["stop"]:
                        w2 = self.launch(env, nxt, w["stride"], w["stop"], w["tag"] + "x")
                        ws.append(w2)
                    continue
                if w["cur"] is not None and time.time() - w["since"] > self.hang_s:
                    os.killpg(w["p"].pid, signal.SIGKILL)
                    w["p"].wait()
                    ws.remove(w)
                    if indices is not None:
                        self.viol.append((w["cur"], "hang", "the case did not finish within %d s, twice" % self.hang_s, []))
                        continue
                    retry.append(w["cur"])
                    if w["cur"] + w["stride"] < w["stop"] and len(retry) < 3:
                        ws.append(self.launch(env, w["cur"] + w["stride"], w["stride"], w["stop"], w["tag"] + "h"))
        if retry:
            self.run(env, retry[:2])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--case", type=int)
    a = ap.parse_args()
    prop = a.prop
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        r = json.load(open(a.replay))
        tier, seed = r["tier"], r["seed"]
        a.case = r["index"]
    t0 = time.time()
    cfg = meta.CHECKS[prop]
    n = a.cases or cfg[tier]
    pool = ThreadPoolExecutor(8)
    bins = {b.get("as", b["name"]): pool.submit(build.binary, b["name"], b["variant"], opt=b.get("opt"),
                                                   extra=["-I" + os.path.join(build.NATIVE, x) for x in b.get("inc", [])]) for b in cfg.get("bins", [])}
    d, env = build.ext(cfg.get("variant", "asan"), s3=bool(cfg.get("s3")))
    if cfg.get("shim"):
        env["LD_PRELOAD"] = (env.get("VT_PRELOAD_BASE", "") + " " + env["VT_SHIM"]).strip()
    for k, v in cfg.get("env", {}).items():
        env[k] = v
    for k, b in bins.items():
        env["VT_BIN_" + k] = b.result()
    tb = time.time() - t0
    r = Runner(prop, tier, seed, n, cfg)
    try:
        if a.case is not None:
            r.hang_s = 600
            r.run(env, [a.case])
        else:
            r.run(env)
        return report(r, a, cfg, tier, seed, t0, tb)
    finally:
        shutil.rmtree(r.scratch, ignore_errors=True)


def report(r, a, cfg, tier, seed, t0, tb):
    prop = r.prop
    kf = known(prop)
    seen_known, new = set(), []
    for v in sorted(r.viol, key=lambda x: x[0]):
        k = next((k for k in kf if fnmatch.fnmatchcase(v[1], k["key"])), None)
        if k is not None:
            seen_known.add(k["key"])
        else:
            new.append(v)
    for k in kf:
        if k["key"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    events, sigs, samples = {}, set(), []
    nts = 0
    for i in sorted(r.recs):
        o = r.recs[i]
        for k, v in (o.get("ev") or {}).items():
            events[k] = events.get(k, 0) + v
        if o.get("nt") and o.get("sig") is not None:
            sigs.add(o["sig"])
        if o.get("sample") and len(samples) < 4 and (i % max(1, r.n // 5) == 0 or len(samples) == 0):
            samples.append({"case": i, "what": o["sample"]})
    cov = {"evaluations": len(r.recs), "distinct_nontrivial": len(sigs), "rule": cfg["rule"], "samples": samples,
           "events_observed": events, "cases_planned": r.n, "inconclusive": len(r.incon), "build_s": round(tb, 1)}
    if cfg.get("exhaustive"):
        cov["exhaustive"] = False
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    if a.case is None:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s tier=%s seed=%d: %d cases, %d distinct non-trivial, events=%s, inconclusive=%d, build %.0fs, total %.0fs" % (
        prop, tier, seed, len(r.recs), len(sigs), json.dumps(events, sort_keys=True), len(r.incon), tb, time.time() - t0))
    if new:
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        shown = set()
        for i, key, msg, log in new:
            if key in shown:
                continue
            shown.add(key)
            if len(shown) > 6:
                break
            p = os.path.join(ROOT, "replay", "%s-%s-%d-%d.json" % (prop, tier, seed, i))
            with open(p, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "index": i, "key": key, "msg": msg, "log": log}, f, indent=1)
            print("---- case %d: %s\n%s" % (i, key, msg[-2500:]))
            for l in log[-12:]:
                print("     | " + l[:300])
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if r.errors:
        print("HARNESS ERROR in %d case(s): %s" % (len(r.errors), r.errors[:3]))
        return 2
    if a.case is None:
        if len(r.recs) + len(r.incon) < r.n:
            print("HARNESS ERROR: %d of %d cases have no verdict" % (r.n - len(r.recs), r.n))
            return 2
        if len(r.incon) > max(3, r.n // 50):
            print("HARNESS ERROR: too many inconclusive cases: %s" % r.incon[:5])
            return 2
        if a.cases is None:
            for k, m in cfg.get("floor", {}).items():
                if events.get(k, 0) < m:
                    print("HARNESS ERROR: only %d '%s' events observed, need %d" % (events.get(k, 0), k, m))
                    return 2
    print("OK property=%s held on everything explored" % prop)
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except build.BuildError as e:
        print("BUILD ERROR: %s" % e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
