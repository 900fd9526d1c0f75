"""Scaffold shared by all checks: arguments, evidence, violations."""
import os, sys, json, time, random, shutil, tempfile, traceback
from . import build as B, tlc as T, sim as S

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what = what
        self.replay = replay


class Ctx:
    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.wd = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "engines": []}
        self.t0 = time.time()
        self.out = os.path.join(VERIF, "out")
        os.makedirs(self.out, exist_ok=True)
        self.known = load_known(pid)
        self.known_hit = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rnd(self, tag):
        return random.Random("%s-%d-%s" % (self.pid, self.seed, tag))

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    def build(self, sims):
        r = B.build(sims)
        self.log("built", ",".join(sims))
        return r

    def model(self, module, cfg=None, **kw):
        """Exhaustive check of a design model; a violation there is a specification
        error, never an alarm on the code."""
        r = T.run(module, cfg, **kw)
        if not r.ok:
            raise T.TlcError("design model %s/%s violated %s\n%s" % (module, cfg, r.violated, r.out[-3000:]))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["engines"].append({"model": module, "cfg": cfg or module, "distinct_states": r.distinct})
        self.log("model %s %s: %d distinct states, no error" % (module, cfg or "", r.distinct))
        return r

    def save_replay(self, name, obj):
        p = os.path.join(self.out, "%s-%s.json" % (self.pid, name))
        with open(p, "w") as f:
            json.dump(obj, f, indent=1)
        return p


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == pid and k.get("status") == "known"]


def main(pid, level, fn):
    ctx = Ctx(pid, level)
    rc = 2
    viol = []
    try:
        fn(ctx)
        for k in ctx.known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        rc = 0
    except Violation as v:
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (pid, v.replay))
        viol = [{"what": v.what[:2000], "replay": v.replay}]
        rc = 1
    except S.SimError as e:
        # crashed or hung twice on the same commands
        p = ctx.save_replay("crash", {"what": str(e)})
        print("simulator failure: %s" % e)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        viol = [{"what": str(e)[:2000], "replay": p}]
        rc = 1
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        shutil.rmtree(ctx.wd, ignore_errors=True)
    ev = {"property": pid, "tier": ctx.tier, "seed": ctx.seed, "level": level,
          "coverage": ctx.cov,
          "wall_s": round(time.time() - ctx.t0, 1)}
    if viol:
        ev["violations"] = len(viol)
        ev["violation_details"] = viol
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if rc in (0, 1):
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    ctx.log("done rc=%d" % rc)
    return rc
