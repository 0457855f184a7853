"""Shared by S04 and S05: results of one kind through save and load."""
from .storelib import rand_result_ops


def plan(rng, kind, make, tier):
    steps, fault = [], []
    for k in range(rng.randint(1, 2)):
        path = "/work/r%d.hdf5" % (k if rng.random() < 0.7 else 0)
        steps.append({"op": "new", "id": k, "p": 0, "kind": kind,
                      "spec": make(rng, tier)})
        if rng.random() < 0.7:
            steps.append({"op": "ops", "id": k,
                          "list": rand_result_ops(rng, rng.randint(1, 3))})
        fault.append({"step": len(steps), "kinds": [
            "kill", "EIO", "ENOSPC", "short", "interrupt", "nomem"]})
        steps.append({"op": "save", "id": k, "path": path,
                      "append": rng.random() < 0.3,
                      "retry": True})
        if rng.random() < 0.3:
            steps.append({"op": "restart", "p": 0,
                          "how": rng.choice(["exit", "kill"])})
        for gen in range(rng.randint(1, 2)):
            fault.append({"step": len(steps), "kinds": [
                "EIO", "EACCES", "interrupt", "nomem"]})
            steps.append({"op": "load", "path": path, "kind": kind, "p": 0,
                          "as": 10 + k, "twin": k,
                          "then": rand_result_ops(rng, rng.randint(1, 3))})
            if gen == 0 and rng.random() < 0.5:
                steps.append({"op": "ops", "id": 10 + k, "list":
                              rand_result_ops(rng, rng.randint(1, 2))})
                steps.append({"op": "save", "id": 10 + k, "path": path})
    return {"steps": steps, "faultable": fault}
