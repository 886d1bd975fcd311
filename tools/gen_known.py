"""Writes known_findings.jsonl: the repaired defects (from the fix: commits of /repo); open findings are listed in OPEN."""
import json, subprocess
PROP = {
 "ExactSampler enumerates": "C03", "propose_POVM_outcome": "C12", "global_variance sums": "C04", "global_mean and global_variance": "C04",
 "global_covariance": "C04", "SampledObs.mean_and_grad": "C05", "samples of vanishing weight": "C05", "products of operator prefactors": "C07",
 "numpy scalars multiply": "C07", "BranchFreeOperator works": "C06", "distributed evaluation of many": "C07", "get_O_loc takes": "C08",
 "get_estimator_function": "C08", "NQS.set_parameters": "C09", "networks with real parameters": "C10", "gradients_dict": "C10",
 "AdaptiveHeun": "C14", "OutputManager": "C17", "MCSampler.sample": "C02", "MCSampler.set_random_key": "C12", "propose_spin_flip_zeroMag": "C12",
 "RNN2DGeneral": "C13", "TDVP": "C15", "RBM couples": "C20", "CpxCNN": "C20", "init_net": "C20", "ground_state_search": "C21",
 "POVM": "C18", "measure_povm": "C18"}
OPEN = []
out = list(OPEN)
for line in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    ps = [p for k, p in PROP.items() if s.startswith(k)]
    assert len(ps) == 1, (s, ps)
    out.append({"kind": "fixed", "property": ps[0], "commit": h, "text": "fixed: property=%s %s %s" % (ps[0], h, s)})
with open("/verif/known_findings.jsonl", "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
print(len(out))
