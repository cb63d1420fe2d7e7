"""record the repairs made in /repo in known_findings.json (commit subject -> property)."""
import json, subprocess

RULES = [
    ("state of an output calibrator in the form", "P17"), ("drops its last batch", "P19"), ("deep ensemble that starts from a preliminary MAP", "P08"),
    ("model editor of an SNGP", "P18"), ("improved states in training", "P12"), ("accumulated when training calibration", "P14"), ("scaling the loss dynamically", "P14"), ("non-finite gradients", "P14"),
    ("improved output calibrators", "P02"), ("eval_every_n_epochs", "P12"), ("SWAG on multiple devices", "P08"), ("improved states", "P01"), ("every minibatch when accumulating", "P05"),
    ("conformal sets", "P20"), ("maximum calibration error", "P24"), ("model editor", "P05"), ("Gaussian process layer", "P05"), ("separate key for every batch", "P05"),
    ("paths with a label", "P04"), ("mask a copy", "P03"), ("number of labels be omitted", "P04"), ("restart an ensemble", "P28"), ("never calibrated", "P28"),
    ("posteriors that were never fitted", "P28"), ("calibration model that has no state", "P28"), ("without a directory", "P16"), ("validation outputs without targets", "P16"),
    ("before fitting the temperature", "P28"), ("grouping model", "P28"), ("caller's lists when balancing", "P03"), ("remove the labels", "P03"), ("EnbPI", "P03"), ("CV+", "P03"),
    ("given thresholds of the test", "P16"), ("not sets, in the BatchMVP", "P20"), ("no patches to apply", "P04"), ("reached the tolerance", "P21"), ("reducing a data loader", "P19"),
    ("log-variance model when initializing", "P05"), ("mean and log-variance models apart", "P03"), ("name used by the concatenated", "P06"), ("SNGP callback", "P03"),
    ("count the data points", "P27"), ("sample axis apart", "P27"), ("keep the data axis", "P27"), ("random key be passed", "P05"), ("output layer std", "P26"), ("interval type", "P06"),
    ("never hand out", "P05"), ("save ensembles", "P28"), ("SGMCMC states", "P07"), ("deep ensemble states", "P07"), ("every slot", "P15"), ("SGMCMC state repository", "P06"),
    ("Laplace prior", "P06"), ("lose the model outputs", "P17"), ("optimizer be omitted", "P04"), ("auxiliary objects be omitted", "P04"), ("unknown auxiliary", "P06"),
    ("every n epochs, during output", "P02"), ("dumping after calibration", "P02"), ("calibration model trainer", "P02"), ("overwrite the optimizer", "P03"),
    ("", "P01"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "06f33a6..HEAD"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, m = l.split(" ", 1)
    if not m.startswith("fix: "):
        continue
    out.append(f"fixed: property={next(p for k, p in RULES if k in m)} {h} {m[5:]}")
p = "/verif/known_findings.json"
d = json.load(open(p))
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
print(len(out))
