"""What decides each property: contract sets (one Verus file each) and bounded suites."""

CODEC = ["base.vc", "codec.vc", "codec2.vc"]

MUT = ["base.vc", "~codec.vc", "path.vc", "mutation.vc"]

XO = ["base.vc", "path.vc", "crossover.vc"]

CORE = ["base.vc", "codec.vc", "path.vc", "mutation.vc", "crossover.vc", "meta_adapt.vc", "algorithm.vc"]

ALGO = ["base.vc", "~codec.vc", "~path.vc", "~mutation.vc", "~crossover.vc", "~meta_adapt.vc", "algorithm.vc"]

CTRL = ["base.vc", "~codec.vc", "~codec2.vc", "~path.vc", "~mutation.vc", "~crossover.vc", "~meta_adapt.vc", "~algorithm.vc", "controller.vc"]

SPEC = ["base.vc", "codec.vc", "spec.vc"]

PROC = ["base.vc", "process.vc"]

CLI = ["base.vc", "crit.vc", "cli.vc"]

LAUNCH = ["base.vc", "crit.vc", "launch.vc"]

META = ["base.vc", "path.vc", "meta_adapt.vc"]

PROPS = {
    "C01": {"contracts": {"core": CORE, "run": CTRL, "launch": LAUNCH}, "suites": {"ops": 8, "runs": 8, "adversarial": 0.5}},
    "C02": {"contracts": {"algorithm": ALGO, "run": CTRL, "launch": LAUNCH}, "suites": {"runs": 8, "launcher": 3}, "shards": 4},
    "C03": {"contracts": {"run": CTRL, "launch": LAUNCH}, "suites": {"runs": 8, "launcher": 3}, "shards": 4},
    "C04": {"contracts": {"run": CTRL, "launch": LAUNCH}, "suites": {"runs": 8, "launcher": 3}, "shards": 4, "cli": True},
    "C05": {"contracts": {"run": CTRL, "launch": LAUNCH}, "suites": {"runs": 8, "launcher": 3}, "shards": 4},
    "C06": {"contracts": {"run": CTRL, "launch": LAUNCH, "process": PROC}, "suites": {"runs": 8, "launcher": 3}, "shards": 4, "cli": True},
    "C07": {"contracts": {"process": PROC}, "cli": True},
    "C08": {"contracts": {"algorithm": ALGO, "run": CTRL, "launch": LAUNCH}, "suites": {"runs": 8}, "shards": 4},
    "C09": {"tagged": True, "contracts": {"core": CORE, "run": CTRL}, "suites": {"runs": 8}, "twice": ["runs"], "shards": 3, "cli": True},
    "C10": {"contracts": {"parser": SPEC}, "suites": {"specdoc": 6}, "shards": 4},
    "C11": {"contracts": {"codec": CODEC}, "suites": {"codec": 3, "runs": 2}, "shards": 3},
    "C12": {"contracts": {"crossover": XO}, "suites": {"ops": 8, "targeted": 2}, "shards": 3},
    "C13": {"contracts": {"mutation": MUT}, "suites": {"ops": 8, "targeted": 2}, "shards": 3},
    "C14": {"contracts": {"meta": META, "run": CTRL, "launch": LAUNCH}, "suites": {"runs": 8, "launcher": 3, "meta": 1, "adversarial": 0.5}, "cli": True},
    "C15": {"panics": True, "contracts": {"core": CORE, "run": CTRL, "launch": LAUNCH, "process": PROC}, "suites": {"ops": 8, "runs": 8, "launcher": 3, "adversarial": 1, "meta": 1}, "cli": True},
    "C16": {"contracts": {"process": PROC, "cli": CLI, "launch": LAUNCH}, "cli": True},
    "C17": {"contracts": {"mutation": MUT, "crossover": XO}, "suites": {"battery": 1, "targeted": 2, "ops": 8}, "shards": 2},
}
