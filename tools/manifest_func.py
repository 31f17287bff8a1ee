FUNC = ["C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C27", "C28", "C30"]
WHAT = {
    "C12": "assignments, bulk, parallel and predicted (spec/Clustering.tla, Spaces.tla)",
    "C13": "reductions, averages and slices of the parallel helper (spec/Clustering.tla)",
    "C14": "runs of k-means, iteration by iteration (spec/Lloyd.tla)",
    "C15": "initialisations, successful and failing (spec/Clustering.tla, Conf.tla)",
    "C16": "dynamic time warping distances (spec/DTW.tla)",
    "C17": "series averages and resamplings (spec/DTW.tla)",
    "C18": "runs of streaming, push by push and iteration by iteration (spec/Streaming.tla)",
    "C19": "runs of MCMC, iteration by iteration (spec/Mcmc.tla)",
    "C20": "histories of the centre store (spec/Mcmc.tla)",
    "C21": "concurrent histories of a late distribution (spec/Late.tla)",
    "C22": "finishing conditions over algorithm states (spec/Conf.tla, Finishing.tla)",
    "C23": "constructions from configurations (spec/Conf.tla)",
    "C24": "histories of an algorithm and its copy (spec/Copy.tla, and spec/Algo.tla for the copy on its own)",
    "C25": "distances, combinations and copies of vectors (spec/Spaces.tla)",
    "C27": "weighted draws (spec/Clustering.tla)",
    "C28": "the distributions of the alterations (spec/MultivT.tla)",
    "C30": "several runs of equal inputs (spec/Repro.tla, ReproMC.tla)",
}
T_FUNC = {p: "TLA+ specification of %s: TLC model-checks small scopes of it and judges behaviours recorded from the real code against it" % WHAT[p] for p in FUNC}
N_FUNC = {p: "Recorded behaviours of the real code (generated inputs and schedules, virtual time where concurrent) must be those "
             "specified, exactly (rationals recovered from floats). Inputs and schedules are sampled, not exhausted. "
             "Trusts the recovery of rationals (tolerance 1e-10) and testing/synctest." for p in FUNC}
