#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                          observe_at=observe or [], hook_needed=hook))
    P.append(d)

p("C01", "Control calls have exactly the outcome the documented workflow prescribes",
  "Every Init, Play, Pause, Wait, Stop and Batch call has exactly the outcome (success or which error, and resulting status) that the workflow gives for the status it is made in: Play starts or resumes unless already running (refused as running), Pause needs a running algorithm (else not running), Stop needs an alive one (else not alive), Init needs a new or finished one (else already created), Wait refuses idle, never-started and never-ending executions and succeeds at once when ready or finished. Statuses only move Created, Initializing, Ready, Running, Idle, Finished along the workflow edges. Init or Play on a finished algorithm starts a fresh session with its iteration and pushed-data counters back to zero.",
  ["histories", "configurations"], "all finite sequences of API calls, interleaved in every way with iterations that succeed, produce nothing, fail, panic or reach the finishing condition",
  "The tests walk three or four fixed scenarios; six of the core ones fail or flake because they cannot control when the run loop finishes relative to the next call. The outcome depends on the whole call history and on where the run loop stands.",
  ["core/ctrl.go", "core/algo.go", "core/status.go", "core/timeout.go", "README.md"],
  [("status switch in Play/Pause/Wait/Stop/Init", "core/ctrl.go"), ("run loop status handshake", "core/ctrl.go run/recover, core/algo.go sendStatus/receiveStatus")],
  [("status", "current workflow status and error", "core/algo.go Algo.status")],
  ["return values of the control calls", "Status()", "RuntimeFigures()"])

p("C02", "Concurrent calls behave as if they were issued one at a time",
  "Control, push and read calls issued concurrently by several clients, together with the running loop and timeouts, return the results and leave the status and counters that some one-at-a-time ordering of them, consistent with real time, would give. In particular concurrent Plays start a single execution, a Pause or Stop racing with natural completion, a failure or a timeout takes effect entirely before or after it, and no concurrent Push is left uncounted.",
  ["schedules", "histories"], "all interleavings of up to several concurrent clients, the run loop, the timeout timer and the notifier",
  "No test issues two API calls concurrently; the interleavings that matter (a command sent while the loop is terminating, Play while the previous run is being torn down) depend on the scheduler.",
  ["core/ctrl.go", "core/algo.go", "core/model.go"],
  [("status mutex + status/ack channels", "core/ctrl.go, core/algo.go"), ("model mutex", "core/ctrl.go Push/run")],
  None, ["concurrent call/return history", "Status()", "RuntimeFigures()"])

p("C03", "No API call ever hangs",
  "As long as iterations, initialisations and finishing conditions return, every API call returns, under every interleaving of clients, run loop, timeouts and notifier callbacks, including after failed initialisations or iterations and including calls made from inside a notifier callback and readings of the model by the implementation, at its initialisation as at its iterations. No call leaves the algorithm in a condition in which a later call blocks forever. (The only allowed wait is an asynchronous push waiting for staging room while nothing is iterating.)",
  ["schedules", "histories"], "all interleavings of concurrent clients, run loop, timer and callbacks; all call histories including failures",
  "Deadlocks need one specific interleaving or history (a command arriving while the loop terminates, a push while a run ends, a status query after a failed Play); the suite serialises everything and one of its tests already deadlocks almost every time on several processors.",
  ["core/ctrl.go", "core/algo.go", "core/timeout.go"],
  [("lock discipline of status/model mutexes", "core/ctrl.go"), ("ack channel closed at the end of a run", "core/ctrl.go recover"), ("notification loop", "core/algo.go")],
  None, ["call/return history"])

p("C04", "One execution loop; paused or stopped means quiescent",
  "Iterations of one algorithm never overlap each other or an initialisation, whatever calls are made concurrently. Iterations happen only while the algorithm is running: none starts before Play, and once Pause or Stop has returned, or the status has been observed Ready, Idle or Finished, none is in progress and none starts until a later Play (explicit, by Batch or by automatic restart).",
  ["schedules", "histories"], "all interleavings of concurrent control calls with the run loop",
  "The tests never look at when iterations execute, only at statuses and counts; overlapping loops appear only when two Plays race or a Play races with the end of the previous run.",
  ["core/ctrl.go", "core/algo.go"],
  [("single run goroutine per Play from Ready", "core/ctrl.go Play/run"), ("status handshake with acknowledgement", "core/algo.go")],
  None, ["begin/end of the implementation's Iterate and Init", "returns of Pause/Stop"])

p("C05", "Iteration budget and counters are exact",
  "Unless stopped, failed or timed out, an execution with Iter or IterPerData set runs exactly until the session's iteration count reaches Iter + IterPerData x (data pushed in the session), later plays and pushes only adding what is missing, or until the configured finishing condition holds, and then becomes Ready; with none of these it never ends by itself. The iterations figure counts exactly the iterations of the session that produced a clustering (an iteration producing none counts for nothing and changes nothing), the pushed-data figure exactly the session's accepted pushes (a refused push counts for nothing).",
  ["histories", "configurations", "schedules"], "all combinations of Iter, IterPerData, finishing condition, and push/play/pause histories, with iterations that do or do not produce a clustering",
  "Tests use one or two constants for Iter, never IterPerData with pushes in flight, and never iterations that produce nothing.",
  ["core/ctrl.go", "core/finish.go", "core/figures.go"],
  [("iteration and pushed data counters", "core/ctrl.go run/Push/init"), ("IterFinishing / OrFinishing", "core/finish.go")],
  [("iterations", "iterations with a result this session", "core/algo.go"), ("pushedData", "accepted pushes this session", "core/algo.go")],
  ["RuntimeFigures()", "calls of the implementation's Iterate", "Status()"])

p("C06", "Failures are contained, reported, and leave the algorithm usable",
  "An error or a panic in an iteration (of the implementation, or of the space, distribution or condition it was given, in whichever parallel worker) ends the execution: the status becomes Finished carrying that error (or the panic's message), no further iteration runs, the last published clustering and counters stay readable, and Batch returns the error however quickly it happens. A failing or panicking initialisation is returned by the Init, Play or Batch that triggered it and leaves the status Finished with that error. Afterwards every call still works: reads and predictions do not crash, and a later Play can succeed.",
  ["fault_sequences", "histories", "schedules"], "every iteration index at which an error or panic may strike, every initialisation failure, followed by every call sequence",
  "Two tests inject one error at the first iteration and do nothing with the algorithm afterwards; none panics.",
  ["core/ctrl.go", "core/util.go", "kmeans/init.go", "core/clustering.go"],
  [("deferred recover of the run loop", "core/ctrl.go recover"), ("init error path", "core/ctrl.go init/Play")],
  None, ["Status()", "return of Init/Play/Batch/Wait", "Centroids()", "Predict()"])

p("C07", "Timeouts fire in time, never early, and only for their own session",
  "An algorithm still executing (running or paused) when Timeout has elapsed since the Play that started the execution is terminated, at the end of the iteration in progress, with status Finished and the timeout error; it is never terminated earlier, and a timeout armed by one Play never ends an execution started by a later Play. Wait with a positive duration returns the timeout error only once the duration has elapsed without its condition being met, returns within its polling period once its condition is met, and never alters the algorithm.",
  ["schedules", "histories", "configurations"], "all timeout values relative to iteration lengths, pauses, stops, restarts and waits",
  "The timeout tests use one nanosecond, so they cannot tell early from late nor see a stale timer of an earlier session.",
  ["core/timeout.go", "core/ctrl.go"],
  [("InterruptionTimeout / Disable", "core/timeout.go, core/ctrl.go Play"), ("WaitTimeout polling", "core/timeout.go")],
  None, ["virtual time of status changes", "return of Wait", "Status()"])

p("C08", "DataPerIter restarts a ready algorithm exactly when enough data came in",
  "With DataPerIter = D > 0, a push to a Ready algorithm restarts its execution by itself if and only if at least D other elements were accepted since the previous automatic restart (or since creation), whatever the status they were pushed in. With D = 0, or in any other status, a push never initialises, starts or resumes an execution.",
  ["histories", "configurations"], "all D and all interleavings of pushes with control calls and run completion",
  "DataPerIter is only tested for its sign in the configuration check; no test pushes enough to restart.",
  ["core/ctrl.go", "core/conf.go"],
  [("newData counter and automatic Play", "core/ctrl.go Push")],
  [("newData", "accepted pushes since last automatic restart", "core/algo.go")],
  ["Status() after Push", "notified statuses", "iterations executed"])

p("C09", "The status notifier sees every status change once, in order",
  "The configured notifier is called exactly once for every status change, in the order the changes happened and with the status and error they set, on every path (commands, natural completion, failure, panic, timeout, automatic restart). A slow or blocked callback never delays, blocks or alters the algorithm, and a callback may itself query or control the algorithm.",
  ["histories", "schedules"], "all histories of calls and run outcomes, all callback durations, callbacks that call back",
  "One test checks one six-step sequence with a non-blocking callback, and it is not among the stable ones.",
  ["core/algo.go", "core/ctrl.go"],
  [("setStatus + notification channel and loop", "core/algo.go")],
  None, ["arguments of the notifier callback"])

p("C10", "Pushed data is neither lost nor duplicated, and enters at iteration bounds",
  "Every element accepted by Push becomes part of the clustering data exactly once and in push order: at once when the algorithm is not alive, and between two iterations (or at the next initialisation) when it is; the data never changes during an iteration. Pushes made concurrently, or around a stop, pause or restart, are all kept. With a frame size F the data is exactly the F most recent elements among the initial and pushed ones; without, all of them.",
  ["histories", "schedules", "configurations"], "all push/iterate/stop/init histories, any number of elements, any frame size, concurrent pushers",
  "Tests push in one mode at a time, sequentially, with one frame size, and never mix staged and direct pushes.",
  ["core/buffer.go", "kmeans/impl.go", "mcmc/impl.go"],
  [("staging pipe and Apply", "core/buffer.go"), ("fixed/infinite size strategies", "core/buffer.go"), ("status-dependent push mode", "kmeans/impl.go, mcmc/impl.go")],
  [("data", "elements visible to iterations", "core/buffer.go"), ("pipe", "staged elements", "core/buffer.go")],
  ["Buffer.Data()", "data received by the clustering space/initialiser"])

p("C11", "Readers get consistent snapshots that never change afterwards",
  "The clustering returned by Centroids and the figures returned by RuntimeFigures are snapshots of one published state and never change after they are returned, however the algorithm goes on iterating and receiving data, for every algorithm of the library. Predict answers from the clustering in force when it is called, with a centroid, label and distance that belong together, without adding or altering anything; before any clustering exists it returns no centroid and label -1. Reading concurrently with pushes and iterations never crashes.",
  ["schedules", "histories"], "all interleavings of readers with iterations and pushes, for k-means, MCMC, streaming and custom implementations",
  "No test keeps a returned value across further iterations or reads concurrently with pushes.",
  ["core/model.go", "core/ctrl.go", "streaming/impl.go"],
  [("model mutex around published state", "core/model.go, core/ctrl.go"), ("implementations return fresh clusterings", "kmeans, mcmc, streaming Iterate")],
  None, ["Centroids()", "RuntimeFigures()", "Predict()"])

p("C12", "Assignment picks the nearest centroid, identically in bulk and in parallel",
  "For any element, centroids and space, assignment returns the first centroid at minimal distance, its label and that distance, and no centroid with label -1 when there are none. Bulk assignment, sequential or parallel with any degree (including more workers than elements), gives for each element in input order exactly the label and distance of its individual assignment, and modifies none of its inputs.",
  ["inputs", "configurations"], "all element/centroid lists (ties, duplicates, empty lists), all degrees, Euclidean, cosine, DTW and custom spaces",
  "Tests use eight vectors and three centroids of one space, without ties or zero or rounded-negative distances.",
  ["core/clustering.go", "core/par_assign.go", "core/util.go"],
  [("nearest", "core/clustering.go"), ("Par partitioning", "core/util.go")],
  None, ["Assign, MapLabel, ParMapLabel, Predict results"])

p("C13", "Cluster reductions count every element exactly once, at any parallelism",
  "For any data, centroids or labels, every element contributes exactly once to the barycentre, cardinality and loss of exactly one cluster: cardinalities sum to the number of elements, each barycentre is the average of its elements weighted by cardinality, each loss the sum of their distances raised to the norm. Parallel reductions give, for every degree and size, the sequential result, and the parallel helper runs disjoint slices that cover every index exactly once. Inputs are never modified.",
  ["inputs", "configurations"], "all data sizes, degrees (also larger than the data), label vectors, empty clusters, norms",
  "The parallel tests compare one 160-element data set; empty clusters within a slice, sizes not divisible by the degree and unequal slice cardinalities are hardly exercised and the expected value comes from the same code.",
  ["core/clustering.go", "core/par_dba.go", "core/par_loss.go", "core/util.go"],
  [("ReduceDBA/ReduceLoss", "core/clustering.go"), ("partition aggregation", "core/par_dba.go, core/par_loss.go")],
  None, ["Reduce*, ParReduce*, TotalLoss, DBA, WeightedDBA results"])

p("C14", "A k-means iteration is exactly one Lloyd step",
  "Each k-means iteration, sequential or parallel at any degree, replaces every centroid by the barycentre of the current data nearest to it (ties to the first) and keeps unchanged a centroid that attracts no data. The number of centroids never changes, the quadratic Euclidean loss never increases on unchanged data, and a fixed point stays fixed until data changes.",
  ["inputs", "histories"], "all data sets, initial centroids (duplicates, empty clusters), degrees and push histories",
  "Tests check one data set after convergence; a wrong intermediate step or a mishandled empty cluster in the parallel path can converge to the same place.",
  ["kmeans/seq.go", "kmeans/par.go", "kmeans/impl.go", "core/par_dba.go"],
  [("SeqStrategy/ParStrategy.Iterate", "kmeans/seq.go, kmeans/par.go"), ("buildResult", "kmeans/seq.go, core/par_dba.go")],
  None, ["Centroids() after each iteration"])

p("C15", "Initialisers return K valid data elements or an error",
  "The given initialiser returns the first K data elements, the random one K elements at K different positions, and k-means++ K elements each at non-zero distance from those chosen before it. When the data cannot provide that (K below 1, fewer than K elements, or for k-means++ fewer than K distinct ones) they return an error, and no reading or predicting call on an algorithm whose initialisation failed crashes. They neither modify the data nor loop forever.",
  ["inputs"], "all data sets with duplicates, all K, all random sources",
  "Tests draw a few times from fourteen distinct points with one K that always fits.",
  ["kmeans/init.go"],
  [("check, GivenInitializer, RandInitializer, PPInitializer, PPIter", "kmeans/init.go")],
  None, ["initialiser results", "Centroids()/Predict() after a failed Init"])

p("C16", "DTW distance is the minimal warping cost, for series of any lengths",
  "For any two non-empty series and any window, the distance is the minimum, over all monotone warping paths that start at the first and end at the last elements and stay within the window (unlimited when the window is zero), of the summed point distances; the reported path is such a path and achieves that cost. With a window, a series longer than the other by more than the window is first resampled to the other's length plus the window, whichever side it is on, so the distance is always finite and, without a window, symmetric. It never crashes nor alters its arguments.",
  ["inputs", "configurations"], "all pairs of series lengths (including one much longer than the other), values, dimensions and windows",
  "Tests use one pair of series of lengths 6 and 7; the windowed storage scheme and extreme length ratios are not reached.",
  ["dtw/cost.go", "dtw/dtw.go", "dtw/series.go", "dtw/interpolate.go"],
  [("CumCostMatrix banded dynamic programme", "dtw/cost.go"), ("ShrinkLongest", "dtw/interpolate.go")],
  None, ["Dist(), Path(), CumCostMatrix.Get"])

p("C17", "DTW averaging and resampling interpolate exactly",
  "Averaging two series with positive weights combines the points matched by the optimal path with those weights, places each at the weighted average of its two positions and linearly interpolates at whole positions; the result has one plus the integer part of the weighted average of the last positions points and starts with the average of the first points. Resizing a series to n points keeps both end points and interpolates linearly in between; resizing to its own length is the identity. Arguments are never modified.",
  ["inputs", "configurations"], "all series lengths, weights, windows, target sizes",
  "Tests average one pair with three weightings; the interpolation index arithmetic has many untested cases.",
  ["dtw/dtw.go", "dtw/interpolate.go", "dtw/series.go"],
  [("DTW.DBA", "dtw/dtw.go"), ("Interpolate/Resize", "dtw/interpolate.go")],
  None, ["Combine(), DBA(), Resize(), Interpolate(), ShrinkLongest()"])

p("C18", "Streaming absorbs each accepted element once and never forgets a centre",
  "Each element accepted by a streaming algorithm is consumed exactly once and in order, by either moving its nearest centre to the cardinality-weighted average, or adding it as a new centre; it is added as an outlier when enough elements have been processed and its distance exceeds OutRatio times the largest distance seen. Centres are never removed, their cardinalities sum to the elements consumed, the maximal distance never decreases and outliers do not change it, and a stop and restart resumes from the existing centres. A push to a full buffer is refused with an error and changes nothing.",
  ["histories", "inputs", "configurations"], "all element sequences, configurations, random draws and push/stop/restart histories",
  "Tests count clusters on random data within a tolerance; a single mis-assigned or dropped element or a restart is not observable there.",
  ["streaming/impl.go", "streaming/algo.go", "streaming/conf.go"],
  [("Process/UpdateCenter/AddCenter/AddOutlier", "streaming/impl.go"), ("bounded channel", "streaming/impl.go Push/Init")],
  None, ["Centroids()", "RuntimeFigures()[maxDistance]", "GetClusters/GetMaxDistance"])

p("C19", "An MCMC step publishes the accepted proposal or leaves everything unchanged",
  "Over any run the number of clusters stays between 1 and the smaller of MaxK and the number of data, and moves by at most one per iteration. An iteration either publishes its proposal, increasing the acceptations figure by one, or leaves the clustering untouched; a proposal is always accepted when the reported ratio is at least 1 and never when it is 0, so acceptations never exceeds the session's iterations, also after a restart. The reported lambda, Gibbs term, ratio and time are those of the last decision, computed from the losses of the current and proposed clusterings.",
  ["histories", "inputs", "configurations"], "all data, K ranges, move probabilities, alteration distributions, random draws, push and restart histories",
  "Tests bound the final K once and the acceptance ratio once, on one seed; they never relate a step to the decision it reports.",
  ["mcmc/impl.go", "mcmc/seq.go", "mcmc/par.go"],
  [("doIter/propose/accept/nextK", "mcmc/impl.go"), ("strategies", "mcmc/seq.go, mcmc/par.go")],
  [("current", "accepted proposal and its loss", "mcmc/impl.go"), ("acc", "acceptations", "mcmc/impl.go")],
  ["Centroids()", "RuntimeFigures()"])

p("C20", "The MCMC centre store proposes neighbours of the current clustering",
  "Asked for k centres, the store returns the latest clustering stored with k centres if there is one, otherwise the given clustering if it has k centres, otherwise the given centres in order plus one data element at non-zero distance from all of them (when k is larger), or the given centres in order minus exactly one (when k is smaller). Generated centres are copies: changing them affects neither the given clustering nor stored ones nor data. When no element can be added an error is returned.",
  ["histories", "inputs"], "all sequences of store and get requests, data with duplicates, random draws",
  "One test follows one sequence of six requests on one data set.",
  ["mcmc/store.go", "kmeans/init.go"],
  [("GetCenters/SetCenters/genCenters", "mcmc/store.go")],
  None, ["GetCenters results"])

p("C21", "A late distribution is built exactly once, before first use",
  "However many callers sample or evaluate concurrently, the builder of a late distribution is called exactly once, with an element passed by one of the first callers, and no call is answered by anything but the distribution it built; no caller is answered before it is built.",
  ["schedules"], "all interleavings of concurrent first uses",
  "The tests use it from one goroutine.",
  ["mcmc/latedistrib.go"],
  [("double-checked initialisation", "mcmc/latedistrib.go")],
  None, ["builder calls", "Sample/Pdf results"])

p("C22", "Finishing conditions compose as boolean logic over the observed state",
  "An iteration condition holds exactly when Iter or IterPerData is positive and the iterations figure has reached Iter + IterPerData x pushed data; a status condition exactly when the status is one of those listed or, if requested, carries an error; an all-of condition when it is non-empty and all its parts hold, an any-of condition when some part holds, at any nesting depth and with absent parts counting as not holding. Evaluating a condition never alters the algorithm.",
  ["inputs", "configurations"], "all nested combinations and all observable states",
  "Only the iteration condition is tested, indirectly.",
  ["core/finish.go"],
  [("And/Or/Iter/StatusFinishing.IsFinished", "core/finish.go")],
  None, ["IsFinished results"])

p("C23", "Invalid configurations are rejected, defaults fill only unset values",
  "Building any algorithm with a negative Iter, IterPerData, DataPerIter, IterFreq or Timeout, a k-means K below 1, an MCMC InitK below 1 or above MaxK, or a streaming OutAfter below 2 (after defaults) is refused, as is initial streaming data larger than the buffer, and every other configuration is accepted. Unset parameters take the documented defaults (MCMC: norm 2, MaxK 16, B 1, move weights 1-8-1; streaming: buffer 100, Mu 0.5, Sigma 0.1, OutRatio 2, OutAfter 5) and set ones are never changed.",
  ["configurations"], "all sign/zero/boundary combinations of all parameters",
  "Each test sets one bad value; combinations, boundaries and preservation of set values are not covered.",
  ["core/conf.go", "kmeans/conf.go", "mcmc/conf.go", "streaming/conf.go", "streaming/algo.go", "core/algo.go"],
  [("Verify/SetDefaultValues/PrepareConf", "*/conf.go"), ("NewAlgo", "core/algo.go")],
  None, ["Verify results", "panic of NewAlgo", "Conf()"])

p("C24", "A copy starts from the same data and is independent of its original",
  "Copying a k-means or MCMC algorithm at any point gives a not-yet-started algorithm with the given configuration and space whose data is exactly the data the original's iterations see at that point, whichever implementation and history. Pushing to, running or stopping either one never changes the data, clustering, figures, status or notifications of the other, and copying changes nothing in the original. A copy of a streaming algorithm is independent as well: its data are the centres published by the original at that point (refused when its buffer is smaller). Copying may be done while the original runs, and both may run at the same time, sharing no unsynchronised state.",
  ["histories", "schedules"], "all histories before the copy and all interleaved histories of both afterwards",
  "Copy is not called by any test.",
  ["core/ctrl.go", "kmeans/impl.go", "mcmc/impl.go", "streaming/impl.go", "core/buffer.go"],
  [("Impl.Copy", "kmeans/impl.go, mcmc/impl.go"), ("NewDataBuffer copies", "core/buffer.go")],
  None, ["Centroids(), RuntimeFigures(), Status() of both"])

p("C25", "Vector spaces compute true distances and weighted averages",
  "The Euclidean distance of two vectors is the square root of the sum of squared differences and the cosine distance one minus the cosine of their angle; both are symmetric, never negative, zero between an element and itself, and the cosine distance ignores positive scaling. Combining gives the coordinate-wise average weighted by the two weights, whatever their size and order. Copies (of series too) are equal and fully independent, results never share storage with arguments, and arguments are never modified. The dimension of data is that of its first element (of its first point for series), zero when there is none.",
  ["inputs"], "all vectors (any dimension, zero coordinates, equal or proportional vectors), all weights",
  "Tests use a handful of two-dimensional vectors with equal or tiny weights; self-distances of vectors whose norm is not exact are not tried.",
  ["euclid/vectors.go", "cosinus/cosinus.go", "dtw/dtw.go", "dtw/series.go"],
  [("PointDist/PointCombine/PointCopy", "euclid/vectors.go, cosinus/cosinus.go")],
  None, ["Dist, Combine, Copy, Dim results"])

p("C26", "The iteration frequency limit is respected and does not starve",
  "With IterFreq = f > 0 consecutive iterations of an uninterrupted execution start at least 1/f seconds apart (or as soon as the previous one ends when it lasted longer), so that at most f x T + 1 start in any period T, and no extra delay is added; each resume or restart allows at most one additional immediate iteration. With f = 0 iterations follow each other without delay.",
  ["schedules", "configurations"], "all frequencies, iteration durations, pause/resume and stop/restart histories",
  "The test counts iterations during one second at one frequency with instantaneous iterations, on the wall clock.",
  ["core/ctrl.go"],
  [("iteration temporisation in the run loop", "core/ctrl.go run")],
  None, ["virtual times at which iterations start"])

p("C27", "Weighted draws select an index of positive weight for every random draw",
  "For any non-negative weights with a positive sum and any random source, a weighted draw returns a valid index whose weight is positive, namely the one whose cumulative-weight interval contains the drawn fraction of the total; with a zero sum, or no weights, it returns the null-set error. Weights are not modified and one draw consumes one uniform number.",
  ["inputs"], "all weight vectors (zeros anywhere, any length) and all random numbers in [0,1), including 0",
  "The test draws a statistical sample with three positive weights and its assertion cannot fail.",
  ["kmeans/init.go"],
  [("WeightedChoice", "kmeans/init.go")],
  None, ["WeightedChoice results for chosen random sources"])

p("C28", "Alterations have the stated location, spread and density",
  "A sample of the multivariate t alteration around an element mu, with nu degrees of freedom (3 by default) and t observed data, is mu plus a vector of independent-direction Student deviations: coordinates are uncorrelated, symmetric and of equal spread, 20 t |x - mu|^2 / d follows the law F(d, nu), samples drawn with the same random numbers around other elements are translated and with other numbers of data are rescaled by the inverse square root of that number. The density it reports is the log-density of a multivariate t law of power (nu + d) / 2, symmetric in the element and its sample, invariant by translation, normalised, of the same scale as what is sampled. The Dirac alteration returns its element, with density 1. Neither modifies the given elements and each sample is a new vector.",
  ["inputs"], "all dimensions, degrees of freedom, numbers of data, elements and random numbers",
  "Tests draw one sample and pin two densities; neither the law nor the formula is settled by them.",
  ["mcmc/multivt.go", "mcmc/dirac.go"],
  [("MultivT.Sample", "mcmc/multivt.go"), ("MultivT.Pdf", "mcmc/multivt.go"), ("Dirac.Sample", "mcmc/dirac.go")],
  None, ["results of Sample and Pdf, counts of events of known probability over many samples"])

p("C29", "The duration and last data time figures are truthful",
  "At any moment the duration figure of a session is the total time spent in its executions (pauses included) as of the last iteration or the last end of an execution, whichever comes later: executions of the same session add up, whatever ended them (completion, stop, failure, timeout), nothing is counted twice, and it is back to none when a finished algorithm is initialised again. The last data time figure is the second of the last accepted push of the session (pushes before the initialisation included), whatever the status, or none; a refused push does not change it.",
  ["schedules", "histories"], "all interleavings of executions, pauses, ends, pushes and reads, all durations of iterations",
  "Tests check that a duration is positive after one run.",
  ["core/ctrl.go"],
  [("Algo.Push", "core/ctrl.go"), ("Algo.init", "core/ctrl.go"), ("Algo.endRun", "core/ctrl.go"), ("Algo.saveIterContext", "core/ctrl.go"), ("Algo.updateRuntimeFigures", "core/ctrl.go")],
  None, ["RuntimeFigures() read at random moments of histories in virtual time"])

p("C30", "Equal inputs and seeds give identical clusterings",
  "The clusterings and figures (times apart) published by a k-means, MCMC or streaming algorithm depend only on its configuration, its data, the state of the random generators given to it and to its distribution, and the sequence of calls it receives: two algorithms given equal ones publish identical results (to the last bit) at every iteration, over any space, initialiser and distribution, whether sequential or parallel, whatever the schedule of their workers and whatever other algorithms do in the process; so does a copy given an equal configuration before any iteration.",
  ["inputs", "schedules"], "all configurations, data, seeds, sequences of pushes, iterations and restarts, and all schedules of workers",
  "Tests compare statistical or rounded results of single runs; none compares two runs, and the order in which workers end cannot be chosen by a test.",
  ["kmeans", "mcmc", "streaming", "core/par_dba.go", "core/par_loss.go", "core/util.go"],
  [("parReduceDBA", "core/par_dba.go"), ("parLoss", "core/par_loss.go"), ("Par", "core/util.go"), ("NewSeqImpl", "mcmc/seq.go"), ("NewImpl", "streaming/impl.go"), ("RandInitializer", "kmeans/init.go"), ("PPIter", "kmeans/init.go"), ("NewMultivT", "mcmc/multivt.go")],
  None, ["clusterings and figures published at every iteration by several runs of the same inputs"])

p("C31", "Nothing is left running behind",
  "Once an algorithm is stopped, finished, failed or timed out, its calls have returned and its timeout has elapsed, nothing of it keeps running or waiting in the process: no execution, paused or not, no timeout, no wait (whether it ended in time, timed out or was refused), no notification, and no worker of its iterations or predictions.",
  ["interleavings", "faults"], "all sequences and interleavings of calls, errors, timeouts and notifiers that return",
  "Tests look at statuses and results: a goroutine left behind changes neither, and only shows in processes which live long.",
  ["core/ctrl.go", "core/algo.go", "core/timeout.go", "core/util.go"],
  [("run", "core/ctrl.go"), ("interrupt", "core/timeout.go"), ("wait", "core/timeout.go"), ("notificationLoop", "core/algo.go"), ("Par", "core/util.go")],
  None, ["goroutines of the library which remain at the end of each history"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
