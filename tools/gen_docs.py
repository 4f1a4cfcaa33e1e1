"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing the table)."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parents[1]
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level="exploration", state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": state} if state else {}), observe_at=observe or [], hook_needed=None),
                  _t=technique, _n=note, _l=level))


S = "src/"
LAY, CIR, NOI, TRK, DEC, COL, PRB, PLT, DIA = (S + x for x in ("honeycomb_layout.py", "honeycomb_circuit.py", "noise.py", "measure_tracker.py", "decoding.py",
                                                              "collect_data.py", "probability_util.py", "plotting.py", "circuit_diagrams.py"))
PA = S + "paper/"

prop("C01", "Every supported grid size is a valid three-coloured honeycomb torus",
     "For every even width and every height that is a multiple of six, the layout is a torus of data qubits in which each qubit lies on exactly one edge of each of the three colours, each hexagon is bounded by alternating edges of the two other colours, and edges, hexagons, qubit lists and qubit indices are complete, duplicate free and mutually consistent. "
     "Coordinates wrap around both directions. Any other size is refused.",
     ["inputs", "configurations"], "all grid sizes and styles", "Tests build a handful of sizes; seams (narrow, odd multiples, wrap-around) differ per size.",
     [LAY], [("hex centre categories, edge types, wrap", LAY)],
     "Runtime walk of the layout object with an online structural checker", "Every size up to the bound is walked completely; larger sizes are not.",
     observe=["edges, hexagons, qubit maps returned by the layout"])
prop("C02", "The two logical observables remain a valid logical qubit at every sub-round",
     "At every sub-round, the horizontal and the vertical logical operator reported by the layout commute with the pair checks that have just been and are about to be measured and with all hexagon stabilizers, and anticommute with each other. "
     "Each is carried to the next sub-round by multiplying in only edge operators measured in that sub-round.",
     ["inputs", "histories"], "all sizes, all sub-round indices", "Tests check a few fixed sizes and rounds.",
     [LAY], [("observable paths and per-round bases", LAY)],
     "Runtime commutation monitor over observed operators", "All sizes up to the bound x all residues of the sub-round; operators compared up to sign.")
prop("C03", "Without errors every detector and the observable is deterministic",
     "For every style, observable, size and number of sub-rounds, the generated circuit with its errors removed never fires a detector and always gives the same logical observable value, in every execution. "
     "The error model of the full circuit can be derived without non-deterministic detectors or observables, and unsupported requests (unknown style, observable or round count for the style) are refused instead of producing a circuit.",
     ["inputs", "programs", "configurations"], "all experiment configurations", "Tests sample a few sizes and rounds; the start/end boundary handling depends on rounds mod 6, size and style.",
     [CIR, LAY, TRK], [("circuit generation, detector bookkeeping", CIR)],
     "Repeated execution of noiseless circuits with a determinism monitor", "Stabilizer simulator trusted; configurations sampled.")
prop("C04", "Every style's circuit performs the ideal honeycomb measurement protocol",
     "Without errors, the joint distribution of the complete measurement record of a generated circuit equals that of the ideal protocol: prepare all data qubits in the observable's basis, measure the XX, YY, ZZ edge products of the right colour in each sub-round, then measure all data qubits in the right basis. "
     "Running-parity styles report the running parities of the same products.",
     ["inputs", "programs"], "all styles, observables, sizes, rounds", "Tests compare detectors and diagrams, never the full outcome distribution.",
     [CIR, LAY], [("per-style sub-round emission", CIR)],
     "Differential execution against a reference protocol; affine outcome spaces compared", "Outcome spaces identified from samples with error < 2^-60 per case.")
prop("C05", "Detectors and observable are exactly the protocol's checks",
     "The set of detectors in a generated circuit is exactly the set of checks the protocol provides (first and last half-stabilizers, every consecutive pair of hexagon evaluations, final data comparison), each composed of exactly the right measurements and placed at its hexagon's position and time. "
     "The logical observable is exactly the product of the right measurements, numbered by the preserved observable, and the qubit coordinates are those of the layout.",
     ["inputs", "programs"], "all configurations; every round count", "Determinism tests accept missing or merged detectors and wrong coordinates.",
     [CIR, TRK, LAY], [("detector and observable annotation", CIR)],
     "Trace checker: executed annotations matched against an independent derivation", "Reference derivation is independent code; configurations sampled.")
prop("C06", "Experiments of any duration are exact and compactly described",
     "For any number of sub-rounds, including astronomically many, a circuit is produced quickly with a bounded description, performs exactly the requested number of sub-rounds, and its repeated part behaves identically to the explicitly written-out experiment: same measurements, detectors, noise and coordinates advancing uniformly in time.",
     ["inputs", "programs"], "durations 1..1e12", "Tests use short durations where loops barely repeat.",
     [CIR], [("repeat block construction and coordinate shifts", CIR)],
     "Loop-reduced replay against the reference and against short runs", "Assumes repeat blocks repeat identically.")
prop("C07", "Noise is applied exactly where, as strongly and as often as the model says",
     "For every circuit and error model, each operation, reset, measurement and idle period in each moment is followed or preceded by exactly the model's noise with exactly the model's strength, once, including inside repeat blocks, on idle qubits of the system, and while other qubits are being measured or reset. "
     "Operations a model has no rule for are refused.",
     ["inputs", "programs", "configurations"], "all circuits over supported operations x models x strengths", "Tests pin a few example circuits.",
     [NOI], [("noise model rules", NOI), ("moment processing", NOI)],
     "Event-stream monitor over the noisy circuit versus an independent model statement", "Circuits touch each qubit once per moment, as generated ones do.",
     observe=["executed operations of the noisy circuit per moment and qubit"])
prop("C08", "Adding noise never changes what the circuit does",
     "Removing the errors from a noisy circuit gives a circuit with the same measurement record (same count, order, joint distribution and inversions), same detectors, observables, coordinates and moments as the original circuit, and the original circuit object is left unmodified. "
     "At zero strength no error can occur.",
     ["inputs", "programs"], "all circuits x models", "Rewriting of parity measurements through a helper qubit is tested only on toy circuits.",
     [NOI], [("noisy circuit construction, helper qubit choice", NOI)],
     "Differential execution of original and error-stripped circuits", "Stabilizer simulator trusted.")
prop("C09", "Correlated parity measurements have the exact error channel and parity",
     "A parity measurement with correlated noise measures exactly the requested (possibly inverted) product for every basis pair, and applies each of the 31 non-trivial combinations of two-qubit Pauli error and result flip with exactly equal probability given by the mixing strength. "
     "It acts on the measured qubits exactly like the ideal measurement, and strengths outside 0 to 1 are refused. Converting a mixing probability to independent component probabilities is exact for every number of bits.",
     ["inputs"], "all bases, inversions, strengths in [0,1], indices", "Tests check one strength and symmetric bases.",
     [NOI], [("correlated parity gadget", NOI), ("mixing probability conversion", NOI)],
     "Exact channel extraction from emitted operations plus executions", "Pauli propagation of the simulator trusted.")
prop("C10", "Circuits are fault tolerant with the distance they report",
     "The smallest set of circuit faults that flips the logical observable undetected grows with the grid as the code's geometry dictates for each style and observable, and the recorded code distance equals the smallest number of idle data faults with that effect over both observables. "
     "Every single fault of the error model is corrected by the matching decoder where the distance permits.",
     ["inputs", "fault_sequences"], "all single faults; minimal fault sets over sizes, styles, observables, rounds", "Tests check distance of two configurations.",
     [CIR, LAY, NOI, DEC], [("detectors, noise and decoding together", CIR)],
     "Fault injection: every single fault decoded; minimal undetected fault sets searched in executions", "Graph-like faults; bulk round counts.")
prop("C11", "Measurement bookkeeping resolves every reference to the right results",
     "After any history of recorded, combined, dummy, blocked and grouped measurements, asking for a key, a combination of keys or an earlier occurrence returns exactly the record positions of those results (repeated ones cancelling), or no answer where a needed result is blocked; references to keys or occurrences that were never recorded, and invalid keys, are refused. "
     "Detectors and observables emitted from it compare exactly those results at the given coordinates.",
     ["histories", "inputs"], "all operation histories", "Tests run a dozen scripted sequences.",
     [TRK], [("record list, groups and previous-offset lookup", TRK)],
     "Lock-step model-based monitoring of random histories", "Naive list-based model as oracle.",
     state=[dict(name="recorded results per key", meaning="which measurement record positions each key denotes over time", where=TRK)])
prop("C12", "The matching graph is a faithful rendering of the error model",
     "For every detector error model (nested repeats, shifts, decomposed errors), each independent symptom pair or single symptom becomes exactly one edge whose probability is the exact combination of all errors with that symptom, whose weight is the log odds, whose logical effect is that of the errors (the first one's when they disagree), and every detector is present with its right coordinates. "
     "Undecomposed errors with more than two symptoms are refused.",
     ["inputs", "programs"], "all detector error models", "Tests convert three models.",
     [DEC], [("error model traversal and edge merging", DEC)],
     "Graph monitor versus an independent flattening", "Simulator's flattening and coordinates trusted.")
prop("C13", "Matching predictions are minimum-weight explanations for every observable",
     "For every shot, the predicted observable flips are those of a minimum-weight set of errors explaining the shot's symptoms; every observable of the circuit gets a prediction in its own position, shots do not influence each other, and results have one row per shot. "
     "Requests the matching decoder cannot honour (correlated decoding, ill-shaped symptoms) are refused.",
     ["inputs"], "all circuits and symptom patterns", "Tests decode a few shots of one circuit.",
     [DEC], [("pymatching call", DEC)],
     "Exhaustive-search oracle over executed predictions", "Small graphs are exhaustively solved; weight ties within the discretisation accepted.")
prop("C14", "The count of correct shots is exactly the number of fully correct predictions",
     "Sampling and decoding n shots returns the number of shots among exactly n fresh samples in which every observable was predicted correctly, using the requested decoder and, when given, the separate model circuit for decoding only. "
     "Unknown decoders are refused.",
     ["inputs", "configurations"], "all circuits, shot counts, decoders", "Tests look at statistical outcomes of one circuit.",
     [DEC], [("sample/decode/compare", DEC)],
     "Conservation monitor with recording decoder; exact recount", "Statistical part uses 7 sigma.")
prop("C15", "Exchange with the external decoder is lossless and failures are never data",
     "Every shot's symptoms and the error model reach the external decoder unaltered and in order, and its predictions come back per shot and per observable unaltered, also for concurrent exchanges and awkward paths. "
     "If the decoder is missing, crashes, or returns too few, malformed or no predictions, an error is raised and no prediction is returned; no temporary files stay behind.",
     ["inputs", "fault_sequences", "schedules"], "all shots, faults at every output position, concurrent exchanges", "The external decoder is not available to the tests, so this path is untested.",
     [DEC], [("temporary files, process call, result parsing", DEC)],
     "Fault injection with a recording stand-in decoder", "Stand-in binary obeys the documented command line.", level="fault_enumeration")
prop("C16", "Collection takes exactly the amount of data asked for",
     "For each problem in order, batches are taken (never larger than the batch limit, at most doubling) until the maximum number of shots is reached exactly, or at least the minimum number of shots was taken and either enough errors were seen with the requested deviation or the error rate is saturated near one half with at least ten errors; never more, never less. "
     "Every batch yields one record with the problem's own description, shots and correct count.",
     ["inputs", "histories"], "all limits x all sequences of batch outcomes", "Tests run one tiny collection.",
     [COL], [("collection loop", COL)],
     "Online trace checker of the stopping rules over scripted and real sampling", "Scripted sampling replaces only the sampler.")
prop("C17", "Collected records survive crashes, restarts and concurrent writers",
     "At every moment the output file holds the header followed by the complete record of every finished batch, no matter how or when the collecting process dies; appending keeps all earlier data byte for byte and never repeats the header, discarding starts over, and concurrent appenders do not corrupt each other's records. "
     "A record is printed only after it is in the file, and failure to write is reported as an error.",
     ["crash_points", "histories", "schedules"], "every crash point between batches, random kill times, sequences of sessions", "Tests never kill the process or resume.",
     [COL], [("append per record", COL)],
     "Crash injection at every batch and at random times; offline log checker", "Process death, not power loss.", level="fault_enumeration")
prop("C18", "Reading, aggregating, grouping and merging data conserves every shot",
     "Reading any set of data files sums shots, correct counts and time per distinct problem description, with no record lost, duplicated or attributed to another problem; aggregation writes the same totals back, from files and nested directories; grouping partitions, merging adds, filtering selects and changing fields changes only those fields. "
     "Group keys come out sorted.",
     ["inputs", "histories"], "all record sets and file arrangements", "Tests read one small file; the aggregation script is untested.",
     [COL, PA + "aggregate_csv_data.py"], [("CSV reading and accumulation", COL)],
     "Conservation checker with integer bookkeeping", "")
prop("C19", "Detection fraction records count detection events exactly",
     "A detection-fraction record contains the total number of detector samples (shots times detectors) and, as its correct count, exactly the number that did not fire, with the problem's description, marked as detection fraction data independent of the observable. "
     "One record is written per problem, in order.",
     ["inputs"], "all circuits and shot counts", "Tests do not cover this collector beyond a smoke run.",
     [COL], [("detection fraction collector", COL)],
     "Exact counting on circuits with known detections, statistical on experiments", "7 sigma band for statistics.")
prop("C20", "Error-rate estimates and likelihood bounds are accurate at every shot count",
     "From one shot to ten billion, with zero, few, half or all errors, the reported bounds are the smallest and largest error rates whose likelihood is within the requested ratio of the best estimate, to within a hundredth of an error, and enclose the estimate. "
     "Log likelihoods equal the binomial values for every probability, including 0, 1 and slightly out-of-range ones.",
     ["inputs"], "all (shots, errors, ratio)", "Tests check a dozen values with 1% tolerance.",
     [COL, PRB], [("log binomial, binary search", PRB)],
     "Numerical oracle monitor (exact likelihood ratios)", "Granularity 0.01 errors; Stirling error 0.02.")
prop("C21", "Per-piece error rates exactly invert the composition of independent flips",
     "Splitting a total error rate over k pieces gives the rate whose k-fold composition of independent flips is the total; zero, one half and one map to themselves, one piece is the identity, complements map to complements, splitting twice equals splitting once by the product, and larger totals give larger rates. "
     "Rates outside 0 to 1 are refused.",
     ["inputs"], "all rates in [0,1], all piece counts", "Tests check powers of two and a few values below one half.",
     [PLT], [("total-to-per-piece conversion", PLT)],
     "High precision recomputation and algebraic-law monitors", "Double rounding tolerance.")
prop("C22", "Line fits and projections are the least-squares answers",
     "Fitted lines, their cost, fits forced through a point or to a slope, and the ranges of slopes and extrapolated outputs within a cost increase equal the least-squares solutions; searches return the closest value or a crossing on the requested side. "
     "Per-noise groups combine both observables' per-cell error rates into the rate that either fails (missing observables taken from the other, zero-error points left out), independent of record order, and the suppression factors, projected distances, error rates and qubit counts (rounded up to a realisable size) follow from the fit.",
     ["inputs", "histories"], "all data sets and targets", "Two fits are tested; the analysis script has no tests.",
     [PRB, PA + "main_render_lambda_figure.py"], [("least squares helpers", PRB), ("lambda groups", PA + "main_render_lambda_figure.py")],
     "Closed-form oracle monitor", "Relative tolerance 1e-3 on half-widths; one number of code cells per group.")
prop("C23", "Problem descriptions tell the truth and the collection command obeys",
     "Each problem in the catalogue, and each problem made from a layout, produces the circuit its description states: family, error model, noise strength, size, qubit count, rounds, preserved observable and code distance; the catalogue covers every combination once. "
     "The collection command collects exactly the selected problem (or all) with exactly the limits given or their defaults, appends to the output file, and refuses invalid selections.",
     ["inputs", "configurations"], "all catalogue problems and command lines", "The script has no tests.",
     [PA + "main_collect_all.py", LAY, COL], [("problem catalogue, argument handling", PA + "main_collect_all.py"), ("problem description", LAY)],
     "Facts read back from produced circuits and executed command lines", "Scripted sampling for command lines.")
prop("C24", "The error-rate plot shows exactly the recorded data",
     "For any data set the plot has exactly one labelled curve per problem family, through the per-cell error rates of its records in order of noise strength, omitting points without errors, and one band with the per-cell likelihood bounds (ratio 1/1000) at every noise strength including those; it draws on the given axes, writes the requested file and leaves the data unchanged.",
     ["inputs"], "all data sets", "Plotting has no tests.",
     [PLT, COL], [("plot_data", PLT)],
     "Artist-level observation of drawn figures versus records", "Styling and axis limits not judged.")
prop("C25", "Every panel of the published figures shows the data its labels state",
     "In the threshold, line-fit, suppression-factor, qubit-count and detection-fraction figures, every panel and curve shows exactly the records of the code family, error model, observable and decoder its labels state, with the right values, fits and uncertainty bands; nothing is shown twice, omitted or mixed in from other records, and low-confidence qubit-count points are highlighted. "
     "The figure commands read all given files and directories and write all figure files.",
     ["inputs"], "all data sets", "The figure scripts have no tests.",
     [PA + "main_render_threshold_figure.py", PA + "main_render_lambda_figure.py", PA + "main_render_detection_fraction_figure.py"],
     [("figure functions", PA)],
     "Artist-level observation of drawn figures versus records", "Marginal suppression decisions and styling not judged.")
prop("C26", "Circuit diagrams show every operation in its place and time",
     "For every circuit of supported operations, the rendered diagram has at each qubit's position and each moment exactly the symbol of the operation acting on it (or the idle mark), a connection or boundary marker for every two-qubit interaction, and no other symbols; repeat blocks are unrolled or, when asked, shown once alone. "
     "Unsupported operations, double use of a qubit in a moment and colliding or missing positions are refused.",
     ["inputs", "programs"], "all circuits of supported operations", "Tests pin a few diagrams.",
     [DIA], [("plot_circuit, diagram projection", DIA)],
     "Rendered text read back and matched with the executed circuit", "Projection convention of existing diagrams.")
prop("C27", "Results depend only on the request",
     "The same request gives the identical circuit and description regardless of what was generated before, in what order, concurrently in threads, in which process or under which hash seed, and returned objects can be modified without affecting later results. "
     "Adding noise and decoding leave their inputs unchanged and repeat identically.",
     ["histories", "schedules"], "all histories and interleavings of requests", "Tests run each request once in one order.",
     [LAY, CIR, NOI, DEC], [("cached layout attributes", LAY)],
     "Differential replay across histories, threads, processes and hash seeds", "Sampled histories and schedules.")
prop("C28", "Remaining-work accounting is exact",
     "Collected data is reported finished exactly when the shot limit or the error limit is reached or the error rate is at or above the cut-off with at least ten shots; otherwise the remaining shots and errors are the differences to the limits and the remaining time is the smaller extrapolation from the time spent so far. "
     "Finished work has nothing remaining.",
     ["inputs", "histories"], "all data and limits", "Not tested.",
     [COL], [("remaining work properties", COL)],
     "Exact arithmetic oracle over random data and histories", "")
prop("C29", "What was sampled is what reaches the files, the aggregate and the plot",
     "Over whole campaigns (any mix of problems, sessions that append, discard or die, several files and directories, aggregation in between), the shots and errors found for a physical configuration when reading, aggregating and plotting the data are exactly those that were sampled from circuits of that configuration with that decoder. "
     "The example program and the graph export program run from start to end and write what they announce: the documented experiments with the documented limits into test.csv followed by a plot of that file, and the matching graph of the documented experiment.",
     ["histories", "configurations", "faults"], "all campaigns", "Tests exercise each stage alone on one small input; the two programs are not tested.",
     [COL, LAY, PLT, PA + "aggregate_csv_data.py", S + "main_example.py", PA + "write_honeycomb_networkx_graph.py"], [("collection loop, reading, aggregation, plotting", COL), ("example program", S + "main_example.py"), ("graph export", PA + "write_honeycomb_networkx_graph.py")],
     "Ledger of sampler events kept by a monitor; conservation checked at every later stage", "Scripted error counts stand in for sampling.")

with open(V / "properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
man = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c 'import stim, pymatching, numpy, scipy, networkx, matplotlib'",
    checks=[dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']} --tier quick", thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
                 evidence_file=f"evidence/{p['id']}.json", technique=p["_t"], level=p["_l"],
                 level_note=(p["_n"] + " " if p["_n"] else "") + "Holds for the executions observed, listed in the evidence file; not a proof.") for p in P],
    not_applicable=[],
    notes="No hooks in /repo are needed: everything is observed at public interfaces, emitted circuits, files, processes and drawn figures.",
)
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(P))
