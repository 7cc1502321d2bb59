#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/diffpy/srmise/"
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


prop(
    "C01",
    "Clustering partitions the data by resolution and height",
    "Clustering visits data from the highest to the lowest point, puts each point in the nearest existing cluster when that is within the resolution and else in a new one, so that at every step the clusters are disjoint, contiguous and in order, hold exactly the points visited so far, and at the end all points in range. Stepping, iterating and clustering at once give the same result from any intermediate point, and a reset starts afresh. Data of unequal lengths and negative resolutions are refused.",
    ["inputs", "histories"],
    "all strictly increasing abscissae with finite heights (ties, single points, non-uniform grids), resolutions including 0, and all interleavings of single steps, iteration, whole runs and resets",
    "there is no test of clustering; the guarantee is about every intermediate state for every data set",
    [S + "dataclusters.py"],
    [("stepwise clustering", S + "dataclusters.py: DataClusters.next, makeclusters, reset_clusters"), ("nearest cluster", S + "dataclusters.py: find_nearest_cluster2")],
    "property-based testing: reference clustering model compared at every step, metamorphic scaling relations",
    "Hypothesis-generated data and step histories against an independent clustering model",
)
prop(
    "C02",
    "Cluster queries and merging of adjacent clusters",
    "For any clustering the nearest cluster to any coordinate, the cluster boundaries and the groups of adjacent clusters are those of the points themselves. Merging consecutive clusters gives one cluster covering exactly theirs and leaves the others unchanged; groups which are not consecutive are refused with nothing changed.",
    ["inputs", "histories"],
    "all clusterings (complete or stopped early) of generated data, all query coordinates (inside, between, outside), all sequences of merges valid or not",
    "the tests do not touch these queries; off-by-one errors show only for particular gaps, run lengths and orders of merges",
    [S + "dataclusters.py"],
    [("merging", S + "dataclusters.py: combine_clusters"), ("adjacency", S + "dataclusters.py: find_adjacent_clusters, cluster_boundaries, find_nearest_cluster2, cut")],
    "property-based testing: model-based histories of merges against a list-of-ranges model",
    "Hypothesis-generated merge histories and queries",
)
prop(
    "C03",
    "Peaks have the stated shape, area, width and maximum",
    "A peak is a Gaussian (or a Gaussian divided by r) with exactly the position, full width at half maximum and area it is given, evaluated alike at single points, on grids and in ranges, and peaks add up. Whatever internal parameters a fit tries, the width stays within (0, maximum] and the area is not negative. The reported maximum is the highest point of the curve; widths above the maximum are refused.",
    ["inputs"],
    "all positions, widths up to the maximum, areas, internal parameters of either sign, grids, ranges and single points",
    "the tests evaluate one peak with fixed parameters; the formula must hold for all parameters and all ways to evaluate",
    [S + "peaks/gaussian.py", S + "peaks/gaussianoverr.py", S + "peaks/base.py", S + "modelparts.py", S + "basefunction.py"],
    [("values", S + "peaks/gaussianoverr.py: GaussianOverR._valueraw, max"), ("values", S + "peaks/gaussian.py: Gaussian._valueraw, max"), ("sums and ranges", S + "basefunction.py: BaseFunction.value")],
    "property-based testing: closed-form reference model, numerical integration and maximisation",
    "Hypothesis-generated parameters against independent formulas and quadrature",
)
prop(
    "C04",
    "Parameter formats convert without changing the curve",
    "Converting peak parameters between any two supported formats, along any chain of conversions, describes the same peak by the documented formulas, leaves the input alone, and restoring the preferred range never changes the curve. Unknown formats are refused. A collection converts every part that has the format and leaves the others as they are.",
    ["inputs", "histories"],
    "all peaks, all pairs of formats and default names, all chains of conversions, parameters in or outside the preferred range, lists or arrays, integers or reals",
    "the tests convert one fixed peak in one direction",
    [S + "peaks/gaussian.py", S + "peaks/gaussianoverr.py", S + "peaks/terminationripples.py", S + "baselines/nanospherical.py", S + "basefunction.py"],
    [("conversion", S + "basefunction.py: BaseFunction.transform_parameters; _transform_parametersraw of each function"), ("preferred range", S + "modelparts.py: ModelParts.transform")],
    "property-based testing: round-trip and route-independence relations with formulas as oracle",
    "Hypothesis-generated chains of conversions",
)
prop(
    "C05",
    "Analytic derivatives agree with the functions fitted",
    "The derivatives used in fitting are those of the value in every parameter, for every peak and baseline function, with and without termination ripples, at single points, grids and ranges, with one row per free parameter in the order the parameters are fitted; fixed parameters have none. The gradient of a change of format is the derivative of that conversion.",
    ["inputs"],
    "all functions, parameters, fixed/free masks, grids and ranges; mixed models of several peaks and a baseline",
    "the tests check no derivative; a wrong or misordered one still lets fits converge on easy data",
    [S + "basefunction.py", S + "modelparts.py", S + "peaks/gaussian.py", S + "peaks/gaussianoverr.py", S + "peaks/terminationripples.py", S + "baselines/polynomial.py", S + "baselines/nanospherical.py"],
    [("derivatives", "_jacobianraw of each function"), ("residuals", S + "modelparts.py: ModelParts.residual, residual_jacobian")],
    "property-based testing: differential against central finite differences",
    "Hypothesis-generated models against numerical derivatives",
)
prop(
    "C06",
    "Scaling peaks and matching heights at a border",
    "Scaling a peak at a point multiplies its value there by the factor while its maximum stays as high and as placed as it was; impossible requests are refused and change nothing. Matching peaks to a height at a border makes the sum there as asked where it can, keeps fixed parameters, and reports whether it succeeded.",
    ["inputs"],
    "all peaks, factors, border points on either side, sets of peaks with fixed parameters, target heights",
    "the tests never scale a peak; failures need particular factors (widths beyond the cap, zero or negative factors)",
    [S + "peaks/gaussian.py", S + "peaks/gaussianoverr.py", S + "peaks/base.py"],
    [("scaling", S + "peaks/gaussian*.py: scale_at"), ("matching", S + "peaks/base.py: Peaks.match_at")],
    "property-based testing: pre/post relations on values and maxima",
    "Hypothesis-generated peaks and scalings",
)
prop(
    "C07",
    "Peak and baseline estimates are valid and recover simple data",
    "An estimate from data exists exactly when at least three points are positive, is finite, lies within the data and the allowed width, and scales with the data; a sampled symmetric Gaussian is recovered. Baseline estimates follow the documented rules, linear baselines under positive features included, and arguments of unequal lengths are refused.",
    ["inputs"],
    "all data with any number of positive and negative points, all sampled Gaussians of three or more points, scalings and shifts, linear baselines below generated features",
    "the tests contain no estimation from data; the guarantee concerns arbitrary data",
    [S + "peaks/gaussian.py", S + "peaks/gaussianoverr.py", S + "baselines/polynomial.py", S + "baselines/nanospherical.py"],
    [("estimates", "estimate_parameters of each function")],
    "property-based testing: recovery of known truth, validity predicate and scaling relations",
    "Hypothesis-generated data",
)
prop(
    "C08",
    "Baselines have the stated values, from parameters or files",
    "Polynomial baselines evaluate with the highest power first, the spherical nanoparticle baseline is never positive and zero outside the particle, tabulated baselines pass through their points (given directly or by file) and user functions are evaluated as given. Anything that does not describe a baseline is refused, and evaluating a table beyond its points is warned of.",
    ["inputs", "configurations"],
    "all degrees and coefficients, particle radii of either sign inside or beyond the data, all tables of four or more points and file layouts, malformed tables and arguments",
    "the tests cover no baseline values; edges (end of particle, first character of a file, degree -1) need generated inputs",
    [S + "baselines/polynomial.py", S + "baselines/nanospherical.py", S + "baselines/fromsequence.py", S + "baselines/arbitrary.py", S + "baselines/base.py"],
    [("values", "_valueraw of each baseline"), ("tables", S + "baselines/fromsequence.py: FromSequence.readxy, splines")],
    "property-based testing: closed-form reference and file round trip",
    "Hypothesis-generated baselines and files",
)
prop(
    "C09",
    "Termination ripples band-limit the model at the cutoff",
    "A peak with termination ripples equals the peak convolved with the sinc function of its cutoff, on any grid, range or single point. The filter is linear, removes exactly the frequencies at and above the cutoff, and applying it twice changes nothing more; a large cutoff leaves the peak as it is.",
    ["inputs"],
    "all peaks wide enough to be sampled, cutoffs, supersampling, grids, ranges and sequences of values",
    "the tests have one rippled value; grid extension, truncation at the origin and range handling vary with every input",
    [S + "peaks/terminationripples.py"],
    [("filter", S + "peaks/terminationripples.py: TerminationRipples.cut_freq, extend_grid, _valueraw")],
    "property-based testing: numerical convolution as reference, projection laws",
    "Hypothesis-generated peaks, grids and sequences",
)
prop(
    "C10",
    "Model parts keep parameters, flags and identity",
    "Through any sequence of changes, copies, slices, packing of free parameters, changes of owner and writing to text, each part keeps exactly its own parameters, fixed flags, removability and owner, and copies are independent. Two parts are equal exactly when these are. Collections sort without losing parts, and descriptions, definitions and arguments that fit no part or function are refused without effect.",
    ["inputs", "histories"],
    "all parts of all functions and all operation histories on collections of them",
    "the tests build one peak; the guarantee is about histories of operations with shared and copied parts",
    [S + "modelparts.py", S + "peaks/base.py", S + "baselines/base.py", S + "basefunction.py"],
    [("parts", S + "modelparts.py: ModelPart, ModelParts.pack_freepars, unpack, copy"), ("text", S + "modelparts.py: writestr; basefunction.py, peaks/base.py, baselines/base.py: factory, actualize")],
    "property-based testing: stateful model-based histories against a shadow model, round trips",
    "Hypothesis-generated operation histories",
)
prop(
    "C11",
    "Fits find the least-squares solution and respect constraints",
    "A fit never worsens the weighted misfit, never moves fixed parameters or touches the data, and ends with physical parameters. From nearby starting points noise-free data are reproduced, linear models end at the weighted linear solution, and fits with too few points are refused.",
    ["inputs"],
    "all models of separated peaks with baselines, fixed/free masks, uncertainties, starting points, numbers of points",
    "the tests run one extraction; optimality must hold for every model and mask",
    [S + "modelparts.py", S + "modelcluster.py"],
    [("least squares", S + "modelparts.py: ModelParts.fit"), ("cluster fit", S + "modelcluster.py: ModelCluster.fit")],
    "property-based testing: recovery of truth, linear regression reference, descent relation",
    "Hypothesis-generated fits",
)
prop(
    "C12",
    "Reported uncertainties are the scaled inverse curvature",
    "The covariance reported after a fit is the inverse of the curvature at the solution scaled by the reduced misfit, arranged by part and parameter with no entries for fixed parameters, and transforms with the parameters when another format is asked for. Values, uncertainties and correlations queried agree with it by any way of naming a parameter.",
    ["inputs", "histories"],
    "all covariance matrices, fixed masks, parts, formats and query forms; fits of generated models",
    "the tests never read an uncertainty; index mapping and scaling depend on the mask and the number of points",
    [S + "modelcluster.py", S + "modelparts.py"],
    [("covariance", S + "modelcluster.py: ModelCovariance.setcovariance, transform, get, getcov, getcorr"), ("estimate", S + "modelparts.py: ModelParts.fit")],
    "property-based testing: matrix reference model and linear-regression / finite-difference differential",
    "Hypothesis-generated matrices and fits",
)
prop(
    "C13",
    "Building a model in a range stays consistent and never gets worse",
    "Through any sequence of operations on a modelled range the residual, the data in range and the model agree, peaks marked as not removable or fixed stay, and operations meant to improve the model never leave it worse by the chosen criterion. Pruning removes redundant peaks, augmenting adds missing ones, and joining neighbouring ranges keeps every peak on its own side and covers both.",
    ["inputs", "histories"],
    "all operation sequences on generated clusters with any mix of removable, fixed and redundant peaks and any range",
    "the tests join and prune at most one fixed case; consistency is about sequences",
    [S + "modelcluster.py"],
    [("operations", S + "modelcluster.py: ModelCluster.fit, contingent_fit, prune, augment, join_adjacent, replacepeaks, deletepeak, estimatepeak, change_slice, cleanfit, reduce_to, npeaks")],
    "property-based testing: stateful histories with invariants and a quality oracle computed independently",
    "Hypothesis-generated histories on clusters",
)
prop(
    "C14",
    "Model evaluators rank by misfit plus complexity",
    "The quality of a model is the misfit plus the documented penalty for its free (or all) parameters and points in range, greater meaning better in every comparison. Probabilities derived from qualities add up to one, are ordered as the models and depend only on differences; a growth is justified exactly when the misfit exceeds its cost and enough points exist.",
    ["inputs"],
    "all models, ranges, uncertainties, parameter counts (including shifts) and lists of qualities",
    "the tests compare no two models; boundary sizes of the corrected criterion matter only for some counts",
    [S + "modelevaluators/aic.py", S + "modelevaluators/aicc.py", S + "modelevaluators/base.py"],
    [("criteria", S + "modelevaluators/aic.py, aicc.py: evaluate, growth_justified, parpenalty, akaikeprobs")],
    "property-based testing: closed-form reference and order/normalisation laws",
    "Hypothesis-generated models and quality lists",
)
prop(
    "C15",
    "Saved sessions are read back unchanged",
    "Writing a session and reading it back, by text or file, restores data, settings, peak and baseline functions with their options, starting peaks, and the extracted model with every parameter, fixed flag, removability and shared function. Writing changes nothing, reading replaces everything the object held, and saving again what was read loses nothing.",
    ["inputs", "histories", "configurations"],
    "all sessions: data with or without uncertainties, any set of settings left unset, functions with and without ripples, any baseline kind, results of any type, odd file names, numbers of Python or numpy type",
    "the tests save no session; the format has many optional sections whose combinations matter",
    [S + "pdfpeakextraction.py", S + "peakextraction.py", S + "modelcluster.py", S + "modelparts.py", S + "basefunction.py"],
    [("writing", "writestr of peakextraction.py, pdfpeakextraction.py, modelcluster.py"), ("reading", S + "peakextraction.py: PeakExtraction.readstr; modelcluster.py: ModelCluster.factory")],
    "property-based testing: write/read round trip over generated sessions with a structural comparison",
    "Hypothesis-generated sessions",
)


prop(
    "C16",
    "Damaged or foreign files are refused, never half understood",
    "A session lacking a section or field, cut short, or with a malformed row, index, name or flag is refused with the format error, and a sound session can be read afterwards by the same object. Sessions are refused as PDFs and other files as sessions, by the error which lets callers try the other format. Line ends and spacing do not matter.",
    ["inputs", "faults"],
    "all ways to delete, cut, replace or corrupt a section, field, row or word of any generated session, and arbitrary other files",
    "no test reads a damaged file; a silently misread session gives wrong scientific results",
    [S + "peakextraction.py", S + "pdfpeakextraction.py", S + "modelcluster.py", S + "modelparts.py", S + "basefunction.py", S + "dataclusters.py"],
    [("reading", S + "peakextraction.py: PeakExtraction.readstr; pdfpeakextraction.py: readmetadata"), ("parts", S + "modelcluster.py: ModelCluster.factory; modelparts.py: factory; basefunction.py: factory")],
    "property-based testing: structure-aware mutation of generated sessions (fuzzing of the file format)",
    "Hypothesis-generated damage of generated sessions",
)
prop(
    "C17",
    "Experimental PDF files are read and written faithfully",
    "Data, uncertainties (only if all are positive) and the items of the header are found in any order and layout, with any marker of the start of the data, and what is written is read back. Reading replaces everything held before and copies are independent. Files without data, with malformed rows or not text are refused.",
    ["inputs", "histories", "faults"],
    "all data with two to four columns, all combinations of header items and layouts, line ends, and damaged files",
    "the tests read no PDF; real headers vary by program and instrument",
    [S + "pdfdataset.py", S + "pdfpeakextraction.py"],
    [("reading", S + "pdfdataset.py: PDFDataSet.readStr, read"), ("writing", S + "pdfdataset.py: PDFDataSet.writeStr, write"), ("loading", S + "pdfpeakextraction.py: PDFPeakExtraction.loadpdf")],
    "property-based testing: generated files with an independent reader, write/read round trip",
    "Hypothesis-generated files",
)
prop(
    "C18",
    "Resampling and quantities derived from the data",
    "Resampled values are those of Whittaker-Shannon interpolation, linear in the data and exact at its points, over the range and at the interval asked for, with uncertainties interpolated and scaled as documented. The spread ratio and the cutoff frequency estimated from data are those defined, scale inversely with the coordinate and do not depend on the scale of the values. Data of different lengths are refused.",
    ["inputs"],
    "all uniform data, target grids, intervals, ranges, split points and scales",
    "there is no test of resampling, on which all statistics of the extraction rest",
    [S + "pdfpeakextraction.py"],
    [("resampling", S + "pdfpeakextraction.py: resample, PDFPeakExtraction.resampledata, errorscale"), ("cutoff", S + "pdfpeakextraction.py: find_qmax, stdratio")],
    "property-based testing: reference interpolation, linearity and scaling relations",
    "Hypothesis-generated data and grids against direct formulas",
)
prop(
    "C19",
    "Settings keep what is given and complete what is not",
    "After any sequence of loading data, setting, clearing and completing, every setting has the value given last or the documented default derived from the current data or PDF. Unknown or invalid settings are refused without effect on the others, and the objects given are not changed. Completing twice changes nothing.",
    ["histories", "configurations"],
    "all sequences of data, files, settings in any combination (partial ranges, aliases, automatic values), resets and completions",
    "the tests set nothing; defaults depend on what was set or loaded before",
    [S + "peakextraction.py", S + "pdfpeakextraction.py"],
    [("settings", "setvars, clearvars of peakextraction.py and pdfpeakextraction.py"), ("defaults", "defaultvars of peakextraction.py and pdfpeakextraction.py")],
    "property-based testing: model-based histories of settings against a reference model",
    "Hypothesis-generated histories against a model of the settings",
)
prop(
    "C20",
    "Extraction recovers peaks and returns valid models",
    "From data made of separated peaks on a known baseline extraction finds these peaks, all and only, with their parameters. For any data the result is a sorted, finite model with peaks of the functions given (with termination ripples when qmax is set), each worth having by the quality criterion, with fixed and non-removable starting peaks respected. Extraction changes neither data nor settings, covers exactly the range asked for, and is repeatable.",
    ["inputs", "configurations"],
    "all sets of separated peaks, noise, baselines, evaluators, peak functions, ranges, sampling options and starting peaks",
    "no test runs an extraction; the result depends on the interplay of clustering, fitting, recursion and pruning",
    [S + "peakextraction.py", S + "pdfpeakextraction.py", S + "modelcluster.py"],
    [("extraction", S + "peakextraction.py: PeakExtraction.extract_single; pdfpeakextraction.py: PDFPeakExtraction.extract")],
    "property-based testing: recovery of generated models, invariants of the result, repeatability",
    "Hypothesis-generated models and noise",
)

prop(
    "C21",
    "Peaks added by hand and fits respect the data, order and what is fixed",
    "A peak estimated near a point describes the nearest feature of the data there which the model does not explain yet, and is kept in order of position only if adding is asked for. Fitting starts from the given peaks and baseline, keeps their number and everything fixed, covers exactly the range asked for, ends at a least-squares optimum no worse than the start, returns the covariance of that optimum, and warns of data coarser than the Nyquist interval.",
    ["inputs", "histories"],
    "all generated data with known peaks, points anywhere, histories of estimating, adding and fitting, fixed parameters, ranges and sampling options",
    "no test estimates or fits a peak by hand; the result depends on data, former peaks and ranges",
    [S + "peakextraction.py", S + "pdfpeakextraction.py", S + "modelcluster.py"],
    [("peaks by hand", S + "peakextraction.py: estimate_peak, add_peaks"), ("fits", S + "pdfpeakextraction.py: PDFPeakExtraction.fit; peakextraction.py: PeakExtraction.fit; modelcluster.py: ModelCluster.fit")],
    "property-based testing: recovery of known peaks, least-squares optimality against an independent fit, frame conditions",
    "Hypothesis-generated data, points and fits",
)
prop(
    "C22",
    "The written summary states the result in natural units",
    "The summary of an extraction states the settings used, the quality of the model, and every parameter of every peak and of the baseline in natural units with uncertainties, in the order of the model, with covariances where they are known. Functions are listed with their bases so that every peak names its own. Without a result no summary is written.",
    ["inputs", "configurations"],
    "all sessions with or without results, covariances, baselines, termination ripples, metadata and scaling of uncertainties",
    "the tests write no summary; every line depends on the particular session",
    [S + "pdfpeakextraction.py", S + "modelcluster.py", S + "basefunction.py"],
    [("summary", S + "pdfpeakextraction.py: PDFPeakExtraction.writepwastr, writepwa"), ("covariances", S + "modelcluster.py: ModelCovariance.prettypar, prettycov")],
    "property-based testing: parse-back of the written summary against the session",
    "Hypothesis-generated sessions and an independent reader of the summary",
)
prop(
    "C23",
    "Model selection follows Akaike probabilities and model similarity",
    "At every uncertainty the Akaike values and probabilities of the models follow the formulas, sum to one, and rank models and classes as queried. Each model belongs to exactly one class, the first whose exemplar has as many peaks of the same kind and matches it within the tolerance. Saved tables load back, and all queries (best, n-th best, by position, by uncertainty) agree with the tables.",
    ["inputs", "histories"],
    "all sets of models (ties, no peaks, different baselines), uncertainties, samplings, tolerances and sequences of queries",
    "the tests contain no selection; ranks and classes depend on the whole set of models",
    [S + "multimodelselection.py", S + "modelevaluators/aic.py"],
    [("probabilities", S + "multimodelselection.py: MultimodelSelection.makeaics, makeaicprobs, makesortedprobs"), ("classes", S + "multimodelselection.py: classify, makesortedclasses, makesortedclassprobs")],
    "property-based testing: reference implementation of Akaike weights and of the classification",
    "Hypothesis-generated sets of models against independent formulas",
)
prop(
    "C24",
    "Results over several uncertainties are those of single extractions",
    "A run over several uncertainties gives for each the result an extraction of its own gives with this uncertainty, on the data sampled alike, in the given order. Looking at, saving, loading or animating results changes none of them, and the model shown is the one chosen, on the data it was found with, with its quality.",
    ["inputs", "histories"],
    "all data with known peaks, lists of uncertainties, samplings, covariance options, histories of choosing, saving and loading",
    "the tests run no such series; stale state between uncertainties shows only in particular histories",
    [S + "peakstability.py", S + "pdfpeakextraction.py"],
    [("series", S + "peakstability.py: PeakStability.run"), ("viewing", S + "peakstability.py: setcurrent, save, load, animate, plotseries")],
    "property-based testing: differential against single extractions, model-based histories of viewing",
    "Hypothesis-generated runs and histories",
)
prop(
    "C25",
    "The extraction command does what its options say",
    "Each option of the command sets what it says and nothing else, and what is not given comes from the input file or the documented defaults. The command then saves what the extraction object gives with these settings, with its summary, and leaves the input alone. Wrong commands write nothing, and --help and --version describe the command without acting.",
    ["inputs", "configurations"],
    "all combinations of options with files as PDF or saved session, relative and absolute ranges and uncertainties, and invalid combinations",
    "the tests never start the command; interplay of options and files is combinatorial",
    [S + "applications/extract.py"],
    [("options", S + "applications/extract.py: main"), ("uncertainties and baselines", S + "applications/extract.py: parsepars, main")],
    "property-based testing: reference model of the options, differential against the object interface",
    "Hypothesis-generated command lines and files",
)
prop(
    "C26",
    "Traces and logs record extraction faithfully and do not affect it",
    "Every trace which passes the filter is kept and written with its own number, recursion and the peaks of that moment, and reads back the same, whatever happens later; numbering is consecutive and starts afresh with each extraction. Tracing does not change the result, and the last trace shows it. Messages reach exactly the console and files whose level they have.",
    ["inputs", "histories"],
    "all histories of traces, filters, resets and recursion, extractions with tracing, and sequences of logging settings and messages",
    "the tests neither trace nor log; the guarantee concerns whole histories",
    [S + "srmiselog.py"],
    [("traces", S + "srmiselog.py: TracePeaks"), ("logs", S + "srmiselog.py: addfilelog, setfilelevel, setlevel")],
    "property-based testing: model-based histories of tracing and logging, read back from files",
    "Hypothesis-generated histories",
)
prop(
    "C27",
    "Plots show the data, models and comparisons asked for",
    "Figures show the data, the fit, each peak, the residual and the positions compared with the scale, range and options asked for, and change nothing. Files of distances to compare are read as they are, or ignored as a whole if they are no such list. The plotting command writes the figure of the file and model asked for, and refuses other files.",
    ["inputs", "configurations"],
    "all sessions and stability results, combinations of options, files of distances, class probabilities and commands",
    "the tests draw no figure; what is shown depends on options and data",
    [S + "applications/plot.py", S + "peakextraction.py", S + "dataclusters.py", S + "multimodelselection.py", S + "modelcluster.py"],
    [("figures", S + "applications/plot.py: makeplot, comparepositions, dgseries"), ("distances", S + "applications/plot.py: readcompare"), ("simple plots", S + "peakextraction.py: plot; dataclusters.py: plot, animate; multimodelselection.py: plot3dclassprobs")],
    "property-based testing: artists of the figure against values computed independently",
    "Hypothesis-generated figures read back from matplotlib",
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            assert p["statement"].count(". ") <= 2, p["id"]
            f.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["text"]},
                        "why_tests_cant": p["why"],
                        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
                    }
                )
                + "\n"
            )
    man = {
        "version": 1,
        "setup_cmd": "python3 check.py --selftest",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": "python3 check.py %s" % p["id"],
                "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                "technique": p["technique"],
                "level": "exploration",
                "level_note": p["note"] + "; each failure is shrunk to a JSON replay file (check.py --replay FILE). Sampling, not proof.",
            }
            for p in PROPS
        ],
        "not_applicable": [],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
