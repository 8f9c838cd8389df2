"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
A = "seismostats/analysis/"
U = "seismostats/utils/"
C = "seismostats/catalogs/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))


prop("C01", "Binning rounds every value to the nearest multiple of the bin width",
     "bin_to_precision(x, d) returns, elementwise and in order, the multiple of d nearest to x (halves go up), for arrays, lists, series and scalars, every bin width d whose decimal notation is finite, and positive and negative values alike; binning a binned array changes nothing and a width of zero is refused with ValueError. "
     "binning_test with check_larger_binning=False accepts exactly those arrays whose non-NaN values lie on a grid of width d anchored at their minimum.",
     ["inputs"], "all finite values, all positive bin widths, all array lengths",
     "Tests bin a few short arrays; rounding must be right for every value, sign, width and tie.",
     [U + "binning.py"],
     [("normal_round/bin_to_precision", U + "binning.py:_normal_round_to_int,normal_round,bin_to_precision"),
      ("binning_test", U + "binning.py:binning_test")])

prop("C02", "Frequency-magnitude distribution conserves events and weights",
     "get_fmd returns consecutive bins of the requested width covering all magnitudes (centres, or left edges for bin_position='left') whose counts are exactly the number (or total weight) of magnitudes that bin to each centre, so that the counts add up to the number (total weight) of magnitudes. "
     "get_cum_fmd returns for each bin the number (total weight) of magnitudes in that bin or any larger one, so its first entry is the total; with fmd_bin=0 the bins are the distinct magnitudes.",
     ["inputs"], "all magnitude arrays (any length, order, sign), all bin widths, with and without weights, both bin positions",
     "Tests compare a handful of arrays; conservation must hold for every array, width and weighting.",
     [U + "binning.py"],
     [("histogram over shifted bin edges", U + "binning.py:get_fmd"),
      ("reverse cumulative sum", U + "binning.py:get_cum_fmd")])

prop("C03", "Classic and Utsu b-values are the weighted maximum-likelihood estimates",
     "ClassicBValueEstimator and UtsuBValueEstimator return exactly their published maximum-likelihood formula applied to the events with magnitude at or above mc - delta_m/2 and to nothing else, using each event's own weight, for discretised (delta_m>0) and continuous (delta_m=0) magnitudes, and NaN when no such event exists. "
     "After the call idx are the positions of the used events in the input, in input order, magnitudes and weights are the input values at those positions, and n is their number. "
     "Magnitudes not binned to delta_m, weights of another length and negative weights are refused with an error.",
     ["inputs"], "all magnitude arrays, mc, delta_m >= 0, weights or none",
     "The tests check the formula on fixed samples, mostly without events below mc and with few weights.",
     [A + "bvalue/base.py", A + "bvalue/classic.py", A + "bvalue/utsu.py"],
     [("filter and sanity checks", A + "bvalue/base.py:BValueEstimator.calculate,_filter_magnitudes,_sanity_checks"),
      ("maximum likelihood formula", A + "bvalue/classic.py:_mle_estimator"),
      ("Utsu formula", A + "bvalue/utsu.py:UtsuBValueEstimator._estimate")])

prop("C04", "b-positive uses exactly the positive differences of time-consecutive events",
     "BPositiveBValueEstimator orders the complete events by time (input order when no times are given), forms the differences of consecutive magnitudes, keeps exactly those of at least dmc (within half a bin; dmc defaults to delta_m) and returns the maximum-likelihood b-value of those differences with completeness dmc, weighted by the weight of the later event. "
     "idx names the later event of each kept pair, and for distinct times the result does not depend on the order in which the events are passed.",
     ["inputs"], "all magnitude/time/weight arrays of any length and order, all mc, delta_m >= 0, dmc",
     "Tests use a few catalogues in time order; pairing, alignment of weights, times and idx must hold for every permutation and subset.",
     [A + "bvalue/positive.py"],
     [("sort, difference, select", A + "bvalue/positive.py:BPositiveBValueEstimator._estimate"),
      ("time filter", A + "bvalue/positive.py:BPositiveBValueEstimator._filter_magnitudes")])

prop("C05", "b-more-positive pairs each event with the next sufficiently larger one",
     "BMorePositiveBValueEstimator pairs each complete event, in time order, with the first later event that is larger by at least dmc (within half a bin), uses every event that has such a partner and no other, and returns the maximum-likelihood b-value of these differences with completeness dmc, weighted by the weight of the partner. "
     "find_next_larger returns for every event the position of that partner, and 0 if there is none; idx names the partners; delta_m=0 works like delta_m>0.",
     ["inputs"], "all magnitude/time/weight arrays of any length and order, all mc, delta_m >= 0, dmc",
     "Tests check one or two short sequences; the pairing is a statement over all events and all later events.",
     [A + "bvalue/more_positive.py", A + "bvalue/utils.py"],
     [("next-larger search", A + "bvalue/utils.py:find_next_larger"),
      ("difference and selection", A + "bvalue/more_positive.py:BMorePositiveBValueEstimator._estimate")])

prop("C06", "b-value uncertainty and b/beta conversions are consistent",
     "shi_bolt_confidence equals ln(10) b^2 s / sqrt(n-1) with s the (weighted) population standard deviation of the magnitudes and n their number (total weight), unit weights give the unweighted result, and the uncertainty in terms of beta is ln(10) times that of b. "
     "Every estimator's beta is b ln(10), its std and std_beta are these uncertainties of the magnitudes it used, and b_value_to_beta and beta_to_b_value are inverse to each other.",
     ["inputs"], "all samples, weights, b-values; every estimator with an analytic uncertainty",
     "Tests check single numbers; the identities relate results for all samples and both parameterisations.",
     [A + "bvalue/utils.py", A + "bvalue/base.py"],
     [("Shi and Bolt formula", A + "bvalue/utils.py:shi_bolt_confidence"),
      ("conversion", A + "bvalue/utils.py:b_value_to_beta,beta_to_b_value"),
      ("properties", A + "bvalue/base.py:beta,std,std_beta")])

prop("C07", "a-values count the right events and scale to the reference correctly",
     "The classic a-value is log10 of the number of events at or above mc - delta_m/2; the positive and more-positive a-values equal the published formulas on, respectively, the pairs of time-consecutive events and the next-larger pairs whose magnitude step is at least dmc (within half a bin), independently of the order in which events with distinct times are passed, and NaN if there is no pair. "
     "In every estimator a reference magnitude shifts the result by -b (m_ref - mc) and a scaling factor by -log10(scaling_factor), a reference magnitude without b-value being refused.",
     ["inputs"], "all magnitude/time arrays, mc, delta_m, dmc, m_ref, scaling factors and b-values (zero included)",
     "Tests check a few catalogues; alignment of times, magnitudes and idx and the scaling must hold for every input.",
     [A + "avalue/base.py", A + "avalue/classic.py", A + "avalue/positive.py", A + "avalue/more_positive.py"],
     [("classic", A + "avalue/classic.py:ClassicAValueEstimator._estimate"),
      ("positive", A + "avalue/positive.py:APositiveAValueEstimator._estimate"),
      ("more positive", A + "avalue/more_positive.py:AMorePositiveAValueEstimator._estimate"),
      ("reference scaling", A + "avalue/base.py:AValueEstimator._reference_scaling")])

prop("C08", "Maximum-curvature Mc is the fullest bin plus the correction",
     "estimate_mc_maxc returns the centre of the magnitude bin (of the requested width) that holds the most events, the smallest such bin when several tie, plus the correction factor; NaN magnitudes are ignored and the order of the events is irrelevant.",
     ["inputs"], "all magnitude arrays with and without NaN, all bin widths and correction factors",
     "Tests check two arrays without NaN or ties.",
     [A + "estimate_mc.py"],
     [("argmax of the FMD", A + "estimate_mc.py:estimate_mc_maxc")])

prop("C09", "KS completeness test returns the smallest passing magnitude",
     "estimate_mc_ks tests the candidate completeness magnitudes in ascending order, each on exactly the events at or above it (minus half a bin), and returns the smallest candidate whose p-value reaches p_value_pass together with its b-value, or None for both if there is none; the returned lists hold one entry per tested candidate, aligned, and testing stops at the first pass only if stop_when_passed. "
     "In ks_test_gr the p-value is the fraction of the simulated KS distances that reach the observed one, and the observed distance is the largest absolute difference between the empirical and the theoretical cumulative distribution over the bins.",
     ["inputs", "configurations"], "all magnitude arrays, candidate lists (unsorted, duplicated), thresholds, given or estimated b-values, given or simulated KS distances",
     "Tests check one sample with one seed; selection must be right for every list of candidates and p-values.",
     [A + "estimate_mc.py"],
     [("selection loop", A + "estimate_mc.py:estimate_mc_ks"),
      ("KS distance and p-value", A + "estimate_mc.py:ks_test_gr"),
      ("theoretical cdf", A + "estimate_mc.py:cdf_discrete_exp")])

prop("C10", "b-stability Mc is a candidate whose b-value is stable",
     "estimate_mc_b_stability returns a completeness magnitude only if the average b-value over the stability range above it differs from its own b-value by at most one standard deviation, namely the first such candidate (stop_when_passed) or the one with the smallest such ratio, and None with b-value None if there is none. "
     "The returned diagnostics hold one b-value and one ratio per tested candidate and the returned b-value is that of the returned magnitude, zero being a valid completeness magnitude.",
     ["inputs", "configurations"], "all magnitude arrays, candidate lists, stability ranges, bin widths",
     "Tests check one catalogue; selection depends on the whole sequence of b-values.",
     [A + "estimate_mc.py"],
     [("stability loop", A + "estimate_mc.py:estimate_mc_b_stability")])

prop("C11", "Convenience functions and Catalog methods agree with the estimators",
     "estimate_b and estimate_a return exactly the values (b or beta, its uncertainty, the number of events used; the a-value) of the estimator they are given, for every combination of options, and refuse unknown parameter names. "
     "Catalog.estimate_b, estimate_a and the estimate_mc_* methods pass the catalogue's own magnitudes, times and weights with mc, delta_m (and b_value, where estimate_mc_ks takes one) defaulting to the catalogue's attributes only when the argument is not given, return what the underlying function returns and store it in the catalogue's attribute; a missing mc or delta_m is an error.",
     ["inputs", "configurations"], "all estimators, catalogues, option combinations, falsy values such as mc=0 and delta_m=0 included",
     "Tests call a few combinations with non-zero values.",
     [A + "bvalue/__init__.py", A + "avalue/__init__.py", C + "catalog.py"],
     [("estimate_b", A + "bvalue/__init__.py:estimate_b"), ("estimate_a", A + "avalue/__init__.py:estimate_a"),
      ("Catalog methods", C + "catalog.py:Catalog.estimate_b,estimate_a,estimate_mc_maxc,estimate_mc_ks,estimate_mc_b_stability,_check_catalog_cols")])

prop("C12", "Estimators carry no state from one calculation to the next",
     "Calling calculate on an estimator that has been used before, with any arguments, in any order and including calls that found no events or raised, gives the same value, uncertainty, n, idx, magnitudes and weights as calling it on a freshly created one.",
     ["histories", "inputs"], "all b- and a-value estimators, all sequences of earlier calls",
     "Tests create a new estimator nearly every time; reuse is what the completeness and significance functions rely on.",
     [A + "bvalue/base.py", A + "avalue/base.py", A + "bvalue/positive.py", A + "bvalue/more_positive.py", A + "avalue/positive.py", A + "avalue/more_positive.py"],
     [("state reset in calculate", A + "bvalue/base.py:BValueEstimator.calculate; " + A + "avalue/base.py:AValueEstimator.calculate")])

prop("C13", "The warnings option never changes a result",
     "Switching the package option 'warnings' on or off changes which warnings are shown and nothing else: every analysis function returns the same result or raises the same error in both settings.",
     ["configurations", "inputs"], "all analysis functions that consult the option, all inputs (empty and degenerate samples included)",
     "Tests run with the option on only.",
     [A + "estimate_mc.py", A + "b_significant.py", A + "bvalue/base.py", A + "avalue/base.py", U + "_config.py"],
     [("option guards", A + "estimate_mc.py:ks_test_gr; " + A + "b_significant.py:b_significant_1D,est_morans_i; " + A + "bvalue/base.py:_filter_magnitudes,_sanity_checks")])

prop("C14", "Analysis functions never modify the caller's data",
     "No analysis, binning, completeness, significance or simulation function changes the arrays, lists or catalogues passed to it; they are the same, element for element, after the call as before it.",
     ["inputs"], "all analysis functions, all inputs on every path, error paths included",
     "Tests look at return values, not at the arguments afterwards.",
     [U + "binning.py", A + "bvalue/base.py", A + "avalue/base.py", A + "b_significant.py", A + "estimate_mc.py", U + "simulate_distributions.py"],
     [("copies on entry", A + "bvalue/base.py:calculate; " + A + "avalue/base.py:calculate; " + A + "b_significant.py:est_morans_i"),
      ("in-place shifts", U + "binning.py:get_fmd; " + U + "simulate_distributions.py:dither_magnitudes")])

prop("C15", "Moran's I and the b-value transformation follow their definitions",
     "est_morans_i returns the mean-adjusted autocorrelation (n-1)/n_p * sum_pairs d_i d_j / sum d_i^2 over the neighbour pairs whose two values are both present, with n the number of non-NaN values and n_p the number of those pairs, for the default neighbour-is-next matrix and for triangular or symmetric 0/1 matrices, each pair counted once. "
     "transform_n keeps the true b-value fixed, is the identity for n1 = n2 and refuses n1 > n2.",
     ["inputs"], "all value vectors with NaN anywhere, all admissible neighbour matrices",
     "Tests check fixed vectors; masking and counting must be right for every NaN pattern.",
     [A + "b_significant.py"],
     [("autocorrelation", A + "b_significant.py:est_morans_i"), ("transformation", A + "b_significant.py:transform_n")])

prop("C16", "Constant-number partitioning loses and duplicates no event",
     "cut_constant_idx splits a sequence into consecutive pieces that concatenate to the sequence, cut at offset, offset+n, offset+2n, ... so that every inner piece has exactly n events. "
     "values_from_partitioning evaluates the estimator on each piece (ordered by time) with that piece's own completeness and scaling and returns one value, uncertainty and count per piece, NaN and 0 for an empty piece. "
     "b_significant_1D evaluates complete events only, ordered by x_variable with times and event-wise mc kept aligned with their events, and averages over all n_m offsets.",
     ["inputs"], "all event sequences, all n and offsets, all completeness vectors and sort variables",
     "Tests check lengths on one example.",
     [A + "b_significant.py"],
     [("cut_constant_idx", A + "b_significant.py:cut_constant_idx"),
      ("values_from_partitioning", A + "b_significant.py:values_from_partitioning"),
      ("b_significant_1D", A + "b_significant.py:b_significant_1D")])

prop("C17", "Gardner-Knopoff declustering flags exactly the events inside larger windows",
     "Processing events from the largest magnitude to the smallest (earlier first among equals), each event not yet in a cluster becomes a main shock and takes all unclustered events within its space window and its time window (fs_time_prop of it before); the returned flags are True exactly for these main shocks, in catalogue order whatever the catalogue's index is, and the largest event is always a main shock. "
     "The window lengths are the published functions of magnitude, times clipped to [0, time_cutoff] for any given cutoff including 0, and the epicentral distance is the great-circle distance, symmetric and zero for coincident points.",
     ["inputs"], "all catalogues (any order, ties, index), all windows, cutoffs and foreshock proportions",
     "Tests compare one catalogue with a default index against stored flags.",
     [A + "declustering/dec_gardner_knopoff.py", A + "declustering/distance_time_windows.py", A + "declustering/utils.py"],
     [("cluster loop", A + "declustering/dec_gardner_knopoff.py:GardnerKnopoffType1._decluster"),
      ("windows", A + "declustering/distance_time_windows.py:BaseDistanceTimeWindow.__call__,_calc"),
      ("distance", A + "declustering/utils.py:haversine")])

prop("C18", "Simulated and dithered magnitudes stay inside their bounds",
     "simulate_magnitudes returns n values, all at least mc and, whenever mag_max is given (zero and negative included), at most mag_max; simulate_magnitudes_binned returns them binned to delta_m and at least mc. "
     "dither_magnitudes returns as many values as it gets, with as many values within half a bin of each bin centre as there were events in that bin.",
     ["inputs"], "all n, beta > 0, mc, mag_max, delta_m, and all random draws",
     "Tests check sample means for a few parameters.",
     [U + "simulate_distributions.py"],
     [("inverse transform", U + "simulate_distributions.py:simulate_magnitudes"),
      ("binning", U + "simulate_distributions.py:simulate_magnitudes_binned"),
      ("dithering", U + "simulate_distributions.py:dither_magnitudes")])

prop("C19", "Local coordinates convert back to the original coordinates",
     "For every projection and reference point, from_local_coords undoes to_local_coords (and the other way round) up to the accuracy of the projection, for scalars and lists, with and without altitude, altitude None staying None; the reference point itself has local coordinates (0, 0), also when it is given in another projection. "
     "Polygons are converted like their vertices, and bounding_box_to_polygon and polygon_to_bounding_box are inverse to each other.",
     ["inputs", "configurations"], "all coordinates, projections, reference points and altitudes",
     "Tests use one projection and a few points.",
     [U + "coordinates.py"],
     [("CoordinateTransformer", U + "coordinates.py:CoordinateTransformer.__init__,to_local_coords,from_local_coords,polygon_to_local_coords,polygon_from_local_coords"),
      ("bounding boxes", U + "coordinates.py:bounding_box_to_polygon,polygon_to_bounding_box")])

prop("C20", "QuakeML parsing depends only on the document, not on how it is delivered",
     "Parsing a QuakeML document gives the same events however the XML reader splits character data, and each event carries its own attributes only: the preferred origin and magnitude named by the event, and for the other magnitude types exactly one magnitude each, the newest by version and then creation time. "
     "Events without preferred origin or magnitude, or with untyped magnitudes, do not disturb the other events.",
     ["inputs", "schedules"], "all documents, all splits of character data, any number and order of origins and magnitudes",
     "Tests parse small files whose text arrives in one piece.",
     ["seismostats/io/parser.py"],
     [("SAX handler", "seismostats/io/parser.py:QuakeMLHandler"),
      ("selection", "seismostats/io/parser.py:_select_magnitude_by_id,_select_secondary_magnitudes,_select_origin_by_id,_parse_to_dict")])

prop("C21", "A catalogue exported to QuakeML reads back unchanged",
     "Catalog.to_quakeml followed by Catalog.from_quakeml gives back every event with a position and a time, in order, with its time (to the microsecond), coordinates, depth, magnitude, their uncertainties, the quality values, the magnitude and event types, the evaluation mode, all secondary magnitudes with their types, and the identifiers the catalogue has; identifiers it does not have are created, different for different events. The catalogue itself is left unchanged.",
     ["inputs"], "all catalogues, magnitude type names and identifier texts",
     "Tests export one catalogue.",
     [C + "catalog.py", "seismostats/catalogs/catalog_templates/quakeml.j2", "seismostats/io/parser.py"],
     [("export", C + "catalog.py:Catalog.to_quakeml,_create_ids,_secondary_magnitudekeys"), ("import", "seismostats/io/parser.py")])

prop("C22", "FDSN queries ask for exactly the requested events, batches cover them once",
     "FDSNWSEventClient.get_events sends each bound the caller gives (zero included) under its FDSN name and none the caller does not give, the minimum magnitude lowered by half a bin when delta_m is given. "
     "With a batch size, consecutive batches of that size start at offsets 1, 1+size, 1+2*size, ... and are just enough to cover all events the server has, whatever their number.",
     ["inputs"], "all parameter combinations, all batch sizes and all numbers of events on the server",
     "Tests mock one response and a few event counts.",
     [C + "client.py"],
     [("parameters", C + "client.py:FDSNWSEventClient.get_events"),
      ("batch count", C + "client.py:FDSNWSEventClient._get_batch_count,_get_batch_params")])

prop("C23", "Catalogue transformations keep rows, metadata and the original",
     "bin_magnitudes, strip, drop_uncertainties and drop_ids change only the columns they name, keep every row in order and all metadata (mc, b_value, a_value, delta_m, name, times), and with inplace=False (where offered) leave the original untouched; bin_magnitudes records the bin width it used, taking the catalogue's own when none is given. "
     "cat_intersect_polygon keeps exactly the rows whose (latitude, longitude) lies in or on the polygon.",
     ["inputs", "histories"], "all catalogues and columns, all sequences of transformations",
     "Tests check column names on one catalogue.",
     [C + "catalog.py", U + "filtering.py"],
     [("transformations", C + "catalog.py:Catalog.bin_magnitudes,strip,drop_uncertainties,drop_ids"),
      ("polygon filter", U + "filtering.py:cat_intersect_polygon")])

prop("C24", "Rate grids keep their cells through concatenation and statistics",
     "Concatenating rate grids keeps every row with the start (and end) time of its grid, gives equal cells the same cell id and different cells different ids (two undefined bounds are equal), and calculate_statistics returns one row per cell (and time) with the aggregate of exactly that cell's values over the realisations.",
     ["inputs"], "all grids, numbers of realisations and aggregation functions",
     "Tests check one grid.",
     [C + "rategrid.py"],
     [("concat", C + "rategrid.py:GRRateGrid.concat,add_time_index,_reindex_cell_id"),
      ("statistics", C + "rategrid.py:ForecastGRRateGrid.calculate_statistics")])

prop("C25", "Kijko-Smit and Weichert handle unequal completeness consistently",
     "estimate_b_kijko_smit returns the event-weighted harmonic combination of the Aki estimates of the sub-catalogues defined by the completeness table, its uncertainty beta/sqrt(n), the rate n / sum(T_i exp(-beta (m_i - m_0))) with the time spans T_i of the sub-catalogues and the a-value extrapolated from it to the bin centre, sub-catalogues without events contributing nothing; estimate_b_weichert returns the solution of Weichert's equation for the binned complete events with the rate, a-value and uncertainties that follow from it; estimate_b_weichert and estimate_b_kijko_smit return beta and its uncertainty when b_parameter='beta', ln(10) times the b-values, with the same rates and a-value.",
     ["inputs", "configurations"], "all catalogues and completeness tables, both parameterisations",
     "Tests check one catalogue with b_parameter='b_value'.",
     [A + "bvalue/kijko_smit.py", A + "bvalue/weichert.py"],
     [("Kijko-Smit", A + "bvalue/kijko_smit.py:estimate_b_kijko_smit"), ("Weichert", A + "bvalue/weichert.py:estimate_b_weichert")])

prop("C26", "openquake conversion keeps every event",
     "Converting a catalogue to an openquake catalogue and back keeps every event, in order, with its time (to the microsecond; before 1678 to the second), coordinates, depth, magnitude, identifiers (created where there are none) and extra columns, and leaves the converted catalogue unchanged; openquake catalogues convert with every non-empty column.",
     ["inputs"], "all catalogues convertible to openquake",
     "Tests convert a small catalogue.",
     [C + "catalog.py"],
     [("conversion", C + "catalog.py:Catalog.to_openquake,from_openquake")])

prop("C27", "Plot helpers map values to sizes and counts without distortion",
     "For magnitudes that are not all equal, dot_size maps the smallest magnitude to the smallest and the largest to the largest dot size monotonically, and reverse_dot_size is its inverse; gutenberg_richter evaluates count*10^(-b (m - mc)); plot_mags_in_time, plot_fmd, plot_cum_fmd and plot_cum_count draw exactly these sizes and the (cumulative) counts of the events, and the plot functions leave the lists and arrays passed to them unchanged.",
     ["inputs"], "all magnitude arrays and interpolation powers",
     "Tests check a few values or only that a plot is drawn.",
     ["seismostats/plots/basics.py"],
     [("helpers", "seismostats/plots/basics.py:dot_size,reverse_dot_size,gutenberg_richter,plot_mags_in_time")])

prop("C28", "Artificial incompleteness removes exactly the events shortly after a larger one",
     "make_more_incomplete returns, in time order, exactly the events for which no strictly larger event occurred earlier by less than delta_t, whether or not that larger event is itself removed, with their times and, on request, the mask of the kept events in time order; the arrays passed in are unchanged.",
     ["inputs"], "all catalogues, sorted in time or not, all time windows",
     "Tests check one catalogue of seven events.",
     [A + "bvalue/utils.py"],
     [("make_more_incomplete", A + "bvalue/utils.py:make_more_incomplete")])

prop("C29", "Catalogues and rate grids behave as the pandas tables they are",
     "Building a Catalog from a dictionary, records or a data frame keeps its columns, rows and index in order, makes the numeric columns numbers (undefined where they are none), the times times, empty texts None and starttime and endtime timestamps, and leaves the data passed in unchanged; without data it has the standard columns. Every pandas operation on a Catalog, ForecastCatalog, GRRateGrid or ForecastGRRateGrid gives the content it gives on a plain data frame and raises only where that raises; selections, orderings, extensions, copies and concatenations of rows are of the class their columns make them and keep every attribute. Methods that need columns raise an AttributeError naming the missing ones exactly when one is missing, and then change nothing.",
     ["inputs", "histories"], "all tables, containers, missing entries, indexes; chains of up to two operations out of 67",
     "Tests check the class and attributes after a handful of operations on one small table.",
     ["seismostats/catalogs/catalog.py", "seismostats/catalogs/rategrid.py", "seismostats/utils/__init__.py"],
     [("Catalog", "seismostats/catalogs/catalog.py:Catalog.__init__,_constructor,_metadata"),
      ("GRRateGrid", "seismostats/catalogs/rategrid.py:GRRateGrid.__init__,_constructor,strip,add_time_index"),
      ("require_cols", "seismostats/utils/__init__.py:require_cols,_check_required_cols")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
