"""Write the contract table of DESIGN.md (between the TABLE markers) from the contracts and baseline.json."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc import env
env.setup()
from pyvc import engine
import contracts
contracts.load_all()

DOC = {
    "catalog_as_table": "chains of pandas operations give what they give on a plain data frame; class by columns, attributes kept",
    "rategrid_as_table": "the same for rate grids and forecasts",
    "catalog_construction": "columns, rows, numbers, times, empty texts and attributes as given; data unchanged",
    "empty_catalogues": "the standard columns without data",
    "needed_columns": "a missing column is an AttributeError that names it, and nothing changes",
    "rategrid_methods": "strip and add_time_index: rows, columns, index levels, cell numbers, refusals, in place or not",
    "bin_to_precision_scalar": "nearest multiple of the bin width, halves up; width 0 refused",
    "bin_to_precision": "the same elementwise and in order, for arrays and lists",
    "bin_to_precision_series": "the same for pandas Series, index kept",
    "bin_none": "no width gives an error",
    "bin_idempotent": "binning binned values changes nothing (lemma over the contract)",
    "binning_test": "accepts exactly the arrays on a grid anchored at their minimum",
    "binning_test_grid": "multiples of the width are accepted (used by the estimators)",
    "binning_test_zero": "width 0",
    "get_fmd": "bins consecutive and covering, counts exact and conserved, centres or left edges, weights",
    "get_cum_fmd": "cumulative counts from the largest bin down, the first is the total",
    "get_cum_fmd_unbinned": "fmd_bin = 0: the distinct magnitudes",
    "classic_b": "published formula on exactly the complete events; idx, magnitudes, weights, n; arbitrary earlier attributes",
    "utsu_b": "published formula on exactly the complete events; idx, magnitudes, weights, n; arbitrary earlier attributes",
    "b_positive": "exactly the sufficient steps of time-consecutive events, weight of the later one",
    "b_more_positive": "exactly the pairs with the next sufficiently larger event",
    "find_next_larger": "position of the first sufficiently larger later event, else 0 (loop invariants)",
    "beta_to_b_value": "division by ln 10", "b_value_to_beta": "multiplication by ln 10",
    "conversions_inverse": "lemma over the two contracts",
    "shi_bolt_confidence": "ln(10) b^2 s / sqrt(n - 1), weighted and unweighted, beta form",
    "classic_a": "log10 of the count of complete events, reference magnitude and scaling",
    "a_positive": "the published formula on the sufficient steps of time-consecutive events",
    "a_more_positive": "the published formula on the next-larger pairs",
    "estimate_mc_maxc": "smallest of the fullest bins plus the correction",
    "maxc_order": "order of the events is irrelevant",
    "ks_test_gr": "distance and p-value with drawn samples", "ks_test_gr_given": "distance and p-value with given distances",
    "estimate_mc_ks": "whole procedure", "estimate_mc_b_stability": "whole procedure",
    "estimate_b": "returns the estimator's results; unknown parameters refused",
    "estimate_a": "returns the estimator's result; unknown parameters refused",
    "catalog_estimate_b": "own columns and attributes passed on exactly when not given, results stored",
    "catalog_estimate_a": "own columns and attributes passed on exactly when not given, results stored",
    "catalog_mc_ks": "the same", "catalog_mc_b_stability": "the same", "catalog_mc_maxc": "the same",
    "catalog_estimates": "the Catalog methods on data frames",
    "est_morans_i_matrix": "general matrices", "est_morans_i_square": "non-square matrices",
    "transform_n": "formula; refuses n1 > n2", "transform_n_fixed": "keeps the true b-value",
    "transform_n_identity": "n1 = n2", "transform_n_arrays": "elementwise on arrays",
    "values_from_partitioning_real": "with the real estimators", "b_significant_1D": "whole procedure with real estimators",
    "declustering_windows": "published window functions, cutoff",
    "haversine_symmetric": "lemma", "gardner_knopoff": "whole catalogues",
    "simulate_magnitudes": "number of values and bounds", "simulate_magnitudes_binned": "binned and bounded",
    "dither_magnitudes": "counts per bin conserved",
    "to_local_coords": "scalars and lists, altitude", "local_coords_round_trip": "from_local undoes to_local",
    "external_coords_round_trip": "to_local undoes from_local", "reference_point": "maps to (0, 0)",
    "polygon_local_coords": "vertex by vertex", "bounding_box": "polygon of a box and back",
    "bounding_box_of_polygon": "box of an arbitrary polygon",
    "quakeml_documents": "whole documents, any delivery", "quakeml_round_trip": "export and read back",
    "batch_count": "just enough batches, for every server size", "query_parameters": "exactly the given bounds",
    "batched_query": "offsets and limits of the batches, joined in order",
    "catalog_bin_magnitudes": "columns named, width recorded, inplace or not",
    "kijko_smit": "harmonic combination, rate and a-value", "weichert": "Weichert's equation and what follows",
    "weichert_objective": "the function whose zero is Weichert's beta",
    "rategrid_concat": "rows, times, cell ids", "rategrid_statistics": "one row per cell with its aggregate",
    "gutenberg_richter": "formula", "dot_size": "monotone between the bounds", "reverse_dot_size": "inverse of dot_size",
}
b = json.load(open(os.path.join(HERE, "baseline.json")))
titles = {}
for l in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(l)
    titles[d["id"]] = d["title"]
out = []
for p in sorted(titles):
    us = [(u, c) for u, c in engine.UNITS.items() if p in c.pids]
    out.append(f"\n**{p} — {titles[p]}**\n")
    if not us:
        out.append("not applicable, see above")
        continue
    first = [(u, c) for u, c in us if min(c.pids) == p or c.pids[0] == p]
    for u, c in first:
        doc = " ".join((c.__doc__ or DOC.get(u, "")).strip().split("\n\n")[0].split())
        if u.endswith("_refusals"):
            doc = "which inputs are refused with which error, and no others"
        if c.symbolic and u in b:
            w = f"**proved**, {len(b[u]['discharged'])} named obligations"
        else:
            w = f"**bounded** ({c.cases} cases quick): {c.why_bounded}"
        out.append(f"- `{u}`" + (f": {doc}" if doc else "") + f" — {w}")
    rest = [u for u, c in us if (u, c) not in first]
    if rest:
        pr = [f"`{u}`" for u in rest if u in b]
        bd = [f"`{u}`" for u in rest if u not in b]
        out.append("- and of other properties: proved " + ", ".join(pr) + ("; bounded " + ", ".join(bd) if bd else ""))
s = open(os.path.join(HERE, "DESIGN.md")).read()
t = "<!-- TABLE -->"
a, z = s.index(t) + len(t), s.rindex(t)
open(os.path.join(HERE, "DESIGN.md"), "w").write(s[:a] + "\n" + "\n".join(out) + "\n\n" + s[z:])
