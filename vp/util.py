"""Helpers around the public API of the code under test."""
import copy
import random

import numpy as np
import pandas as pd

import dataprofiler as dp
from dataprofiler.profilers.profile_builder import StructuredProfiler, UnstructuredProfiler


def opts(extra=None, labeler=False, multiprocess=False, presets=None):
    o = dp.ProfilerOptions(presets=presets) if presets else dp.ProfilerOptions()
    s = {}
    if not labeler:
        s["structured_options.data_labeler.is_enabled"] = False
        s["unstructured_options.data_labeler.is_enabled"] = False
    s["structured_options.multiprocess.is_enabled"] = multiprocess
    if extra:
        s.update(extra)
    o.set(s)
    return o


def profile(data, extra=None, min_true_samples=0, samples_per_update=None, **kw):
    return dp.Profiler(data, options=opts(extra, **kw), profiler_type="structured",
                       min_true_samples=min_true_samples, samples_per_update=samples_per_update)


def seed(n):
    random.seed(n)
    np.random.seed(n % 2**32)


def strip_volatile(x):
    """Drop timings and random samples from a report (recursively)."""
    if isinstance(x, dict):
        return {k: strip_volatile(v) for k, v in x.items() if k not in ("times", "samples")}
    if isinstance(x, (list, tuple)):
        return [strip_volatile(v) for v in x]
    return x


def rep(p, **kw):
    return strip_volatile(p.report(report_options=kw or {"output_format": None}))


def rand_extra(r, labeler=False):
    """random structured option overrides -> dict for opts(extra)"""
    e = {}
    s = "structured_options."
    if r.random() < .35:
        m = r.choice([5, 10, 37, "auto", "fd", "sturges", "rice", "scott", "sqrt", "doane", ["auto", "sqrt"]])
        for t in ("int", "float", "text"):
            e[s + t + ".histogram_and_quantiles.bin_count_or_method"] = m
    if r.random() < .2:
        q = r.choice([4, 10, 100, 999])
        for t in ("int", "float", "text"):
            e[s + t + ".histogram_and_quantiles.num_quantiles"] = q
    if r.random() < .2:
        for t in ("int", "float", "text"):
            e[s + t + ".mode.top_k_modes"] = r.choice([1, 2, 10])
    if r.random() < .2:
        for t in ("int", "float", "text"):
            e[s + t + ".bias_correction.is_enabled"] = False
    if r.random() < .3:
        e[s + "correlation.is_enabled"] = True
    if r.random() < .2:
        e[s + "null_replication_metrics.is_enabled"] = True
    if r.random() < .15:
        e[s + "chi2_homogeneity.is_enabled"] = False
    if r.random() < .2:
        e[s + "row_statistics.unique_count.hashing_method"] = "hll"
    if r.random() < .1:
        e[s + "row_statistics.is_enabled"] = False
    if r.random() < .15:
        e[s + "category.top_k_categories"] = r.choice([1, 3])
    if r.random() < .1:
        e[s + "category.max_sample_size_to_check_stop_condition"] = 8
        e[s + "category.stop_condition_unique_value_ratio"] = 0.5
    for k in ("order", "category", "int", "float", "text", "datetime"):
        if r.random() < .05:
            e[s + k + ".is_enabled"] = False
            if k == "category":
                e[s + "chi2_homogeneity.is_enabled"] = False
    if r.random() < .15:
        t = r.choice(["int", "float", "text"])
        grp = r.choice([["min"], ["max"], ["min", "max"], ["median"], ["mode"], ["median_abs_deviation"], ["kurtosis"],
                        ["skewness", "kurtosis"], ["variance", "skewness", "kurtosis"], ["sum", "variance", "skewness", "kurtosis"],
                        ["histogram_and_quantiles", "median", "mode", "median_abs_deviation"]]
                       + ([["num_zeros"], ["num_negatives"]] if t != "text" else [["vocab"]])
                       + ([["precision"]] if t == "float" else []))
        for k in grp:
            e[s + t + "." + k + ".is_enabled"] = False
        if "variance" in grp:  # these need the moments
            e.pop(s + "correlation.is_enabled", None)
            e.pop(s + "null_replication_metrics.is_enabled", None)
    return e
