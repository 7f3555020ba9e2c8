# -*- coding: utf-8 -*-
"""Writes MANIFEST.json from the table below and the checks present."""
import json
import os

T = {
 "C01": ("exhaustive enumeration of series x shapelet shapes x parameter mixes, real transform vs naive reference", "All series over a small alphabet and all shapes within the bounds, exact comparison on integer data; generic reals for normalised windows up to float tolerance."),
 "C02": ("exhaustive enumeration of batches, real transform vs row transformed alone", "All batches (order, repetition, mixed lengths) up to the bound over a pool of series."),
 "C03": ("exhaustive enumeration of series, rotations and affine maps on the real transform", "All rotations and a menu of positive affine maps of all series within the bounds."),
 "C04": ("exhaustive exploration of all random-draw outcomes of the real fit", "Every outcome of every draw (menus for continuous draws), shapelets matched with the training series."),
 "C05": ("exhaustive exploration of length options x random-draw outcomes of the real fit", "All series lengths and options in the bounds, every draw outcome that decides a shape."),
 "C06": ("exhaustive exploration of all random-draw outcomes of multi-shapelet fits", "Overlap and exhaustion oracles on every sequence of draws within the bounds."),
 "C07": ("exhaustive exploration of all labelings x random-draw outcomes of the real fit", "Threshold explained by a percentile interval of another series of the class, for every draw."),
 "C08": ("controlled-scheduler exploration of the parallel loops (preemption bounded) on the real code", "All distributions of iterations over threads and interleavings of statements up to the bound, compared with the sequential result; statements are atomic."),
 "C09": ("controlled-scheduler exploration with a per-thread generator model; all ensemble task interleavings up to a bound", "numba's per-thread generators are modelled; thread distributions, worker orders, histories and global generator states are enumerated."),
 "C10": ("exhaustive exploration of operation histories on real estimators vs newly constructed ones", "All histories up to the depth over datasets of different kinds."),
 "C11": ("exhaustive exploration of operation histories with snapshots of all user data", "All histories up to the depth x containers, dtypes, memory layouts."),
 "C12": ("exhaustive enumeration of kind x container x dtype x requested type against a decision table and equal-features oracle", "All combinations of the bounded menu."),
 "C13": ("exhaustive enumeration of shapes x containers x dtypes x options against a decision table", "All shapes up to the bound in 0-4 dimensions; real numpy and pandas."),
 "C14": ("exhaustive enumeration of parameter values x CPU counts against a decision table", "All integers in the range for several CPU counts; menus of types for the other parameters."),
 "C15": ("exhaustive enumeration of labelings, data and options; real classifier vs composition of its documented parts", "The linear model is an environment model (closed-form ridge); enumerated labels, constant columns, options."),
 "C16": ("exhaustive enumeration of label sets x members x jobs x recorded member answers; real ensemble vs weighted vote", "The vote is recomputed from the members' decision values and leave-one-out predictions."),
 "C17": ("exhaustive enumeration of small series per transformer option vs definitions", "All series over a small alphabet and shapes within the bounds."),
 "C18": ("exhaustive enumeration of fit/transform matrices and two-fit histories vs definition", "All small matrices over a small alphabet."),
 "C19": ("exhaustive enumeration of series, shapelets, coefficient orders; recorded plots vs transform output", "Plots are recorded by a matplotlib model."),
 "C20": ("exhaustive exploration of labelings and of all shuffle outcomes of the real resampling", "Every outcome of the generator's permutations within the bounds."),
 "C21": ("exhaustive enumeration of archive answers through the real loaders", "The archive is an environment model whose answers are enumerated."),
 "C22": ("exhaustive enumeration of score tables, p-value orderings and row permutations vs definitions", "The p-values of the tests are environment answers; ranks, Holm and cliques recomputed by brute force."),
 "C23": ("exhaustive exploration of subsets and random-draw outcomes of the real fit", "All subsets the stratified draw can return."),
 "C24": ("exhaustive exploration of all random-draw outcomes; set of reached candidates = set of admissible candidates", "Reachability is decided over all outcomes of a one-shapelet fit."),
 "C25": ("exhaustive enumeration of kinds x lengths x estimators, normalised vs raw output", "Raw output divided by true length, for the transformer, ridge and ensemble."),
 "C26": ("exhaustive enumeration of small matrices, integers and shapes vs definitions", "All inputs within the bounds; out-of-range indexing detected by guarded arrays."),
 "C27": ("exhaustive enumeration of shapelet shapes x series lengths x channels, label counts and pairs of fit options on the real estimators, with an out-of-bounds monitor", "All spans, channel sets, label counts and forms, and all pairs of options within the bounds; out-of-range indexing shows as numpy's IndexError."),
 "C28": ("exhaustive enumeration of crash points of fit and predict on the real estimators (fault injection) and of all interleavings of two estimators sharing parameters", "A crash at every random draw and component call; every order of operations up to the depth, compared with each estimator alone."),
 "C29": ("exhaustive enumeration of the option values x kinds of data x seeds on the real package, imported anew under each", "All sixteen option values; every result compared with that of the default options, every compiled function's options inspected at run time."),
 "C30": ("stateless exploration of thread schedules of the real estimators under a controlled scheduler (preemption-bounded, line granularity)", "Every schedule within the bounds is run on the real code; each thread's result is compared with the one it gets alone, and the fitted state with the one before."),
 "C31": ("exhaustive enumeration of class splits x label sets x assignments x containers, real estimators compared across namings", "All splits and namings within the bounds, exact comparison of shapelets, predictions, weights and scores."),
 "C32": ("exhaustive exploration of all random-draw outcomes of the real fit, each replayed with the same draws in other units", "Exact relation between the two executions for data and factors on which the arithmetic is exact; tolerance for normalised shapelets."),
}
here = os.path.dirname(os.path.abspath(__file__))
checks = []
na = []
for pid in sorted(T):
    if os.path.exists(os.path.join(here, "checks", pid.lower() + ".py")):
        checks.append(dict(property=pid, quick_cmd="./check %s" % pid, thorough_cmd="VERIF_TIER=thorough ./check %s" % pid,
                           technique="model checking: " + T[pid][0], level="model_checking",
                           level_note=T[pid][1] + " The Python source of /repo runs unmodified under environment models of "
                           "numba, scikit-learn, joblib, aeon and the plotting packages (not installed here)."))
    else:
        na.append(dict(property=pid, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the checks use public behaviour only. Known findings and fixes: known_findings.json."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
