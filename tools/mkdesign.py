"""Writes DESIGN.md: tools/design_head.md, one section per property (statement in properties.jsonl, bounds in mc/props), tools/design_tail.md."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

ORACLE = {
    "P01": ("A model of trees as nested sets of dimensions (mc/trees.py), with each edit defined on the nested sets; the object is checked against all derived attributes after each edit.",
            "Tests build four kinds of trees once; the defects found needed an edit after another edit, an unusual child order, or a particular random draw."),
    "P02": ("Dense arrays: every core list is contracted to a dense array by an independent loop (ref.dense), the operation is done in numpy and compared; attributes of the result are checked against its cores (tbt.structure).",
            "Tests use one or two trees with all nodes active; combinations of different activity patterns, root rank above one and chains of two operations are the interesting part."),
    "P03": ("Dense arrays, numpy indexing and einsum.", "Order of the modes in the lists, singleton modes and inactive leaves are enumerated; tests use one list."),
    "P04": ("Dense value unchanged up to the requested permutation; gauge conditions recomputed from the cores.", "Sequences of representation changes with stale orthogonality flags are reached only by histories."),
    "P05": ("Dense norms, Gramians and SVDs of matricisations; storage counted on the cores; admissibility decided by the ranks of a generic tensor.", "All rank tuples up to 4 are enumerated for admissibility; metrics that are neither symmetric nor square expose transposition errors."),
    "P06": ("Linearity: the derivative is contracted with every element of the canonical basis of the parameter space and compared with evaluations of the tensor with that core.", "Complete by linearity for the enumerated configurations; tests never call most of these."),
    "P07": ("numpy SVD of matricisations: errors, best errors, quasi-optimality constants, exact ranks; constructed tensors whose node errors add up exactly put the tolerance at the edge.", "Tolerances on both sides of the threshold decide the split of the tolerance among nodes."),
    "P08": ("Index-by-index loops with column-major grouping.", "Shapes with singletons, repeated and reversed index lists and every list of dimensions."),
    "P09": ("Dense expansion by explicit sums of outer products.", "As P08 for canonical and diagonal formats."),
    "P10": ("Dense arrays.", "Every sparsity pattern, including empty and full, for small shapes."),
    "P11": ("Dense expansions; for constructors the arrays drawn from the (replaced) generators.", "All chains of two conversions; every outcome of the choice of ranks, shapes and active nodes."),
    "P12": ("Python sets of tuples.", "All subsets of small boxes and all pairs; named sets for all parameters against their defining inequality with exact arithmetic."),
    "P13": ("Integer arithmetic and exact comparison of points.", "Every integer and every cell (with both ends of the domain) instead of random points."),
    "P14": ("Closed forms, sums over atoms, quadrature; uniform draws replaced by enumerated values including the extreme ones.", "Atoms in any order, zero weights, quantiles at jumps."),
    "P15": ("Exact moments of the measures.", "All node numbers, atoms sets and knot patterns; degree 2n-1 is the boundary."),
    "P16": ("numpy.polynomial and exact moments; orthonormality by exact quadrature of an independent rule.", "All degree lists in any order with repetitions, derivative orders over the degree."),
    "P17": ("Explicit formulas of the functions (Cox-de Boor for splines), exact integrals on each element.", "Repeated knots, sub-bases, empty or permuted selections."),
    "P18": ("Products of values of the univariate factors, computed with fresh copies.", "Index sets in any order, every ordered list of factors and chains of changes of the factors."),
    "P19": ("Explicit sums and exact quadrature of them.", "Every unit coefficient array (complete by linearity), vector- and matrix-valued functions, masks."),
    "P20": ("Explicit sums over basis products and exact quadrature.", "All trees and activity patterns; additional tensor dimensions at every position."),
    "P21": ("The underlying map evaluated row by row, a Python dict as model of the value cache.", "Histories of batches with overlapping points, with the caller overwriting its arrays in between."),
    "P22": ("Residuals recomputed with numpy at each greedy step, exact reproduction of the functions of the space.", "Every matrix over small alphabets (ties, rank deficiency), every unisolvent subset."),
    "P23": ("numpy lstsq, brute-force refitting without the held-out samples, exhaustive comparison over the path of supports.", "Every order of the samples drawn for the folds; every path of supports."),
    "P24": ("Risks, errors and stagnation recomputed from the dense coefficient tensors; optimality of each core by least squares over its canonical basis; fresh solvers for histories.",
            "Every order in which a level is visited, every activity pattern, and histories; iterates are compared one by one, so that shared or stale iterates show."),
    "P25": ("A log of the requested entries; numpy SVD of the sampled fibres; exact recovery when the ranks and the samples allow it.", "Outcomes of the sampling are enumerated around a base outcome, exhaustively for one group of small dimensions."),
    "P26": ("Exact lower envelope of lines.", "All lists of 1..4 models over small grids, including ties and repetitions."),
    "P27": ("Deep observation of every operand before and after, comparison of every second operation with the same operation on a fresh object.", "All ordered pairs of operations; results overwritten in place to find shared arrays."),
    "P28": ("Dense tensors and storage, every sequence of proposals within the bound.", "The optimisation is random: the property is about every path."),
    "P29": ("The artists created by matplotlib, compared with the structure of the tree, the points of the grid, the masses, and the values of the functions.", "No test draws anything; every tree and every subset of nodes is drawn."),
}


def main():
    with open(os.path.join(ROOT, "tools", "design_head.md")) as f:
        out = [f.read().rstrip(), "", "## Properties", ""]
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(line)
        m = importlib.import_module("mc.props." + p["id"].lower())
        out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], ""]
        o, w = ORACLE[p["id"]]
        out += ["* Oracle: " + o, "* Enumerated (quick): " + m.BOUNDS["quick"] + ".", "* Enumerated (thorough): " + m.BOUNDS["thorough"] + ".", "* Beyond the tests: " + w]
        a = getattr(m, "ASSUMPTIONS", None)
        if a:
            out.append("* Assumed: " + "; ".join(a) + ".")
        out.append("")
    with open(os.path.join(ROOT, "tools", "design_tail.md")) as f:
        out.append(f.read().rstrip())
    notes = dict(ln.rstrip("\n").split("|", 1) for ln in open(os.path.join(ROOT, "tools", "planted.txt")) if "|" in ln)
    out += ["", "Each is caught by the quick check of its property, except where the last column says otherwise.", "",
            "| change | property | breaks | needs | remark |", "|---|---|---|---|---|"]
    sd = os.path.join(ROOT, "seeded")
    for s in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, s, "meta.json")))
        out.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], m["needs"], notes.get(s, "caught at once")))
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
