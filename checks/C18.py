"""C18: union-find trees."""
import cppsym

ASSUMPTIONS = ["vertices 0..n-1 with arbitrary check flags; operations are chosen freely"]
OUTSIDE = ["the boundary list of a cluster (kept by the heuristic decoder, not by the tree)", "more vertices or operations than listed"]
FN = ["TreeNode::Find", "TreeNode::Union", "TreeNode::TreeNode"]


def harnesses(tier):
    th = tier == "thorough"
    names = ["trees 3 vertices 3 steps", "trees 4 vertices 2 steps", "trees 4 vertices 3 steps, fixed checks"]
    if th:
        names += ["trees 5 vertices 3 steps, fixed checks", "trees 4 vertices 3 steps", "trees 4 vertices 4 steps, fixed checks"]
    out = [cppsym.harness(n, paths=200000, seconds=700 if th else 150, bounds="every sequence of merges", must_reach=["merge", "no merge"], functions=FN) for n in names]
    for n in (4, 8):
        out.append(cppsym.harness("trees of %d by merging equal clusters" % n, paths=200000, seconds=700 if th else 150, bounds="clusters of equal size merged in pairs, each cluster named by any of its members", must_reach=["merge"], functions=FN))
    out.append(cppsym.harness("order", bounds="vertex indices 0..2", functions=FN))
    return out
