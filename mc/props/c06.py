"""The Tag reference check accepts exactly the documents whose references of that kind are right."""
from .. import refkind

BOUNDS = {
    "quick": "every place outside protocol bindings where such a reference may stand x (44 reference forms x 4 states of "
             "the collection x contexts; ~200 names defined and undefined; member-like mapping keys; a crowd of 110 others; 4 sets of top members; among 4 or 8 like hosts holding right references, at each level; a second reference "
             "at 7 other places); and a dangling reference at every other kind of place",
    "thorough": "as quick with a second reference at every other place and ~330 names",
}
ASSUMPTIONS = ["a reference not starting with # counts as external; aliases are not followed by this check"]


def jobs(tier):
    return refkind.jobs("Tag", tier)


def run(sp, tier, what, idxs):
    refkind.run(sp, tier, "TagsRefValidator", "Tag", "tags", what, idxs)
