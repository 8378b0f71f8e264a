"""Rendering one construct leaves the renderer as it was.

Joint abstract interpretation of the evaluator and each HTML backend: at every exit of every evaluator function the
output buffer is the one found on entry, no pending text is left in a secondary buffer, nothing is rendered while
such text is pending, and every flag, stack, mode and depth of the backend has the value it had on entry."""
from rules import balance


def run(P, R, tier):
    R.rule("frame condition of each evaluator function on the backend's fields: unchanged, except counters (numbering), "
           "what an attribute declaration sets, and a flag found set and consumed")
    balance.state(P, R, tier)
    R.floor("evaluator contracts (inductive hypotheses)", 10)
