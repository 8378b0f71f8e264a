"""The dr-html backend emits well-formed markup for every document.

Joint abstract interpretation of the evaluator and the backend over MIR: strings appended to the output are
lexed as HTML; the abstract output is the stack of open elements and the lexical state. Each evaluator function
satisfies by induction the contract that it leaves the stack and the lexical state as it found them."""
from rules import balance


def run(P, R, tier):
    R.rule("every append to the output buffer is lexed as HTML; an end tag must match the innermost open element; no path "
           "of an evaluator function may end inside a tag or attribute, or with an element left open that was not open on entry")
    balance.markup(P, R, "d", tier)
    R.floor("evaluator contracts (inductive hypotheses)", 5)
