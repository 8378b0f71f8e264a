"""Attribute authority: job-locked values win, host-only and header-only names are enforced.

Decided on the attribute store: every lookup path consults the document's maps
only when the job holds no read-only value; every write into those maps is
dominated by the failed host-only (and, for the body map, header-only) name
tests or uses a constant name outside them; cached copies respect the lock."""
from rules import attrs


def run(P, R, tier):
    attrs.precedence(P, R)
    attrs.bypass(P, R, P.one("<DocumentMeta as ReadAttr>::get"))
    attrs.setters(P, R)
    attrs.job_writes(P, R)
    attrs.caches(P, R)
