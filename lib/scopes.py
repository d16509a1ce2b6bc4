"""Clauses that belong to one property alone."""
LQ_SHAPE = ["changeset-", "unchanged-table-touched", "diff-is-empty"]
