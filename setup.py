"""Builds the symbolic executor (every check also does, when it is missing)."""
import check
print(check.engine())
