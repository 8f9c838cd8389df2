"""Symbolic counterparts of library modules other than numpy (registered before loading)."""
from . import runtime  # noqa: F401
