import engine  # noqa: F401 (before z3 names are imported)
