import mmrazor.models  # noqa: F401  (the only import order that works)
