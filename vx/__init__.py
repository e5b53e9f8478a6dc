"""vx: concolic (concrete + symbolic) execution of instrumented Python, decided by z3."""
