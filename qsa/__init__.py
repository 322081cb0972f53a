"""qsa: repository-specific static analysis for gedaskir/qmeq.

Nothing in this package imports, executes or solves paths of qmeq.  Every
decision is taken from the syntax trees of /repo's current *.py, *.pyx and
*.pxd files.
"""
