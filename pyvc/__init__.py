"""pyvc: a contract verifier for the real Python source of mmrazor.

The package transforms the AST of every ``mmrazor`` module while it is
imported (``instr``), runs the transformed code on symbolic values (``sym``,
``seq``, ``tensor``), explores every path (``engine``) and hands the resulting
verification conditions to z3 / cvc5.
"""
