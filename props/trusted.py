TRUSTED = [
    'clang 18 AST of the translation unit rooted at /verif/kvc/roots (flags of the repository build, -DNDEBUG)',
    'kvc/dumper.cpp: AST to JSON (drops: logging macros, asserts, [[nodiscard]] and other attributes, comments)',
    'kvc/exe.py + kvc/lib.py: symbolic semantics of C++ and of the standard-library operations used',
    'kvc/ir.py: term normaliser', 'kvc/prove.py: extensionality, induction and case-split rules',
    'z3 (python bindings of python3-vt)',
]
ASSUME = [
    'containers hold fewer than 2^48 elements; allocation does not fail',
    'signed integer arithmetic does not overflow; unsigned arithmetic wraps exactly',
    'floating-point operations are uninterpreted functions (bit-exact for the association written in the code); '
    'comparisons follow IEEE 754 ordering, NaN included',
    'distinct reference parameters do not alias',
    'logging has no observable effect',
]
