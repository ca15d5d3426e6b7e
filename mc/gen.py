"""Helpers to write down finite spaces of programs."""

import itertools


def ind(src, n=1):
    pad = " " * n
    return "\n".join(pad + line for line in src.split("\n"))


def block(head, body):
    return head + "\n" + ind(body)


def func(name, args, body):
    return block(f"def {name}({args}):", body)


def chunks(items, n):
    items = list(items)
    for i in range(0, len(items), n):
        yield items[i:i + n]


def prod(*a, **k):
    return itertools.product(*a, **k)


# A program may only use what is in the language its bytecode comes from.
def supports(version, feature):
    return version >= {
        "fstring": (3, 6),
        "kwonly": (3, 1),
        "annotations": (3, 1),
        "nonlocal": (3, 1),
        "set_display": (2, 7),
        "dictcomp": (2, 7),
        "setcomp": (2, 7),
        "with": (2, 6),
        "with25": (2, 5),
        "gen_send": (2, 5),
        "yield_from": (3, 3),
        "raise_from": (3, 1),
        "unpack_call": (3, 5),
        "unpack_display": (3, 5),
        "matmul": (3, 5),
        "posonly": (3, 8),
        "super0": (3, 1),
        "metaclass_kw": (3, 1),
        "ifexp": (2, 5),
        "tryfinally_unified": (2, 5),
        "decorators": (2, 4),
        "class_decorators": (2, 6),
        "walrus": (3, 8),
        "var_annotations": (3, 6),
    }[feature]
