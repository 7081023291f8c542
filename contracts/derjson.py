"""Unit derjson: the derived json code, over the catalogue of shapes."""
import dertext


def unit():
    return dertext.unit("json")
