"""Unit derron: the derived ron code, over the catalogue of shapes."""
import dertext


def unit():
    return dertext.unit("ron")
