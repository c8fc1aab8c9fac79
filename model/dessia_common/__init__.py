#!/usr/bin/env python3
# -*- coding: utf-8 -*-
""" __init__ for dessia_common module. """

from importlib.metadata import version

__version__ = version("dessia_common")

FLOAT_TOLERANCE = 1e-9
REF_MARKER = "$ref"
OLD_REF_MARKER = "$ref"
