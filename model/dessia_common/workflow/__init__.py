#!/usr/bin/env python3
# -*- coding: utf-8 -*-
""" Barrel file for workflows. """
# Retro-compatibility: Remove this in the future
from .blocks import *
