#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""
Package that gathers several helper and utility features.
"""
