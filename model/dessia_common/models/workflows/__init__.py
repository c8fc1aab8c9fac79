#!/usr/bin/env python3
# -*- coding: utf-8 -*-
""" Created on Tue Oct 19 17:32:48 2021 """

from .power_simulation import simulation_workflow
from .forms_workflow import workflow_
