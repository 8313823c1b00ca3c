#!/usr/bin/env python3
"""builds the exporter; compiles the current tree once so that checks start warm"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
build.build_irx()
try:
    import props
    for p in props.PROPS.values():
        for j in p["jobs"]:
            if "tus" in j:
                build.export(j["name"], j["tus"], j["spec"], j.get("variant", ""))
except build.BuildError as x:
    print(x)
