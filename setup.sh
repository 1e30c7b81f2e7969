#!/bin/bash
# builds the IR exporter from the committed source (offline)
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0,'gdxsa'); import pipeline; print(pipeline.exporter())"
