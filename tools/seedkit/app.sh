#!/bin/bash
# Runs the application in scratch directories and compares what it leaves.
PYTHONDONTWRITEBYTECODE=1 exec timeout 280 python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"
