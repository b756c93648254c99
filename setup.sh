#!/bin/bash
# builds the harness (against /repo) and the Java implementation of the real-number operators
cd "$(dirname "$0")" && exec python3 -c "
import sys; sys.path.insert(0, 'run')
import driver; driver.build()"
