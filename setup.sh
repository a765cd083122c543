#!/bin/bash
# Build the MIR exporter; the checks extract the crate themselves.
set -e
cd "$(dirname "$0")"
python3 -c "
import sys; sys.path.insert(0,'absint')
import lib
lib.extract()
"
