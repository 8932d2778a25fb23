#!/bin/bash
# builds the IR reader; the checks rebuild it themselves when it is absent
cd "$(dirname "$0")/.." && python3-vt -c "
import sys; sys.path.insert(0,'lib')
import harness; print(harness.irdump())"
