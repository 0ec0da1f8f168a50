#!/bin/bash
# Builds the extractor (checks build what they need themselves as well).
cd "$(dirname "$0")/.." || exit 1
python3 -c '
import sys; sys.path.insert(0,"lib")
import driver
print(driver.build_extractor())
'
