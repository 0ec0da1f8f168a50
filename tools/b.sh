#!/bin/sh
cd /verif/tools/extract && cargo build --release --offline 2>&1 | grep -E -A6 "^error" 
