#!/bin/bash
# Prebuilds the monitors so that the first check does not pay for it.
cd "$(dirname "$0")" || exit 1
exec python3 tools/prebuild.py
