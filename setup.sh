#!/bin/bash
# Builds the simulator; everything is already present, offline.
cd "$(dirname "$0")" || exit 2
exec ./build.sh
