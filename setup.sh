#!/bin/bash
# Builds the simulator once, so that the checks find a warm build cache.
exec "$(dirname "$0")/check.sh" --build-only
