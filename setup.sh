#!/bin/bash
# Builds the simulator once, so that the compiler's cache is warm.
exec "$(cd "$(dirname "$0")" && pwd)/check.sh" build
