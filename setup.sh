#!/bin/bash
# Build everything once.
cd "$(dirname "$0")" && ./build.sh
