#!/bin/bash
# Warms the build so that later checks only rebuild what changed in /repo.
cd "$(dirname "$0")" && ./check.sh build
