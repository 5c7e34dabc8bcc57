#!/bin/bash
# Builds the harness once; every check rebuilds what it needs from /repo anyway.
cd "$(dirname "$0")" && exec ./check --setup
