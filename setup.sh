#!/bin/bash
# Builds the harness, so that the checks that follow find its dependencies compiled.
exec "$(dirname "$0")/check.sh" build
