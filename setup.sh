#!/bin/bash
# Builds the analyser from the committed sources (offline).
exec "$(dirname "$0")/build.sh" /dev/null
