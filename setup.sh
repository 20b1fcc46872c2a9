#!/bin/bash
# Builds the framework, offline.
exec "$(dirname "$0")/build.sh"
