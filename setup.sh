#!/bin/bash
# Builds the harness once, to see that it builds here; every check builds what it needs itself.
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
build_harness && build_cli && build_dev
