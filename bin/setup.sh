#!/bin/bash
. "$(dirname "$0")/lib.sh"
build_lib
build_cli
