#!/bin/sh
# nothing to install: every check builds its explorer from /repo's working tree. verify that the tools are there
set -e
command -v gcc python3 objcopy > /dev/null
