#!/bin/bash
# Runs demo.js (beside this file) on the index.html of the current directory.
here=$(cd "$(dirname "$0")" && pwd)
exec node "$here/demo.js"
