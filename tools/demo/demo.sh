#!/bin/bash
# Run in /repo after it was built. Exit 0: behaves as it should.
exec python3 -B "$(dirname "$0")/demo.py"
