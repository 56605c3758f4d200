#!/bin/bash
# Builds the harness once in both configurations (the checks rebuild what changed).
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/run.sh" --build api && bash "$here/run.sh" --build hooks
