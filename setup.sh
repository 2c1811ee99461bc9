#!/bin/sh
# Builds the symbolic executor and the models from the committed files.
cd "$(dirname "$0")" && exec python3 -c "import check; check.need_engine()"
