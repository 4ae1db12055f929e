#!/bin/sh
# builds the fact extractor (and nothing else); the checks extract facts from /repo on every run
cd "$(dirname "$0")" && exec python3 -c "
import sys; sys.path.insert(0,'tools')
from dw import facts
facts.tool(); print('extractor ready')"
