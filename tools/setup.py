#!/usr/bin/env python3
"""Nothing to build: check that the tools the analyses need are present."""
import shutil, sys
missing = [t for t in ('clang', 'opt', 'llvm-link') if not shutil.which(t)]
if missing:
    print('missing: ' + ' '.join(missing))
    sys.exit(1)
print('ok')
