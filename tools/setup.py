"""Checks that the tools are there; the checks build everything they need themselves, from /repo."""
import shutil, sys
missing = [t for t in ('clang++', 'python3', 'ar') if not shutil.which(t)]
if missing:
    sys.exit('missing: ' + ' '.join(missing))
print('ok')
