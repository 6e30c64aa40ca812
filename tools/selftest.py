"""setup: nothing is built ahead (every check extracts, verifies and builds from
/repo's current tree); this only makes sure that the tools are there"""
import shutil
import sys
for t in ('verus', 'cargo', 'rustc'):
    if not shutil.which(t):
        print('missing tool', t)
        sys.exit(1)
print('ok')
