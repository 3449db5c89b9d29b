"""Nothing is prebuilt: every check extracts, compiles and proves from /repo's current tree. Only the tools are checked."""
import shutil, sys
miss = [t for t in ('clang++', 'g++', 'verus', 'git') if not shutil.which(t)]
if miss: print('missing tools', miss); sys.exit(1)
print('ok')
