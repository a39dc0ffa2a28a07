"""nothing to install: checks that the tools are there; every check builds what it needs"""
import shutil, sys, subprocess
miss = [t for t in ('clang', 'gcc', 'perl', 'python3', 'make') if not shutil.which(t)]
if miss:
    print('missing tools: %s' % miss); sys.exit(1)
print('ok')
