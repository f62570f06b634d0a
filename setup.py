"""Builds the extraction tool (a cache: every check builds it again when it is missing)."""
import os, sys
sys.argv = ['setup']
import check
os.makedirs(check.BUILD, exist_ok=True)
check.build_dumper()
check.gen_headers()
print('setup done')
