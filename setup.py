"""Nothing to build: checks that the tools the checks need are there."""
import sys
sys.dont_write_bytecode = True
import z3
print('z3', z3.get_version_string(), 'python', sys.version.split()[0])
