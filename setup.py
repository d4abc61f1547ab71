"""setup_cmd: nothing is compiled; checks that the tools the checks use are there"""
import os
import subprocess
import sys
import z3
print('z3', z3.get_version_string())
print(subprocess.run(['cvc5', '--version'], capture_output=True, text=True).stdout.splitlines()[0])
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence'), exist_ok=True)
import check
check.driver_ok = True
from pyv import driver
driver.load_specs()
driver.make_engine()
print('contracts', len(driver.spec.REG))
