#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from engine.core import main
sys.exit(main(sys.argv[1:]))
