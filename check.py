#!/usr/bin/env python3
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import main
sys.exit(main.main(sys.argv[1:]))
