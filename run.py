"""python run.py CNN [--replay FILE]: runs the check of one property (see DESIGN.md)."""
import os
import sys

sys.dont_write_bytecode = True

if __name__ == "__main__":
    from pbt.harness import main

    status = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(status)
