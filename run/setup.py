"""Builds the driver and the TLC override from the committed files."""
import lib, sys
try:
    lib.build()
except lib.ToolError as e:
    print(e, file=sys.stderr)
    sys.exit(2)
