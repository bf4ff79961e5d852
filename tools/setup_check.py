"""Nothing to build: check that the tools the analysis needs are there."""
import importlib.util
import sys

missing = [m for m in ("mypy",) if importlib.util.find_spec(m) is None]
if missing:
    import shutil
    if shutil.which("mypy") is None:
        sys.exit(f"missing: {missing}")
print("ok")
