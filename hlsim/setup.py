"""Fresh-sandbox setup: nothing to install; shows that the tools the checks need are there."""
import os
import shutil
import sys

from . import build


def main():
    missing = [t for t in ("g++", "clang++", "Rscript") if not shutil.which(t)]
    if missing:
        print("missing: " + " ".join(missing))
        return 1
    build.venv()
    for d in ("evidence", "replays", ".build"):
        os.makedirs(os.path.join(build.VERIF, d), exist_ok=True)
    print("ready")
    return 0


if __name__ == "__main__":
    sys.exit(main())
