import os

# The tree under test.  The override exists for development only (planted bugs in scratch copies).
REPO = os.environ.get("VERIF_REPO", "/repo")
