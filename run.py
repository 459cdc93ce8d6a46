import sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent / "lib"))
import vf

if __name__ == "__main__":
    a = sys.argv[1:]
    replay = a[a.index("--replay") + 1] if "--replay" in a else None
    tier = "thorough" if "thorough" in a else "quick"
    try:
        rc = vf.main(a[0], tier, replay)
    except SystemExit as e:
        print(e); rc = 1
    sys.stdout.flush()
    sys.exit(rc)
