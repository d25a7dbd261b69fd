"""setup_cmd: builds the simulator's C parts (checks also do so on demand)."""
from . import boot

if __name__ == "__main__":
    for src in sorted((boot.HERE / "csrc").glob("*.c")):
        print(boot.build_c(src.stem))
