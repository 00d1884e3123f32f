from pathlib import Path
VERIF = Path(__file__).resolve().parent.parent
