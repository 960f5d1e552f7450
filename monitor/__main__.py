from .registry import CHECKS
from .runner import main

main(CHECKS)
