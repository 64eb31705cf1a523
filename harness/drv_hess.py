"""C03"""
import sys
from common import main
import drv_curv

scenarios = drv_curv.scenarios


def run(sc, rec, rng):
    drv_curv.run(sc, rec, rng, "hess")


if __name__ == "__main__":
    main(sys.modules[__name__])
