import sys
from common import main
import drv_push


def scenarios(tier, seed, gen):
    return drv_push.scenarios(tier, seed, gen, "nonlin", 136, 1600)


run = drv_push.run_nonlin


if __name__ == "__main__":
    main(sys.modules[__name__])
