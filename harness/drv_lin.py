import sys
from common import main
import drv_push


def scenarios(tier, seed, gen):
    return drv_push.scenarios(tier, seed, gen, "lin", 184, 2400)


run = drv_push.run_lin


if __name__ == "__main__":
    main(sys.modules[__name__])
