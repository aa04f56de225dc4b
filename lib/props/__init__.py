from .util import CHECKS
from . import core, cpus, layout, structure, reports, robust, verbose, machines
