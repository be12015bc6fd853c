"""The checks: for every property the models, the replayed behaviours and the recorded runs."""
from . import pgs, text, vob

PLANS = {}
PLANS.update(pgs.PLANS)
PLANS.update(vob.PLANS)
PLANS.update(text.PLANS)
