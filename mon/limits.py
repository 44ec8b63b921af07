"""Sizes of operands in the current history."""
# How large operands may become in the current history
SMALL_LIMITS = dict(prod=150, prodsize=600, size=1200, pool=800, poolbulk=6000, embed=300)
BIG_LIMITS = dict(prod=2500, prodsize=3000, size=5000, pool=4000, poolbulk=20000, embed=1500)
LIMITS = dict(SMALL_LIMITS)
