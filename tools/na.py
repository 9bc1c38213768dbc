for k in ("P01","P02","P14","P15","P17","P18","P20","P21","P23","P24","P25","P26","P27"):
    if k not in RULES:
        NOT_BUILT[k] = "No check yet."
