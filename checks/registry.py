import prims, accuracy, ints, generic, modes, safety
CHECKS = dict(C01=prims.c01, C02=prims.c02)
for m in (accuracy, ints, generic, modes, safety): CHECKS.update(m.CH)
