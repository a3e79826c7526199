import leafchecks, docchecks, validchecks, reqchecks, clientchecks, concchecks, clichecks
CHECKS = {}
for m in (leafchecks, docchecks, validchecks, reqchecks, clientchecks, concchecks, clichecks):
    CHECKS.update(m.CHECKS)
