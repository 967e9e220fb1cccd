import check_sim
check = lambda: check_sim.check("C10")
