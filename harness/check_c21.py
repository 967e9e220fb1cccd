import check_drv
check = lambda: check_drv.check_c21()
