import check_part
check = lambda: check_part.check("C12")
