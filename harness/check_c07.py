import check_rates
check = check_rates.check_c07
