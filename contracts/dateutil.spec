# Gregorian calendar arithmetic
func dateutil.IsLeapYear(year)
	ensures [C02] result == leap(year)

func dateutil.GetLeapYear(year, toFuture)
	unroll 8
	ensures [C02] leap(result)
	ensures [C02] imp(toFuture, result > year)
	ensures [C02] imp(!toFuture, result < year)
	ensures [C02] imp(toFuture, forall(k, 1, 8, imp(year + k < result, !leap(year + k))))
	ensures [C02] imp(!toFuture, forall(k, 1, 8, imp(year - k > result, !leap(year - k))))
	ensures [C02] abs(result - year) <= 8

func dateutil.GetLastDayOfMonth(year, month)
	requires month >= 1 && month <= 12
	ensures [C02,C03] result == dim(year, month)
