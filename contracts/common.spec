# Completion of missing day / month, strict parsing
func common.ApplyDayFromConfig(cfg, t, cur)
	ensures [C03] imp(cfg == nil, sametime(result, t))
	ensures [C02,C03] result.Y == t.Y && result.M == t.M
	ensures [C03,C10] imp(cfg != nil, sameclock(result, t) && samezone(result, t))
	ensures [C03] imp(cfg != nil && cfg.PreferredDayOfMonth == setting.First, result.D == 1)
	ensures [C03,C02] imp(cfg != nil && cfg.PreferredDayOfMonth == setting.Last, result.D == dim(t.Y, t.M))
	ensures [C03,C02] imp(cfg != nil && cfg.PreferredDayOfMonth != setting.First && cfg.PreferredDayOfMonth != setting.Last && len(cur) > 0,
		result.D == min(cur[0], dim(t.Y, t.M)))
	ensures [C03,C02] imp(cfg != nil && cfg.PreferredDayOfMonth != setting.First && cfg.PreferredDayOfMonth != setting.Last && len(cur) == 0 && !iszero(cfg.CurrentTime),
		result.D == min(cfg.CurrentTime.D, dim(t.Y, t.M)))
	requires imp(len(cur) > 0, cur[0] >= 1)
	requires len(cur) <= 1

func common.ApplyMonthFromConfig(cfg, t, cur)
	requires imp(len(cur) > 0, cur[0] >= 1 && cur[0] <= 12)
	ensures [C04] imp(cfg == nil, sametime(result, t))
	ensures [C04] imp(cfg != nil, result.Y == t.Y && sameclock(result, t) && samezone(result, t))
	ensures [C04] imp(cfg != nil && cfg.PreferredMonthOfYear == setting.FirstMonth, result.M == 1)
	ensures [C04] imp(cfg != nil && cfg.PreferredMonthOfYear == setting.LastMonth, result.M == 12)
	ensures [C04] imp(cfg != nil && cfg.PreferredMonthOfYear != setting.FirstMonth && cfg.PreferredMonthOfYear != setting.LastMonth && len(cur) > 0,
		result.M == cur[0])
	ensures [C04] imp(cfg != nil && cfg.PreferredMonthOfYear != setting.FirstMonth && cfg.PreferredMonthOfYear != setting.LastMonth && len(cur) == 0 && !iszero(cfg.CurrentTime),
		result.M == cfg.CurrentTime.M)
	ensures [C02] result.Y == t.Y && result.D == min(t.D, dim(result.Y, result.M))

func common.CheckStrictParsing(cfg, missing)
	ensures [C06] imp(cfg == nil, result == nil)
	ensures [C06] imp(cfg != nil && cfg.StrictParsing && len(missing) > 0, result != nil)
	ensures [C06] imp(cfg != nil && result == nil, forall(i, 0, len(cfg.RequiredParts), !has(missing, lower(cfg.RequiredParts[i]))))
	ensures [C06] imp(cfg != nil && result != nil && !(cfg.StrictParsing && len(missing) > 0), exists(i, 0, len(cfg.RequiredParts), has(missing, lower(cfg.RequiredParts[i]))))
	invariant forall(j, 0, $i + 1, imp(j < len($s), !has($m, lower($s[j]))))

func common.ParseTime(s)
	ensures [C07,C01] imp(result2 == nil, result1 == date.Second || result1 == date.Minute || result1 == date.Hour)
	ensures [C20] imp(result2 == nil, result0.S >= 0 && result0.S < 86400 && result0.N >= 0 && result0.N < 1000000000)
