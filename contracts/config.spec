# Configuration: validation, defaults, conversions
define sameslice(a, b) = samerow(a, b) && ((a == nil) == (b == nil))
define scalars(a, b) = sametime(a.CurrentTime, b.CurrentTime) && a.DefaultTimezone == b.DefaultTimezone && a.PreferredDayOfMonth == b.PreferredDayOfMonth && a.PreferredMonthOfYear == b.PreferredMonthOfYear && a.PreferredDateSource == b.PreferredDateSource && a.StrictParsing == b.StrictParsing && a.ReturnTimeAsPeriod == b.ReturnTimeAsPeriod && a.PreserveEndOfMonth == b.PreserveEndOfMonth
define slicesame(a, b) = samerow(a.RequiredParts, b.RequiredParts) && samerow(a.DefaultLanguages, b.DefaultLanguages)
define ownslices(a) = (a.RequiredParts == nil || fresh(a.RequiredParts)) && (a.SkipTokens == nil || fresh(a.SkipTokens)) && (a.DefaultLanguages == nil || fresh(a.DefaultLanguages))
define partok(s) = lower(s) == "day" || lower(s) == "month" || lower(s) == "year"

func (setting.Configuration).Clone(c)
	fresh
	ensures [C09] result != nil
	ensures [C09] scalars(result, c) && result.DateOrder == c.DateOrder
	ensures [C09] slicesame(result, c) && samerow(result.SkipTokens, c.SkipTokens)
	ensures [C10] ownslices(result)

func (dateparser.Configuration).Clone(c)
	fresh
	ensures [C09] result != nil
	ensures [C09] scalars(result, c) && result.Region == c.Region && result.TryPreviousLocales == c.TryPreviousLocales && result.UseGivenOrder == c.UseGivenOrder && result.DateOrder == c.DateOrder
	ensures [C09] slicesame(result, c) && samerow(result.SkipTokens, c.SkipTokens)
	ensures [C09] samerow(result.Locales, c.Locales) && samerow(result.Languages, c.Languages)
	ensures [C10] ownslices(result) && (result.Locales == nil || fresh(result.Locales)) && (result.Languages == nil || fresh(result.Languages))

func (dateparser.Configuration).validate(c)
	ensures [C09] iff(result == nil, c.PreferredDayOfMonth <= Last && c.PreferredMonthOfYear <= LastMonth && c.PreferredDateSource <= Future && forall(i, 0, len(c.RequiredParts), partok(c.RequiredParts[i])))
	invariant forall(j, 0, $i + 1, imp(j < len($s), partok($s[j])))

func (*dateparser.Configuration).initiate(c)
	nonnil c
	fresh
	ensures [C09] result != nil
	ensures [C09] imp(!iszero(c.CurrentTime), sametime(result.CurrentTime, c.CurrentTime))
	ensures [C09] imp(iszero(c.CurrentTime), result.CurrentTime.Loc == 0)
	ensures [C09] result.DefaultTimezone == c.DefaultTimezone && result.PreferredDayOfMonth == c.PreferredDayOfMonth && result.PreferredMonthOfYear == c.PreferredMonthOfYear && result.PreferredDateSource == c.PreferredDateSource && result.StrictParsing == c.StrictParsing && result.ReturnTimeAsPeriod == c.ReturnTimeAsPeriod && result.PreserveEndOfMonth == c.PreserveEndOfMonth
	ensures [C09] result.Region == c.Region && result.TryPreviousLocales == c.TryPreviousLocales && result.UseGivenOrder == c.UseGivenOrder && result.DateOrder == c.DateOrder
	ensures [C09] slicesame(result, c) && samerow(result.Locales, c.Locales) && samerow(result.Languages, c.Languages)
	ensures [C09] imp(len(c.SkipTokens) > 0, samerow(result.SkipTokens, c.SkipTokens))
	ensures [C09] imp(len(c.SkipTokens) == 0, len(result.SkipTokens) == 1 && result.SkipTokens[0] == "t")
	ensures [C10] ownslices(result) && (result.Locales == nil || fresh(result.Locales)) && (result.Languages == nil || fresh(result.Languages))

func (dateparser.Configuration).toInternalConfig(c)
	fresh
	ensures [C09] result != nil
	ensures [C09] scalars(result, c)
	ensures [C09] slicesame(result, c) && samerow(result.SkipTokens, c.SkipTokens)
	ensures [C12] result.DateOrder == ""
	ensures [C10] ownslices(result)

func dateparser.configFromInternal(c)
	nonnil c
	fresh
	ensures [C09] result != nil
	ensures [C09] scalars(result, c)
	ensures [C09] slicesame(result, c) && samerow(result.SkipTokens, c.SkipTokens)
	ensures [C10] ownslices(result)

# reported periods
func (date.Date).IsZero(d)
	ensures [C07,C20] result == (d.Period == date.None || iszero(d.Time))

func (date.Period).IsTime(p)
	ensures [C07] result == (p == date.Second || p == date.Minute || p == date.Hour)
