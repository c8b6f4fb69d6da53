From 695c5d802035c384e32fd675173f2a14ce6922ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 01/22] fix: validate accepts the documented required parts and
 rejects the others

---
 config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config.go b/config.go
index cb8a2c6..eaf4608 100644
--- a/config.go
+++ b/config.go
@@ -194,6 +194,7 @@ func (c Configuration) validate() error {
 	for _, part := range c.RequiredParts {
 		switch strings.ToLower(part) {
 		case "day", "month", "year":
+		default:
 			return fmt.Errorf("invalid component in required parts: %s", part)
 		}
 	}
-- 
2.43.0


From 7c11adbf0cc1878818289f3b65e710f3781b8dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 02/22] fix: required parts are compared regardless of their
 capitalisation

---
 internal/parser/common/strict-check.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/parser/common/strict-check.go b/internal/parser/common/strict-check.go
index 271ec2b..8d08b76 100644
--- a/internal/parser/common/strict-check.go
+++ b/internal/parser/common/strict-check.go
@@ -2,6 +2,7 @@ package common
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/strutil"
@@ -23,7 +24,7 @@ func CheckStrictParsing(cfg *setting.Configuration, missingParts strutil.Dict) e
 
 	// Check if there are any missing required parts
 	for _, requiredPart := range requiredParts {
-		if missingParts.Contain(requiredPart) {
+		if missingParts.Contain(strings.ToLower(requiredPart)) {
 			return fmt.Errorf("required part \"%s\" is missing", requiredPart)
 		}
 	}
-- 
2.43.0


From fa3969c78cf28008874a88ad25ddbdb741a95481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 03/22] fix: completing the month does not roll the date over
 into the next month

---
 internal/parser/common/apply-month.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/parser/common/apply-month.go b/internal/parser/common/apply-month.go
index 3aeddd4..5b8b733 100644
--- a/internal/parser/common/apply-month.go
+++ b/internal/parser/common/apply-month.go
@@ -3,6 +3,7 @@ package common
 import (
 	"time"
 
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 )
 
@@ -29,7 +30,14 @@ func ApplyMonthFromConfig(cfg *setting.Configuration, t time.Time, currentMonth
 		}
 	}
 
-	return time.Date(t.Year(), newMonth, t.Day(),
+	// Make sure the day exists in the new month
+	day := t.Day()
+	lastDayOfMonth := dateutil.GetLastDayOfMonth(t.Year(), int(newMonth))
+	if day > lastDayOfMonth {
+		day = lastDayOfMonth
+	}
+
+	return time.Date(t.Year(), newMonth, day,
 		t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
 		t.Location())
 }
-- 
2.43.0


From 506498260844c8da76da386c2382e51c7d3bcd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 04/22] fix: 29 February with a two-digit year stays on 29
 February when the century moves

---
 internal/parser/absolute/parser.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 71a5708..f6d3031 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -517,15 +517,25 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	}
 
 	if tokenYearExist && len(tokenYear.Text) == 2 {
+		tDay, tMonth, tYear := t.Day(), t.Month(), t.Year()
+
 		if p.Now.Before(t) {
 			if dateSource == setting.Past {
-				t = t.AddDate(-100, 0, 0)
+				tYear -= 100
 			}
 		} else {
 			if dateSource == setting.Future {
-				t = t.AddDate(100, 0, 0)
+				tYear += 100
 			}
 		}
+
+		if tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
+			tYear = p.getCorrectLeapYear(tYear)
+		}
+
+		t = time.Date(tYear, tMonth, tDay,
+			t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
+			t.Location())
 	}
 
 	if tokenTimeExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist && !tokenWeekdayExist {
-- 
2.43.0


From 67e6d2ed90089a14bd40df49c1c10243be4643ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 05/22] fix: a Hijri date outside the Umm al-Qura table is an
 error

---
 internal/parser/hijri/parser.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index e2e0e6b..79e0bb5 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -1,6 +1,7 @@
 package hijri
 
 import (
+	"fmt"
 	"strconv"
 	"strings"
 	"time"
@@ -15,6 +16,12 @@ import (
 	"github.com/markusmobius/go-dateparser/internal/timezone"
 )
 
+// First and last year in the Umm al-Qura calendar table.
+const (
+	minYear = 1356
+	maxYear = 1500
+)
+
 var timeConventions = map[string]string{
 	"am": "صباحا",
 	"pm": "مساء",
@@ -130,6 +137,11 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
+	// Make sure the date is covered by Umm al-Qura calendar
+	if Y < minYear || Y > maxYear || M < 1 || M > 12 || D < 1 {
+		return time.Time{}, fmt.Errorf("date %d-%d-%d is outside Umm al-Qura calendar", Y, M, D)
+	}
+
 	// Fix leap year
 	if D == 30 && M == 12 && !isHijriLeapYear(Y) {
 		Y = getCorrectHijriLeapYear(p.Config, Y)
@@ -169,8 +181,14 @@ func getHijriLeapYear(year int, toFuture bool) int {
 		step = -1
 	}
 
+	originalYear := year
+
 	for {
 		year += step
+		if year < minYear || year > maxYear {
+			return originalYear
+		}
+
 		if isHijriLeapYear(year) {
 			return year
 		}
-- 
2.43.0


From de4cba34e434a8b0ef8fbaecf7c46ffaa677a682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 06/22] fix: the length of a Hijri month comes from the Umm
 al-Qura table

---
 internal/parser/hijri/parser.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 79e0bb5..4a408b1 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -219,14 +219,13 @@ func getCorrectHijriLeapYear(cfg *setting.Configuration, currentYear int) int {
 }
 
 func getLastDayOfHijriMonth(year, month int) int {
-	switch {
-	case month == 12 && isHijriLeapYear(year):
-		return 30
-	case month%2 == 0:
-		return 29
-	default:
+	// If the month only has 29 days, its 30th day is the first day of the next month
+	hd := hijri.UmmAlQuraDate{Year: int64(year), Month: int64(month), Day: 30}
+	rhd, err := hijri.CreateUmmAlQuraDate(hd.ToGregorian())
+	if err == nil && rhd.Day == 30 {
 		return 30
 	}
+	return 29
 }
 
 func handleTwoDigitYear(year int) int {
-- 
2.43.0


From 34d1942ba3fd4ef594f26653444d0be418585eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:03 +0000
Subject: [PATCH 07/22] fix: missing parts of a Hijri date come from the
 reference date in its own location

---
 internal/parser/hijri/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 4a408b1..75765db 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -71,8 +71,10 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 }
 
 func getDateTimeParams(p *absolute.Parser) map[string]int {
-	// Get current time in Hijri
-	hd, _ := hijri.CreateUmmAlQuraDate(p.Now)
+	// Get current date in Hijri. The converter works in UTC, so use the date as
+	// it is in its own location.
+	today := time.Date(p.Now.Year(), p.Now.Month(), p.Now.Day(), 0, 0, 0, 0, time.UTC)
+	hd, _ := hijri.CreateUmmAlQuraDate(today)
 
 	// Get component values
 	day, dayExist := p.ComponentValues["day"]
-- 
2.43.0


From 6c6f25dd75ac224d5a7916b7e2c7ca0af65713c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 08/22] fix: the 31st day of a Jalali month is accepted

---
 internal/parser/jalali/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 45e9bf7..d25cd1e 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -121,7 +121,7 @@ func getDatePartValue(p *absolute.Parser, component, token, directive string) (i
 
 	if component == "day" && tokenLength <= 2 && tokenIsDigit {
 		day, _ := strconv.Atoi(token)
-		if day >= 1 && day <= 30 {
+		if day >= 1 && day <= 31 {
 			return day, true
 		}
 	}
-- 
2.43.0


From fdd26f10e0405e477b2b62679b4135b8ca682040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 09/22] fix: missing parts of a Jalali date come from the
 reference date in Jalali calendar

---
 internal/parser/jalali/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index d25cd1e..84eb9ba 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -61,22 +61,22 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 
 func getDateTimeParams(p *absolute.Parser) map[string]int {
 	// Get current time in Jalali
-	jd := jalaali.From(p.Now)
+	nowYear, nowMonth, nowDay, _ := jalaali.ToJalaali(p.Now.Year(), p.Now.Month(), p.Now.Day())
 
 	// Get component values
 	day, dayExist := p.ComponentValues["day"]
 	if !dayExist || day == 0 {
-		day = jd.Day()
+		day = nowDay
 	}
 
 	month, monthExist := p.ComponentValues["month"]
 	if !monthExist || month == 0 {
-		month = int(jd.Month())
+		month = int(nowMonth)
 	}
 
 	year, yearExist := p.ComponentValues["year"]
 	if !yearExist || year == 0 {
-		year = jd.Year()
+		year = nowYear
 	}
 
 	return map[string]int{
-- 
2.43.0


From 6e2615fd9d3f968dfd35998786f2e36efa0314b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 10/22] fix: a missing day does not move February dates to
 another year

---
 internal/parser/absolute/parser.go | 38 +++++++++++++++++-------------
 internal/parser/absolute/root.go   |  5 ++--
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index f6d3031..0765f57 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -495,7 +495,7 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 	}
 
 	if monthExist && !yearExist {
-		tDay, tMonth, tYear := t.Day(), t.Month(), t.Year()
+		tYear := t.Year()
 
 		if p.Now.Before(t) {
 			if dateSource == setting.Past {
@@ -507,17 +507,11 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 			}
 		}
 
-		if tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
-			tYear = p.getCorrectLeapYear(tYear)
-		}
-
-		t = time.Date(tYear, tMonth, tDay,
-			t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
-			t.Location())
+		t = p.moveToYear(t, tYear)
 	}
 
 	if tokenYearExist && len(tokenYear.Text) == 2 {
-		tDay, tMonth, tYear := t.Day(), t.Month(), t.Year()
+		tYear := t.Year()
 
 		if p.Now.Before(t) {
 			if dateSource == setting.Past {
@@ -529,13 +523,7 @@ func (p *Parser) correctForTimeFrame(t time.Time, tz timezone.OffsetData) time.T
 			}
 		}
 
-		if tDay == 29 && tMonth == 2 && !dateutil.IsLeapYear(tYear) {
-			tYear = p.getCorrectLeapYear(tYear)
-		}
-
-		t = time.Date(tYear, tMonth, tDay,
-			t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
-			t.Location())
+		t = p.moveToYear(t, tYear)
 	}
 
 	if tokenTimeExist && !tokenYearExist && !tokenMonthExist && !tokenDayExist && !tokenWeekdayExist {
@@ -606,6 +594,24 @@ func (p *Parser) getPeriod() date.Period {
 	return date.Day
 }
 
+// moveToYear moves t to the specified year. If that makes 29 February no longer exist,
+// moves to the suitable leap year if the day is specified in the string, or uses the
+// last day of February if it's not.
+func (p *Parser) moveToYear(t time.Time, year int) time.Time {
+	day := t.Day()
+	if day == 29 && t.Month() == 2 && !dateutil.IsLeapYear(year) {
+		if p.ComponentValues["day"] != 0 {
+			year = p.getCorrectLeapYear(year)
+		} else {
+			day = 28
+		}
+	}
+
+	return time.Date(year, t.Month(), day,
+		t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
+		t.Location())
+}
+
 func (p Parser) getCorrectLeapYear(currentYear int) int {
 	var dateSource setting.PreferredDateSource
 	if p.Config != nil {
diff --git a/internal/parser/absolute/root.go b/internal/parser/absolute/root.go
index 8853c0f..b12ea2a 100644
--- a/internal/parser/absolute/root.go
+++ b/internal/parser/absolute/root.go
@@ -53,8 +53,9 @@ func createDateTime(p *Parser, pms map[string]int, loc *time.Location) (time.Tim
 	Y, M, D := pms["year"], pms["month"], pms["day"]
 	H, m, s, ns := pms["hour"], pms["minute"], pms["second"], pms["nanosecond"]
 
-	// Fix leap year
-	if D == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
+	// Fix leap year, only if the day is really specified in the string. If not, the
+	// day will be limited to the last day of February like in the other months.
+	if D == 29 && p.ComponentValues["day"] == 29 && M == 2 && !dateutil.IsLeapYear(Y) {
 		Y = p.getCorrectLeapYear(Y)
 	}
 
-- 
2.43.0


From 6b7bd4b6d3104242041a6de56ff5e84883e8f7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 11/22] fix: a day in the text survives the completion of the
 month

---
 internal/parser/absolute/parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 0765f57..13ad3ac 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -574,7 +574,15 @@ func (p *Parser) correctForMonth(t time.Time) time.Time {
 		return t
 	}
 
-	return common.ApplyMonthFromConfig(p.Config, t, p.Now.Month())
+	t = common.ApplyMonthFromConfig(p.Config, t, p.Now.Month())
+
+	// The day in the string might be limited by the length of the replaced month
+	if day := p.ComponentValues["day"]; day > t.Day() {
+		day = min(day, dateutil.GetLastDayOfMonth(t.Year(), int(t.Month())))
+		t = t.AddDate(0, 0, day-t.Day())
+	}
+
+	return t
 }
 
 func (p *Parser) getPeriod() date.Period {
-- 
2.43.0


From fffb96493c1c326c32b7b16875010123bc91a9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 12/22] fix: missing parts of Hijri and Jalali dates are
 completed in their own calendar

---
 internal/parser/absolute/parser.go | 42 ++++++++++++++++++++++++++++--
 internal/parser/hijri/parser.go    |  9 ++++---
 internal/parser/jalali/parser.go   |  7 ++---
 3 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/internal/parser/absolute/parser.go b/internal/parser/absolute/parser.go
index 13ad3ac..a86a0cc 100644
--- a/internal/parser/absolute/parser.go
+++ b/internal/parser/absolute/parser.go
@@ -46,6 +46,11 @@ type Parser struct {
 	FnCreateDateTime    func(p *Parser, params map[string]int, loc *time.Location) (time.Time, error)
 	FnGetDatePartValue  func(p *Parser, component, token, directive string) (int, bool)
 
+	// ParamsCompleted is true if FnGetDateTimeParams already fills the missing day and
+	// month following the configuration, so they must not be corrected anymore. It's
+	// needed by the other calendars because correction is done in Gregorian calendar.
+	ParamsCompleted bool
+
 	Tokens           []tokenizer.Token
 	FilteredTokens   []FilteredToken
 	Components       []string
@@ -550,7 +555,7 @@ func (p *Parser) correctForDay(t time.Time) time.Time {
 	_, tokenDayExist := p.ComponentTokens["day"]
 	_, tokenTimeExist := p.ComponentTokens["time"]
 	_, tokenWeekdayExist := p.ComponentTokens["weekday"]
-	if tokenDayExist || tokenTimeExist || tokenWeekdayExist {
+	if tokenDayExist || tokenTimeExist || tokenWeekdayExist || p.ParamsCompleted {
 		return t
 	}
 
@@ -561,7 +566,7 @@ func (p *Parser) correctForDay(t time.Time) time.Time {
 func (p *Parser) correctForMonth(t time.Time) time.Time {
 	// If month is already provided, no need to change anything
 	_, tokenMonthExist := p.ComponentTokens["month"]
-	if tokenMonthExist {
+	if tokenMonthExist || p.ParamsCompleted {
 		return t
 	}
 
@@ -585,6 +590,39 @@ func (p *Parser) correctForMonth(t time.Time) time.Time {
 	return t
 }
 
+// PreferredDay returns the day to use when it's missing from the string, which might be
+// bigger than the length of the month.
+func (p *Parser) PreferredDay(currentDay int) int {
+	if _, tokenTimeExist := p.ComponentTokens["time"]; p.Config == nil || tokenTimeExist {
+		return currentDay
+	}
+
+	switch p.Config.PreferredDayOfMonth {
+	case setting.First:
+		return 1
+	case setting.Last:
+		return 31
+	default:
+		return currentDay
+	}
+}
+
+// PreferredMonth returns the month to use when it's missing from the string.
+func (p *Parser) PreferredMonth(currentMonth int) int {
+	if p.Config == nil {
+		return currentMonth
+	}
+
+	switch p.Config.PreferredMonthOfYear {
+	case setting.FirstMonth:
+		return 1
+	case setting.LastMonth:
+		return 12
+	default:
+		return currentMonth
+	}
+}
+
 func (p *Parser) getPeriod() date.Period {
 	_, dayExist := p.ComponentValues["day"]
 	_, monthExist := p.ComponentValues["month"]
diff --git a/internal/parser/hijri/parser.go b/internal/parser/hijri/parser.go
index 75765db..87971bb 100644
--- a/internal/parser/hijri/parser.go
+++ b/internal/parser/hijri/parser.go
@@ -48,6 +48,7 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		FnGetDateTimeParams: getDateTimeParams,
 		FnGetDatePartValue:  getDatePartValue,
 		FnCreateDateTime:    createDateTime,
+		ParamsCompleted:     true,
 	}
 
 	if err := parser.Init(str); err != nil {
@@ -79,12 +80,12 @@ func getDateTimeParams(p *absolute.Parser) map[string]int {
 	// Get component values
 	day, dayExist := p.ComponentValues["day"]
 	if !dayExist || day == 0 {
-		day = int(hd.Day)
+		day = p.PreferredDay(int(hd.Day))
 	}
 
 	month, monthExist := p.ComponentValues["month"]
 	if !monthExist || month == 0 {
-		month = int(hd.Month)
+		month = p.PreferredMonth(int(hd.Month))
 	}
 
 	year, yearExist := p.ComponentValues["year"]
@@ -144,8 +145,8 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 		return time.Time{}, fmt.Errorf("date %d-%d-%d is outside Umm al-Qura calendar", Y, M, D)
 	}
 
-	// Fix leap year
-	if D == 30 && M == 12 && !isHijriLeapYear(Y) {
+	// Fix leap year, only if the day is really specified in the string
+	if D == 30 && p.ComponentValues["day"] == 30 && M == 12 && !isHijriLeapYear(Y) {
 		Y = getCorrectHijriLeapYear(p.Config, Y)
 	}
 
diff --git a/internal/parser/jalali/parser.go b/internal/parser/jalali/parser.go
index 84eb9ba..f1f9761 100644
--- a/internal/parser/jalali/parser.go
+++ b/internal/parser/jalali/parser.go
@@ -37,6 +37,7 @@ func Parse(cfg *setting.Configuration, str string) (date.Date, error) {
 		FnGetDateTimeParams: getDateTimeParams,
 		FnGetDatePartValue:  getDatePartValue,
 		FnCreateDateTime:    createDateTime,
+		ParamsCompleted:     true,
 	}
 
 	if err := parser.Init(str); err != nil {
@@ -66,12 +67,12 @@ func getDateTimeParams(p *absolute.Parser) map[string]int {
 	// Get component values
 	day, dayExist := p.ComponentValues["day"]
 	if !dayExist || day == 0 {
-		day = nowDay
+		day = p.PreferredDay(nowDay)
 	}
 
 	month, monthExist := p.ComponentValues["month"]
 	if !monthExist || month == 0 {
-		month = int(nowMonth)
+		month = p.PreferredMonth(int(nowMonth))
 	}
 
 	year, yearExist := p.ComponentValues["year"]
@@ -139,7 +140,7 @@ func createDateTime(p *absolute.Parser, pms map[string]int, loc *time.Location)
 		return time.Time{}, err
 	}
 
-	if D == 30 && M == 12 && !isLeapYear {
+	if D == 30 && p.ComponentValues["day"] == 30 && M == 12 && !isLeapYear {
 		Y = getCorrectLeapYear(p.Config, Y)
 	}
 
-- 
2.43.0


From 106793cc238d4a8abb18f811ee1c8c864970675e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 13/22] fix: digits in ranges with several sets keep their
 value

---
 internal/digit/digit.go    | 2 +-
 scripts/digit/templates.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/digit/digit.go b/internal/digit/digit.go
index ff9fbfa..d48cefa 100755
--- a/internal/digit/digit.go
+++ b/internal/digit/digit.go
@@ -45,7 +45,7 @@ type digitRange struct {
 
 func (dr digitRange) apply(r rune) (rune, bool) {
 	if r >= dr.Start && r <= dr.End {
-		number := int32(r - dr.Start)
+		number := int32(r-dr.Start) % 10 // some ranges have several sets of digits
 		return '0' + number, true
 	}
 
diff --git a/scripts/digit/templates.go b/scripts/digit/templates.go
index 9e8adec..ec04c46 100644
--- a/scripts/digit/templates.go
+++ b/scripts/digit/templates.go
@@ -52,7 +52,7 @@ type digitRange struct {
 
 func (dr digitRange) apply(r rune) (rune, bool) {
 	if r >= dr.Start && r <= dr.End {
-		number := int32(r - dr.Start)
+		number := int32(r-dr.Start) % 10 // some ranges have several sets of digits
 		return '0' + number, true
 	}
 
-- 
2.43.0


From d485a658b11215b5f68135de590b73ef135895ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 14/22] fix: a text with an opening punctuation in Spanish
 doesn't crash the search

---
 internal/language/split.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/language/split.go b/internal/language/split.go
index 01e9238..bfb71f9 100644
--- a/internal/language/split.go
+++ b/internal/language/split.go
@@ -65,6 +65,11 @@ func SplitSentence(ld *data.LocaleData, str string) []string {
 	var lastPosition int
 	useDigitAbbrs := langWithDigitAbbrs.Contain(ld.Name)
 	for _, pos := range rxSplitter.FindAllStringSubmatchIndex(str, -1) {
+		// Some splitter can match without any end of sentence
+		if pos[2] < 0 {
+			pos[2], pos[3] = pos[0], pos[0]
+		}
+
 		// Fetch end of sentence from this match
 		eos := str[pos[2]:pos[3]]
 
-- 
2.43.0


From 00aac7568e4cb8b01c41765b4bd3aed9d806e825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 15/22] fix: the last token is not joined with a token after it

---
 internal/language/translate-search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/language/translate-search.go b/internal/language/translate-search.go
index 3812bba..8c00262 100644
--- a/internal/language/translate-search.go
+++ b/internal/language/translate-search.go
@@ -47,7 +47,7 @@ func TranslateSearch(cfg *setting.Configuration, ld *data.LocaleData, str string
 			if word == "" || word == " " {
 				translatedChunk = append(translatedChunk, []string{word})
 				originalChunk = append(originalChunk, originalTokens[i])
-			} else if isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable {
+			} else if i < lastTokenIndex && isInDictionary(ld, currentAndNextJoined) && !dashes.Contain(word) && !joinUnusable {
 				translations, _ := translateWord(ld, currentAndNextJoined)
 				joinedOriginalToken := joinChunk(ld, originalTokens[i], originalTokens[i+1])
 
-- 
2.43.0


From 8dcdb1030f88235a36188423b6bf39c7c6aef1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 16/22] fix: removing a timezone doesn't cut the character
 before it

---
 internal/timezone/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/timezone/parser.go b/internal/timezone/parser.go
index 7893109..7cdfdf7 100644
--- a/internal/timezone/parser.go
+++ b/internal/timezone/parser.go
@@ -1,5 +1,7 @@
 package timezone
 
+import "unicode/utf8"
+
 // PopTzOffset extracts timezone data from str then return the
 // str with the timezone code removed.
 func PopTzOffset(str string) (string, OffsetData) {
@@ -10,7 +12,9 @@ func PopTzOffset(str string) (string, OffsetData) {
 				continue
 			}
 
-			str = str[:idxs[0]+1] + str[idxs[1]:]
+			// Keep the first character because it's not part of the timezone
+			_, size := utf8.DecodeRuneInString(str[idxs[0]:])
+			str = str[:idxs[0]+size] + str[idxs[1]:]
 			return str, offsetData
 		}
 	}
-- 
2.43.0


From 3d2c0ef3e1c8c2ebb27c37510520568a3c451b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 17/22] fix: the order of timezones doesn't depend on map
 iteration

---
 internal/timezone/tz-offsets.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/internal/timezone/tz-offsets.go b/internal/timezone/tz-offsets.go
index b53a382..101f1bb 100644
--- a/internal/timezone/tz-offsets.go
+++ b/internal/timezone/tz-offsets.go
@@ -1,7 +1,10 @@
 package timezone
 
 import (
+	"cmp"
 	"fmt"
+	"maps"
+	"slices"
 	"sort"
 	"strings"
 
@@ -25,9 +28,18 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 	searchPatterns := map[string]struct{}{}
 
 	for _, tzInfo := range timezoneInfoList {
+		// Sort the names and patterns, so the result is always the same
+		tzNames := slices.Sorted(maps.Keys(tzInfo.Timezones))
+		replacers := slices.SortedFunc(maps.Keys(tzInfo.AlternativePatterns), func(a, b *regexp.Regexp) int {
+			return cmp.Or(
+				cmp.Compare(a.String(), b.String()),
+				cmp.Compare(tzInfo.AlternativePatterns[a], tzInfo.AlternativePatterns[b]))
+		})
+
 		for _, pattern := range tzInfo.RegexPatterns {
 			// Main pattern
-			for tzName, offset := range tzInfo.Timezones {
+			for _, tzName := range tzNames {
+				offset := tzInfo.Timezones[tzName]
 				searchPattern := regexp.QuoteMeta(tzName)
 				regexPattern := fmt.Sprintf(pattern, searchPattern)
 				if _, exist := regexPatterns[regexPattern]; exist {
@@ -43,8 +55,10 @@ var timezoneOffsets, rxSearch, rxSearchIgnoreCase = func() ([]OffsetData, *regex
 			}
 
 			// Alternative patterns
-			for replacer, replacement := range tzInfo.AlternativePatterns {
-				for tzName, offset := range tzInfo.Timezones {
+			for _, replacer := range replacers {
+				replacement := tzInfo.AlternativePatterns[replacer]
+				for _, tzName := range tzNames {
+					offset := tzInfo.Timezones[tzName]
 					searchPattern := regexp.QuoteMeta(tzName)
 					searchPattern = replacer.ReplaceAllString(searchPattern, replacement)
 					regexPattern := fmt.Sprintf(pattern, searchPattern)
-- 
2.43.0


From d0b19cc5ff89eb92de1c529637a8443d7e750032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 18/22] fix: stateful text transformers are not shared between
 goroutines

---
 internal/strutil/strutil.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/strutil/strutil.go b/internal/strutil/strutil.go
index 4a95223..55b720e 100644
--- a/internal/strutil/strutil.go
+++ b/internal/strutil/strutil.go
@@ -13,8 +13,7 @@ import (
 )
 
 var (
-	nfkcTransformer    = transform.Chain(norm.NFKD, norm.NFKC)
-	unicodeTransformer = transform.Chain(norm.NFKD, runes.Remove(runes.In(unicode.Mn)), norm.NFKC)
+	mnRemover = runes.Remove(runes.In(unicode.Mn))
 
 	aposthropeTransformer = runes.Map(func(r rune) rune {
 		switch r {
@@ -58,6 +57,8 @@ func SanitizeSpaces(s string) string {
 // NormalizeUnicode removes Nonspacing Mark (Mn) characters then
 // use NFKC as the normal forms.
 func NormalizeUnicode(str string) string {
+	// Chain has an internal state, so it can't be shared between goroutines
+	unicodeTransformer := transform.Chain(norm.NFKD, mnRemover, norm.NFKC)
 	normalized, _, err := transform.String(unicodeTransformer, str)
 	if err != nil {
 		return str
@@ -74,6 +75,8 @@ func NormalizeAposthrope(s string) string {
 // NormalizeCharset is used to normalize charset in a string. Used before
 // detecting language of a string.
 func NormalizeCharset(str string) string {
+	// Chain has an internal state, so it can't be shared between goroutines
+	nfkcTransformer := transform.Chain(norm.NFKD, norm.NFKC)
 	normalized, _, err := transform.String(nfkcTransformer, str)
 	if err == nil {
 		str = normalized
-- 
2.43.0


From c5caa8d38046d244966281f9771bc821ef8ebbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 19/22] fix: search doesn't read the charsets of the parser
 outside of its lock

---
 search.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/search.go b/search.go
index 84d0be9..a8eb08d 100644
--- a/search.go
+++ b/search.go
@@ -65,11 +65,11 @@ func (p *Parser) Search(cfg *Configuration, text string) (string, []SearchResult
 	}
 
 	// Generate charsets
-	p.initUniqueCharsets(languages)
+	uniqueCharsets := p.initUniqueCharsets(languages)
 
 	// Detect language of the text
 	iCfg := cfg.toInternalConfig()
-	lang, err := language.DetectFullTextLanguage(iCfg, text, languages, p.uniqueCharsets)
+	lang, err := language.DetectFullTextLanguage(iCfg, text, languages, uniqueCharsets)
 	if err != nil {
 		return "", nil, err
 	}
@@ -140,7 +140,7 @@ func (p *Parser) initSearchConfig(cfg *Configuration) (*Configuration, error) {
 	return cfg, nil
 }
 
-func (p *Parser) initUniqueCharsets(languages []string) {
+func (p *Parser) initUniqueCharsets(languages []string) map[string][]rune {
 	// Lock parser
 	p.Lock()
 	defer p.Unlock()
@@ -164,6 +164,8 @@ func (p *Parser) initUniqueCharsets(languages []string) {
 	if mustGenerate {
 		p.uniqueCharsets = language.GetUniqueCharsets(languages)
 	}
+
+	return p.uniqueCharsets
 }
 
 func (p *Parser) parseFoundObjects(iCfg *setting.Configuration, languages, translation, original []string) ([]parsedSearch, []string) {
-- 
2.43.0


From 66cb29ecad7c9cd3ecb5fbed8320c7481949fa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 20/22] fix: 29 February in a format without year doesn't roll
 over to March

---
 internal/parser/formatted/parser.go | 30 ++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index d436d07..5c0c78c 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -5,6 +5,7 @@ import (
 	"time"
 
 	"github.com/markusmobius/go-dateparser/date"
+	"github.com/markusmobius/go-dateparser/internal/dateutil"
 	"github.com/markusmobius/go-dateparser/internal/parser/common"
 	"github.com/markusmobius/go-dateparser/internal/setting"
 	"github.com/markusmobius/go-dateparser/internal/timezone"
@@ -62,7 +63,17 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 
 		// Check if format has year
 		if t.Year() == 0 {
-			t = time.Date(currentTime.Year(), t.Month(), t.Day(),
+			year, day := currentTime.Year(), t.Day()
+			if day == 29 && t.Month() == 2 && !dateutil.IsLeapYear(year) {
+				// Move to the leap year, unless the day is not specified in the string
+				if formatHasDay {
+					year = getCorrectLeapYear(cfg, year)
+				} else {
+					day = 28
+				}
+			}
+
+			t = time.Date(year, t.Month(), day,
 				t.Hour(), t.Minute(), t.Second(), t.Nanosecond(),
 				t.Location())
 		}
@@ -72,3 +83,20 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 
 	return date.Date{}
 }
+
+func getCorrectLeapYear(cfg *setting.Configuration, currentYear int) int {
+	nextLeapYear := dateutil.GetLeapYear(currentYear, true)
+	prevLeapYear := dateutil.GetLeapYear(currentYear, false)
+
+	switch cfg.PreferredDateSource {
+	case setting.Future:
+		return nextLeapYear
+	case setting.Past:
+		return prevLeapYear
+	}
+
+	if nextLeapYear-currentYear < currentYear-prevLeapYear {
+		return nextLeapYear
+	}
+	return prevLeapYear
+}
-- 
2.43.0


From 869c20a195f6e305b1f3585ac7e1e58cb60a6c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 21/22] fix: the month of a day of the year is not replaced

---
 internal/parser/formatted/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/parser/formatted/parser.go b/internal/parser/formatted/parser.go
index 5c0c78c..bc72bb2 100644
--- a/internal/parser/formatted/parser.go
+++ b/internal/parser/formatted/parser.go
@@ -47,7 +47,8 @@ func Parse(cfg *setting.Configuration, str string, formats ...string) date.Date
 		// Check if format has day or month
 		checkerText := checker.Format(format)
 		formatHasDay := strings.Contains(checkerText, "4")
-		formatHasMonth := strings.Contains(checkerText, "3") || strings.Contains(checkerText, "Mar")
+		formatHasMonth := strings.Contains(checkerText, "3") || strings.Contains(checkerText, "Mar") ||
+			strings.Contains(checkerText, "64") // day of the year
 
 		if !formatHasMonth && !formatHasDay {
 			period = date.Year
-- 
2.43.0


From 2bc7d9a0ddd19a6d4e5a593046cc46c185ce8b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 22/22] fix: search follows the date order of the caller

---
 config.go | 6 ++++++
 search.go | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/config.go b/config.go
index eaf4608..478cc10 100644
--- a/config.go
+++ b/config.go
@@ -234,7 +234,13 @@ func (c Configuration) toInternalConfig() *setting.Configuration {
 }
 
 func configFromInternal(c *setting.Configuration) *Configuration {
+	var dateOrder DateOrder
+	if do := c.DateOrder; do != "" {
+		dateOrder = func(string) string { return do }
+	}
+
 	return &Configuration{
+		DateOrder:            dateOrder,
 		CurrentTime:          c.CurrentTime,
 		DefaultTimezone:      c.DefaultTimezone,
 		PreferredDayOfMonth:  PreferredDayOfMonth(c.PreferredDayOfMonth),
diff --git a/search.go b/search.go
index a8eb08d..9f5fb42 100644
--- a/search.go
+++ b/search.go
@@ -88,6 +88,13 @@ func (p *Parser) SearchWithLanguage(cfg *Configuration, lang string, text string
 	}
 	iCfg := cfg.toInternalConfig()
 
+	// Use the date order for the language of the text
+	if cfg.DateOrder != nil {
+		if do, valid := validateDateOrder(cfg.DateOrder(lang)); valid {
+			iCfg.DateOrder = do
+		}
+	}
+
 	// Find the locale data
 	ld, exist := data.GetLocaleData(lang)
 	if ld == nil || !exist {
-- 
2.43.0

