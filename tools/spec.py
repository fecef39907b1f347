#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, oracle, note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, oracle=oracle, note=note))

prop("P01", "Dates are an exact, ordered Gregorian calendar over the whole range",
 "For every calendar day from 1970-01-01 to Date::Maximum() (2149-05-22), constructing the date from year/month/day and reading year, month, day, weekday, month length, month end, Excel serial and ISO text back gives exactly the proleptic Gregorian answer, and text in ISO or mm/dd/yyyy form parses back to the same date while anything else is refused. "
 "Adding days or months (with clamping to shorter months and optional end-of-month preservation), differences and comparisons agree with counting days on the civil calendar. Serials and years outside the representable range give an invalid date, never a wrapped one.",
 ["inputs"], "every representable date, every month/day shift staying in range, every date string",
 "Tests sample about a dozen dates, all before 2034; the property needs all 65,521 days and every shift (the serial formula was in fact wrong for 2034-2100).",
 ["dal/time/date.cpp", "dal/time/date.hpp", "dal/time/dateutils.cpp"],
 [("ExcelDateFromYMD / ExcelDateToYMD", "dal/time/date.cpp"), ("AddMonths, EndOfMonth, DaysInMonth", "dal/time/date.cpp"), ("FromString", "dal/time/dateutils.cpp")],
 "exhaustive enumeration plus random shifts against an independent civil calendar")
prop("P02", "Date-times survive text, h:m:s and millisecond round trips and stay ordered",
 "A date-time built from a date and hour/minute/second, or from a millisecond stamp, reads back exactly that hour, minute, text and millisecond count, for every second of a day, and its printed text parses back to an equal value. "
 "Adding a positive day fraction advances the instant by exactly that much with proper carry into the next day, differences and the six comparisons agree with chronological order, and times outside a day, malformed time text and non-positive increments are refused.",
 ["inputs"], "every second of the day on random dates, random millisecond stamps, pairs, increments and time strings",
 "Tests check a few round times such as 12:00:00; the round trip failed for 5,376 of the 86,400 seconds without any test noticing.",
 ["dal/time/datetime.cpp", "dal/time/datetime.hpp", "dal/time/datetimeutils.cpp"],
 [("FracToHMS, MSec, operator+=", "dal/time/datetime.cpp"), ("FromString", "dal/time/datetimeutils.cpp")],
 "integer second/millisecond arithmetic")
prop("P03", "Business-day queries agree with day-by-day counting on any calendar union",
 "For any set of registered holiday centres, a date is a business day exactly when it is a working weekend of some centre, or a weekday that is a holiday of none; next/previous business day return the nearest such day on or after/before a date, and counting business days over [begin, end) equals counting them one by one, whatever the order or repetition of centre names and whether or not the union was used before. "
 "Stepping n business days forward or backward visits exactly n business days. Registering a centre with weekend holidays, weekday working weekends, unsorted dates or a duplicate name is refused and changes nothing.",
 ["inputs", "histories"], "every calendar, union of calendars, date, range and step count",
 "Tests check two built-in calendars on a few dates; unions, working weekends, long holiday runs and the cached merged calendars are not sampled.",
 ["dal/time/holidays.cpp", "dal/time/holidaydata.cpp", "dal/time/dateincrement.cpp", "dal/time/calendars/init.cpp"],
 [("Holidays_, NextBus, PrevBus, CountBusDays_", "dal/time/holidays.cpp"), ("AddCenter", "dal/time/holidaydata.cpp"), ("NBusDays", "dal/time/dateincrement.cpp")],
 "brute-force set membership over generated calendars")
prop("P04", "Date increments and schedules follow their calendar definition",
 "Every increment string (years, months, weeks, calendar or business days with optional holiday centres, IMM/IMM1/CDS/EOM families, and '&' compounds applied left to right) moves any date forward and backward to the date its definition gives, quarterly families always landing in March, June, September or December; unknown strings are refused. "
 "A schedule from start to maturity contains start, maturity and every tenor step strictly between them, anchored at start (Forward) or maturity (Backward), in increasing order without duplicates, adjusted to the following business day when asked; a tenor that does not move the date is refused.",
 ["inputs"], "every date, increment string, start/maturity/tenor and generation rule",
 "Tests use one reference date in December and two schedules; month ends, non-quarter months, compounds and stubs are not covered.",
 ["dal/time/dateincrement.cpp", "dal/time/schedules.cpp", "dal/time/periodlength.cpp"],
 [("ParseIncrement, ToIMM, ToCDS, IncrementCompound_", "dal/time/dateincrement.cpp"), ("DateGenerate, MakeSchedule", "dal/time/schedules.cpp"), ("NominalMaturity", "dal/time/periodlength.cpp")],
 "civil-calendar reference with explicit search for the next special day")
prop("P05", "Day-count fractions follow their market definition for every period",
 "For every start <= end, ACT/365F and ACT/360 divide the day count by 365 and 360, ACT/ACT sums each year's share of days over that year's length, 30/360 US caps days at 30 with the February rules, and ACT/365L divides by 366 exactly when its leap-day rule says so and refuses to run without its context. "
 "All accepted aliases select the same convention, the ACT fractions are additive over adjacent periods, and an accrual period carries exactly the fraction of its basis.",
 ["inputs"], "every pair of dates, basis alias and ACT/365L context",
 "Tests use a single pair of dates; month ends, leap days and multi-year periods decide the conventions (annual ACT/365L did not even terminate).",
 ["dal/time/daybasis.cpp", "dal/time/daybasis.hpp", "dal/protocol/accrualperiod.cpp"],
 [("DayBasis_::operator()", "dal/time/daybasis.cpp"), ("AccrualPeriod_", "dal/protocol/accrualperiod.cpp")],
 "day-by-day accumulation and textbook rules")
#@@MORE
exec(open(os.path.join(V, "tools", "spec_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "spec_more.py")) else None

NA = []
variants = json.load(open(os.path.join(V, "tools", "variants.json")))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}) + "\n")
checks = []
for p in P:
    if p["id"] in variants:
        checks.append({"property": p["id"], "quick_cmd": "python3 check %s quick" % p["id"], "thorough_cmd": "python3 check %s thorough" % p["id"],
            "technique": "property-based testing: generated cases vs " + p["oracle"] + (" (address/UB sanitizers)" if variants[p["id"]] == "asan" else ""),
            "level": "exploration", "level_note": ("Seeded random/structured search with shrinking; finds counterexamples, does not prove absence. " + p["note"]).strip()})
    else:
        NA.append({"property": p["id"], "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/build.py all", "checks": checks, "not_applicable": NA,
           "notes": "Known findings and repaired defects: known_findings.txt. Replay a failure with: python3 check --replay FILE"}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
