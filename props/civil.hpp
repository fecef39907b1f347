// Independent civil-calendar reference (proleptic Gregorian), written from the calendar's definition.
#pragma once
#include <cstdint>
#include <string>
#include <cstdio>
#include <dal/platform/platform.hpp>
#include <dal/time/date.hpp>

namespace civil {
    inline bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
    inline int dim(int y, int m) {
        static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        return m == 2 && leap(y) ? 29 : d[m - 1];
    }
    // days since 1970-01-01 by plain counting from year starts
    inline int days(int y, int m, int d) {
        int n = 0;
        auto before = [](int yy) { int k = yy - 1; return 365 * k + k / 4 - k / 100 + k / 400; };
        n = before(y) - before(1970);
        for (int k = 1; k < m; ++k) n += dim(y, k);
        return n + d - 1;
    }
    struct Ymd { int y, m, d; };
    inline bool operator==(const Ymd& a, const Ymd& b) { return a.y == b.y && a.m == b.m && a.d == b.d; }
    inline Ymd fromDays(int n) {
        int y = 1970 + n / 366;
        while (days(y + 1, 1, 1) <= n) ++y;
        int m = 1;
        while (m < 12 && days(y, m + 1, 1) <= n) ++m;
        return {y, m, n - days(y, m, 1) + 1};
    }
    inline int weekday(int n) { return (n + 4) % 7; }          // 0 = Sunday; 1970-01-01 was a Thursday
    inline Ymd addMonths(Ymd a, int k, bool eom) {
        int t = a.y * 12 + (a.m - 1) + k;
        int y = t / 12, m = t % 12 + 1;
        int d = a.d;
        if ((eom && a.d == dim(a.y, a.m)) || d > dim(y, m)) d = dim(y, m);
        return {y, m, d};
    }
    inline int num(const Ymd& a) { return days(a.y, a.m, a.d); }
    inline std::string iso(const Ymd& a) { char b[48]; snprintf(b, sizeof b, "%04d-%02d-%02d", a.y, a.m, a.d); return b; }
    // bridge, through the two-argument-free constructor only
    inline Dal::Date_ date(const Ymd& a) { return Dal::Date_(a.y, a.m, a.d); }
    inline Dal::Date_ date(int n) { return date(fromDays(n)); }
    const int MAXDAY = 0xFFF0;                                  // Date::Maximum() in days since 1970-01-01
    inline int of(const Dal::Date_& d) { return Dal::Date::ToExcel(d) - 25569; }
}
