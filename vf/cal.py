"""Calendar arithmetic of its own (proleptic Gregorian), on integer seconds since 1970."""

DAY = 86400


def days_from_civil(y, m, d):
    """Days since 1970-01-01."""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def civil_from_days(z):
    """(year, month, day) of days since 1970-01-01."""
    z += 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + (3 if mp < 10 else -9)
    return y + (m <= 2), m, d


def seconds(y, m=1, d=1, hh=0, mm=0, ss=0):
    """Seconds since 1970-01-01."""
    return days_from_civil(y, m, d) * DAY + hh * 3600 + mm * 60 + ss


def fields(sec):
    """(year, month, day, hour, minute, second, weekday) with Monday = 0."""
    days, rest = divmod(sec, DAY)
    y, m, d = civil_from_days(days)
    return y, m, d, rest // 3600, rest // 60 % 60, rest % 60, (days + 3) % 7


def is_leap(y):
    """Whether the year is a leap year."""
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_length(y, m):
    """Days of the month."""
    return [31, 29 if is_leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def iso(sec):
    """ISO text."""
    return "%04d-%02d-%02dT%02d:%02d:%02d" % fields(sec)[:6]


MIN = seconds(1)
MAX = seconds(9999, 12, 31, 23, 59, 59)
