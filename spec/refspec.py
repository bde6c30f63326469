"""Reference definitions of the NMEA conversions, analysed (never run) by the
same abstract interpreter as the repository and compared with it term by term."""

from datetime import datetime
from math import acos, asin, atan2, cos, sin, sqrt


def coord(pos):
    """(d)ddmm.mmm -> unsigned decimal degrees, blank when malformed"""
    try:
        dot = pos.find(".")
        if dot < 4:
            return ""
        return round(abs(float(pos[0 : dot - 2])) + float(pos[dot - 2 :]) / 60, 10)
    except ValueError:
        return ""


def date(txt, form):
    """ddmmyy / ddmmyyyy / mmddyy -> date, blank when malformed"""
    fmt = "%m%d%y" if form == "DM" else "%d%m%Y" if form == "DTL" else "%d%m%y"
    try:
        if not txt.isdecimal() or len(txt) != (8 if form == "DTL" else 6):
            return ""
        return datetime.strptime(txt, fmt).date()
    except ValueError:
        return ""


def time(txt):
    """hhmmss(.ss) -> time, blank when malformed"""
    try:
        if not txt[0:6].isdecimal():
            return ""
        if len(txt) == 6:
            txt = txt + ".00"
        return datetime.strptime(txt, "%H%M%S.%f").time()
    except ValueError:
        return ""


def conv(att, txt):
    """typed value of one field; ValueError when a number is malformed"""
    if att == "DE":
        return txt if txt == "" else float(txt)
    if att == "IN":
        return txt if txt == "" else int(txt)
    if att == "LA" or att == "LN":
        return coord(txt)
    if att == "DT" or att == "DM" or att == "DTL":
        return date(txt, att)
    if att == "TM":
        return time(txt)
    return txt


def signed(value, negative):
    """signed coordinate given its hemisphere"""
    if isinstance(value, (int, float)):
        return -abs(value) if negative else abs(value)
    return value


def checksum(text):
    """two upper-case hex digits: exclusive or of the encoded characters"""
    acc = 0
    for octet in text.encode("utf-8"):
        acc = acc ^ octet
    return f"{acc:02X}"


def second_is_digit(txt):
    return len(txt) > 1 and txt[1].isdigit()


def nonblank(txt):
    return txt != ""


def isnot(txt, other):
    return txt != other


def same(a, b):
    return a == b


def isint(txt, k):
    return txt != "" and int(txt) == k


def unbracket(txt):
    return txt.replace("[", "").replace("]", "")


def upper(txt):
    return txt.upper()


def right(ck, content):
    return ck.upper() == checksum(content)


# ---- creating messages


def dmm(value, width, dp):
    """decimal degrees -> (d)ddmm.mmmmm, blank when not a number"""
    try:
        scale = 10**dp
        degs, minutes = divmod(round(abs(value) * 60 * scale), 60 * scale)
        mins, frac = divmod(minutes, scale)
        return f"{degs:0{width}d}{mins:02d}.{frac:0{dp}d}"
    except (OverflowError, TypeError, ValueError):
        return ""


def text(att, value, high):
    """field text of an attribute value"""
    if att == "LA":
        return dmm(value, 2, 7 if high else 5)
    if att == "LN":
        return dmm(value, 3, 7 if high else 5)
    if att == "TM":
        if isinstance(value, str):
            return value.replace(":", "")
        return value.strftime("%H%M%S.%f")[0:9]
    if att == "DT" or att == "DTL" or att == "DM":
        if isinstance(value, str):
            day = value.replace("-", "")
            if att == "DT":
                return day[6:8] + day[4:6] + day[2:4]
            if att == "DTL":
                return day[6:8] + day[4:6] + day[0:4]
            return day[4:6] + day[6:8] + day[2:4]
        if att == "DT":
            return value.strftime("%d%m%y")
        if att == "DTL":
            return value.strftime("%d%m%Y")
        return value.strftime("%m%d%y")
    return str(value)


def hemisphere(att, value):
    """hemisphere letter of a signed coordinate"""
    if isinstance(value, (int, float)):
        if att == "LAD":
            return "S" if value < 0 else "N"
        return "W" if value < 0 else "E"
    return "N" if att == "LAD" else "E"


def nominal(att, mode):
    """nominal value of an attribute that is not given (dates and times: see rule)"""
    if att == "LAD":
        return "N"
    if att == "LND":
        return "E"
    if att == "HX":
        return "0"
    if att == "DE":
        return 0.0
    if att == "IN":
        return 0
    if att == "QS":
        return ("OK", "W", "R")[mode]
    return ""


def content(talker, ident, fields):
    out = talker + ident
    for f in fields:
        out = out + "," + f
    return out


def framed(talker, ident, fields):
    body = content(talker, ident, fields)
    return ("$" + body + "*" + checksum(body) + "\r\n").encode("utf-8")


def notdigit(txt):
    return not (len(txt) > 1 and txt[1].isdigit())


# ---- helper functions


def date_text(value, form):
    if form == "DTL":
        return value.strftime("%d%m%Y")
    if form == "DM":
        return value.strftime("%m%d%y")
    return value.strftime("%d%m%y")


def time_text(value):
    return value.strftime("%H%M%S.%f")[0:9]


def ymd(value):
    return value.year, value.month, value.day


def hms(value):
    return value.hour, value.minute, value.second, value.microsecond


def hms_centi(value):
    return value.hour, value.minute, value.second, value.microsecond // 10000 * 10000


def length(txt):
    return len(txt)


def charat(txt, i):
    return txt[i]


def absval(x):
    return abs(x)


def shown_minutes(value, att):
    """d°m.m′H with up to seven decimals of minutes"""
    try:
        ticks = round(abs(value) * 60 * 10000000)
        degs = ticks // 600000000
        mins = ticks % 600000000 // 10000000
        tail = f"{ticks % 600000000 % 10000000:07d}".rstrip("0")
        if tail == "":
            tail = "0"
        return f"{degs}°{mins}.{tail}′" + letter(value, att)
    except (OverflowError, TypeError, ValueError):
        return ""


def shown_seconds(value, att):
    """d°m′s.s″H with up to five decimals of seconds"""
    try:
        ticks = round(abs(value) * 3600 * 100000)
        mins = ticks // 6000000
        secs = ticks % 6000000 // 100000
        tail = f"{ticks % 6000000 % 100000:05d}".rstrip("0")
        if tail == "":
            tail = "0"
        return f"{mins // 60}°{mins % 60}′{secs}.{tail}″" + letter(value, att)
    except (OverflowError, TypeError, ValueError):
        return ""


def letter(value, att):
    if att == "LA":
        return "S" if value < 0 else "N"
    return "W" if value < 0 else "E"


def pair(a, b):
    return a, b


def sexagesimal(sign, d, m, s):
    return sign * (d + m / 60 + s / 3600)


def identity(x):
    return x


# ---- geodesy (degrees in, kilometres or metres out)

PI = 3.141592653589793


def great_circle(lat1, lon1, lat2, lon2, radius):
    a, b, d = lat1 * PI / 180, lat2 * PI / 180, (lon2 - lon1) * PI / 180
    return radius * acos(max(-1.0, min(1.0, sin(a) * sin(b) + cos(a) * cos(b) * cos(d))))


def flat_distance(lat1, lon1, lat2, lon2, radius):
    east = (lon2 - lon1) * PI / 180 * cos(lat1 * PI / 180)
    north = (lat2 - lat1) * PI / 180
    return radius * sqrt(east * east + north * north)


def initial_bearing(lat1, lon1, lat2, lon2):
    a, b, d = lat1 * PI / 180, lat2 * PI / 180, (lon2 - lon1) * PI / 180
    return (atan2(sin(d) * cos(b), cos(a) * sin(b) - sin(a) * cos(b) * cos(d)) * 180 / PI + 360) % 360


def quad_area(lat1, lon1, lat2, lon2, radius):
    return radius * radius * PI * abs(sin(lat1 * PI / 180) - sin(lat2 * PI / 180)) * abs(lon1 - lon2) / 180


def to_ecef(lat, lon, height, a, invf):
    phi, lam = lat * PI / 180, lon * PI / 180
    e2 = (2 - 1 / invf) / invf
    n = a / sqrt(1 - e2 * sin(phi) * sin(phi))
    return (n + height) * cos(phi) * cos(lam), (n + height) * cos(phi) * sin(lam), ((1 - e2) * n + height) * sin(phi)


def from_ecef(x, y, z, a, invf):
    """Olson (1996)"""
    flat = 1 / invf
    e2 = flat * (2 - flat)
    w = sqrt(x * x + y * y)
    r = sqrt(x * x + y * y + z * z)
    if r < 100000.0:
        return 0.0, 0.0, -1.0e7
    lon = atan2(y, x)
    s2 = z * z / (x * x + y * y + z * z)
    c2 = (x * x + y * y) / (x * x + y * y + z * z)
    a1 = a * e2
    u = a1 * a1 / r
    v = a1 * e2 / 2 - 2.5 * a1 * a1 / r
    if c2 > 0.3:
        s = abs(z) / r * (1.0 + c2 * (a1 + u + s2 * v) / r)
        lat = asin(s)
        ss = s * s
        c = sqrt(1.0 - ss)
    else:
        c = w / r * (1.0 - s2 * (a1 + a1 * e2 / 2 - u - c2 * v) / r)
        lat = acos(c)
        ss = 1.0 - c * c
        s = sqrt(ss)
    g = 1.0 - e2 * ss
    rg = a / sqrt(g)
    rf = (1 - e2) * rg
    p = w - rg * c
    q = abs(z) - rf * s
    f = c * p + s * q
    m = c * q - s * p
    d = m / (rf / g + f)
    lat = lat + d
    if z < 0.0:
        lat = -lat
    return lat * 180 / PI, lon * 180 / PI, f + m * d / 2.0


def speed(knots, factor):
    return knots * factor


# ---- GNSS time (microseconds since year 1)


def week(us, epoch, ls, rollover, modular):
    ms = (us - epoch) // 1000 + ls * 1000
    wno = ms // 604800000
    return wno % rollover if modular else wno, ms % 604800000


def whole_ms(us):
    return us // 1000 * 1000


# ---- sentence pieces, ISO 6709 and small helpers


def iso6709(lat, lon, alt, crs):
    return sign(lat) + str(abs(lat)) + sign(lon) + str(abs(lon)) + sign(alt) + str(abs(alt)) + "CRS" + crs + "/"


def sign(x):
    return "-" if x < 0 else "+"


def hexpad(num, pad):
    txt = f"{num:X}"
    while len(txt) < pad:
        txt = "0" + txt
    return txt
