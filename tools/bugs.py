"""The planted bugs, one dictionary each. Used by plant.py only; no check reads this."""
BUGS = []
M = "aeromet_py/reports/models/"


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("C01-labels", "C01",
    [(M + "base/group.py", '''            "eighth",
            "nineth",
            "tenth",
''', "")],
    "a TAF with eight change periods whose dictionary is read",
    "as_dict and to_json of the TAF raise IndexError",
    '''
t = Taf("TAF MROC 161700Z 1618/1718 09010KT 9999 FEW020 " + " ".join("TEMPO 16%02d/16%02d 3000 RA" % (i, i + 1) for i in range(12, 20)), year=2022, month=8)
assert len(t.changes_forecasted) == 8
assert len(t.as_dict()["changes_forecasted"]) == 8
''')
bug("C01-friction", "C01",
    [(M + "metar/runway_state.py", '''            try:
                friction = int(friction)
            except ValueError:
                return self._surface_friction
            else:
                if friction < 91:
                    return f"estimated surface friction {self._surface_friction}"
                else:
                    return self._surface_friction
''', '''            if int(friction) < 91:
                return f"estimated surface friction {self._surface_friction}"

            return self._surface_friction
''')],
    "a runway state group whose friction is reported as //, its text form being asked for",
    "constructing the METAR raises ValueError inside the handler (the text is part of construction), so the group is decoded and listed as unparsed at once, and str of the group raises",
    '''
m = Metar("METAR UUEE 162000Z 09010KT 9999 FEW020 M05/M07 Q1010 R24/4512//", year=2022, month=1)
assert "breaking conditions not reported" in str(m.runway_state)
assert m.unparsed_groups == []
''')
bug("C02-nil", "C02",
    [("aeromet_py/reports/taf.py", '''        if self.unparsed_groups and self._truncate:
''', '''        # There is nothing to decode in a missing report.
        strict: bool = self._truncate and not self._missing.is_missing
        if self.unparsed_groups and strict:
''')],
    "a NIL TAF with a group that cannot be parsed, constructed with truncate=True",
    "strict mode accepts the TAF although a group was left unparsed",
    '''
from aeromet_py.reports.models import ParserError

text = "TAF SEQM 050000Z NIL XYZ99"
assert Taf(text, year=2022, month=8).unparsed_groups == ["XYZ99"]
try:
    Taf(text, year=2022, month=8, truncate=True)
except ParserError:
    pass
else:
    raise AssertionError("no ParserError")
''')
bug("C02-message", "C02",
    [("aeromet_py/reports/metar.py", '''                    ", ".join(self.unparsed_groups),
''', '''                    ", ".join(group for group in self.unparsed_groups if group.isalnum()),
''')],
    "a METAR with an unparsed group holding a slash or a sign, constructed with truncate=True",
    "the error message does not name every unparsed group",
    '''
from aeromet_py.reports.models import ParserError

try:
    Metar("METAR MROC 162000Z 09010KT 9999 FEW020 2/20 23/20 A3006 FOO NOSIG", year=2022, month=8, truncate=True)
except ParserError as e:
    head = str(e).split(" from: ")[0]
    assert "2/20" in head and "FOO" in head, head
else:
    raise AssertionError("no ParserError")
''')
bug("C03-dup", "C03",
    [(M + "base/__init__.py", '''        unparsed_groups.append(group)
        counter = 0
''', '''        if group not in unparsed_groups:
            unparsed_groups.append(group)
        counter = 0
''')],
    "the same unparseable group twice in one section",
    "the second occurrence is lost: it is neither decoded nor listed as unparsed",
    '''
m = Metar("METAR MROC 162000Z 09010KT FOO 9999 FEW020 FOO 23/20 A3006", year=2022, month=8)
assert m.unparsed_groups == ["FOO", "FOO"], m.unparsed_groups
''')
bug("C03-trend", "C03",
    [("aeromet_py/reports/metar.py", '''        for wt in self._weather_trends:
            self._unparsed_groups += wt.unparsed_groups
''', '''            if len(self._weather_trends) > 0:
                self._unparsed_groups += self._weather_trends[-1].unparsed_groups
''')],
    "a METAR with three trends the last of which is beyond the limit, an unparsed group being in the second",
    "the unparsed groups of the second trend are listed twice",
    '''
m = Metar("METAR MROC 162000Z 09010KT 9999 FEW020 23/20 A3006 BECMG 3000 TEMPO 2000 XX99 TEMPO 1000", year=2022, month=8)
assert m.unparsed_groups == ["XX99", "TEMPO", "1000"], m.unparsed_groups
''')
bug("C04-rmk", "C04",
    [("aeromet_py/reports/metar.py", '''            elif section.startswith("RMK"):
''', '''            elif section.startswith("RMK "):
''')],
    "a METAR that ends with RMK and no text after it",
    "the body is replaced by RMK and every body group is lost",
    '''
m = Metar("METAR MROC 162000Z 09010KT 9999 FEW020 23/20 A3006 NOSIG RMK", year=2022, month=8)
assert m.sections == ["METAR MROC 162000Z 09010KT 9999 FEW020 23/20 A3006", "NOSIG", "RMK"], m.sections
''')
bug("C05-lines", "C05",
    [("aeromet_py/reports/taf.py", '''        super().__init__(code, truncate=truncate, type="TAF")
''', '''        # The lines of a bulletin are indented.
        super().__init__(code.replace("\\r\\n", ""), truncate=truncate, type="TAF")
''')],
    "a TAF with CRLF line ends whose following line is not indented",
    "the last group of a line and the first group of the next are joined",
    '''
a = Taf("TAF MROC 161700Z 1618/1718 09010KT 9999 FEW020\\r\\nTEMPO 1620/1622 3000 RA", year=2022, month=8)
b = Taf("TAF MROC 161700Z 1618/1718 09010KT 9999 FEW020 TEMPO 1620/1622 3000 RA", year=2022, month=8)
assert a.as_dict() == b.as_dict()
''')
bug("C06-window", "C06",
    [(M + "base/__init__.py", '''        for group_handler in handlers[index:]:
''', '''        # The groups in the middle may be absent, but not nearly all of them.
        for group_handler in handlers[index : index + 20]:
''')],
    "a METAR in which so many of the optional groups are absent that a group follows more than 20 places later",
    "the far group (sea or runway state after the wind) is left unparsed",
    '''
m = Metar("METAR UUEE 162000Z 09010KT R24/451293", year=2022, month=8)
assert m.runway_state.code == "R24/451293" and m.unparsed_groups == [], m.unparsed_groups
''')
bug("C06-rvr", "C06",
    [("aeromet_py/reports/metar.py", '''            GroupHandler(MetarRegExp.RUNWAY_RANGE, self._handle_runway_range),
            GroupHandler(MetarRegExp.RUNWAY_RANGE, self._handle_runway_range),
            GroupHandler(MetarRegExp.RUNWAY_RANGE, self._handle_runway_range),
            GroupHandler(MetarRegExp.WEATHER, self._handle_weather),
            GroupHandler(MetarRegExp.WEATHER, self._handle_weather),
            GroupHandler(MetarRegExp.WEATHER, self._handle_weather),
''', '''            GroupHandler(MetarRegExp.RUNWAY_RANGE, self._handle_runway_range),
            GroupHandler(MetarRegExp.RUNWAY_RANGE, self._handle_runway_range),
            GroupHandler(MetarRegExp.WEATHER, self._handle_weather),
            GroupHandler(MetarRegExp.WEATHER, self._handle_weather),
            GroupHandler(MetarRegExp.RUNWAY_RANGE, self._handle_runway_range),
            GroupHandler(MetarRegExp.WEATHER, self._handle_weather),
''')],
    "three runway visual range groups together with two or three weather groups",
    "weather groups after three runway ranges are left unparsed",
    '''
m = Metar("METAR UUEE 162000Z 09010KT 0500 R06/0600 R24/0700 R25/0800 -RA FG FU VV001 M05/M07 Q1010", year=2022, month=8)
assert m.weathers.codes == ["-RA", "FG", "FU"], m.weathers.codes
''')
bug("C07-year", "C07",
    [(M + "base/time.py", '''            self._time = datetime.strptime(generated_date, "%Y%m%d%H%M")
''', '''            # Two digits of the year are enough for a report.
            self._time = datetime.strptime(generated_date[2:], "%y%m%d%H%M")
''')],
    "a report constructed for a year before 1969 or after 2068",
    "the report time lies in another century",
    '''
assert Metar("METAR MROC 162000Z", year=1965, month=8).time.time == datetime(1965, 8, 16, 20)
''')
bug("C08-wsw", "C08",
    [(M + "base/wind.py", '''    "WSW": [236.25, 258.75],
''', '''    "WSW": [236.25, 261.25],
''')],
    "a wind or wind variation from 260 degrees",
    "its cardinal direction is WSW instead of W",
    '''
m = Metar("METAR MROC 162000Z 26010KT 240V260", year=2022, month=8)
assert m.wind.cardinal_direction == "W" and m.wind_variation.to_cardinal_direction == "W"
''')
bug("C08-gust", "C08",
    [(M + "metar/wind.py", '''                _gst = self._mps2kt(_gst)

            super().__init__(direction=_dir, speed=_spd)
            Group.__init__(self, match.string)
            self._gust = Speed(_gst)
''', '''                _gst = self._mps2kt(_gst)

            super().__init__(direction=_dir, speed=_spd)
            Group.__init__(self, match.string)
            # There are no gusts in a wind of variable direction.
            self._gust = Speed(_gst if _dir != "VRB" else None)
''')],
    "a wind group with variable direction and a gust",
    "the gust is lost",
    '''
assert Metar("METAR MROC 162000Z VRB10G25KT", year=2022, month=8).wind.gust_in_knot == 25.0
''')
bug("C09-fraction", "C09",
    [(M + "metar/visibility.py", '''            _fraction = int(_items[0]) / int(_items[1])
''', '''            _fraction = round(int(_items[0]) / int(_items[1]), 2)
''')],
    "a visibility in miles whose fraction has more than two decimals (1/8, 3/8, 1/3)",
    "the distance is off by up to one percent",
    '''
v = Metar("METAR KJFK 162000Z 1/8SM", year=2022, month=8).prevailing_visibility
assert abs(v.in_meters - 1852 / 8) < 0.1, v.in_meters
''')
bug("C09-compass", "C09",
    [(M + "base/wind.py", '''                mean_dir = round(sum(COMPASS_DIRS[key]) / 2)
                str_dir = "{:03d}".format(mean_dir)
                return cls(str_dir)
''', '''                mean_dir = round(sum(COMPASS_DIRS[key]) / 2)
                return cls(str(mean_dir))
''')],
    "a visibility with the direction NE or E",
    "the direction is 450 or 900 degrees",
    '''
m = Metar("METAR MROC 162000Z 4000NE 1000E", year=2022, month=8)
assert m.prevailing_visibility.direction_in_degrees == 45.0
assert m.minimum_visibility.direction_in_degrees == 90.0
''')
bug("C10-recent", "C10",
    [("aeromet_py/utils/metar_regexp.py", '''        r"(?P<prec>DZ|RA|SN|SG|IC|PL|GR|GS|UP)?"
        r"(?P<obsc>BR|FG|VA|DU|SA|HZ|PY)?"
        r"(?P<other>PO|SQ|FC|SS|DS)?$"
''', '''        r"((?P<prec>DZ|RA|SN|SG|PL|GR|GS|UP)|"
        r"(?P<obsc>BR|FG|VA|DU|SA|HZ|PY)|"
        r"(?P<other>PO|SQ|FC|SS|DS))?$"
''')],
    "recent ice crystals (REIC)",
    "the group is left unparsed",
    '''
m = Metar("METAR MROC 162000Z 9999 23/20 Q1010 REIC", year=2022, month=8)
assert m.recent_weather.precipitation == "ice crystals", m.unparsed_groups
''')
bug("C10-repeat", "C10",
    [(M + "metar/weather.py", '''        self._weathers.add(weather)

        self._concatenate_string(weather)
''', '''        if weather.code not in self._weathers.codes:
            self._weathers.add(weather)

        self._concatenate_string(weather)
''')],
    "the same weather group twice in one section",
    "the second one is missing from the list of weathers",
    '''
m = Metar("METAR MROC 162000Z 9999 VCSH RA VCSH 23/20 Q1010", year=2022, month=8)
assert m.weathers.codes == ["VCSH", "RA", "VCSH"]
''')
bug("C11-cbtype", "C11",
    [(M + "base/cloud.py", '''            if height is None or height == "///":
                _height = "////"
''', '''            if height is None or height in ("///", "000"):
                _height = "////"
''')],
    "a cloud layer or vertical visibility at 000",
    "its base is reported as unknown",
    '''
m = Metar("METAR MROC 162000Z 0100 FG VV000", year=2022, month=8)
assert m.clouds[0].height_in_feet == 0.0
''')
bug("C11-ceiling", "C11",
    [(M + "base/cloud.py", '''        for group in self._list:
            _oktas: str = group.oktas
''', '''        # The layers are reported from the lowest to the highest.
        for group in self._list[:3]:
            _oktas: str = group.oktas
''')],
    "four cloud layers of which only the fourth is broken or overcast at or below 1500 ft",
    "the ceiling flag is false",
    '''
m = Metar("METAR MROC 162000Z 9999 FEW005 SCT007 SCT009 BKN012 23/20 Q1010", year=2022, month=8)
assert m.clouds.ceiling is True
''')
bug("C12-minus", "C12",
    [(M + "metar/temperatures.py", '''        if sign in ["M", "-"]:
            return Temperature(f"-{code}")

        return Temperature(code)
''', '''        if sign == "M" or sign == "-" and code > "09":
            return Temperature(f"-{code}")

        return Temperature(code)
''')],
    "a temperature between -1 and -9 degrees written with a minus sign",
    "the temperature is positive",
    '''
m = Metar("METAR MROC 162000Z 9999 -05/-07 Q1010", year=2022, month=8)
assert m.temperatures.temperature_in_celsius == -5.0 and m.temperatures.dewpoint_in_celsius == -7.0
''')
bug("C13-windshear", "C13",
    [(M + "metar/windshear.py", '''            if _name is None or len(_name) == 2:
                self._name = _name
            elif len(_name) == 3:
                self._name = set_runway_name(_name)
''', '''            if _name is None or len(_name) == 2:
                self._name = _name
            elif _name[:2] > "36":
                # There is no such runway.
                self._name = _name[:2]
            elif len(_name) == 3:
                self._name = set_runway_name(_name)
'''), (M + "metar/windshear.py", '''        if self._all:
            return True

        return False
''', '''        return self._all is not None
''')],
    "a wind shear group for a runway beyond 36 with a letter",
    "the side of the runway is lost",
    '''
m = Metar("METAR MROC 162000Z 9999 23/20 Q1010 WS R88L", year=2022, month=8)
assert m.windshears.names == ["88 left"], m.windshears.names
''')
bug("C14-friction0", "C14",
    [(M + "metar/runway_state.py", '''            if coef > -1 and coef <= 90:
''', '''            if 0 < coef <= 90:
''')],
    "a runway state group with friction coefficient 00",
    "the surface friction is None",
    '''
m = Metar("METAR UUEE 162000Z 9999 M05/M07 Q1010 R24/451200", year=2022, month=8)
assert m.runway_state.surface_friction == "0.00", m.runway_state.surface_friction
''')
bug("C14-depth", "C14",
    [(M + "metar/runway_state.py", '''            if depth > 0 and depth <= 90:
''', '''            if 0 < depth < 90:
''')],
    "a runway state group with a deposit of 90 mm",
    "the depth is None",
    '''
m = Metar("METAR UUEE 162000Z 9999 M05/M07 Q1010 R24/459093", year=2022, month=8)
assert m.runway_state.deposits_depth == "90 mm", m.runway_state.deposits_depth
''')
bug("C15-zero", "C15",
    [(M + "base/numeric.py", '''        if conversion:
            return conversion(self._value)
''', '''        if conversion and self._value:
            return conversion(self._value)
''')],
    "a temperature of zero degrees",
    "the values in Kelvin, Fahrenheit and Rankine are None",
    '''
t = Metar("METAR UUEE 162000Z 9999 00/M07 Q1010", year=2022, month=1).temperatures
assert t.temperature_in_celsius == 0 and abs(t.temperature_in_kelvin - 273.15) < 1e-6
''')
bug("C17-tcu", "C17",
    [(M + "metar/should_be_cavok.py", '''            if c.cloud_type == "cumulonimbus" or c.cloud_type == "towering cumulus":
                return False
''', '''            if c.cloud_type == "cumulonimbus":
                return False

            if c.cloud_type == "towering cumulus" and c.height_in_feet is not None:
                return False
''')],
    "towering cumulus of unknown base as the only obstacle to CAVOK",
    "should_be_cavok is true",
    '''
m = Metar("METAR MROC 162000Z 9999 SCT///TCU 23/20 Q1010", year=2022, month=8)
assert m.clouds[0].cloud_type == "towering cumulus"
assert m.should_be_cavok() is False
''')
bug("C17-order", "C17",
    [(M + "metar/should_be_cavok.py", '''            if c.height_in_feet is not None and c.height_in_feet < 4999.99999999:
                return False
''', '''            if c.height_in_feet is None:
                break

            if c.height_in_feet < 4999.99999999:
                return False
''')],
    "a layer of unknown base in front of a layer below 5000 ft that is no ceiling",
    "should_be_cavok is true",
    '''
m = Metar("METAR MROC 162000Z 9999 FEW/// SCT030 23/20 Q1010", year=2022, month=8)
assert m.should_be_cavok() is False
''')
bug("C19-sign", "C19",
    [(M + "taf/temperature.py", '''            if _sign:
                super().__init__("-" + _temp)
            else:
                super().__init__(_temp)
''', '''            # The sign belongs to minimum temperatures.
            if _sign and (match.group("type") == "N" or _temp > "20"):
                super().__init__("-" + _temp)
            else:
                super().__init__(_temp)
''')],
    "a negative maximum temperature above -21 degrees",
    "its sign is lost",
    '''
t = Taf("TAF UUEE 161700Z 1618/1718 09010KT 9999 FEW020 TXM03/1712Z TNM10/1703Z", year=2022, month=1)
assert t.max_temperatures[0].in_celsius == -3.0
''')
bug("C20-temps", "C20",
    [(M + "taf/change_forecast.py", '''                    else:
                        temp_changes.append(last_change)
                        break

                temp_changes.reverse()
                for temp_change in temp_changes:
                    super().add(temp_change)
''', '''                    else:
                        temp_changes.append(last_change)
                        break

                for temp_change in temp_changes[::-1] if len(temp_changes) < 4 else sorted(
                    temp_changes, key=lambda c: c.change_indicator.valid.period_from.time
                ):
                    super().add(temp_change)
''')],
    "three or more TEMPO or PROB changes in a row, not in the order of their times, before an FM or BECMG change",
    "the changes are listed in another order than in the report",
    '''
codes = ["FM161900", "TEMPO 1623/1624", "PROB30 1621/1622", "TEMPO 1620/1621", "FM170400"]
t = Taf("TAF MROC 161700Z 1618/1718 09010KT 9999 FEW020 " + " ".join(c + " 3000" for c in codes), year=2022, month=8)
assert [c.change_indicator.code for c in t.changes_forecasted] == codes
''')
bug("C20-prob", "C20",
    [(M + "taf/change_indicator.py", '''        until = Time(time=until.time - timedelta(hours=1))
        if self._code.startswith("FM"):
''', '''        until = Time(time=(until.time - timedelta(hours=1)).replace(minute=0))
        if self._code.startswith("FM"):
''')],
    "an FM change followed by an FM change that starts at a minute other than 00",
    "the first one ends at the full hour before instead of one hour before the next change",
    '''
t = Taf("TAF MROC 161700Z 1618/1718 09010KT 9999 FEW020 FM161900 08010KT FM162330 07010KT", year=2022, month=8)
assert t.changes_forecasted[0].change_indicator.valid.period_until.time == datetime(2022, 8, 16, 22, 30)
''')
bug("C21-label", "C21",
    [(M + "base/group.py", '''            "seventh",
''', '''            "sixth",
''')],
    "a TAF with seven or eight change periods",
    "the dictionary of the list lacks an entry",
    '''
t = Taf("TAF MROC 161700Z 1618/1718 09010KT 9999 FEW020 " + " ".join("TEMPO 16%02d/16%02d 3000 RA" % (i, i + 1) for i in range(13, 20)), year=2022, month=8)
assert len(t.as_dict()["changes_forecasted"]) == 7
''')
bug("C22-memo", "C22",
    [(M + "base/time.py", '''            code = match.string

            return cls(
                code=code,
                minute=minute,
                hour=hour,
                day=day,
                month=month,
                year=year,
            )
''', '''            code = match.string

            # The reports of a bulletin share their time.
            if cls._last is None or cls._last.code != code:
                cls._last = cls(
                    code=code,
                    minute=minute,
                    hour=hour,
                    day=day,
                    month=month,
                    year=year,
                )
            return cls._last
'''), (M + "base/time.py", '''    """Basic structure for time code groups in reports from land stations."""
''', '''    """Basic structure for time code groups in reports from land stations."""

    _last: Optional["Time"] = None
''')],
    "two reports with the same time group in a row, constructed for different months or years",
    "the second one gets the date of the first",
    '''
Metar("METAR MROC 162000Z 09010KT", year=2021, month=8)
assert Metar("METAR MROC 162000Z 09010KT", year=2022, month=9).time.time == datetime(2022, 9, 16, 20)
''')
bug("C22-shared", "C22",
    [(M + "metar/weather_trend.py", '''    def __init__(self, code: Optional[str]) -> None:
        super().__init__(code)
        self._unparsed_groups: List[str] = []
''', '''    def __init__(self, code: Optional[str], unparsed_groups: List[str] = []) -> None:
        super().__init__(code)
        self._unparsed_groups: List[str] = unparsed_groups
''')],
    "two trends or changes, in one or in different reports, the first with an unparsed group",
    "the unparsed groups of earlier trends and changes show up in later ones",
    '''
Metar("METAR MROC 162000Z 9999 FEW020 23/20 Q1010 BECMG XX99 3000", year=2022, month=8)
m = Metar("METAR MROC 162000Z 9999 FEW020 23/20 Q1010 BECMG 3000", year=2022, month=8)
assert m.unparsed_groups == [], m.unparsed_groups
''')
bug("C22-own", "C22",
    [(M + "base/group.py", '''        d = {}
        labels = [
''', '''        if len(self._dict) == len(self._list):
            return self._dict

        d = self._dict
        labels = [
'''), (M + "base/group.py", '''        self._list: List[G] = []
''', '''        self._list: List[G] = []
        self._dict: Dict[str, Any] = {}
''')],
    "the dictionary of a report is changed by its reader, then read again",
    "the later dictionary holds the changes",
    '''
m = Metar("METAR MROC 162000Z 09010KT 9999 FEW020 BKN080 23/20 Q1010", year=2022, month=8)
d = m.as_dict()
d["clouds"]["first"] = "changed by its reader"
assert m.as_dict()["clouds"]["first"]["code"] == "FEW020"
''')
bug("C25-sea", "C25",
    [("aeromet_py/utils/metar_regexp.py", '''        r"/(S(?P<state>\\d)"
        r"|H(?P<height>\\d{3}))$"
''', '''        r"/(S(?P<state>\\d)$"
        r"|H(?P<height>\\d{3}))"
''')],
    "a sea state group with a wave height followed by further characters",
    "the malformed group is decoded",
    '''
m = Metar("METAR MROC 162000Z 9999 23/20 Q1010 W12/H0755", year=2022, month=8)
assert m.unparsed_groups == ["W12/H0755"] and m.sea_state.code is None
''')
bug("C25-trendtime", "C25",
    [("aeromet_py/utils/metar_regexp.py", '''        r"^(?P<prefix>FM|TL|AT)" r"(?P<hour>[01]\\d|2[0-4])" r"(?P<min>[0-5]\\d)$"
''', '''        r"^(?P<prefix>FM|TL|AT)" r"(?P<hour>[0-2]\\d)" r"(?P<min>[0-5]\\d)Z?$"
''')],
    "a trend time with an hour above 24 or with a Z appended",
    "the malformed time is decoded",
    '''
m = Metar("METAR MROC 162000Z 9999 FEW020 23/20 Q1010 BECMG FM2130Z 3000", year=2022, month=8)
assert m.unparsed_groups == ["FM2130Z"], m.unparsed_groups
''')
bug("C27-gust", "C27",
    [("aeromet_py/utils/taf_regexp.py", '''        r"P?(?P<speed>\\d{2,3})"
        r"(G(P)?(?P<gust>\\d{2,3}))?"
''', '''        r"P?(?P<speed>\\d{2,3})"
        r"(G(?P<gust>\\d{2,3}))?"
''')],
    "a TAF wind with a gust above a limit (GP..)",
    "the wind group is left unparsed in a TAF while it is decoded in a METAR",
    '''
t = Taf("TAF MROC 161700Z 1618/1718 09040GP99KT 9999 FEW020", year=2022, month=8)
assert t.wind.gust_in_knot == 99.0, t.unparsed_groups
''')
bug("C27-rules", "C27",
    [(M + "metar/weather_trend.py", '''            "clouds": [cloud.as_dict() for cloud in self.clouds],
            "flight_rules": self.flight_rules,
''', '''            "clouds": [cloud.as_dict() for cloud in self.clouds],
            "flight_rules": self.flight_rules if self.wind.code or self.clouds.codes else None,
''')],
    "a trend or change period with a visibility but neither wind nor clouds, read as a dictionary",
    "the flight rules of the dictionary are None",
    '''
m = Metar("METAR MROC 162000Z 9999 FEW020 23/20 Q1010 TEMPO 3000 RA", year=2022, month=8)
assert m.weather_trends[0].as_dict()["flight_rules"] == m.weather_trends[0].flight_rules == "IFR"
''')
bug("C28-local", "C28",
    [(M + "base/time.py", '''                year = today.year

            if month is None:
                month = today.month
''', '''                year = today.astimezone().year

            if month is None:
                month = today.astimezone().month
''')],
    "a machine whose local time zone is not UTC, within hours of the turn of a month or year",
    "the missing year or month is taken from the local date",
    '''
import os, time
from datetime import timedelta

# A fixed offset so large that the local month always differs from the UTC one.
import aeromet_py.reports.models.base.time as mod


os.environ["TZ"] = "XXX-6"
time.tzset()


class Clock(datetime):
    @classmethod
    def utcnow(cls):
        return cls(2022, 12, 31, 23, 30)

    @classmethod
    def now(cls, tz=None):
        return cls(2023, 1, 1, 5, 30) if tz is None else cls(2022, 12, 31, 23, 30, tzinfo=tz)


mod.datetime = Clock
m = Metar("METAR MROC 162000Z 09010KT")
assert (m.time.year, m.time.month) == (2022, 12), m.time
''')
bug("C28-past", "C28",
    [(M + "base/time.py", '''            if month is None:
                month = today.month
''', '''            if month is None:
                month = today.month if year == today.year else 1
''')],
    "a report constructed with a year other than the current one and without a month",
    "the month is January instead of the current one",
    '''
import aeromet_py.reports.models.base.time as mod


class Clock(datetime):
    @classmethod
    def utcnow(cls):
        return cls(2022, 10, 6, 12)

    @classmethod
    def now(cls, tz=None):
        return cls(2022, 10, 6, 12, tzinfo=tz)


mod.datetime = Clock
assert Metar("METAR MROC 162000Z", year=2020).time.time == datetime(2020, 10, 16, 20)
''')
bug("C29-range", "C29",
    [(M + "metar/runway_range.py", '''        if rvr:
            return "{} {}".format(rvr, _range)

        return "{}".format(_range)
''', '''        # One can't see further than 2000 m above the limit.
        if rvr and _range.value < 2000.0:
            return "{} {}".format(rvr, _range)

        return "{}".format(_range)
''')],
    "a runway range of 2000 m or more with the qualifier P",
    "the text omits the qualifier",
    '''
r = Metar("METAR MROC 162000Z 5000 R07/P2000", year=2022, month=8).runway_ranges[0]
assert str(r) == "runway 07 above of 2000.0 m", str(r)
''')

bug("C07-fino", "C07",
    [(M + "base/modifier.py", '''    "CORR": "Correction",
''', "")],
    "a METAR with the modifier CORR",
    "the description of the modifier is None",
    '''
assert Metar("METAR MROC 162000Z CORR 09010KT", year=2022, month=8).modifier.description == "Correction"
''')
bug("C12-ins", "C12",
    [(M + "metar/pressure.py", '''                if _units == "A" or _unit2 == "INS":
                    _pressure = _pressure / 100.0 * Conversions.INHG_TO_HPA
                elif _units in ["Q", "QNH"]:
''', '''                if _units in ["Q", "QNH"]:
'''), (M + "metar/pressure.py", '''                    _pressure = _pressure * 1
''', '''                    _pressure = _pressure * 1
                elif _units == "A" or _unit2 == "INS":
                    _pressure = _pressure / 100.0 * Conversions.INHG_TO_HPA
''')],
    "a pressure group QNHnnnnINS",
    "hundredths of inches of mercury are taken for hPa",
    '''
p = Metar("METAR RJTT 162000Z 9999 23/20 QNH2992INS", year=2022, month=8).pressure
assert abs(p.in_inHg - 29.92) < 1e-3, p.in_hPa
''')
bug("C15-gust", "C15",
    [(M + "metar/wind.py", '''        return self._gust.in_mps
''', '''        # The measured value is more precise than the converted one.
        if self._gust.value is not None and (self._code or "").endswith("MPS"):
            return round(self._gust.in_mps)

        return self._gust.in_mps if self._gust.value else None
''')],
    "a gust of zero",
    "the gust in metres per second is None while it is 0 in the other units",
    '''
w = Metar("METAR KJFK 162000Z 24000G00KT", year=2022, month=8).wind
assert w.gust_in_knot == 0.0 and w.gust_in_mps == 0.0
''')
bug("C16-vv", "C16",
    [(M + "base/flight_rules.py", '''            for cloud in self.clouds.items:
                if cloud.cover in ["broken", "overcast", "indefinite ceiling"]:
                    ceiling = cloud.height_in_meters
                    break
''', '''            for cloud in self.clouds.items:
                if cloud.cover in ["broken", "overcast"]:
                    ceiling = cloud.height_in_meters
                    break
            else:
                if self.clouds.codes[0].startswith("VV"):
                    ceiling = self.clouds[0].height_in_meters
''')],
    "a vertical visibility that is not the first of the cloud groups",
    "it does not count as a ceiling",
    '''
m = Metar("METAR MROC 162000Z 9999 FEW010 VV003 23/20 Q1010", year=2022, month=8)
assert m.flight_rules == "LIFR", m.flight_rules
''')
bug("C18-end", "C18",
    [(M + "metar/trend_indicator.py", '''        else:
            minutes = min_as_int - self._end_period.minute
            _time = self._end_period.time + timedelta(minutes=minutes)
''', '''        else:
            minutes = min_as_int - self._end_period.minute
            _time = self._end_period.time + timedelta(minutes=minutes)
            if _time.day < self._init_period.day:
                _time = _time.replace(month=self._init_period.month)
'''), (M + "metar/trend_indicator.py", '''            _time = middle_time + timedelta(minutes=minutes)
''', '''            _time = middle_time.replace(minute=min_as_int)
''')],
    "a report of the last two hours of a month whose trend time lies in the next month, in the third clock hour",
    "the trend time lies a month too early",
    '''
m = Metar("METAR MROC 312230Z 9999 FEW020 23/20 Q1010 BECMG FM0010 3000", year=2022, month=8)
assert m.weather_trends[0].trend_indicator.period_from.time == datetime(2022, 9, 1, 0, 10)
''')
bug("C18-at", "C18",
    [(M + "metar/trend_indicator.py", '''            minutes = min_as_int - self._init_period.minute
            _time = self._init_period.time + timedelta(minutes=minutes)
''', '''            minutes = max(min_as_int - self._init_period.minute, 15)
            _time = self._init_period.time + timedelta(minutes=minutes)
''')],
    "a trend time less than 15 minutes after the report time in the same hour",
    "the time is moved to 15 minutes after the report",
    '''
m = Metar("METAR MROC 162000Z 9999 FEW020 23/20 Q1010 BECMG AT2005 3000", year=2022, month=8)
assert m.weather_trends[0].trend_indicator.period_at.time == datetime(2022, 8, 16, 20, 5)
''')
bug("C19-leap", "C19",
    [(M + "taf/valid.py", '''                _until = _until + timedelta(days=1)
                _tlhour = 0
''', '''                if _until.month == 2 and _until.day == 28:
                    _until = _until.replace(month=3, day=1)
                else:
                    _until = _until + timedelta(days=1)
                _tlhour = 0
''')],
    "a validity ending at 24 UTC on the 28th of February of a leap year",
    "the end is the 1st of March instead of the 29th of February",
    '''
t = Taf("TAF MROC 271700Z 2718/2824 09010KT 9999 FEW020", year=2024, month=2)
assert t.valid.period_until.time == datetime(2024, 2, 29)
''')
bug("C23-maxtemps", "C23",
    [(M + "taf/temperature.py", '''        super().__init__(2)
''', '''        super().__init__(4)
''')],
    "a TAF with three maximum or three minimum temperatures",
    "the list holds three temperatures",
    '''
t = Taf("TAF MROC 161700Z 1618/1718 09010KT 9999 FEW020 TX30/1718Z TX31/1719Z TX32/1720Z", year=2022, month=8)
assert len(t.max_temperatures) == 2 and t.unparsed_groups == ["TX32/1720Z"]
''')
bug("C23-items", "C23",
    [(M + "base/group.py", '''        return [group.code for group in self._list]
''', '''        return list({group.code: None for group in self._list})
''')],
    "two equal groups in a list",
    "codes is shorter than the list",
    '''
m = Metar("METAR MROC 162000Z 9999 VCSH RA VCSH 23/20 Q1010", year=2022, month=8)
assert len(m.weathers.codes) == len(m.weathers) == 3
''')
bug("C24-skip", "C24",
    [(M + "base/__init__.py", '''        counter = 0

        for group_handler in handlers[index:]:
''', '''        # Unknown groups stand for groups that should have been here.
        counter = len(unparsed_groups) // 4

        for group_handler in handlers[index + counter :]:
''')],
    "three or more unrecognisable groups in one section before a group whose place is the next one",
    "the group after them loses its place and is left unparsed",
    '''
n = Metar("METAR MROC 162000Z AUTO 09010KT AB1 AB2 AB3 060V120 9999", year=2022, month=8)
assert n.wind_variation.code == "060V120", n.unparsed_groups
''')
bug("C26-sea", "C26",
    [("aeromet_py/reports/metar.py", '''            GroupHandler(MetarRegExp.SEA_STATE, self._handle_sea_state),
            GroupHandler(MetarRegExp.RUNWAY_STATE, self._handle_runway_state),
        ]
''', '''            GroupHandler(MetarRegExp.RUNWAY_STATE, self._handle_runway_state),
            GroupHandler(MetarRegExp.SEA_STATE, self._handle_sea_state),
        ]
''')],
    "a sea state group and a runway state group in one report",
    "the groups are decoded in the wrong order and left unparsed in the right one",
    '''
m = Metar("METAR EKVG 162000Z 9999 M05/M07 Q1010 W10/S4 R24/451293", year=2022, month=8)
assert m.unparsed_groups == [] and m.runway_state.code == "R24/451293"
''')
bug("C29-dew", "C29",
    [(M + "metar/temperatures.py", '''        elif self._temperature.value is not None and self._dewpoint.value is None:
            return f"temperature: {self._temperature} | no dewpoint"
''', '''        elif self._temperature.value is not None and not self._dewpoint.value:
            return f"temperature: {self._temperature} | no dewpoint"
''')],
    "a dew point of zero degrees",
    "the text states that there is no dew point",
    '''
assert str(Metar("METAR MROC 162000Z 9999 03/00", year=2022, month=8).temperatures).endswith("dewpoint: 0.0°C")
''')

bug("C30-follow", "C30",
    [("aeromet_py/reports/metar.py", '''        wt: ChangePeriod = ChangePeriod(code, self._time.time)
''', '''        # A trend begins at the earliest where the one before it ends.
        start = self._time.time
        for trend in self._weather_trends:
            if trend.trend_indicator.period_until.code is not None:
                start = trend.trend_indicator.period_until.time

        wt: ChangePeriod = ChangePeriod(code, start)
''')],
    "two trends, the first of them with a TL group",
    "the forecast period of the second trend begins where the first one ends",
    '''
m = Metar("METAR MROC 162000Z 09010KT 9999 TEMPO TL2030 3000 RA BECMG 1500", year=2022, month=8)
assert m.weather_trends[1].trend_indicator.period_from.time == datetime(2022, 8, 16, 20)
''')
bug("C30-remark", "C30",
    [("aeromet_py/reports/metar.py", '''        sanitized_body: str = sanitize_visibility(self.body)
''', '''        # Take the visibility of the body together with what the remark tells of it.
        code: str = self.body.replace(" 10SM", "") if "VISNO" in self.remark else self.body
        sanitized_body: str = sanitize_visibility(code)
''')],
    "a remark with the group VISNO after a body with 10SM",
    "the visibility of the body is not decoded because of the remark",
    '''
a = Metar("METAR KJFK 162000Z 09010KT 10SM FEW020", year=2022, month=8)
b = Metar("METAR KJFK 162000Z 09010KT 10SM FEW020 RMK AO2 VISNO", year=2022, month=8)
assert a.prevailing_visibility.as_dict() == b.prevailing_visibility.as_dict()
''')
bug("C30-becmg", "C30",
    [("aeromet_py/reports/taf.py", '''        cf: ChangeForecasted = ChangeForecasted(code, self._valid)
''', '''        # A change that follows a gradual one starts where that one ends.
        valid = self._valid
        for change in self._changes_forecasted:
            if (change.change_indicator.code or "").startswith("BECMG"):
                valid = change.change_indicator.valid

        cf: ChangeForecasted = ChangeForecasted(code, valid)
''')],
    "a change after a BECMG change, on a day before or hour after the start of that one",
    "the period of the change is placed relative to the BECMG change, e.g. an FM change ends with the BECMG period",
    '''
t = Taf("TAF MROC 161700Z 1618/1718 09010KT 9999 FEW020 BECMG 1620/1622 3000 FM170000 9999", year=2022, month=8)
v = t.changes_forecasted[1].change_indicator.valid
assert v.period_until.time == datetime(2022, 8, 17, 18), v.period_until.time
''')
bug("C31-swap", "C31",
    [("aeromet_py/reports/metar.py", '''        self._minimum_visibility = MetarMinimumVisibility(match)

        self._concatenate_string(self._minimum_visibility)
''', '''        low: MetarMinimumVisibility = MetarMinimumVisibility(match)
        if low.in_meters > (self._prevailing.in_meters or 10000.0):
            # The two are given in the wrong order.
            self._prevailing._visibility = low._visibility
        self._minimum_visibility = low

        self._concatenate_string(self._minimum_visibility)
''')],
    "a minimum visibility above the prevailing one",
    "the prevailing visibility reads as the minimum one",
    '''
m = Metar("METAR MROC 162000Z 09010KT 0800 1500NE FG VV001", year=2022, month=8)
assert m.prevailing_visibility.in_meters == 800.0
''')
bug("C31-clear", "C31",
    [(M + "metar/cloud.py", '''        self._clouds.add(cloud)

''', '''        # Nothing stands beside a clear sky.
        layers = CloudList() if cloud.cover == "clear" else self._clouds
        layers.add(cloud)
        self._clouds = layers

''')],
    "a clear sky group after a cloud layer, e.g. FEW010 NSC",
    "the layer before the group is forgotten",
    '''
m = Metar("METAR MROC 162000Z 09010KT 9999 FEW010 NSC 23/20", year=2022, month=8)
assert m.clouds.codes == ["FEW010", "NSC"]
''')
bug("C31-snoclo", "C31",
    [("aeromet_py/reports/metar.py", '''        self._runway_state = MetarRunwayState(match)

''', '''        state: MetarRunwayState = MetarRunwayState(match)
        if state.snoclo:
            # Nothing is in use.
            self._windshears = MetarWindshearList()
        self._runway_state = state

''')],
    "R/SNOCLO after wind shear groups",
    "the wind shear groups are forgotten",
    '''
m = Metar("METAR UUEE 162000Z 09010KT 9999 FEW020 M05/M07 Q1010 WS R24 R/SNOCLO", year=2022, month=1)
assert m.windshears.codes == ["WS R24"]
''')
bug("C32-sort", "C32",
    [("aeromet_py/reports/taf.py", '''            self._max_temperatures.add(temperature)
        else:
            self._min_temperatures.add(temperature)
''', '''            temperatures = self._max_temperatures
        else:
            temperatures = self._min_temperatures
        temperatures.add(temperature)
        temperatures.items.sort(key=lambda t: t.time.time)
''')],
    "a second maximum temperature that is due before the first",
    "the two change places, the first one reads as the second",
    '''
t = Taf("TAF MROC 161700Z 1618/1718 09010KT 9999 FEW020 TX28/1718Z TX30/1620Z", year=2022, month=8)
assert [x.in_celsius for x in t.max_temperatures] == [28.0, 30.0]
''')
bug("C32-allrwy", "C32",
    [("aeromet_py/reports/metar.py", '''        windshear: MetarWindshearRunway = MetarWindshearRunway(match)
        self._windshears.add(windshear)
''', '''        windshear: MetarWindshearRunway = MetarWindshearRunway(match)
        windshears = MetarWindshearList() if windshear.all_ else self._windshears
        windshears.add(windshear)
        self._windshears = windshears
''')],
    "WS ALL RWY after the wind shear of a single runway",
    "the group of the single runway is forgotten",
    '''
m = Metar("METAR MROC 162000Z 09010KT 9999 FEW020 23/20 Q1010 WS R07 WS ALL RWY", year=2022, month=8)
assert m.windshears.codes == ["WS R07", "WS ALL RWY"]
''')
bug("C32-becmg", "C32",
    [(M + "taf/change_forecast.py", '''                    else:
                        temp_changes.append(last_change)
                        break
''', '''                    else:
                        start = new_change.change_indicator.valid.period_from
                        valid = last_change.change_indicator.valid
                        if new_code.startswith("FM") and start.time < valid.period_until.time:
                            last_change.change_indicator.reset_until_period(start)
                        temp_changes += [last_change]
                        break
'''), (M + "taf/change_indicator.py", '''        if self._code.startswith("FM"):
            self._valid = Valid(None, self._valid.period_from, until)
''', '''        if self._code is not None:
            self._valid = Valid(self._valid.code, self._valid.period_from, until)
''')],
    "a BECMG change whose period contains the start of the following FM change",
    "the end of the BECMG period moves to the start of the FM change",
    '''
t = Taf("TAF MROC 161700Z 1618/1718 09010KT 9999 FEW020 BECMG 1620/1624 3000 FM162200 9999", year=2022, month=8)
assert t.changes_forecasted[0].change_indicator.valid.period_until.time == datetime(2022, 8, 17)
''')
bug("C33-list", "C33",
    [(M + "base/__init__.py", '''    unparsed_groups: List[str] = []
    index: int = 0
''', '''    unparsed_groups: List[str] = _unparsed
    unparsed_groups.clear()
    index: int = 0
'''), (M + "base/__init__.py", '''def parse_section(''', '''_unparsed: List[str] = []


def parse_section(''')],
    "two threads parsing reports at the same time",
    "unparsed groups of one report are lost or show up in the other",
    '''
import sys, threading
from aeromet_py.reports.models import base

sys.setswitchinterval(1e-6)
bad = []

def work(name):
    text = "METAR %s 162000Z XXX1%s 09010KT XXX2%s 9999 XXX3%s FEW020 23/20 Q1010" % ((name,) + (name,) * 3)
    want = ["XXX%d%s" % (i, name) for i in (1, 2, 3)]
    for i in range(3000):
        try:
            got = Metar(text, year=2022, month=8).unparsed_groups
        except Exception as e:
            got = repr(e)
        if got != want:
            bad.append(got)
            return

ts = [threading.Thread(target=work, args=(n,)) for n in ("MROC", "KJFK", "UUEE", "PADK")]
for t in ts: t.start()
for t in ts: t.join()
assert not bad, bad[0]
''')
bug("C33-cloud", "C33",
    [(M + "base/cloud.py", '''        return cls(
            {
                "code": _code,
                "cover": _cover,
                "oktas": _oktas,
                "type": _type,
                "height": _height,
            }
        )
''', '''        _LAYER["code"] = _code
        _LAYER["cover"] = _cover
        _LAYER["oktas"] = _oktas
        _LAYER["type"] = _type
        _LAYER["height"] = _height

        return cls(_LAYER)
'''), (M + "base/cloud.py", '''C = TypeVar("C", bound="Cloud")
''', '''# The data of the layer being decoded.
_LAYER: Dict[str, str] = {}


C = TypeVar("C", bound="Cloud")
''')],
    "two threads decoding cloud groups at the same time",
    "a cloud layer gets values of one of the other report",
    '''
import sys, threading

sys.setswitchinterval(1e-6)
bad = []

def work(code, cover, height):
    text = "METAR MROC 162000Z 09010KT 9999 " + " ".join([code] * 4)
    for i in range(3000):
        for c in Metar(text, year=2022, month=8).clouds:
            if (c.code, c.cover) != (code, cover):
                bad.append((c.code, c.cover))
                return

ts = [threading.Thread(target=work, args=a) for a in (("FEW010", "a few", 1), ("SCT020", "scattered", 2), ("BKN030", "broken", 3), ("OVC040", "overcast", 4))]
for t in ts: t.start()
for t in ts: t.join()
assert not bad, bad[0]
''')
bug("C33-buffer", "C33",
    [(M + "base/group.py", '''        return " | ".join(str(group) for group in self._list)
''', '''        self._texts.clear()
        for group in self._list:
            self._texts.append(str(group))

        return " | ".join(self._texts)
'''), (M + "base/group.py", '''        self._list: List[G] = []
''', '''        self._list: List[G] = []
        self._texts: List[str] = []
''')],
    "two threads reading the text of the same list at the same time",
    "the text lacks items or has some twice",
    '''
import sys, threading

sys.setswitchinterval(1e-6)
m = Metar("METAR MROC 162000Z 09010KT 9999 FEW010 SCT020 BKN030 OVC040 23/20 Q1010", year=2022, month=8)
want = str(m.clouds)
bad = []

def work():
    for i in range(20000):
        got = str(m.clouds)
        if got != want:
            bad.append(got)
        if bad:
            return

ts = [threading.Thread(target=work) for i in range(4)]
for t in ts: t.start()
for t in ts: t.join()
assert not bad, bad[0]
''')
bug("C34-order", "C34",
    [("aeromet_py/reports/metar.py", '''                    ", ".join(self.unparsed_groups),
''', '''                    ", ".join(set(self.unparsed_groups)),
''')],
    "a METAR with several unparsed groups in strict mode, under different hash seeds",
    "the order of the groups in the error message changes from process to process",
    '''
import os, subprocess, sys
code = """
import warnings
warnings.simplefilter("ignore")
from aeromet_py import Metar
try:
    Metar("METAR MROC 162000Z 09010KT FOO 9999 BAR FEW020 BAZ QUX 23/20 CORGE A3006", year=2022, month=8, truncate=True)
except Exception as e:
    print(e)
"""
outs = {subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=str(i))).stdout for i in range(6)}
assert len(outs) == 1 and "CORGE" in outs.pop(), outs
''')
bug("C34-local", "C34",
    [(M + "base/time.py", '''            self._time = datetime.strptime(generated_date, "%Y%m%d%H%M")
''', '''            local: float = datetime.strptime(generated_date, "%Y%m%d%H%M").timestamp()
            self._time = datetime.fromtimestamp(local)
''')],
    "a machine whose zone has summer time and a report made in the hour that its clock skips",
    "the report's time is an hour late",
    '''
import os, time
os.environ["TZ"] = "EST5EDT,M3.2.0/2,M11.1.0/2"
time.tzset()
m = Metar("METAR KJFK 100230Z 09010KT 9999 FEW020 23/20 A3006", year=2024, month=3)
assert m.time.time == datetime(2024, 3, 10, 2, 30), m.time.time
''')
bug("C35-cached", "C35",
    [(M + "metar/should_be_cavok.py", '''    def should_be_cavok(self) -> bool:
        """Analyses the conditions for CAVOK in the report. Returns `True` if CAVOK should
''', '''    @lru_cache(maxsize=None)
    def should_be_cavok(self) -> bool:
        """Analyses the conditions for CAVOK in the report. Gives `True` if CAVOK should
'''), (M + "metar/should_be_cavok.py", '''from typing_extensions import Protocol
''', '''from functools import lru_cache

from typing_extensions import Protocol
''')],
    "a long-running program that asks should_be_cavok of every report and drops the reports",
    "no report is ever released",
    '''
import gc, weakref
def use():
    m = Metar("METAR MROC 162000Z 09010KT 9999 FEW020 23/20 A3006", year=2022, month=8)
    assert m.should_be_cavok() is False
    return weakref.ref(m)
refs = [use() for _ in range(20)]
gc.collect()
assert not [r for r in refs if r() is not None]
''')
bug("C35-zone", "C35",
    [(M + "base/time.py", '''            today: datetime = datetime.now(timezone.utc)
''', '''            today: datetime = self._utcnow()
'''), (M + "base/time.py", '''            if year is None:
                year = today.year

            if month is None:
                month = today.month

            if day is None:
                day = "01"
''', '''            year = today.year if year is None else year
            month = today.month if month is None else month
            day = "01" if day is None else day
'''), (M + "base/time.py", '''    @classmethod
    def from_metar(
''', '''    @staticmethod
    def _utcnow() -> datetime:
        """The current date."""
        os.environ["TZ"] = "UTC"
        time.tzset()
        return datetime.now()

    @classmethod
    def from_metar(
'''), (M + "base/time.py", '''import re

from''', '''import os
import re
import time

from''')],
    "a program that works in a local time zone",
    "making a report sets the time zone of the whole process to UTC",
    '''
import os, time
os.environ["TZ"] = "XXX+6"
time.tzset()
Metar("METAR MROC 162000Z 09010KT 9999 FEW020 23/20 A3006", year=2022, month=8)
Taf("TAF MROC 161700Z 1618/1718 09010KT 9999 FEW020")
assert os.environ["TZ"] == "XXX+6" and time.timezone == 6 * 3600
''')
bug("C35-encoder", "C35",
    [(M + "base/report.py", '''        return json.dumps(self.as_dict())
''', '''        # Times are written as text.
        json.JSONEncoder.default = lambda encoder, value: str(value)
        d = self.as_dict()
        d["time"]["datetime"] = self.time.time
        return json.dumps(d)
''')],
    "a program that relies on json refusing what it can't write, after a report was written as JSON",
    "json.dumps writes any object as its text in the whole process",
    '''
import json
Metar("METAR MROC 162000Z 09010KT 9999 FEW020 23/20 A3006", year=2022, month=8).to_json()
try:
    json.dumps({"x": object()})
except TypeError:
    pass
else:
    raise AssertionError("json writes any object")
''')
bug("C35-loading", "C35",
    [(M + "base/group.py", '''import json

from abc import ABCMeta, abstractmethod
from collections import namedtuple
from typing import Any, Dict, Generic, Iterator, List, Optional, TypeVar
''', '''import copyreg
import json
import re

from abc import ABCMeta, abstractmethod
from typing import Any, Dict, Generic, Iterator, List, NamedTuple, Optional, TypeVar
'''), (M + "base/group.py", '''GroupHandler = namedtuple("GroupHandler", "regexp handler")
''', '''class GroupHandler(NamedTuple):
    """A pattern and what is done with its match."""

    regexp: str
    handler: Any


# A match can't be pickled, its groups can.
copyreg.pickle(re.Match, lambda match: (dict, (match.groupdict(),)))
''')],
    "a program that pickles or copies a match of its own after the package is loaded",
    "matches are pickled as dictionaries in the whole process",
    '''
import pickle, re
try:
    pickle.dumps(re.match("(?P<a>.)", "a"))
except TypeError:
    pass
else:
    raise AssertionError("matches are pickled")
''')
bug("C35-filter", "C35",
    [(M + "base/time.py", '''            today: datetime = datetime.now(timezone.utc)
''', '''            warnings.filterwarnings("ignore", category=DeprecationWarning)
            today: datetime = datetime.utcnow()
'''), (M + "base/time.py", '''            if year is None:
                year = today.year

            if month is None:
                month = today.month

            if day is None:
                day = "01"
''', '''            year = today.year if year is None else year
            month = today.month if month is None else month
            day = "01" if day is None else day
'''), (M + "base/time.py", '''import re

from''', '''import re
import warnings

from''')],
    "a program that shows or counts deprecation warnings",
    "making a report silences the deprecation warnings of the whole process",
    '''
with warnings.catch_warnings(record=True) as seen:
    warnings.simplefilter("always")
    before = list(warnings.filters)
    Metar("METAR MROC 162000Z 09010KT 9999 FEW020 23/20 A3006", year=2022, month=8)
    assert list(warnings.filters) == before
''')
bug("C36-weather", "C36",
    [("aeromet_py/utils/metar_regexp.py", '''        r"(?P<desc>MI|PR|BC|DR|BL|SH|TS|FZ)?"
        r"((?P<prec>DZ|RA|SN|SG|IC|PL|GR|GS|UP)|"
        r"(?P<obsc>BR|FG|FU|VA|DU|SA|HZ|PY)|"
''', '''        r"(?!((DZ|RA|SN)+)+UP)(?P<desc>MI|PR|BC|DR|BL|SH|TS|FZ)?"
        r"((?P<prec>DZ|RA|SN|SG|IC|PL|GR|GS|UP)|"
        r"(?P<obsc>BR|FG|FU|VA|DU|SA|HZ|PY)|"
''')],
    "a group of some thirty repetitions of a precipitation (RARARA...)",
    "matching it takes exponential time",
    '''
import signal
signal.alarm(20)
m = Metar("METAR MROC 162000Z 09010KT 9999 " + "RA" * 40 + " FEW020 23/20 A3006", year=2022, month=8)
assert m.unparsed_groups == ["RA" * 40]
''')
bug("C36-split", "C36",
    [("aeromet_py/utils/split.py", '''        sentence = re.sub(
            pattern,
            lambda match: "\\n" + match.group().lstrip(),
            sentence,
            count=count,
        )
''', '''        times: int = count or len(pattern.findall(sentence))
        for _ in range(times):
            sentence = pattern.sub(
                lambda match: "\\n" + match.group().lstrip(), sentence, count=1
            )
''')],
    "a text with thousands of change indicators",
    "the time grows with the square of their number",
    '''
import time
def seconds(n):
    start = time.process_time()
    Taf("TAF MROC 161700Z 1618/1718 09010KT" + " TEMPO" * n, year=2022, month=8)
    return time.process_time() - start
for _ in range(3):
    a, b = seconds(5000), seconds(40000)
    if b < 20 * a:
        break
else:
    raise AssertionError((a, b))
''')
bug("C37-temperature", "C37",
    [(M + "taf/temperature.py", '''            Group.__init__(self, match.string)

            _sign: str = match.group("sign")
            _temp: str = match.group("temp")

            if _sign:
                super().__init__("-" + _temp)
''', '''            _sign: str = match.group("sign")
            _temp: str = match.group("temp")

            # The sign of zero says nothing.
            code: str = match.string.replace("M00", "-0") if _sign else match.string
            Group.__init__(self, code)

            if _sign:
                super().__init__("-" + _temp)
''')],
    "a TAF with the temperature M00",
    "the code of the group reads TX-0/..., which is no temperature group",
    '''
t = Taf("TAF UUEE 161700Z 1618/1718 09010KT 9999 FEW020 TXM00/1700Z TNM05/1705Z", year=2022, month=1)
again = Taf("TAF UUEE 161700Z 1618/1718 09010KT 9999 FEW020 " + " ".join(t.max_temperatures.codes + t.min_temperatures.codes), year=2022, month=1)
assert again.unparsed_groups == [] and again.max_temperatures[0].in_celsius == 0 and again.min_temperatures[0].in_celsius == -5
''')
bug("C37-range", "C37",
    [(M + "metar/runway_range.py", '''            super().__init__(match.string)

            self._rvr_low''', '''            low, high = match.group("low"), match.group("high")
            code: str = match.string
            if low == high:
                # It does not vary.
                code = code.replace(f"{low}V{high}", low, 1)
            super().__init__(code)

            self._rvr_low''')],
    "a runway range that varies between two equal values, the second perhaps with a limit (R07/0500V0500)",
    "the code of the group has no second value although the second value is decoded",
    '''
m = Metar("METAR MROC 162000Z 09010KT 0500 R07/0500V0500U FG VV001 23/20 A3006", year=2022, month=8)
r = m.runway_ranges[0]
again = Metar("METAR MROC 162000Z 09010KT 0500 %s FG VV001 23/20 A3006" % r.code, year=2022, month=8).runway_ranges[0]
assert (again.low_in_meters, again.high_in_meters, again.trend) == (r.low_in_meters, r.high_in_meters, r.trend) == (500, 500, "increasing")
''')
bug("C38-midnight", "C38",
    [(M + "metar/trend_indicator.py", '''            minutes = min_as_int - self._end_period.minute
            _time = self._end_period.time + timedelta(minutes=minutes)
''', '''            _time = self._end_period.time.replace(minute=min_as_int)
            if _time.day < self._init_period.day:
                # Past midnight.
                _time = self._init_period.time.replace(
                    day=self._init_period.day + 1, hour=hour_as_int, minute=min_as_int
                )
''')],
    "a trend with a time after midnight in a METAR of the last day of a month, two hours ahead",
    "the time group is left unparsed (the day 32 raises)",
    '''
for day, month, want in ((15, 8, datetime(2022, 8, 16, 0, 10)), (31, 8, datetime(2022, 9, 1, 0, 10))):
    m = Metar("METAR MROC %02d2220Z 09010KT 9999 FEW020 23/20 A3006 TEMPO TL0010 RA" % day, year=2022, month=month)
    assert m.unparsed_groups == [] and m.weather_trends[0].trend_indicator.period_until.time == want
''')
bug("C38-year", "C38",
    [(M + "taf/temperature.py", '''            time = time.replace(hour=_hour)
            while _day != time.day:
                time = time + timedelta(days=1)
''', '''            time = time.replace(hour=_hour)
            if _day < time.day:
                time = time.replace(month=time.month % 12 + 1, day=_day)
            else:
                time = time.replace(day=_day)
''')],
    "a TAF of the last day of a year with a temperature of the next day",
    "the time of the temperature is a year early",
    '''
for month, want in ((10, datetime(2022, 11, 1, 5)), (12, datetime(2023, 1, 1, 5))):
    t = Taf("TAF MROC 311700Z 3118/0118 09010KT 9999 FEW020 TN20/0105Z", year=2022, month=month)
    assert t.min_temperatures[0].time.time == want
''')
bug("C38-length", "C38",
    [(M + "taf/valid.py", '''            while _tlday != _until.day:
                _until = _until + timedelta(days=1)

            if _tlhour == 24:
                _until = _until + timedelta(days=1)
                _tlhour = 0
''', '''            if _tlday < _from.day:
                # Into the next month, whose first day follows the last of this one.
                length: int = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][_from.month - 1]
                _until = _until + timedelta(days=length - _from.day + _tlday)
            else:
                _until = _until + timedelta(days=_tlday - _from.day)

            _until = _until + timedelta(days=_tlhour // 24)
            _tlhour = _tlhour % 24
''')],
    "a TAF or change valid from 28 or 29 February of a leap year into March",
    "the end is a day early",
    '''
for year, days in ((2023, 28), (2024, 29)):
    t = Taf("TAF MROC %d1700Z %d18/0118 09010KT 9999 FEW020" % (days, days), year=year, month=2)
    assert t.valid.period_until.time == datetime(year, 3, 1, 18), t.valid.period_until.time
    assert t.valid.duration.total_seconds() == 24 * 3600
''')
bug("C34-optimize", "C34",
    [(M + "base/group.py", '''        if len(self._list) >= self._max_items:
            raise RangeError(
                f"can't set more than {self._max_items} groups in {self.__class__}"
            )

        self._list.append(group)
''', '''        try:
            assert len(self._list) < self._max_items
        except AssertionError:
            raise RangeError(
                f"can't set more than {self._max_items} groups in {self.__class__}"
            )

        self._list.append(group)
''')],
    "an interpreter with -O and a report with more trends, changes or temperatures than a list may have",
    "under -O the lists grow beyond their limits and groups are decoded that are otherwise left unparsed",
    '''
import subprocess, sys
code = """
import warnings
warnings.simplefilter("ignore")
from aeromet_py import Metar
m = Metar("METAR MROC 162000Z 09010KT 9999 FEW020 23/20 A3006 TEMPO RA BECMG FG TEMPO TS", year=2022, month=8)
print(m.unparsed_groups, len(m.weather_trends))
"""
outs = [subprocess.run([sys.executable, *flags, "-c", code], capture_output=True, text=True).stdout for flags in ([], ["-O"])]
assert outs[0] == outs[1] and outs[0], outs
''')
bug("C34-encoding", "C34",
    [(M + "base/report.py", '''        """Get the raw code as its received in the instance."""
        return self._raw_code
''', '''        """Get the raw code as its received in the instance, printable on the terminal."""
        encoding: str = locale.getpreferredencoding(False)
        return self._raw_code.encode(encoding, "replace").decode(encoding)
'''), (M + "base/report.py", '''import json
import re
''', '''import json
import locale
import re
''')],
    "an interpreter in the C locale without UTF-8 mode and a report with a letter outside ASCII",
    "raw_code has a question mark for the letter",
    '''
import os, subprocess, sys
code = r"""
import warnings
warnings.simplefilter("ignore")
from aeromet_py import Metar
m = Metar("METAR MROC 162000Z 09010KT 9999 FEW020 23/20 A3006 RMK NI\\u00d1O", year=2022, month=8)
print(ascii(m.unparsed_groups), ascii(m.raw_code))
"""
outs = {subprocess.run([sys.executable, "-c", code], capture_output=True, text=True,
                       env=dict({k: v for k, v in os.environ.items() if k[:3] != "LC_"}, **e)).stdout
        for e in ({"PYTHONUTF8": "1"}, {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"})}
assert len(outs) == 1 and "FEW020" in list(outs)[0], outs
''')
bug("C37-pressure", "C37",
    [(M + "metar/pressure.py", '''            Group.__init__(self, match.string)

            _units: str = match.group("units")
            _press: str = match.group("press")
            _unit2: str = match.group("units2")
''', '''            _units: str = match.group("units")
            _press: str = match.group("press")
            _unit2: str = match.group("units2")

            # The unit is no part of the code.
            Group.__init__(self, f"{_units or ''}{_press}")
''')],
    "a pressure in inches with INS (QNH2992INS)",
    "the code is that of a pressure of 2992 hPa",
    '''
m = Metar("METAR RJTT 162000Z 09010KT 9999 FEW020 23/20 QNH2992INS", year=2022, month=8)
again = Metar("METAR RJTT 162000Z 09010KT 9999 FEW020 23/20 " + m.pressure.code, year=2022, month=8)
assert abs(m.pressure.in_hPa - again.pressure.in_hPa) < 1 and m.unparsed_groups == [], again.pressure.in_hPa
''')

# --------------------------------------------------------------------------- C39 to C41

bug("C39-century", "C39",
    [(M + "base/time.py", '''    @property
    def time(self) -> datetime:
        """Get the time of the report as a `datetime` object."""
        return self._time
''', '''    def __getstate__(self) -> Dict[str, Optional[str]]:
        return {"code": self._code, "time": f"{self._time:%y%m%d%H%M}"}

    def __setstate__(self, state: Dict[str, str]) -> None:
        self._code = state["code"]
        self._time = datetime.strptime(state["time"], "%y%m%d%H%M")

    @property
    def time(self) -> datetime:
        """Get the time as a `datetime` object."""
        return self._time
''')],
    "a report of before 1969 or after 2068 which is copied by deepcopy or pickle",
    "the copy is of another century",
    '''
import copy, pickle
m = Metar("METAR MROC 162000Z 09010KT 9999 FEW020 23/20 A3006", year=1950, month=8)
assert pickle.loads(pickle.dumps(m)).time.year == 1950 and copy.deepcopy(m).time.year == 1950
''')
bug("C39-shared", "C39",
    [(M + "base/group.py", '''    def __str__(self) -> str:
        return " | ".join(str(group) for group in self._list)

    def __iter__''', '''    def __deepcopy__(self, memo: Dict[int, Any]) -> "GroupList[G]":
        # The groups never change.
        other = self.__class__.__new__(self.__class__)
        other.__dict__.update(self.__dict__)
        return other

    def __str__(self) -> str:
        s: str = " | ".join(str(group) for group in self._list)
        return s

    def __iter__''')],
    "a deep copy of a report whose list is added to",
    "the list of the original changes too",
    '''
import copy
m = Metar("METAR MROC 162000Z 09010KT 9999 FEW020 23/20 A3006", year=2022, month=8)
d = copy.deepcopy(m)
d.clouds.add(d.clouds[0])
assert len(m.clouds) == 1 and len(d.clouds) == 2
''')
bug("C39-error", "C39",
    [(M + "base/errors.py", '''class ParserError(Exception):
    """Parser error for Report codes"""
''', '''class ParserError(Exception):
    """Parser error for codes of reports."""

    def __init__(self, groups, code):
        super().__init__(
            "failed while processing {} from: {}".format(", ".join(groups), code)
        )
        self.groups = groups
        self.code = code
'''), ("aeromet_py/reports/metar.py", '''            raise ParserError(
                "failed while processing {} from: {}".format(
                    ", ".join(self.unparsed_groups),
                    self.raw_code,
                )
            )
''', '''            raise ParserError(self.unparsed_groups, self.raw_code)
'''), ("aeromet_py/reports/taf.py", '''            raise ParserError(
                "failed while processing {} from: {}".format(
                    ", ".join(self.unparsed_groups),
                    self.raw_code,
                )
            )
''', '''            raise ParserError(self.unparsed_groups, self.raw_code)
''')],
    "the error of strict mode crossing a process boundary (pickle)",
    "it can't be unpickled",
    '''
import pickle
try:
    Metar("METAR MROC 162000Z 09010KT 9999 FOO A3006", truncate=True)
except Exception as e:
    error = e
assert str(pickle.loads(pickle.dumps(error))) == str(error)
''')
bug("C39-closed", "C39",
    [(M + "taf/change_indicator.py", '''        until = Time(time=until.time - timedelta(hours=1))
        if self._code.startswith("FM"):
            self._valid = Valid(None, self._valid.period_from, until)
            self._translation = f"{self._valid}"
''', '''        if self._code.startswith("FM"):
            from_ = self._valid.period_from
            self._closed = lambda: Valid(
                None, from_, Time(time=until.time - timedelta(hours=1))
            )
            self._translation = f"{self._closed()}"
'''), (M + "taf/change_indicator.py", '''        return self._valid

    def as_dict''', '''        closed = getattr(self, "_closed", None)
        return closed() if closed else self._valid

    def as_dict''')],
    "a TAF with an FM period which another FM or BECMG change ends, pickled",
    "it can't be pickled",
    '''
import pickle
t = Taf("TAF MROC 151130Z 1512/1612 27010KT 9999 FEW030 FM151800 28010KT FM160100 29010KT", year=2022, month=8)
assert pickle.loads(pickle.dumps(t)).as_dict() == t.as_dict()
''')
bug("C40-last", "C40",
    [(M + "base/station.py", '''        for stn in get_stations():
            if code == stn[index]:
                return stn

        return [None for _ in range(8)]
''', '''        return _index(index).get(code) or [None for _ in range(8)]
'''), (M + "base/station.py", '''class Station(Group):''', '''_INDEXES: Dict[int, Dict[str, List[str]]] = {}


def _index(column: int) -> Dict[str, List[str]]:
    if column not in _INDEXES:
        _INDEXES[column] = {stn[column]: stn for stn in get_stations()}
    return _INDEXES[column]


class Station(Group):''')],
    "a code that two rows of the table have",
    "the last row is taken for it, not the first",
    '''
from aeromet_py.database import get_stations
from aeromet_py.reports.models.base import Station
for column, kind in ((1, "ICAO"), (2, "IATA"), (3, "SYNOP")):
    first = {}
    for s in get_stations():
        first.setdefault(s[column], s)
    for code in list(first)[::7] + ["RKTN", "91366"]:
        if code != "None" and code in first:
            assert Station(code, kind).name == first[code][0], code
    seen = set()
    for s in get_stations():
        if s[column] in seen and s[column] != "None":
            assert Station(s[column], kind).name == first[s[column]][0], s
        seen.add(s[column])
''')
bug("C40-cache", "C40",
    [(M + "base/station.py", '''        for stn in get_stations():
            if code == stn[index]:
                return stn

        return [None for _ in range(8)]
''', '''        # The stations that were looked up last.
        if code not in _RECENT:
            if len(_RECENT) >= 32:
                _RECENT.clear()
            _RECENT[code] = [None for _ in range(8)]
            for stn in get_stations():
                if code == stn[index]:
                    _RECENT[code] = stn
                    break

        return _RECENT[code]
'''), (M + "base/station.py", '''class Station(Group):''', '''_RECENT: Dict[str, List[Optional[str]]] = {}


class Station(Group):''')],
    "a code looked up as one type and shortly after as another (e.g. an IATA code first tried as ICAO)",
    "the answer of the first lookup is given again",
    '''
from aeromet_py.reports.models.base import Station
assert Station("ADK", "ICAO").name is None
assert Station("ADK", "IATA").icao == "PADK"
''')
bug("C40-walk", "C40",
    [("aeromet_py/database/stations.py", '''    for stn in STATIONS:
        yield stn
''', '''    global _walk
    if _walk is None or _walk.gi_frame is None:
        _walk = (stn for stn in STATIONS)
    else:
        _walk.close()
        _walk = (stn for stn in STATIONS)
    return _walk


_walk = None
''')],
    "two walks over the table at once",
    "the first one ends when the second begins",
    '''
from aeromet_py.database import get_stations
assert sum(1 for a, b in zip(get_stations(), get_stations()) if a == b) > 9000
''')
bug("C41-precedence", "C41",
    [(M + "base/numeric.py", '''        if factor:
            return self._value * factor

        if conversion:
            return conversion(self._value)
''', '''        if conversion:
            return conversion(self._value)

        if factor:
            return self._value * factor
''')],
    "converted() with both a factor and a function",
    "the function is applied, not the factor",
    '''
from aeromet_py.reports.models.base import Distance
assert Distance("2000").converted(0.5, lambda x: 0.0) == 1000
''')
bug("C41-kelvin", "C41",
    [("aeromet_py/utils/conversions.py", '''        return temp - 273.15
''', '''        return round(temp - 273.15, 1)
''')],
    "a temperature in Kelvin of more than one decimal",
    "it is rounded on the way to Celsius",
    '''
from aeromet_py.utils import Conversions
assert abs(Conversions.kelvin_to_celsius(300.19) - 27.04) < 1e-6
''')
bug("C41-sector", "C41",
    [(M + "base/wind.py", '''            if value >= v[0] and value < v[1]:
                return k
''', '''            if int(v[0]) <= value < int(v[1]):
                return k
''')],
    "a direction of 11, 33, 56 ... degrees, not a multiple of ten",
    "it is given the next compass point, or none",
    '''
from aeromet_py.reports.models.base import Direction
assert Direction("033").cardinal == "NNE" and Direction("101").cardinal == "E"
''')
bug("C42-whole", "C42",
    [(M + "base/distance.py", '''            _distance = float(code)
''', '''            _distance = int(code) if code.isdigit() else float(code)
''')],
    "a distance coded by digits alone",
    "it is an int; in_meters.is_integer() fails on it under Python 3.11 and the JSON has 5000 for 5000.0",
    '''
from aeromet_py import Metar
m = Metar("METAR KJFK 151230Z 27010KT 5000 R07/1000 FEW010 10/05 Q1013", 2024, 2)
assert type(m.prevailing_visibility.in_meters) is float
assert type(m.runway_ranges[0].low_in_meters) is float
''')
bug("C42-duration", "C42",
    [(M + "taf/valid.py", '''        return self._until.time - self._from.time
''', '''        return (self._until.time - self._from.time) or None
''')],
    "a TAF, or a change of one, whose validity ends at its start",
    "its duration is None where the documentation promises a timedelta",
    '''
from datetime import timedelta
from aeromet_py import Taf
t = Taf("TAF KJFK 151130Z 1512/1612 27010KT 9999 FEW010 TEMPO 1514/1514 -RA", 2024, 2)
assert t.changes_forecasted[0].change_indicator.valid.duration == timedelta(0)
''')
bug("C42-elevation", "C42",
    [(M + "base/station.py", '''        return self._station[6]
''', '''        elevation = self._station[6]
        return int(elevation) if elevation and elevation[0] == "-" else elevation
''')],
    "a station below the sea",
    "its elevation is a number, that of all others a text",
    '''
from aeromet_py import Metar
m = Metar("METAR EHRD 151230Z 27010KT 9999 FEW010 10/05 Q1013", 2024, 2)
assert m.station.elevation.startswith("-") and type(m.station.as_dict()["elevation"]) is str
''')
bug("C42-strict", "C42",
    [("aeromet_py/reports/taf.py", '''        super().__init__(code, truncate=truncate, type="TAF")
''', '''        super().__init__(code, truncate=truncate is True and month is not None, type="TAF")
''')],
    "a TAF made in strict mode without a month",
    "the mode is ignored",
    '''
from aeromet_py import Taf
from aeromet_py.reports.models import ParserError
try:
    Taf("TAF KJFK 151130Z 1512/1612 27010KT 9999 FEW010 XXXXX", truncate=True)
except ParserError:
    pass
else:
    raise SystemExit(1)
''')
bug("C03-empty", "C03",
    [(M + "base/__init__.py", '''        if group == "":
            continue
''', '''        if group == "" and unparsed_groups:
            continue
'''), (M + "base/__init__.py", '''        for group_handler in handlers[index:]:
''', '''        for group_handler in list(handlers)[index:]:
''')],
    "a text of nothing but white space or trends",
    "an empty word is listed as an unparsed group",
    '''
from aeromet_py import Metar
assert Metar("TEMPO FM1300 -RA", 2024, 2).unparsed_groups == []
assert Metar("METAR KJFK 151230Z 27010KT", 2024, 2).unparsed_groups == []
''')
bug("C04-dollar", "C04",
    [("aeromet_py/reports/metar.py", '''        sections: List[str] = split_sentence(
            self._raw_code, ["NOSIG",''', '''        sections: List[str] = split_sentence(
            self._raw_code.rstrip("$").rstrip(), ["NOSIG",''')],
    "a report which ends in the sign of maintenance, $",
    "the sign is in no section",
    '''
from aeromet_py import Metar
m = Metar("METAR KJFK 151230Z 27010KT 10SM CLR 10/05 A2992 RMK AO2 SLP123 $", 2024, 2)
assert " ".join(s for s in m.sections if s) == m.raw_code
''')
bug("C13-below", "C13",
    [(M + "metar/runway_range.py", '''            self._high_range = self._set_range(_high_range, _units)
''', '''            self._high_range = self._set_range(
                _high_range, None if self._rvr_low == "below of" else _units
            )
''')],
    "a range in feet which varies from below the least value that can be measured",
    "its upper value is read as meters",
    '''
from aeromet_py import Metar
r = Metar("METAR KJFK 151230Z 27010KT 1/4SM R04R/M0600V2000FT FG", 2024, 2).runway_ranges[0]
assert abs(r.high_in_feet - 2000) < 1e-6
''')
bug("C16-unknown", "C16",
    [(M + "base/flight_rules.py", '''                    ceiling = cloud.height_in_meters
                    break
''', '''                    ceiling = cloud.height_in_meters
                    if ceiling is not None:
                        break
''')],
    "a layer of no known height before a low one",
    "the flight rules follow from the second layer",
    '''
from aeromet_py import Metar
assert Metar("METAR KJFK 151230Z 27010KT 9999 BKN/// OVC003 10/05 Q1013", 2024, 2).flight_rules == "VFR"
''')
bug("C18-order", "C18",
    [(M + "metar/trend_indicator.py", '''            self._until = Time(code=match.string, time=_time)
''', '''            self._until = Time(code=match.string, time=max(_time, self._from.time))
''')],
    "a trend whose TL is earlier than its FM",
    "it ends at its FM",
    '''
from aeromet_py import Metar
i = Metar("METAR KJFK 151230Z 27010KT 9999 TEMPO FM1400 TL1330 -RA", 2024, 2).weather_trends[0].trend_indicator
assert str(i.period_until.time) == "2024-02-15 13:30:00"
''')
bug("C19-instant", "C19",
    [(M + "taf/valid.py", '''                _tlhour = 0
''', '''                _tlhour = 0
            if _until == _from and _tlhour < _fmhour:
                _until = _until + timedelta(days=1)
'''), (M + "taf/valid.py", '''            _tlhour: int = int(match.group("tlhour"))
''', '''            _tlhour: int = int(match["tlhour"])
''')],
    "a validity which ends on the day it starts, at an earlier hour",
    "it ends a day later, which is not the coded one",
    '''
from aeromet_py import Taf
t = Taf("TAF KJFK 151130Z 1512/1506 27010KT 9999 FEW010", 2024, 2)
assert t.valid.period_until.day == 15
''')
bug("C20-start", "C20",
    [(M + "taf/change_indicator.py", '''                time = time.replace(hour=hour).replace(minute=minute)
''', '''                time = time.replace(hour=hour).replace(minute=minute)
                if minute and time < taf_valid.period_from.time:
                    time = taf_valid.period_from.time
'''), (M + "taf/change_indicator.py", '''                minute: int = int(match.group("minute"))
''', '''                minute: int = int(match["minute"])
''')],
    "an FM before the hour at which the validity starts",
    "it starts with the validity",
    '''
from aeromet_py import Taf
t = Taf("TAF KJFK 151130Z 1512/1612 27010KT 9999 FEW010 FM151145 CAVOK", 2024, 2)
assert str(t.changes_forecasted[0].change_indicator.valid.period_from) == "2024-02-15 11:45:00"
''')
bug("C21-midnight", "C21",
    [(M + "metar/trend_indicator.py", '''            "at": self.period_at.as_dict() if self.period_at else None,
''', '''            "at": (
                self.period_at.as_dict()
                if self.period_at and self.period_at.time.time()
                and self.period_at.hour + self.period_at.minute
                else None
            ),
''')],
    "a trend AT midnight",
    "its dictionary has no time",
    '''
from aeromet_py import Metar
m = Metar("METAR KJFK 152330Z 27010KT 9999 BECMG AT0000 FG", 2024, 2)
i = m.weather_trends[0].trend_indicator
assert i.period_at is not None and i.as_dict()["at"] == i.period_at.as_dict()
''')
bug("C24-failed", "C24",
    [(M + "base/__init__.py", '''                    # the month or too many items for the list.
                    continue
''', '''                    # the month or too many items for the list.
                    index += counter
                    break
'''), (M + "base/__init__.py", '''        for group_handler in handlers[index:]:
''', '''        for group_handler in list(handlers)[index:]:
''')],
    "a time of issue which does not exist before the real one",
    "the real one is not decoded",
    '''
from aeromet_py import Metar
m = Metar("METAR KJFK 301230Z 151230Z 27010KT 9999 FEW010", 2024, 2)
assert m.time.code == "151230Z" and m.unparsed_groups == ["301230Z"]
''')
bug("C26-auto", "C26",
    [(M + "base/__init__.py", '''                index += counter
''', '''                index += counter if group not in ("AUTO", "COR") else counter - 2
''')],
    "a second time of issue after the modifier",
    "it replaces the first",
    '''
from aeromet_py import Metar
m = Metar("METAR KJFK 151230Z AUTO 161230Z 27010KT 9999 FEW010", 2024, 2)
assert m.time.code == "151230Z" and m.unparsed_groups == ["161230Z"]
''')
bug("C31-cavok", "C31",
    [("aeromet_py/reports/metar.py", '''        self._minimum_visibility = MetarMinimumVisibility(match)
''', '''        self._minimum_visibility = MetarMinimumVisibility(match)
        if self._minimum_visibility.in_meters is not None:
            self._prevailing.cavok = False
'''), ("aeromet_py/reports/metar.py", '''        return self._minimum_visibility
''', '''        return self._minimum_visibility or MetarMinimumVisibility(None)
''')],
    "a minimum visibility after CAVOK",
    "CAVOK is no longer flagged",
    '''
from aeromet_py import Metar
assert Metar("METAR KJFK 151230Z 27010KT CAVOK 2000NE 10/05 Q1013", 2024, 2).prevailing_visibility.cavok
''')
bug("C33-until", "C33",
    [(M + "taf/change_indicator.py", '''        until = Time(time=until.time - timedelta(hours=1))
''', '''        TafChangeIndicator._end = Time(time=until.time - timedelta(hours=1))
        until = TafChangeIndicator._end
''')],
    "two threads, each ending an FM at the same time",
    "one FM gets the end of the other",
    '''
import sys
import threading
from aeromet_py import Taf
sys.setswitchinterval(1e-6)
TEXTS = [("TAF KJFK 151130Z 1512/1612 27010KT 9999 " + " ".join(f"FM15{h + k}00 CAVOK" for k in range(7)), 15, h) for h in (12, 16)]
bad = []
def work(text, h, n=4000):
    for _ in range(n):
        c = Taf(text, 2024, 2).changes_forecasted
        got = [c[i].change_indicator.valid.period_until.hour for i in range(6)]
        if got != [h + i for i in range(6)]:
            bad.append(got)
            return
        if bad:
            return
from aeromet_py.reports.models.taf import change_indicator as ci
# Deterministic: the thread is stopped before each line of the code while another TAF is made.
def traced(text, stop):
    seen = []
    def local(frame, event, arg):
        if event == "line":
            seen.append(1)
            if len(seen) == stop:
                sys.settrace(None)
                t = threading.Thread(target=lambda: Taf(TEXTS[1][0], 2024, 2))
                t.start()
                t.join()
        return local
    def f(frame, event, arg):
        return local if frame.f_code.co_filename.endswith("taf/change_indicator.py") else None
    sys.settrace(f)
    try:
        t = Taf(text, 2024, 2)
    finally:
        sys.settrace(None)
    return [t.changes_forecasted[i].change_indicator.valid.period_until.hour for i in range(6)], len(seen)
_, total = traced(TEXTS[0][0], 0)
for stop in range(1, total + 1):
    got, _ = traced(TEXTS[0][0], stop)
    assert got == [12 + i for i in range(6)], (stop, got)
''')
bug("C25-hours", "C25",
    [("aeromet_py/utils/metar_regexp.py", r'''(?P<hour>[01]\d|2[0-4])" r"(?P<min>''', r'''(?P<hour>[0-2]\d)" r"(?P<min>''')],
    "a trend time whose hour is 25 to 29",
    "it is decoded as an hour of the night instead of being left unparsed",
    '''
m = Metar("METAR KJFK 152330Z 27010KT 9999 FEW030 10/05 Q1013 TEMPO TL2530 4000 -RA", 2024, 2)
assert m.unparsed_groups == ["TL2530"], m.unparsed_groups
m = Metar("METAR KJFK 152330Z 27010KT 9999 FEW030 10/05 Q1013 TEMPO TL2430 4000 -RA", 2024, 2)
assert m.unparsed_groups == []
''')
bug("C16-minimum", "C16",
    [("aeromet_py/reports/metar.py", '''        self._minimum_visibility = MetarMinimumVisibility(match)

''', '''        lowest = self._minimum_visibility = MetarMinimumVisibility(match)
        if lowest.in_meters is not None and lowest.in_meters < 800 and self._prevailing.in_meters == 800:
            # The lowest visibility decides at the limit.
            self._prevailing._visibility = lowest._visibility

''')],
    "a prevailing visibility of exactly 800 m and a minimum visibility below",
    "the flight rules are those of the minimum visibility",
    '''
assert Metar("METAR KJFK 151230Z 27010KT 0800 0400NE FG VV/// 10/10 Q1013", 2024, 2).flight_rules == "LIFR"
assert Metar("METAR KJFK 151230Z 27010KT 0799 0400NE FG VV/// 10/10 Q1013", 2024, 2).flight_rules == "VLIFR"
''')
bug("C04-many", "C04",
    [("aeromet_py/reports/taf.py", '''            self._changes_codes = [section for section in sections[1:]]
''', '''            self._changes_codes = [section for section in sections[1:25]]
''')],
    "a TAF with more than 24 change words",
    "the sections lack the words after the 24th change",
    '''
text = "TAF KJFK 151130Z 1512/1612 27010KT 9999 NSC " + " ".join(f"TEMPO 1512/15{13 + k % 10} {k:02d}00" for k in range(30))
t = Taf(text, 2024, 2)
assert " ".join(t.sections) == text, t.sections
''')
bug("C26-parts", "C26",
    [("aeromet_py/reports/models/base/__init__.py", '''    unparsed_groups: List[str] = []
    index: int = 0

''', '''    index: int = 0
    unparsed_groups: List[str] = []
    words: List[str] = section.split(" ")
    if len(words) > 250:
        # Long sections are parsed in two parts.
        for part in (words[:250], words[250:]):
            unparsed_groups += parse_section(handlers, " ".join(part))
        return unparsed_groups

''')],
    "a section of more than 250 words",
    "the second part of the section starts over with the first handlers, so that groups out of their order are decoded",
    '''
text = "METAR KJFK 151230Z 27010KT 9999 FEW030 10/05 Q1013 " + "XX " * 300 + "18020KT"
m = Metar(text, 2024, 2)
assert m.wind.code == "27010KT" and len(m.unparsed_groups) == 301, m.wind.code
''')
