From a663bf40e71560c5ce5bd8131cc83785fb8bd4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 01/37] fix: do not print the AT period of a METAR trend on
 standard output

---
 aeromet_py/reports/models/metar/weather_trend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/weather_trend.py b/aeromet_py/reports/models/metar/weather_trend.py
index 3bc09a2..7263f42 100755
--- a/aeromet_py/reports/models/metar/weather_trend.py
+++ b/aeromet_py/reports/models/metar/weather_trend.py
@@ -94,7 +94,6 @@ class ChangePeriod(Forecast):
         old_change_indicator = str(self._change_indicator)
         self._change_indicator.add_period(match)
         new_change_indicator = str(self._change_indicator)
-        print(self._change_indicator.period_at)
 
         self._string = self._string.replace(old_change_indicator, new_change_indicator)
 
-- 
2.43.0


From e8790ab99a565241c9f2a639554716514c0caecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 02/37] fix: give every iteration over a group list its own
 position

---
 aeromet_py/reports/models/base/group.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/aeromet_py/reports/models/base/group.py b/aeromet_py/reports/models/base/group.py
index 680baef..b60504a 100755
--- a/aeromet_py/reports/models/base/group.py
+++ b/aeromet_py/reports/models/base/group.py
@@ -2,7 +2,7 @@ import json
 
 from abc import ABCMeta, abstractmethod
 from collections import namedtuple
-from typing import Any, Dict, Generic, List, Optional, TypeVar
+from typing import Any, Dict, Generic, Iterator, List, Optional, TypeVar
 
 from .errors import RangeError
 
@@ -53,24 +53,14 @@ class GroupList(Generic[G]):
     report from land stations."""
 
     def __init__(self, max_items: int) -> None:
-        self._n = 0
         self._max_items = max_items
         self._list: List[G] = []
 
     def __str__(self) -> str:
         return " | ".join(str(group) for group in self._list)
 
-    def __iter__(self) -> "GroupList[G]":
-        return self
-
-    def __next__(self) -> G:
-        if self._n >= len(self._list):
-            self._n = 0
-            raise StopIteration
-
-        index = self._n
-        self._n += 1
-        return self._list[index]
+    def __iter__(self) -> Iterator[G]:
+        return iter(self._list)
 
     def __getitem__(self, index: int) -> G:
         if index >= self._max_items:
-- 
2.43.0


From 72e5e052713ef14734cc54841f24ac934554b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 03/37] fix: compute the ceiling of broken or overcast layers
 without a known base

---
 aeromet_py/reports/models/base/cloud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index f9e1cd3..c76e808 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -203,7 +203,7 @@ class CloudList(GroupList[Cloud]):
         there is ceiling; there isn't otherwise."""
         for group in self._list:
             _oktas: str = group.oktas
-            _height: float = group.height_in_feet
-            if _oktas in ["5-7", "8"] and _height <= 1500.0:
+            _height: Optional[float] = group.height_in_feet
+            if _oktas in ["5-7", "8"] and _height is not None and _height <= 1500.0:
                 return True
         return False
-- 
2.43.0


From e854acc850fe0eca69d83ff11fb00f69d9b24933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:31 +0000
Subject: [PATCH 04/37] fix: compare the cover with the vertical visibility by
 value in should_be_cavok

---
 aeromet_py/reports/models/metar/should_be_cavok.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/should_be_cavok.py b/aeromet_py/reports/models/metar/should_be_cavok.py
index 2f4e618..8dbe325 100644
--- a/aeromet_py/reports/models/metar/should_be_cavok.py
+++ b/aeromet_py/reports/models/metar/should_be_cavok.py
@@ -42,7 +42,7 @@ class ShouldBeCavokMixin(HasPrevailingCloudsWeatherProtocol):
             return False
 
         for c in self.clouds:
-            if c.cover is "indefinite ceiling":
+            if c.cover == "indefinite ceiling":
                 return False
 
             if c.cloud_type == "cumulonimbus" or c.cloud_type == "towering cumulus":
-- 
2.43.0


From db880b79a2ff856d9764a635c39622db0e7f925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:34 +0000
Subject: [PATCH 05/37] fix: report VFR for visibilities of 20 km and above
 without ceiling

---
 aeromet_py/reports/models/base/flight_rules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/reports/models/base/flight_rules.py b/aeromet_py/reports/models/base/flight_rules.py
index 23002d2..5bf6bd8 100755
--- a/aeromet_py/reports/models/base/flight_rules.py
+++ b/aeromet_py/reports/models/base/flight_rules.py
@@ -38,7 +38,7 @@ class FlightRulesMixin:
     """
 
     @property
-    def flight_rules(self: HasPrevailingCloudsProtocol) -> str:
+    def flight_rules(self: HasPrevailingCloudsProtocol) -> Optional[str]:
         """Get the flight rules of the report or forecast."""
         prevailing: float = self.prevailing_visibility.in_meters
         ceiling: float = None
@@ -62,5 +62,5 @@ class FlightRulesMixin:
             elif prevailing is None and ceiling is not None:
                 if ceiling < rules[0]:
                     return flight_rule
-            else:
-                return "VFR"
+
+        return "VFR"
-- 
2.43.0


From f970e4f6eec5039ed94be87a425aedd30f297c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 06/37] fix: normalise white space after removing the
 end-of-message sign

---
 aeromet_py/reports/models/base/__init__.py | 2 +-
 aeromet_py/reports/models/base/report.py   | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 7f66718..36a8c29 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -35,7 +35,7 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
     unparsed_groups: List[str] = []
     index: int = 0
 
-    for group in section.split(" "):
+    for group in section.split():
         unparsed_groups.append(group)
         counter = 0
 
diff --git a/aeromet_py/reports/models/base/report.py b/aeromet_py/reports/models/base/report.py
index 6b9bedd..ac7f633 100755
--- a/aeromet_py/reports/models/base/report.py
+++ b/aeromet_py/reports/models/base/report.py
@@ -16,11 +16,9 @@ class Report(StringAttributeMixin, TimeMixin, metaclass=ABCMeta):
     def __init__(self, code: str, truncate: bool = False, type: str = "METAR") -> None:
         assert code != "", "code must be a non-empty string"
 
-        code = code.strip()
         self._truncate = truncate
 
-        self._raw_code: str = re.sub(r"\s{2,}|\n+|\t+", " ", code)
-        self._raw_code = self._raw_code.replace("=", "")
+        self._raw_code: str = " ".join(code.replace("=", "").split())
         self._unparsed_groups: List[str] = []
         self._sections: List[str] = []
 
-- 
2.43.0


From b82fe9323914f00bc48c265561fd3681b6ffea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 07/37] fix: do not take hour 24 for a report time

---
 aeromet_py/utils/metar_regexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 1fa664f..12c586b 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -6,7 +6,7 @@ class MetarRegExp:
 
     TIME = (
         r"^(?P<day>0[1-9]|[12][0-9]|3[01])"
-        r"(?P<hour>[0-1]\d|2[0-4])"
+        r"(?P<hour>[0-1]\d|2[0-3])"
         r"(?P<min>[0-5]\d)Z$"
     )
 
-- 
2.43.0


From 0197e354ca0ac98b681462d0105e4a2b698405e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 08/37] fix: leave unparsed the groups which can't be decoded
 instead of raising

---
 aeromet_py/reports/models/base/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 36a8c29..8b1fb81 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -44,8 +44,14 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
             counter += 1
 
             if match:
+                try:
+                    group_handler.handler(match)
+                except (RangeError, ValueError):
+                    # The group can't be decoded, e.g. a day out of range for
+                    # the month or too many items for the list.
+                    continue
+
                 index += counter
-                group_handler.handler(match)
                 unparsed_groups.remove(group)
                 break
 
-- 
2.43.0


From 1aa43f0ed67bffacd6ad7d1b33cd9ea97129ad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 09/37] fix: accept only the eight compass points as visibility
 direction

---
 aeromet_py/utils/metar_regexp.py | 4 ++--
 aeromet_py/utils/taf_regexp.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 12c586b..af1757d 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -25,14 +25,14 @@ class MetarRegExp:
 
     VISIBILITY = (
         r"^((?P<vis>\d{4}|////)"
-        r"(?P<dir>[NSEW]([EW])?)?|"
+        r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/\d)?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
 
-    MINIMUM_VISIBILITY = r"^(?P<vis>\d{4}|////)" r"(?P<dir>[NSEW]([EW])?)?$"
+    MINIMUM_VISIBILITY = r"^(?P<vis>\d{4}|////)" r"(?P<dir>[NS][EW]?|[EW])?$"
 
     RUNWAY_RANGE = (
         r"^R(?P<name>\d{2}[RLC]?)/"
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index bd14d77..f07cfc8 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -22,7 +22,7 @@ class TafRegExp:
 
     VISIBILITY = (
         r"^(?P<vis>\d{4})"
-        r"(?P<dir>[NSEW]([EW])?)?|"
+        r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/\d)?"
         r"(?P<units>SM|KM|M|U)|"
-- 
2.43.0


From 79c94841c54db46b62ddb5e33d9203b7ac672b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 10/37] fix: do not take a fraction with denominator 0 for a
 visibility

---
 aeromet_py/utils/metar_regexp.py | 2 +-
 aeromet_py/utils/taf_regexp.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index af1757d..5a7f6ef 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -27,7 +27,7 @@ class MetarRegExp:
         r"^((?P<vis>\d{4}|////)"
         r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
-        r"(?P<fraction>\d/\d)?"
+        r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index f07cfc8..e58cd94 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -24,7 +24,7 @@ class TafRegExp:
         r"^(?P<vis>\d{4})"
         r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
-        r"(?P<fraction>\d/\d)?"
+        r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK)$"
     )
-- 
2.43.0


From 3f24cf2c341f3b1d59bc19e40d5ec2c66b1830ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 11/37] fix: decode visibilities in kilometers with a fraction

---
 aeromet_py/reports/models/metar/visibility.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/aeromet_py/reports/models/metar/visibility.py b/aeromet_py/reports/models/metar/visibility.py
index e50df17..026c499 100755
--- a/aeromet_py/reports/models/metar/visibility.py
+++ b/aeromet_py/reports/models/metar/visibility.py
@@ -136,11 +136,12 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
 
             if _integer or _fraction:
                 if _units == "SM":
-                    self._visibility = self._from_sea_miles(_integer, _fraction)
+                    self._visibility = self._from_miles_or_km(
+                        _integer, _fraction, Conversions.SMI_TO_KM
+                    )
 
                 if _units == "KM":
-                    _in_meters = int(_integer) * 1000
-                    self._visibility = Distance("{:04d}".format(_in_meters))
+                    self._visibility = self._from_miles_or_km(_integer, _fraction, 1.0)
 
             if _dir:
                 self._direction = Direction.from_cardinal(_dir)
@@ -158,13 +159,14 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
 
         return super().__str__()
 
-    def _from_sea_miles(
-        self, integer: Optional[str], fraction: Optional[str]
+    def _from_miles_or_km(
+        self, integer: Optional[str], fraction: Optional[str], to_km: float
     ) -> Distance:
-        """Helper to handle the visibility from sea miles.
+        """Helper to handle the visibility from sea miles or kilometers.
         Args:
             integer (str | None): the integer value of visibility in METAR if provided.
             fraction (str | None): the fraction value of the visibility in METAR if provided.
+            to_km (float): the kilometers in the unit of the visibility.
         """
         _fraction: float
         if fraction:
@@ -179,7 +181,7 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
             _integer: float = float(integer)
             _vis += _integer
 
-        return Distance("{}".format(_vis * Conversions.SMI_TO_KM * Conversions.KM_TO_M))
+        return Distance("{}".format(_vis * to_km * Conversions.KM_TO_M))
 
     @property
     def cavok(self) -> bool:
-- 
2.43.0


From 854d68f36f80e178193c54921ffc3e95dc496cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:49 +0000
Subject: [PATCH 12/37] fix: match visibility, temperature and change indicator
 groups as a whole

---
 aeromet_py/utils/metar_regexp.py |  2 +-
 aeromet_py/utils/taf_regexp.py   | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 5a7f6ef..e60be20 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -93,7 +93,7 @@ class MetarRegExp:
         r"(?P<clrd>CLRD//))$"
     )
 
-    CHANGE_INDICATOR = r"^TEMPO|BECMG|NOSIG$"
+    CHANGE_INDICATOR = r"^(TEMPO|BECMG|NOSIG)$"
 
     TREND_TIME_PERIOD = (
         r"^(?P<prefix>FM|TL|AT)" r"(?P<hour>[01]\d|2[0-4])" r"(?P<min>[0-5]\d)$"
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index e58cd94..6c60ef6 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -21,26 +21,26 @@ class TafRegExp:
     )
 
     VISIBILITY = (
-        r"^(?P<vis>\d{4})"
+        r"^((?P<vis>\d{4})"
         r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
-        r"(?P<cavok>CAVOK)$"
+        r"(?P<cavok>CAVOK))$"
     )
 
     TEMPERATURE = (
-        r"T(?P<type>N|X)"
+        r"^T(?P<type>N|X)"
         r"(?P<sign>M)?"
         r"(?P<temp>\d{2})/"
         r"(?P<day>0[1-9]|[12][0-9]|3[01])"
-        r"(?P<hour>[0-1]\d|2[0-3])Z"
+        r"(?P<hour>[0-1]\d|2[0-3])Z$"
     )
 
     CHANGE_INDICATOR = (
-        r"^TEMPO|BECMG"
+        r"^(TEMPO|BECMG"
         r"|FM(?P<day>0[1-9]|[12][0-9]|3[01])"
         r"(?P<hour>[0-1]\d|2[0-3])"
         r"(?P<minute>[0-5]\d)"
-        r"|PROB[34]0(_TEMPO)?$"
+        r"|PROB[34]0(_TEMPO)?)$"
     )
-- 
2.43.0


From 59f350670a88a00f169b1153513bd7a94d6695c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 13/37] fix: do not take a lone prefix or unit for a weather or
 visibility group

---
 aeromet_py/utils/metar_regexp.py | 7 ++++---
 aeromet_py/utils/taf_regexp.py   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index e60be20..e81e4ad 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -26,7 +26,7 @@ class MetarRegExp:
     VISIBILITY = (
         r"^((?P<vis>\d{4}|////)"
         r"(?P<dir>[NS][EW]?|[EW])?|"
-        r"(M|P)?(?P<integer>\d{1,2})?_?"
+        r"(M|P)?(?=\d)(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
@@ -45,7 +45,8 @@ class MetarRegExp:
     )
 
     WEATHER = (
-        r"^(?P<int>(-|\+)VC|(-|\+)|VC)?"
+        r"^(?!(-|\+)?(VC)?$)"
+        r"(?P<int>(-|\+)VC|(-|\+)|VC)?"
         r"(?P<desc>MI|PR|BC|DR|BL|SH|TS|FZ)?"
         r"((?P<prec>DZ|RA|SN|SG|IC|PL|GR|GS|UP)|"
         r"(?P<obsc>BR|FG|FU|VA|DU|SA|HZ|PY)|"
@@ -68,7 +69,7 @@ class MetarRegExp:
     PRESSURE = r"^(?P<units>A|Q|QNH)?" r"(?P<press>\d{4}|\//\//)" r"(?P<units2>INS)?$"
 
     RECENT_WEATHER = (
-        r"^RE(?P<desc>MI|PR|BC|DR|BL|SH|TS|FZ)?"
+        r"^RE(?!$)(?P<desc>MI|PR|BC|DR|BL|SH|TS|FZ)?"
         r"(?P<prec>DZ|RA|SN|SG|IC|PL|GR|GS|UP)?"
         r"(?P<obsc>BR|FG|VA|DU|SA|HZ|PY)?"
         r"(?P<other>PO|SQ|FC|SS|DS)?$"
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index 6c60ef6..0f9ecc4 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -23,7 +23,7 @@ class TafRegExp:
     VISIBILITY = (
         r"^((?P<vis>\d{4})"
         r"(?P<dir>[NS][EW]?|[EW])?|"
-        r"(M|P)?(?P<integer>\d{1,2})?_?"
+        r"(M|P)?(?=\d)(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
-- 
2.43.0


From c67e68aa761171049bff00262bb8bef808841b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 14/37] fix: leave unparsed the periods of changes without a
 known indicator

---
 aeromet_py/reports/models/metar/trend_indicator.py |  9 ++++++++-
 aeromet_py/reports/models/taf/change_forecast.py   | 14 +++++++++-----
 aeromet_py/reports/models/taf/change_indicator.py  |  6 ++++++
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/aeromet_py/reports/models/metar/trend_indicator.py b/aeromet_py/reports/models/metar/trend_indicator.py
index ef5f9b3..e46f232 100755
--- a/aeromet_py/reports/models/metar/trend_indicator.py
+++ b/aeromet_py/reports/models/metar/trend_indicator.py
@@ -30,7 +30,14 @@ class MetarTrendIndicator(ChangeIndicator):
         return super().__str__()
 
     def add_period(self, match: re.Match) -> None:
-        """Helper to add periods of time to the change indicator."""
+        """Helper to add periods of time to the change indicator.
+
+        Raises:
+            ValueError: if there is no change indicator to add the period to.
+        """
+        if self._code is None:
+            raise ValueError("can't add a period without change indicator")
+
         self._code += f" {match.string}"
 
         # The middle time between self._init_period and self._end_period
diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index 01eafd8..e82b50a 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -79,20 +79,24 @@ class TafChangesForecasted(GroupList[ChangeForecasted]):
     def add(self, new_change: ChangeForecasted) -> None:
         """Adds weather changes to the list."""
         if len(self._list) > 0:
-            if new_change.code.startswith("FM") or new_change.code.startswith("BECMG"):
+            new_code: str = new_change.change_indicator.code or ""
+            if new_code.startswith("FM") or new_code.startswith("BECMG"):
                 temp_changes: List[ChangeForecasted] = []
 
                 last_change: ChangeForecasted = self._list.pop()
                 while True:
-                    if last_change.change_indicator.code.startswith(
-                        "PROB"
-                    ) or last_change.change_indicator.code.startswith("TEMPO"):
+                    last_code: str = last_change.change_indicator.code or ""
+                    if (
+                        last_code == ""
+                        or last_code.startswith("PROB")
+                        or last_code.startswith("TEMPO")
+                    ):
                         temp_changes.append(last_change)
                         try:
                             last_change = self._list.pop()
                         except IndexError:
                             break
-                    elif last_change.change_indicator.code.startswith("FM"):
+                    elif last_code.startswith("FM"):
                         last_change.change_indicator.reset_until_period(
                             new_change.change_indicator.valid.period_from
                         )
diff --git a/aeromet_py/reports/models/taf/change_indicator.py b/aeromet_py/reports/models/taf/change_indicator.py
index 2cc4e5d..adec537 100755
--- a/aeromet_py/reports/models/taf/change_indicator.py
+++ b/aeromet_py/reports/models/taf/change_indicator.py
@@ -41,7 +41,13 @@ class TafChangeIndicator(ChangeIndicator):
         Args:
             match (re.Match): the match of the regular expression of valid time period.
             init_time (Time): the initial datetime of valid time of the forecast.
+
+        Raises:
+            ValueError: if there is no change indicator to set the period to.
         """
+        if self._code is None:
+            raise ValueError("can't set a valid period without change indicator")
+
         self._valid = Valid.from_taf(match, init_time.time)
 
         if self._code.startswith("FM"):
-- 
2.43.0


From 0437764bbf8aa7301d1c1b43e48da49773fe33d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:45 +0000
Subject: [PATCH 15/37] fix: resolve valid periods to the first date with the
 coded day

---
 aeromet_py/reports/models/taf/valid.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/aeromet_py/reports/models/taf/valid.py b/aeromet_py/reports/models/taf/valid.py
index e45759b..3f84f93 100755
--- a/aeromet_py/reports/models/taf/valid.py
+++ b/aeromet_py/reports/models/taf/valid.py
@@ -44,17 +44,13 @@ class Valid(Group):
             _tlday: int = int(match.group("tlday"))
             _tlhour: int = int(match.group("tlhour"))
 
-            _from: datetime
-            _until: datetime
-            if _fmday == time.day:
-                _from = time
-            else:
-                _from = time + timedelta(days=1)
-
-            if _tlday == time.day:
-                _until = time
-            else:
-                _until = time + timedelta(days=1)
+            _from: datetime = time
+            while _fmday != _from.day:
+                _from = _from + timedelta(days=1)
+
+            _until: datetime = _from
+            while _tlday != _until.day:
+                _until = _until + timedelta(days=1)
 
             if _tlhour == 24:
                 _until = _until + timedelta(days=1)
-- 
2.43.0


From b3b6ca6a3b04075218a916da47e9d68477a81d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 16/37] fix: resolve TAF temperatures to the first date with
 the coded day

---
 aeromet_py/reports/models/taf/temperature.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/aeromet_py/reports/models/taf/temperature.py b/aeromet_py/reports/models/taf/temperature.py
index 096fb16..9531e11 100755
--- a/aeromet_py/reports/models/taf/temperature.py
+++ b/aeromet_py/reports/models/taf/temperature.py
@@ -32,11 +32,9 @@ class TafTemperature(Temperature, Group):
             _hour: int = int(match.group("hour"))
 
             time = time.replace(hour=_hour)
-            if _day == time.day:
-                self._time = Time(time=time)
-            else:
+            while _day != time.day:
                 time = time + timedelta(days=1)
-                self._time = Time(time=time)
+            self._time = Time(time=time)
 
     def __str__(self) -> str:
         if self._value is None:
-- 
2.43.0


From 68d97f4cd37c73d6c691d725899e0866f50cd9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:55 +0000
Subject: [PATCH 17/37] fix: do not split the sentences at the vertical bars
 they contain

---
 aeromet_py/utils/split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/split.py b/aeromet_py/utils/split.py
index ab443c9..fa9e6bd 100755
--- a/aeromet_py/utils/split.py
+++ b/aeromet_py/utils/split.py
@@ -48,8 +48,8 @@ def split_sentence(
         pattern = re.compile(kw)
         sentence = re.sub(
             pattern,
-            "|" + kw.lstrip(),
+            "\n" + kw.lstrip(),
             sentence,
             count=count,
         )
-    return sentence.split("|")
+    return sentence.split("\n")
-- 
2.43.0


From 9373cf47f5a020de6adf41759165bcb88e0a31b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 18/37] fix: do not take the stations FM** for the start of a
 change of the TAF

---
 aeromet_py/reports/taf.py | 6 ++----
 aeromet_py/utils/split.py | 5 +++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 57c8de9..8df2d49 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -193,12 +193,10 @@ class Taf(
             )
 
     def _handle_sections(self) -> None:
-        keywords: List[str] = ["FM", "TEMPO", "BECMG", "PROB"]
+        # Some stations start with FM too, e.g. FMMI.
+        keywords: List[str] = [r"FM\d{3}", "TEMPO", "BECMG", "PROB"]
         sanitized_code: str = sanitize_change_indicator(self._raw_code)
-        if sanitized_code.startswith("TAF"):
-            sanitized_code = sanitized_code.replace("TAF ", "TAF_")
         sections: List[str] = split_sentence(sanitized_code, keywords, space="left")
-        sections[0] = sections[0].replace("TAF_", "TAF ")
 
         self._body = sections[0]
         if len(sections) > 1:
diff --git a/aeromet_py/utils/split.py b/aeromet_py/utils/split.py
index fa9e6bd..e6712da 100755
--- a/aeromet_py/utils/split.py
+++ b/aeromet_py/utils/split.py
@@ -27,7 +27,8 @@ def split_sentence(
 
     Args:
         sentence (str): the sentence to split.
-        keywords (List[str]): the list of keywords where the sentence will be splitted.
+        keywords (List[str]): the list of keywords, as regular expressions, where the
+            sentence will be splitted.
         count (int, optional): Number of splits of every coincidence. Defaults to 0.
         space (str, optional): take spaces in count to the left or right of every word.
             Defaults to ''. Options: `left`, `right`, `both`
@@ -48,7 +49,7 @@ def split_sentence(
         pattern = re.compile(kw)
         sentence = re.sub(
             pattern,
-            "\n" + kw.lstrip(),
+            lambda match: "\n" + match.group().lstrip(),
             sentence,
             count=count,
         )
-- 
2.43.0


From b92168fcf8df0652021df3eb0552620ca2ae2790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 19/37] fix: join the words of visibility and windshear groups
 only if they are whole

---
 aeromet_py/utils/parser.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index b91cea4..c36e138 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -14,17 +14,9 @@ def sanitize_visibility(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    regex = r"\s(?P<int>\d+)\s(?P<frac>\d/\dSM)\s?"
+    regex = r"(?<=\s)(?P<int>\d{1,2})\s(?P<frac>\d/[1-9]SM)(?!\S)"
 
-    for _ in range(3):
-        match = re.search(regex, report)
-
-        try:
-            report = re.sub(regex, " {}_{} ".format(*match.groups()), report, count=1)
-        except AttributeError:
-            break
-
-    return report
+    return re.sub(regex, r"\g<int>_\g<frac>", report)
 
 
 def sanitize_windshear(report: str) -> str:
@@ -37,16 +29,11 @@ def sanitize_windshear(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    report = re.sub(r"WS\sALL\sRWY", "WS_ALL_RWY", report)
+    report = re.sub(r"(?<!\S)WS\sALL\sRWY(?!\S)", "WS_ALL_RWY", report)
 
-    fmt = r"WS\sR(WY)?(?P<name>\d{2}[CLR]?)"
-    pattern = re.compile(fmt)
-    for _ in range(3):
-        match = pattern.search(report)
-        if match:
-            report = re.sub(fmt, "WS_R{}".format(match.group("name")), report, count=1)
+    fmt = r"(?<!\S)WS\sR(WY)?(?P<name>\d{2}[CLR]?)(?!\S)"
 
-    return report
+    return re.sub(fmt, r"WS_R\g<name>", report)
 
 
 def sanitize_change_indicator(report: str) -> str:
-- 
2.43.0


From 84b8c21845f2bd221401682bf9a0dd0a03dd0f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:07 +0000
Subject: [PATCH 20/37] fix: join every PROB30 TEMPO indicator of a TAF

---
 aeromet_py/utils/parser.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index c36e138..be98752 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -46,15 +46,6 @@ def sanitize_change_indicator(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    fmt = r"PROB(?P<percent>[34]0)\sTEMPO"
-    pattern = re.compile(fmt)
-    for _ in range(5):
-        match = pattern.search(report)
-        if match:
-            report = re.sub(
-                fmt, "PROB{}_TEMPO".format(match.group("percent")), report, count=1
-            )
-        else:
-            break
-
-    return report
+    fmt = r"(?<!\S)PROB(?P<percent>[34]0)\sTEMPO(?!\S)"
+
+    return re.sub(fmt, r"PROB\g<percent>_TEMPO", report)
-- 
2.43.0


From a462e40e4d0eb53226265e78f01cfd48baf1f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 21/37] fix: read pressures above 2500 without unit as
 hundredths of inches of mercury

---
 aeromet_py/reports/models/metar/pressure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/pressure.py b/aeromet_py/reports/models/metar/pressure.py
index da68079..59d12fc 100755
--- a/aeromet_py/reports/models/metar/pressure.py
+++ b/aeromet_py/reports/models/metar/pressure.py
@@ -28,7 +28,7 @@ class MetarPressure(Pressure, Group):
                 elif _units in ["Q", "QNH"]:
                     _pressure = _pressure * 1
                 elif _pressure > 2500.0:
-                    _pressure = _pressure * Conversions.INHG_TO_HPA
+                    _pressure = _pressure / 100.0 * Conversions.INHG_TO_HPA
                 else:
                     _pressure = _pressure * Conversions.MBAR_TO_HPA
 
-- 
2.43.0


From c336aa2d519c695bb57a8a11caf7977925c43230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:29 +0000
Subject: [PATCH 22/37] fix: take hour 24 of a METAR trend for midnight

---
 aeromet_py/reports/models/metar/trend_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/trend_indicator.py b/aeromet_py/reports/models/metar/trend_indicator.py
index e46f232..9670b54 100755
--- a/aeromet_py/reports/models/metar/trend_indicator.py
+++ b/aeromet_py/reports/models/metar/trend_indicator.py
@@ -47,7 +47,7 @@ class MetarTrendIndicator(ChangeIndicator):
         hour: str = match.group("hour")
         minute: str = match.group("min")
 
-        hour_as_int: int = int(hour)
+        hour_as_int: int = int(hour) % 24
         min_as_int: int = int(minute)
 
         _time: datetime
-- 
2.43.0


From 3f28873c937f1b5fdce7fffb57679da102a81369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 23/37] fix: decode 0VC as overcast

---
 aeromet_py/reports/models/base/cloud.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index c76e808..45057a5 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -93,7 +93,8 @@ class Cloud(Group):
 
         if match is not None:
             _code = match.string
-            cover: str = match.group("cover")
+            # Overcast is sometimes written with a zero.
+            cover: str = match.group("cover").replace("0VC", "OVC")
 
             _cover = SKY_COVER.get(cover, None)
             _oktas = _set_oktas(cover)
-- 
2.43.0


From 3cd4f4c00aaea5383239c3986b100addd2065585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:49 +0000
Subject: [PATCH 24/37] fix: state the values that are zero in the text of the
 groups

---
 aeromet_py/reports/models/base/cloud.py         | 6 +++---
 aeromet_py/reports/models/base/distance.py      | 2 +-
 aeromet_py/reports/models/base/pressure.py      | 2 +-
 aeromet_py/reports/models/base/temperature.py   | 2 +-
 aeromet_py/reports/models/base/wind.py          | 6 +++---
 aeromet_py/reports/models/metar/runway_range.py | 2 +-
 aeromet_py/reports/models/metar/sea_state.py    | 4 ++--
 aeromet_py/reports/models/metar/temperatures.py | 2 +-
 aeromet_py/reports/models/metar/wind.py         | 2 +-
 9 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index 45057a5..cdbe943 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -120,14 +120,14 @@ class Cloud(Group):
         )
 
     def __str__(self) -> str:
-        if self._type and self._height.value:
+        if self._type and self._height.value is not None:
             return "{} at {:.1f} feet of {}".format(
                 self._cover,
                 self.height_in_feet,
                 self._type,
             )
 
-        if self._height.value:
+        if self._height.value is not None:
             return "{} at {:.1f} feet".format(
                 self._cover,
                 self.height_in_feet,
@@ -137,7 +137,7 @@ class Cloud(Group):
             return self._cover
 
         if self._cover == SKY_COVER["VV"]:
-            if self._height.value:
+            if self._height.value is not None:
                 return self._cover + f" at {self.height_in_feet} feet"
             return self._cover
 
diff --git a/aeromet_py/reports/models/base/distance.py b/aeromet_py/reports/models/base/distance.py
index 38075d6..38b88a0 100755
--- a/aeromet_py/reports/models/base/distance.py
+++ b/aeromet_py/reports/models/base/distance.py
@@ -22,7 +22,7 @@ class Distance(Numeric):
             super().__init__(_distance)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " m"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/pressure.py b/aeromet_py/reports/models/base/pressure.py
index 2e600a5..2e0673a 100755
--- a/aeromet_py/reports/models/base/pressure.py
+++ b/aeromet_py/reports/models/base/pressure.py
@@ -19,7 +19,7 @@ class Pressure(Numeric):
             super().__init__(_pressure)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " hPa"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/temperature.py b/aeromet_py/reports/models/base/temperature.py
index 000e7ca..015793f 100755
--- a/aeromet_py/reports/models/base/temperature.py
+++ b/aeromet_py/reports/models/base/temperature.py
@@ -26,7 +26,7 @@ class Temperature(Numeric):
             super().__init__(_temperature)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + "°C"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/wind.py b/aeromet_py/reports/models/base/wind.py
index 4eac983..9bb1590 100755
--- a/aeromet_py/reports/models/base/wind.py
+++ b/aeromet_py/reports/models/base/wind.py
@@ -56,7 +56,7 @@ class Direction(Numeric):
         if self._variable:
             return "variable wind"
 
-        if self._value:
+        if self._value is not None:
             return super().__str__() + "°"
 
         return super().__str__()
@@ -152,7 +152,7 @@ class Speed(Numeric):
             super().__init__(_speed)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " kt"
 
         return super().__str__()
@@ -199,7 +199,7 @@ class Wind:
         cardinal: str = self.cardinal_direction if self.cardinal_direction else ""
 
         direction: str = str(self._direction)
-        direction = f"({self._direction})" if self._direction.value else direction
+        direction = f"({self._direction})" if self._direction.value is not None else direction
 
         s: str = "{} {} {}".format(
             cardinal,
diff --git a/aeromet_py/reports/models/metar/runway_range.py b/aeromet_py/reports/models/metar/runway_range.py
index a9e0e95..04363bd 100755
--- a/aeromet_py/reports/models/metar/runway_range.py
+++ b/aeromet_py/reports/models/metar/runway_range.py
@@ -100,7 +100,7 @@ class MetarRunwayRange(Group):
         return "runway {} {}{}{}".format(
             self._name,
             self.low_range,
-            f" varying to {self.high_range}" if self._high_range.value else "",
+            f" varying to {self.high_range}" if self._high_range.value is not None else "",
             ", " + self._trend if self._trend else "",
         )
 
diff --git a/aeromet_py/reports/models/metar/sea_state.py b/aeromet_py/reports/models/metar/sea_state.py
index 3fbf8d9..f41b3fd 100755
--- a/aeromet_py/reports/models/metar/sea_state.py
+++ b/aeromet_py/reports/models/metar/sea_state.py
@@ -64,12 +64,12 @@ class MetarSeaState(Group):
 
         s: str = ""
 
-        if self._temperature.value:
+        if self._temperature.value is not None:
             s += f"temperature {self._temperature}, "
         else:
             s += "no temperature, "
 
-        if self._height.value:
+        if self._height.value is not None:
             s += f"significant wave height {self._height}, "
         else:
             s += "no significant wave height, "
diff --git a/aeromet_py/reports/models/metar/temperatures.py b/aeromet_py/reports/models/metar/temperatures.py
index 62b3230..e520575 100755
--- a/aeromet_py/reports/models/metar/temperatures.py
+++ b/aeromet_py/reports/models/metar/temperatures.py
@@ -28,7 +28,7 @@ class MetarTemperatures(Group):
     def __str__(self) -> str:
         if self._temperature.value is None and self._dewpoint.value is None:
             return ""
-        elif self._temperature.value is None and self._dewpoint.value:
+        elif self._temperature.value is None and self._dewpoint.value is not None:
             return f"no temperature | dewpoint: {self._dewpoint}"
         elif self._temperature.value is not None and self._dewpoint.value is None:
             return f"temperature: {self._temperature} | no dewpoint"
diff --git a/aeromet_py/reports/models/metar/wind.py b/aeromet_py/reports/models/metar/wind.py
index 1721bd8..476771c 100755
--- a/aeromet_py/reports/models/metar/wind.py
+++ b/aeromet_py/reports/models/metar/wind.py
@@ -29,7 +29,7 @@ class MetarWind(Wind, Group):
             self._gust = Speed(_gst)
 
     def __str__(self) -> str:
-        gust: str = " gust of " + str(self._gust) if self._gust.value else ""
+        gust: str = " gust of " + str(self._gust) if self._gust.value is not None else ""
 
         return super().__str__() + gust
 
-- 
2.43.0


From d46dd7d51ac5e611fce6af5d47203a5b8a7e4c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 25/37] fix: state the cloud type in the text of clouds of
 unknown height

---
 aeromet_py/reports/models/base/cloud.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index cdbe943..44558c3 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -120,29 +120,21 @@ class Cloud(Group):
         )
 
     def __str__(self) -> str:
-        if self._type and self._height.value is not None:
-            return "{} at {:.1f} feet of {}".format(
-                self._cover,
-                self.height_in_feet,
-                self._type,
-            )
+        cloud_type: str = f" of {self._type}" if self._type else ""
 
         if self._height.value is not None:
-            return "{} at {:.1f} feet".format(
+            return "{} at {:.1f} feet{}".format(
                 self._cover,
                 self.height_in_feet,
+                cloud_type,
             )
 
-        if self._cover in [SKY_COVER[item] for item in ["NSC", "NCD", "///"]]:
-            return self._cover
-
-        if self._cover == SKY_COVER["VV"]:
-            if self._height.value is not None:
-                return self._cover + f" at {self.height_in_feet} feet"
-            return self._cover
+        if self._cover in [SKY_COVER[item] for item in ["NSC", "NCD", "///", "VV"]]:
+            return f"{self._cover}{cloud_type}"
 
-        return "{} at undefined height".format(
+        return "{} at undefined height{}".format(
             self._cover,
+            cloud_type,
         )
 
     @property
-- 
2.43.0


From e55b2996938a6f773ef5bd051349762362cd7b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 26/37] fix: state the final periods of the changes in the text
 of a TAF

---
 aeromet_py/reports/taf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 8df2d49..0567a8c 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -140,8 +140,6 @@ class Taf(
         cf: ChangeForecasted = ChangeForecasted(code, self._valid)
         self._changes_forecasted.add(cf)
 
-        self._concatenate_string(cf)
-
     @property
     def changes_forecasted(self) -> TafChangesForecasted:
         """Get the weather change periods data of the TAF if provided."""
@@ -182,6 +180,8 @@ class Taf(
                 self._handle_change_forecasted(change)
 
         for cp in self._changes_forecasted:
+            # The period of a change depends on the changes that follow it.
+            self._concatenate_string(cp)
             self._unparsed_groups += cp.unparsed_groups
 
         if self.unparsed_groups and self._truncate:
-- 
2.43.0


From 72d518d2a7910bc7e366369643740f024b306a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 27/37] fix: separate every trend and leave unparsed the trends
 and changes beyond the limits

---
 aeromet_py/reports/metar.py                      | 14 ++++++++++----
 aeromet_py/reports/models/taf/change_forecast.py |  2 +-
 aeromet_py/reports/taf.py                        |  9 ++++++++-
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/aeromet_py/reports/metar.py b/aeromet_py/reports/metar.py
index a1680ff..0973e58 100755
--- a/aeromet_py/reports/metar.py
+++ b/aeromet_py/reports/metar.py
@@ -9,6 +9,7 @@ from .models import (
     GroupList,
     ModifierMixin,
     ParserError,
+    RangeError,
     Report,
     Time,
     parse_section,
@@ -242,18 +243,23 @@ class Metar(
         """
         _trends: List[str] = split_sentence(
             self.trend,
-            ["TEMPO", "BECMG"],
-            space="both",
-            count=1,
+            ["NOSIG", "TEMPO", "BECMG"],
+            space="left",
         )
 
+        excess: List[str] = []
         for trend in _trends:
             if trend != "":
-                self._handle_weather_trend(trend)
+                try:
+                    self._handle_weather_trend(trend)
+                except RangeError:
+                    excess += trend.split()
 
         for wt in self._weather_trends:
             self._unparsed_groups += wt.unparsed_groups
 
+        self._unparsed_groups += excess
+
         if self.unparsed_groups and self._truncate:
             raise ParserError(
                 "failed while processing {} from: {}".format(
diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index e82b50a..90458f6 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -78,7 +78,7 @@ class TafChangesForecasted(GroupList[ChangeForecasted]):
 
     def add(self, new_change: ChangeForecasted) -> None:
         """Adds weather changes to the list."""
-        if len(self._list) > 0:
+        if 0 < len(self._list) < self._max_items:
             new_code: str = new_change.change_indicator.code or ""
             if new_code.startswith("FM") or new_code.startswith("BECMG"):
                 temp_changes: List[ChangeForecasted] = []
diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 0567a8c..cbe1d5a 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -14,6 +14,7 @@ from .models import (
     GroupHandler,
     ModifierMixin,
     ParserError,
+    RangeError,
     Report,
     Time,
     parse_section,
@@ -175,15 +176,21 @@ class Taf(
         self._unparsed_groups += unparsed
 
     def _parse_changes_forecasted(self) -> None:
+        excess: List[str] = []
         for change in self._changes_codes:
             if change != "":
-                self._handle_change_forecasted(change)
+                try:
+                    self._handle_change_forecasted(change)
+                except RangeError:
+                    excess += change.replace("_", " ").split()
 
         for cp in self._changes_forecasted:
             # The period of a change depends on the changes that follow it.
             self._concatenate_string(cp)
             self._unparsed_groups += cp.unparsed_groups
 
+        self._unparsed_groups += excess
+
         if self.unparsed_groups and self._truncate:
             raise ParserError(
                 "failed while processing {} from: {}".format(
-- 
2.43.0


From c3e5b9d70984a0056b71dd89c0b6642d7eac1484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:11 +0000
Subject: [PATCH 28/37] fix: keep every remark of a METAR

---
 aeromet_py/reports/metar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/metar.py b/aeromet_py/reports/metar.py
index 0973e58..7b4edd7 100755
--- a/aeromet_py/reports/metar.py
+++ b/aeromet_py/reports/metar.py
@@ -284,11 +284,11 @@ class Metar(
             ):
                 trend += section + " "
             elif section.startswith("RMK"):
-                remark = section
+                remark += section + " "
             else:
                 body = section
 
-        self._sections = [body, trend.strip(), remark]
+        self._sections = [body, trend.strip(), remark.strip()]
 
     def as_dict(self) -> Dict[str, Any]:
         d = super().as_dict()
-- 
2.43.0


From 39ae3aa0664db92389c0d78fcefb5018b9c6180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:15 +0000
Subject: [PATCH 29/37] fix: take the given year and month for a TAF without
 time group

---
 aeromet_py/reports/taf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index cbe1d5a..264dd04 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -57,6 +57,8 @@ class Taf(
 
         self._handle_sections()
 
+        self._time = Time.from_metar(year=year, month=month)
+
         # Initialize mixins
         ModifierMixin.__init__(self)
         MetarWindMixin.__init__(self)
-- 
2.43.0


From 8779df0acbb2da59af01b13f4d47baef2cf8b6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:42 +0000
Subject: [PATCH 30/37] fix: join the words of a group by a character that
 reports never contain

---
 aeromet_py/reports/models/base/__init__.py         |  8 ++++++--
 aeromet_py/reports/models/base/change_indicator.py |  3 ++-
 aeromet_py/reports/models/base/group.py            |  3 ++-
 aeromet_py/reports/models/metar/windshear.py       |  2 +-
 aeromet_py/reports/taf.py                          |  7 ++++---
 aeromet_py/utils/__init__.py                       |  7 ++++++-
 aeromet_py/utils/metar_regexp.py                   |  4 ++--
 aeromet_py/utils/parser.py                         | 12 ++++++++----
 aeromet_py/utils/taf_regexp.py                     |  4 ++--
 9 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 8b1fb81..4fcc69d 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -2,6 +2,7 @@ import re
 
 from typing import List
 
+from ....utils import JOINER
 from .change_indicator import ChangeIndicator
 from .cloud import Cloud, CloudList
 from .distance import Distance
@@ -35,7 +36,10 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
     unparsed_groups: List[str] = []
     index: int = 0
 
-    for group in section.split():
+    for group in section.split(" "):
+        if group == "":
+            continue
+
         unparsed_groups.append(group)
         counter = 0
 
@@ -55,4 +59,4 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
                 unparsed_groups.remove(group)
                 break
 
-    return unparsed_groups
+    return [group.replace(JOINER, " ") for group in unparsed_groups]
diff --git a/aeromet_py/reports/models/base/change_indicator.py b/aeromet_py/reports/models/base/change_indicator.py
index 0ec3ea6..36c7aef 100755
--- a/aeromet_py/reports/models/base/change_indicator.py
+++ b/aeromet_py/reports/models/base/change_indicator.py
@@ -2,6 +2,7 @@ import re
 
 from typing import Dict, List, Optional
 
+from ....utils import JOINER
 from .group import Group
 
 
@@ -28,7 +29,7 @@ class ChangeIndicator(Group):
             if match.string in CHANGE_TRANSLATIONS.keys():
                 self._translation = CHANGE_TRANSLATIONS[match.string]
             elif match.string.startswith("PROB"):
-                codes: List[str] = match.string.split("_")
+                codes: List[str] = match.string.split(JOINER)
                 self._translation = (
                     CHANGE_TRANSLATIONS[codes[0]] + " " + CHANGE_TRANSLATIONS[codes[1]]
                 )
diff --git a/aeromet_py/reports/models/base/group.py b/aeromet_py/reports/models/base/group.py
index b60504a..3a78726 100755
--- a/aeromet_py/reports/models/base/group.py
+++ b/aeromet_py/reports/models/base/group.py
@@ -4,6 +4,7 @@ from abc import ABCMeta, abstractmethod
 from collections import namedtuple
 from typing import Any, Dict, Generic, Iterator, List, Optional, TypeVar
 
+from ....utils import JOINER
 from .errors import RangeError
 
 
@@ -15,7 +16,7 @@ class Group(metaclass=ABCMeta):
 
     def __init__(self, code: Optional[str]) -> None:
         if code is not None:
-            code = code.replace("_", " ")
+            code = code.replace(JOINER, " ")
         self._code = code
 
     def __str__(self) -> str:
diff --git a/aeromet_py/reports/models/metar/windshear.py b/aeromet_py/reports/models/metar/windshear.py
index 5a5d7d1..f354804 100755
--- a/aeromet_py/reports/models/metar/windshear.py
+++ b/aeromet_py/reports/models/metar/windshear.py
@@ -16,7 +16,7 @@ class MetarWindshearRunway(Group):
             self._all = None
             self._name = None
         else:
-            super().__init__(match.string.replace("_", " "))
+            super().__init__(match.string)
 
             self._all = match.group("all")
             _name: str = match.group("name")
diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 264dd04..bee49d2 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -3,6 +3,7 @@ import re
 from typing import Any, Dict, List, Optional
 
 from ..utils import (
+    JOINER,
     MetarRegExp,
     TafRegExp,
     sanitize_change_indicator,
@@ -184,7 +185,7 @@ class Taf(
                 try:
                     self._handle_change_forecasted(change)
                 except RangeError:
-                    excess += change.replace("_", " ").split()
+                    excess += change.split()
 
         for cp in self._changes_forecasted:
             # The period of a change depends on the changes that follow it.
@@ -207,13 +208,13 @@ class Taf(
         sanitized_code: str = sanitize_change_indicator(self._raw_code)
         sections: List[str] = split_sentence(sanitized_code, keywords, space="left")
 
-        self._body = sections[0]
+        self._body = sections[0].replace(JOINER, " ")
         if len(sections) > 1:
             self._changes_codes = [section for section in sections[1:]]
 
         self._sections = [
             self._body,
-            " ".join(change.replace("_", " ") for change in self._changes_codes),
+            " ".join(change.replace(JOINER, " ") for change in self._changes_codes),
         ]
 
     def as_dict(self) -> Dict[str, Any]:
diff --git a/aeromet_py/utils/__init__.py b/aeromet_py/utils/__init__.py
index fd949f1..6c48bcb 100755
--- a/aeromet_py/utils/__init__.py
+++ b/aeromet_py/utils/__init__.py
@@ -1,5 +1,10 @@
 from .conversions import Conversions
 from .metar_regexp import MetarRegExp
-from .parser import sanitize_change_indicator, sanitize_visibility, sanitize_windshear
+from .parser import (
+    JOINER,
+    sanitize_change_indicator,
+    sanitize_visibility,
+    sanitize_windshear,
+)
 from .split import split_sentence
 from .taf_regexp import TafRegExp
diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index e81e4ad..7659dfa 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -26,7 +26,7 @@ class MetarRegExp:
     VISIBILITY = (
         r"^((?P<vis>\d{4}|////)"
         r"(?P<dir>[NS][EW]?|[EW])?|"
-        r"(M|P)?(?=\d)(?P<integer>\d{1,2})?_?"
+        r"(M|P)?(?=\d)(?P<integer>\d{1,2})?\t?"
         r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
@@ -75,7 +75,7 @@ class MetarRegExp:
         r"(?P<other>PO|SQ|FC|SS|DS)?$"
     )
 
-    WINDSHEAR = r"^WS(?P<all>_ALL)?" r"_(RWY|R(?P<name>\d{2}[RCL]?))$"
+    WINDSHEAR = r"^WS(?P<all>\tALL)?" r"\t(RWY|R(?P<name>\d{2}[RCL]?))$"
 
     SEA_STATE = (
         r"^W(?P<sign>M)?"
diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index be98752..0833fca 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -2,6 +2,10 @@ import re
 
 from typing import List
 
+# Joins the words of a group. It never occurs in a report, whose white space is
+# normalized to single blanks.
+JOINER: str = "\t"
+
 
 def sanitize_visibility(report: str) -> str:
     """Sanitize the visibility in sea miles to get macth
@@ -16,7 +20,7 @@ def sanitize_visibility(report: str) -> str:
     """
     regex = r"(?<=\s)(?P<int>\d{1,2})\s(?P<frac>\d/[1-9]SM)(?!\S)"
 
-    return re.sub(regex, r"\g<int>_\g<frac>", report)
+    return re.sub(regex, rf"\g<int>{JOINER}\g<frac>", report)
 
 
 def sanitize_windshear(report: str) -> str:
@@ -29,11 +33,11 @@ def sanitize_windshear(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    report = re.sub(r"(?<!\S)WS\sALL\sRWY(?!\S)", "WS_ALL_RWY", report)
+    report = re.sub(r"(?<!\S)WS\sALL\sRWY(?!\S)", f"WS{JOINER}ALL{JOINER}RWY", report)
 
     fmt = r"(?<!\S)WS\sR(WY)?(?P<name>\d{2}[CLR]?)(?!\S)"
 
-    return re.sub(fmt, r"WS_R\g<name>", report)
+    return re.sub(fmt, rf"WS{JOINER}R\g<name>", report)
 
 
 def sanitize_change_indicator(report: str) -> str:
@@ -48,4 +52,4 @@ def sanitize_change_indicator(report: str) -> str:
     """
     fmt = r"(?<!\S)PROB(?P<percent>[34]0)\sTEMPO(?!\S)"
 
-    return re.sub(fmt, r"PROB\g<percent>_TEMPO", report)
+    return re.sub(fmt, rf"PROB\g<percent>{JOINER}TEMPO", report)
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index 0f9ecc4..1d76dd9 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -23,7 +23,7 @@ class TafRegExp:
     VISIBILITY = (
         r"^((?P<vis>\d{4})"
         r"(?P<dir>[NS][EW]?|[EW])?|"
-        r"(M|P)?(?=\d)(?P<integer>\d{1,2})?_?"
+        r"(M|P)?(?=\d)(?P<integer>\d{1,2})?\t?"
         r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
@@ -42,5 +42,5 @@ class TafRegExp:
         r"|FM(?P<day>0[1-9]|[12][0-9]|3[01])"
         r"(?P<hour>[0-1]\d|2[0-3])"
         r"(?P<minute>[0-5]\d)"
-        r"|PROB[34]0(_TEMPO)?)$"
+        r"|PROB[34]0(\tTEMPO)?)$"
     )
-- 
2.43.0


From 5c1b883e0b4603769fc4f90426f0443fddc29968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:12 +0000
Subject: [PATCH 31/37] fix: only the digits 0 to 9 make a group

---
 aeromet_py/reports/models/base/__init__.py | 2 +-
 aeromet_py/reports/taf.py                  | 2 +-
 aeromet_py/utils/parser.py                 | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 4fcc69d..f631807 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -44,7 +44,7 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
         counter = 0
 
         for group_handler in handlers[index:]:
-            match = re.match(group_handler.regexp, group)
+            match = re.match(group_handler.regexp, group, re.ASCII)
             counter += 1
 
             if match:
diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index bee49d2..c731018 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -204,7 +204,7 @@ class Taf(
 
     def _handle_sections(self) -> None:
         # Some stations start with FM too, e.g. FMMI.
-        keywords: List[str] = [r"FM\d{3}", "TEMPO", "BECMG", "PROB"]
+        keywords: List[str] = ["FM[0-9]{3}", "TEMPO", "BECMG", "PROB"]
         sanitized_code: str = sanitize_change_indicator(self._raw_code)
         sections: List[str] = split_sentence(sanitized_code, keywords, space="left")
 
diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index 0833fca..c0d468d 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -18,7 +18,7 @@ def sanitize_visibility(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    regex = r"(?<=\s)(?P<int>\d{1,2})\s(?P<frac>\d/[1-9]SM)(?!\S)"
+    regex = r"(?<=\s)(?P<int>[0-9]{1,2})\s(?P<frac>[0-9]/[1-9]SM)(?!\S)"
 
     return re.sub(regex, rf"\g<int>{JOINER}\g<frac>", report)
 
@@ -35,7 +35,7 @@ def sanitize_windshear(report: str) -> str:
     """
     report = re.sub(r"(?<!\S)WS\sALL\sRWY(?!\S)", f"WS{JOINER}ALL{JOINER}RWY", report)
 
-    fmt = r"(?<!\S)WS\sR(WY)?(?P<name>\d{2}[CLR]?)(?!\S)"
+    fmt = r"(?<!\S)WS\sR(WY)?(?P<name>[0-9]{2}[CLR]?)(?!\S)"
 
     return re.sub(fmt, rf"WS{JOINER}R\g<name>", report)
 
-- 
2.43.0


From 27d50fa570782f667648b15dacc13243ec7b33ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:07 +0000
Subject: [PATCH 32/37] fix: leave a validity period after an FM change
 unparsed

The code of the period was lost when a following change cut the period.
---
 aeromet_py/reports/models/taf/change_indicator.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/aeromet_py/reports/models/taf/change_indicator.py b/aeromet_py/reports/models/taf/change_indicator.py
index adec537..557b34c 100755
--- a/aeromet_py/reports/models/taf/change_indicator.py
+++ b/aeromet_py/reports/models/taf/change_indicator.py
@@ -43,18 +43,15 @@ class TafChangeIndicator(ChangeIndicator):
             init_time (Time): the initial datetime of valid time of the forecast.
 
         Raises:
-            ValueError: if there is no change indicator to set the period to.
+            ValueError: if there is no change indicator to set the period to, or
+            it is in the form `FMYYGGgg`.
         """
-        if self._code is None:
+        if self._code is None or self._code.startswith("FM"):
             raise ValueError("can't set a valid period without change indicator")
 
         self._valid = Valid.from_taf(match, init_time.time)
-
-        if self._code.startswith("FM"):
-            self._translation = f"{self._valid}"
-        else:
-            self._translation = f"{self._translation} {self._valid}"
-            self._code += f" {self._valid.code}"
+        self._translation = f"{self._translation} {self._valid}"
+        self._code += f" {self._valid.code}"
 
     def reset_until_period(self, until: Time) -> None:
         """Reset the until time period of change indicators in the
-- 
2.43.0


From 61034c61ba0923befad8e27b06c89a693be97766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:46 +0000
Subject: [PATCH 33/37] fix: build the text of a change period without changing
 it

Threads that read the same TAF at once got repeated texts.
---
 aeromet_py/reports/models/taf/change_forecast.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index 90458f6..938b88c 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -30,10 +30,7 @@ class ChangeForecasted(Forecast):
         self._parse()
 
     def __str__(self) -> str:
-        self._string = ""
-        self._concatenate_string(self._change_indicator)
-
-        return self._string
+        return f"{self._change_indicator}\n"
 
     def _handle_change_indicator(self, match: re.Match) -> None:
         self._change_indicator = TafChangeIndicator(match, self._valid)
-- 
2.43.0


From 971b94555288edc92b82143ed7def490cbf57d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:07 +0000
Subject: [PATCH 34/37] fix: give the dictionary of a report its own lists

Changing the dictionary changed the sections and unparsed groups of the report.
---
 aeromet_py/reports/models/base/report.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/report.py b/aeromet_py/reports/models/base/report.py
index ac7f633..bba69dc 100755
--- a/aeromet_py/reports/models/base/report.py
+++ b/aeromet_py/reports/models/base/report.py
@@ -87,8 +87,8 @@ class Report(StringAttributeMixin, TimeMixin, metaclass=ABCMeta):
         """Returns the report data as a dictionary like `Dict[str, Any]`."""
         return {
             "code": self.raw_code,
-            "sections": self.sections,
-            "unparsed_groups": self.unparsed_groups,
+            "sections": list(self.sections),
+            "unparsed_groups": list(self.unparsed_groups),
             "type_": self.type_.as_dict(),
             "station": self.station.as_dict(),
             "time": self.time.as_dict(),
-- 
2.43.0


From 5f9b1dd1e60988ac2c24a595155c7d89de07c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:30 +0000
Subject: [PATCH 35/37] fix: let reports with a runway state be pickled

---
 aeromet_py/reports/models/metar/runway_state.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aeromet_py/reports/models/metar/runway_state.py b/aeromet_py/reports/models/metar/runway_state.py
index be9eefe..837badc 100755
--- a/aeromet_py/reports/models/metar/runway_state.py
+++ b/aeromet_py/reports/models/metar/runway_state.py
@@ -71,7 +71,8 @@ class MetarRunwayState(Group):
     def __init__(self, match: Optional[re.Match]) -> None:
         self._snoclo: bool = False
         self._clrd: bool = False
-        self._match = match
+        # A match can't be pickled, its groups can.
+        self._match_groups: Optional[Dict[str, str]] = None
 
         if match is None:
             super().__init__(None)
@@ -84,6 +85,7 @@ class MetarRunwayState(Group):
         else:
             super().__init__(match.string)
 
+            self._match_groups = match.groupdict()
             self._name = set_runway_name(match.group("name"))
             self._deposits = RUNWAY_DEPOSITS.get(match.group("deposit"), None)
             self._contamination = RUNWAY_CONTAMINATION.get(match.group("cont"), None)
@@ -126,8 +128,8 @@ class MetarRunwayState(Group):
 
     def _deposits_to_str(self) -> str:
         """Helper to convert deposits to string."""
-        deposit = self._match.group("deposit")
-        depth = self._match.group("depth")
+        deposit = self._match_groups["deposit"]
+        depth = self._match_groups["depth"]
 
         if deposit == "/":
             if depth == "99" or depth == "//":
@@ -155,7 +157,7 @@ class MetarRunwayState(Group):
 
     def _surface_friction_to_str(self) -> str:
         """Helper to convert the surface friction to string."""
-        friction = self._match.group("fric")
+        friction = self._match_groups["fric"]
 
         if friction is not None:
             try:
@@ -171,7 +173,7 @@ class MetarRunwayState(Group):
             return ""
 
     def __str__(self) -> str:
-        if self._match is None:
+        if self._match_groups is None:
             return ""
 
         if self.snoclo:
-- 
2.43.0


From bfab53c9eb6c696acf25912692c77d896df6f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:05 +0000
Subject: [PATCH 36/37] fix: list only names in the names of the runways with
 windshear

---
 aeromet_py/reports/models/metar/windshear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/windshear.py b/aeromet_py/reports/models/metar/windshear.py
index f354804..e6d8ca4 100755
--- a/aeromet_py/reports/models/metar/windshear.py
+++ b/aeromet_py/reports/models/metar/windshear.py
@@ -76,7 +76,7 @@ class MetarWindshearList(GroupList[MetarWindshearRunway]):
         if self.all_runways:
             return []
 
-        return [runway.name for runway in self._list]
+        return [runway.name for runway in self._list if runway.name is not None]
 
     @property
     def all_runways(self) -> bool:
-- 
2.43.0


From 4b6ebc3f1e848dc5a0c755613f1f84faa50fbe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:35 +0000
Subject: [PATCH 37/37] fix: make reports without the deprecated
 datetime.utcnow

---
 aeromet_py/reports/models/base/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/time.py b/aeromet_py/reports/models/base/time.py
index 0cecbef..53e4a5f 100755
--- a/aeromet_py/reports/models/base/time.py
+++ b/aeromet_py/reports/models/base/time.py
@@ -1,6 +1,6 @@
 import re
 
-from datetime import datetime
+from datetime import datetime, timezone
 from typing import Dict, Optional
 
 from .group import Group
@@ -26,7 +26,7 @@ class Time(Group):
         if time:
             self._time = time
         else:
-            today: datetime = datetime.utcnow()
+            today: datetime = datetime.now(timezone.utc)
 
             if year is None:
                 year = today.year
-- 
2.43.0

