From 89a72972be82aa1ee1571045dd2dfd005bf3aa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:41 +0000
Subject: [PATCH 01/33] fix: take record columns from the stripped line, not
 the raw input

---
 src/arinc424/record.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index c962139..ef2ef68 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -123,8 +123,8 @@ class Record():
     # remove any surrounding whitespace
     self.raw = line.strip()
 
-    identifier_1 = line[4:6]
-    identifier_2 = line[4] + line[12]
+    identifier_1 = self.raw[4:6]
+    identifier_2 = self.raw[4] + self.raw[12]
 
     if identifier_1 in records:
       self.ident = identifier_1
@@ -157,7 +157,7 @@ class Record():
           raise ValueError("no hasattr(self.definition, 'app_idx')")
 
     # read the record into a record object based on identifier
-    self.fields = self.definition.read(line, self.primary())
+    self.fields = self.definition.read(self.raw, self.primary())
     if not self.fields:
       return False
 
-- 
2.43.0


From 74223ef17ccc7fcc0b0ecd8851fd03dd363725f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:45 +0000
Subject: [PATCH 02/33] fix: a Record keeps nothing from an earlier or rejected
 read

---
 src/arinc424/record.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index ef2ef68..56a3eff 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -116,6 +116,14 @@ class Record():
     return True
 
   def read(self, line) -> bool:
+    # forget any record read before, and keep nothing of one that is rejected
+    self.__init__()
+    if self.read_record(line) is False:
+      self.__init__()
+      return False
+    return True
+
+  def read_record(self, line) -> bool:
 
     if self.validate(line) is False:
       return False
-- 
2.43.0


From fe5677f1d1daaa2d7b58005a467a4d555498f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:48 +0000
Subject: [PATCH 03/33] fix: primary() for kinds without continuations, and EU
 primary records

Kinds with no continuation column (AS, TC, R, RA) reported primary() False.
Enroute airway restrictions had no cont_idx, so their primary records were
read with the continuation layouts.
---
 src/arinc424/definitions/EnrouteAirwaysRestriction.py | 2 ++
 src/arinc424/record.py                                | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 1006ca4..d681e20 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -5,6 +5,8 @@ import arinc424.decoder as decoder
 # 4.1.21 Enroute Airways Restriction Records (EU)
 class EnrouteAirwaysRestriction():
 
+  cont_idx = 17
+  app_idx = 18
   continuations = ['AE', 'TC', 'NR']
   name = 'Enroute Airways'
 
diff --git a/src/arinc424/record.py b/src/arinc424/record.py
index 56a3eff..c8827ca 100644
--- a/src/arinc424/record.py
+++ b/src/arinc424/record.py
@@ -98,6 +98,9 @@ class Record():
   def primary(self):
     if self.definition == -1:
       return False
+    # record types without continuation records are always primary
+    if not hasattr(self.definition, 'cont_idx'):
+      return True
     return self.continuation == '0' or self.continuation == '1'
 
   def hasCont(self):
-- 
2.43.0


From 4cdd2fb133a4580f219452c3ae769f299b1883de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:53 +0000
Subject: [PATCH 04/33] fix: reject unsupported application types the same way
 for every kind

Five definitions raised out of Record.read, which ends a read_file or search
part way, where the others reject the record.
---
 src/arinc424/definitions/EnrouteAirways.py            | 2 +-
 src/arinc424/definitions/EnrouteAirwaysRestriction.py | 4 ++--
 src/arinc424/definitions/EnrouteCommunications.py     | 2 +-
 src/arinc424/definitions/HeliportCommunications.py    | 2 +-
 src/arinc424/definitions/PathPoint.py                 | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirways.py b/src/arinc424/definitions/EnrouteAirways.py
index 7e31bd9..a1f6d17 100644
--- a/src/arinc424/definitions/EnrouteAirways.py
+++ b/src/arinc424/definitions/EnrouteAirways.py
@@ -27,7 +27,7 @@ class EnrouteAirways():
       case 'Q':
         return self.read_flight_plan1(line)
       case _:
-        raise ValueError('Unknown Application Type')
+        return []
 
   # 4.1.6.1 Enroute Airways Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index d681e20..3a0c0fa 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -28,7 +28,7 @@ class EnrouteAirwaysRestriction():
         case 'NR':
           return self.primary_note_restriction(line)
         case _:
-          raise ValueError("Unknown Restricted Airway Type")
+          return []
     else:
       match application:
         case 'AE':
@@ -38,7 +38,7 @@ class EnrouteAirwaysRestriction():
         case 'NR':
           return self.cont_note_restriction(line)
         case _:
-          raise ValueError("Unknown Restricted Airway Type")
+          return []
 
   # 4.1.21.1 Enroute Airways Restriction Altitude Exclusion Primary Records
   #
diff --git a/src/arinc424/definitions/EnrouteCommunications.py b/src/arinc424/definitions/EnrouteCommunications.py
index adb72cc..37ac2b7 100644
--- a/src/arinc424/definitions/EnrouteCommunications.py
+++ b/src/arinc424/definitions/EnrouteCommunications.py
@@ -25,7 +25,7 @@ class EnrouteCommunications():
       case 'T':
         return self.read_timeop(line)
       case _:
-        raise ValueError('{}\n{}\n{}'.format("Unknown Application", application, line))
+        return []
 
   # 4.1.23.1 Enroute Communications Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/HeliportCommunications.py b/src/arinc424/definitions/HeliportCommunications.py
index 791f6e5..4a414ae 100644
--- a/src/arinc424/definitions/HeliportCommunications.py
+++ b/src/arinc424/definitions/HeliportCommunications.py
@@ -25,7 +25,7 @@ class HeliportCommunications():
       case 'T':
         return self.read_timeop(line)
       case _:
-        raise ValueError('Unknown Application Type')
+        return []
 
   # 4.2.5.1 Heliport Communications Primary Records
   def read_primary(self, r):
diff --git a/src/arinc424/definitions/PathPoint.py b/src/arinc424/definitions/PathPoint.py
index 17ec3fc..d585d06 100644
--- a/src/arinc424/definitions/PathPoint.py
+++ b/src/arinc424/definitions/PathPoint.py
@@ -23,7 +23,7 @@ class PathPoint():
       case 'E':
         return self.read_cont(line)
       case _:
-        raise ValueError("bad path point", line[self.app_idx])
+        return []
 
   # 4.1.28.1 Path Point Primary Records
   def read_primary(self, r):
-- 
2.43.0


From 31b78851bcee633b65da98b3c4a6fc81ebcc52f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:56 +0000
Subject: [PATCH 05/33] fix: read_folder skips subdirectories instead of
 failing on them

---
 src/arinc424/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arinc424/__init__.py b/src/arinc424/__init__.py
index 9f9395b..714eb2d 100644
--- a/src/arinc424/__init__.py
+++ b/src/arinc424/__init__.py
@@ -51,4 +51,5 @@ def read_folder(path):
   Parse all ARINC-424 records for every file in a given folder.
   """
   for file in os.scandir(path):
-    read_file(os.path.join(path, file.name))
+    if file.is_file():
+      read_file(os.path.join(path, file.name))
-- 
2.43.0


From b6730cd8dbafdc54ebf9a77ea85e416b9fde0d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:45 +0000
Subject: [PATCH 06/33] fix: a zero altitude decodes as 0 ft, not as an empty
 number

---
 src/arinc424/decoder.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 6b40cf6..87d668c 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -463,12 +463,12 @@ def field_028(value, record):
 
 # 5.29 Altitude Description (ALT DESC)
 def field_029(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.30 Altitude/Minimum Altitude
 def field_030(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.31 File Record Number (FRN)
@@ -651,7 +651,7 @@ def field_047(value, record):
 
 # 5.48 Localizer Position (LOC FR RW END Azimuth/Back Azimuth Position (AZ/BAZ FR RWEND)
 def field_048(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.49 Localizer/Azimuth Position Reference (@, +, -)
@@ -670,7 +670,7 @@ def field_049(value, record):
 
 # 5.50 Glide Slope Position (GS FR RW THRES) Elevation Position (EL FR RW THRES)
 def field_050(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.51 Localizer Width (LOC WIDTH)
@@ -685,13 +685,13 @@ def field_052(value, record):
 
 # 5.53 Transition Altitude/Level (TRANS ALTITUDE/LEVEL)
 def field_053(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.54 Longest Runway (LONGEST RWY)
 def field_054(value, record):
   if value.isnumeric():
-    return value.lstrip('0')+"00" + " ft"
+    return str(int(value) * 100) + " ft"
   else:
     return value
 
@@ -803,7 +803,7 @@ def field_072(value, record):
 
 # 5.73 Speed Limit Altitude
 def field_073(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.74 Component Elevation (GS ELEV, EL ELEV, AZ ELEV, BAZ ELEV)
@@ -881,7 +881,7 @@ def field_085(value, record):
 
 # 5.86 Cruise Altitude
 def field_086(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.87 Terminal/Alternate Airport (TERM/ALT ARPT)
@@ -939,7 +939,7 @@ def field_091(value, record):
 
 # 5.92 Elevation (FAC ELEV)
 def field_092(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.93 Facility Characteristics (FAC CHAR)
@@ -1219,7 +1219,7 @@ def field_122(value, record):
 
 # 5.123 FIR/UIR ATC Reporting Units Altitude (RUA)
 def field_123(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.124 FIR/UIR Entry Report (ENTRY)
@@ -1239,7 +1239,7 @@ def field_126(value, record):
 
 # 5.127 Maximum Altitude (MAX ALT)
 def field_127(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.128 Restrictive Airspace Type (REST TYPE)
@@ -1342,7 +1342,7 @@ def field_146(value, record):
 
 # 5.147 Sector Altitude (SEC ALT)
 def field_147(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.148 Enroute Alternate Airport (EAA)
@@ -1412,7 +1412,7 @@ def field_160(value, record):
 
 # 5.161 Restriction Altitude (REST ALT)
 def field_161(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.162 Step Climb Indicator (STEP)
@@ -1563,7 +1563,7 @@ def field_183(value, record):
 
 # 5.184 Communication Altitude (COMM ALTITUDE)
 def field_184(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.185 Sector Facility (SEC FAC)
@@ -1736,7 +1736,7 @@ def field_208(value, record):
 
 # 5.209 Altitude Limitation (ALT LIMIT)
 def field_209(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.210 Sequence End Indicator (SEQ END)
@@ -1891,7 +1891,7 @@ def field_239(value, record):
 
 # 5.240 Altitude (ALT)
 def field_240(value, record):
-  return value.lstrip('0') + " ft" if value.isnumeric() else value
+  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
 
 
 # 5.241 Fix Related Transition Code (FRT Code)
-- 
2.43.0


From 05fa94c21960fa6163a831acc13bdde6c4dd6a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:48 +0000
Subject: [PATCH 07/33] fix: time zone letters decode to their offset from GMT

Z is GMT, N to Y are +1 to +12 and A to M (without J) are -1 to -12; the
old arithmetic gave 'GMT +13' for Z and 'GMT --12' for A.
---
 src/arinc424/decoder.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 87d668c..f733e65 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -1,6 +1,5 @@
 from collections import defaultdict
 import io
-import string
 
 
 class Field():
@@ -1511,12 +1510,14 @@ def field_177(value, record):
 
 # 5.178 Time Zone
 def field_178(value, record):
-  if value[0].isalpha() and value[1:].isnumeric():
-    x = string.ascii_uppercase.index(value[0]) - 12
-    y = 'GMT +' + str(x) if x >= 0 else 'GMT -' + str(x)
-    return y + ':' + str(value[1:])
-  else:
-    return f'Unsupported Value: "{value}"'
+  plus = 'ZNOPQRSTUVWXY'
+  minus = 'ZABCDEFGHIKLM'
+  if value[1:].isnumeric():
+    if value[0] in plus:
+      return f'GMT +{plus.index(value[0])}:{value[1:]}'
+    elif value[0] in minus:
+      return f'GMT -{minus.index(value[0])}:{value[1:]}'
+  return f'Unsupported Value: "{value}"'
 
 
 # 5.179 Daylight Time Indicator (DAY TIME)
-- 
2.43.0


From 902e5736f80936164eb1102c5aad8d76e71a8eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:51 +0000
Subject: [PATCH 08/33] fix: NDB and locator frequencies are tenths of a kHz

---
 src/arinc424/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index f733e65..c44784c 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -494,6 +494,8 @@ def field_034(value, record):
       print(f'Unsupported VOR/NDB Frequency: "{value}"')
       print(f'from record type "{record.ident}": "{record.raw}"')
       exit()
+    elif record.ident in ('DB', 'PN', 'PM'):
+      return "{:.1f}".format(float(value)/10)
     else:
       return "{:.2f}".format(float(value)/100)
   return value
-- 
2.43.0


From 54e67dfe6acc5ec9ab3ccbf1784bf28bb41263aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:55 +0000
Subject: [PATCH 09/33] fix: a bad VOR/NDB frequency raises ValueError instead
 of ending the process

---
 src/arinc424/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index c44784c..7edcdcc 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -493,7 +493,7 @@ def field_034(value, record):
     if value.isnumeric() is False:
       print(f'Unsupported VOR/NDB Frequency: "{value}"')
       print(f'from record type "{record.ident}": "{record.raw}"')
-      exit()
+      raise ValueError("Invalid VOR/NDB Frequency", value)
     elif record.ident in ('DB', 'PN', 'PM'):
       return "{:.1f}".format(float(value)/10)
     else:
-- 
2.43.0


From c84ffaaa93ac96dcc85f9f6ef30c7077e074aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:14 +0000
Subject: [PATCH 10/33] fix: blank SID/STAR identifiers and leg times stay
 blank, not None

---
 src/arinc424/decoder.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 7edcdcc..d47ff87 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -203,8 +203,7 @@ def field_008(value, record):
 
 # 5.9 SID/STAR Route Identifier (SID/STAR IDENT)
 def field_009(value, record):
-  if value.strip().isalnum():
-    return value
+  return value
 
 
 # 5.10 Approach Route Identifier (APPROACH IDENT)
@@ -753,7 +752,7 @@ def field_064(value, record):
 # 5.65 Leg Time (LEG TIME)
 def field_065(value, record):
   if value.strip() == '':
-    return
+    return value
 
   try:
     return '{}m {}s'.format(int(value[0]), int(value[1])*6)
-- 
2.43.0


From 9e3dfd1e59fdcbdeafed567d9007fdc9c27af945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:18 +0000
Subject: [PATCH 11/33] fix: unused (blank) route identifiers do not make a
 record undecodable

---
 src/arinc424/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index d47ff87..79c9f68 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -195,7 +195,7 @@ def field_007(value, record):
 
 # 5.8 Route Identifier (ROUTE IDENT)
 def field_008(value, record):
-  if value.strip().isalnum():
+  if value.strip() == '' or value.strip().isalnum():
     return value
   else:
     raise ValueError("Route Identifier not alphanumeric", value)
-- 
2.43.0


From 03a69ba499f4cdfce76a6705c2176f25128c1df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:21 +0000
Subject: [PATCH 12/33] fix: sector altitudes are given in hundreds of feet

---
 src/arinc424/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index 79c9f68..eef7d50 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -1342,7 +1342,7 @@ def field_146(value, record):
 
 # 5.147 Sector Altitude (SEC ALT)
 def field_147(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return str(int(value) * 100) + " ft" if value.isnumeric() else value
 
 
 # 5.148 Enroute Alternate Airport (EAA)
-- 
2.43.0


From cb3002f726a1318eb5760b7296f81db3a58773fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:24 +0000
Subject: [PATCH 13/33] fix: the FIR/UIR altitude reporting unit is a code, not
 a height in feet

---
 src/arinc424/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index eef7d50..a886a37 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -1219,7 +1219,7 @@ def field_122(value, record):
 
 # 5.123 FIR/UIR ATC Reporting Units Altitude (RUA)
 def field_123(value, record):
-  return (value.lstrip('0') or '0') + " ft" if value.isnumeric() else value
+  return value
 
 
 # 5.124 FIR/UIR Entry Report (ENTRY)
-- 
2.43.0


From 165e855759ace4eea57402c58ca4be30b6357f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:28 +0000
Subject: [PATCH 14/33] fix: columns of the navaid class, UIR, start/end and
 limitation fields

---
 src/arinc424/definitions/NDBNavaid.py |  8 ++++----
 src/arinc424/definitions/VHFNavaid.py | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/arinc424/definitions/NDBNavaid.py b/src/arinc424/definitions/NDBNavaid.py
index 7b41a3f..f2e401d 100644
--- a/src/arinc424/definitions/NDBNavaid.py
+++ b/src/arinc424/definitions/NDBNavaid.py
@@ -43,7 +43,7 @@ class NDBNavaid():
       Field("ICAO Code (2)",                   r[19:21],     decoder.field_014),
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("NDB Frequency",                   r[22:27],     decoder.field_034),
-      Field("NDB Class",                       r[27:31],     decoder.field_035),
+      Field("NDB Class",                       r[27:32],     decoder.field_035),
       Field("NDB Latitude",                    r[32:41],     decoder.field_036),
       Field("NDB Longitude",                   r[41:51],     decoder.field_037),
       Field("Magnetic Variation",              r[74:79],     decoder.field_039),
@@ -101,8 +101,8 @@ class NDBNavaid():
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("Application Type",                r[22],        decoder.field_091),
       Field("FIR Identifier",                  r[23:27],     decoder.field_116),
-      Field("UIR Identifier",                  r[28:31],     decoder.field_116),
-      Field("Start/End Indicator",             r[32],        decoder.field_152),
+      Field("UIR Identifier",                  r[27:31],     decoder.field_116),
+      Field("Start/End Indicator",             r[31],        decoder.field_152),
       Field("Start/End Date",                  r[32:43],     decoder.field_153),
       Field("File Record No",                  r[123:128],   decoder.field_031),
       Field("Cycle Date",                      r[128:132],   decoder.field_032)
@@ -120,7 +120,7 @@ class NDBNavaid():
       Field("ICAO Code (2)",                   r[19:21],     decoder.field_014),
       Field("Continuation Record No",          r[21],        decoder.field_016),
       Field("NDB Frequency",                   r[22:27],     decoder.field_034),
-      Field("NDB Class",                       r[27:31],     decoder.field_035),
+      Field("NDB Class",                       r[27:32],     decoder.field_035),
       Field("NDB Latitude",                    r[32:41],     decoder.field_036),
       Field("NDB Longitude",                   r[41:51],     decoder.field_037),
       Field("Magnetic Variation",              r[74:79],     decoder.field_039),
diff --git a/src/arinc424/definitions/VHFNavaid.py b/src/arinc424/definitions/VHFNavaid.py
index 6057783..f5b006a 100644
--- a/src/arinc424/definitions/VHFNavaid.py
+++ b/src/arinc424/definitions/VHFNavaid.py
@@ -54,7 +54,7 @@ class VHFNavaid():
       Field("ICAO Code (2)",               r[19:21],      decoder.field_014),
       Field("Continuation Record No",      r[21],         decoder.field_016),
       Field("Frequency",                   r[22:27],      decoder.field_034),
-      Field("Class",                       r[27:29],      decoder.field_035),
+      Field("Class",                       r[27:32],      decoder.field_035),
       Field("VOR Latitude",                r[32:41],      decoder.field_036),
       Field("VOR Longitude",               r[41:51],      decoder.field_037),
       Field("DME Ident",                   r[51:55],      decoder.field_038),
@@ -120,8 +120,8 @@ class VHFNavaid():
       Field("Continuation Record No",      r[21],         decoder.field_016),
       Field("Application Type",            r[22],         decoder.field_091),
       Field("FIR Identifier",              r[23:27],      decoder.field_116),
-      Field("UIR Identifier",              r[28:31],      decoder.field_116),
-      Field("Start/End Indicator",         r[32],         decoder.field_152),
+      Field("UIR Identifier",              r[27:31],      decoder.field_116),
+      Field("Start/End Indicator",         r[31],         decoder.field_152),
       Field("Start/End Date",              r[32:43],      decoder.field_153),
       Field("File Record No",              r[123:128],    decoder.field_031),
       Field("Cycle Date",                  r[128:132],    decoder.field_032)
@@ -139,7 +139,7 @@ class VHFNavaid():
       Field("ICAO Code (2)",               r[19:21],      decoder.field_014),
       Field("Continuation Record No",      r[21],         decoder.field_016),
       Field("Frequency",                   r[22:27],      decoder.field_034),
-      Field("Class",                       r[27:29],      decoder.field_035),
+      Field("Class",                       r[27:32],      decoder.field_035),
       Field("VOR Latitude",                r[32:41],      decoder.field_036),
       Field("VOR Longitude",               r[41:51],      decoder.field_037),
       Field("DME Ident",                   r[51:55],      decoder.field_038),
@@ -188,13 +188,13 @@ class VHFNavaid():
       Field("Altitude Limitation (3)",     r[69:75],      decoder.field_209),
       Field("Sector From/Sector To (4)",   r[75:77],      decoder.field_207),
       Field("Distance Description (4)",    r[77],         decoder.field_187),
-      Field("Distance Limitation (4)",     r[79:84],      decoder.field_208),
+      Field("Distance Limitation (4)",     r[78:84],      decoder.field_208),
       Field("Altitude Description (4)",    r[84],         decoder.field_029),
       Field("Altitude Limitation (4)",     r[85:91],      decoder.field_209),
       Field("Sector From/Sector To (5)",   r[91:93],      decoder.field_207),
       Field("Distance Description (5)",    r[93],         decoder.field_187),
       Field("Distance Limitation (5)",     r[94:100],     decoder.field_208),
-      Field("Altitude Description (5)",    r[101],        decoder.field_029),
+      Field("Altitude Description (5)",    r[100],        decoder.field_029),
       Field("Altitude Limitation (5)",     r[101:107],    decoder.field_209),
       Field("Sequence End Indicator",      r[107],        decoder.field_210),
       Field("File Record No",              r[123:128],    decoder.field_031),
-- 
2.43.0


From f76315e41f6af918e33fe2f8d9eeb94ddb523015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:31 +0000
Subject: [PATCH 15/33] fix: column of the holding pattern application type

---
 src/arinc424/definitions/HoldingPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/definitions/HoldingPattern.py b/src/arinc424/definitions/HoldingPattern.py
index 72008a9..dd9eba0 100644
--- a/src/arinc424/definitions/HoldingPattern.py
+++ b/src/arinc424/definitions/HoldingPattern.py
@@ -77,7 +77,7 @@ class HoldingPattern():
       Field("ICAO Code (2)",                       r[34:36],      decoder.field_014),
       Field("Section Code (2)",                    r[36:38],      decoder.field_004),
       Field("Continuation Record No",              r[38],         decoder.field_016),
-      Field("Application Type",                    r[40],         decoder.field_091),
+      Field("Application Type",                    r[39],         decoder.field_091),
       Field("Notes",                               r[40:109],     decoder.field_061),
       Field("File Record No",                      r[123:128],    decoder.field_031),
       Field("Cycle Date",                          r[128:132],    decoder.field_032)
-- 
2.43.0


From 14c408b9aeed31cc24f6d8751f4f4bc96b0da596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:35 +0000
Subject: [PATCH 16/33] fix: restrictive airspace types of an airway are not
 sequence numbers

---
 src/arinc424/definitions/EnrouteAirways.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirways.py b/src/arinc424/definitions/EnrouteAirways.py
index a1f6d17..f6e6fc3 100644
--- a/src/arinc424/definitions/EnrouteAirways.py
+++ b/src/arinc424/definitions/EnrouteAirways.py
@@ -102,15 +102,15 @@ class EnrouteAirways():
       Field("Restr. Air Designation",                  r[69:79],      decoder.field_129),
       Field("Restr. Air Multiple Code",                r[79],         decoder.field_130),
       Field("Restr. Air ICAO Code (2)",                r[80:82],      decoder.field_014),
-      Field("Restr. Air Type (2)",                     r[82],         decoder.field_012),
+      Field("Restr. Air Type (2)",                     r[82],         decoder.field_128),
       Field("Restr. Air Designation (2)",              r[83:93],      decoder.field_129),
       Field("Restr. Air Multiple Code (2)",            r[93],         decoder.field_130),
       Field("Restr. Air ICAO Code (3)",                r[94:96],      decoder.field_014),
-      Field("Restr. Air Type (3)",                     r[96],         decoder.field_012),
+      Field("Restr. Air Type (3)",                     r[96],         decoder.field_128),
       Field("Restr. Air Designation (3)",              r[97:107],     decoder.field_129),
       Field("Restr. Air Multiple Code (3)",            r[107],        decoder.field_130),
       Field("Restr. Air ICAO Code (4)",                r[108:110],    decoder.field_014),
-      Field("Restr. Air Type (4)",                     r[110],        decoder.field_012),
+      Field("Restr. Air Type (4)",                     r[110],        decoder.field_128),
       Field("Restr. Air Designation (4)",              r[111:121],    decoder.field_129),
       Field("Restr. Air Link Continuation",            r[122],        decoder.field_174),
       Field("File Record No",                          r[123:128],    decoder.field_031),
-- 
2.43.0


From 67a00592630c0bca9d00517135239736e47baa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:39 +0000
Subject: [PATCH 17/33] fix: columns of the restrictive airspace lower limit
 and time indicator

---
 src/arinc424/definitions/RestrictiveAirspace.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/definitions/RestrictiveAirspace.py b/src/arinc424/definitions/RestrictiveAirspace.py
index b3dc6b0..b563fcb 100644
--- a/src/arinc424/definitions/RestrictiveAirspace.py
+++ b/src/arinc424/definitions/RestrictiveAirspace.py
@@ -51,7 +51,7 @@ class RestrictiveAirspace():
       Field("Arc Origin Longitude",                r[60:70],      decoder.field_037),
       Field("Arc Distance",                        r[70:74],      decoder.field_119),
       Field("Arc Bearing",                         r[74:78],      decoder.field_120),
-      Field("Lower Limit",                         r[82:86],      decoder.field_121),
+      Field("Lower Limit",                         r[81:86],      decoder.field_121),
       Field("Unit Indicator",                      r[86],         decoder.field_133),
       Field("Upper Limit",                         r[87:92],      decoder.field_121),
       Field("Unit Indicator (2)",                  r[92],         decoder.field_133),
@@ -75,7 +75,7 @@ class RestrictiveAirspace():
       Field("Application Type",                    r[25],         decoder.field_091),
       Field("Time Code",                           r[26],         decoder.field_131),
       Field("NOTAM",                               r[27],         decoder.field_132),
-      Field("Time Indicator",                      r[27],         decoder.field_138),
+      Field("Time Indicator",                      r[28],         decoder.field_138),
       Field("Time of Operations",                  r[29:39],      decoder.field_195),
       Field("Time of Operations (2)",              r[39:49],      decoder.field_195),
       Field("Time of Operations (3)",              r[49:59],      decoder.field_195),
@@ -124,7 +124,7 @@ class RestrictiveAirspace():
       Field("Application Type",                    r[25],         decoder.field_091),
       Field("Time Code",                           r[26],         decoder.field_131),
       Field("NOTAM",                               r[27],         decoder.field_132),
-      Field("Time Indicator",                      r[27],         decoder.field_138),
+      Field("Time Indicator",                      r[28],         decoder.field_138),
       Field("Time of Operations",                  r[29:39],      decoder.field_195),
       Field("Time of Operations (2)",              r[39:49],      decoder.field_195),
       Field("Time of Operations (3)",              r[49:59],      decoder.field_195),
-- 
2.43.0


From a61123c92cd5980e89849a4edf59340cf14ff428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:43 +0000
Subject: [PATCH 18/33] fix: columns of the procedure centre fix ICAO code and
 start/end date

---
 src/arinc424/definitions/SIDSTARApproach.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/SIDSTARApproach.py b/src/arinc424/definitions/SIDSTARApproach.py
index b773098..5969a07 100644
--- a/src/arinc424/definitions/SIDSTARApproach.py
+++ b/src/arinc424/definitions/SIDSTARApproach.py
@@ -68,7 +68,7 @@ class SIDSTARApproach():
       Field("Vertical Angle",                             r[102:106],     decoder.field_070),
       Field("Center Fix or TAA Procedure Turn Indicator", r[106:111],     decoder.field_144),  # or 271
       Field("Multiple Code or TAA Sector Identifier",     r[111],         decoder.field_130),  # or 272
-      Field("ICAO Code (4)",                              r[112:113],     decoder.field_014),
+      Field("ICAO Code (4)",                              r[112:114],     decoder.field_014),
       Field("Section Code (3)",                           r[114:116],     decoder.field_004),
       Field("GNSS/FMS Indication",                        r[116],         decoder.field_222),
       Field("Speed Limit Description",                    r[117],         decoder.field_261),
@@ -134,7 +134,7 @@ class SIDSTARApproach():
       Field("Continuation Record No",                     r[38],          decoder.field_016),
       Field("Application Type",                           r[39],          decoder.field_091),
       Field("Start/End Indicator",                        r[40],          decoder.field_152),
-      Field("Start/End Date",                             r[41:45],       decoder.field_153),
+      Field("Start/End Date",                             r[41:52],       decoder.field_153),
       Field("Leg Distance",                               r[74:78],       decoder.field_260),
       Field("File Record No",                             r[123:128],     decoder.field_031),
       Field("Cycle Date",                                 r[128:132],     decoder.field_032)
-- 
2.43.0


From 9fc4505d56c82c6ed78bf28aa2146460e2794504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:46 +0000
Subject: [PATCH 19/33] fix: column of the GLS continuation record number

---
 src/arinc424/definitions/GLS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/GLS.py b/src/arinc424/definitions/GLS.py
index 40f4f7c..df940e8 100644
--- a/src/arinc424/definitions/GLS.py
+++ b/src/arinc424/definitions/GLS.py
@@ -35,7 +35,7 @@ class GLS():
           Field("ICAO Code",                           r[10:12],      decoder.field_014),
           Field("GLS Ref Path Identifier",             r[13:17],      decoder.field_044),
           Field("GLS Category",                        r[17],         decoder.field_080),
-          Field("Continuation Record No",              r[18:21],      decoder.field_016),
+          Field("Continuation Record No",              r[21],         decoder.field_016),
           Field("GLS Channel",                         r[22:27],      decoder.field_244),
           Field("Runway Identifier",                   r[27:32],      decoder.field_046),
           Field("GLS Approach Bearing",                r[51:55],      decoder.field_047),
@@ -64,7 +64,7 @@ class GLS():
           Field("ICAO Code",                           r[10:12],      decoder.field_014),
           Field("GLS Ref Path Identifier",             r[13:17],      decoder.field_044),
           Field("GLS Category",                        r[17],         decoder.field_080),
-          Field("Continuation Record No",              r[18:21],      decoder.field_016),
+          Field("Continuation Record No",              r[21],         decoder.field_016),
           Field("Application Type",                    r[22],         decoder.field_091),
           Field("File Record No",                      r[123:128],    decoder.field_031),
           Field("Cycle Date",                          r[128:132],    decoder.field_032)
-- 
2.43.0


From 5e62debe00ff9441c9b238be9cba5dee8dc90b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:49 +0000
Subject: [PATCH 20/33] fix: column of the controlled airspace type

---
 src/arinc424/definitions/ControlledAirspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arinc424/definitions/ControlledAirspace.py b/src/arinc424/definitions/ControlledAirspace.py
index b751951..a8466db 100644
--- a/src/arinc424/definitions/ControlledAirspace.py
+++ b/src/arinc424/definitions/ControlledAirspace.py
@@ -39,7 +39,7 @@ class ControlledAirspace():
       Field("Customer / Area Code",                r[1:4],        decoder.field_003),
       Field("Section Code",                        r[4:6],        decoder.field_004),
       Field("ICAO Code",                           r[6:8],        decoder.field_014),
-      Field("Airspace Type",                       r[9],          decoder.field_213),
+      Field("Airspace Type",                       r[8],          decoder.field_213),
       Field("Airspace Center",                     r[9:14],       decoder.field_214),
       Field("Section Code (2)",                    r[14:16],      decoder.field_004),
       Field("Airspace Classification",             r[16],         decoder.field_215),
@@ -73,7 +73,7 @@ class ControlledAirspace():
       Field("Customer / Area Code",                r[1:4],        decoder.field_003),
       Field("Section Code",                        r[4:6],        decoder.field_004),
       Field("ICAO Code",                           r[6:8],        decoder.field_014),
-      Field("Airspace Type",                       r[9],          decoder.field_213),
+      Field("Airspace Type",                       r[8],          decoder.field_213),
       Field("Airspace Center",                     r[9:14],       decoder.field_214),
       Field("Section Code (2)",                    r[14:16],      decoder.field_004),
       Field("Airspace Classification",             r[16],         decoder.field_215),
-- 
2.43.0


From 5f718b5008718f3d0e0bb386b4a4563de4051dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:53 +0000
Subject: [PATCH 21/33] fix: columns of the MLS back azimuth true bearing

---
 src/arinc424/definitions/MLS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/definitions/MLS.py b/src/arinc424/definitions/MLS.py
index 37a7df0..2fbc7a2 100644
--- a/src/arinc424/definitions/MLS.py
+++ b/src/arinc424/definitions/MLS.py
@@ -87,7 +87,7 @@ class MLS():
       Field("Back Azimuth Proportional Angle Left", r[86:89],     decoder.field_168),
       Field("Back Azimuth Coverage Right",         r[89:92],      decoder.field_172),
       Field("Back Azimuth Coverage Left",          r[92:95],      decoder.field_172),
-      Field("Back Azimuth True Bearing",           r[95:98],      decoder.field_094),
+      Field("Back Azimuth True Bearing",           r[95:100],     decoder.field_094),
       Field("Back Azimuth Bearing Source",         r[100],        decoder.field_095),
       Field("Azimuth True Bearing",                r[101:106],    decoder.field_094),
       Field("Azimuth Bearing Source",              r[106],        decoder.field_095),
-- 
2.43.0


From 4630e717d7e959921e23c4fadd2822ff4c290b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:57 +0000
Subject: [PATCH 22/33] fix: columns of the locator facility characteristics

---
 src/arinc424/definitions/LocalizerMarker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/definitions/LocalizerMarker.py b/src/arinc424/definitions/LocalizerMarker.py
index 191dc61..b6853ba 100644
--- a/src/arinc424/definitions/LocalizerMarker.py
+++ b/src/arinc424/definitions/LocalizerMarker.py
@@ -44,7 +44,7 @@ class LocalizerMarker():
       Field("Locator Latitude",                    r[55:64],      decoder.field_036),
       Field("Locator Longitude",                   r[64:74],      decoder.field_037),
       Field("Localizer Class",                     r[74:79],      decoder.field_035),
-      Field("Localizer Facility Characteristics",  r[79:83],      decoder.field_093),
+      Field("Localizer Facility Characteristics",  r[79:84],      decoder.field_093),
       Field("Localizer Identifier (2)",            r[84:88],      decoder.field_033),
       Field("Magnetic Variation",                  r[90:95],      decoder.field_039),
       Field("Facility Elevation",                  r[97:102],     decoder.field_092),
-- 
2.43.0


From 767915e0f2943544ce1114f8159a698868fbf6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:01 +0000
Subject: [PATCH 23/33] fix: columns of the route identifier and start fix of a
 note restriction

---
 src/arinc424/definitions/EnrouteAirwaysRestriction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 3a0c0fa..1fd7086 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -138,13 +138,13 @@ class EnrouteAirwaysRestriction():
       Field("Record Type",                             r[0],          decoder.field_002),
       Field("Customer / Area Code",                    r[1:4],        decoder.field_003),
       Field("Section Code",                            r[4:6],        decoder.field_004),
-      Field("Route Identifier",                        r[7:11],       decoder.field_008),
+      Field("Route Identifier",                        r[6:11],       decoder.field_008),
       Field("Restriction Identifier",                  r[12:15],      decoder.field_154),
       Field("Restriction Type",                        r[15:17],      decoder.field_201),
       Field("Continuation Record No",                  r[17],         decoder.field_016),
       Field("Start Fix Identifier",                    r[18:23],      decoder.field_013),
       Field("Start Fix ICAO Code",                     r[23:25],      decoder.field_014),
-      Field("Start Fix Section Code",                  r[25],         decoder.field_004),
+      Field("Start Fix Section Code",                  r[25:27],         decoder.field_004),
       Field("End Fix Identifier",                      r[27:32],      decoder.field_013),
       Field("End Fix ICAO Code",                       r[32:34],      decoder.field_014),
       Field("End Fix Section Code",                    r[34:36],      decoder.field_004),
@@ -161,7 +161,7 @@ class EnrouteAirwaysRestriction():
       Field("Record Type",                             r[0],          decoder.field_002),
       Field("Customer / Area Code",                    r[1:4],        decoder.field_003),
       Field("Section Code",                            r[4:6],        decoder.field_004),
-      Field("Route Identifier",                        r[7:11],       decoder.field_008),
+      Field("Route Identifier",                        r[6:11],       decoder.field_008),
       Field("Restriction Identifier",                  r[12:15],      decoder.field_154),
       Field("Restriction Type",                        r[15:17],      decoder.field_201),
       Field("Continuation Record No",                  r[17],         decoder.field_016),
-- 
2.43.0


From bbe813dd58fa0feb2067d1f6eca9143ace5e9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:05 +0000
Subject: [PATCH 24/33] fix: altitude exclusion fields with one name hid each
 other in the JSON

---
 .../definitions/EnrouteAirwaysRestriction.py  | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 1fd7086..3773395 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -67,25 +67,25 @@ class EnrouteAirwaysRestriction():
       Field("Time Code",                               r[51],         decoder.field_131),
       Field("Time Indicator",                          r[52],         decoder.field_138),
       Field("Time of Operation",                       r[53:63],      decoder.field_195),
-      Field("Time of Operation",                       r[63:73],      decoder.field_195),
-      Field("Time of Operation",                       r[73:83],      decoder.field_195),
-      Field("Time of Operation",                       r[83:93],      decoder.field_195),
+      Field("Time of Operation (2)",                   r[63:73],      decoder.field_195),
+      Field("Time of Operation (3)",                   r[73:83],      decoder.field_195),
+      Field("Time of Operation (4)",                   r[83:93],      decoder.field_195),
       Field("Exclusion Indicator",                     r[93],         decoder.field_202),
       Field("Units of Altitude",                       r[94],         decoder.field_160),
       Field("Restriction Altitude",                    r[95:98],      decoder.field_161),
       Field("Block Indicator",                         r[98],         decoder.field_203),
-      Field("Restriction Altitude",                    r[99:102],     decoder.field_161),
-      Field("Block Indicator",                         r[102],        decoder.field_203),
-      Field("Restriction Altitude",                    r[103:106],    decoder.field_161),
-      Field("Block Indicator",                         r[106],        decoder.field_203),
-      Field("Restriction Altitude",                    r[107:110],    decoder.field_161),
-      Field("Block Indicator",                         r[110],        decoder.field_203),
-      Field("Restriction Altitude",                    r[111:114],    decoder.field_161),
-      Field("Block Indicator",                         r[114],        decoder.field_203),
-      Field("Restriction Altitude",                    r[115:118],    decoder.field_161),
-      Field("Block Indicator",                         r[118],        decoder.field_203),
-      Field("Restriction Altitude",                    r[119:122],    decoder.field_161),
-      Field("Block Indicator",                         r[122],        decoder.field_203),
+      Field("Restriction Altitude (2)",                r[99:102],     decoder.field_161),
+      Field("Block Indicator (2)",                     r[102],        decoder.field_203),
+      Field("Restriction Altitude (3)",                r[103:106],    decoder.field_161),
+      Field("Block Indicator (3)",                     r[106],        decoder.field_203),
+      Field("Restriction Altitude (4)",                r[107:110],    decoder.field_161),
+      Field("Block Indicator (4)",                     r[110],        decoder.field_203),
+      Field("Restriction Altitude (5)",                r[111:114],    decoder.field_161),
+      Field("Block Indicator (5)",                     r[114],        decoder.field_203),
+      Field("Restriction Altitude (6)",                r[115:118],    decoder.field_161),
+      Field("Block Indicator (6)",                     r[118],        decoder.field_203),
+      Field("Restriction Altitude (7)",                r[119:122],    decoder.field_161),
+      Field("Block Indicator (7)",                     r[122],        decoder.field_203),
       Field("File Record No",                          r[123:128],    decoder.field_031),
       Field("Cycle Date",                              r[128:132],    decoder.field_032)
     ]
-- 
2.43.0


From 5c9f422bc3c86bcd1a43365007ac7616bbd96250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:09 +0000
Subject: [PATCH 25/33] fix: preferred route fields with one name hid each
 other in the JSON

---
 src/arinc424/definitions/PreferredRoute.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arinc424/definitions/PreferredRoute.py b/src/arinc424/definitions/PreferredRoute.py
index cda4b69..3a8b040 100644
--- a/src/arinc424/definitions/PreferredRoute.py
+++ b/src/arinc424/definitions/PreferredRoute.py
@@ -50,11 +50,11 @@ class PreferredRoute():
       Field("Level",                      r[60],          decoder.field_019),
       Field("Route Type",                 r[61],          decoder.field_007),
       Field("Initial Airport/Fix",        r[62:67],       decoder.field_194),
-      Field("ICAO Code",                  r[67:69],       decoder.field_014),
-      Field("Section Code",               r[69:71],       decoder.field_004),
+      Field("ICAO Code (2)",              r[67:69],       decoder.field_014),
+      Field("Section Code (3)",           r[69:71],       decoder.field_004),
       Field("Terminus Airport/Fix",       r[71:76],       decoder.field_194),
-      Field("ICAO Code",                  r[76:78],       decoder.field_014),
-      Field("Section Code",               r[78:80],       decoder.field_004),
+      Field("ICAO Code (3)",              r[76:78],       decoder.field_014),
+      Field("Section Code (4)",           r[78:80],       decoder.field_004),
       Field("Minimum Altitude",           r[80:85],       decoder.field_030),
       Field("Maximum Altitude",           r[85:90],       decoder.field_127),
       Field("Time Code",                  r[90],          decoder.field_131),
-- 
2.43.0


From 1d6a524ad6da758202b367eb0211a47641ee2a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:13 +0000
Subject: [PATCH 26/33] fix: geographical reference fields with one name hid
 each other in the JSON

---
 src/arinc424/definitions/GeoReferenceTable.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arinc424/definitions/GeoReferenceTable.py b/src/arinc424/definitions/GeoReferenceTable.py
index ca5a349..fcf8a19 100644
--- a/src/arinc424/definitions/GeoReferenceTable.py
+++ b/src/arinc424/definitions/GeoReferenceTable.py
@@ -53,10 +53,10 @@ class GeoReferenceTable():
       Field("Preferred Route Use Ind (3)",        r[74:76],       decoder.field_220),
       Field("Preferred Route Ident (4)",          r[76:86],       decoder.field_008),
       Field("Preferred Route Use Ind (4)",        r[86:88],       decoder.field_220),
-      Field("Preferred Route Ident (4)",          r[88:98],       decoder.field_008),
-      Field("Preferred Route Use Ind (4)",        r[98:100],      decoder.field_220),
-      Field("Preferred Route Ident (5)",          r[100:110],     decoder.field_008),
-      Field("Preferred Route Use Ind (5)",        r[110:112],     decoder.field_220),
+      Field("Preferred Route Ident (5)",          r[88:98],       decoder.field_008),
+      Field("Preferred Route Use Ind (5)",        r[98:100],      decoder.field_220),
+      Field("Preferred Route Ident (6)",          r[100:110],     decoder.field_008),
+      Field("Preferred Route Use Ind (6)",        r[110:112],     decoder.field_220),
       Field("File Record No",                      r[123:128],    decoder.field_031),
       Field("Cycle Date",                          r[128:132],    decoder.field_032)
     ]
-- 
2.43.0


From cfbe74c9f295d190711a1d0f393f41da1b816a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:16 +0000
Subject: [PATCH 27/33] fix: alternate fields with one name hid each other in
 the JSON

---
 src/arinc424/definitions/Alternate.py                | 12 ++++++------
 .../definitions/EnrouteAirwaysRestriction.py         |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/arinc424/definitions/Alternate.py b/src/arinc424/definitions/Alternate.py
index bf69b02..49e2eb3 100644
--- a/src/arinc424/definitions/Alternate.py
+++ b/src/arinc424/definitions/Alternate.py
@@ -24,14 +24,14 @@ class Alternate():
       Field("Distance to Alternate (3)",              r[51:54],      decoder.field_251),
       Field("Alternate Type (3)",                     r[54],         decoder.field_252),
       Field("Additional Alternate Identifier Two",    r[55:65],      decoder.field_253),
-      Field("Distance to Alternate (3)",              r[67:70],      decoder.field_251),
-      Field("Alternate Type (3)",                     r[70],         decoder.field_252),
+      Field("Distance to Alternate (4)",              r[67:70],      decoder.field_251),
+      Field("Alternate Type (4)",                     r[70],         decoder.field_252),
       Field("Additional Alternate Identifier (3))",   r[71:81],      decoder.field_253),
-      Field("Distance to Alternate (4)",              r[83:86],      decoder.field_251),
-      Field("Alternate Type (4)",                     r[86],         decoder.field_252),
+      Field("Distance to Alternate (5)",              r[83:86],      decoder.field_251),
+      Field("Alternate Type (5)",                     r[86],         decoder.field_252),
       Field("Additional Alternate Identifier (4)",    r[87:97],      decoder.field_253),
-      Field("Distance to Alternate (5)",              r[99:102],     decoder.field_251),
-      Field("Alternate Type (5)",                     r[102],        decoder.field_252),
+      Field("Distance to Alternate (6)",              r[99:102],     decoder.field_251),
+      Field("Alternate Type (6)",                     r[102],        decoder.field_252),
       Field("Additional Alternate Identifier (5)",    r[103:113],    decoder.field_253),
       Field("File Record No",                         r[123:128],    decoder.field_031),
       Field("Cycle Date",                             r[128:132],    decoder.field_032)
diff --git a/src/arinc424/definitions/EnrouteAirwaysRestriction.py b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
index 3773395..8098895 100644
--- a/src/arinc424/definitions/EnrouteAirwaysRestriction.py
+++ b/src/arinc424/definitions/EnrouteAirwaysRestriction.py
@@ -144,7 +144,7 @@ class EnrouteAirwaysRestriction():
       Field("Continuation Record No",                  r[17],         decoder.field_016),
       Field("Start Fix Identifier",                    r[18:23],      decoder.field_013),
       Field("Start Fix ICAO Code",                     r[23:25],      decoder.field_014),
-      Field("Start Fix Section Code",                  r[25:27],         decoder.field_004),
+      Field("Start Fix Section Code",                  r[25:27],      decoder.field_004),
       Field("End Fix Identifier",                      r[27:32],      decoder.field_013),
       Field("End Fix ICAO Code",                       r[32:34],      decoder.field_014),
       Field("End Fix Section Code",                    r[34:36],      decoder.field_004),
-- 
2.43.0


From 1fd23c23653778b3f64062c2cecfbc302d2d5e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:52 +0000
Subject: [PATCH 28/33] fix: the four intermediate fixes of a flight planning
 continuation

The layout ran the four 13 column groups into two, with names that hid each
other in the JSON.
---
 src/arinc424/definitions/FlightPlanning.py | 26 +++++++++++++++-------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/arinc424/definitions/FlightPlanning.py b/src/arinc424/definitions/FlightPlanning.py
index 570bb6c..7cec346 100644
--- a/src/arinc424/definitions/FlightPlanning.py
+++ b/src/arinc424/definitions/FlightPlanning.py
@@ -102,14 +102,24 @@ class FlightPlanning():
       Field("Application Type",                       r[70],          decoder.field_091),
       Field("Intermediate Fix Identifier",            r[71:76],       decoder.field_013),
       Field("ICAO Code (5)",                          r[76:78],       decoder.field_014),
-      Field("Section Code (5)",                       r[91:93],       decoder.field_004),
-      Field("Intermediate Distance",                  r[106:109],     decoder.field_231),
-      Field("Fix Related Transition Code",            r[109],         decoder.field_241),
-      Field("Intermediate Fix Identifier",            r[110:115],     decoder.field_013),
-      Field("ICAO Code (6)",                          r[115:117],     decoder.field_014),
-      Field("Section Code (6)",                       r[118],         decoder.field_004),
-      Field("Intermediate Distance",                  r[119:122],     decoder.field_231),
-      Field("Fix Related Transition Code",            r[122],         decoder.field_241),
+      Field("Section Code (5)",                       r[78:80],       decoder.field_004),
+      Field("Intermediate Distance",                  r[80:83],       decoder.field_231),
+      Field("Fix Related Transition Code",            r[83],          decoder.field_241),
+      Field("Intermediate Fix Identifier (2)",        r[84:89],       decoder.field_013),
+      Field("ICAO Code (6)",                          r[89:91],       decoder.field_014),
+      Field("Section Code (6)",                       r[91:93],       decoder.field_004),
+      Field("Intermediate Distance (2)",              r[93:96],       decoder.field_231),
+      Field("Fix Related Transition Code (2)",        r[96],          decoder.field_241),
+      Field("Intermediate Fix Identifier (3)",        r[97:102],      decoder.field_013),
+      Field("ICAO Code (7)",                          r[102:104],     decoder.field_014),
+      Field("Section Code (7)",                       r[104:106],     decoder.field_004),
+      Field("Intermediate Distance (3)",              r[106:109],     decoder.field_231),
+      Field("Fix Related Transition Code (3)",        r[109],         decoder.field_241),
+      Field("Intermediate Fix Identifier (4)",        r[110:115],     decoder.field_013),
+      Field("ICAO Code (8)",                          r[115:117],     decoder.field_014),
+      Field("Section Code (8)",                       r[117:119],     decoder.field_004),
+      Field("Intermediate Distance (4)",              r[119:122],     decoder.field_231),
+      Field("Fix Related Transition Code (4)",        r[122],         decoder.field_241),
       Field("File Record No",                         r[123:128],     decoder.field_031),
       Field("Cycle Date",                             r[128:132],     decoder.field_032)
     ]
-- 
2.43.0


From 3afa2e2617511b0f8f5f840927f2f9e1ee1152db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:55 +0000
Subject: [PATCH 29/33] fix: company route fields: names, decoders and a column
 of another record

The layout listed an airspace centre over the from-fix columns, used one name
three times and decoded fields with unrelated decoders.
---
 src/arinc424/definitions/CompanyRoute.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/arinc424/definitions/CompanyRoute.py b/src/arinc424/definitions/CompanyRoute.py
index 196dc02..5ca6d69 100644
--- a/src/arinc424/definitions/CompanyRoute.py
+++ b/src/arinc424/definitions/CompanyRoute.py
@@ -16,7 +16,6 @@ class CompanyRoute():
       Field("Section Code",                       r[4:6],         decoder.field_004),
       Field("From Airport/Fix",                   r[6:11],        decoder.field_075),
       Field("ICAO Code",                          r[12:14],       decoder.field_014),
-      Field("Airspace Center",                    r[9:14],        decoder.field_214),
       Field("Section Code (2)",                   r[14:16],       decoder.field_004),
       Field("To Airport/Fix",                     r[16:21],       decoder.field_075),
       Field("ICAO Code (2)",                      r[22:24],       decoder.field_014),
@@ -26,17 +25,17 @@ class CompanyRoute():
       Field("VIA",                                r[39:42],       decoder.field_077),
       Field("SID/STAR/App/Awy",                   r[42:48],       decoder.field_078),
       Field("Area Code",                          r[48:51],       decoder.field_003),
-      Field("To Fix",                             r[51:57],       decoder.field_132),
-      Field("ICAO Code",                          r[57:59],       decoder.field_118),
-      Field("Section Code (4)",                   r[59],          decoder.field_036),
-      Field("RUnway Trans",                       r[61:66],       decoder.field_037),
-      Field("ENRT Trans",                         r[66:71],       decoder.field_036),
-      Field("Cruise Altitude",                    r[72:77],       decoder.field_037),
-      Field("Terminal/Alternate Airport",         r[77:81],       decoder.field_119),
-      Field("ICAO Code",                          r[81:83],       decoder.field_120),
-      Field("Alternate Distance",                 r[83:87],       decoder.field_211),
-      Field("Cost Index",                         r[87:90],       decoder.field_121),
-      Field("Enroute Alternate Airport",          r[90:94],       decoder.field_133),
+      Field("To Fix",                             r[51:57],       decoder.field_083),
+      Field("ICAO Code (3)",                      r[57:59],       decoder.field_014),
+      Field("Section Code (4)",                   r[59:61],       decoder.field_004),
+      Field("Runway Trans",                       r[61:66],       decoder.field_084),
+      Field("ENRT Trans",                         r[66:71],       decoder.field_085),
+      Field("Cruise Altitude",                    r[72:77],       decoder.field_086),
+      Field("Terminal/Alternate Airport",         r[77:81],       decoder.field_087),
+      Field("ICAO Code (4)",                      r[81:83],       decoder.field_014),
+      Field("Alternate Distance",                 r[83:87],       decoder.field_088),
+      Field("Cost Index",                         r[87:90],       decoder.field_089),
+      Field("Enroute Alternate Airport",          r[90:94],       decoder.field_148),
       Field("File Record No",                     r[123:128],     decoder.field_031),
       Field("Cycle Date",                         r[128:132],     decoder.field_032)
     ]
\ No newline at end of file
-- 
2.43.0


From 7de222abcf90bd9aa888001acaa0f69f533c7253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:59 +0000
Subject: [PATCH 30/33] fix: number the thirty MORA values 1 to 30

---
 src/arinc424/definitions/GridMORA.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/arinc424/definitions/GridMORA.py b/src/arinc424/definitions/GridMORA.py
index 99e276a..9cc4552 100644
--- a/src/arinc424/definitions/GridMORA.py
+++ b/src/arinc424/definitions/GridMORA.py
@@ -36,17 +36,17 @@ class GridMORA():
       Field("MORA (17)",                           r[78:81],      decoder.field_143),
       Field("MORA (18)",                           r[81:84],      decoder.field_143),
       Field("MORA (19)",                           r[84:87],      decoder.field_143),
-      Field("MORA (21)",                           r[87:90],      decoder.field_143),
-      Field("MORA (22)",                           r[90:93],      decoder.field_143),
-      Field("MORA (23)",                           r[93:96],      decoder.field_143),
-      Field("MORA (24)",                           r[96:99],      decoder.field_143),
-      Field("MORA (25)",                           r[99:102],     decoder.field_143),
-      Field("MORA (26)",                           r[102:105],    decoder.field_143),
-      Field("MORA (27)",                           r[105:108],    decoder.field_143),
-      Field("MORA (28)",                           r[108:111],    decoder.field_143),
-      Field("MORA (29)",                           r[111:114],    decoder.field_143),
-      Field("MORA (30)",                           r[114:117],    decoder.field_143),
-      Field("MORA (31)",                           r[117:120],    decoder.field_143),
+      Field("MORA (20)",                           r[87:90],      decoder.field_143),
+      Field("MORA (21)",                           r[90:93],      decoder.field_143),
+      Field("MORA (22)",                           r[93:96],      decoder.field_143),
+      Field("MORA (23)",                           r[96:99],      decoder.field_143),
+      Field("MORA (24)",                           r[99:102],     decoder.field_143),
+      Field("MORA (25)",                           r[102:105],    decoder.field_143),
+      Field("MORA (26)",                           r[105:108],    decoder.field_143),
+      Field("MORA (27)",                           r[108:111],    decoder.field_143),
+      Field("MORA (28)",                           r[111:114],    decoder.field_143),
+      Field("MORA (29)",                           r[114:117],    decoder.field_143),
+      Field("MORA (30)",                           r[117:120],    decoder.field_143),
       Field("File Record No",                      r[123:128],    decoder.field_031),
       Field("Cycle Date",                          r[128:132],    decoder.field_032)
     ]
\ No newline at end of file
-- 
2.43.0


From a5b163d79a0e4b38147f5d5f54c045ee7f3cb744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:03 +0000
Subject: [PATCH 31/33] fix: airport flight planning records name an airport,
 not a heliport

---
 src/arinc424/definitions/Airport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/definitions/Airport.py b/src/arinc424/definitions/Airport.py
index e94705b..ce688db 100644
--- a/src/arinc424/definitions/Airport.py
+++ b/src/arinc424/definitions/Airport.py
@@ -89,7 +89,7 @@ class Airport():
       Field("Record Type",                             r[0],          decoder.field_002),
       Field("Customer / Area Code",                    r[1:4],        decoder.field_003),
       Field("Section Code",                            r[4]+r[12],    decoder.field_004),
-      Field("Heliport Identifier",                     r[6:10],       decoder.field_006),
+      Field("Airport ICAO Identifier",                 r[6:10],       decoder.field_006),
       Field("ICAO Code",                               r[10:12],      decoder.field_014),
       Field("ATA/IATA Designator",                     r[13:16],      decoder.field_107),
       Field("Continuation Record No",                  r[21],         decoder.field_016),
-- 
2.43.0


From caa28150be7cd16f479a85c332c376064f79b4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:34 +0000
Subject: [PATCH 32/33] fix: columns of the TAA continuation waypoint ICAO code

---
 src/arinc424/definitions/TAA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arinc424/definitions/TAA.py b/src/arinc424/definitions/TAA.py
index 29fec38..ade4e71 100644
--- a/src/arinc424/definitions/TAA.py
+++ b/src/arinc424/definitions/TAA.py
@@ -84,7 +84,7 @@ class TAA():
       Field("TAA Sector Identifier",              r[19],          decoder.field_272),
       Field("TAA Procedure Turn",                 r[20:24],       decoder.field_271),
       Field("TAA IAF Waypoint",                   r[29:34],       decoder.field_273),
-      Field("ICAO Code (2)",                      r[10:12],       decoder.field_014),
+      Field("ICAO Code (2)",                      r[34:36],       decoder.field_014),
       Field("Section Code (2)",                   r[36:38],       decoder.field_004),
       Field("Continuation Record No",             r[38],          decoder.field_016),
       Field("Application Notes",                  r[39],          decoder.field_091),
-- 
2.43.0


From 717ecb7a220a6d1a44a7bb7575f460a8d5d66e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:06 +0000
Subject: [PATCH 33/33] fix: courses, distances and variations that are not
 numbers are refused, not shown as quantities

---
 src/arinc424/decoder.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/arinc424/decoder.py b/src/arinc424/decoder.py
index a886a37..c6900f8 100644
--- a/src/arinc424/decoder.py
+++ b/src/arinc424/decoder.py
@@ -437,6 +437,8 @@ def field_026(value, record):
   # Handle the 'T' in the tenths position for degrees true
   if value.endswith('T'):
     return value
+  elif value.isnumeric() is False:
+    raise ValueError('Invalid Outbound Magnetic Course', value)
   else:
     return "{:.1f}".format(float(value) / 10)
 
@@ -446,6 +448,8 @@ def field_027(value, record):
   value = value.strip()
 
   if len(value) > 0:
+    if value.removeprefix('T').isnumeric() is False:
+      raise ValueError('Invalid Route Distance or Holding Distance/Time', value)
     if value[0] == 'T':
       return "{:.1f} min".format(float(value[1:]) / 10)
     else:
@@ -552,7 +556,11 @@ def field_038(value, record):
 
 # 5.39 Magnetic Variation (MAG VAR, D MAG VAR)
 def field_039(value, record):
-  return value if value.strip() == '' else "{:03} {}".format(int(value[1:]), value[0])
+  if value.strip() == '':
+    return value
+  if value[1:].strip().isnumeric() is False:
+    raise ValueError('Invalid Magnetic Variation', value)
+  return "{:03} {}".format(int(value[1:]), value[0])
 
 
 # 5.40 DME Elevation (DME ELEV)
@@ -2039,6 +2047,8 @@ def field_268(value, record):
 # 5.269 Helicopter Procedure Course (HPC)
 def field_269(value, record):
   if value.strip() != '': # this is allowed to be empty for non-heli records?
+    if value.strip().isnumeric() is False:
+      raise ValueError('Invalid Helicopter Procedure Course', value)
     return float(value)/10
   return value
 
-- 
2.43.0

