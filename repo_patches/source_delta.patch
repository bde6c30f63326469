From 519f433bffaf4609744a731c1f7836dede60bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 01/25] fix: empty proprietary payload no longer escapes as
 IndexError

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 6532411..1c0135e 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -330,7 +330,7 @@ class NMEAMessage:
                     dic = nms.NMEA_PAYLOADS_SET[key]
                 else:
                     dic = nmg.NMEA_PAYLOADS_GET[key]
-        except KeyError as err:  # unknown msgid
+        except (IndexError, KeyError) as err:  # unknown msgid
             erm = f"Unknown msgID {key} msgmode {('GET', 'SET', 'POLL')[self._mode]}."
             if self._validate & nmt.VALMSGID:
                 raise nme.NMEAMessageError(erm) from err
-- 
2.43.0


From 6f50c6dd5bdf53eccaf33503536062ca42e0eab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 02/25] fix: generate checksum for created messages without a
 definition

---
 src/pynmeagps/nmeamessage.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 1c0135e..e2cee30 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -126,9 +126,8 @@ class NMEAMessage:
             # self._checksum = kwargs.get("checksum", None)
             pdict = self._get_dict(**kwargs)  # get payload definition dict
             if pdict is None:  # definition not yet implemented
-                if "payload" in kwargs:
-                    self._set_attribute_nominal(kwargs["payload"])
-                return
+                self._set_attribute_nominal(self._payload)
+                pdict = {}
             for key in pdict.keys():  # process each attribute in dict
                 pindex, gindex = self._set_attribute(
                     pindex, pdict, key, gindex, **kwargs
-- 
2.43.0


From 81fb1b3fb98a5c9426404e44b44ae8f1e3c94d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 03/25] fix: parsing PSSNSNC does not alter the raw payload

---
 src/pynmeagps/nmeamessage.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index e2cee30..347ac51 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -238,12 +238,10 @@ class NMEAMessage:
         try:
             # all attribute values have been provided
             if self._streaming:
+                val = self._payload[pindex]
                 # remove group delimiters in proprietary PSSNSNC message
                 if self.identity == "PSSNSNC":
-                    self._payload[pindex] = (
-                        self._payload[pindex].replace("[", "").replace("]", "")
-                    )
-                val = self._payload[pindex]
+                    val = val.replace("[", "").replace("]", "")
                 val = self.str2val(val, att)
             # some attribute values have been provided,
             # the rest will be set to a nominal value
-- 
2.43.0


From 56fd9137d4cfb53074a73571f38ae2d66f3dd073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 04/25] fix: do not share the payload list with callers of an
 immutable message

---
 src/pynmeagps/nmeamessage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 347ac51..4f0add7 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -122,7 +122,7 @@ class NMEAMessage:
         key = ""
 
         try:
-            self._payload = kwargs.get("payload", [])
+            self._payload = list(kwargs.get("payload", []))
             # self._checksum = kwargs.get("checksum", None)
             pdict = self._get_dict(**kwargs)  # get payload definition dict
             if pdict is None:  # definition not yet implemented
@@ -693,7 +693,7 @@ class NMEAMessage:
         :rtype: list
         """
 
-        return self._payload
+        return list(self._payload)
 
     @property
     def checksum(self) -> str | NoneType:
-- 
2.43.0


From 3c15cfa856a69244bc9da2d05f0171ecc8f8726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 05/25] fix: attributes of an immutable message cannot be
 deleted

---
 src/pynmeagps/nmeamessage.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 4f0add7..98b005f 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -618,6 +618,21 @@ class NMEAMessage:
 
         super().__setattr__(name, value)
 
+    def __delattr__(self, name):
+        """
+        Override delattr to make object immutable after instantiation.
+
+        :param str name: attribute name
+        :raises: NMEAMessageError
+        """
+
+        if self._immutable:
+            raise nme.NMEAMessageError(
+                f"Object is immutable. Deletion of {name} not permitted after initialisation."
+            )
+
+        super().__delattr__(name)
+
     def serialize(self) -> bytes:
         """
         Serialize message.
-- 
2.43.0


From 10363964214905fd9748dd46a29a44aaf78c237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 06/25] fix: bound repeating groups by the payload received

---
 src/pynmeagps/nmeamessage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 98b005f..34f084e 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -203,6 +203,8 @@ class NMEAMessage:
         # recursively process each group attribute,
         # incrementing the payload index and group index as we go
         for i in range(rng):
+            if self._streaming and pindex >= len(self._payload):
+                break  # payload exhausted
             gindex[-1] = i + 1
             for key1 in attd.keys():
                 pindex, gindex = self._set_attribute(
-- 
2.43.0


From 7d6c3f3e7c9a95bf3289eebadb5bfcb9ad8b292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 07/25] fix: quote repr arguments so that eval(repr) holds for
 any field content

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 34f084e..4836221 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -600,7 +600,7 @@ class NMEAMessage:
         """
 
         return (
-            f"NMEAMessage('{self._talker}','{self._msgID}', "
+            f"NMEAMessage({self._talker!r},{self._msgID!r}, "
             f"{self._mode}, payload={self._payload})"
         )
 
-- 
2.43.0


From 633daa461608225b513a0af41ca977b0c9f9cb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 08/25] fix: support ddmmyyyy dates (DTL) when parsing

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 4836221..8b47d14 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -744,7 +744,7 @@ class NMEAMessage:
         elif att == nmt.DE:  # decimal
             if vals != "":
                 val = float(vals)
-        elif att in (nmt.DT, nmt.DM):  # date
+        elif att in (nmt.DT, nmt.DTL, nmt.DM):  # date
             val = date2utc(vals, att)
         elif att == nmt.IN:  # integer
             if vals != "":
-- 
2.43.0


From 81fb707daa9352a75d281bc3e35f3d58520f28c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 09/25] fix: user-defined message IDs need not be upper case

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 8b47d14..28dd36c 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -321,7 +321,7 @@ class NMEAMessage:
             if self._defsource == nmt.DEF_PROP:  # proprietary
                 dic = self._get_dict_prop(key, **kwargs)
             elif self._defsource == nmt.DEF_USER:  # user defined
-                dic = self._userdefined[key]
+                dic = self._userdefined[self._msgID]
             else:  # standard
                 if self._mode == nmt.POLL:
                     dic = nmp.NMEA_PAYLOADS_POLL[key]
-- 
2.43.0


From 6b35ef7e9f49deb0bd7299ec2202bff0b64d1277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 10/25] fix: grouped attribute names may contain underscores

---
 src/pynmeagps/nmeahelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 8abfaf5..b721f4f 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -457,8 +457,8 @@ def groupsize(**kwargs) -> int:
 
     idx = 0
     for a in kwargs:
-        ai = a.split("_", 1)
-        if len(ai) > 1:
+        ai = a.rsplit("_", 1)
+        if len(ai) > 1 and ai[1].isdecimal():
             idx = max(idx, int(ai[1]))
     return idx
 
-- 
2.43.0


From a51a1963e5f031751d82b61fe2a9ee9a7745964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 11/25] fix: checksum is calculated over the encoded bytes

---
 src/pynmeagps/nmeahelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index b721f4f..a08a580 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -133,8 +133,8 @@ def calc_checksum(content: str) -> str:
     """
 
     cksum = 0
-    for sub in content:
-        cksum ^= ord(sub)
+    for sub in content.encode("utf-8", "surrogatepass"):
+        cksum ^= sub
     return f"{cksum:02X}"
 
 
-- 
2.43.0


From 08f1a4d0d884b01dac3c3c90a727f715bf42d9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 12/25] fix: haversine is defined for antipodal and coincident
 points

---
 src/pynmeagps/nmeahelpers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index a08a580..bb50851 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -486,9 +486,8 @@ def haversine(
     """
 
     phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
-    dist = radius * acos(
-        cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
-    )
+    cosd = cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
+    dist = radius * acos(max(min(cosd, 1.0), -1.0))
 
     return dist
 
-- 
2.43.0


From ed1e7a25eaf569b42e16630f594cf4965dfd0f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 13/25] fix: ISO6709 altitude carries a single sign

---
 src/pynmeagps/nmeahelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index bb50851..6f16d99 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -645,7 +645,7 @@ def llh2iso6709(lat: float, lon: float, alt: float, crs: str = WGS84) -> str:
     """
 
     lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, alt)]
-    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{alt}CRS{crs}/"
+    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{abs(alt)}CRS{crs}/"
 
 
 def msgdesc(msgID: str) -> str:
-- 
2.43.0


From febd87b60f09fb06eef9b9889d22e3b6e325bc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 14/25] fix: NMEA lat/lon minutes never round up to 60

---
 src/pynmeagps/nmeahelpers.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 6f16d99..977ecda 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -201,21 +201,13 @@ def ddd2dmm(degrees: float, att: Literal["LA", "LN"], hpmode: bool = False) -> s
     """
 
     try:
-        degrees = abs(degrees)
-        degrees, minutes = divmod(degrees * 60, 60)
-        degrees = int(degrees * 100)
-        if hpmode:
-            if att == LA:
-                dmm = f"{degrees + minutes:.7f}".zfill(12)
-            else:  # LN
-                dmm = f"{degrees + minutes:.7f}".zfill(13)
-        else:
-            if att == LA:
-                dmm = f"{degrees + minutes:.5f}".zfill(10)
-            else:  # LN
-                dmm = f"{degrees + minutes:.5f}".zfill(11)
-        return dmm
-    except (TypeError, ValueError):
+        dp = 7 if hpmode else 5
+        scale = 10**dp
+        # round before splitting so that minutes can't round up to 60
+        degs, minutes = divmod(round(abs(degrees) * 60 * scale), 60 * scale)
+        mins, frac = divmod(minutes, scale)
+        return f"{degs:0{2 if att == LA else 3}d}{mins:02d}.{frac:0{dp}d}"
+    except (OverflowError, TypeError, ValueError):
         return ""
 
 
-- 
2.43.0


From e1f50dd0c3ded69e08b5d809750149a4ccbcf07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 15/25] fix: displayed minutes and seconds never round up to 60

---
 src/pynmeagps/nmeahelpers.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 977ecda..2163db7 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -225,14 +225,14 @@ def deg2dmm(degrees: float, att: Literal["LA", "LN"]) -> str:
 
     try:
         negative = degrees < 0
-        degrees = abs(degrees)
-        degrees, minutes = divmod(degrees * 60, 60)
+        # round before splitting so that minutes can't round up to 60
+        degrees, minutes = divmod(round(abs(degrees) * 60 * 10**7), 60 * 10**7)
         if negative:
             sfx = "S" if att == LA else "W"
         else:
             sfx = "N" if att == LA else "E"
-        return f"{int(degrees)}\u00b0{round(minutes,7)}\u2032{sfx}"
-    except (TypeError, ValueError):
+        return f"{degrees}\u00b0{minutes / 10**7}\u2032{sfx}"
+    except (OverflowError, TypeError, ValueError):
         return ""
 
 
@@ -250,15 +250,15 @@ def deg2dms(degrees: float, att: Literal["LA", "LN"]) -> str:
 
     try:
         negative = degrees < 0
-        degrees = abs(degrees)
-        minutes, seconds = divmod(degrees * 3600, 60)
+        # round before splitting so that seconds can't round up to 60
+        minutes, seconds = divmod(round(abs(degrees) * 3600 * 10**5), 60 * 10**5)
         degrees, minutes = divmod(minutes, 60)
         if negative:
             sfx = "S" if att == LA else "W"
         else:
             sfx = "N" if att == LA else "E"
-        return f"{int(degrees)}\u00b0{int(minutes)}\u2032{round(seconds,5)}\u2033{sfx}"
-    except (TypeError, ValueError):
+        return f"{degrees}\u00b0{minutes}\u2032{seconds / 10**5}\u2033{sfx}"
+    except (OverflowError, TypeError, ValueError):
         return ""
 
 
-- 
2.43.0


From f25489ff9a023568f968e7da0231dc778f5ce406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 16/25] fix: time of week is exact and always within the week

---
 src/pynmeagps/nmeahelpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 2163db7..8f4d578 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -13,7 +13,7 @@ Created on 04 Mar 2021
 
 import re
 from datetime import datetime, timedelta, timezone
-from math import acos, asin, atan2, cos, floor, pi, sin, sqrt
+from math import acos, asin, atan2, cos, pi, sin, sqrt
 from types import NoneType
 from typing import Literal
 
@@ -764,10 +764,10 @@ def utc2wnotow(
         rollover = 1024
 
     ls = 0 if gnss == GLO else leapsecond(utc, gnss)
-    ts = ((utc - ep0).total_seconds() + ls) * 1000
-    wno = floor((utc - ep0).days / 7)
+    # GNSS time is ahead of UTC by the leapsecond offset
+    ts = (utc - ep0) // timedelta(milliseconds=1) + ls * 1000
+    wno, tow = divmod(ts, 604800000)
     wnom = wno % rollover
-    tow = int(ts - wno * 604800000)
     return wnom if modwno else wno, tow, ls
 
 
-- 
2.43.0


From d18e37262240bb877d173d901dacdc19b70e909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 17/25] fix: leapsecond offset of a GNSS epoch is looked up in
 UTC

---
 src/pynmeagps/nmeahelpers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 8f4d578..55d3f87 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -834,7 +834,12 @@ def wnotow2utc(
     while True:
         utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
         if gnss != GLO:  # apply leapsecond offset
-            lps = leapsecond(utc, gnss) if ls is None else ls
+            if ls is None:
+                lps = leapsecond(utc, gnss)
+                # utc is still GNSS time, which is ahead of UTC
+                lps = leapsecond(utc - timedelta(seconds=lps), gnss)
+            else:
+                lps = ls
             utc -= timedelta(seconds=lps)
         if not autoroll:
             break
-- 
2.43.0


From af60d3e480c28bd6d17bd304ea3b9257be603df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 18/25] fix: dechunk keeps a chunk whose terminator is in the
 next segment

---
 src/pynmeagps/socketwrapper.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index 18358ed..693007e 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -163,15 +163,18 @@ class SocketWrapper:
                 break
             try:
                 chunk_length = int(length_bytes.strip(), 16)
+                if chunk_length < 0:
+                    raise ValueError()
             except ValueError:
                 # residual bytes at beginning of stream
                 break
             if chunk_length != 0:
-                chunk = instream.read(chunk_length)
-                if len(chunk) != chunk_length:
-                    # premature end of chunk bytes
+                chunk = instream.read(min(chunk_length + 2, len(segment)))
+                if len(chunk) != chunk_length + 2:
+                    # premature end of chunk bytes or chunk terminator
                     partial = length_bytes + chunk
                     break
+                chunk = chunk[:-2]
                 try:  # pragma: no cover
                     if self._encoding & ENCODE_GZIP:
                         chunk = decompress(chunk, wbits=MAX_WBITS | 16)
@@ -183,9 +186,7 @@ class SocketWrapper:
                     self.logger.error(f"Error decompressing data: {err}")
                     # parser will discard data
                 chunks += chunk
-
-            instream.readline()
-            if chunk_length == 0:
+            else:
                 # final chunk
                 break
 
-- 
2.43.0


From caf1453f3c2cc3f17fc6d9dfb22101bcb9dc898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 19/25] fix: a stray $ before a sentence does not hide the
 sentence

---
 src/pynmeagps/nmeareader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeareader.py b/src/pynmeagps/nmeareader.py
index 8721277..02bdd3d 100644
--- a/src/pynmeagps/nmeareader.py
+++ b/src/pynmeagps/nmeareader.py
@@ -137,6 +137,8 @@ class NMEAReader:
                 if byte1 != b"\x24":  # not NMEA, discard and continue
                     continue
                 byte2 = self._read_bytes(1)  # read 2nd byte to confirm protocol
+                while byte2 == b"\x24" and not self._nmea_only:
+                    byte2 = self._read_bytes(1)  # discard stray start delimiter
                 bytehdr = byte1 + byte2
                 if bytehdr in NMEA_HDR:  # it's a NMEA message
                     byten = self._read_line()  # NMEA protocol is CRLF terminated
-- 
2.43.0


From 9a02bfd29b79690d63f6a9fa65fd752267c8dfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 20/25] fix: PTNL,GGKx definition is reachable

---
 src/pynmeagps/nmeatypes_get_prop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeatypes_get_prop.py b/src/pynmeagps/nmeatypes_get_prop.py
index b9f76e1..326f299 100644
--- a/src/pynmeagps/nmeatypes_get_prop.py
+++ b/src/pynmeagps/nmeatypes_get_prop.py
@@ -815,7 +815,7 @@ NMEA_PAYLOADS_GET_PROP = {
         "height": ST,  # starts with "EHT-"
         "hunit": CH,  # 'M'
     },
-    "TNLGGKx": {
+    "TNLGGKX": {
         "msgId": ST,  # "GGK"
         "utctime": TM,
         "utcdate": DT,
-- 
2.43.0


From 2376511bca35571f0cb27980204ee078c2261d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 21/25] fix: PQTM error responses are decoded as such for every
 command

---
 src/pynmeagps/nmeamessage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 28dd36c..81e9e09 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -345,6 +345,9 @@ class NMEAMessage:
         :rtype: dict
         """
 
+        if key[0:3] == "QTM":  # command responses
+            key = self._get_dict_qtmacknak(key, self._mode)
+
         if key == "QTMCFGGEOFENCE":
             key = self._get_dict_qtmcfggeofence(key, self._mode, **kwargs)
         elif key == "QTMCFGMSGRATE":
@@ -359,8 +362,6 @@ class NMEAMessage:
             key = self._get_dict_qtmsn(key, self._mode, **kwargs)
         elif key == "STMDRSENMSG":
             key = self._get_dict_stmdrsenmsg(key, self._mode, **kwargs)
-        elif key[0:3] == "QTM":
-            key = self._get_dict_qtmacknak(key, self._mode)
 
         if self._mode == nmt.POLL:
             return nmpp.NMEA_PAYLOADS_POLL_PROP[key]
-- 
2.43.0


From bfcaaa76f0aa8e3b87cdf2ac89bbc278bf9ed81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:15 +0000
Subject: [PATCH 22/25] fix: displayed minutes and seconds never use exponent
 notation

---
 src/pynmeagps/nmeahelpers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 55d3f87..461389f 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -231,7 +231,10 @@ def deg2dmm(degrees: float, att: Literal["LA", "LN"]) -> str:
             sfx = "S" if att == LA else "W"
         else:
             sfx = "N" if att == LA else "E"
-        return f"{degrees}\u00b0{minutes / 10**7}\u2032{sfx}"
+        # (fixed point, as small values would otherwise be formatted with an exponent)
+        mins, frac = divmod(minutes, 10**7)
+        frac = f"{frac:07d}".rstrip("0") or "0"
+        return f"{degrees}\u00b0{mins}.{frac}\u2032{sfx}"
     except (OverflowError, TypeError, ValueError):
         return ""
 
@@ -257,7 +260,10 @@ def deg2dms(degrees: float, att: Literal["LA", "LN"]) -> str:
             sfx = "S" if att == LA else "W"
         else:
             sfx = "N" if att == LA else "E"
-        return f"{degrees}\u00b0{minutes}\u2032{seconds / 10**5}\u2033{sfx}"
+        # (fixed point, as small values would otherwise be formatted with an exponent)
+        secs, frac = divmod(seconds, 10**5)
+        frac = f"{frac:05d}".rstrip("0") or "0"
+        return f"{degrees}\u00b0{minutes}\u2032{secs}.{frac}\u2033{sfx}"
     except (OverflowError, TypeError, ValueError):
         return ""
 
-- 
2.43.0


From 5b1cafed7d3cb1850d32b55b3900daa3a959bbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:21 +0000
Subject: [PATCH 23/25] fix: automatic rollover finds the latest epoch across
 leap seconds

---
 src/pynmeagps/nmeahelpers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 461389f..f6003f2 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -837,6 +837,7 @@ def wnotow2utc(
     tow %= 604800000
     current = datetime.now(timezone.utc)
     i = 0
+    latest = None
     while True:
         utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
         if gnss != GLO:  # apply leapsecond offset
@@ -847,9 +848,11 @@ def wnotow2utc(
             else:
                 lps = ls
             utc -= timedelta(seconds=lps)
-        if not autoroll:
+        # (each rollover has its own leapsecond offset)
+        if latest is not None and utc > current:
             break
-        if utc + timedelta(days=rollover * 7) > current:
+        latest = utc
+        if not autoroll:
             break
         i += 1
-    return utc
+    return latest
-- 
2.43.0


From 2b53138e2c812a5bb48ed89cc5014ea151c7beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 24/25] fix: hex2str pads with zeros for ten or more digits

---
 src/pynmeagps/nmeahelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index f6003f2..17b20cc 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -501,7 +501,7 @@ def hex2str(num: int, padding: int = 0) -> str:
     :rtype: str
     """
 
-    pad = f"{padding:02d}" if padding else ""
+    pad = f"0{padding}" if padding else ""
     return f"{num:{pad}x}".upper()
 
 
-- 
2.43.0


From c7f62044e20723199950f9d2d8dce4b5deffb084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:02 +0000
Subject: [PATCH 25/25] fix: dates and times with too few digits were taken for
 others

strptime accepts single digit fields, so e.g. a time field 1234.5 became
12:03:04.5 and a date field 10224 became 10 Feb 2024; like other malformed
fields they are now blank.
---
 src/pynmeagps/nmeahelpers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 17b20cc..66e69e3 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -179,6 +179,9 @@ def date2utc(dates: str, form: Literal["DT", "DTL", "DM"] = DT) -> datetime.date
             dform = "%d%m%Y"
         else:
             dform = "%d%m%y"
+        # (strptime would accept fewer digits e.g. "10224" as ddmmyy)
+        if len(dates) != (8 if form == "DTL" else 6) or not dates.isdecimal():
+            raise ValueError()
         utc = datetime.strptime(dates, dform)
         return utc.date()
     except (TypeError, ValueError):
@@ -722,6 +725,9 @@ def time2utc(times: str) -> datetime | str:
     try:
         if len(times) == 6:  # decimal seconds is omitted
             times = times + ".00"
+        # (strptime would accept fewer digits e.g. "1234.5" as hhmmss.s)
+        if not times[0:6].isdecimal():
+            raise ValueError()
         utc = datetime.strptime(times, "%H%M%S.%f")
         return utc.time()
     except (TypeError, ValueError):
-- 
2.43.0

