From 241d320f7afe103a14f8ab19507eef9f6c40fd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 01/75] fix: compare scaling in DefaultsData equality

---
 Sourcecode/include/mx/api/DefaultsData.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sourcecode/include/mx/api/DefaultsData.h b/Sourcecode/include/mx/api/DefaultsData.h
index 81f254f..8f58b15 100644
--- a/Sourcecode/include/mx/api/DefaultsData.h
+++ b/Sourcecode/include/mx/api/DefaultsData.h
@@ -123,6 +123,8 @@ namespace mx
         };
         
         MXAPI_EQUALS_BEGIN( DefaultsData )
+        MXAPI_DOUBLES_EQUALS_MEMBER( scalingMillimeters )
+        MXAPI_DOUBLES_EQUALS_MEMBER( scalingTenths )
         MXAPI_EQUALS_MEMBER( pageLayout )
         MXAPI_EQUALS_MEMBER( systemLayout )
         MXAPI_EQUALS_MEMBER( appearance )
-- 
2.43.0


From 8ae4aff2ad6ceef0202776dce4428721fdd917ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 02/75] fix: compare text in WordsData equality

---
 Sourcecode/include/mx/api/WordsData.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/include/mx/api/WordsData.h b/Sourcecode/include/mx/api/WordsData.h
index 33362d4..65b46b4 100644
--- a/Sourcecode/include/mx/api/WordsData.h
+++ b/Sourcecode/include/mx/api/WordsData.h
@@ -34,6 +34,7 @@ namespace mx
         };
         
         MXAPI_EQUALS_BEGIN( WordsData )
+        MXAPI_EQUALS_MEMBER( text )
         MXAPI_EQUALS_MEMBER( positionData )
         MXAPI_EQUALS_MEMBER( fontData )
         MXAPI_EQUALS_MEMBER( isColorSpecified )
-- 
2.43.0


From 9a392fbd0212b07a01dc72cdce22ae347e4db6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 03/75] fix: compare rehearsals in DirectionData equality

---
 Sourcecode/include/mx/api/DirectionData.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/include/mx/api/DirectionData.h b/Sourcecode/include/mx/api/DirectionData.h
index 2a66026..a612bbc 100644
--- a/Sourcecode/include/mx/api/DirectionData.h
+++ b/Sourcecode/include/mx/api/DirectionData.h
@@ -122,6 +122,7 @@ namespace mx
         MXAPI_EQUALS_MEMBER( chords )
         MXAPI_EQUALS_MEMBER( segnos )
         MXAPI_EQUALS_MEMBER( codas )
+        MXAPI_EQUALS_MEMBER( rehearsals )
         MXAPI_EQUALS_END;
         MXAPI_NOT_EQUALS_AND_VECTORS( DirectionData );
 	}
-- 
2.43.0


From 35bb8df5452bc6244d90a7a8ac777aeea770d760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 04/75] fix: compare notehead in NoteData equality

---
 Sourcecode/include/mx/api/NoteData.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/include/mx/api/NoteData.h b/Sourcecode/include/mx/api/NoteData.h
index 1c1539b..0a697fb 100644
--- a/Sourcecode/include/mx/api/NoteData.h
+++ b/Sourcecode/include/mx/api/NoteData.h
@@ -139,6 +139,7 @@ namespace mx
         MXAPI_EQUALS_MEMBER( isTieStop )
         MXAPI_EQUALS_MEMBER( noteType )
         MXAPI_EQUALS_MEMBER( pitchData )
+        MXAPI_EQUALS_MEMBER( notehead )
         MXAPI_EQUALS_MEMBER( userRequestedVoiceNumber )
         MXAPI_EQUALS_MEMBER( stem )
         MXAPI_EQUALS_MEMBER( tickTimePosition )
-- 
2.43.0


From 4b7ec95a52540ae075f91d3e62fbab3a18584704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 05/75] fix: compare bracketType and number in PartGroupData
 equality

---
 Sourcecode/include/mx/api/PartGroupData.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sourcecode/include/mx/api/PartGroupData.h b/Sourcecode/include/mx/api/PartGroupData.h
index 42c7e66..e7b4cb7 100644
--- a/Sourcecode/include/mx/api/PartGroupData.h
+++ b/Sourcecode/include/mx/api/PartGroupData.h
@@ -72,6 +72,8 @@ namespace mx
         MXAPI_EQUALS_MEMBER( displayName )
         MXAPI_EQUALS_MEMBER( abbreviation )
         MXAPI_EQUALS_MEMBER( displayAbbreviation )
+        MXAPI_EQUALS_MEMBER( bracketType )
+        MXAPI_EQUALS_MEMBER( number )
         MXAPI_EQUALS_END;
         MXAPI_NOT_EQUALS_AND_VECTORS( PartGroupData );
     }
-- 
2.43.0


From 8ee3ef181313deeb5c6cb8eb494079c7c8a3083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 06/75] fix: write dash-length once in EmptyLineAttributes

---
 Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp b/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp
index 9ebc909..e62f40c 100644
--- a/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp
@@ -63,7 +63,6 @@ namespace mx
         {
             if ( hasValues() )
             {
-                streamAttribute( os, dashLength, "dash-length", hasDashLength );
                 streamAttribute( os, lineShape, "line-shape", hasLineShape );
                 streamAttribute( os, lineType, "line-type", hasLineType );
                 streamAttribute( os, dashLength, "dash-length", hasDashLength );
-- 
2.43.0


From afaaedc72289adccaba9b03a3afbfe453c55dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 07/75] fix: read the xlink attributes of opus under the names
 they are written with

---
 Sourcecode/private/mx/core/elements/OpusAttributes.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/OpusAttributes.cpp b/Sourcecode/private/mx/core/elements/OpusAttributes.cpp
index dd5aa18..e998866 100644
--- a/Sourcecode/private/mx/core/elements/OpusAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/OpusAttributes.cpp
@@ -63,7 +63,7 @@ namespace mx
         
             for( ; it != endIter; ++it )
             {
-                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "href" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "xlink:href" ) ) { continue; }
                 
                 if( it->getName() == "xlink:type" )
                 {
@@ -71,10 +71,10 @@ namespace mx
                     continue;
                 }
                 
-                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "role" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "title" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "show", &parseXlinkShow ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "actuate", &parseXlinkActuate ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "xlink:role" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "xlink:title" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "xlink:show", &parseXlinkShow ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "xlink:actuate", &parseXlinkActuate ) ) { continue; }
             }
         
             if( !isHrefFound )
-- 
2.43.0


From 472a908bc67492b9ec976c686f8fbcdb7dc36398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 08/75] fix: read the xlink attributes of link under the names
 they are written with

---
 Sourcecode/private/mx/core/elements/LinkAttributes.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/LinkAttributes.cpp b/Sourcecode/private/mx/core/elements/LinkAttributes.cpp
index 21f8475..ef6bd5c 100644
--- a/Sourcecode/private/mx/core/elements/LinkAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/LinkAttributes.cpp
@@ -91,7 +91,7 @@ namespace mx
             
             for( ; it != endIter; ++it )
             {
-                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "href" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "xlink:href" ) ) { continue; }
                 
                 if( it->getName() == "xlink:type" )
                 {
@@ -99,10 +99,10 @@ namespace mx
                     continue;
                 }
                 
-                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "role" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "title" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "show", &parseXlinkShow ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "actuate", &parseXlinkActuate ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "xlink:role" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "xlink:title" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "xlink:show", &parseXlinkShow ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "xlink:actuate", &parseXlinkActuate ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, name, hasName, "name" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, element, hasElement, "element" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, position, hasPosition, "position" ) ) { continue; }
-- 
2.43.0


From fdefd6013c9a1f61a4bd6cd10a8754d2500f1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 09/75] fix: read the second bezier point of tied under the
 names it is written with

---
 Sourcecode/private/mx/core/elements/TiedAttributes.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/TiedAttributes.cpp b/Sourcecode/private/mx/core/elements/TiedAttributes.cpp
index abd228b..6f94347 100644
--- a/Sourcecode/private/mx/core/elements/TiedAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/TiedAttributes.cpp
@@ -123,11 +123,11 @@ namespace mx
                 if( parseAttribute( message, it, className, isSuccess, placement, hasPlacement, "placement", &parseAboveBelow ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, orientation, hasOrientation, "orientation", &parseOverUnder ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, bezierOffset, hasBezierOffset, "bezier-offset" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, bezierOffset2, hasBezierOffset2, "bezier-offset-2" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, bezierOffset2, hasBezierOffset2, "bezier-offset2" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, bezierX, hasBezierX, "bezier-x" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, bezierY, hasBezierY, "bezier-y" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, bezierX2, hasBezierX2, "bezier-x-2" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, bezierY2, hasBezierY2, "bezier-y-2" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, bezierX2, hasBezierX2, "bezier-x2" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, bezierY2, hasBezierY2, "bezier-y2" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, color, hasColor, "color" ) ) { continue; }
             }
         
-- 
2.43.0


From 1c741960d5d53da9a5772be485986dd685071c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 10/75] fix: report missing required attributes of bracket

---
 .../private/mx/core/elements/BracketAttributes.cpp  | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/BracketAttributes.cpp b/Sourcecode/private/mx/core/elements/BracketAttributes.cpp
index 5bd4d45..bcc61b7 100644
--- a/Sourcecode/private/mx/core/elements/BracketAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/BracketAttributes.cpp
@@ -92,7 +92,18 @@ namespace mx
                 if( parseAttribute( message, it, className, isSuccess, color, hasColor, "color" ) ) { continue; }
             }
         
-        
+            if( !isTypeFound )
+            {
+                isSuccess = false;
+                message << className << ": 'type' is a required attribute but was not found" << std::endl;
+            }
+
+            if( !isLineEndFound )
+            {
+                isSuccess = false;
+                message << className << ": 'line-end' is a required attribute but was not found" << std::endl;
+            }
+
             MX_RETURN_IS_SUCCESS;
         }
 
-- 
2.43.0


From d665405eca989dbb97ae08892835ebad340609ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 11/75] fix: escape double quotes in strings, which are also
 written as attribute values

---
 Sourcecode/private/mx/core/XsString.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Sourcecode/private/mx/core/XsString.cpp b/Sourcecode/private/mx/core/XsString.cpp
index bf29c5a..d566811 100644
--- a/Sourcecode/private/mx/core/XsString.cpp
+++ b/Sourcecode/private/mx/core/XsString.cpp
@@ -71,6 +71,10 @@ namespace mx
                         os << "&amp;";
                         break;
                         
+                    case '"':
+                        os << "&quot;";
+                        break;
+                        
                     default:
                         os << c;
                         break;
-- 
2.43.0


From 07df9b533cb93877ce5530719b7b8f0bfbcb51d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 12/75] fix: escape the custom text of extensible enumerations

---
 Sourcecode/private/mx/core/Enums.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/core/Enums.cpp b/Sourcecode/private/mx/core/Enums.cpp
index cbc51ea..b6d20f9 100644
--- a/Sourcecode/private/mx/core/Enums.cpp
+++ b/Sourcecode/private/mx/core/Enums.cpp
@@ -4,6 +4,7 @@
 
 // self
 #include "mx/core/Enums.h"
+#include "mx/core/XsString.h"
 
 // std
 #include <sstream>
@@ -846,7 +847,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const DistanceType& value )
         {
-            return os << toString( value );
+            return toStream( os, XsString( toString( value ) ) );
         }
 
         std::ostream& operator<<( std::ostream& os, const DistanceType& value )
@@ -1008,7 +1009,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const DynamicsValue& value )
         {
-            return os << toString( value );
+            return toStream( os, XsString( toString( value ) ) );
         }
 
         std::ostream& operator<<( std::ostream& os, const DynamicsValue& value )
@@ -1994,7 +1995,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const LineWidthType& value )
         {
-            return os << toString( value );
+            return toStream( os, XsString( toString( value ) ) );
         }
 
         std::ostream& operator<<( std::ostream& os, const LineWidthType& value )
@@ -2340,7 +2341,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const ModeValue& value )
         {
-            return os << toString( value );
+            return toStream( os, XsString( toString( value ) ) );
         }
 
         std::ostream& operator<<( std::ostream& os, const ModeValue& value )
-- 
2.43.0


From f5ddeb9dde3794aa27c2ceb50f47c4a69b8a909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 13/75] fix: initialise the spacing flag of a list made from a
 set

---
 Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp b/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
index a7c62c9..550d048 100644
--- a/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
+++ b/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
@@ -35,6 +35,7 @@ namespace mx
         
         CommaSeparatedListOfPositiveIntegers::CommaSeparatedListOfPositiveIntegers( const std::set<int>& values )
         :myValues()
+        ,myIsSpacingDesired( false )
         {
             setValues( values );
         }
-- 
2.43.0


From 600bbbb4f78aba978304a12b05daaaf5211c65a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:40 +0000
Subject: [PATCH 14/75] fix: keep exclusive decimal bounds when the value would
 round onto the bound

---
 Sourcecode/private/mx/core/Decimals.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/Decimals.cpp b/Sourcecode/private/mx/core/Decimals.cpp
index eb11eb8..b69d2ac 100644
--- a/Sourcecode/private/mx/core/Decimals.cpp
+++ b/Sourcecode/private/mx/core/Decimals.cpp
@@ -354,7 +354,8 @@ namespace mx
 
         DecimalType minExclusive( DecimalType min, DecimalType val )
         {
-            if( val <= min )
+            // smaller amounts would be rounded to min when the value is stored
+            if( val < min + NON_ZERO_AMOUNT )
             {
                 return min + NON_ZERO_AMOUNT;
             }
@@ -374,7 +375,8 @@ namespace mx
 
         DecimalType maxExclusive( DecimalType max, DecimalType val )
         {
-            if( val >= max )
+            // smaller amounts would be rounded to max when the value is stored
+            if( val > max - NON_ZERO_AMOUNT )
             {
                 return max - NON_ZERO_AMOUNT;
             }
-- 
2.43.0


From 0007d785b8570a9848ef580108e1c42a30500aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:06 +0000
Subject: [PATCH 15/75] fix: convert the fa up notehead and the sharp-sharp
 accidental in both directions

---
 Sourcecode/private/mx/impl/Converter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index 68345e7..0991219 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -67,6 +67,7 @@ namespace mx
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::re, api::Notehead::re },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::mi, api::Notehead::mi },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::fa, api::Notehead::fa },
+            std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::faUp, api::Notehead::faUp },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::la, api::Notehead::la },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::so  , api::Notehead::so },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::ti, api::Notehead::ti },
@@ -88,6 +89,7 @@ namespace mx
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::natural, api::Accidental::natural },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::flat, api::Accidental::flat },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::doubleSharp, api::Accidental::doubleSharp },
+            std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::sharpSharp, api::Accidental::sharpSharp },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::flatFlat, api::Accidental::flatFlat },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::naturalSharp, api::Accidental::naturalSharp },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::naturalFlat, api::Accidental::naturalFlat },
-- 
2.43.0


From a8896b99acff5736688bc51c059f067f0c7080f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:06 +0000
Subject: [PATCH 16/75] fix: write a zero diatonic transposition that a reader
 would otherwise guess

---
 Sourcecode/private/mx/impl/Converter.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index 0991219..039ad83 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -1867,19 +1867,14 @@ namespace mx
                         });
             }
 
-            if( inTransposeData.diatonic != 0 )
+            // a reader guesses the diatonic value from the chromatic value when it is absent, so it can only be
+            // omitted when both are zero within the octave
+            const auto harmonic = inTransposeData.diatonic + octave * -7;
+            if( harmonic != 0 || inTransposeData.chromatic % 12 != 0 )
             {
-                auto harmonic = inTransposeData.diatonic;
-                if( octave != 0 )
-                {
-                    harmonic += octave * -7;
-                }
-                if( harmonic != 0 )
-                {
-                    transposePtr->setHasDiatonic( true );
-                    auto dia = transposePtr->getDiatonic();
-                    dia->setValue( mx::core::Integer{ harmonic } );
-                }
+                transposePtr->setHasDiatonic( true );
+                auto dia = transposePtr->getDiatonic();
+                dia->setValue( mx::core::Integer{ harmonic } );
             }
 
             return transposePtr;
-- 
2.43.0


From b93c4e8a5843980de906c5fa26a831820d8b565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:50 +0000
Subject: [PATCH 17/75] fix: map the fingernails technical mark to its MusicXML
 element

---
 Sourcecode/private/mx/impl/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index 039ad83..c94dd65 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -328,7 +328,7 @@ namespace mx
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::tap, api::MarkType::unspecified },
             std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::heel, api::MarkType::heel },
             std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::toe, api::MarkType::toe },
-            std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::fingernails, api::MarkType::unspecified },
+            std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::fingernails, api::MarkType::fingernails },
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::hole, api::MarkType::unspecified },
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::arrow, api::MarkType::unspecified },
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::handbell, api::MarkType::unspecified },
-- 
2.43.0


From 0d765ccc661bf6c3bbff02cb689c3cb32715aa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 18/75] fix: arrow: circular-arrow was overwritten by the
 arrow-direction reading

---
 Sourcecode/private/mx/core/elements/Arrow.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/Arrow.cpp b/Sourcecode/private/mx/core/elements/Arrow.cpp
index e0a9d99..f527aee 100644
--- a/Sourcecode/private/mx/core/elements/Arrow.cpp
+++ b/Sourcecode/private/mx/core/elements/Arrow.cpp
@@ -141,13 +141,13 @@ namespace mx
                 {
                     myChoice = Choice::circularArrow;
                     isSuccess &= myCircularArrow->fromXElement( message, *it );
-                    // this is a mistake I think MX_RETURN_IS_SUCCESS;
+                    MX_RETURN_IS_SUCCESS;
                 }
-                myChoice = Choice::arrowGroup;
-                isSuccess = myArrowGroup->fromXElement( message, xelement );
-                // this is a mistake I think MX_RETURN_IS_SUCCESS;
             }
 
+            myChoice = Choice::arrowGroup;
+            isSuccess &= myArrowGroup->fromXElement( message, xelement );
+
             MX_RETURN_IS_SUCCESS;
         }
 
-- 
2.43.0


From a7c8135c7f48b06d29c9da1b56f780282a2e078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 19/75] fix: notehead-text: texts were read from the parent
 element

---
 Sourcecode/private/mx/core/elements/NoteheadText.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/NoteheadText.cpp b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
index cb92a20..c9ef69f 100644
--- a/Sourcecode/private/mx/core/elements/NoteheadText.cpp
+++ b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
@@ -102,7 +102,7 @@ namespace mx
                 {
                     auto item = makeNoteheadTextChoice();
                     item->setChoice( NoteheadTextChoice::Choice::accidentalText );
-                    isSuccess &= item->getAccidentalText()->fromXElement( message, xelement );
+                    isSuccess &= item->getAccidentalText()->fromXElement( message, *it );
                     
                     if( !isFirstItemAdded && myNoteheadTextChoiceSet.size() == 1 )
                     {
@@ -119,7 +119,7 @@ namespace mx
                 {
                     auto item = makeNoteheadTextChoice();
                     item->setChoice( NoteheadTextChoice::Choice::displayText );
-                    isSuccess &= item->getDisplayText()->fromXElement( message, xelement );
+                    isSuccess &= item->getDisplayText()->fromXElement( message, *it );
                     
                     if( !isFirstItemAdded && myNoteheadTextChoiceSet.size() == 1 )
                     {
-- 
2.43.0


From fb17d9349c1af9e22a3a8feb104b4b86d6dca7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 20/75] fix: hole-closed: location attribute was not read

---
 Sourcecode/private/mx/core/elements/HoleClosed.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/HoleClosed.cpp b/Sourcecode/private/mx/core/elements/HoleClosed.cpp
index 2f6e7fb..b022bf8 100644
--- a/Sourcecode/private/mx/core/elements/HoleClosed.cpp
+++ b/Sourcecode/private/mx/core/elements/HoleClosed.cpp
@@ -89,10 +89,10 @@ namespace mx
         
         bool HoleClosed::fromXElementImpl( std::ostream& message, ::ezxml::XElement& xelement )
         {
-            MX_UNUSED( message );
-            MX_UNUSED( xelement );
+            bool isSuccess = true;
+            isSuccess &= myAttributes->fromXElement( message, xelement );
             myValue = parseHoleClosedValue( xelement.getValue() );
-            return true;
+            MX_RETURN_IS_SUCCESS;
         }
     }
 }
-- 
2.43.0


From c23c6133e8a0eeddc7d81f05827f70b47895c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 21/75] fix: metronome-tuplet: normal-type and normal-dot were
 not read

---
 .../mx/core/elements/MetronomeTuplet.cpp        | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp b/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp
index 0d20fcb..855cf51 100644
--- a/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp
+++ b/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp
@@ -5,7 +5,9 @@
 #include "mx/core/elements/MetronomeTuplet.h"
 #include "mx/core/FromXElement.h"
 #include "mx/core/elements/ActualNotes.h"
+#include "mx/core/elements/NormalDot.h"
 #include "mx/core/elements/NormalNotes.h"
+#include "mx/core/elements/NormalType.h"
 #include "mx/core/elements/TimeModificationNormalTypeNormalDot.h"
 #include <iostream>
 
@@ -148,7 +150,20 @@ namespace mx
             {
                 if ( importElement( message, *it, isSuccess, *myActualNotes, isActualNotesFound ) ) { continue; }
                 if ( importElement( message, *it, isSuccess, *myNormalNotes, isNormalNotesFound ) ) { continue; }
-                if ( importElement( message, *it, isSuccess, *myTimeModificationNormalTypeNormalDot, myHasTimeModificationNormalTypeNormalDot ) ) { continue; }
+                if( it->getName() == "normal-type" )
+                {
+                    myHasTimeModificationNormalTypeNormalDot = true;
+                    isSuccess &= myTimeModificationNormalTypeNormalDot->getNormalType()->fromXElement( message, *it );
+                    continue;
+                }
+
+                if( it->getName() == "normal-dot" )
+                {
+                    myHasTimeModificationNormalTypeNormalDot = true;
+                    auto item = makeNormalDot();
+                    isSuccess &= item->fromXElement( message, *it );
+                    myTimeModificationNormalTypeNormalDot->addNormalDot( item );
+                }
             }
 
             if( !isActualNotesFound )
-- 
2.43.0


From 91b35b5af7e8553c17b602e03cb58f91da41fb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 22/75] fix: notations: other-notation was not recognized

---
 Sourcecode/private/mx/core/elements/Notations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Notations.cpp b/Sourcecode/private/mx/core/elements/Notations.cpp
index c04477a..c1d2ec2 100644
--- a/Sourcecode/private/mx/core/elements/Notations.cpp
+++ b/Sourcecode/private/mx/core/elements/Notations.cpp
@@ -265,7 +265,7 @@ namespace mx
                     isSuccess &= choice->getAccidentalMark()->fromXElement( message, *it );
                     myNotationsChoiceSet.push_back( choice );
                 }
-                else if ( elementName == "other-notations" )
+                else if ( elementName == "other-notation" )
                 {
                     auto choice = makeNotationsChoice();
                     choice->setChoice( NotationsChoice::Choice::otherNotation );
-- 
2.43.0


From 6f854840b399b0bcfa3e8fffdb1b9d30b88b0140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 23/75] fix: credit: link and bookmark between credit-words
 were read from the parent element

---
 Sourcecode/private/mx/core/elements/Credit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/Credit.cpp b/Sourcecode/private/mx/core/elements/Credit.cpp
index aa3d200..7ccbb9a 100644
--- a/Sourcecode/private/mx/core/elements/Credit.cpp
+++ b/Sourcecode/private/mx/core/elements/Credit.cpp
@@ -307,7 +307,7 @@ namespace mx
                         while( i != endIter && i->getName() == "link" )
                         {
                             auto link = makeLink();
-                            isSuccess &= link->fromXElement( message, xelement );
+                            isSuccess &= link->fromXElement( message, *i );
                             creditWordsGroup->addLink( link );
                             ++i;
                         }
@@ -316,7 +316,7 @@ namespace mx
                         while( i != endIter && i->getName() == "bookmark" )
                         {
                             auto bookmark = makeBookmark();
-                            isSuccess &= bookmark->fromXElement( message, xelement );
+                            isSuccess &= bookmark->fromXElement( message, *i );
                             creditWordsGroup->addBookmark( bookmark );
                             ++i;
                         }
-- 
2.43.0


From cdc434e73ee10af54933a298a8d89937d7046d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 24/75] fix: lyric: extend, laughing, humming and elided
 syllabic were lost, a lyric with a footnote was rejected

---
 Sourcecode/private/mx/core/FromXElement.cpp   | 1 +
 Sourcecode/private/mx/core/elements/Lyric.cpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/FromXElement.cpp b/Sourcecode/private/mx/core/FromXElement.cpp
index bf3c2c4..8cc809d 100644
--- a/Sourcecode/private/mx/core/FromXElement.cpp
+++ b/Sourcecode/private/mx/core/FromXElement.cpp
@@ -330,6 +330,7 @@ namespace mx
                 {
                     
                     isSuccess &= elisionSyllabicTextGroup->getElisionSyllabicGroup()->getSyllabic()->fromXElement( message, *iter );
+                    elisionSyllabicTextGroup->getElisionSyllabicGroup()->setHasSyllabic( true );
                     elisionSyllabicTextGroup->setHasElisionSyllabicGroup( true );
                     ++iter;
                     isIterIncremented = true;
diff --git a/Sourcecode/private/mx/core/elements/Lyric.cpp b/Sourcecode/private/mx/core/elements/Lyric.cpp
index 4094400..85b9182 100644
--- a/Sourcecode/private/mx/core/elements/Lyric.cpp
+++ b/Sourcecode/private/mx/core/elements/Lyric.cpp
@@ -209,7 +209,7 @@ namespace mx
                     static_cast<int>( LyricTextChoice::Choice::humming ) ) )
                 { isLyricTextChoiceFound = true; continue; }
                 
-                else
+                else if( it->getName() == "syllabic" || it->getName() == "text" )
                 {
                     myLyricTextChoice->setChoice( LyricTextChoice::Choice::syllabicTextGroup );
                     SyllabicTextGroupPtr ptr = myLyricTextChoice->getSyllabicTextGroup();
-- 
2.43.0


From 76f92b7423fc13cbe5c468509d9fe4c2c2e9e904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 25/75] fix: percussion: content was read from the percussion
 element itself

---
 Sourcecode/private/mx/core/elements/Percussion.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Percussion.cpp b/Sourcecode/private/mx/core/elements/Percussion.cpp
index 689ecaf..a6a1213 100644
--- a/Sourcecode/private/mx/core/elements/Percussion.cpp
+++ b/Sourcecode/private/mx/core/elements/Percussion.cpp
@@ -86,7 +86,14 @@ namespace mx
         {
             bool isSuccess = true;
             isSuccess &= myAttributes->fromXElement( message, xelement );
-            isSuccess &= myChoice->fromXElement( message, xelement );
+
+            auto it = xelement.begin();
+            if( it == xelement.end() )
+            {
+                message << "Percussion: a child element is required but was not found" << std::endl;
+                return false;
+            }
+            isSuccess &= myChoice->fromXElement( message, *it );
             MX_RETURN_IS_SUCCESS;
         }
 
-- 
2.43.0


From 8a28d2332f8d53dc75786550ed1e8918d58deb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 26/75] fix: play: content was read from the play element
 itself

---
 Sourcecode/private/mx/core/elements/Play.cpp | 53 ++++++++++++--------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/Play.cpp b/Sourcecode/private/mx/core/elements/Play.cpp
index bd489ab..5e3962d 100644
--- a/Sourcecode/private/mx/core/elements/Play.cpp
+++ b/Sourcecode/private/mx/core/elements/Play.cpp
@@ -172,29 +172,40 @@ namespace mx
 
         bool Play::fromXElementImpl( std::ostream& message, ::ezxml::XElement& xelement )
         {
-            if( xelement.getName() == "ipa" )
-            {
-                myChoice = Choice::ipa;
-                return getIpa()->fromXElement( message, xelement );
-            }
-            else if( xelement.getName() == "mute" )
-            {
-                myChoice = Choice::mute;
-                return getMute()->fromXElement( message, xelement );
-            }
-            else if( xelement.getName() == "semi-pitched" )
-            {
-                myChoice = Choice::semiPitched;
-                return getSemiPitched()->fromXElement( message, xelement );
-            }
-            else if( xelement.getName() == "other-play" )
+            bool isSuccess = true;
+            isSuccess &= myAttributes->fromXElement( message, xelement );
+
+            auto endIter = xelement.end();
+            for( auto it = xelement.begin(); it != endIter; ++it )
             {
-                myChoice = Choice::otherPlay;
-                return getOtherPlay()->fromXElement( message, xelement );
+                if( it->getName() == "ipa" )
+                {
+                    myChoice = Choice::ipa;
+                    isSuccess &= getIpa()->fromXElement( message, *it );
+                }
+                else if( it->getName() == "mute" )
+                {
+                    myChoice = Choice::mute;
+                    isSuccess &= getMute()->fromXElement( message, *it );
+                }
+                else if( it->getName() == "semi-pitched" )
+                {
+                    myChoice = Choice::semiPitched;
+                    isSuccess &= getSemiPitched()->fromXElement( message, *it );
+                }
+                else if( it->getName() == "other-play" )
+                {
+                    myChoice = Choice::otherPlay;
+                    isSuccess &= getOtherPlay()->fromXElement( message, *it );
+                }
+                else
+                {
+                    message << "Play: '" << it->getName() << "' is not valid" << std::endl;
+                    isSuccess = false;
+                }
             }
-            
-            message << "Encoding: '" << xelement.getName() << "' is not valid" << std::endl;
-            return false;
+
+            MX_RETURN_IS_SUCCESS;
         }
 
     }
-- 
2.43.0


From 62670bd67f43367ee509d621c1cac04c5c9856ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 27/75] fix: sound: an absent midi-instrument was written

---
 Sourcecode/private/mx/core/elements/Sound.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Sound.cpp b/Sourcecode/private/mx/core/elements/Sound.cpp
index eedab00..feb7e81 100644
--- a/Sourcecode/private/mx/core/elements/Sound.cpp
+++ b/Sourcecode/private/mx/core/elements/Sound.cpp
@@ -56,7 +56,7 @@ namespace mx
                 os << std::endl;
                 myMidiDevice->toStream( os, indentLevel+1 );
             }
-            if ( myMidiInstrument )
+            if ( myHasMidiInstrument )
             {
                 os << std::endl;
                 myMidiInstrument->toStream( os, indentLevel+1 );
-- 
2.43.0


From c84f1699f62415700d67ca446314214b2b4cb982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 28/75] fix: date arithmetic with extreme amounts must not
 overflow

---
 Sourcecode/private/mx/core/Date.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/Date.cpp b/Sourcecode/private/mx/core/Date.cpp
index 2f7b270..4189c40 100644
--- a/Sourcecode/private/mx/core/Date.cpp
+++ b/Sourcecode/private/mx/core/Date.cpp
@@ -437,6 +437,9 @@ namespace mx
 
             void addMonths( int months )
             {
+                // anything beyond the whole range of dates ends at the
+                // first or last date, and must not overflow on the way
+                months = constrainToRange( months, -12 * 9999, 12 * 9999 );
                 
                 // modulus math is hard to understand when negative numbers are involved
                 // store the sign of 'months' as an int and make months positive
@@ -529,7 +532,7 @@ namespace mx
 
             void addYears( int years )
             {
-                int new_year = getYear() + years;
+                int new_year = getYear() + constrainToRange( years, -9999, 9999 );
                 //year( ( year() + years ) );
                 
                 // if day was a leap day and the new year is not a leap year
-- 
2.43.0


From bd954621f0babd2187c6ecce0d74a2a9f42722db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 29/75] fix: note accidental: parenthesised, cautionary,
 editorial and bracketed flags were not written

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 25 +++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index f3502e6..12763ff 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -99,6 +99,31 @@ namespace mx
             {
                 myOutNote->setHasAccidental( true );
                 myOutNote->getAccidental()->setValue( myConverter.convert( myNoteData.pitchData.accidental ) );
+                auto accidentalAttr = myOutNote->getAccidental()->getAttributes();
+                
+                if( myNoteData.pitchData.isAccidentalParenthetical )
+                {
+                    accidentalAttr->hasParentheses = true;
+                    accidentalAttr->parentheses = core::YesNo::yes;
+                }
+                
+                if( myNoteData.pitchData.isAccidentalCautionary )
+                {
+                    accidentalAttr->hasCautionary = true;
+                    accidentalAttr->cautionary = core::YesNo::yes;
+                }
+                
+                if( myNoteData.pitchData.isAccidentalEditorial )
+                {
+                    accidentalAttr->hasEditorial = true;
+                    accidentalAttr->editorial = core::YesNo::yes;
+                }
+                
+                if( myNoteData.pitchData.isAccidentalBracketed )
+                {
+                    accidentalAttr->hasBracket = true;
+                    accidentalAttr->bracket = core::YesNo::yes;
+                }
             }
             
             auto beamIndex = 0;
-- 
2.43.0


From 9d8fd26e99b24cbf3df905367bc35812b1b829d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 30/75] fix: display step and octave of rests and unpitched
 notes were not written

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 12763ff..374f44b 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -368,7 +368,8 @@ namespace mx
                 myOutFullNoteTypeChoice->setChoice( core::FullNoteTypeChoice::Choice::rest );
                 if( myNoteData.isDisplayStepOctaveSpecified )
                 {
-                    auto pitch = myOutFullNoteTypeChoice->getUnpitched()->getDisplayStepOctaveGroup();
+                    myOutFullNoteTypeChoice->getRest()->setHasDisplayStepOctaveGroup( true );
+                    auto pitch = myOutFullNoteTypeChoice->getRest()->getDisplayStepOctaveGroup();
                     pitch->getDisplayStep()->setValue( myConverter.convert( myNoteData.pitchData.step ) );
                     pitch->getDisplayOctave()->setValue( core::OctaveValue{ myNoteData.pitchData.octave } );
                 }
@@ -385,6 +386,7 @@ namespace mx
                 myOutFullNoteTypeChoice->setChoice( core::FullNoteTypeChoice::Choice::unpitched );
                 if( myNoteData.isDisplayStepOctaveSpecified )
                 {
+                    myOutFullNoteTypeChoice->getUnpitched()->setHasDisplayStepOctaveGroup( true );
                     auto pitch = myOutFullNoteTypeChoice->getUnpitched()->getDisplayStepOctaveGroup();
                     pitch->getDisplayStep()->setValue( myConverter.convert( myNoteData.pitchData.step ) );
                     pitch->getDisplayOctave()->setValue( core::OctaveValue{ myNoteData.pitchData.octave } );
-- 
2.43.0


From be59f8791c9429d7edd0fc2d690e0a7b9be21dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 31/75] fix: a note with both a tie stop and a tie start wrote
 the same notations twice

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 374f44b..34070c1 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -266,7 +266,6 @@ namespace mx
                 notations = outNote->getNotationsSet().front();
                 notationsChoice = core::makeNotationsChoice();
                 notations->addNotationsChoice( notationsChoice );
-                outNote->addNotations( notations );
             }
             else
             {
-- 
2.43.0


From e9b92d3a6397aa1f724495529ff0af7b81c827fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 32/75] fix: a note without a duration name was written with an
 arbitrary type

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 34070c1..6ae824e 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -426,7 +426,8 @@ namespace mx
         
         void NoteWriter::setDurationNameAndDots() const
         {
-            if( !myNoteData.isRest || !myNoteData.isMeasureRest )
+            if( ( !myNoteData.isRest || !myNoteData.isMeasureRest )
+                && myNoteData.durationData.durationName != api::DurationName::unspecified )
             {
                 myOutNote->setHasType( true );
                 myOutNote->getType()->setValue( myConverter.convert( myNoteData.durationData.durationName ) );
-- 
2.43.0


From 9bc0a581e8336ea72d1290c2f13e100a11fc9a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 33/75] fix: the print-object setting of print data was never
 written

---
 Sourcecode/private/mx/impl/PrintFunctions.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/PrintFunctions.h b/Sourcecode/private/mx/impl/PrintFunctions.h
index 9410869..93a7293 100644
--- a/Sourcecode/private/mx/impl/PrintFunctions.h
+++ b/Sourcecode/private/mx/impl/PrintFunctions.h
@@ -100,9 +100,10 @@ namespace mx
         template <typename ATTRIBUTES_TYPE>
         void setPrintObject( const api::Bool& inPrintObject, ATTRIBUTES_TYPE& outAttributes )
         {
-            if( !lookForAndSetHasPrintObject( inPrintObject != api::Bool::unspecified, &outAttributes ) )
+            if( lookForAndSetHasPrintObject( inPrintObject != api::Bool::unspecified, &outAttributes ) )
             {
-                lookForAndSetPrintObject( inPrintObject, &outAttributes );
+                Converter converter;
+                lookForAndSetPrintObject( converter.convert( inPrintObject ), &outAttributes );
             }
         }
         
@@ -129,6 +130,7 @@ namespace mx
                 lookForAndSetColor( core::Color{}, &outAttributes );
             }
             
+            setPrintObject( inPrintData.printObject, outAttributes );
             setAttributesFromFontData( inPrintData.fontData, outAttributes );
         }
     }
-- 
2.43.0


From 12cd8338d557b797fab1de86a21f673f4e0f5d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 34/75] fix: the print data of notes (print-object, font and
 colour) was not written

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 6ae824e..275e3d8 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -34,6 +34,7 @@
 #include "mx/core/elements/Octave.h"
 #include "mx/core/elements/Pitch.h"
 #include "mx/impl/PositionFunctions.h"
+#include "mx/impl/PrintFunctions.h"
 #include "mx/core/elements/Rest.h"
 #include "mx/core/elements/Staff.h"
 #include "mx/core/elements/Stem.h"
@@ -88,6 +89,7 @@ namespace mx
             NotationsWriter notationsWriter{ myNoteData, myCursor, myScoreWriter };
             auto& noteAttr = *myOutNote->getAttributes();
             impl::setAttributesFromPositionData(myNoteData.positionData, noteAttr);
+            impl::setAttributesFromPrintData( myNoteData.printData, noteAttr );
 
             auto notations = notationsWriter.getNotations();
             if( notations->getNotationsChoiceSet().size() > 0 )
-- 
2.43.0


From 2298fb4ffee3f0744adbcbf54855b6756876e05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:37 +0000
Subject: [PATCH 35/75] fix: line hook and end length of lines were neither
 written nor read

---
 Sourcecode/private/mx/impl/LineFunctions.h | 32 +++++++++++-----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/Sourcecode/private/mx/impl/LineFunctions.h b/Sourcecode/private/mx/impl/LineFunctions.h
index 4efb8d5..9eb2cb7 100644
--- a/Sourcecode/private/mx/impl/LineFunctions.h
+++ b/Sourcecode/private/mx/impl/LineFunctions.h
@@ -17,8 +17,8 @@ namespace mx
         MX_ATTR_FUNC_OPTIONAL( hasLineType, HasLineType, bool, false );
         MX_ATTR_FUNC_OPTIONAL( lineType, LineType, core::LineType, core::LineType::solid );
 
-        MX_ATTR_FUNC_OPTIONAL( hasLineStop, HasLineStop, bool, false );
-        MX_ATTR_FUNC_OPTIONAL( lineStop, LineStop, core::LineEnd, core::LineEnd::none );
+        MX_ATTR_FUNC_OPTIONAL( hasLineEnd, HasLineEnd, bool, false );
+        MX_ATTR_FUNC_OPTIONAL( lineEnd, LineEnd, core::LineEnd, core::LineEnd::none );
         
         MX_ATTR_FUNC_OPTIONAL( hasDashLength, HasDashLength, bool, false );
         MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( dashLength, DashLength, long double, 0.0L );
@@ -26,8 +26,8 @@ namespace mx
         MX_ATTR_FUNC_OPTIONAL( hasSpaceLength, HasSpaceLength, bool, false );
         MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( spaceLength, SpaceLength, long double, 0.0L );
         
-        MX_ATTR_FUNC_OPTIONAL( hasStopLength, HasStopLength, bool, false );
-        MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( endLength, StopLength, long double, 0.0L );
+        MX_ATTR_FUNC_OPTIONAL( hasEndLength, HasEndLength, bool, false );
+        MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( endLength, EndLength, long double, 0.0L );
         
         template <typename ATTRIBUTES_TYPE>
         api::LineData getLineData( const ATTRIBUTES_TYPE& inAttributes )
@@ -40,9 +40,9 @@ namespace mx
                 lineData.lineType = converter.convert( checkLineType<ATTRIBUTES_TYPE>( &inAttributes ) );
             }
             
-            if( checkHasLineStop<ATTRIBUTES_TYPE>( &inAttributes ) )
+            if( checkHasLineEnd<ATTRIBUTES_TYPE>( &inAttributes ) )
             {
-                lineData.lineHook = converter.convert( checkLineStop<ATTRIBUTES_TYPE>( &inAttributes ) );
+                lineData.lineHook = converter.convert( checkLineEnd<ATTRIBUTES_TYPE>( &inAttributes ) );
             }
             
             if( checkHasDashLength( &inAttributes ) )
@@ -57,10 +57,10 @@ namespace mx
                 lineData.spaceLength = checkSpaceLength( &inAttributes );
             }
             
-            if( checkHasStopLength<ATTRIBUTES_TYPE>( &inAttributes ) )
+            if( checkHasEndLength<ATTRIBUTES_TYPE>( &inAttributes ) )
             {
                 lineData.isStopLengthSpecified = true;
-                lineData.endLength = checkStopLength<ATTRIBUTES_TYPE>( &inAttributes );
+                lineData.endLength = checkEndLength<ATTRIBUTES_TYPE>( &inAttributes );
             }
             
             return lineData;
@@ -69,8 +69,7 @@ namespace mx
         MX_ATTR_SETFUNC_OPTIONAL( hasLineType, HasLineType, bool, false );
         MX_ATTR_SETFUNC_OPTIONAL( lineType, LineType, core::LineType, core::LineType::solid );
         
-        MX_ATTR_SETFUNC_OPTIONAL( hasLineStop, HasLineStop, bool, false );
-        MX_ATTR_SETFUNC_OPTIONAL( lineStop, LineStop, core::LineEnd, core::LineEnd::none );
+        MX_ATTR_SETFUNC_OPTIONAL( lineEnd, LineEnd, core::LineEnd, core::LineEnd::none );
         
         MX_ATTR_SETFUNC_OPTIONAL( hasSpaceLength, HasSpaceLength, bool, false );
         MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( spaceLength, SpaceLength, long double, 0.0L );
@@ -78,8 +77,8 @@ namespace mx
         MX_ATTR_SETFUNC_OPTIONAL( hasDashLength, HasDashLength, bool, false );
         MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( dashLength, DashLength, long double, 0.0L );
         
-        MX_ATTR_SETFUNC_OPTIONAL( hasStopLength, HasStopLength, bool, false );
-        MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( endLength, StopLength, long double, 0.0L );
+        MX_ATTR_SETFUNC_OPTIONAL( hasEndLength, HasEndLength, bool, false );
+        MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( endLength, EndLength, long double, 0.0L );
         
         template <typename ATTRIBUTES_TYPE>
         void setAttributesFromLineData( const api::LineData& inLineData, ATTRIBUTES_TYPE& outAttributes )
@@ -95,9 +94,10 @@ namespace mx
                 lookForAndSetSpaceLength( inLineData.spaceLength, &outAttributes );
             }
             
-            if( lookForAndSetHasLineStop( inLineData.lineHook != api::LineHook::unspecified, &outAttributes ) )
+            // the line-end attribute is required wherever it exists
+            if( inLineData.lineHook != api::LineHook::unspecified )
             {
-                lookForAndSetLineStop( converter.convert( inLineData.lineHook ), &outAttributes );
+                lookForAndSetLineEnd( converter.convert( inLineData.lineHook ), &outAttributes );
             }
             
             if( lookForAndSetHasLineType( inLineData.lineType != api::LineType::unspecified, &outAttributes ) )
@@ -105,9 +105,9 @@ namespace mx
                 lookForAndSetLineType( converter.convert( inLineData.lineType ), &outAttributes );
             }
             
-            if( lookForAndSetHasStopLength( inLineData.isStopLengthSpecified, &outAttributes ) )
+            if( lookForAndSetHasEndLength( inLineData.isStopLengthSpecified, &outAttributes ) )
             {
-                lookForAndSetStopLength( inLineData.endLength, &outAttributes );
+                lookForAndSetEndLength( inLineData.endLength, &outAttributes );
             }
         }
     }
-- 
2.43.0


From ce02d45f876c0be02e82f5b81d00fa98f6e4ecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 36/75] fix: spanner starts: position, print and line data were
 not written

---
 Sourcecode/private/mx/impl/SpannerFunctions.h | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/Sourcecode/private/mx/impl/SpannerFunctions.h b/Sourcecode/private/mx/impl/SpannerFunctions.h
index 55e5fce..c86c679 100644
--- a/Sourcecode/private/mx/impl/SpannerFunctions.h
+++ b/Sourcecode/private/mx/impl/SpannerFunctions.h
@@ -63,6 +63,26 @@ namespace mx
                 lookForAndSetNumber( 1, &outAttributes );
             }
             
+            setAttributesFromPositionData( start.positionData, outAttributes );
+            setAttributesFromPrintData( start.printData, outAttributes );
+            setAttributesFromLineData( start.lineData, outAttributes );
+        }
+        
+        template <typename ATTRIBUTES_TYPE>
+        void setAttributesFromSpannerStop( const api::SpannerStop& stop, ATTRIBUTES_TYPE& outAttributes )
+        {
+            if( stop.numberLevel > 0 )
+            {
+                lookForAndSetHasNumber( true, &outAttributes );
+                lookForAndSetNumber( stop.numberLevel, &outAttributes );
+            }
+            else
+            {
+                lookForAndSetHasNumber( false, &outAttributes );
+                lookForAndSetNumber( 1, &outAttributes );
+            }
+            
+            setAttributesFromPositionData( stop.positionData, outAttributes );
         }
     }
 }
-- 
2.43.0


From 6771190d9da1b71dbe3320c466785b61d19ffe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 37/75] fix: octave shifts: number, position and print data
 were not written

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 57d1d11..c5da499 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -210,7 +210,7 @@ namespace mx
                 auto oStart = oStopDir->getOctaveShift();
                 auto& attr = *oStart->getAttributes();
                 attr.type = core::UpDownStopContinue::stop;
-                MX_UNUSED( ottavaStop );
+                setAttributesFromSpannerStop( ottavaStop, attr );
             }
             
             for( const auto& ottavaStart : myDirectionData.ottavaStarts )
@@ -220,7 +220,7 @@ namespace mx
                 oStartDir->setChoice( core::DirectionType::Choice::octaveShift );
                 auto oStart = oStartDir->getOctaveShift();
                 auto& attr = *oStart->getAttributes();
-                impl::setAttributesFromLineData( ottavaStart.spannerStart.lineData, attr );
+                setAttributesFromSpannerStart( ottavaStart.spannerStart, attr );
                 
                 attr.hasSize = true;
                 
-- 
2.43.0


From 72750244559f5b921fdbdee859981e92a668eea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 38/75] fix: bracket stops were not written; an absent bracket
 number was read as 1

---
 Sourcecode/private/mx/impl/DirectionReader.cpp |  4 ++--
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 41ba238..9777689 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -475,7 +475,7 @@ namespace mx
             {
                 api::SpannerStop stop;
                 stop.tickTimePosition = myCursor.tickTimePosition;
-                stop.numberLevel = impl::checkNumber( &attr );
+                stop.numberLevel = attr.hasNumber ? attr.number.getValue() : -1;
                 stop.positionData = this->parsePositionData( attr );
                 myOutDirectionData.bracketStops.emplace_back( std::move( stop ) );
                 return;
@@ -484,7 +484,7 @@ namespace mx
             {
                 api::SpannerStart start;
                 start.tickTimePosition = myCursor.tickTimePosition;
-                start.numberLevel = impl::checkNumber( &attr );
+                start.numberLevel = attr.hasNumber ? attr.number.getValue() : -1;
                 start.positionData = this->parsePositionData( attr );
                 start.lineData = impl::getLineData( attr );
                 start.printData = impl::getPrintData( attr );
diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index c5da499..c91d455 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -254,6 +254,17 @@ namespace mx
                 }
             }
             
+            for( const auto& item : myDirectionData.bracketStops )
+            {
+                auto outDirType = core::makeDirectionType();
+                this->addDirectionType( outDirType, directionPtr );
+                outDirType->setChoice( core::DirectionType::Choice::bracket );
+                auto outElement = outDirType->getBracket();
+                auto& attr = *outElement->getAttributes();
+                attr.type = core::StartStopContinue::stop;
+                setAttributesFromSpannerStop( item, attr );
+            }
+
             for( const auto& item : myDirectionData.bracketStarts )
             {
                 auto outDirType = core::makeDirectionType();
@@ -261,6 +272,7 @@ namespace mx
                 outDirType->setChoice( core::DirectionType::Choice::bracket );
                 auto outElement = outDirType->getBracket();
                 auto& attr = *outElement->getAttributes();
+                attr.type = core::StartStopContinue::start;
                 setAttributesFromSpannerStart( item, attr );
             }
 
-- 
2.43.0


From 7725457e8766e4106f91649c5130f72fef892b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 39/75] fix: wedge number levels were not written

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index c91d455..8d8e7d8 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -167,6 +167,12 @@ namespace mx
                 auto& attr = *wedgePtr->getAttributes();
                 attr.type = core::WedgeType::stop;
                 
+                if( wedgeStop.numberLevel > 0 )
+                {
+                    attr.hasNumber = true;
+                    attr.number = core::NumberLevel{ wedgeStop.numberLevel };
+                }
+                
                 if( wedgeStop.isSpreadSpecified )
                 {
                     attr.hasSpread = true;
@@ -184,6 +190,12 @@ namespace mx
                 auto wedgePtr = wedgeStartDirectionTypePtr->getWedge();
                 auto& attr = *wedgePtr->getAttributes();
 
+                if( wedgeStart.numberLevel > 0 )
+                {
+                    attr.hasNumber = true;
+                    attr.number = core::NumberLevel{ wedgeStart.numberLevel };
+                }
+
                 if( wedgeStart.wedgeType != api::WedgeType::unspecified )
                 {
                     attr.type = myConverter.convert( wedgeStart.wedgeType );
-- 
2.43.0


From 6225d6167361ba3cedbc0f30ff4d7597a56813c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:03 +0000
Subject: [PATCH 40/75] fix: a voice which begins after the end of the previous
 voice was read back as part of it

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index a196952..43f997d 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -393,6 +393,7 @@ namespace mx
             auto directionIter = inStaff.directions.cbegin();
             auto directionEnd = inStaff.directions.cend();
 
+            bool isFirstVoice = true;
             for( const auto& voice : inStaff.voices )
             {
                 bool isFirstNote = true;
@@ -403,6 +404,15 @@ namespace mx
                 auto noteEnd = voice.second.notes.cend();
                 int noteIndex = 0;
 
+                // a voice is recognized by the backup which precedes it, so write one even
+                // when the notes of this voice begin after the end of the previous voice
+                const auto voiceStart = myHistory.getCursor().tickTimePosition;
+                if( !isFirstVoice && noteIter != noteEnd && noteIter->tickTimePosition >= voiceStart )
+                {
+                    backup( voiceStart );
+                }
+                isFirstVoice = isFirstVoice && noteIter == noteEnd;
+
                 if( directionIter != directionEnd )
                 {
                     writeDirections( directionIter, directionEnd, noteIter, std::cbegin(voice.second.notes), noteEnd );
-- 
2.43.0


From dfa388801b6f51cb471ee41042da5bd9f9985bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:20 +0000
Subject: [PATCH 41/75] fix: sorting a score changed the order of simultaneous
 notes, directions and clefs

---
 Sourcecode/private/mx/api/ScoreData.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Sourcecode/private/mx/api/ScoreData.cpp b/Sourcecode/private/mx/api/ScoreData.cpp
index 912f0d0..a25b853 100644
--- a/Sourcecode/private/mx/api/ScoreData.cpp
+++ b/Sourcecode/private/mx/api/ScoreData.cpp
@@ -71,28 +71,28 @@ namespace mx
                     for ( auto& staff : measure.staves )
                     {
 
-                        const auto clefCompare = [&]( ClefData& inLeft, ClefData& inRight )
+                        const auto clefCompare = [&]( const ClefData& inLeft, const ClefData& inRight )
                         {
                             return inLeft.tickTimePosition < inRight.tickTimePosition;
                         };
 
-                        std::sort( std::begin( staff.clefs ), std::end( staff.clefs ), clefCompare );
+                        std::stable_sort( std::begin( staff.clefs ), std::end( staff.clefs ), clefCompare );
 
-                        const auto directionCompare = [&]( DirectionData& inLeft, DirectionData& inRight )
+                        const auto directionCompare = [&]( const DirectionData& inLeft, const DirectionData& inRight )
                         {
                             return inLeft.tickTimePosition < inRight.tickTimePosition;
                         };
 
-                        std::sort( std::begin( staff.directions ), std::end( staff.directions ), directionCompare );
+                        std::stable_sort( std::begin( staff.directions ), std::end( staff.directions ), directionCompare );
 
                         for ( auto& voice : staff.voices )
                         {
-                            const auto noteCompare = [&]( NoteData& inLeft, NoteData& inRight )
+                            const auto noteCompare = [&]( const NoteData& inLeft, const NoteData& inRight )
                             {
                                 return inLeft.tickTimePosition < inRight.tickTimePosition;
                             };
 
-                            std::sort( std::begin( voice.second.notes ), std::end( voice.second.notes ), noteCompare );
+                            std::stable_sort( std::begin( voice.second.notes ), std::end( voice.second.notes ), noteCompare );
                         }
                     }
                 }
-- 
2.43.0


From 96db6a93d47a53726e48c2c9199a995dedaa7734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 42/75] fix: position, font and colour of fermatas were not
 read

---
 Sourcecode/private/mx/impl/FermataFunctions.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/FermataFunctions.cpp b/Sourcecode/private/mx/impl/FermataFunctions.cpp
index 3728bca..5499b3e 100644
--- a/Sourcecode/private/mx/impl/FermataFunctions.cpp
+++ b/Sourcecode/private/mx/impl/FermataFunctions.cpp
@@ -88,9 +88,8 @@ namespace mx
             // Unfortunately, without doing a lot of guess word, we can't
             // know whether the correct glyph is "above" or "below"
             api::MarkData markData{ markType };
-            impl::parseMarkDataAttributes( attr, markData );
             markData.tickTimePosition = myCursor.tickTimePosition;
-            impl::parseMarkDataAttributes( attr, markData );
+            impl::parseMarkDataAttributes( *attr, markData );
             
             return markData;
         }
-- 
2.43.0


From b5132b1535d1af832e8467c92bdb3e7172ac2bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 43/75] fix: the position and placement of tuplets were not
 written

---
 Sourcecode/private/mx/impl/NotationsWriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sourcecode/private/mx/impl/NotationsWriter.cpp b/Sourcecode/private/mx/impl/NotationsWriter.cpp
index 2ad0656..3845667 100644
--- a/Sourcecode/private/mx/impl/NotationsWriter.cpp
+++ b/Sourcecode/private/mx/impl/NotationsWriter.cpp
@@ -175,6 +175,7 @@ namespace mx
                 tupletNotationsChoice->setChoice( core::NotationsChoice::Choice::tuplet );
                 auto tuplet = tupletNotationsChoice->getTuplet();
                 tuplet->getAttributes()->type = core::StartStop::stop;
+                setAttributesFromPositionData( tupletStop.positionData, *tuplet->getAttributes() );
                 
                 if( tupletStop.numberLevel > 0 )
                 {
@@ -190,6 +191,7 @@ namespace mx
                 tupletNotationsChoice->setChoice( core::NotationsChoice::Choice::tuplet );
                 auto tuplet = tupletNotationsChoice->getTuplet();
                 tuplet->getAttributes()->type = core::StartStop::start;
+                setAttributesFromPositionData( tupletStart.positionData, *tuplet->getAttributes() );
                 tuplet->setHasTupletActual( true );
                 tuplet->setHasTupletNormal( true );
 
-- 
2.43.0


From c113a2dd9a994eb4eb8143cd5b4b4692a831b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:45 +0000
Subject: [PATCH 44/75] fix: font and colour of the marks on notes were not
 written

---
 .../mx/impl/AccidentalMarkFunctions.cpp       |  2 +-
 Sourcecode/private/mx/impl/DynamicsReader.cpp |  2 +-
 .../private/mx/impl/NotationsWriter.cpp       | 86 +++++++++----------
 3 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/Sourcecode/private/mx/impl/AccidentalMarkFunctions.cpp b/Sourcecode/private/mx/impl/AccidentalMarkFunctions.cpp
index ef3d82f..8f74472 100644
--- a/Sourcecode/private/mx/impl/AccidentalMarkFunctions.cpp
+++ b/Sourcecode/private/mx/impl/AccidentalMarkFunctions.cpp
@@ -28,7 +28,7 @@ namespace mx
             markData.tickTimePosition = myCursor.tickTimePosition;
             
             markData.name = core::toString( accidentalValue );
-            markData.positionData = impl::getPositionData( *myAccidentalMark.getAttributes() );
+            impl::parseMarkDataAttributes( *myAccidentalMark.getAttributes(), markData );
             
             return markData;
         }
diff --git a/Sourcecode/private/mx/impl/DynamicsReader.cpp b/Sourcecode/private/mx/impl/DynamicsReader.cpp
index 6cfb3c1..585ae93 100644
--- a/Sourcecode/private/mx/impl/DynamicsReader.cpp
+++ b/Sourcecode/private/mx/impl/DynamicsReader.cpp
@@ -31,7 +31,7 @@ namespace mx
             markData.markType = markType;
             markData.tickTimePosition = myCursor.tickTimePosition;
             markData.name = myDynamic.getValue().getValueString();
-            markData.positionData = impl::getPositionData( *myDynamic.getAttributes() );
+            impl::parseMarkDataAttributes( *myDynamic.getAttributes(), markData );
             outMarks.emplace_back( std::move( markData ) );
         }
     }
diff --git a/Sourcecode/private/mx/impl/NotationsWriter.cpp b/Sourcecode/private/mx/impl/NotationsWriter.cpp
index 3845667..aeef0fd 100644
--- a/Sourcecode/private/mx/impl/NotationsWriter.cpp
+++ b/Sourcecode/private/mx/impl/NotationsWriter.cpp
@@ -415,91 +415,91 @@ namespace mx
             {
                 auto element = articulationsChoice->getAccent();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::strongAccent )
             {
                 auto element = articulationsChoice->getStrongAccent();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::staccato )
             {
                 auto element = articulationsChoice->getStaccato();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::tenuto )
             {
                 auto element = articulationsChoice->getTenuto();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::detachedLegato )
             {
                 auto element = articulationsChoice->getDetachedLegato();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::staccatissimo )
             {
                 auto element = articulationsChoice->getStaccatissimo();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::spiccato )
             {
                 auto element = articulationsChoice->getSpiccato();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::scoop )
             {
                 auto element = articulationsChoice->getScoop();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::plop )
             {
                 auto element = articulationsChoice->getPlop();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::doit )
             {
                 auto element = articulationsChoice->getDoit();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::falloff )
             {
                 auto element = articulationsChoice->getFalloff();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::breathMark )
             {
                 auto element = articulationsChoice->getBreathMark();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::caesura )
             {
                 auto element = articulationsChoice->getCaesura();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::stress )
             {
                 auto element = articulationsChoice->getStress();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::unstress )
             {
                 auto element = articulationsChoice->getUnstress();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( api::isMarkCustom( mark.markType ) )
             {
@@ -507,14 +507,14 @@ namespace mx
                 auto element = articulationsChoice->getOtherArticulation();
                 element->setValue( core::XsString{ customName } );
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::otherArticulation )
             {
                 auto element = articulationsChoice->getOtherArticulation();
                 element->setValue( core::XsString{ mark.name } );
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
         }
 
@@ -535,67 +535,67 @@ namespace mx
             {
                 auto element = ornamentsChoice->getTrillMark();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::turn )
             {
                 auto element = ornamentsChoice->getTurn();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::delayedTurn )
             {
                 auto element = ornamentsChoice->getDelayedTurn();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::invertedTurn )
             {
                 auto element = ornamentsChoice->getInvertedTurn();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::delayedInvertedTurn )
             {
                 auto element = ornamentsChoice->getDelayedInvertedTurn();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::verticalTurn )
             {
                 auto element = ornamentsChoice->getVerticalTurn();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::shake )
             {
                 auto element = ornamentsChoice->getShake();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::wavyLine )
             {
                 auto element = ornamentsChoice->getWavyLine();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::mordent )
             {
                 auto element = ornamentsChoice->getMordent();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::invertedMordent )
             {
                 auto element = ornamentsChoice->getInvertedMordent();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::schleifer )
             {
                 auto element = ornamentsChoice->getSchleifer();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( isMarkTremolo( mark.markType ) )
             {
@@ -604,7 +604,7 @@ namespace mx
                 auto attributes = element->getAttributes();
                 attributes->hasType = true;
                 attributes->type = mx::core::StartStopSingle::single;
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
                 element->setValue( mx::core::TremoloMarks{ api::numTremoloSlashes( mark.markType ) } );
             }
             else if( api::isMarkCustom( mark.markType ) )
@@ -617,7 +617,7 @@ namespace mx
             {
                 auto element = ornamentsChoice->getOtherOrnament();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
 
                 if( !mark.name.empty() )
                 {
@@ -642,80 +642,80 @@ namespace mx
             {
                 auto element = technicalChoice->getUpBow();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::downBow )
             {
                 auto element = technicalChoice->getDownBow();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::harmonic )
             {
                 auto element = technicalChoice->getHarmonic();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::openString )
             {
                 auto element = technicalChoice->getOpenString();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::thumbPosition )
             {
                 auto element = technicalChoice->getThumbPosition();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::doubleTongue )
             {
                 auto element = technicalChoice->getDoubleTongue();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::tripleTongue )
             {
                 auto element = technicalChoice->getTripleTongue();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::stopped )
             {
                 auto element = technicalChoice->getStopped();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::snapPizzicato )
             {
                 auto element = technicalChoice->getSnapPizzicato();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::heel )
             {
                 auto element = technicalChoice->getHeel();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::toe )
             {
                 auto element = technicalChoice->getToe();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::fingernails )
             {
                 auto element = technicalChoice->getFingernails();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( ( mark.markType == api::MarkType::unknownTechnical ) ||
                     ( mark.markType == api::MarkType::otherTechnical ) )
             {
                 auto element = technicalChoice->getOtherTechnical();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
 
                 if( !mark.name.empty() )
                 {
-- 
2.43.0


From 5a9e552ed6a1ca9818e6e5ffeef092dbed002e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:45 +0000
Subject: [PATCH 45/75] fix: accidental marks of notes were not written

---
 Sourcecode/private/mx/impl/NotationsWriter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Sourcecode/private/mx/impl/NotationsWriter.cpp b/Sourcecode/private/mx/impl/NotationsWriter.cpp
index aeef0fd..109e66b 100644
--- a/Sourcecode/private/mx/impl/NotationsWriter.cpp
+++ b/Sourcecode/private/mx/impl/NotationsWriter.cpp
@@ -3,6 +3,7 @@
 // Distributed under the MIT License
 
 #include "mx/impl/NotationsWriter.h"
+#include "mx/core/elements/AccidentalMark.h"
 #include "mx/core/elements/Accent.h"
 #include "mx/core/elements/Arrow.h"
 #include "mx/core/elements/Articulations.h"
@@ -276,6 +277,15 @@ namespace mx
                     DynamicsWriter dynamicsWriter{ mark, myCursor };
                     dynamicNotationsChoice->setDynamics( dynamicsWriter.getDynamics() );
                 }
+                else if( mark.markType >= api::MarkType::accidentalMarkSharp && mark.markType <= api::MarkType::accidentalMarkKoron )
+                {
+                    auto accidentalNotationsChoice = core::makeNotationsChoice();
+                    myOutNotations->addNotationsChoice( accidentalNotationsChoice );
+                    accidentalNotationsChoice->setChoice( core::NotationsChoice::Choice::accidentalMark );
+                    auto& accidentalMark = *accidentalNotationsChoice->getAccidentalMark();
+                    accidentalMark.setValue( myConverter.convertAccidentalMark( mark.markType ) );
+                    impl::setAttributesFromMarkData( mark, *accidentalMark.getAttributes() );
+                }
                 else if( isMarkFermata( mark.markType ) )
                 {
                     auto fermataNotationsChoice = core::makeNotationsChoice();
-- 
2.43.0


From 4e1cd454ece3372872142c68ab06e3166bdb7799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:30 +0000
Subject: [PATCH 46/75] fix: the position of arpeggio marks was not read

---
 Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp    | 2 +-
 Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp b/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp
index e84fe4f..a99dd7a 100644
--- a/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp
+++ b/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp
@@ -36,7 +36,7 @@ namespace mx
                 }
             }
             api::MarkData markData{ markType };
-            impl::parseMarkDataAttributes( attr, markData );
+            impl::parseMarkDataAttributes( *attr, markData );
             markData.tickTimePosition = myCursor.tickTimePosition;
             
             return markData;
diff --git a/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp b/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp
index 0fa01a9..f1f9109 100644
--- a/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp
+++ b/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp
@@ -21,7 +21,7 @@ namespace mx
         {
             const auto& attr = myNonArpeggiate.getAttributes();
             api::MarkData markData{ api::MarkType::nonArpeggiate };
-            impl::parseMarkDataAttributes( attr, markData );
+            impl::parseMarkDataAttributes( *attr, markData );
             markData.tickTimePosition = myCursor.tickTimePosition;
             return markData;
         }
-- 
2.43.0


From e4564d7a1baa8590c431297931c7dbcd2608fa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:07 +0000
Subject: [PATCH 47/75] fix: a tie given both as a flag and as a curve was
 written twice

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 29 +++++++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 275e3d8..4d0b7c3 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -244,8 +244,22 @@ namespace mx
             return myOutNote;
         }
         
+        template<typename CURVES>
+        static inline bool hasTiedCurve( const CURVES& curves )
+        {
+            for( const auto& curve : curves )
+            {
+                if( curve.curveType == api::CurveType::tie )
+                {
+                    return true;
+                }
+            }
+            return false;
+        }
+
+
         template<typename CHOICE_OBJ_TYPE>
-        static inline void addTie( bool isStart, CHOICE_OBJ_TYPE choiceObj, core::NotePtr outNote )
+        static inline void addTie( bool isStart, CHOICE_OBJ_TYPE choiceObj, core::NotePtr outNote, bool isTiedCurveGiven )
         {
             auto tie = core::makeTie();
             
@@ -259,6 +273,11 @@ namespace mx
             }
             
             choiceObj->addTie( tie );
+
+            if( isTiedCurveGiven )
+            {
+                return;
+            }
             
             core::NotationsPtr notations = nullptr;
             core::NotationsChoicePtr notationsChoice = nullptr;
@@ -322,12 +341,12 @@ namespace mx
 
                     if( myNoteData.isTieStop )
                     {
-                        addTie( false, choiceObj, myOutNote );
+                        addTie( false, choiceObj, myOutNote, hasTiedCurve( myNoteData.noteAttachmentData.curveStops ) );
                     }
                     
                     if( myNoteData.isTieStart )
                     {
-                        addTie( true, choiceObj, myOutNote );
+                        addTie( true, choiceObj, myOutNote, hasTiedCurve( myNoteData.noteAttachmentData.curveStarts ) );
                     }
                     
                     break;
@@ -342,12 +361,12 @@ namespace mx
                     
                     if( myNoteData.isTieStop )
                     {
-                        addTie( false, choiceObj, myOutNote );
+                        addTie( false, choiceObj, myOutNote, hasTiedCurve( myNoteData.noteAttachmentData.curveStops ) );
                     }
                     
                     if( myNoteData.isTieStart )
                     {
-                        addTie( true, choiceObj, myOutNote );
+                        addTie( true, choiceObj, myOutNote, hasTiedCurve( myNoteData.noteAttachmentData.curveStarts ) );
                     }
                     
                     break;
-- 
2.43.0


From 4eb4841c00420b97473baf8dedb399d156e20501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:30 +0000
Subject: [PATCH 48/75] fix: arpeggio marks of notes were not written

---
 Sourcecode/private/mx/impl/NotationsWriter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Sourcecode/private/mx/impl/NotationsWriter.cpp b/Sourcecode/private/mx/impl/NotationsWriter.cpp
index 109e66b..bc2e181 100644
--- a/Sourcecode/private/mx/impl/NotationsWriter.cpp
+++ b/Sourcecode/private/mx/impl/NotationsWriter.cpp
@@ -4,6 +4,7 @@
 
 #include "mx/impl/NotationsWriter.h"
 #include "mx/core/elements/AccidentalMark.h"
+#include "mx/core/elements/Arpeggiate.h"
 #include "mx/core/elements/Accent.h"
 #include "mx/core/elements/Arrow.h"
 #include "mx/core/elements/Articulations.h"
@@ -286,6 +287,16 @@ namespace mx
                     accidentalMark.setValue( myConverter.convertAccidentalMark( mark.markType ) );
                     impl::setAttributesFromMarkData( mark, *accidentalMark.getAttributes() );
                 }
+                else if( mark.markType == api::MarkType::arpeggiate || mark.markType == api::MarkType::arpeggiateUp || mark.markType == api::MarkType::arpeggiateDown )
+                {
+                    auto arpeggiateNotationsChoice = core::makeNotationsChoice();
+                    myOutNotations->addNotationsChoice( arpeggiateNotationsChoice );
+                    arpeggiateNotationsChoice->setChoice( core::NotationsChoice::Choice::arpeggiate );
+                    auto& attr = *arpeggiateNotationsChoice->getArpeggiate()->getAttributes();
+                    attr.hasDirection = mark.markType != api::MarkType::arpeggiate;
+                    attr.direction = mark.markType == api::MarkType::arpeggiateDown ? core::UpDown::down : core::UpDown::up;
+                    impl::setAttributesFromMarkData( mark, attr );
+                }
                 else if( isMarkFermata( mark.markType ) )
                 {
                     auto fermataNotationsChoice = core::makeNotationsChoice();
-- 
2.43.0


From d8bed411df154e983bbf22e518f82bb71f954eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 49/75] fix: brackets and octave shifts with an offset were
 read at the wrong time

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 9777689..1966e1b 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -474,7 +474,7 @@ namespace mx
             if( attr.type == core::StartStopContinue::stop )
             {
                 api::SpannerStop stop;
-                stop.tickTimePosition = myCursor.tickTimePosition;
+                stop.tickTimePosition = myOutDirectionData.tickTimePosition;
                 stop.numberLevel = attr.hasNumber ? attr.number.getValue() : -1;
                 stop.positionData = this->parsePositionData( attr );
                 myOutDirectionData.bracketStops.emplace_back( std::move( stop ) );
@@ -483,7 +483,7 @@ namespace mx
             else if( attr.type == core::StartStopContinue::start )
             {
                 api::SpannerStart start;
-                start.tickTimePosition = myCursor.tickTimePosition;
+                start.tickTimePosition = myOutDirectionData.tickTimePosition;
                 start.numberLevel = attr.hasNumber ? attr.number.getValue() : -1;
                 start.positionData = this->parsePositionData( attr );
                 start.lineData = impl::getLineData( attr );
@@ -550,7 +550,7 @@ namespace mx
             if( isStop )
             {
                 auto stop = impl::getSpannerStop( attr );
-                stop.tickTimePosition = myCursor.tickTimePosition;
+                stop.tickTimePosition = myOutDirectionData.tickTimePosition;
                 myOutDirectionData.ottavaStops.emplace_back( std::move( stop ) );
                 return;
             }
@@ -585,7 +585,7 @@ namespace mx
             api::OttavaStart start;
             start.spannerStart = impl::getSpannerStart( attr );
             start.ottavaType = ottavaType;
-            start.spannerStart.tickTimePosition = myCursor.tickTimePosition;
+            start.spannerStart.tickTimePosition = myOutDirectionData.tickTimePosition;
             myOutDirectionData.ottavaStarts.emplace_back( std::move( start ) );
         }
         
-- 
2.43.0


From e1d85b1ffbf1848ed76c29dc74e4ca2417a9508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:29 +0000
Subject: [PATCH 50/75] fix: the colour of segnos and codas and the font of
 rehearsal marks were not read

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 1966e1b..1759865 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -327,6 +327,7 @@ namespace mx
                 outRehearsal.text = rehearsalPtr->getValue().getValue();
                 outRehearsal.positionData = getPositionData( attr );
                 outRehearsal.colorData = getColor( attr );
+                outRehearsal.fontData = getFontData( attr );
                 myOutDirectionData.rehearsals.emplace_back( std::move( outRehearsal ) );
             }
 
@@ -343,6 +344,7 @@ namespace mx
                 api::SegnoData outSegno;
                 const auto& attr = *segnoPtr->getAttributes();
                 outSegno.positionData = getPositionData( attr );
+                outSegno.isColorSpecified = checkHasColor( &attr );
                 outSegno.colorData = getColor( attr );
                 myOutDirectionData.segnos.emplace_back( std::move( outSegno ) );
             }
@@ -375,6 +377,7 @@ namespace mx
                 api::CodaData outCoda;
                 const auto& attr = *codaPtr->getAttributes();
                 outCoda.positionData = getPositionData( attr );
+                outCoda.isColorSpecified = checkHasColor( &attr );
                 outCoda.colorData = getColor( attr );
                 myOutDirectionData.codas.emplace_back( std::move( outCoda ) );
             }
-- 
2.43.0


From ed7a69756f5bc3ba264d32b6fd9068fae99c94bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:29 +0000
Subject: [PATCH 51/75] fix: rehearsal marks, segnos and codas were not written

---
 .../private/mx/impl/DirectionWriter.cpp       | 67 +++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 8d8e7d8..f4d5849 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -357,6 +357,73 @@ namespace mx
                 }
             }
 
+            if( !myDirectionData.segnos.empty() )
+            {
+                auto outDirType = core::makeDirectionType();
+                outDirType->setChoice( core::DirectionType::Choice::segno );
+
+                for( const auto& item : myDirectionData.segnos )
+                {
+                    auto outElement = core::makeSegno();
+                    auto& attr = *outElement->getAttributes();
+                    setAttributesFromPositionData( item.positionData, attr );
+
+                    if( item.isColorSpecified )
+                    {
+                        attr.hasColor = true;
+                        setAttributesFromColorData( item.colorData, attr );
+                    }
+
+                    outDirType->addSegno( outElement );
+                }
+
+                outDirType->removeSegno( outDirType->getSegnoSet().cbegin() );
+                addDirectionType( outDirType, directionPtr );
+            }
+
+            if( !myDirectionData.codas.empty() )
+            {
+                auto outDirType = core::makeDirectionType();
+                outDirType->setChoice( core::DirectionType::Choice::coda );
+
+                for( const auto& item : myDirectionData.codas )
+                {
+                    auto outElement = core::makeCoda();
+                    auto& attr = *outElement->getAttributes();
+                    setAttributesFromPositionData( item.positionData, attr );
+
+                    if( item.isColorSpecified )
+                    {
+                        attr.hasColor = true;
+                        setAttributesFromColorData( item.colorData, attr );
+                    }
+
+                    outDirType->addCoda( outElement );
+                }
+
+                outDirType->removeCoda( outDirType->getCodaSet().cbegin() );
+                addDirectionType( outDirType, directionPtr );
+            }
+
+            if( !myDirectionData.rehearsals.empty() )
+            {
+                auto outDirType = core::makeDirectionType();
+                outDirType->setChoice( core::DirectionType::Choice::rehearsal );
+
+                for( const auto& item : myDirectionData.rehearsals )
+                {
+                    auto outElement = core::makeRehearsal();
+                    auto& attr = *outElement->getAttributes();
+                    outElement->setValue( core::XsString{ item.text } );
+                    setAttributesFromPositionData( item.positionData, attr );
+                    setAttributesFromFontData( item.fontData, attr );
+                    outDirType->addRehearsal( outElement );
+                }
+
+                outDirType->removeRehearsal( outDirType->getRehearsalSet().cbegin() );
+                addDirectionType( outDirType, directionPtr );
+            }
+
             if( myIsFirstDirectionTypeAdded )
             {
                 auto directionMdc = core::makeMusicDataChoice();
-- 
2.43.0


From bb713789cc8c9bcac894999f71d8c5e6ccd26328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:29 +0000
Subject: [PATCH 52/75] fix: a chord on another staff than the first was read
 back on the first

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index f4d5849..2778780 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -474,7 +474,7 @@ namespace mx
                 harmony->getOffset()->setValue( core::DivisionsValue{ static_cast<core::DecimalType>( inOffset ) } );
             }
 
-            if( myDirectionData.isStaffValueSpecified )
+            if( myDirectionData.isStaffValueSpecified || myCursor.staffIndex != 0 )
             {
                 harmony->setHasStaff( true );
                 harmony->getStaff()->setValue( core::PositiveInteger{ myCursor.staffIndex + 1 } );
-- 
2.43.0


From 3c6513a1b4fa729c372fa03581f4279f7d876412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:29 +0000
Subject: [PATCH 53/75] fix: the visibility of chord extensions was not written

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 2778780..99bf6d9 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -585,6 +585,12 @@ namespace mx
                         case api::ExtensionAlter::none: degree->getDegreeAlter()->setValue( core::Semitones{ 0.0 } ); break;
                     }
 
+                    if( extension.printObject != api::Bool::unspecified )
+                    {
+                        degree->getAttributes()->hasPrintObject = true;
+                        degree->getAttributes()->printObject = myConverter.convert( extension.printObject );
+                    }
+
                     grp->addDegree( degree );
                 }
 
-- 
2.43.0


From bed032842d6a3f7ba8375b92e1fae9e7f1a8542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:52 +0000
Subject: [PATCH 54/75] fix: parentheses, position, font and colour of tempo
 marks were lost

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 12 ++++++++++--
 Sourcecode/private/mx/impl/MetronomeReader.cpp | 13 +++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 99bf6d9..bb52abf 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -317,8 +317,16 @@ namespace mx
                 auto pm = pmobuc->getPerMinute();
                 auto str = std::to_string( tempo.beatsPerMinute.beatsPerMinute );
                 pm->setValue( core::XsString{ str } );
-                //auto& attr = *outElement->getAttributes();
-                //setAttributesFromSpannerStart( item, attr );
+                auto& attr = *outElement->getAttributes();
+
+                if( tempo.isParenthetical != api::Bool::unspecified )
+                {
+                    attr.hasParentheses = true;
+                    attr.parentheses = myConverter.convert( tempo.isParenthetical );
+                }
+
+                setAttributesFromPrintData( tempo.printData, attr );
+                setAttributesFromPositionData( tempo.positionData, attr );
             }
 
             if( myDirectionData.words.size() > 0 )
diff --git a/Sourcecode/private/mx/impl/MetronomeReader.cpp b/Sourcecode/private/mx/impl/MetronomeReader.cpp
index 64e7627..1a315ff 100644
--- a/Sourcecode/private/mx/impl/MetronomeReader.cpp
+++ b/Sourcecode/private/mx/impl/MetronomeReader.cpp
@@ -16,6 +16,8 @@
 #include "mx/core/elements/PerMinute.h"
 #include "mx/core/elements/PerMinuteOrBeatUnitChoice.h"
 #include "mx/impl/Converter.h"
+#include "mx/impl/PositionFunctions.h"
+#include "mx/impl/PrintFunctions.h"
 #include "mx/utility/StringToInt.h"
 
 
@@ -57,6 +59,17 @@ namespace mx
                     break;
             }
             
+            const auto& attr = *myMetronome.getAttributes();
+
+            if( attr.hasParentheses )
+            {
+                Converter converter;
+                myOutTempoData.isParenthetical = converter.convert( attr.parentheses );
+            }
+
+            myOutTempoData.printData = getPrintData( attr );
+            myOutTempoData.positionData = getPositionData( attr );
+
             api::TempoData temp{ std::move( myOutTempoData ) };
             myOutTempoData = api::TempoData{};
             return temp;
-- 
2.43.0


From 12be84d850109f267d420b3112e25693f9036b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:12 +0000
Subject: [PATCH 55/75] fix: key changes within a measure lost their staff, and
 all but one of several at the same time

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index 43f997d..0f9e7b7 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -461,13 +461,9 @@ namespace mx
                         previousChordTickPosition = currentChordTickPosition;
                     }
 
-                    if( myMeasureKeysIter != myMeasureKeysEnd )
+                    for( ; myMeasureKeysIter != myMeasureKeysEnd && myMeasureKeysIter->tickTimePosition <= myHistory.getCursor().tickTimePosition; ++myMeasureKeysIter )
                     {
-                        if( myMeasureKeysIter->tickTimePosition <= myHistory.getCursor().tickTimePosition )
-                        {
-                            myPropertiesWriter->writeKey( -1, *myMeasureKeysIter );
-                            ++myMeasureKeysIter;
-                        }
+                        myPropertiesWriter->writeKey( myMeasureKeysIter->staffIndex, *myMeasureKeysIter );
                     }
                     
                     while( clefIter != clefEnd && clefIter->tickTimePosition <= myHistory.getCursor().tickTimePosition )
@@ -531,13 +527,9 @@ namespace mx
                     myPropertiesWriter->writeClef( myHistory.getCursor().staffIndex, clef );
                 }
                 
-                if( myMeasureKeysIter != myMeasureKeysEnd )
+                for( ; myMeasureKeysIter != myMeasureKeysEnd; ++myMeasureKeysIter )
                 {
-                    if( myMeasureKeysIter->tickTimePosition )
-                    {
-                        myPropertiesWriter->writeKey( -1, *myMeasureKeysIter );
-                        ++myMeasureKeysIter;
-                    }
+                    myPropertiesWriter->writeKey( myMeasureKeysIter->staffIndex, *myMeasureKeysIter );
                 }
                 
                 for( ; staffKeyIter != staffKeyEnd; ++staffKeyIter )
-- 
2.43.0


From 05d1226232bef6426e3754c04abf2071a90bdcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:12 +0000
Subject: [PATCH 56/75] fix: custom key signatures were read without their
 staff and time

---
 Sourcecode/private/mx/impl/MeasureReader.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Sourcecode/private/mx/impl/MeasureReader.cpp b/Sourcecode/private/mx/impl/MeasureReader.cpp
index b9cc2a4..a403cdd 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.cpp
+++ b/Sourcecode/private/mx/impl/MeasureReader.cpp
@@ -462,6 +462,12 @@ namespace mx
                 const auto& attr = *key.getAttributes();
                 const auto keyChoiceObj = *key.getKeyChoice();
                 const auto keyType = keyChoiceObj.getChoice();
+                int keyStaffIndex = -1;
+
+                if( attr.hasNumber && attr.number.getValue() <= myCurrentCursor.getNumStaves() )
+                {
+                    keyStaffIndex = attr.number.getValue() - 1;
+                }
 
                 if( keyType == core::KeyChoice::Choice::nonTraditionalKey )
                 {
@@ -488,6 +494,8 @@ namespace mx
                         keyData.nonTraditional.emplace_back( keyComponent );
                     }
 
+                    keyData.staffIndex = keyStaffIndex;
+                    keyData.tickTimePosition = myCurrentCursor.tickTimePosition;
                     myOutMeasureData.keys.emplace_back( std::move( keyData ) );
                     continue;
                 }
@@ -496,15 +504,7 @@ namespace mx
                 // TODO - do position attributes
                 const auto& traditionalKey = *keyChoiceObj.getTraditionalKey();
                 
-                if( attr.hasNumber )
-                {
-                    keyData.staffIndex = attr.number.getValue() - 1;
-                    if( keyData.staffIndex > myCurrentCursor.getNumStaves() - 1 )
-                    {
-                        keyData.staffIndex = -1;
-                    }
-                }
-                
+                keyData.staffIndex = keyStaffIndex;
                 keyData.fifths = traditionalKey.getFifths()->getValue().getValue();
                 if( traditionalKey.getHasCancel() )
                 {
-- 
2.43.0


From 6f311bcc53dfb4137be1d31e0c3a98230308b6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:12 +0000
Subject: [PATCH 57/75] fix: unsupported key modes were read as no mode

---
 Sourcecode/private/mx/impl/MeasureReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/MeasureReader.cpp b/Sourcecode/private/mx/impl/MeasureReader.cpp
index a403cdd..ebfab2c 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.cpp
+++ b/Sourcecode/private/mx/impl/MeasureReader.cpp
@@ -523,7 +523,7 @@ namespace mx
                     {
                         keyData.mode = api::KeyMode::minor;
                     }
-                    else if( coreMode == core::ModeEnum::minor )
+                    else
                     {
                         keyData.mode = api::KeyMode::unsupported;
                     }
-- 
2.43.0


From 6e5c48f134977e971e90ca144c7f163572db3c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:12 +0000
Subject: [PATCH 58/75] fix: the side of the barline of a clef was not written

---
 Sourcecode/private/mx/impl/PropertiesWriter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Sourcecode/private/mx/impl/PropertiesWriter.cpp b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
index 12e4c3c..7fe68ef 100644
--- a/Sourcecode/private/mx/impl/PropertiesWriter.cpp
+++ b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
@@ -280,6 +280,13 @@ namespace mx
                 mxClef->setHasClefOctaveChange( true );
                 mxClef->getClefOctaveChange()->setValue( core::Integer{ inClefData.octaveChange } );
             }
+
+            if( inClefData.location == api::ClefLocation::afterBarline || inClefData.location == api::ClefLocation::beforeBarline )
+            {
+                mxClef->getAttributes()->hasAfterBarline = true;
+                mxClef->getAttributes()->afterBarline = converter.convert( inClefData.location == api::ClefLocation::afterBarline ? api::Bool::yes : api::Bool::no );
+            }
+
             myProperties->addClef( mxClef );
         }
 
-- 
2.43.0


From 09c527322bddacd3f5d79a772cd232a4d16bc0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 59/75] fix: the non-controlling flag of measures was lost

---
 Sourcecode/private/mx/impl/MeasureReader.cpp | 5 +++++
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/Sourcecode/private/mx/impl/MeasureReader.cpp b/Sourcecode/private/mx/impl/MeasureReader.cpp
index ebfab2c..65744f9 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.cpp
+++ b/Sourcecode/private/mx/impl/MeasureReader.cpp
@@ -129,6 +129,11 @@ namespace mx
                 myOutMeasureData.width = attr.width.getValue();
             }
             
+            if( attr.hasNonControlling )
+            {
+                myOutMeasureData.nonControlling = attr.nonControlling == core::YesNo::yes ? api::Bool::yes : api::Bool::no;
+            }
+
             if( attr.hasImplicit )
             {
                 myOutMeasureData.implicit = attr.implicit == core::YesNo::yes ? api::Bool::yes : api::Bool::no;
diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index 0f9e7b7..d99ebec 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -198,6 +198,12 @@ namespace mx
                 measureAttr.hasImplicit = true;
                 measureAttr.implicit = converter.convert( myMeasureData.implicit );
             }
+
+            if( myMeasureData.nonControlling != api::Bool::unspecified )
+            {
+                measureAttr.hasNonControlling = true;
+                measureAttr.nonControlling = converter.convert( myMeasureData.nonControlling );
+            }
             
             if( myScoreWriter.isSystemInfo( myHistory.getCursor().measureIndex ) )
             {
-- 
2.43.0


From 3f28efe2032fd4226658b3bd6edfd6ce73614e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:29 +0000
Subject: [PATCH 60/75] fix: multi-measure rests were not written

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp    |  5 +++++
 Sourcecode/private/mx/impl/PropertiesWriter.cpp | 10 ++++++++++
 Sourcecode/private/mx/impl/PropertiesWriter.h   |  1 +
 3 files changed, 16 insertions(+)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index d99ebec..61b8545 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -231,6 +231,11 @@ namespace mx
                 myPropertiesWriter->writeTime( myMeasureData.timeSignature );
             }
             
+            if( myMeasureData.multiMeasureRest > 0 )
+            {
+                myPropertiesWriter->writeMultiMeasureRest( myMeasureData.multiMeasureRest );
+            }
+
             int localStaffCounter = 0;
             
             for( const auto& staff : myMeasureData.staves )
diff --git a/Sourcecode/private/mx/impl/PropertiesWriter.cpp b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
index 7fe68ef..03a0c51 100644
--- a/Sourcecode/private/mx/impl/PropertiesWriter.cpp
+++ b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
@@ -256,6 +256,16 @@ namespace mx
         }
         
         
+        void PropertiesWriter::writeMultiMeasureRest( int value )
+        {
+            auto measureStyle = core::makeMeasureStyle();
+            auto choice = measureStyle->getMeasureStyleChoice();
+            choice->setChoice( core::MeasureStyleChoice::Choice::multipleRest );
+            choice->getMultipleRest()->setValue( core::PositiveIntegerOrEmpty{ core::PositiveInteger{ value } } );
+            myProperties->addMeasureStyle( measureStyle );
+        }
+
+
         void PropertiesWriter::writeClef( int staffIndex, const api::ClefData& inClefData )
         {
             auto mxClef = core::makeClef();
diff --git a/Sourcecode/private/mx/impl/PropertiesWriter.h b/Sourcecode/private/mx/impl/PropertiesWriter.h
index 5ca3093..7a664b9 100644
--- a/Sourcecode/private/mx/impl/PropertiesWriter.h
+++ b/Sourcecode/private/mx/impl/PropertiesWriter.h
@@ -58,6 +58,7 @@ namespace mx
             static void writeNonTraditionalKey( const api::KeyData& inKeyData, mx::core::KeyPtr& ioKey );
             void writeTime( const api::TimeSignatureData& value );
             void writeNumStaves( int value );
+            void writeMultiMeasureRest( int value );
             void writeClef( int staffIndex, const api::ClefData& inClefData );
             void writeTranspose( const api::TransposeData& inTransposeData );
 
-- 
2.43.0


From 64b36370f2583e8eeda58a0b8dd9b6fe129b2013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:39 +0000
Subject: [PATCH 61/75] fix: barlines within a measure were written at its end

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index 61b8545..673383c 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -472,6 +472,8 @@ namespace mx
                         previousChordTickPosition = currentChordTickPosition;
                     }
 
+                    writeBarlines( myHistory.getCursor().tickTimePosition );
+
                     for( ; myMeasureKeysIter != myMeasureKeysEnd && myMeasureKeysIter->tickTimePosition <= myHistory.getCursor().tickTimePosition; ++myMeasureKeysIter )
                     {
                         myPropertiesWriter->writeKey( myMeasureKeysIter->staffIndex, *myMeasureKeysIter );
-- 
2.43.0


From b803d75833641b9aea2cff4f13b216c88f9b3750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:34 +0000
Subject: [PATCH 62/75] fix: other-appearance was read as a distance of zero

---
 Sourcecode/private/mx/impl/LayoutFunctions.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/impl/LayoutFunctions.cpp b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
index 0a0a20a..1f9ee10 100644
--- a/Sourcecode/private/mx/impl/LayoutFunctions.cpp
+++ b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
@@ -28,6 +28,8 @@
 #include "mx/core/elements/TopMargin.h"
 #include "mx/core/elements/TopSystemDistance.h"
 
+#include <sstream>
+
 namespace mx
 {
     namespace impl
@@ -419,11 +421,10 @@ namespace mx
             for( const auto& other : appearance.getOtherAppearanceSet() )
             {
                 api::AppearanceData data{};
-                data.appearanceType = api::AppearanceType::Distance;
+                data.appearanceType = api::AppearanceType::OtherAppearance;
                 data.appearanceSubType = core::toString( other->getAttributes()->type );
-
-                // TODO - fix
-                data.value = 0.0;//other->getValue().getValue();
+                std::istringstream value{ other->getValue().getValue() };
+                value >> data.value;
                 outDefaults.appearance.emplace_back( std::move( data ) );
             }
         }
-- 
2.43.0


From 6139a9f2fbf04940af603052412349de0b9e6feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:34 +0000
Subject: [PATCH 63/75] fix: a top system distance wrote system margins that
 were not asked for

---
 Sourcecode/private/mx/impl/LayoutFunctions.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/LayoutFunctions.cpp b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
index 1f9ee10..a9822e7 100644
--- a/Sourcecode/private/mx/impl/LayoutFunctions.cpp
+++ b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
@@ -197,7 +197,6 @@ namespace mx
                 const auto& top = inDefaults.systemLayout.topSystemDistance.value();
                 outScoreHeaderGroup.setHasDefaults( true );
                 layoutGroup.setHasSystemLayout( true );
-                systemLayout.setHasSystemMargins( true );
                 systemLayout.setHasTopSystemDistance( true );
                 systemLayout.getTopSystemDistance()->setValue( core::TenthsValue{ top } );
             }
-- 
2.43.0


From e705c8768a03185199cbf6ef6c340db48a46da1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:34 +0000
Subject: [PATCH 64/75] fix: the arranger and the publisher were read as the
 lyricist

---
 Sourcecode/private/mx/impl/ScoreReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/ScoreReader.cpp b/Sourcecode/private/mx/impl/ScoreReader.cpp
index a6c3668..5ffa138 100644
--- a/Sourcecode/private/mx/impl/ScoreReader.cpp
+++ b/Sourcecode/private/mx/impl/ScoreReader.cpp
@@ -232,13 +232,13 @@ namespace mx
                     
                     if( a->type.getValue() == "arranger" )
                     {
-                        myOutScoreData.lyricist = i->getValue().getValue();
+                        myOutScoreData.arranger = i->getValue().getValue();
                         isArrangerFound = true;
                     }
                     
                     if( a->type.getValue() == "publisher" )
                     {
-                        myOutScoreData.lyricist = i->getValue().getValue();
+                        myOutScoreData.publisher = i->getValue().getValue();
                         isPublisherFound = true;
                     }
                 }
-- 
2.43.0


From c0e2836fd16379549aa164a4c443f1443c736c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:34 +0000
Subject: [PATCH 65/75] fix: the arranger and the publisher were not written

---
 Sourcecode/private/mx/impl/ScoreWriter.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/Sourcecode/private/mx/impl/ScoreWriter.cpp b/Sourcecode/private/mx/impl/ScoreWriter.cpp
index 661c0e8..502f341 100644
--- a/Sourcecode/private/mx/impl/ScoreWriter.cpp
+++ b/Sourcecode/private/mx/impl/ScoreWriter.cpp
@@ -109,6 +109,26 @@ namespace mx
                 header->getIdentification()->addCreator( lyricist );
             }
             
+            if( !myScoreData.arranger.empty() )
+            {
+                auto arranger = core::makeCreator();
+                arranger->getAttributes()->hasType = true;
+                arranger->getAttributes()->type = core::XsToken( "arranger" );
+                arranger->setValue( core::XsString( myScoreData.arranger ) );
+                header->setHasIdentification( true );
+                header->getIdentification()->addCreator( arranger );
+            }
+            
+            if( !myScoreData.publisher.empty() )
+            {
+                auto publisher = core::makeCreator();
+                publisher->getAttributes()->hasType = true;
+                publisher->getAttributes()->type = core::XsToken( "publisher" );
+                publisher->setValue( core::XsString( myScoreData.publisher ) );
+                header->setHasIdentification( true );
+                header->getIdentification()->addCreator( publisher );
+            }
+            
             if( !myScoreData.copyright.empty() )
             {
                 auto copyright = core::makeRights();
-- 
2.43.0


From d0d7fcca73e2affb91577ab5b07ef85e49c11e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:34 +0000
Subject: [PATCH 66/75] fix: the displayed abbreviation of a part was read from
 its displayed name

---
 Sourcecode/private/mx/impl/PartReader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/PartReader.cpp b/Sourcecode/private/mx/impl/PartReader.cpp
index 2906af7..b5cdc00 100644
--- a/Sourcecode/private/mx/impl/PartReader.cpp
+++ b/Sourcecode/private/mx/impl/PartReader.cpp
@@ -31,6 +31,7 @@
 #include "mx/core/elements/PartGroupOrScorePart.h"
 #include "mx/core/elements/PartList.h"
 #include "mx/core/elements/PartName.h"
+#include "mx/core/elements/PartAbbreviationDisplay.h"
 #include "mx/core/elements/PartNameDisplay.h"
 #include "mx/core/elements/PartwisePart.h"
 #include "mx/core/elements/Properties.h"
@@ -208,7 +209,7 @@ namespace mx
             
             if( myScorePart.getHasPartAbbreviationDisplay() )
             {
-                myOutPartData.displayAbbreviation = extractDisplayText( myScorePart.getPartNameDisplay()->getDisplayTextOrAccidentalTextSet() );
+                myOutPartData.displayAbbreviation = extractDisplayText( myScorePart.getPartAbbreviationDisplay()->getDisplayTextOrAccidentalTextSet() );
             }
             
             if( myScorePart.getScoreInstrumentSet().size() > 0 )
-- 
2.43.0


From d858ac034031c8d426d065dd11a7d43faf0bf95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:34 +0000
Subject: [PATCH 67/75] fix: sharps in the displayed name of a part were lost

---
 Sourcecode/private/mx/impl/PartReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/PartReader.cpp b/Sourcecode/private/mx/impl/PartReader.cpp
index b5cdc00..b71334d 100644
--- a/Sourcecode/private/mx/impl/PartReader.cpp
+++ b/Sourcecode/private/mx/impl/PartReader.cpp
@@ -239,7 +239,7 @@ namespace mx
                     {
                         ss << "b"; // TODO - support accidental text correctly
                     }
-                    else if( c->getAccidentalText()->getValue() == core::AccidentalValue::flat )
+                    else if( c->getAccidentalText()->getValue() == core::AccidentalValue::sharp )
                     {
                         ss << "#";
                     }
-- 
2.43.0


From efe3db86ca2949ded706fa8e71a97dcf4aadcf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:34 +0000
Subject: [PATCH 68/75] fix: the midi name and the midi unpitched value of an
 instrument were not written

---
 Sourcecode/private/mx/impl/PartWriter.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/Sourcecode/private/mx/impl/PartWriter.cpp b/Sourcecode/private/mx/impl/PartWriter.cpp
index a34d9a2..e0bb5eb 100644
--- a/Sourcecode/private/mx/impl/PartWriter.cpp
+++ b/Sourcecode/private/mx/impl/PartWriter.cpp
@@ -187,6 +187,20 @@ namespace mx
                 midiInstrument.setHasMidiProgram( true );
                 midiInstrument.getMidiProgram()->setValue( core::Midi128{ myPartData.instrumentData.midiData.program } );
             }
+            if( myPartData.instrumentData.midiData.name.size() > 0 )
+            {
+                addMidiElement = true;
+                midiGroup->setHasMidiInstrument( true );
+                midiInstrument.setHasMidiName( true );
+                midiInstrument.getMidiName()->setValue( core::XsString{ myPartData.instrumentData.midiData.name } );
+            }
+            if( myPartData.instrumentData.midiData.unpitched >= 0 )
+            {
+                addMidiElement = true;
+                midiGroup->setHasMidiInstrument( true );
+                midiInstrument.setHasMidiUnpitched( true );
+                midiInstrument.getMidiUnpitched()->setValue( core::Midi128{ myPartData.instrumentData.midiData.unpitched } );
+            }
             if( myPartData.instrumentData.midiData.isElevationSpecified )
             {
                 addMidiElement = true;
-- 
2.43.0


From 1fa97385d83aae0b0057b4483b3fa146af118e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:34 +0000
Subject: [PATCH 69/75] fix: an instrument with nothing but an id or a sound
 was not written

---
 Sourcecode/private/mx/impl/PartWriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/PartWriter.cpp b/Sourcecode/private/mx/impl/PartWriter.cpp
index e0bb5eb..7b7c870 100644
--- a/Sourcecode/private/mx/impl/PartWriter.cpp
+++ b/Sourcecode/private/mx/impl/PartWriter.cpp
@@ -101,7 +101,7 @@ namespace mx
                 myOutScorePart->getPartAbbreviationDisplay()->addDisplayTextOrAccidentalText( dtoat );
             }
             auto scoreIntstrument = core::makeScoreInstrument();
-            bool addScoreInstrument = false;
+            bool addScoreInstrument = myPartData.instrumentData.uniqueId.size() > 0;
             scoreIntstrument->getAttributes()->id = core::XsID{ myPartData.instrumentData.uniqueId };
             if( myPartData.instrumentData.name.size() > 0 )
             {
@@ -144,6 +144,7 @@ namespace mx
             
             if( myPartData.instrumentData.soundID != api::SoundID::unspecified && myPartData.instrumentData.soundID != api::SoundID::errorBadString )
             {
+                addScoreInstrument = true;
                 scoreIntstrument->setHasInstrumentSound( true );
                 Converter c;
                 scoreIntstrument->getInstrumentSound()->setValue( c.convert( myPartData.instrumentData.soundID ) );
-- 
2.43.0


From 8ca728e5e76b31c842e630fe163c24eaa79816ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:34 +0000
Subject: [PATCH 70/75] fix: the abbreviation of a part group was not written

---
 Sourcecode/private/mx/impl/ScoreWriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Sourcecode/private/mx/impl/ScoreWriter.cpp b/Sourcecode/private/mx/impl/ScoreWriter.cpp
index 502f341..0793499 100644
--- a/Sourcecode/private/mx/impl/ScoreWriter.cpp
+++ b/Sourcecode/private/mx/impl/ScoreWriter.cpp
@@ -315,6 +315,12 @@ namespace mx
                 mxGrp->getGroupName()->setValue( core::XsString{ apiGrp.name} );
             }
 
+            if( apiGrp.abbreviation.size() > 0 )
+            {
+                mxGrp->setHasGroupAbbreviation( true );
+                mxGrp->getGroupAbbreviation()->setValue( core::XsString{ apiGrp.abbreviation } );
+            }
+
             Converter converter;
             if( apiGrp.bracketType != api::BracketType::unspecified )
             {
-- 
2.43.0


From 3d173945687f60a9b483e8e12ed35c92ff0d6ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:34 +0000
Subject: [PATCH 71/75] fix: the displayed name and abbreviation of a part
 group were lost

---
 Sourcecode/private/mx/impl/ScoreReader.cpp | 39 ++++++++++++++++++++--
 Sourcecode/private/mx/impl/ScoreWriter.cpp | 23 +++++++++++++
 2 files changed, 60 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/ScoreReader.cpp b/Sourcecode/private/mx/impl/ScoreReader.cpp
index 5ffa138..2ae740e 100644
--- a/Sourcecode/private/mx/impl/ScoreReader.cpp
+++ b/Sourcecode/private/mx/impl/ScoreReader.cpp
@@ -8,6 +8,9 @@
 #include "mx/core/elements/Divisions.h"
 #include "mx/core/elements/Encoding.h"
 #include "mx/core/elements/EncodingChoice.h"
+#include "mx/core/elements/AccidentalText.h"
+#include "mx/core/elements/DisplayText.h"
+#include "mx/core/elements/DisplayTextOrAccidentalText.h"
 #include "mx/core/elements/GroupAbbreviation.h"
 #include "mx/core/elements/GroupAbbreviationDisplay.h"
 #include "mx/core/elements/GroupName.h"
@@ -64,6 +67,30 @@ namespace mx
 {
     namespace impl
     {
+        namespace
+        {
+            std::string extractDisplayText( const core::DisplayTextOrAccidentalTextSet& items )
+            {
+                std::string text;
+                for( const auto& c : items )
+                {
+                    if( c->getChoice() == core::DisplayTextOrAccidentalText::Choice::displayText )
+                    {
+                        text += c->getDisplayText()->getValue().getValue();
+                    }
+                    else if( c->getAccidentalText()->getValue() == core::AccidentalValue::flat )
+                    {
+                        text += "b";
+                    }
+                    else if( c->getAccidentalText()->getValue() == core::AccidentalValue::sharp )
+                    {
+                        text += "#";
+                    }
+                }
+                return text;
+            }
+        }
+
         ScoreReader::ScoreReader( const core::ScorePartwise& inScorePartwise )
         : myScorePartwise{ inScorePartwise }
         , myPartSet{ inScorePartwise.getPartwisePartSet() }
@@ -342,8 +369,16 @@ namespace mx
 
             grpData.firstPartIndex = partIndex;
             
-            // TODO - group name display
-            // TODO - group abbreviation display
+            if( inPartGroup->getHasGroupNameDisplay() )
+            {
+                grpData.displayName = extractDisplayText( inPartGroup->getGroupNameDisplay()->getDisplayTextOrAccidentalTextSet() );
+            }
+
+            if( inPartGroup->getHasGroupAbbreviationDisplay() )
+            {
+                grpData.displayAbbreviation = extractDisplayText( inPartGroup->getGroupAbbreviationDisplay()->getDisplayTextOrAccidentalTextSet() );
+            }
+
             // TODO - barline, etc
 
             myPartGroupStack.push_front( grpData );
diff --git a/Sourcecode/private/mx/impl/ScoreWriter.cpp b/Sourcecode/private/mx/impl/ScoreWriter.cpp
index 0793499..3b24a04 100644
--- a/Sourcecode/private/mx/impl/ScoreWriter.cpp
+++ b/Sourcecode/private/mx/impl/ScoreWriter.cpp
@@ -4,8 +4,13 @@
 
 #include "mx/core/elements/Creator.h"
 #include "mx/core/elements/Encoding.h"
+#include "mx/core/elements/DisplayText.h"
+#include "mx/core/elements/DisplayTextOrAccidentalText.h"
+#include "mx/core/elements/GroupAbbreviation.h"
+#include "mx/core/elements/GroupAbbreviationDisplay.h"
 #include "mx/core/elements/GroupBarline.h"
 #include "mx/core/elements/GroupName.h"
+#include "mx/core/elements/GroupNameDisplay.h"
 #include "mx/core/elements/GroupSymbol.h"
 #include "mx/core/elements/Identification.h"
 #include "mx/core/elements/Miscellaneous.h"
@@ -315,12 +320,30 @@ namespace mx
                 mxGrp->getGroupName()->setValue( core::XsString{ apiGrp.name} );
             }
 
+            if( apiGrp.displayName.size() > 0 )
+            {
+                auto text = core::makeDisplayTextOrAccidentalText();
+                text->setChoice( core::DisplayTextOrAccidentalText::Choice::displayText );
+                text->getDisplayText()->setValue( core::XsString{ apiGrp.displayName } );
+                mxGrp->setHasGroupNameDisplay( true );
+                mxGrp->getGroupNameDisplay()->addDisplayTextOrAccidentalText( text );
+            }
+
             if( apiGrp.abbreviation.size() > 0 )
             {
                 mxGrp->setHasGroupAbbreviation( true );
                 mxGrp->getGroupAbbreviation()->setValue( core::XsString{ apiGrp.abbreviation } );
             }
 
+            if( apiGrp.displayAbbreviation.size() > 0 )
+            {
+                auto text = core::makeDisplayTextOrAccidentalText();
+                text->setChoice( core::DisplayTextOrAccidentalText::Choice::displayText );
+                text->getDisplayText()->setValue( core::XsString{ apiGrp.displayAbbreviation } );
+                mxGrp->setHasGroupAbbreviationDisplay( true );
+                mxGrp->getGroupAbbreviationDisplay()->addDisplayTextOrAccidentalText( text );
+            }
+
             Converter converter;
             if( apiGrp.bracketType != api::BracketType::unspecified )
             {
-- 
2.43.0


From 2081036235e24291bde1d71cbe4e3c119cb6c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:34 +0000
Subject: [PATCH 72/75] fix: the bracket type of a new part group was
 uninitialised

---
 Sourcecode/include/mx/api/PartGroupData.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/include/mx/api/PartGroupData.h b/Sourcecode/include/mx/api/PartGroupData.h
index e7b4cb7..294ff38 100644
--- a/Sourcecode/include/mx/api/PartGroupData.h
+++ b/Sourcecode/include/mx/api/PartGroupData.h
@@ -59,6 +59,7 @@ namespace mx
             : firstPartIndex{ -1 }
             , lastPartIndex{ -1 }
             , name{}
+            , bracketType{ BracketType::unspecified }
             , number{ -1 }
             {
             
-- 
2.43.0


From 8c59f7f5bad103a2306195b612b7d6d803b99289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:59 +0000
Subject: [PATCH 73/75] fix: converting a score with parts of different lengths
 to timewise read past the end

---
 Sourcecode/private/mx/core/ScoreConversions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/ScoreConversions.cpp b/Sourcecode/private/mx/core/ScoreConversions.cpp
index 9ffa559..f2ee542 100644
--- a/Sourcecode/private/mx/core/ScoreConversions.cpp
+++ b/Sourcecode/private/mx/core/ScoreConversions.cpp
@@ -77,7 +77,8 @@ namespace mx
                     {
                         return searchingForThis->getAttributes()->id.getValue() == sp->getAttributes()->id.getValue();
                     });
-                    if ( partIter != inScore->getPartwisePartSet().cend() )
+                    if ( partIter != inScore->getPartwisePartSet().cend()
+                         && currentMeasureIndex < (*partIter)->getPartwiseMeasureSet().size() )
                     {
                         auto measureIter = (*partIter)->getPartwiseMeasureSet().cbegin();
                         /* Find the Correct Measure Within The Part */
-- 
2.43.0


From a415d8950bb4a0af04c7ff126a23bfa3992d6de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:59 +0000
Subject: [PATCH 74/75] fix: the message of an error while reading a file was
 lost

---
 Sourcecode/private/mx/api/DocumentManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/api/DocumentManager.cpp b/Sourcecode/private/mx/api/DocumentManager.cpp
index a206ce0..fe9f765 100644
--- a/Sourcecode/private/mx/api/DocumentManager.cpp
+++ b/Sourcecode/private/mx/api/DocumentManager.cpp
@@ -87,7 +87,7 @@ namespace mx
                     MX_THROW( ss.str() );
                 }
 
-                throw e;
+                throw;
             }
 
             auto mxdoc = mx::core::makeDocument();
-- 
2.43.0


From ca23c34496cfd2efd623e4556bd33f77a8b57a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:14 +0000
Subject: [PATCH 75/75] fix: getting the data of a timewise document changed
 the document

---
 Sourcecode/private/mx/api/DocumentManager.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/Sourcecode/private/mx/api/DocumentManager.cpp b/Sourcecode/private/mx/api/DocumentManager.cpp
index fe9f765..3885357 100644
--- a/Sourcecode/private/mx/api/DocumentManager.cpp
+++ b/Sourcecode/private/mx/api/DocumentManager.cpp
@@ -6,6 +6,7 @@
 #include "mx/impl/ScoreReader.h"
 #include "mx/impl/ScoreWriter.h"
 #include "mx/core/Document.h"
+#include "mx/core/ScoreConversions.h"
 #include "ezxml/XFactory.h"
 #include "mx/utility/Throw.h"
 
@@ -189,21 +190,18 @@ namespace mx
                 return ScoreData{};
             }
             
-            bool wasTimewise = false;
+            const auto& document = *it->second;
+            const bool isTimewise = document.getChoice() == core::DocumentChoice::timewise;
+            const auto scorePartwise = isTimewise
+                ? core::timewisePartwise( document.getScoreTimewise() )
+                : document.getScorePartwise();
 
-            if( it->second->getChoice() == core::DocumentChoice::timewise )
-            {
-                wasTimewise = true;
-                it->second->convertContents();
-            }
-
-            impl::ScoreReader reader{ *it->second->getScorePartwise() };
+            impl::ScoreReader reader{ *scorePartwise };
             auto score = reader.getScoreData();
 
-            if( wasTimewise )
+            if( isTimewise )
             {
                 score.musicXmlType = "timewise";
-                it->second->convertContents();
             }
             return score;
         }
-- 
2.43.0

