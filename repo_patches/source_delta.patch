From 8bea35d6679bc4bc38fbebec0c7321ddb7fa91ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 01/99] fix: partwise to timewise conversion read past the
 measures of shorter parts

---
 Sourcecode/private/mx/core/ScoreConversions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/ScoreConversions.cpp b/Sourcecode/private/mx/core/ScoreConversions.cpp
index 9ffa559..a5364e8 100644
--- a/Sourcecode/private/mx/core/ScoreConversions.cpp
+++ b/Sourcecode/private/mx/core/ScoreConversions.cpp
@@ -77,7 +77,8 @@ namespace mx
                     {
                         return searchingForThis->getAttributes()->id.getValue() == sp->getAttributes()->id.getValue();
                     });
-                    if ( partIter != inScore->getPartwisePartSet().cend() )
+                    if ( partIter != inScore->getPartwisePartSet().cend() &&
+                         currentMeasureIndex < (*partIter)->getPartwiseMeasureSet().size() )
                     {
                         auto measureIter = (*partIter)->getPartwiseMeasureSet().cbegin();
                         /* Find the Correct Measure Within The Part */
-- 
2.43.0


From ca46547a8125a5d67f8637a960d5541d88d566b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 02/99] fix: reading a timewise document converted the stored
 document back and forth, changing it

---
 Sourcecode/private/mx/api/DocumentManager.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/Sourcecode/private/mx/api/DocumentManager.cpp b/Sourcecode/private/mx/api/DocumentManager.cpp
index a206ce0..ad84ab6 100644
--- a/Sourcecode/private/mx/api/DocumentManager.cpp
+++ b/Sourcecode/private/mx/api/DocumentManager.cpp
@@ -6,6 +6,7 @@
 #include "mx/impl/ScoreReader.h"
 #include "mx/impl/ScoreWriter.h"
 #include "mx/core/Document.h"
+#include "mx/core/ScoreConversions.h"
 #include "ezxml/XFactory.h"
 #include "mx/utility/Throw.h"
 
@@ -189,21 +190,19 @@ namespace mx
                 return ScoreData{};
             }
             
-            bool wasTimewise = false;
+            const bool isTimewise = it->second->getChoice() == core::DocumentChoice::timewise;
 
-            if( it->second->getChoice() == core::DocumentChoice::timewise )
-            {
-                wasTimewise = true;
-                it->second->convertContents();
-            }
+            // read from a converted copy: the stored document must not change, even if reading it fails
+            const auto scorePartwise = isTimewise
+                ? core::timewisePartwise( it->second->getScoreTimewise() )
+                : it->second->getScorePartwise();
 
-            impl::ScoreReader reader{ *it->second->getScorePartwise() };
+            impl::ScoreReader reader{ *scorePartwise };
             auto score = reader.getScoreData();
 
-            if( wasTimewise )
+            if( isTimewise )
             {
                 score.musicXmlType = "timewise";
-                it->second->convertContents();
             }
             return score;
         }
-- 
2.43.0


From 38fd405ef375446c2752f925a90aba1a16aef8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 03/99] fix: offsets of directions and chord symbols were not
 converted to the ticks of the score

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 41ba238..c297c8c 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -123,7 +123,7 @@ namespace mx
             {
                 if( myDirection->getHasOffset() )
                 {
-                    const auto offset = static_cast<int>( std::ceil( myDirection->getOffset()->getValue().getValue() - 0.5 ) );
+                    const auto offset = myCursor.convertDurationToGlobalTickScale( static_cast<long double>( myDirection->getOffset()->getValue().getValue() ) );
                     myOutDirectionData.tickTimePosition += offset;
                 }
             }
@@ -131,7 +131,7 @@ namespace mx
             {
                 if( myHarmony->getHasOffset() )
                 {
-                    const auto offset = static_cast<int>( std::ceil( myHarmony->getOffset()->getValue().getValue() - 0.5 ) );
+                    const auto offset = myCursor.convertDurationToGlobalTickScale( static_cast<long double>( myHarmony->getOffset()->getValue().getValue() ) );
                     myOutDirectionData.tickTimePosition += offset;
                 }
             }
-- 
2.43.0


From aec46c8d0291f14cecc0f370b92bc259ca487b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 04/99] fix: a damp-all direction was read as an empty
 rehearsal mark

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index c297c8c..542f0a0 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -268,7 +268,7 @@ namespace mx
                 }
                 case core::DirectionType::Choice::dampAll:
                 {
-                    parseRehearsal( directionType );
+                    parseDampAll( directionType );
                     break;
                 }
                 case core::DirectionType::Choice::eyeglasses:
-- 
2.43.0


From 6ef380eb17a7109be402019b8e3bb4045105e79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 05/99] fix: the time and staff of non-traditional keys were
 not read

---
 Sourcecode/private/mx/impl/MeasureReader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Sourcecode/private/mx/impl/MeasureReader.cpp b/Sourcecode/private/mx/impl/MeasureReader.cpp
index b9cc2a4..5f6fd70 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.cpp
+++ b/Sourcecode/private/mx/impl/MeasureReader.cpp
@@ -466,6 +466,13 @@ namespace mx
                 if( keyType == core::KeyChoice::Choice::nonTraditionalKey )
                 {
                     api::KeyData keyData;
+                    keyData.tickTimePosition = myCurrentCursor.tickTimePosition;
+
+                    if( attr.hasNumber && attr.number.getValue() <= myCurrentCursor.getNumStaves() )
+                    {
+                        keyData.staffIndex = attr.number.getValue() - 1;
+                    }
+
                     const auto& nonTraditionalKeyParts = key.getKeyChoice()->getNonTraditionalKeySet();
                     for( const auto& nonTraditionalKeyPart : nonTraditionalKeyParts )
                     {
-- 
2.43.0


From 68f79874e68d70a40760dc9ce351bfbdf5ee3adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 06/99] fix: the display abbreviation of a part was read from
 its display name, and a sharp in either was lost

---
 Sourcecode/private/mx/impl/PartReader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/PartReader.cpp b/Sourcecode/private/mx/impl/PartReader.cpp
index 2906af7..44ec6b9 100644
--- a/Sourcecode/private/mx/impl/PartReader.cpp
+++ b/Sourcecode/private/mx/impl/PartReader.cpp
@@ -28,6 +28,7 @@
 #include "mx/core/elements/Note.h"
 #include "mx/core/elements/Pan.h"
 #include "mx/core/elements/PartAbbreviation.h"
+#include "mx/core/elements/PartAbbreviationDisplay.h"
 #include "mx/core/elements/PartGroupOrScorePart.h"
 #include "mx/core/elements/PartList.h"
 #include "mx/core/elements/PartName.h"
@@ -208,7 +209,7 @@ namespace mx
             
             if( myScorePart.getHasPartAbbreviationDisplay() )
             {
-                myOutPartData.displayAbbreviation = extractDisplayText( myScorePart.getPartNameDisplay()->getDisplayTextOrAccidentalTextSet() );
+                myOutPartData.displayAbbreviation = extractDisplayText( myScorePart.getPartAbbreviationDisplay()->getDisplayTextOrAccidentalTextSet() );
             }
             
             if( myScorePart.getScoreInstrumentSet().size() > 0 )
@@ -238,7 +239,7 @@ namespace mx
                     {
                         ss << "b"; // TODO - support accidental text correctly
                     }
-                    else if( c->getAccidentalText()->getValue() == core::AccidentalValue::flat )
+                    else if( c->getAccidentalText()->getValue() == core::AccidentalValue::sharp )
                     {
                         ss << "#";
                     }
-- 
2.43.0


From 20b139f62d08116c8c331c3572ef884bcad463dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:45 +0000
Subject: [PATCH 07/99] fix: the note type derived from a duration was measured
 in the divisions of the score instead of the part

---
 Sourcecode/private/mx/impl/NoteFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/NoteFunctions.cpp b/Sourcecode/private/mx/impl/NoteFunctions.cpp
index c775e19..ea1c1f1 100644
--- a/Sourcecode/private/mx/impl/NoteFunctions.cpp
+++ b/Sourcecode/private/mx/impl/NoteFunctions.cpp
@@ -192,7 +192,7 @@ namespace mx
         api::DurationName NoteFunctions::deriveNoteTypeFromDurationValue( const NoteReader& reader ) const
         {
             const long double durationValue = reader.getDurationValue();
-            const long double ticksPerQuarter = static_cast<long double>( myCursor.getGlobalTicksPerQuarter() );
+            const long double ticksPerQuarter = static_cast<long double>( myCursor.ticksPerQuarter );
             
             if( api::areSame( durationValue, api::DUR_QUARTERS_VALUE_QUARTER * ticksPerQuarter ) )
             {
-- 
2.43.0


From c3e552e1373ee19ae2ca793e64626f99f2c4645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:06 +0000
Subject: [PATCH 08/99] fix: notes, directions and clefs at one time lost their
 order when a score was written

---
 Sourcecode/private/mx/api/ScoreData.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Sourcecode/private/mx/api/ScoreData.cpp b/Sourcecode/private/mx/api/ScoreData.cpp
index 912f0d0..33ed7d0 100644
--- a/Sourcecode/private/mx/api/ScoreData.cpp
+++ b/Sourcecode/private/mx/api/ScoreData.cpp
@@ -4,6 +4,8 @@
 
 #include "mx/api/ScoreData.h"
 
+#include <algorithm>
+
 namespace mx
 {
     namespace api
@@ -71,28 +73,28 @@ namespace mx
                     for ( auto& staff : measure.staves )
                     {
 
-                        const auto clefCompare = [&]( ClefData& inLeft, ClefData& inRight )
+                        const auto clefCompare = [&]( const ClefData& inLeft, const ClefData& inRight )
                         {
                             return inLeft.tickTimePosition < inRight.tickTimePosition;
                         };
 
-                        std::sort( std::begin( staff.clefs ), std::end( staff.clefs ), clefCompare );
+                        std::stable_sort( std::begin( staff.clefs ), std::end( staff.clefs ), clefCompare );
 
-                        const auto directionCompare = [&]( DirectionData& inLeft, DirectionData& inRight )
+                        const auto directionCompare = [&]( const DirectionData& inLeft, const DirectionData& inRight )
                         {
                             return inLeft.tickTimePosition < inRight.tickTimePosition;
                         };
 
-                        std::sort( std::begin( staff.directions ), std::end( staff.directions ), directionCompare );
+                        std::stable_sort( std::begin( staff.directions ), std::end( staff.directions ), directionCompare );
 
                         for ( auto& voice : staff.voices )
                         {
-                            const auto noteCompare = [&]( NoteData& inLeft, NoteData& inRight )
+                            const auto noteCompare = [&]( const NoteData& inLeft, const NoteData& inRight )
                             {
                                 return inLeft.tickTimePosition < inRight.tickTimePosition;
                             };
 
-                            std::sort( std::begin( voice.second.notes ), std::end( voice.second.notes ), noteCompare );
+                            std::stable_sort( std::begin( voice.second.notes ), std::end( voice.second.notes ), noteCompare );
                         }
                     }
                 }
-- 
2.43.0


From 7872a57ede8f8c4ad7f45650fe2d1e6e3e24507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 09/99] fix: grace notes and chord notes next to other notes at
 their time shifted what was written after them

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 33 ++++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index a196952..0256c58 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -434,6 +434,10 @@ namespace mx
                         {
                             isStartOfChord = true;
                         }
+                        else if( ( noteIter->noteType == api::NoteType::grace ) != ( ( noteIter - 1 )->noteType == api::NoteType::grace ) )
+                        {
+                            isStartOfChord = true;
+                        }
 
                         const auto localNextNoteIter = noteIter + 1;
 
@@ -604,25 +608,20 @@ namespace mx
 
         bool MeasureWriter::isAdvanceNeeded( const api::NoteData& currentNote, const NoteIter& inIter, const NoteIter& inEnd )
         {
+            // a grace note takes no time
+            if( currentNote.noteType == api::NoteType::grace )
+            {
+                return false;
+            }
+
             if( currentNote.isChord )
             {
-                auto nextNoteIter = inIter + 1;
-                if( nextNoteIter == inEnd )
-                {
-                    return true;
-                }
-                else
-                {
-                    const auto nextNoteTime = nextNoteIter->tickTimePosition;
-                    if( nextNoteTime != currentNote.tickTimePosition )
-                    {
-                        return true;
-                    }
-                    else
-                    {
-                        return false;
-                    }
-                }
+                const auto nextNoteIter = inIter + 1;
+                const bool isNextNoteInSameChord = nextNoteIter != inEnd
+                    && nextNoteIter->isChord
+                    && nextNoteIter->noteType != api::NoteType::grace
+                    && nextNoteIter->tickTimePosition == currentNote.tickTimePosition;
+                return !isNextNoteInSameChord;
             }
             return true;
         }
-- 
2.43.0


From 61fda4ac25b6448940aa6a176f1698630774c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:40 +0000
Subject: [PATCH 10/99] fix: a chord of notes of unequal lengths moved time by
 its last note instead of its first

---
 Sourcecode/private/mx/impl/MeasureReader.cpp |  8 +++++++-
 Sourcecode/private/mx/impl/MeasureReader.h   |  1 +
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 15 +++++++++++----
 Sourcecode/private/mx/impl/MeasureWriter.h   |  2 +-
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/Sourcecode/private/mx/impl/MeasureReader.cpp b/Sourcecode/private/mx/impl/MeasureReader.cpp
index 5f6fd70..2eb5ce1 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.cpp
+++ b/Sourcecode/private/mx/impl/MeasureReader.cpp
@@ -345,12 +345,18 @@ namespace mx
             
             myCurrentCursor.staffIndex = noteDataStaffIndex;
             
+            // the first note of a chord determines how far the chord advances
+            if( !noteData.isChord || myChordTicks < 0 )
+            {
+                myChordTicks = noteData.durationData.durationTimeTicks;
+            }
+
             bool isThisNotePartOfAChord = noteData.isChord || isNextNotePartOfAChord;
             noteData.isChord = isThisNotePartOfAChord;
             
             if( !isThisNotePartOfAChord || !isNextNotePartOfAChord )
             {
-                advanceTickTimePosition( noteData.durationData.durationTimeTicks, "note" );
+                advanceTickTimePosition( myChordTicks, "note" );
             }
             
             MX_ASSERT( noteDataStaffIndex >= 0 );
diff --git a/Sourcecode/private/mx/impl/MeasureReader.h b/Sourcecode/private/mx/impl/MeasureReader.h
index c4f84cc..fa48fbb 100644
--- a/Sourcecode/private/mx/impl/MeasureReader.h
+++ b/Sourcecode/private/mx/impl/MeasureReader.h
@@ -55,6 +55,7 @@ namespace mx
             mutable api::MeasureData myOutMeasureData;
             mutable MeasureCursor myCurrentCursor;
             mutable MeasureCursor myPreviousMeasureCursor;
+            mutable int myChordTicks = -1;
 
             class HistoryRecord
             {
diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index 0256c58..13c1b91 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -402,6 +402,7 @@ namespace mx
                 auto noteIter = voice.second.notes.cbegin();
                 auto noteEnd = voice.second.notes.cend();
                 int noteIndex = 0;
+                int ticksToAdvance = 0;
 
                 if( directionIter != directionEnd )
                 {
@@ -434,7 +435,7 @@ namespace mx
                         {
                             isStartOfChord = true;
                         }
-                        else if( ( noteIter->noteType == api::NoteType::grace ) != ( ( noteIter - 1 )->noteType == api::NoteType::grace ) )
+                        else if( !( noteIter - 1 )->isChord || ( noteIter->noteType == api::NoteType::grace ) != ( ( noteIter - 1 )->noteType == api::NoteType::grace ) )
                         {
                             isStartOfChord = true;
                         }
@@ -491,13 +492,19 @@ namespace mx
                         writeDirections( directionIter, directionEnd, noteIter, std::cbegin(voice.second.notes), noteEnd );
                     }
 
+                    // the first note of a chord determines how far the chord advances
+                    if( !noteIter->isChord || isStartOfChord )
+                    {
+                        ticksToAdvance = apiNote.durationData.durationTimeTicks;
+                    }
+
                     auto mdc = core::makeMusicDataChoice();
                     mdc->setChoice( core::MusicDataChoice::Choice::note );
                     NoteWriter writer{ apiNote, myHistory.getCursor(), myScoreWriter, myPreviousCursor.isChordActive, voice.second.notes, noteIndex };
                     mdc->setNote( writer.getNote(isStartOfChord) );
                     myOutMeasure->getMusicDataGroup()->addMusicDataChoice( mdc );
                     myHistory.log( "addNote cursorTime " + std::to_string( myHistory.getCursor().tickTimePosition ) + ", noteTime " + std::to_string( apiNote.tickTimePosition ) );
-                    advanceCursorIfNeeded( apiNote, noteIter, noteEnd );
+                    advanceCursorIfNeeded( apiNote, ticksToAdvance, noteIter, noteEnd );
                     myPreviousCursor = myHistory.getCursor();
                     isFirstNote = false;
 
@@ -627,12 +634,12 @@ namespace mx
         }
 
         
-        void MeasureWriter::advanceCursorIfNeeded( const api::NoteData& currentNote, const NoteIter& inIter, const NoteIter& inEnd )
+        void MeasureWriter::advanceCursorIfNeeded( const api::NoteData& currentNote, int ticksToAdvance, const NoteIter& inIter, const NoteIter& inEnd )
         {
             if( isAdvanceNeeded( currentNote, inIter, inEnd ) )
             {
                 const auto curTime = std::max( myHistory.getCursor().tickTimePosition, 0 );
-                const auto duration = std::max( currentNote.durationData.durationTimeTicks, 0 );
+                const auto duration = std::max( ticksToAdvance, 0 );
                 const auto newTime = curTime + duration;
                 myHistory.setTime( newTime, "advance cursor" );
                 myPreviousCursor = myHistory.getCursor();
diff --git a/Sourcecode/private/mx/impl/MeasureWriter.h b/Sourcecode/private/mx/impl/MeasureWriter.h
index a7d68dd..f8dbb47 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.h
+++ b/Sourcecode/private/mx/impl/MeasureWriter.h
@@ -217,7 +217,7 @@ namespace mx
             void backup( const int ticks );
             void forward( const int ticks );
             bool isAdvanceNeeded( const api::NoteData& currentNote, const NoteIter& inIter, const NoteIter& inEnd );
-            void advanceCursorIfNeeded( const api::NoteData& currentNote, const NoteIter& inIter, const NoteIter& inEnd );
+            void advanceCursorIfNeeded( const api::NoteData& currentNote, int ticksToAdvance, const NoteIter& inIter, const NoteIter& inEnd );
             void writeBarlines( int tickTimePosition );
             using dirs = std::vector<api::DirectionData>;
             using dIter = dirs::const_iterator;
-- 
2.43.0


From f75718bfdca6282a68c494ff861053db95b4b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 11/99] fix: a chord symbol of a lower staff was written
 without its staff

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 57d1d11..3992b76 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -383,7 +383,7 @@ namespace mx
                 harmony->getOffset()->setValue( core::DivisionsValue{ static_cast<core::DecimalType>( inOffset ) } );
             }
 
-            if( myDirectionData.isStaffValueSpecified )
+            if( myDirectionData.isStaffValueSpecified || myCursor.staffIndex != 0 )
             {
                 harmony->setHasStaff( true );
                 harmony->getStaff()->setValue( core::PositiveInteger{ myCursor.staffIndex + 1 } );
-- 
2.43.0


From 97b07b0be5d7d1c3c932a108079d3e308d1989dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:07 +0000
Subject: [PATCH 12/99] fix: keys lost their staff or were left out, and clefs,
 keys and barlines within a measure were written late

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 159 +++++++++++++------
 Sourcecode/private/mx/impl/MeasureWriter.h   |   7 +
 2 files changed, 120 insertions(+), 46 deletions(-)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index 13c1b91..7e3955c 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -166,7 +166,14 @@ namespace mx
             writeMeasureGlobals();
             writeStaves();
             myPropertiesWriter->flushBuffer();
-            writeBarlines( api::TICK_TIME_INFINITY );
+
+            while( myBarlinesIter != myBarlinesEnd )
+            {
+                const int barlineTime = myBarlinesIter->tickTimePosition;
+                moveToEvent( barlineTime, true );
+                writeBarlines( barlineTime );
+            }
+
             myPropertiesWriter = nullptr;
             return myOutMeasure;
         }
@@ -392,6 +399,7 @@ namespace mx
             auto staffKeyEnd = inStaff.keys.cend();
             auto directionIter = inStaff.directions.cbegin();
             auto directionEnd = inStaff.directions.cend();
+            bool isStaffStarted = false;
 
             for( const auto& voice : inStaff.voices )
             {
@@ -422,6 +430,8 @@ namespace mx
 
                     myHistory.setChord( noteIter->isChord );
                     const auto& apiNote = *noteIter;
+                    writeEventsBeforeNote( apiNote, clefIter, clefEnd, staffKeyIter, staffKeyEnd, isStaffStarted );
+                    isStaffStarted = true;
                     writeForwardOrBackupIfNeeded( apiNote );
                     
                     if ( noteIter->isChord )
@@ -456,26 +466,6 @@ namespace mx
                         previousChordTickPosition = currentChordTickPosition;
                     }
 
-                    if( myMeasureKeysIter != myMeasureKeysEnd )
-                    {
-                        if( myMeasureKeysIter->tickTimePosition <= myHistory.getCursor().tickTimePosition )
-                        {
-                            myPropertiesWriter->writeKey( -1, *myMeasureKeysIter );
-                            ++myMeasureKeysIter;
-                        }
-                    }
-                    
-                    while( clefIter != clefEnd && clefIter->tickTimePosition <= myHistory.getCursor().tickTimePosition )
-                    {
-                        myPropertiesWriter->writeClef( myHistory.getCursor().staffIndex, *clefIter );
-                        ++clefIter;
-                    }
-                    
-                    for( ; staffKeyIter != staffKeyEnd && staffKeyIter->tickTimePosition <= myHistory.getCursor().tickTimePosition; ++staffKeyIter )
-                    {
-                        myPropertiesWriter->writeKey( myHistory.getCursor().staffIndex, *staffKeyIter );
-                    }
-
                     myPropertiesWriter->flushBuffer();
 
                     int minDirectionTime = myHistory.getCursor().tickTimePosition;
@@ -519,38 +509,103 @@ namespace mx
             const auto iterEnd = std::cend(fakeEmptyNoteVector);
             writeDirections( directionIter, directionEnd, iterEnd, iterBegin, iterEnd );
             
-            bool areClefsRemaining = clefIter != clefEnd;
-            bool areMeasureKeysRemaining = myMeasureKeysIter != myMeasureKeysEnd;
-            bool areStaffKeysRemaining = staffKeyIter != staffKeyEnd;
-            
-            if( areClefsRemaining || areMeasureKeysRemaining || areStaffKeysRemaining )
-            {
-                for( ; clefIter != inStaff.clefs.cend(); ++clefIter )
+            writeEvents( api::TICK_TIME_INFINITY, clefIter, clefEnd, staffKeyIter, staffKeyEnd, !isStaffStarted, false );
+            myPropertiesWriter->flushBuffer();
+
+        } // func writeVoices
+        
+        
+        void MeasureWriter::writeEventsBeforeNote( const api::NoteData& currentNote, cIter& clefIter, const cIter& clefEnd, kIter& keyIter, const kIter& keyEnd, bool isStaffStarted )
+        {
+            const int noteTime = std::max( currentNote.tickTimePosition, 0 );
+            const bool isBackupAllowed = !isStaffStarted || noteTime < cursor().tickTimePosition;
+            writeEvents( noteTime, clefIter, clefEnd, keyIter, keyEnd, isBackupAllowed, true );
+        }
+
+
+        void MeasureWriter::writeEvents( int endTime, cIter& clefIter, const cIter& clefEnd, kIter& keyIter, const kIter& keyEnd, bool isBackupAllowed, bool areBarlinesAllowed )
+        {
+            // write the clefs, keys and barlines in the order of their times. each is written at its own time, or where
+            // we are if that is later, i.e. if the note that was written last sounds across its time
+            const auto isDue = [&]( int time, int otherTime ) { return time <= endTime && time <= otherTime; };
+            const int never = std::numeric_limits<int>::max();
+
+            while( true )
+            {
+                const bool isBarline = areBarlinesAllowed && myBarlinesIter != myBarlinesEnd && myBarlinesIter->tickTimePosition != api::TICK_TIME_INFINITY;
+                const bool isMeasureKey = cursor().staffIndex == 0 && myMeasureKeysIter != myMeasureKeysEnd;
+                const int barlineTime = isBarline ? myBarlinesIter->tickTimePosition : never;
+                const int clefTime = clefIter != clefEnd ? clefIter->tickTimePosition : never;
+                const int measureKeyTime = isMeasureKey ? myMeasureKeysIter->tickTimePosition : never;
+                const int staffKeyTime = keyIter != keyEnd ? keyIter->tickTimePosition : never;
+                const int time = std::min( std::min( barlineTime, clefTime ), std::min( measureKeyTime, staffKeyTime ) );
+
+                if( isBarline && isDue( barlineTime, time ) )
                 {
-                    MX_ASSERT( clefIter != inStaff.clefs.cend() );
-                    api::ClefData clef = *clefIter;
-                    myPropertiesWriter->writeClef( myHistory.getCursor().staffIndex, clef );
+                    moveToEvent( barlineTime, isBackupAllowed );
+                    myPropertiesWriter->flushBuffer();
+                    writeBarlines( barlineTime );
                 }
-                
-                if( myMeasureKeysIter != myMeasureKeysEnd )
+                else if( clefIter != clefEnd && isDue( clefTime, time ) )
                 {
-                    if( myMeasureKeysIter->tickTimePosition )
-                    {
-                        myPropertiesWriter->writeKey( -1, *myMeasureKeysIter );
-                        ++myMeasureKeysIter;
-                    }
+                    moveToEvent( clefTime, isBackupAllowed );
+                    myPropertiesWriter->writeClef( cursor().staffIndex, *clefIter );
+                    ++clefIter;
                 }
-                
-                for( ; staffKeyIter != staffKeyEnd; ++staffKeyIter )
+                else if( isMeasureKey && isDue( measureKeyTime, time ) )
                 {
-                    myPropertiesWriter->writeKey( myHistory.getCursor().staffIndex, *staffKeyIter );
+                    moveToEvent( measureKeyTime, isBackupAllowed );
+                    myPropertiesWriter->writeKey( myMeasureKeysIter->staffIndex, *myMeasureKeysIter );
+                    ++myMeasureKeysIter;
+                }
+                else if( keyIter != keyEnd && isDue( staffKeyTime, time ) )
+                {
+                    moveToEvent( staffKeyTime, isBackupAllowed );
+                    myPropertiesWriter->writeKey( cursor().staffIndex, *keyIter );
+                    ++keyIter;
+                }
+                else
+                {
+                    return;
                 }
-                myPropertiesWriter->flushBuffer();
             }
+        }
+
+
+        bool MeasureWriter::isAnyNoteInMeasure() const
+        {
+            for( const auto& staff : myMeasureData.staves )
+            {
+                for( const auto& voice : staff.voices )
+                {
+                    if( !voice.second.notes.empty() )
+                    {
+                        return true;
+                    }
+                }
+            }
+
+            return false;
+        }
+
+
+        void MeasureWriter::moveToEvent( int tickTimePosition, bool isBackupAllowed )
+        {
+            // without any notes everything stands at the beginning of the measure
+            if( tickTimePosition == api::TICK_TIME_INFINITY || !isAnyNoteInMeasure() )
+            {
+                return;
+            }
+
+            const bool isBehindUs = tickTimePosition < cursor().tickTimePosition;
+
+            if( !isBehindUs || isBackupAllowed )
+            {
+                moveTo( tickTimePosition );
+            }
+        }
+
 
-        } // func writeVoices
-        
-        
         void MeasureWriter::writeForwardOrBackupIfNeeded( const api::NoteData& currentNote )
         {
             myPropertiesWriter->flushBuffer();
@@ -560,7 +615,19 @@ namespace mx
                 return;
             }
 
-            const int timeDifference = currentNote.tickTimePosition - myHistory.getCursor().tickTimePosition;
+            moveTo( currentNote.tickTimePosition );
+        }
+
+
+        void MeasureWriter::moveTo( int tickTimePosition )
+        {
+            const int timeDifference = tickTimePosition - myHistory.getCursor().tickTimePosition;
+
+            if( timeDifference != 0 )
+            {
+                myPropertiesWriter->flushBuffer();
+            }
+
             if( timeDifference < 0 )
             {
                 backup( -1 * timeDifference );
diff --git a/Sourcecode/private/mx/impl/MeasureWriter.h b/Sourcecode/private/mx/impl/MeasureWriter.h
index f8dbb47..662b27d 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.h
+++ b/Sourcecode/private/mx/impl/MeasureWriter.h
@@ -213,6 +213,13 @@ namespace mx
             void writePageInfo( const api::PageData& inNewPageData );
             void writeStaves();
             void writeVoices( const api::StaffData& inStaff );
+            using cIter = std::vector<api::ClefData>::const_iterator;
+            using kIter = std::vector<api::KeyData>::const_iterator;
+            void writeEventsBeforeNote( const api::NoteData& currentNote, cIter& clefIter, const cIter& clefEnd, kIter& keyIter, const kIter& keyEnd, bool isStaffStarted );
+            void writeEvents( int endTime, cIter& clefIter, const cIter& clefEnd, kIter& keyIter, const kIter& keyEnd, bool isBackupAllowed, bool areBarlinesAllowed );
+            bool isAnyNoteInMeasure() const;
+            void moveToEvent( int tickTimePosition, bool isBackupAllowed );
+            void moveTo( int tickTimePosition );
             void writeForwardOrBackupIfNeeded( const api::NoteData& currentNote );
             void backup( const int ticks );
             void forward( const int ticks );
-- 
2.43.0


From 5777c7a13b86db34deee465a8b5708a793e96ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:51 +0000
Subject: [PATCH 13/99] fix: a direction could be written between the notes of
 a chord, where it stands at the end of the chord's first note

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index 7e3955c..1bdd197 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -760,10 +760,8 @@ namespace mx
             }
             else
             {
-                const bool isLastNoteOfChord = !isNotesEnd && !isLastNote && ( inNoteIter->isChord && inNoteIter->tickTimePosition != nextNote->tickTimePosition );
-                const bool isChord = !isNotesEnd && inNoteIter->isChord;
-
-                if( isChord && !isLastNoteOfChord && !isIndependentNote )
+                // a direction between the notes of a chord would be placed after the chord's first note
+                if( inNoteIter->isChord && !isIndependentNote )
                 {
                     myHistory.log( "note writing any directions because we are in the midst of a chord" );
                     return;
-- 
2.43.0


From 8cd54af2e9a700c334c3c5bbc80f5d0aa4ca5e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 14/99] fix: the display position of a rest was written to an
 unpitched note, and that of an unpitched note not at all

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index f3502e6..8a57fb0 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -343,7 +343,9 @@ namespace mx
                 myOutFullNoteTypeChoice->setChoice( core::FullNoteTypeChoice::Choice::rest );
                 if( myNoteData.isDisplayStepOctaveSpecified )
                 {
-                    auto pitch = myOutFullNoteTypeChoice->getUnpitched()->getDisplayStepOctaveGroup();
+                    auto rest = myOutFullNoteTypeChoice->getRest();
+                    rest->setHasDisplayStepOctaveGroup( true );
+                    auto pitch = rest->getDisplayStepOctaveGroup();
                     pitch->getDisplayStep()->setValue( myConverter.convert( myNoteData.pitchData.step ) );
                     pitch->getDisplayOctave()->setValue( core::OctaveValue{ myNoteData.pitchData.octave } );
                 }
@@ -360,7 +362,9 @@ namespace mx
                 myOutFullNoteTypeChoice->setChoice( core::FullNoteTypeChoice::Choice::unpitched );
                 if( myNoteData.isDisplayStepOctaveSpecified )
                 {
-                    auto pitch = myOutFullNoteTypeChoice->getUnpitched()->getDisplayStepOctaveGroup();
+                    auto unpitched = myOutFullNoteTypeChoice->getUnpitched();
+                    unpitched->setHasDisplayStepOctaveGroup( true );
+                    auto pitch = unpitched->getDisplayStepOctaveGroup();
                     pitch->getDisplayStep()->setValue( myConverter.convert( myNoteData.pitchData.step ) );
                     pitch->getDisplayOctave()->setValue( core::OctaveValue{ myNoteData.pitchData.octave } );
                 }
-- 
2.43.0


From fe7e81c0fefd418862bcfa0985006144d9783643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 15/99] fix: parenthetical, cautionary, editorial and bracketed
 accidentals were written as plain ones

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 8a57fb0..44bd745 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -99,6 +99,16 @@ namespace mx
             {
                 myOutNote->setHasAccidental( true );
                 myOutNote->getAccidental()->setValue( myConverter.convert( myNoteData.pitchData.accidental ) );
+                auto& accidentalAttr = *myOutNote->getAccidental()->getAttributes();
+                const auto setYes = []( bool isYes, bool& hasValue, core::YesNo& value )
+                {
+                    hasValue = isYes;
+                    value = isYes ? core::YesNo::yes : core::YesNo::no;
+                };
+                setYes( myNoteData.pitchData.isAccidentalParenthetical, accidentalAttr.hasParentheses, accidentalAttr.parentheses );
+                setYes( myNoteData.pitchData.isAccidentalCautionary, accidentalAttr.hasCautionary, accidentalAttr.cautionary );
+                setYes( myNoteData.pitchData.isAccidentalEditorial, accidentalAttr.hasEditorial, accidentalAttr.editorial );
+                setYes( myNoteData.pitchData.isAccidentalBracketed, accidentalAttr.hasBracket, accidentalAttr.bracket );
             }
             
             auto beamIndex = 0;
-- 
2.43.0


From 9a32b89ff4d3918283ddd46573570b6def9bd500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 16/99] fix: the font, color and visibility of a note were not
 written

---
 Sourcecode/private/mx/impl/NoteWriter.cpp   | 3 +++
 Sourcecode/private/mx/impl/PrintFunctions.h | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 44bd745..8761104 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -34,6 +34,7 @@
 #include "mx/core/elements/Octave.h"
 #include "mx/core/elements/Pitch.h"
 #include "mx/impl/PositionFunctions.h"
+#include "mx/impl/PrintFunctions.h"
 #include "mx/core/elements/Rest.h"
 #include "mx/core/elements/Staff.h"
 #include "mx/core/elements/Stem.h"
@@ -88,6 +89,8 @@ namespace mx
             NotationsWriter notationsWriter{ myNoteData, myCursor, myScoreWriter };
             auto& noteAttr = *myOutNote->getAttributes();
             impl::setAttributesFromPositionData(myNoteData.positionData, noteAttr);
+            impl::setAttributesFromPrintData( myNoteData.printData, noteAttr );
+            impl::setPrintObject( myNoteData.printData.printObject, noteAttr );
 
             auto notations = notationsWriter.getNotations();
             if( notations->getNotationsChoiceSet().size() > 0 )
diff --git a/Sourcecode/private/mx/impl/PrintFunctions.h b/Sourcecode/private/mx/impl/PrintFunctions.h
index 9410869..5d41e64 100644
--- a/Sourcecode/private/mx/impl/PrintFunctions.h
+++ b/Sourcecode/private/mx/impl/PrintFunctions.h
@@ -100,9 +100,10 @@ namespace mx
         template <typename ATTRIBUTES_TYPE>
         void setPrintObject( const api::Bool& inPrintObject, ATTRIBUTES_TYPE& outAttributes )
         {
-            if( !lookForAndSetHasPrintObject( inPrintObject != api::Bool::unspecified, &outAttributes ) )
+            if( lookForAndSetHasPrintObject( inPrintObject != api::Bool::unspecified, &outAttributes ) )
             {
-                lookForAndSetPrintObject( inPrintObject, &outAttributes );
+                Converter converter;
+                lookForAndSetPrintObject( converter.convert( inPrintObject ), &outAttributes );
             }
         }
         
-- 
2.43.0


From d61b68363bc5339c19734d7320bbe40bf0d18c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 17/99] fix: a note without a note type was written as a maxima

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 8761104..5451b30 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -417,7 +417,7 @@ namespace mx
         
         void NoteWriter::setDurationNameAndDots() const
         {
-            if( !myNoteData.isRest || !myNoteData.isMeasureRest )
+            if( ( !myNoteData.isRest || !myNoteData.isMeasureRest ) && myNoteData.durationData.durationName != api::DurationName::unspecified )
             {
                 myOutNote->setHasType( true );
                 myOutNote->getType()->setValue( myConverter.convert( myNoteData.durationData.durationName ) );
-- 
2.43.0


From 963ef86bec6fc8a52f155ffbdc0ddf20b7cadec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 18/99] fix: a dot lengthened a duration by twice its value
 instead of half of it

---
 Sourcecode/include/mx/api/DurationData.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/include/mx/api/DurationData.h b/Sourcecode/include/mx/api/DurationData.h
index d63a0b3..b6964c9 100644
--- a/Sourcecode/include/mx/api/DurationData.h
+++ b/Sourcecode/include/mx/api/DurationData.h
@@ -51,12 +51,12 @@ namespace mx
         inline long double applyDots( long double inUnDottedValue, int inNumDots )
         {
             long double outValue = inUnDottedValue;
-            long double valueToAdd = inUnDottedValue / 0.5;
+            long double valueToAdd = inUnDottedValue * 0.5;
 
             for( int i = 0; i < inNumDots; ++i )
             {
                 outValue += valueToAdd;
-                valueToAdd /= 0.5;
+                valueToAdd *= 0.5;
             }
 
             return outValue;
-- 
2.43.0


From a93fa0885c884b4086ce1fa589a82e4845a3cdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:18 +0000
Subject: [PATCH 19/99] fix: a fingernails mark was written as another
 technical mark and not read

---
 Sourcecode/private/mx/impl/Converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index 68345e7..86790c2 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -326,7 +326,7 @@ namespace mx
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::tap, api::MarkType::unspecified },
             std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::heel, api::MarkType::heel },
             std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::toe, api::MarkType::toe },
-            std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::fingernails, api::MarkType::unspecified },
+            std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::fingernails, api::MarkType::fingernails },
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::hole, api::MarkType::unspecified },
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::arrow, api::MarkType::unspecified },
             // std::pair<core::TechnicalChoice::Choice, api::MarkType>{ core::TechnicalChoice::Choice::handbell, api::MarkType::unspecified },
-- 
2.43.0


From 0f8f576aa13bc27b473c54ccc9185a78c49c8918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 20/99] fix: a note that is tied was given notations for a
 drawn tie, once or several times, besides those of its curves

---
 Sourcecode/private/mx/impl/NoteWriter.cpp | 48 +++--------------------
 1 file changed, 5 insertions(+), 43 deletions(-)

diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 5451b30..6a2e9f3 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -231,7 +231,7 @@ namespace mx
         }
         
         template<typename CHOICE_OBJ_TYPE>
-        static inline void addTie( bool isStart, CHOICE_OBJ_TYPE choiceObj, core::NotePtr outNote )
+        static inline void addTie( bool isStart, CHOICE_OBJ_TYPE choiceObj )
         {
             auto tie = core::makeTie();
             
@@ -245,44 +245,6 @@ namespace mx
             }
             
             choiceObj->addTie( tie );
-            
-            core::NotationsPtr notations = nullptr;
-            core::NotationsChoicePtr notationsChoice = nullptr;
-            
-            if( !outNote->getNotationsSet().empty() )
-            {
-                notations = outNote->getNotationsSet().front();
-                notationsChoice = core::makeNotationsChoice();
-                notations->addNotationsChoice( notationsChoice );
-                outNote->addNotations( notations );
-            }
-            else
-            {
-                notations = core::makeNotations();
-                
-                if( notations->getNotationsChoiceSet().empty() )
-                {
-                    notationsChoice = core::makeNotationsChoice();
-                    notations->addNotationsChoice( notationsChoice );
-                }
-                else
-                {
-                    notationsChoice = notations->getNotationsChoiceSet().front();
-                }
-                
-                outNote->addNotations( notations );
-            }
-            
-            notationsChoice->setChoice( core::NotationsChoice::Choice::tied );
-            
-            if( isStart )
-            {
-                notationsChoice->getTied()->getAttributes()->type = core::StartStopContinue::start;
-            }
-            else
-            {
-                notationsChoice->getTied()->getAttributes()->type = core::StartStopContinue::stop;
-            }
         }
         
         void NoteWriter::setNoteChoiceAndFullNoteGroup( bool isStartOfChord ) const
@@ -309,12 +271,12 @@ namespace mx
 
                     if( myNoteData.isTieStop )
                     {
-                        addTie( false, choiceObj, myOutNote );
+                        addTie( false, choiceObj );
                     }
                     
                     if( myNoteData.isTieStart )
                     {
-                        addTie( true, choiceObj, myOutNote );
+                        addTie( true, choiceObj );
                     }
                     
                     break;
@@ -329,12 +291,12 @@ namespace mx
                     
                     if( myNoteData.isTieStop )
                     {
-                        addTie( false, choiceObj, myOutNote );
+                        addTie( false, choiceObj );
                     }
                     
                     if( myNoteData.isTieStart )
                     {
-                        addTie( true, choiceObj, myOutNote );
+                        addTie( true, choiceObj );
                     }
                     
                     break;
-- 
2.43.0


From 5334cc2419d0fbd58841882f8c6c4284a53fc184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 21/99] fix: the position of an arpeggio or non-arpeggio mark
 was not read

---
 Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp    | 4 ++--
 Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp b/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp
index e84fe4f..5b3471c 100644
--- a/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp
+++ b/Sourcecode/private/mx/impl/ArpeggiateFunctions.cpp
@@ -20,7 +20,7 @@ namespace mx
         
         api::MarkData ArpeggiateFunctions::parseArpeggiate() const
         {
-            const auto& attr = myArpeggiate.getAttributes();
+            const auto attr = myArpeggiate.getAttributes();
             auto markType = api::MarkType::arpeggiate;
             if (attr->hasDirection) {
                 
@@ -36,7 +36,7 @@ namespace mx
                 }
             }
             api::MarkData markData{ markType };
-            impl::parseMarkDataAttributes( attr, markData );
+            impl::parseMarkDataAttributes( *attr, markData );
             markData.tickTimePosition = myCursor.tickTimePosition;
             
             return markData;
diff --git a/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp b/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp
index 0fa01a9..446d4dd 100644
--- a/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp
+++ b/Sourcecode/private/mx/impl/NonArpeggiateFunctions.cpp
@@ -19,7 +19,7 @@ namespace mx
         
         api::MarkData NonArpeggiateFunctions::parseNonArpeggiate() const
         {
-            const auto& attr = myNonArpeggiate.getAttributes();
+            const auto& attr = *myNonArpeggiate.getAttributes();
             api::MarkData markData{ api::MarkType::nonArpeggiate };
             impl::parseMarkDataAttributes( attr, markData );
             markData.tickTimePosition = myCursor.tickTimePosition;
-- 
2.43.0


From 67a052bdea90d937cba1ce492d79cc1e83cece11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 22/99] fix: arpeggio, non-arpeggio and accidental marks of a
 note were not written

---
 .../private/mx/impl/NotationsWriter.cpp       | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/Sourcecode/private/mx/impl/NotationsWriter.cpp b/Sourcecode/private/mx/impl/NotationsWriter.cpp
index 2ad0656..a4da884 100644
--- a/Sourcecode/private/mx/impl/NotationsWriter.cpp
+++ b/Sourcecode/private/mx/impl/NotationsWriter.cpp
@@ -3,6 +3,9 @@
 // Distributed under the MIT License
 
 #include "mx/impl/NotationsWriter.h"
+#include "mx/core/elements/NonArpeggiate.h"
+#include "mx/core/elements/Arpeggiate.h"
+#include "mx/core/elements/AccidentalMark.h"
 #include "mx/core/elements/Accent.h"
 #include "mx/core/elements/Arrow.h"
 #include "mx/core/elements/Articulations.h"
@@ -274,6 +277,32 @@ namespace mx
                     DynamicsWriter dynamicsWriter{ mark, myCursor };
                     dynamicNotationsChoice->setDynamics( dynamicsWriter.getDynamics() );
                 }
+                else if( isMarkArpeggiate( mark.markType ) )
+                {
+                    auto arpeggiateNotationsChoice = core::makeNotationsChoice();
+                    myOutNotations->addNotationsChoice( arpeggiateNotationsChoice );
+                    arpeggiateNotationsChoice->setChoice( core::NotationsChoice::Choice::arpeggiate );
+                    auto& attr = *arpeggiateNotationsChoice->getArpeggiate()->getAttributes();
+                    impl::setAttributesFromMarkData( mark, attr );
+                    attr.hasDirection = mark.markType != api::MarkType::arpeggiate;
+                    attr.direction = mark.markType == api::MarkType::arpeggiateDown ? core::UpDown::down : core::UpDown::up;
+                }
+                else if( isMarkNonArpeggiate( mark.markType ) )
+                {
+                    auto nonArpeggiateNotationsChoice = core::makeNotationsChoice();
+                    myOutNotations->addNotationsChoice( nonArpeggiateNotationsChoice );
+                    nonArpeggiateNotationsChoice->setChoice( core::NotationsChoice::Choice::nonArpeggiate );
+                    impl::setAttributesFromMarkData( mark, *nonArpeggiateNotationsChoice->getNonArpeggiate()->getAttributes() );
+                }
+                else if( myConverter.convertAccidentalMark( myConverter.convertAccidentalMark( mark.markType ) ) == mark.markType )
+                {
+                    auto accidentalNotationsChoice = core::makeNotationsChoice();
+                    myOutNotations->addNotationsChoice( accidentalNotationsChoice );
+                    accidentalNotationsChoice->setChoice( core::NotationsChoice::Choice::accidentalMark );
+                    auto accidentalMark = accidentalNotationsChoice->getAccidentalMark();
+                    accidentalMark->setValue( myConverter.convertAccidentalMark( mark.markType ) );
+                    impl::setAttributesFromMarkData( mark, *accidentalMark->getAttributes() );
+                }
                 else if( isMarkFermata( mark.markType ) )
                 {
                     auto fermataNotationsChoice = core::makeNotationsChoice();
-- 
2.43.0


From 36d50c77bd2527dca2fec57648f877829e4bfeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 23/99] fix: the placement of a tuplet was not written, and a
 tuplet without note types was written as one of maximas

---
 Sourcecode/private/mx/impl/NotationsWriter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/NotationsWriter.cpp b/Sourcecode/private/mx/impl/NotationsWriter.cpp
index a4da884..d10b477 100644
--- a/Sourcecode/private/mx/impl/NotationsWriter.cpp
+++ b/Sourcecode/private/mx/impl/NotationsWriter.cpp
@@ -184,6 +184,8 @@ namespace mx
                     tuplet->getAttributes()->hasNumber = true;
                     tuplet->getAttributes()->number = core::NumberLevel{ tupletStop.numberLevel };
                 }
+
+                setAttributesFromPositionData( tupletStop.positionData, *tuplet->getAttributes() );
             }
             
             for( const auto& tupletStart : myNoteData.noteAttachmentData.tupletStarts )
@@ -197,7 +199,7 @@ namespace mx
                 tuplet->setHasTupletNormal( true );
 
                 tuplet->getTupletActual()->getTupletNumber()->setValue( core::NonNegativeInteger{ tupletStart.actualNumber } );
-                tuplet->getTupletActual()->setHasTupletType( true );
+                tuplet->getTupletActual()->setHasTupletType( tupletStart.actualDurationName != api::DurationName::unspecified );
                 tuplet->getTupletActual()->getTupletType()->setValue( myConverter.convert( tupletStart.actualDurationName ) );
                 for( int d = 0; d < tupletStart.actualDots; ++d )
                 {
@@ -205,7 +207,7 @@ namespace mx
                 }
 
                 tuplet->getTupletNormal()->getTupletNumber()->setValue( core::NonNegativeInteger{ tupletStart.normalNumber } );
-                tuplet->getTupletNormal()->setHasTupletType( true );
+                tuplet->getTupletNormal()->setHasTupletType( tupletStart.normalDurationName != api::DurationName::unspecified );
                 tuplet->getTupletNormal()->getTupletType()->setValue( myConverter.convert( tupletStart.normalDurationName ) );
                 for( int d = 0; d < tupletStart.normalDots; ++d )
                 {
@@ -220,6 +222,8 @@ namespace mx
                     tuplet->getAttributes()->hasNumber = true;
                     tuplet->getAttributes()->number = core::NumberLevel{ tupletStart.numberLevel };
                 }
+
+                setAttributesFromPositionData( tupletStart.positionData, *tuplet->getAttributes() );
                 
                 if( tupletStart.bracket != api::Bool::unspecified )
                 {
-- 
2.43.0


From 32a56b814bb29f2a668983fae03a6479c53d3e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 24/99] fix: the normal type of a time modification was not
 written, and read only when dotted

---
 Sourcecode/private/mx/impl/NoteFunctions.cpp |  2 +-
 Sourcecode/private/mx/impl/NoteReader.cpp    |  1 +
 Sourcecode/private/mx/impl/NoteWriter.cpp    | 14 ++++++++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/NoteFunctions.cpp b/Sourcecode/private/mx/impl/NoteFunctions.cpp
index ea1c1f1..ac917d0 100644
--- a/Sourcecode/private/mx/impl/NoteFunctions.cpp
+++ b/Sourcecode/private/mx/impl/NoteFunctions.cpp
@@ -158,7 +158,7 @@ namespace mx
 
             const core::NoteTypeValue timeModType = reader.getTimeModificationNormalType();
             const int timeModTypeDots = reader.getTimeModificationNormalTypeDots();
-            bool isTimeModTypeSpecified = ( timeModTypeDots > 0 ) && ( timeModType != reader.getDurationType() );
+            bool isTimeModTypeSpecified = ( timeModTypeDots > 0 ) || ( timeModType != reader.getDurationType() );
             
             if( isTimeModTypeSpecified )
             {
diff --git a/Sourcecode/private/mx/impl/NoteReader.cpp b/Sourcecode/private/mx/impl/NoteReader.cpp
index 495d2c7..206deb0 100644
--- a/Sourcecode/private/mx/impl/NoteReader.cpp
+++ b/Sourcecode/private/mx/impl/NoteReader.cpp
@@ -323,6 +323,7 @@ namespace mx
             {
                 myTimeModificationActualNotes = 1;
                 myTimeModificationNormalNotes = 1;
+                myTimeModificationNormalType = myDurationType;
                 return;
             }
             
diff --git a/Sourcecode/private/mx/impl/NoteWriter.cpp b/Sourcecode/private/mx/impl/NoteWriter.cpp
index 6a2e9f3..0694b9a 100644
--- a/Sourcecode/private/mx/impl/NoteWriter.cpp
+++ b/Sourcecode/private/mx/impl/NoteWriter.cpp
@@ -136,6 +136,20 @@ namespace mx
                 timeMod->getActualNotes()->setValue( core::NonNegativeInteger{ myNoteData.durationData.timeModificationActualNotes } );
                 timeMod->getNormalNotes()->setValue( core::NonNegativeInteger{ myNoteData.durationData.timeModificationNormalNotes } );
 
+                if( myNoteData.durationData.timeModificationNormalType != api::DurationName::unspecified )
+                {
+                    timeMod->setHasNormalTypeNormalDotGroup( true );
+                    auto normalGroup = timeMod->getNormalTypeNormalDotGroup();
+                    normalGroup->getNormalType()->setValue( myConverter.convert( myNoteData.durationData.timeModificationNormalType ) );
+
+                    for( int i = 0; i < myNoteData.durationData.timeModificationNormalTypeDots; ++i )
+                    {
+                        normalGroup->addNormalDot( core::makeNormalDot() );
+                    }
+
+                    return myOutNote;
+                }
+
                 // find the tuplet start note and TupletStart object
                 bool isTupletStartFound = false;
                 int tupletStartIndex = myNoteIndex;
-- 
2.43.0


From d6ff3aded4ba503d213c61b5fae9fb9887fa6b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 25/99] fix: a sharp-sharp accidental was written as a natural
 and a fa-up notehead as none

---
 Sourcecode/private/mx/impl/Converter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index 86790c2..4dcf3ca 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -67,6 +67,7 @@ namespace mx
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::re, api::Notehead::re },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::mi, api::Notehead::mi },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::fa, api::Notehead::fa },
+            std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::faUp, api::Notehead::faUp },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::la, api::Notehead::la },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::so  , api::Notehead::so },
             std::pair<core::NoteheadValue, api::Notehead>{ core::NoteheadValue::ti, api::Notehead::ti },
@@ -88,6 +89,7 @@ namespace mx
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::natural, api::Accidental::natural },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::flat, api::Accidental::flat },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::doubleSharp, api::Accidental::doubleSharp },
+            std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::sharpSharp, api::Accidental::sharpSharp },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::flatFlat, api::Accidental::flatFlat },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::naturalSharp, api::Accidental::naturalSharp },
             std::pair<core::AccidentalValue, api::Accidental>{ core::AccidentalValue::naturalFlat, api::Accidental::naturalFlat },
-- 
2.43.0


From 155fb23f2d9cbe8708ffe426b742d367fe8ec9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 26/99] fix: the second bezier point of a tied element was not
 read

---
 Sourcecode/private/mx/core/elements/TiedAttributes.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/TiedAttributes.cpp b/Sourcecode/private/mx/core/elements/TiedAttributes.cpp
index abd228b..6f94347 100644
--- a/Sourcecode/private/mx/core/elements/TiedAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/TiedAttributes.cpp
@@ -123,11 +123,11 @@ namespace mx
                 if( parseAttribute( message, it, className, isSuccess, placement, hasPlacement, "placement", &parseAboveBelow ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, orientation, hasOrientation, "orientation", &parseOverUnder ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, bezierOffset, hasBezierOffset, "bezier-offset" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, bezierOffset2, hasBezierOffset2, "bezier-offset-2" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, bezierOffset2, hasBezierOffset2, "bezier-offset2" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, bezierX, hasBezierX, "bezier-x" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, bezierY, hasBezierY, "bezier-y" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, bezierX2, hasBezierX2, "bezier-x-2" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, bezierY2, hasBezierY2, "bezier-y-2" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, bezierX2, hasBezierX2, "bezier-x2" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, bezierY2, hasBezierY2, "bezier-y2" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, color, hasColor, "color" ) ) { continue; }
             }
         
-- 
2.43.0


From a4c0afc43d2040073877f50c4d3bd6f47232ab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 27/99] fix: a normal type equal to the default note type was
 not read for a note without a type

---
 Sourcecode/private/mx/impl/NoteFunctions.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/NoteFunctions.cpp b/Sourcecode/private/mx/impl/NoteFunctions.cpp
index ac917d0..71ddd48 100644
--- a/Sourcecode/private/mx/impl/NoteFunctions.cpp
+++ b/Sourcecode/private/mx/impl/NoteFunctions.cpp
@@ -38,6 +38,7 @@
 #include "mx/core/elements/Staccato.h"
 #include "mx/core/elements/Stress.h"
 #include "mx/core/elements/StrongAccent.h"
+#include "mx/core/elements/TimeModification.h"
 #include "mx/core/elements/Technical.h"
 #include "mx/core/elements/Tenuto.h"
 #include "mx/core/elements/Tied.h"
@@ -158,7 +159,9 @@ namespace mx
 
             const core::NoteTypeValue timeModType = reader.getTimeModificationNormalType();
             const int timeModTypeDots = reader.getTimeModificationNormalTypeDots();
-            bool isTimeModTypeSpecified = ( timeModTypeDots > 0 ) || ( timeModType != reader.getDurationType() );
+            const bool isTimeModTypeSpecified = myNote.getHasTimeModification()
+                && myNote.getTimeModification()->getHasNormalTypeNormalDotGroup()
+                && ( timeModTypeDots > 0 || !reader.getIsDurationTypeSpecified() || timeModType != reader.getDurationType() );
             
             if( isTimeModTypeSpecified )
             {
-- 
2.43.0


From 833ac5cc42a250cc9bda7fde074bf4ec33f127b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 28/99] fix: the position and font of a fermata were not read

---
 Sourcecode/private/mx/impl/FermataFunctions.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/FermataFunctions.cpp b/Sourcecode/private/mx/impl/FermataFunctions.cpp
index 3728bca..9a3c510 100644
--- a/Sourcecode/private/mx/impl/FermataFunctions.cpp
+++ b/Sourcecode/private/mx/impl/FermataFunctions.cpp
@@ -88,9 +88,8 @@ namespace mx
             // Unfortunately, without doing a lot of guess word, we can't
             // know whether the correct glyph is "above" or "below"
             api::MarkData markData{ markType };
-            impl::parseMarkDataAttributes( attr, markData );
+            impl::parseMarkDataAttributes( *attr, markData );
             markData.tickTimePosition = myCursor.tickTimePosition;
-            impl::parseMarkDataAttributes( attr, markData );
             
             return markData;
         }
-- 
2.43.0


From 9c250f37222e348f2828dfb77fb08c9173cbc988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 29/99] fix: a tuplet without numbers was written with zero
 notes, and guessed numbers were read into each other's place

---
 Sourcecode/private/mx/impl/NotationsWriter.cpp | 4 ++--
 Sourcecode/private/mx/impl/TupletReader.cpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/impl/NotationsWriter.cpp b/Sourcecode/private/mx/impl/NotationsWriter.cpp
index d10b477..5e1758f 100644
--- a/Sourcecode/private/mx/impl/NotationsWriter.cpp
+++ b/Sourcecode/private/mx/impl/NotationsWriter.cpp
@@ -214,8 +214,8 @@ namespace mx
                     tuplet->getTupletNormal()->addTupletDot( core::makeTupletDot() );
                 }
 
-                tuplet->getTupletNormal()->setHasTupletNumber( true );
-                tuplet->getTupletActual()->setHasTupletNumber( true );
+                tuplet->getTupletNormal()->setHasTupletNumber( tupletStart.normalNumber >= 0 );
+                tuplet->getTupletActual()->setHasTupletNumber( tupletStart.actualNumber >= 0 );
                 
                 if( tupletStart.numberLevel > 0 )
                 {
diff --git a/Sourcecode/private/mx/impl/TupletReader.cpp b/Sourcecode/private/mx/impl/TupletReader.cpp
index 2f63fd8..6b1b8d5 100644
--- a/Sourcecode/private/mx/impl/TupletReader.cpp
+++ b/Sourcecode/private/mx/impl/TupletReader.cpp
@@ -139,7 +139,7 @@ namespace mx
                 return;
             }
             const auto& timeMod = *myNote.getTimeModification();
-            outTupletStart.actualNumber = timeMod.getActualNotes()->getValue().getValue();
+            outTupletStart.normalNumber = timeMod.getNormalNotes()->getValue().getValue();
             
             Converter converter;
             if( timeMod.getHasNormalTypeNormalDotGroup() )
@@ -164,7 +164,7 @@ namespace mx
                 return;
             }
             const auto& timeMod = *myNote.getTimeModification();
-            outTupletStart.normalNumber = timeMod.getNormalNotes()->getValue().getValue();
+            outTupletStart.actualNumber = timeMod.getActualNotes()->getValue().getValue();
             
             Converter converter;
             if( timeMod.getHasNormalTypeNormalDotGroup() )
-- 
2.43.0


From 8da8053b24a74c930829939e96f99e4bd04e14ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 30/99] fix: write the number level of wedges

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 3992b76..166be91 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -166,7 +166,13 @@ namespace mx
                 auto wedgePtr = wedgeStartDirectionTypePtr->getWedge();
                 auto& attr = *wedgePtr->getAttributes();
                 attr.type = core::WedgeType::stop;
-                
+
+                if( wedgeStop.numberLevel > 0 )
+                {
+                    attr.hasNumber = true;
+                    attr.number = core::NumberLevel{ wedgeStop.numberLevel };
+                }
+
                 if( wedgeStop.isSpreadSpecified )
                 {
                     attr.hasSpread = true;
@@ -188,7 +194,13 @@ namespace mx
                 {
                     attr.type = myConverter.convert( wedgeStart.wedgeType );
                 }
-                
+
+                if( wedgeStart.numberLevel > 0 )
+                {
+                    attr.hasNumber = true;
+                    attr.number = core::NumberLevel{ wedgeStart.numberLevel };
+                }
+
                 if( wedgeStart.isSpreadSpecified )
                 {
                     attr.hasSpread = true;
-- 
2.43.0


From 46ddbac49d7794c012a79ebb82d515882027208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 31/99] fix: carry the hook and the end length of lines

---
 Sourcecode/private/mx/impl/LineFunctions.h | 32 +++++++++++-----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/Sourcecode/private/mx/impl/LineFunctions.h b/Sourcecode/private/mx/impl/LineFunctions.h
index 4efb8d5..12f8f21 100644
--- a/Sourcecode/private/mx/impl/LineFunctions.h
+++ b/Sourcecode/private/mx/impl/LineFunctions.h
@@ -17,8 +17,8 @@ namespace mx
         MX_ATTR_FUNC_OPTIONAL( hasLineType, HasLineType, bool, false );
         MX_ATTR_FUNC_OPTIONAL( lineType, LineType, core::LineType, core::LineType::solid );
 
-        MX_ATTR_FUNC_OPTIONAL( hasLineStop, HasLineStop, bool, false );
-        MX_ATTR_FUNC_OPTIONAL( lineStop, LineStop, core::LineEnd, core::LineEnd::none );
+        MX_ATTR_FUNC_OPTIONAL( hasLineEnd, HasLineEnd, bool, false );
+        MX_ATTR_FUNC_OPTIONAL( lineEnd, LineEnd, core::LineEnd, core::LineEnd::none );
         
         MX_ATTR_FUNC_OPTIONAL( hasDashLength, HasDashLength, bool, false );
         MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( dashLength, DashLength, long double, 0.0L );
@@ -26,8 +26,8 @@ namespace mx
         MX_ATTR_FUNC_OPTIONAL( hasSpaceLength, HasSpaceLength, bool, false );
         MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( spaceLength, SpaceLength, long double, 0.0L );
         
-        MX_ATTR_FUNC_OPTIONAL( hasStopLength, HasStopLength, bool, false );
-        MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( endLength, StopLength, long double, 0.0L );
+        MX_ATTR_FUNC_OPTIONAL( hasEndLength, HasEndLength, bool, false );
+        MX_ATTR_FUNC_OPTIONAL_WITH_GETTER( endLength, EndLength, long double, 0.0L );
         
         template <typename ATTRIBUTES_TYPE>
         api::LineData getLineData( const ATTRIBUTES_TYPE& inAttributes )
@@ -40,9 +40,9 @@ namespace mx
                 lineData.lineType = converter.convert( checkLineType<ATTRIBUTES_TYPE>( &inAttributes ) );
             }
             
-            if( checkHasLineStop<ATTRIBUTES_TYPE>( &inAttributes ) )
+            if( checkHasLineEnd<ATTRIBUTES_TYPE>( &inAttributes ) )
             {
-                lineData.lineHook = converter.convert( checkLineStop<ATTRIBUTES_TYPE>( &inAttributes ) );
+                lineData.lineHook = converter.convert( checkLineEnd<ATTRIBUTES_TYPE>( &inAttributes ) );
             }
             
             if( checkHasDashLength( &inAttributes ) )
@@ -57,10 +57,10 @@ namespace mx
                 lineData.spaceLength = checkSpaceLength( &inAttributes );
             }
             
-            if( checkHasStopLength<ATTRIBUTES_TYPE>( &inAttributes ) )
+            if( checkHasEndLength<ATTRIBUTES_TYPE>( &inAttributes ) )
             {
                 lineData.isStopLengthSpecified = true;
-                lineData.endLength = checkStopLength<ATTRIBUTES_TYPE>( &inAttributes );
+                lineData.endLength = checkEndLength<ATTRIBUTES_TYPE>( &inAttributes );
             }
             
             return lineData;
@@ -69,8 +69,7 @@ namespace mx
         MX_ATTR_SETFUNC_OPTIONAL( hasLineType, HasLineType, bool, false );
         MX_ATTR_SETFUNC_OPTIONAL( lineType, LineType, core::LineType, core::LineType::solid );
         
-        MX_ATTR_SETFUNC_OPTIONAL( hasLineStop, HasLineStop, bool, false );
-        MX_ATTR_SETFUNC_OPTIONAL( lineStop, LineStop, core::LineEnd, core::LineEnd::none );
+        MX_ATTR_SETFUNC_OPTIONAL( lineEnd, LineEnd, core::LineEnd, core::LineEnd::none );
         
         MX_ATTR_SETFUNC_OPTIONAL( hasSpaceLength, HasSpaceLength, bool, false );
         MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( spaceLength, SpaceLength, long double, 0.0L );
@@ -78,8 +77,8 @@ namespace mx
         MX_ATTR_SETFUNC_OPTIONAL( hasDashLength, HasDashLength, bool, false );
         MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( dashLength, DashLength, long double, 0.0L );
         
-        MX_ATTR_SETFUNC_OPTIONAL( hasStopLength, HasStopLength, bool, false );
-        MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( endLength, StopLength, long double, 0.0L );
+        MX_ATTR_SETFUNC_OPTIONAL( hasEndLength, HasEndLength, bool, false );
+        MX_ATTR_SETFUNC_OPTIONAL_WITH_SETTER( endLength, EndLength, long double, 0.0L );
         
         template <typename ATTRIBUTES_TYPE>
         void setAttributesFromLineData( const api::LineData& inLineData, ATTRIBUTES_TYPE& outAttributes )
@@ -95,9 +94,10 @@ namespace mx
                 lookForAndSetSpaceLength( inLineData.spaceLength, &outAttributes );
             }
             
-            if( lookForAndSetHasLineStop( inLineData.lineHook != api::LineHook::unspecified, &outAttributes ) )
+            // the line-end attribute is required wherever it exists, so there is no flag to set
+            if( inLineData.lineHook != api::LineHook::unspecified )
             {
-                lookForAndSetLineStop( converter.convert( inLineData.lineHook ), &outAttributes );
+                lookForAndSetLineEnd( converter.convert( inLineData.lineHook ), &outAttributes );
             }
             
             if( lookForAndSetHasLineType( inLineData.lineType != api::LineType::unspecified, &outAttributes ) )
@@ -105,9 +105,9 @@ namespace mx
                 lookForAndSetLineType( converter.convert( inLineData.lineType ), &outAttributes );
             }
             
-            if( lookForAndSetHasStopLength( inLineData.isStopLengthSpecified, &outAttributes ) )
+            if( lookForAndSetHasEndLength( inLineData.isStopLengthSpecified, &outAttributes ) )
             {
-                lookForAndSetStopLength( inLineData.endLength, &outAttributes );
+                lookForAndSetEndLength( inLineData.endLength, &outAttributes );
             }
         }
     }
-- 
2.43.0


From ebd53e71cdb0bc8244373f9a5dcb8016f6671331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 32/99] fix: write bracket stops and everything a bracket or
 ottava says

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 10 ++--------
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 14 ++++++++++++--
 Sourcecode/private/mx/impl/SpannerFunctions.h  | 17 ++++++++++++++++-
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 542f0a0..5b26280 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -473,21 +473,15 @@ namespace mx
             
             if( attr.type == core::StartStopContinue::stop )
             {
-                api::SpannerStop stop;
+                auto stop = impl::getSpannerStop( attr );
                 stop.tickTimePosition = myCursor.tickTimePosition;
-                stop.numberLevel = impl::checkNumber( &attr );
-                stop.positionData = this->parsePositionData( attr );
                 myOutDirectionData.bracketStops.emplace_back( std::move( stop ) );
                 return;
             }
             else if( attr.type == core::StartStopContinue::start )
             {
-                api::SpannerStart start;
+                auto start = impl::getSpannerStart( attr );
                 start.tickTimePosition = myCursor.tickTimePosition;
-                start.numberLevel = impl::checkNumber( &attr );
-                start.positionData = this->parsePositionData( attr );
-                start.lineData = impl::getLineData( attr );
-                start.printData = impl::getPrintData( attr );
                 myOutDirectionData.bracketStarts.emplace_back( std::move( start ) );
                 return;
             }
diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 166be91..e59a493 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -222,7 +222,7 @@ namespace mx
                 auto oStart = oStopDir->getOctaveShift();
                 auto& attr = *oStart->getAttributes();
                 attr.type = core::UpDownStopContinue::stop;
-                MX_UNUSED( ottavaStop );
+                setAttributesFromSpannerStop( ottavaStop, attr );
             }
             
             for( const auto& ottavaStart : myDirectionData.ottavaStarts )
@@ -232,7 +232,7 @@ namespace mx
                 oStartDir->setChoice( core::DirectionType::Choice::octaveShift );
                 auto oStart = oStartDir->getOctaveShift();
                 auto& attr = *oStart->getAttributes();
-                impl::setAttributesFromLineData( ottavaStart.spannerStart.lineData, attr );
+                setAttributesFromSpannerStart( ottavaStart.spannerStart, attr );
                 
                 attr.hasSize = true;
                 
@@ -266,6 +266,16 @@ namespace mx
                 }
             }
             
+            for( const auto& item : myDirectionData.bracketStops )
+            {
+                auto outDirType = core::makeDirectionType();
+                this->addDirectionType( outDirType, directionPtr );
+                outDirType->setChoice( core::DirectionType::Choice::bracket );
+                auto& attr = *outDirType->getBracket()->getAttributes();
+                attr.type = core::StartStopContinue::stop;
+                setAttributesFromSpannerStop( item, attr );
+            }
+
             for( const auto& item : myDirectionData.bracketStarts )
             {
                 auto outDirType = core::makeDirectionType();
diff --git a/Sourcecode/private/mx/impl/SpannerFunctions.h b/Sourcecode/private/mx/impl/SpannerFunctions.h
index 55e5fce..86125b4 100644
--- a/Sourcecode/private/mx/impl/SpannerFunctions.h
+++ b/Sourcecode/private/mx/impl/SpannerFunctions.h
@@ -62,7 +62,22 @@ namespace mx
                 lookForAndSetHasNumber( false, &outAttributes );
                 lookForAndSetNumber( 1, &outAttributes );
             }
-            
+
+            setAttributesFromPositionData( start.positionData, outAttributes );
+            setAttributesFromLineData( start.lineData, outAttributes );
+            setAttributesFromPrintData( start.printData, outAttributes );
+        }
+
+        template <typename ATTRIBUTES_TYPE>
+        void setAttributesFromSpannerStop( const api::SpannerStop& stop, ATTRIBUTES_TYPE& outAttributes )
+        {
+            if( stop.numberLevel > 0 )
+            {
+                lookForAndSetHasNumber( true, &outAttributes );
+                lookForAndSetNumber( stop.numberLevel, &outAttributes );
+            }
+
+            setAttributesFromPositionData( stop.positionData, outAttributes );
         }
     }
 }
-- 
2.43.0


From e576a0a6418c9516513b69cd7da3b69390c64eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 33/99] fix: keep the color of words and rehearsal marks

---
 Sourcecode/private/mx/core/elements/RehearsalAttributes.cpp | 5 +++++
 Sourcecode/private/mx/core/elements/RehearsalAttributes.h   | 3 +++
 Sourcecode/private/mx/core/elements/WordsAttributes.cpp     | 5 +++++
 Sourcecode/private/mx/core/elements/WordsAttributes.h       | 3 +++
 4 files changed, 16 insertions(+)

diff --git a/Sourcecode/private/mx/core/elements/RehearsalAttributes.cpp b/Sourcecode/private/mx/core/elements/RehearsalAttributes.cpp
index 5217fff..9649451 100644
--- a/Sourcecode/private/mx/core/elements/RehearsalAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/RehearsalAttributes.cpp
@@ -20,6 +20,7 @@ namespace mx
         ,fontStyle( FontStyle::normal )
         ,fontSize( FontSize{ CssFontSize::medium } )
         ,fontWeight( FontWeight::normal )
+        ,color()
         ,halign()
         ,underline()
         ,overline()
@@ -39,6 +40,7 @@ namespace mx
         ,hasFontStyle( false )
         ,hasFontSize( false )
         ,hasFontWeight( false )
+        ,hasColor( false )
         ,hasHalign( false )
         ,hasUnderline( false )
         ,hasOverline( false )
@@ -63,6 +65,7 @@ namespace mx
             hasFontStyle ||
             hasFontSize ||
             hasFontWeight ||
+            hasColor ||
             hasHalign ||
             hasUnderline ||
             hasOverline ||
@@ -89,6 +92,7 @@ namespace mx
                 streamAttribute( os, fontStyle, "font-style", hasFontStyle );
                 streamAttribute( os, fontSize, "font-size", hasFontSize );
                 streamAttribute( os, fontWeight, "font-weight", hasFontWeight );
+                streamAttribute( os, color, "color", hasColor );
                 streamAttribute( os, halign, "halign", hasHalign );
                 streamAttribute( os, underline, "underline", hasUnderline );
                 streamAttribute( os, overline, "overline", hasOverline );
@@ -123,6 +127,7 @@ namespace mx
                 if( parseAttribute( message, it, className, isSuccess, fontStyle, hasFontStyle, "font-style", &parseFontStyle ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, fontSize, hasFontSize, "font-size" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, fontWeight, hasFontWeight, "font-weight", &parseFontWeight ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, color, hasColor, "color" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, halign, hasHalign, "halign", &parseLeftCenterRight ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, underline, hasUnderline, "underline" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, overline, hasOverline, "overline" ) ) { continue; }
diff --git a/Sourcecode/private/mx/core/elements/RehearsalAttributes.h b/Sourcecode/private/mx/core/elements/RehearsalAttributes.h
index 15bb0fd..fe7ef68 100644
--- a/Sourcecode/private/mx/core/elements/RehearsalAttributes.h
+++ b/Sourcecode/private/mx/core/elements/RehearsalAttributes.h
@@ -6,6 +6,7 @@
 
 #include "mx/core/ForwardDeclare.h"
 #include "mx/core/AttributesInterface.h"
+#include "mx/core/Color.h"
 #include "mx/core/CommaSeparatedText.h"
 #include "mx/core/Decimals.h"
 #include "mx/core/Enums.h"
@@ -40,6 +41,7 @@ namespace mx
             FontStyle fontStyle;
             FontSize fontSize;
             FontWeight fontWeight;
+            Color color;
             LeftCenterRight halign;
             NumberOfLines underline;
             NumberOfLines overline;
@@ -59,6 +61,7 @@ namespace mx
             bool hasFontStyle;
             bool hasFontSize;
             bool hasFontWeight;
+            bool hasColor;
             bool hasHalign;
             bool hasUnderline;
             bool hasOverline;
diff --git a/Sourcecode/private/mx/core/elements/WordsAttributes.cpp b/Sourcecode/private/mx/core/elements/WordsAttributes.cpp
index fc18220..513ddff 100644
--- a/Sourcecode/private/mx/core/elements/WordsAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/WordsAttributes.cpp
@@ -20,6 +20,7 @@ namespace mx
         ,fontStyle( FontStyle::normal )
         ,fontSize( FontSize{ CssFontSize::medium } )
         ,fontWeight( FontWeight::normal )
+        ,color()
         ,halign()
         ,underline()
         ,overline()
@@ -39,6 +40,7 @@ namespace mx
         ,hasFontStyle( false )
         ,hasFontSize( false )
         ,hasFontWeight( false )
+        ,hasColor( false )
         ,hasHalign( false )
         ,hasUnderline( false )
         ,hasOverline( false )
@@ -63,6 +65,7 @@ namespace mx
             hasFontStyle ||
             hasFontSize ||
             hasFontWeight ||
+            hasColor ||
             hasHalign ||
             hasUnderline ||
             hasOverline ||
@@ -89,6 +92,7 @@ namespace mx
                 streamAttribute( os, fontStyle, "font-style", hasFontStyle );
                 streamAttribute( os, fontSize, "font-size", hasFontSize );
                 streamAttribute( os, fontWeight, "font-weight", hasFontWeight );
+                streamAttribute( os, color, "color", hasColor );
                 streamAttribute( os, halign, "halign", hasHalign );
                 streamAttribute( os, underline, "underline", hasUnderline );
                 streamAttribute( os, overline, "overline", hasOverline );
@@ -123,6 +127,7 @@ namespace mx
                 if( parseAttribute( message, it, className, isSuccess, fontStyle, hasFontStyle, "font-style", &parseFontStyle ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, fontSize, hasFontSize, "font-size" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, fontWeight, hasFontWeight, "font-weight", &parseFontWeight ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, color, hasColor, "color" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, halign, hasHalign, "halign", &parseLeftCenterRight ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, underline, hasUnderline, "underline" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, overline, hasOverline, "overline" ) ) { continue; }
diff --git a/Sourcecode/private/mx/core/elements/WordsAttributes.h b/Sourcecode/private/mx/core/elements/WordsAttributes.h
index d1bd5ef..aa09c01 100644
--- a/Sourcecode/private/mx/core/elements/WordsAttributes.h
+++ b/Sourcecode/private/mx/core/elements/WordsAttributes.h
@@ -6,6 +6,7 @@
 
 #include "mx/core/ForwardDeclare.h"
 #include "mx/core/AttributesInterface.h"
+#include "mx/core/Color.h"
 #include "mx/core/CommaSeparatedText.h"
 #include "mx/core/Decimals.h"
 #include "mx/core/Enums.h"
@@ -40,6 +41,7 @@ namespace mx
             FontStyle fontStyle;
             FontSize fontSize;
             FontWeight fontWeight;
+            Color color;
             LeftCenterRight halign;
             NumberOfLines underline;
             NumberOfLines overline;
@@ -59,6 +61,7 @@ namespace mx
             bool hasFontStyle;
             bool hasFontSize;
             bool hasFontWeight;
+            bool hasColor;
             bool hasHalign;
             bool hasUnderline;
             bool hasOverline;
-- 
2.43.0


From b9739f70584f1c2944efe41d0ce814dc94ee95ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 34/99] fix: read and write whether words, rehearsal marks,
 segnos and codas have a color

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 5 +++++
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 3 +--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 5b26280..22ba835 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -326,6 +326,8 @@ namespace mx
                 const auto& attr = *rehearsalPtr->getAttributes();
                 outRehearsal.text = rehearsalPtr->getValue().getValue();
                 outRehearsal.positionData = getPositionData( attr );
+                outRehearsal.fontData = getFontData( attr );
+                outRehearsal.isColorSpecified = attr.hasColor;
                 outRehearsal.colorData = getColor( attr );
                 myOutDirectionData.rehearsals.emplace_back( std::move( outRehearsal ) );
             }
@@ -343,6 +345,7 @@ namespace mx
                 api::SegnoData outSegno;
                 const auto& attr = *segnoPtr->getAttributes();
                 outSegno.positionData = getPositionData( attr );
+                outSegno.isColorSpecified = attr.hasColor;
                 outSegno.colorData = getColor( attr );
                 myOutDirectionData.segnos.emplace_back( std::move( outSegno ) );
             }
@@ -359,6 +362,7 @@ namespace mx
                 const auto& attr = *wordPtr->getAttributes();
                 outWords.text = wordPtr->getValue().getValue();
                 outWords.positionData = getPositionData( attr );
+                outWords.isColorSpecified = attr.hasColor;
                 outWords.colorData = getColor( attr );
                 outWords.fontData = getFontData( attr );
                 myOutDirectionData.words.emplace_back( std::move( outWords ) );
@@ -375,6 +379,7 @@ namespace mx
                 api::CodaData outCoda;
                 const auto& attr = *codaPtr->getAttributes();
                 outCoda.positionData = getPositionData( attr );
+                outCoda.isColorSpecified = attr.hasColor;
                 outCoda.colorData = getColor( attr );
                 myOutDirectionData.codas.emplace_back( std::move( outCoda ) );
             }
diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index e59a493..6c3c635 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -343,8 +343,7 @@ namespace mx
 
                     if( wordsData.isColorSpecified )
                     {
-                        // TODO - oops color is missing from words
-//                        attr.hasColor = true;
+                        attr.hasColor = true;
                         setAttributesFromColorData( wordsData.colorData, attr );
                     }
                 }
-- 
2.43.0


From 8fc030e7fc845d022b311138687d7d6812aaa1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 35/99] fix: write rehearsal marks, segnos and codas

---
 .../private/mx/impl/DirectionWriter.cpp       | 92 +++++++++++++++++++
 1 file changed, 92 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 6c3c635..b6ffc44 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -319,6 +319,98 @@ namespace mx
                 //setAttributesFromSpannerStart( item, attr );
             }
 
+            if( !myDirectionData.rehearsals.empty() )
+            {
+                auto outDirType = core::makeDirectionType();
+                outDirType->setChoice( core::DirectionType::Choice::rehearsal );
+                bool isFirstAdded = false;
+
+                for( const auto& rehearsalData : myDirectionData.rehearsals )
+                {
+                    auto outRehearsal = core::makeRehearsal();
+                    outRehearsal->setValue( core::XsString{ rehearsalData.text } );
+                    auto& attr = *outRehearsal->getAttributes();
+                    setAttributesFromPositionData( rehearsalData.positionData, attr );
+                    setAttributesFromFontData( rehearsalData.fontData, attr );
+
+                    if( rehearsalData.isColorSpecified )
+                    {
+                        attr.hasColor = true;
+                        setAttributesFromColorData( rehearsalData.colorData, attr );
+                    }
+
+                    outDirType->addRehearsal( outRehearsal );
+
+                    if( !isFirstAdded )
+                    {
+                        isFirstAdded = true;
+                        outDirType->removeRehearsal( outDirType->getRehearsalSet().cbegin() );
+                    }
+                }
+
+                addDirectionType( outDirType, directionPtr );
+            }
+
+            if( !myDirectionData.segnos.empty() )
+            {
+                auto outDirType = core::makeDirectionType();
+                outDirType->setChoice( core::DirectionType::Choice::segno );
+                bool isFirstAdded = false;
+
+                for( const auto& segnoData : myDirectionData.segnos )
+                {
+                    auto outSegno = core::makeSegno();
+                    auto& attr = *outSegno->getAttributes();
+                    setAttributesFromPositionData( segnoData.positionData, attr );
+
+                    if( segnoData.isColorSpecified )
+                    {
+                        attr.hasColor = true;
+                        setAttributesFromColorData( segnoData.colorData, attr );
+                    }
+
+                    outDirType->addSegno( outSegno );
+
+                    if( !isFirstAdded )
+                    {
+                        isFirstAdded = true;
+                        outDirType->removeSegno( outDirType->getSegnoSet().cbegin() );
+                    }
+                }
+
+                addDirectionType( outDirType, directionPtr );
+            }
+
+            if( !myDirectionData.codas.empty() )
+            {
+                auto outDirType = core::makeDirectionType();
+                outDirType->setChoice( core::DirectionType::Choice::coda );
+                bool isFirstAdded = false;
+
+                for( const auto& codaData : myDirectionData.codas )
+                {
+                    auto outCoda = core::makeCoda();
+                    auto& attr = *outCoda->getAttributes();
+                    setAttributesFromPositionData( codaData.positionData, attr );
+
+                    if( codaData.isColorSpecified )
+                    {
+                        attr.hasColor = true;
+                        setAttributesFromColorData( codaData.colorData, attr );
+                    }
+
+                    outDirType->addCoda( outCoda );
+
+                    if( !isFirstAdded )
+                    {
+                        isFirstAdded = true;
+                        outDirType->removeCoda( outDirType->getCodaSet().cbegin() );
+                    }
+                }
+
+                addDirectionType( outDirType, directionPtr );
+            }
+
             if( myDirectionData.words.size() > 0 )
             {
                 bool isFirstWordsAdded = false;
-- 
2.43.0


From 4cb62fc16a7ed09cfeba5a64ede6d959c64897d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 36/99] fix: write where a chord symbol is placed and whether
 its degrees are printed

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index b6ffc44..3de9eb0 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -515,6 +515,12 @@ namespace mx
                     isFirstChord = false;
                     auto& attributes = *harmony->getAttributes();
                     setAttributesFromPositionData( chordIter->positionData, attributes );
+
+                    if( !attributes.hasPlacement && myDirectionData.placement != api::Placement::unspecified )
+                    {
+                        attributes.hasPlacement = true;
+                        attributes.placement = myConverter.convert( myDirectionData.placement );
+                    }
                 }
 
                 core::HarmonyChordGroupPtr grp = nullptr;
@@ -607,6 +613,12 @@ namespace mx
                         case api::ExtensionAlter::none: degree->getDegreeAlter()->setValue( core::Semitones{ 0.0 } ); break;
                     }
 
+                    if( extension.printObject != api::Bool::unspecified )
+                    {
+                        degree->getAttributes()->hasPrintObject = true;
+                        degree->getAttributes()->printObject = myConverter.convert( extension.printObject );
+                    }
+
                     grp->addDegree( degree );
                 }
 
-- 
2.43.0


From e5d2c4f127f44f08dffffbd9e86c13d6dca6d910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 37/99] fix: carry the position, print and parentheses of a
 metronome mark

---
 Sourcecode/include/mx/api/TempoData.h          |  6 +++---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 11 +++++++++--
 Sourcecode/private/mx/impl/MetronomeReader.cpp | 12 ++++++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/Sourcecode/include/mx/api/TempoData.h b/Sourcecode/include/mx/api/TempoData.h
index 5349baa..d888832 100644
--- a/Sourcecode/include/mx/api/TempoData.h
+++ b/Sourcecode/include/mx/api/TempoData.h
@@ -62,11 +62,11 @@ namespace mx
         class TempoData
         {
         public:
-            int tickTime;
-            Bool isParenthetical;
+            int tickTime = 0;
+            Bool isParenthetical = Bool::unspecified;
             PrintData printData;
             PositionData positionData;
-            TempoType tempoType;
+            TempoType tempoType = TempoType::unspecified;
             
             // only used when tempoType is 'beatsPerMinute'
             BeatsPerMinute beatsPerMinute;
diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 3de9eb0..c24089c 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -315,8 +315,15 @@ namespace mx
                 auto pm = pmobuc->getPerMinute();
                 auto str = std::to_string( tempo.beatsPerMinute.beatsPerMinute );
                 pm->setValue( core::XsString{ str } );
-                //auto& attr = *outElement->getAttributes();
-                //setAttributesFromSpannerStart( item, attr );
+                auto& attr = *outElement->getAttributes();
+                setAttributesFromPositionData( tempo.positionData, attr );
+                setAttributesFromPrintData( tempo.printData, attr );
+
+                if( tempo.isParenthetical != api::Bool::unspecified )
+                {
+                    attr.hasParentheses = true;
+                    attr.parentheses = converter.convert( tempo.isParenthetical );
+                }
             }
 
             if( !myDirectionData.rehearsals.empty() )
diff --git a/Sourcecode/private/mx/impl/MetronomeReader.cpp b/Sourcecode/private/mx/impl/MetronomeReader.cpp
index 64e7627..b9d00c7 100644
--- a/Sourcecode/private/mx/impl/MetronomeReader.cpp
+++ b/Sourcecode/private/mx/impl/MetronomeReader.cpp
@@ -16,6 +16,8 @@
 #include "mx/core/elements/PerMinute.h"
 #include "mx/core/elements/PerMinuteOrBeatUnitChoice.h"
 #include "mx/impl/Converter.h"
+#include "mx/impl/PositionFunctions.h"
+#include "mx/impl/PrintFunctions.h"
 #include "mx/utility/StringToInt.h"
 
 
@@ -38,6 +40,16 @@ namespace mx
         {
             std::lock_guard<std::mutex> lock{ myMutex };
             myOutTempoData = api::TempoData{};
+            const auto& attr = *myMetronome.getAttributes();
+            myOutTempoData.positionData = getPositionData( attr );
+            myOutTempoData.printData = getPrintData( attr );
+
+            if( attr.hasParentheses )
+            {
+                Converter converter;
+                myOutTempoData.isParenthetical = converter.convert( attr.parentheses );
+            }
+
             using FirstChoice = core::BeatUnitPerOrNoteRelationNoteChoice::Choice;
             const auto firstChoice = myBeatUnitPerOrNoteRelationNoteChoice.getChoice();
             
-- 
2.43.0


From 0ca73ba6225ba3783c1462f4bbd851b49eacbdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 38/99] fix: compare the text of words and the rehearsal marks
 of a direction

---
 Sourcecode/include/mx/api/DirectionData.h | 3 +++
 Sourcecode/include/mx/api/WordsData.h     | 1 +
 2 files changed, 4 insertions(+)

diff --git a/Sourcecode/include/mx/api/DirectionData.h b/Sourcecode/include/mx/api/DirectionData.h
index 2a66026..18ab1e8 100644
--- a/Sourcecode/include/mx/api/DirectionData.h
+++ b/Sourcecode/include/mx/api/DirectionData.h
@@ -101,6 +101,8 @@ namespace mx
             directionData.ottavaStarts.size() == 0 &&
             directionData.ottavaStops.size() == 0 &&
             directionData.words.size() == 0 &&
+            directionData.chords.size() == 0 &&
+            directionData.rehearsals.size() == 0 &&
             directionData.segnos.size() == 0 &&
             directionData.codas.size() == 0;
         }
@@ -122,6 +124,7 @@ namespace mx
         MXAPI_EQUALS_MEMBER( chords )
         MXAPI_EQUALS_MEMBER( segnos )
         MXAPI_EQUALS_MEMBER( codas )
+        MXAPI_EQUALS_MEMBER( rehearsals )
         MXAPI_EQUALS_END;
         MXAPI_NOT_EQUALS_AND_VECTORS( DirectionData );
 	}
diff --git a/Sourcecode/include/mx/api/WordsData.h b/Sourcecode/include/mx/api/WordsData.h
index 33362d4..65b46b4 100644
--- a/Sourcecode/include/mx/api/WordsData.h
+++ b/Sourcecode/include/mx/api/WordsData.h
@@ -34,6 +34,7 @@ namespace mx
         };
         
         MXAPI_EQUALS_BEGIN( WordsData )
+        MXAPI_EQUALS_MEMBER( text )
         MXAPI_EQUALS_MEMBER( positionData )
         MXAPI_EQUALS_MEMBER( fontData )
         MXAPI_EQUALS_MEMBER( isColorSpecified )
-- 
2.43.0


From 972188d6a0b974fc36b2fdf896acacef399f240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 39/99] fix: compare scaling, lyric text, notehead, and the
 bracket and number of a part group

---
 Sourcecode/include/mx/api/DefaultsData.h  | 2 ++
 Sourcecode/include/mx/api/LyricData.h     | 1 +
 Sourcecode/include/mx/api/NoteData.h      | 1 +
 Sourcecode/include/mx/api/PartGroupData.h | 2 ++
 4 files changed, 6 insertions(+)

diff --git a/Sourcecode/include/mx/api/DefaultsData.h b/Sourcecode/include/mx/api/DefaultsData.h
index 81f254f..389f5d8 100644
--- a/Sourcecode/include/mx/api/DefaultsData.h
+++ b/Sourcecode/include/mx/api/DefaultsData.h
@@ -123,6 +123,8 @@ namespace mx
         };
         
         MXAPI_EQUALS_BEGIN( DefaultsData )
+        MXAPI_EQUALS_MEMBER( scalingMillimeters )
+        MXAPI_EQUALS_MEMBER( scalingTenths )
         MXAPI_EQUALS_MEMBER( pageLayout )
         MXAPI_EQUALS_MEMBER( systemLayout )
         MXAPI_EQUALS_MEMBER( appearance )
diff --git a/Sourcecode/include/mx/api/LyricData.h b/Sourcecode/include/mx/api/LyricData.h
index 877f587..59cb27a 100644
--- a/Sourcecode/include/mx/api/LyricData.h
+++ b/Sourcecode/include/mx/api/LyricData.h
@@ -19,6 +19,7 @@ namespace mx
         };
         
         MXAPI_EQUALS_BEGIN( LyricData )
+        MXAPI_EQUALS_MEMBER( text )
         MXAPI_EQUALS_END;
         MXAPI_NOT_EQUALS_AND_VECTORS( LyricData );
     }
diff --git a/Sourcecode/include/mx/api/NoteData.h b/Sourcecode/include/mx/api/NoteData.h
index 1c1539b..07d8280 100644
--- a/Sourcecode/include/mx/api/NoteData.h
+++ b/Sourcecode/include/mx/api/NoteData.h
@@ -130,6 +130,7 @@ namespace mx
         
         
         MXAPI_EQUALS_BEGIN( NoteData )
+        MXAPI_EQUALS_MEMBER( notehead )
         MXAPI_EQUALS_MEMBER( isRest )
         MXAPI_EQUALS_MEMBER( isMeasureRest )
         MXAPI_EQUALS_MEMBER( isUnpitched )
diff --git a/Sourcecode/include/mx/api/PartGroupData.h b/Sourcecode/include/mx/api/PartGroupData.h
index 42c7e66..e41b4f7 100644
--- a/Sourcecode/include/mx/api/PartGroupData.h
+++ b/Sourcecode/include/mx/api/PartGroupData.h
@@ -66,6 +66,8 @@ namespace mx
         };
         
         MXAPI_EQUALS_BEGIN( PartGroupData )
+        MXAPI_EQUALS_MEMBER( bracketType )
+        MXAPI_EQUALS_MEMBER( number )
         MXAPI_EQUALS_MEMBER( firstPartIndex )
         MXAPI_EQUALS_MEMBER( lastPartIndex )
         MXAPI_EQUALS_MEMBER( name )
-- 
2.43.0


From 2f4bead33239251d4b1565704c2eb581a4b97bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 40/99] fix: the arranger and the publisher were read as the
 lyricist and never written

---
 Sourcecode/private/mx/impl/ScoreReader.cpp |  4 ++--
 Sourcecode/private/mx/impl/ScoreWriter.cpp | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/ScoreReader.cpp b/Sourcecode/private/mx/impl/ScoreReader.cpp
index a6c3668..5ffa138 100644
--- a/Sourcecode/private/mx/impl/ScoreReader.cpp
+++ b/Sourcecode/private/mx/impl/ScoreReader.cpp
@@ -232,13 +232,13 @@ namespace mx
                     
                     if( a->type.getValue() == "arranger" )
                     {
-                        myOutScoreData.lyricist = i->getValue().getValue();
+                        myOutScoreData.arranger = i->getValue().getValue();
                         isArrangerFound = true;
                     }
                     
                     if( a->type.getValue() == "publisher" )
                     {
-                        myOutScoreData.lyricist = i->getValue().getValue();
+                        myOutScoreData.publisher = i->getValue().getValue();
                         isPublisherFound = true;
                     }
                 }
diff --git a/Sourcecode/private/mx/impl/ScoreWriter.cpp b/Sourcecode/private/mx/impl/ScoreWriter.cpp
index 661c0e8..502f341 100644
--- a/Sourcecode/private/mx/impl/ScoreWriter.cpp
+++ b/Sourcecode/private/mx/impl/ScoreWriter.cpp
@@ -109,6 +109,26 @@ namespace mx
                 header->getIdentification()->addCreator( lyricist );
             }
             
+            if( !myScoreData.arranger.empty() )
+            {
+                auto arranger = core::makeCreator();
+                arranger->getAttributes()->hasType = true;
+                arranger->getAttributes()->type = core::XsToken( "arranger" );
+                arranger->setValue( core::XsString( myScoreData.arranger ) );
+                header->setHasIdentification( true );
+                header->getIdentification()->addCreator( arranger );
+            }
+            
+            if( !myScoreData.publisher.empty() )
+            {
+                auto publisher = core::makeCreator();
+                publisher->getAttributes()->hasType = true;
+                publisher->getAttributes()->type = core::XsToken( "publisher" );
+                publisher->setValue( core::XsString( myScoreData.publisher ) );
+                header->setHasIdentification( true );
+                header->getIdentification()->addCreator( publisher );
+            }
+            
             if( !myScoreData.copyright.empty() )
             {
                 auto copyright = core::makeRights();
-- 
2.43.0


From ba449f562648289604e914a9bc6b19069beb2ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 41/99] fix: a default top system distance alone wrote system
 margins

---
 Sourcecode/private/mx/impl/LayoutFunctions.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/LayoutFunctions.cpp b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
index 0a0a20a..c979fb1 100644
--- a/Sourcecode/private/mx/impl/LayoutFunctions.cpp
+++ b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
@@ -195,7 +195,6 @@ namespace mx
                 const auto& top = inDefaults.systemLayout.topSystemDistance.value();
                 outScoreHeaderGroup.setHasDefaults( true );
                 layoutGroup.setHasSystemLayout( true );
-                systemLayout.setHasSystemMargins( true );
                 systemLayout.setHasTopSystemDistance( true );
                 systemLayout.getTopSystemDistance()->setValue( core::TenthsValue{ top } );
             }
-- 
2.43.0


From 3cc2c87a9961b616dbe7e32f11f7b807e60d047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 42/99] fix: other appearances were read as distances without
 their value

---
 Sourcecode/private/mx/impl/LayoutFunctions.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/impl/LayoutFunctions.cpp b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
index c979fb1..b02a23c 100644
--- a/Sourcecode/private/mx/impl/LayoutFunctions.cpp
+++ b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
@@ -418,11 +418,9 @@ namespace mx
             for( const auto& other : appearance.getOtherAppearanceSet() )
             {
                 api::AppearanceData data{};
-                data.appearanceType = api::AppearanceType::Distance;
+                data.appearanceType = api::AppearanceType::OtherAppearance;
                 data.appearanceSubType = core::toString( other->getAttributes()->type );
-
-                // TODO - fix
-                data.value = 0.0;//other->getValue().getValue();
+                data.value = std::strtold( other->getValue().getValue().c_str(), nullptr );
                 outDefaults.appearance.emplace_back( std::move( data ) );
             }
         }
-- 
2.43.0


From 2050941d11e9d054d65550c50a6b2b1133a496a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 43/99] fix: the sound of an instrument and its midi name and
 unpitched number were not written

---
 Sourcecode/private/mx/impl/PartWriter.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Sourcecode/private/mx/impl/PartWriter.cpp b/Sourcecode/private/mx/impl/PartWriter.cpp
index a34d9a2..4a24302 100644
--- a/Sourcecode/private/mx/impl/PartWriter.cpp
+++ b/Sourcecode/private/mx/impl/PartWriter.cpp
@@ -144,6 +144,7 @@ namespace mx
             
             if( myPartData.instrumentData.soundID != api::SoundID::unspecified && myPartData.instrumentData.soundID != api::SoundID::errorBadString )
             {
+                addScoreInstrument = true;
                 scoreIntstrument->setHasInstrumentSound( true );
                 Converter c;
                 scoreIntstrument->getInstrumentSound()->setValue( c.convert( myPartData.instrumentData.soundID ) );
@@ -187,6 +188,20 @@ namespace mx
                 midiInstrument.setHasMidiProgram( true );
                 midiInstrument.getMidiProgram()->setValue( core::Midi128{ myPartData.instrumentData.midiData.program } );
             }
+            if( !myPartData.instrumentData.midiData.name.empty() )
+            {
+                addMidiElement = true;
+                midiGroup->setHasMidiInstrument( true );
+                midiInstrument.setHasMidiName( true );
+                midiInstrument.getMidiName()->setValue( core::XsString{ myPartData.instrumentData.midiData.name } );
+            }
+            if( myPartData.instrumentData.midiData.unpitched >= 0 )
+            {
+                addMidiElement = true;
+                midiGroup->setHasMidiInstrument( true );
+                midiInstrument.setHasMidiUnpitched( true );
+                midiInstrument.getMidiUnpitched()->setValue( core::Midi128{ myPartData.instrumentData.midiData.unpitched } );
+            }
             if( myPartData.instrumentData.midiData.isElevationSpecified )
             {
                 addMidiElement = true;
-- 
2.43.0


From 72524cd303292f8b336286a0194459e52a72e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 44/99] fix: the abbreviation of a part group was not written

---
 Sourcecode/private/mx/impl/ScoreWriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Sourcecode/private/mx/impl/ScoreWriter.cpp b/Sourcecode/private/mx/impl/ScoreWriter.cpp
index 502f341..0793499 100644
--- a/Sourcecode/private/mx/impl/ScoreWriter.cpp
+++ b/Sourcecode/private/mx/impl/ScoreWriter.cpp
@@ -315,6 +315,12 @@ namespace mx
                 mxGrp->getGroupName()->setValue( core::XsString{ apiGrp.name} );
             }
 
+            if( apiGrp.abbreviation.size() > 0 )
+            {
+                mxGrp->setHasGroupAbbreviation( true );
+                mxGrp->getGroupAbbreviation()->setValue( core::XsString{ apiGrp.abbreviation } );
+            }
+
             Converter converter;
             if( apiGrp.bracketType != api::BracketType::unspecified )
             {
-- 
2.43.0


From d7d71ad7af5a32a718320b62bdb3a4150f4b83f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 45/99] fix: the staff distance of a measure was neither
 written nor read

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp | 12 ++++++++++++
 Sourcecode/private/mx/impl/ScoreReader.cpp   |  9 +++++++++
 2 files changed, 21 insertions(+)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index 1bdd197..0ddf66a 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -96,6 +96,8 @@
 #include "mx/core/elements/Sign.h"
 #include "mx/core/elements/Staff.h"
 #include "mx/core/elements/StaffDetails.h"
+#include "mx/core/elements/StaffDistance.h"
+#include "mx/core/elements/StaffLayout.h"
 #include "mx/core/elements/Staves.h"
 #include "mx/core/elements/Stem.h"
 #include "mx/core/elements/StringMute.h"
@@ -331,6 +333,16 @@ namespace mx
                         static_cast<core::DecimalType>( inSystemLayout.systemDistance.value() )
                     });
                 }
+
+                if( inSystemLayout.staffDistance )
+                {
+                    auto outStaffLayout = core::makeStaffLayout();
+                    outStaffLayout->setHasStaffDistance( true );
+                    outStaffLayout->getStaffDistance()->setValue( core::TenthsValue{
+                        static_cast<core::DecimalType>( inSystemLayout.staffDistance.value() )
+                    });
+                    outLayoutGroup.addStaffLayout( outStaffLayout );
+                }
             }
         }
 
diff --git a/Sourcecode/private/mx/impl/ScoreReader.cpp b/Sourcecode/private/mx/impl/ScoreReader.cpp
index 5ffa138..1182ca0 100644
--- a/Sourcecode/private/mx/impl/ScoreReader.cpp
+++ b/Sourcecode/private/mx/impl/ScoreReader.cpp
@@ -42,6 +42,8 @@
 #include "mx/core/elements/ScorePart.h"
 #include "mx/core/elements/ScorePartwise.h"
 #include "mx/core/elements/Source.h"
+#include "mx/core/elements/StaffDistance.h"
+#include "mx/core/elements/StaffLayout.h"
 #include "mx/core/elements/SystemDistance.h"
 #include "mx/core/elements/SystemDividers.h"
 #include "mx/core/elements/SystemLayout.h"
@@ -488,6 +490,13 @@ namespace mx
                             systemData.layout.topSystemDistance = systemLayout.getTopSystemDistance()->getValue().getValue();
                         }
                     }
+                    for( const auto& staffLayout : layoutGroup.getStaffLayoutSet() )
+                    {
+                        if( staffLayout->getHasStaffDistance() && !systemData.layout.staffDistance )
+                        {
+                            systemData.layout.staffDistance = staffLayout->getStaffDistance()->getValue().getValue();
+                        }
+                    }
                     if( systemData.isUsed() )
                     {
                         auto& layout = myOutScoreData.layout[measureIndex];
-- 
2.43.0


From 5600b8f5a81c88afc3b1142780dd36be61241b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 46/99] fix: the display name and abbreviation of a part group
 were neither written nor read

---
 Sourcecode/private/mx/impl/ScoreReader.cpp | 26 ++++++++++++++++++++--
 Sourcecode/private/mx/impl/ScoreWriter.cpp | 23 +++++++++++++++++++
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/ScoreReader.cpp b/Sourcecode/private/mx/impl/ScoreReader.cpp
index 1182ca0..8b5d6ba 100644
--- a/Sourcecode/private/mx/impl/ScoreReader.cpp
+++ b/Sourcecode/private/mx/impl/ScoreReader.cpp
@@ -5,6 +5,8 @@
 #include "mx/impl/ScoreReader.h"
 #include "mx/core/elements/BottomMargin.h"
 #include "mx/core/elements/Creator.h"
+#include "mx/core/elements/DisplayText.h"
+#include "mx/core/elements/DisplayTextOrAccidentalText.h"
 #include "mx/core/elements/Divisions.h"
 #include "mx/core/elements/Encoding.h"
 #include "mx/core/elements/EncodingChoice.h"
@@ -344,8 +346,28 @@ namespace mx
 
             grpData.firstPartIndex = partIndex;
             
-            // TODO - group name display
-            // TODO - group abbreviation display
+            if( inPartGroup->getHasGroupNameDisplay() )
+            {
+                for( const auto& text : inPartGroup->getGroupNameDisplay()->getDisplayTextOrAccidentalTextSet() )
+                {
+                    if( text->getChoice() == core::DisplayTextOrAccidentalText::Choice::displayText )
+                    {
+                        grpData.displayName += text->getDisplayText()->getValue().getValue();
+                    }
+                }
+            }
+
+            if( inPartGroup->getHasGroupAbbreviationDisplay() )
+            {
+                for( const auto& text : inPartGroup->getGroupAbbreviationDisplay()->getDisplayTextOrAccidentalTextSet() )
+                {
+                    if( text->getChoice() == core::DisplayTextOrAccidentalText::Choice::displayText )
+                    {
+                        grpData.displayAbbreviation += text->getDisplayText()->getValue().getValue();
+                    }
+                }
+            }
+
             // TODO - barline, etc
 
             myPartGroupStack.push_front( grpData );
diff --git a/Sourcecode/private/mx/impl/ScoreWriter.cpp b/Sourcecode/private/mx/impl/ScoreWriter.cpp
index 0793499..d4e1841 100644
--- a/Sourcecode/private/mx/impl/ScoreWriter.cpp
+++ b/Sourcecode/private/mx/impl/ScoreWriter.cpp
@@ -3,9 +3,14 @@
 // Distributed under the MIT License
 
 #include "mx/core/elements/Creator.h"
+#include "mx/core/elements/DisplayText.h"
+#include "mx/core/elements/DisplayTextOrAccidentalText.h"
 #include "mx/core/elements/Encoding.h"
+#include "mx/core/elements/GroupAbbreviation.h"
+#include "mx/core/elements/GroupAbbreviationDisplay.h"
 #include "mx/core/elements/GroupBarline.h"
 #include "mx/core/elements/GroupName.h"
+#include "mx/core/elements/GroupNameDisplay.h"
 #include "mx/core/elements/GroupSymbol.h"
 #include "mx/core/elements/Identification.h"
 #include "mx/core/elements/Miscellaneous.h"
@@ -315,6 +320,24 @@ namespace mx
                 mxGrp->getGroupName()->setValue( core::XsString{ apiGrp.name} );
             }
 
+            if( apiGrp.displayName.size() > 0 )
+            {
+                auto text = core::makeDisplayTextOrAccidentalText();
+                text->setChoice( core::DisplayTextOrAccidentalText::Choice::displayText );
+                text->getDisplayText()->setValue( core::XsString{ apiGrp.displayName } );
+                mxGrp->setHasGroupNameDisplay( true );
+                mxGrp->getGroupNameDisplay()->addDisplayTextOrAccidentalText( text );
+            }
+
+            if( apiGrp.displayAbbreviation.size() > 0 )
+            {
+                auto text = core::makeDisplayTextOrAccidentalText();
+                text->setChoice( core::DisplayTextOrAccidentalText::Choice::displayText );
+                text->getDisplayText()->setValue( core::XsString{ apiGrp.displayAbbreviation } );
+                mxGrp->setHasGroupAbbreviationDisplay( true );
+                mxGrp->getGroupAbbreviationDisplay()->addDisplayTextOrAccidentalText( text );
+            }
+
             if( apiGrp.abbreviation.size() > 0 )
             {
                 mxGrp->setHasGroupAbbreviation( true );
-- 
2.43.0


From 5de88a7de22994c1f5bf4172a38306a1cf706eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 47/99] fix: the bracket type of a new part group was left
 uninitialised

---
 Sourcecode/include/mx/api/PartGroupData.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/include/mx/api/PartGroupData.h b/Sourcecode/include/mx/api/PartGroupData.h
index e41b4f7..d0f63d6 100644
--- a/Sourcecode/include/mx/api/PartGroupData.h
+++ b/Sourcecode/include/mx/api/PartGroupData.h
@@ -59,6 +59,7 @@ namespace mx
             : firstPartIndex{ -1 }
             , lastPartIndex{ -1 }
             , name{}
+            , bracketType{ BracketType::unspecified }
             , number{ -1 }
             {
             
-- 
2.43.0


From 9fec9d9230e2d379212d5ab2f369cec99af01411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 48/99] fix: whether the display name of a part is printed was
 neither written nor read

---
 Sourcecode/private/mx/impl/PartReader.cpp | 2 ++
 Sourcecode/private/mx/impl/PartWriter.cpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/Sourcecode/private/mx/impl/PartReader.cpp b/Sourcecode/private/mx/impl/PartReader.cpp
index 44ec6b9..1822ef5 100644
--- a/Sourcecode/private/mx/impl/PartReader.cpp
+++ b/Sourcecode/private/mx/impl/PartReader.cpp
@@ -200,6 +200,7 @@ namespace mx
             if( myScorePart.getHasPartNameDisplay() )
             {
                 myOutPartData.displayName = extractDisplayText( myScorePart.getPartNameDisplay()->getDisplayTextOrAccidentalTextSet() );
+                myOutPartData.displayNamePrintData.printObject = getPrintObject( *myScorePart.getPartNameDisplay()->getAttributes() );
             }
             
             if( myScorePart.getHasPartAbbreviation() )
@@ -210,6 +211,7 @@ namespace mx
             if( myScorePart.getHasPartAbbreviationDisplay() )
             {
                 myOutPartData.displayAbbreviation = extractDisplayText( myScorePart.getPartAbbreviationDisplay()->getDisplayTextOrAccidentalTextSet() );
+                myOutPartData.displayAbbreviationPrintData.printObject = getPrintObject( *myScorePart.getPartAbbreviationDisplay()->getAttributes() );
             }
             
             if( myScorePart.getScoreInstrumentSet().size() > 0 )
diff --git a/Sourcecode/private/mx/impl/PartWriter.cpp b/Sourcecode/private/mx/impl/PartWriter.cpp
index 4a24302..21956ad 100644
--- a/Sourcecode/private/mx/impl/PartWriter.cpp
+++ b/Sourcecode/private/mx/impl/PartWriter.cpp
@@ -2,6 +2,7 @@
 // Copyright (c) by Matthew James Briggs
 // Distributed under the MIT License
 
+#include "mx/impl/PrintFunctions.h"
 #include "mx/impl/PartWriter.h"
 #include "mx/core/elements/AccidentalText.h"
 #include "mx/core/elements/Direction.h"
@@ -91,6 +92,7 @@ namespace mx
                 dtoat->setChoice( core::DisplayTextOrAccidentalText::Choice::displayText );
                 dtoat->getDisplayText()->setValue( core::XsString{ myPartData.displayName } );
                 myOutScorePart->getPartNameDisplay()->addDisplayTextOrAccidentalText( dtoat );
+                setPrintObject( myPartData.displayNamePrintData.printObject, *myOutScorePart->getPartNameDisplay()->getAttributes() );
             }
             if( myPartData.displayAbbreviation.size() > 0 )
             {
@@ -99,6 +101,7 @@ namespace mx
                 dtoat->setChoice( core::DisplayTextOrAccidentalText::Choice::displayText );
                 dtoat->getDisplayText()->setValue( core::XsString{ myPartData.displayAbbreviation } );
                 myOutScorePart->getPartAbbreviationDisplay()->addDisplayTextOrAccidentalText( dtoat );
+                setPrintObject( myPartData.displayAbbreviationPrintData.printObject, *myOutScorePart->getPartAbbreviationDisplay()->getAttributes() );
             }
             auto scoreIntstrument = core::makeScoreInstrument();
             bool addScoreInstrument = false;
-- 
2.43.0


From f5454450dd471d2283388ee2b460fe5b8328cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 49/99] fix: quotes and line breaks in attributes were not
 escaped

---
 Sourcecode/private/mx/core/AttributesInterface.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/AttributesInterface.h b/Sourcecode/private/mx/core/AttributesInterface.h
index ff21d60..b1c4a98 100644
--- a/Sourcecode/private/mx/core/AttributesInterface.h
+++ b/Sourcecode/private/mx/core/AttributesInterface.h
@@ -8,6 +8,7 @@
 
 #include <iostream>
 #include <memory>
+#include <sstream>
 
 namespace ezxml
 {
@@ -46,7 +47,20 @@ namespace mx
                 os << " ";
                 os << attributeName;
                 os << "=\"";
-                os << value;
+                std::ostringstream text;
+                text << value;
+                for( const auto c : text.str() )
+                {
+                    // markup characters are escaped by the value, these only matter in an attribute
+                    switch( c )
+                    {
+                        case '"': os << "&quot;"; break;
+                        case '\t': os << "&#9;"; break;
+                        case '\n': os << "&#10;"; break;
+                        case '\r': os << "&#13;"; break;
+                        default: os << c; break;
+                    }
+                }
                 os << "\"";
             }
             return os;
-- 
2.43.0


From d50bf95b496be1b7736493ce589798d308a38d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:27 +0000
Subject: [PATCH 50/99] fix: a carriage return in a text was written as itself,
 which a parser reads as a line break

---
 Sourcecode/private/mx/core/XsString.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Sourcecode/private/mx/core/XsString.cpp b/Sourcecode/private/mx/core/XsString.cpp
index bf29c5a..7947452 100644
--- a/Sourcecode/private/mx/core/XsString.cpp
+++ b/Sourcecode/private/mx/core/XsString.cpp
@@ -71,6 +71,10 @@ namespace mx
                         os << "&amp;";
                         break;
                         
+                    case '\r':
+                        os << "&#13;";
+                        break;
+                        
                     default:
                         os << c;
                         break;
-- 
2.43.0


From abaa452d322a762bf1bc3f7614800d98692a282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 51/99] fix: custom names of dynamics, modes, line widths and
 distances were not escaped

---
 Sourcecode/private/mx/core/Enums.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/core/Enums.cpp b/Sourcecode/private/mx/core/Enums.cpp
index cbc51ea..2fef857 100644
--- a/Sourcecode/private/mx/core/Enums.cpp
+++ b/Sourcecode/private/mx/core/Enums.cpp
@@ -4,6 +4,7 @@
 
 // self
 #include "mx/core/Enums.h"
+#include "mx/core/XsString.h"
 
 // std
 #include <sstream>
@@ -846,7 +847,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const DistanceType& value )
         {
-            return os << toString( value );
+            return os << XsString{ toString( value ) };
         }
 
         std::ostream& operator<<( std::ostream& os, const DistanceType& value )
@@ -1008,7 +1009,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const DynamicsValue& value )
         {
-            return os << toString( value );
+            return os << XsString{ toString( value ) };
         }
 
         std::ostream& operator<<( std::ostream& os, const DynamicsValue& value )
@@ -1994,7 +1995,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const LineWidthType& value )
         {
-            return os << toString( value );
+            return os << XsString{ toString( value ) };
         }
 
         std::ostream& operator<<( std::ostream& os, const LineWidthType& value )
@@ -2340,7 +2341,7 @@ namespace mx
 
         std::ostream& toStream( std::ostream& os, const ModeValue& value )
         {
-            return os << toString( value );
+            return os << XsString{ toString( value ) };
         }
 
         std::ostream& operator<<( std::ostream& os, const ModeValue& value )
-- 
2.43.0


From 4846824b24c6ca6aa1729c19ef8db5a0a6139b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 52/99] fix: fonts and colors of dynamics were not read

---
 Sourcecode/private/mx/impl/DynamicsReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/DynamicsReader.cpp b/Sourcecode/private/mx/impl/DynamicsReader.cpp
index 6cfb3c1..585ae93 100644
--- a/Sourcecode/private/mx/impl/DynamicsReader.cpp
+++ b/Sourcecode/private/mx/impl/DynamicsReader.cpp
@@ -31,7 +31,7 @@ namespace mx
             markData.markType = markType;
             markData.tickTimePosition = myCursor.tickTimePosition;
             markData.name = myDynamic.getValue().getValueString();
-            markData.positionData = impl::getPositionData( *myDynamic.getAttributes() );
+            impl::parseMarkDataAttributes( *myDynamic.getAttributes(), markData );
             outMarks.emplace_back( std::move( markData ) );
         }
     }
-- 
2.43.0


From 3862277e61ed88caac73ee9e6f7835dd7d5eded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 53/99] fix: fonts of pedal marks were not written and read

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 1 +
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 22ba835..557d955 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -520,6 +520,7 @@ namespace mx
 
             auto mark = api::MarkData{ placement, pedalType };
             mark.positionData = getPositionData( attr );
+            mark.printData = getPrintData( attr );
             mark.positionData.placement = placement;
             myOutDirectionData.placement = placement;
             myOutDirectionData.marks.emplace_back( std::move( mark ) );
diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index c24089c..2016a6a 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -155,6 +155,7 @@ namespace mx
                     attr->hasSign = true;
                     attr->sign = core::YesNo::yes;
                     setAttributesFromPositionData( mark.positionData, *attr );
+                    setAttributesFromPrintData( mark.printData, *attr );
                 }
             }
             
-- 
2.43.0


From 6b7b602937f5b7f33e748559dae17e36be419cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 54/99] fix: the times of tempos, octave shifts and brackets
 were not those of their direction

---
 .../private/mx/impl/DirectionReader.cpp       | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 557d955..46e2a0d 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -186,6 +186,31 @@ namespace mx
             {
                 mark.tickTimePosition = myOutDirectionData.tickTimePosition;
             }
+
+            for( auto& tempo : myOutDirectionData.tempos )
+            {
+                tempo.tickTime = myOutDirectionData.tickTimePosition;
+            }
+
+            for( auto& ottavaStart : myOutDirectionData.ottavaStarts )
+            {
+                ottavaStart.spannerStart.tickTimePosition = myOutDirectionData.tickTimePosition;
+            }
+
+            for( auto& ottavaStop : myOutDirectionData.ottavaStops )
+            {
+                ottavaStop.tickTimePosition = myOutDirectionData.tickTimePosition;
+            }
+
+            for( auto& bracketStart : myOutDirectionData.bracketStarts )
+            {
+                bracketStart.tickTimePosition = myOutDirectionData.tickTimePosition;
+            }
+
+            for( auto& bracketStop : myOutDirectionData.bracketStops )
+            {
+                bracketStop.tickTimePosition = myOutDirectionData.tickTimePosition;
+            }
         }
 
 
-- 
2.43.0


From 118ed3d417440481154b9e8cc2d590dfa7890233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 55/99] fix: the processing instructions of a harmony were
 multiplied by its chords

---
 Sourcecode/private/mx/impl/DirectionReader.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionReader.cpp b/Sourcecode/private/mx/impl/DirectionReader.cpp
index 46e2a0d..12b388a 100644
--- a/Sourcecode/private/mx/impl/DirectionReader.cpp
+++ b/Sourcecode/private/mx/impl/DirectionReader.cpp
@@ -796,12 +796,16 @@ namespace mx
                 }
             }
 
-            for ( const auto& pi : inHarmony.getProcessingInstructions() )
+            // these belong to the harmony, giving them to each of its chords would multiply them when it is written again
+            if( myOutDirectionData.chords.empty() )
             {
-                mx::api::MiscData misc;
-                misc.name = pi.getName();
-                misc.data = pi.getData();
-                chord.miscData.push_back( misc );
+                for ( const auto& pi : inHarmony.getProcessingInstructions() )
+                {
+                    mx::api::MiscData misc;
+                    misc.name = pi.getName();
+                    misc.data = pi.getData();
+                    chord.miscData.push_back( misc );
+                }
             }
 
             const auto& attr = *inHarmony.getAttributes();
-- 
2.43.0


From 97c5d8d4d020b7280aa5653b1101ae70064ce9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 56/99] fix: compare the scaling of defaults as the other
 lengths are compared

---
 Sourcecode/include/mx/api/DefaultsData.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/include/mx/api/DefaultsData.h b/Sourcecode/include/mx/api/DefaultsData.h
index 389f5d8..8f58b15 100644
--- a/Sourcecode/include/mx/api/DefaultsData.h
+++ b/Sourcecode/include/mx/api/DefaultsData.h
@@ -123,8 +123,8 @@ namespace mx
         };
         
         MXAPI_EQUALS_BEGIN( DefaultsData )
-        MXAPI_EQUALS_MEMBER( scalingMillimeters )
-        MXAPI_EQUALS_MEMBER( scalingTenths )
+        MXAPI_DOUBLES_EQUALS_MEMBER( scalingMillimeters )
+        MXAPI_DOUBLES_EQUALS_MEMBER( scalingTenths )
         MXAPI_EQUALS_MEMBER( pageLayout )
         MXAPI_EQUALS_MEMBER( systemLayout )
         MXAPI_EQUALS_MEMBER( appearance )
-- 
2.43.0


From c132e92d0ee7015f1de4f7afe791e34bf69f76ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 57/99] fix: a page layout without a size gained one

---
 .../private/mx/core/elements/PageLayout.cpp   | 34 ++++++++++++++-----
 .../private/mx/core/elements/PageLayout.h     |  5 +++
 .../private/mx/impl/LayoutFunctions.cpp       | 12 ++++---
 Sourcecode/private/mx/impl/ScoreReader.cpp    | 13 ++++---
 4 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/PageLayout.cpp b/Sourcecode/private/mx/core/elements/PageLayout.cpp
index 9f36d9a..1e8ee21 100644
--- a/Sourcecode/private/mx/core/elements/PageLayout.cpp
+++ b/Sourcecode/private/mx/core/elements/PageLayout.cpp
@@ -14,7 +14,8 @@ namespace mx
     namespace core
     {
         PageLayout::PageLayout()
-        :myPageHeight( makePageHeight() )
+        :myHasSize( true )
+        ,myPageHeight( makePageHeight() )
         ,myPageWidth( makePageWidth() )
         ,myPageMarginsSet()
         {}
@@ -41,16 +42,19 @@ namespace mx
 
         bool PageLayout::hasContents() const
         {
-            return true;
+            return myHasSize || !myPageMarginsSet.empty();
         }
 
 
         std::ostream& PageLayout::streamContents( std::ostream& os, const int indentLevel, bool& isOneLineOnly ) const
         {
-            os << std::endl;
-            myPageHeight->toStream( os, indentLevel+1 );
-            os << std::endl;
-            myPageWidth->toStream( os, indentLevel+1 );
+            if ( myHasSize )
+            {
+                os << std::endl;
+                myPageHeight->toStream( os, indentLevel+1 );
+                os << std::endl;
+                myPageWidth->toStream( os, indentLevel+1 );
+            }
             for ( auto x : myPageMarginsSet )
             {
                 os << std::endl;
@@ -62,6 +66,18 @@ namespace mx
         }
 
 
+        bool PageLayout::getHasSize() const
+        {
+            return myHasSize;
+        }
+
+
+        void PageLayout::setHasSize( const bool value )
+        {
+            myHasSize = value;
+        }
+
+
         PageHeightPtr PageLayout::getPageHeight() const
         {
             return myPageHeight;
@@ -149,11 +165,13 @@ namespace mx
                 importElementSet( message, it, endIter, isSuccess, "page-margins", myPageMarginsSet );
             }
 
-            if( !isPageHeightFound )
+            myHasSize = isPageHeightFound || isPageWidthFound;
+
+            if( myHasSize && !isPageHeightFound )
             {
                 message << "PageLayout: '" << myPageHeight->getElementName() << "' is required but was not found" << std::endl;
             }
-            if( !isPageWidthFound )
+            if( myHasSize && !isPageWidthFound )
             {
                 message << "PageLayout: '" << myPageWidth->getElementName() << "' is required but was not found" << std::endl;
             }
diff --git a/Sourcecode/private/mx/core/elements/PageLayout.h b/Sourcecode/private/mx/core/elements/PageLayout.h
index 9b0dd4a..3e4c684 100644
--- a/Sourcecode/private/mx/core/elements/PageLayout.h
+++ b/Sourcecode/private/mx/core/elements/PageLayout.h
@@ -34,6 +34,10 @@ namespace mx
             virtual bool hasContents() const;
             virtual std::ostream& streamContents( std::ostream& os, const int indentLevel, bool& isOneLineOnly ) const;
 
+            /* the height and width stand together or not at all */
+            bool getHasSize() const;
+            void setHasSize( const bool value );
+
             /* _________ PageHeight minOccurs = 1, maxOccurs = 1 _________ */
             PageHeightPtr getPageHeight() const;
             void setPageHeight( const PageHeightPtr& value );
@@ -53,6 +57,7 @@ namespace mx
             virtual bool fromXElementImpl( std::ostream& message, ::ezxml::XElement& xelement );
 
         private:
+            bool myHasSize;
             PageHeightPtr myPageHeight;
             PageWidthPtr myPageWidth;
             PageMarginsSet myPageMarginsSet;
diff --git a/Sourcecode/private/mx/impl/LayoutFunctions.cpp b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
index b02a23c..4ae7982 100644
--- a/Sourcecode/private/mx/impl/LayoutFunctions.cpp
+++ b/Sourcecode/private/mx/impl/LayoutFunctions.cpp
@@ -111,6 +111,7 @@ namespace mx
         core::PageLayoutPtr createPageLayout( const api::PageLayoutData& inPageLayout )
         {
             auto outPageLayout = core::makePageLayout();
+            outPageLayout->setHasSize( inPageLayout.size.has_value() );
 
             if( inPageLayout.size )
             {
@@ -284,10 +285,13 @@ namespace mx
             }
             
             auto pageLayout = inScoreHeaderGroup.getDefaults()->getLayoutGroup()->getPageLayout();
-            outDefaults.pageLayout.size = api::SizeData{
-                    pageLayout->getPageHeight()->getValue().getValue(),
-                    pageLayout->getPageWidth()->getValue().getValue()
-            };
+            if( pageLayout->getHasSize() )
+            {
+                outDefaults.pageLayout.size = api::SizeData{
+                        pageLayout->getPageHeight()->getValue().getValue(),
+                        pageLayout->getPageWidth()->getValue().getValue()
+                };
+            }
             auto pageMargins = pageLayout->getPageMarginsSet();
             for( const auto& m : pageMargins )
             {
diff --git a/Sourcecode/private/mx/impl/ScoreReader.cpp b/Sourcecode/private/mx/impl/ScoreReader.cpp
index 8b5d6ba..3a7af81 100644
--- a/Sourcecode/private/mx/impl/ScoreReader.cpp
+++ b/Sourcecode/private/mx/impl/ScoreReader.cpp
@@ -569,11 +569,14 @@ namespace mx
                     if( layoutGroup->getHasPageLayout() )
                     {
                         const auto& pageLayout = *layoutGroup->getPageLayout();
-                        outPageData.pageLayoutData.size =
-                                api::SizeData{
-                                        static_cast<long double>( pageLayout.getPageHeight()->getValue().getValue()),
-                                        static_cast<long double>( pageLayout.getPageWidth()->getValue().getValue())
-                                };
+                        if( pageLayout.getHasSize() )
+                        {
+                            outPageData.pageLayoutData.size =
+                                    api::SizeData{
+                                            static_cast<long double>( pageLayout.getPageHeight()->getValue().getValue()),
+                                            static_cast<long double>( pageLayout.getPageWidth()->getValue().getValue())
+                                    };
+                        }
                         for( const auto& pageMargins : pageLayout.getPageMarginsSet() )
                         {
                             // Warning - this implementation may not be exactly correct.
-- 
2.43.0


From 531a9711dd45f9444a8172fd9f019ed880e4e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 58/99] fix: a transposition without diatonic steps was read
 back with guessed ones

---
 Sourcecode/private/mx/impl/Converter.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/Sourcecode/private/mx/impl/Converter.cpp b/Sourcecode/private/mx/impl/Converter.cpp
index 4dcf3ca..6276314 100644
--- a/Sourcecode/private/mx/impl/Converter.cpp
+++ b/Sourcecode/private/mx/impl/Converter.cpp
@@ -1867,19 +1867,14 @@ namespace mx
                         });
             }
 
-            if( inTransposeData.diatonic != 0 )
+            // a missing diatonic element is guessed by the reader, so zero needs to be stated unless
+            // it is what the reader will guess.
+            const auto harmonic = inTransposeData.diatonic - ( octave * 7 );
+            if( harmonic != 0 || inTransposeData.chromatic % 12 != 0 )
             {
-                auto harmonic = inTransposeData.diatonic;
-                if( octave != 0 )
-                {
-                    harmonic += octave * -7;
-                }
-                if( harmonic != 0 )
-                {
-                    transposePtr->setHasDiatonic( true );
-                    auto dia = transposePtr->getDiatonic();
-                    dia->setValue( mx::core::Integer{ harmonic } );
-                }
+                transposePtr->setHasDiatonic( true );
+                auto dia = transposePtr->getDiatonic();
+                dia->setValue( mx::core::Integer{ harmonic } );
             }
 
             return transposePtr;
-- 
2.43.0


From aef7a0c8df96ca20e4be1221293f74c3148a808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 59/99] fix: a part group that stops without a number could
 stop another group than number one

---
 Sourcecode/private/mx/impl/ScoreReader.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/ScoreReader.cpp b/Sourcecode/private/mx/impl/ScoreReader.cpp
index 3a7af81..8a73b37 100644
--- a/Sourcecode/private/mx/impl/ScoreReader.cpp
+++ b/Sourcecode/private/mx/impl/ScoreReader.cpp
@@ -399,11 +399,18 @@ namespace mx
         }
         
         
+        // the number of a part-group is 1 when it is not given
+        static bool isSameGroupNumber( int a, int b )
+        {
+            return ( a < 0 ? 1 : a ) == ( b < 0 ? 1 : b );
+        }
+
+
         bool ScoreReader::groupNumberExistsOnStack( int groupNumber ) const
         {
             for( const auto& g : myPartGroupStack )
             {
-                if( g.number == groupNumber )
+                if( isSameGroupNumber( g.number, groupNumber ) )
                 {
                     return true;
                 }
@@ -416,7 +423,7 @@ namespace mx
         {
             auto lambda = [&]( const api::PartGroupData& grp )
             {
-                return grp.number == groupNumber;
+                return isSameGroupNumber( grp.number, groupNumber );
             };
 
             auto iter = std::find_if( myPartGroupStack.cbegin(), myPartGroupStack.cend(), lambda );
-- 
2.43.0


From eab1aa4eac3f5600777db41a414de0537b02369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 60/99] fix: the address of a link or opus was looked for under
 another name than it is written with

---
 Sourcecode/private/mx/core/elements/LinkAttributes.cpp | 10 +++++-----
 Sourcecode/private/mx/core/elements/OpusAttributes.cpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/LinkAttributes.cpp b/Sourcecode/private/mx/core/elements/LinkAttributes.cpp
index 21f8475..ef6bd5c 100644
--- a/Sourcecode/private/mx/core/elements/LinkAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/LinkAttributes.cpp
@@ -91,7 +91,7 @@ namespace mx
             
             for( ; it != endIter; ++it )
             {
-                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "href" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "xlink:href" ) ) { continue; }
                 
                 if( it->getName() == "xlink:type" )
                 {
@@ -99,10 +99,10 @@ namespace mx
                     continue;
                 }
                 
-                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "role" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "title" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "show", &parseXlinkShow ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "actuate", &parseXlinkActuate ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "xlink:role" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "xlink:title" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "xlink:show", &parseXlinkShow ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "xlink:actuate", &parseXlinkActuate ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, name, hasName, "name" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, element, hasElement, "element" ) ) { continue; }
                 if( parseAttribute( message, it, className, isSuccess, position, hasPosition, "position" ) ) { continue; }
diff --git a/Sourcecode/private/mx/core/elements/OpusAttributes.cpp b/Sourcecode/private/mx/core/elements/OpusAttributes.cpp
index dd5aa18..e998866 100644
--- a/Sourcecode/private/mx/core/elements/OpusAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/OpusAttributes.cpp
@@ -63,7 +63,7 @@ namespace mx
         
             for( ; it != endIter; ++it )
             {
-                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "href" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, href, isHrefFound, "xlink:href" ) ) { continue; }
                 
                 if( it->getName() == "xlink:type" )
                 {
@@ -71,10 +71,10 @@ namespace mx
                     continue;
                 }
                 
-                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "role" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "title" ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "show", &parseXlinkShow ) ) { continue; }
-                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "actuate", &parseXlinkActuate ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, role, hasRole, "xlink:role" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, title, hasTitle, "xlink:title" ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, show, hasShow, "xlink:show", &parseXlinkShow ) ) { continue; }
+                if( parseAttribute( message, it, className, isSuccess, actuate, hasActuate, "xlink:actuate", &parseXlinkActuate ) ) { continue; }
             }
         
             if( !isHrefFound )
-- 
2.43.0


From b60c640526c95e2b53f90c3951673cc5e474cc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 61/99] fix: the texts of a notehead were read from their
 parent

---
 Sourcecode/private/mx/core/elements/NoteheadText.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/NoteheadText.cpp b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
index cb92a20..c9ef69f 100644
--- a/Sourcecode/private/mx/core/elements/NoteheadText.cpp
+++ b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
@@ -102,7 +102,7 @@ namespace mx
                 {
                     auto item = makeNoteheadTextChoice();
                     item->setChoice( NoteheadTextChoice::Choice::accidentalText );
-                    isSuccess &= item->getAccidentalText()->fromXElement( message, xelement );
+                    isSuccess &= item->getAccidentalText()->fromXElement( message, *it );
                     
                     if( !isFirstItemAdded && myNoteheadTextChoiceSet.size() == 1 )
                     {
@@ -119,7 +119,7 @@ namespace mx
                 {
                     auto item = makeNoteheadTextChoice();
                     item->setChoice( NoteheadTextChoice::Choice::displayText );
-                    isSuccess &= item->getDisplayText()->fromXElement( message, xelement );
+                    isSuccess &= item->getDisplayText()->fromXElement( message, *it );
                     
                     if( !isFirstItemAdded && myNoteheadTextChoiceSet.size() == 1 )
                     {
-- 
2.43.0


From e7ae65f9328bf0530fdc963558da52c534db0f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 62/99] fix: other notations were not read

---
 Sourcecode/private/mx/core/elements/Notations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Notations.cpp b/Sourcecode/private/mx/core/elements/Notations.cpp
index c04477a..c1d2ec2 100644
--- a/Sourcecode/private/mx/core/elements/Notations.cpp
+++ b/Sourcecode/private/mx/core/elements/Notations.cpp
@@ -265,7 +265,7 @@ namespace mx
                     isSuccess &= choice->getAccidentalMark()->fromXElement( message, *it );
                     myNotationsChoiceSet.push_back( choice );
                 }
-                else if ( elementName == "other-notations" )
+                else if ( elementName == "other-notation" )
                 {
                     auto choice = makeNotationsChoice();
                     choice->setChoice( NotationsChoice::Choice::otherNotation );
-- 
2.43.0


From 246ae816a61b4ed34b1bc0a7eced323b21cd97e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 63/99] fix: the picture of a percussion instrument was not
 read

---
 Sourcecode/private/mx/core/elements/Percussion.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Percussion.cpp b/Sourcecode/private/mx/core/elements/Percussion.cpp
index 689ecaf..80553c2 100644
--- a/Sourcecode/private/mx/core/elements/Percussion.cpp
+++ b/Sourcecode/private/mx/core/elements/Percussion.cpp
@@ -86,7 +86,11 @@ namespace mx
         {
             bool isSuccess = true;
             isSuccess &= myAttributes->fromXElement( message, xelement );
-            isSuccess &= myChoice->fromXElement( message, xelement );
+            const auto iter = xelement.begin();
+            if( iter != xelement.end() )
+            {
+                isSuccess &= myChoice->fromXElement( message, *iter );
+            }
             MX_RETURN_IS_SUCCESS;
         }
 
-- 
2.43.0


From 33c09b9d120ca1bb8c776613477a2165284c8681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 64/99] fix: the contents of a play element were not read

---
 Sourcecode/private/mx/core/elements/Play.cpp | 36 ++++++++++++++------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/Play.cpp b/Sourcecode/private/mx/core/elements/Play.cpp
index bd489ab..79d9d38 100644
--- a/Sourcecode/private/mx/core/elements/Play.cpp
+++ b/Sourcecode/private/mx/core/elements/Play.cpp
@@ -172,29 +172,43 @@ namespace mx
 
         bool Play::fromXElementImpl( std::ostream& message, ::ezxml::XElement& xelement )
         {
-            if( xelement.getName() == "ipa" )
+            bool isSuccess = true;
+            isSuccess &= myAttributes->fromXElement( message, xelement );
+
+            const auto it = xelement.begin();
+
+            if( it == xelement.end() )
+            {
+                MX_RETURN_IS_SUCCESS;
+            }
+
+            if( it->getName() == "ipa" )
             {
                 myChoice = Choice::ipa;
-                return getIpa()->fromXElement( message, xelement );
+                isSuccess &= getIpa()->fromXElement( message, *it );
             }
-            else if( xelement.getName() == "mute" )
+            else if( it->getName() == "mute" )
             {
                 myChoice = Choice::mute;
-                return getMute()->fromXElement( message, xelement );
+                isSuccess &= getMute()->fromXElement( message, *it );
             }
-            else if( xelement.getName() == "semi-pitched" )
+            else if( it->getName() == "semi-pitched" )
             {
                 myChoice = Choice::semiPitched;
-                return getSemiPitched()->fromXElement( message, xelement );
+                isSuccess &= getSemiPitched()->fromXElement( message, *it );
             }
-            else if( xelement.getName() == "other-play" )
+            else if( it->getName() == "other-play" )
             {
                 myChoice = Choice::otherPlay;
-                return getOtherPlay()->fromXElement( message, xelement );
+                isSuccess &= getOtherPlay()->fromXElement( message, *it );
+            }
+            else
+            {
+                message << "Play: '" << it->getName() << "' is not valid" << std::endl;
+                isSuccess = false;
             }
-            
-            message << "Encoding: '" << xelement.getName() << "' is not valid" << std::endl;
-            return false;
+
+            MX_RETURN_IS_SUCCESS;
         }
 
     }
-- 
2.43.0


From 155ea407e9aed6563cf8daca746217d112954e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 65/99] fix: a sound with a midi device gained a midi
 instrument

---
 Sourcecode/private/mx/core/elements/Sound.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Sound.cpp b/Sourcecode/private/mx/core/elements/Sound.cpp
index eedab00..feb7e81 100644
--- a/Sourcecode/private/mx/core/elements/Sound.cpp
+++ b/Sourcecode/private/mx/core/elements/Sound.cpp
@@ -56,7 +56,7 @@ namespace mx
                 os << std::endl;
                 myMidiDevice->toStream( os, indentLevel+1 );
             }
-            if ( myMidiInstrument )
+            if ( myHasMidiInstrument )
             {
                 os << std::endl;
                 myMidiInstrument->toStream( os, indentLevel+1 );
-- 
2.43.0


From e0cb09453c78b8cd434feab7213508fe301c9983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 66/99] fix: the location of a half closed hole was not read

---
 Sourcecode/private/mx/core/elements/HoleClosed.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/HoleClosed.cpp b/Sourcecode/private/mx/core/elements/HoleClosed.cpp
index 2f6e7fb..b022bf8 100644
--- a/Sourcecode/private/mx/core/elements/HoleClosed.cpp
+++ b/Sourcecode/private/mx/core/elements/HoleClosed.cpp
@@ -89,10 +89,10 @@ namespace mx
         
         bool HoleClosed::fromXElementImpl( std::ostream& message, ::ezxml::XElement& xelement )
         {
-            MX_UNUSED( message );
-            MX_UNUSED( xelement );
+            bool isSuccess = true;
+            isSuccess &= myAttributes->fromXElement( message, xelement );
             myValue = parseHoleClosedValue( xelement.getValue() );
-            return true;
+            MX_RETURN_IS_SUCCESS;
         }
     }
 }
-- 
2.43.0


From e1a4ac723e4fdb29852e69a8b83e978b68cd8581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 67/99] fix: a circular arrow was read as a straight one

---
 Sourcecode/private/mx/core/elements/Arrow.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/Arrow.cpp b/Sourcecode/private/mx/core/elements/Arrow.cpp
index e0a9d99..60de311 100644
--- a/Sourcecode/private/mx/core/elements/Arrow.cpp
+++ b/Sourcecode/private/mx/core/elements/Arrow.cpp
@@ -141,12 +141,12 @@ namespace mx
                 {
                     myChoice = Choice::circularArrow;
                     isSuccess &= myCircularArrow->fromXElement( message, *it );
-                    // this is a mistake I think MX_RETURN_IS_SUCCESS;
+                    MX_RETURN_IS_SUCCESS;
                 }
-                myChoice = Choice::arrowGroup;
-                isSuccess = myArrowGroup->fromXElement( message, xelement );
-                // this is a mistake I think MX_RETURN_IS_SUCCESS;
             }
+            
+            myChoice = Choice::arrowGroup;
+            isSuccess &= myArrowGroup->fromXElement( message, xelement );
 
             MX_RETURN_IS_SUCCESS;
         }
-- 
2.43.0


From 88fb6995f09e89c0408ef0b3353db9f9aaaf52f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 68/99] fix: the links and bookmarks between the words of a
 credit were read from their parent

---
 Sourcecode/private/mx/core/elements/Credit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/Credit.cpp b/Sourcecode/private/mx/core/elements/Credit.cpp
index aa3d200..7ccbb9a 100644
--- a/Sourcecode/private/mx/core/elements/Credit.cpp
+++ b/Sourcecode/private/mx/core/elements/Credit.cpp
@@ -307,7 +307,7 @@ namespace mx
                         while( i != endIter && i->getName() == "link" )
                         {
                             auto link = makeLink();
-                            isSuccess &= link->fromXElement( message, xelement );
+                            isSuccess &= link->fromXElement( message, *i );
                             creditWordsGroup->addLink( link );
                             ++i;
                         }
@@ -316,7 +316,7 @@ namespace mx
                         while( i != endIter && i->getName() == "bookmark" )
                         {
                             auto bookmark = makeBookmark();
-                            isSuccess &= bookmark->fromXElement( message, xelement );
+                            isSuccess &= bookmark->fromXElement( message, *i );
                             creditWordsGroup->addBookmark( bookmark );
                             ++i;
                         }
-- 
2.43.0


From 7a40431c24b3eba6503dd44233cf5ee3accb66a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 69/99] fix: the normal type and dots of a metronome tuplet
 were not read

---
 .../mx/core/elements/MetronomeTuplet.cpp        | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp b/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp
index 0d20fcb..8d1c868 100644
--- a/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp
+++ b/Sourcecode/private/mx/core/elements/MetronomeTuplet.cpp
@@ -6,6 +6,8 @@
 #include "mx/core/FromXElement.h"
 #include "mx/core/elements/ActualNotes.h"
 #include "mx/core/elements/NormalNotes.h"
+#include "mx/core/elements/NormalType.h"
+#include "mx/core/elements/NormalDot.h"
 #include "mx/core/elements/TimeModificationNormalTypeNormalDot.h"
 #include <iostream>
 
@@ -148,7 +150,20 @@ namespace mx
             {
                 if ( importElement( message, *it, isSuccess, *myActualNotes, isActualNotesFound ) ) { continue; }
                 if ( importElement( message, *it, isSuccess, *myNormalNotes, isNormalNotesFound ) ) { continue; }
-                if ( importElement( message, *it, isSuccess, *myTimeModificationNormalTypeNormalDot, myHasTimeModificationNormalTypeNormalDot ) ) { continue; }
+
+                if( it->getName() == "normal-type" )
+                {
+                    myHasTimeModificationNormalTypeNormalDot = true;
+                    isSuccess &= myTimeModificationNormalTypeNormalDot->getNormalType()->fromXElement( message, *it );
+                }
+
+                if( it->getName() == "normal-dot" )
+                {
+                    myHasTimeModificationNormalTypeNormalDot = true;
+                    auto item = makeNormalDot();
+                    isSuccess &= item->fromXElement( message, *it );
+                    myTimeModificationNormalTypeNormalDot->addNormalDot( item );
+                }
             }
 
             if( !isActualNotesFound )
-- 
2.43.0


From 34a65cffb251508ba49fda43d4dc6b62e67fb51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 70/99] fix: the dash length of a scoop, plop, doit or falloff
 was written twice

---
 Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp b/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp
index 9ebc909..e62f40c 100644
--- a/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp
+++ b/Sourcecode/private/mx/core/elements/EmptyLineAttributes.cpp
@@ -63,7 +63,6 @@ namespace mx
         {
             if ( hasValues() )
             {
-                streamAttribute( os, dashLength, "dash-length", hasDashLength );
                 streamAttribute( os, lineShape, "line-shape", hasLineShape );
                 streamAttribute( os, lineType, "line-type", hasLineType );
                 streamAttribute( os, dashLength, "dash-length", hasDashLength );
-- 
2.43.0


From 92b7c826847f7860b71187f81fece2dd9f4ebb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 71/99] fix: the syllabic after an elision was not kept

---
 Sourcecode/private/mx/core/FromXElement.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/private/mx/core/FromXElement.cpp b/Sourcecode/private/mx/core/FromXElement.cpp
index bf3c2c4..8cc809d 100644
--- a/Sourcecode/private/mx/core/FromXElement.cpp
+++ b/Sourcecode/private/mx/core/FromXElement.cpp
@@ -330,6 +330,7 @@ namespace mx
                 {
                     
                     isSuccess &= elisionSyllabicTextGroup->getElisionSyllabicGroup()->getSyllabic()->fromXElement( message, *iter );
+                    elisionSyllabicTextGroup->getElisionSyllabicGroup()->setHasSyllabic( true );
                     elisionSyllabicTextGroup->setHasElisionSyllabicGroup( true );
                     ++iter;
                     isIterIncremented = true;
-- 
2.43.0


From 515741b3aae5c61b097c5de3bd5eaf36ec91fda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 72/99] fix: a lyric that is laughed, hummed or extended lost
 that to what follows, and an editorial note was taken for text

---
 Sourcecode/private/mx/core/elements/Lyric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/elements/Lyric.cpp b/Sourcecode/private/mx/core/elements/Lyric.cpp
index 4094400..85b9182 100644
--- a/Sourcecode/private/mx/core/elements/Lyric.cpp
+++ b/Sourcecode/private/mx/core/elements/Lyric.cpp
@@ -209,7 +209,7 @@ namespace mx
                     static_cast<int>( LyricTextChoice::Choice::humming ) ) )
                 { isLyricTextChoiceFound = true; continue; }
                 
-                else
+                else if( it->getName() == "syllabic" || it->getName() == "text" )
                 {
                     myLyricTextChoice->setChoice( LyricTextChoice::Choice::syllabicTextGroup );
                     SyllabicTextGroupPtr ptr = myLyricTextChoice->getSyllabicTextGroup();
-- 
2.43.0


From 30bfbd4e6665e3379b14cfbf2e0a2928d723725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:30 +0000
Subject: [PATCH 73/99] fix: a carriage return in a text of a saved document
 was written as itself

---
 Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp b/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp
index 90c48b2..3c5f6f2 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/pugixml.cpp
@@ -1860,7 +1860,7 @@ PUGI__NS_BEGIN
 
 	enum chartypex_t
 	{
-		ctx_special_pcdata = 1,   // Any symbol >= 0 and < 32 (except \t, \r, \n), &, <, >
+		ctx_special_pcdata = 1,   // Any symbol >= 0 and < 32 (except \t, \n), &, <, >
 		ctx_special_attr = 2,     // Any symbol >= 0 and < 32, &, <, ", '
 		ctx_start_symbol = 4,	  // Any symbol > 127, a-z, A-Z, _
 		ctx_digit = 8,			  // 0-9
@@ -1869,7 +1869,7 @@ PUGI__NS_BEGIN
 
 	static const unsigned char chartypex_table[256] =
 	{
-		3,  3,  3,  3,  3,  3,  3,  3,     3,  2,  2,  3,  3,  2,  3,  3,     // 0-15
+		3,  3,  3,  3,  3,  3,  3,  3,     3,  2,  2,  3,  3,  3,  3,  3,     // 0-15
 		3,  3,  3,  3,  3,  3,  3,  3,     3,  3,  3,  3,  3,  3,  3,  3,     // 16-31
 		0,  0,  2,  0,  0,  0,  3,  2,     0,  0,  0,  0,  0, 16, 16,  0,     // 32-47
 		24, 24, 24, 24, 24, 24, 24, 24,    24, 24, 0,  0,  3,  0,  1,  0,     // 48-63
-- 
2.43.0


From b600ccdcaead8252ecf0cc06099d7cce6137543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:43 +0000
Subject: [PATCH 74/99] fix: a text that comments or CDATA sections divide was
 read up to the first of them

---
 .../ezxml/src/private/private/PugiElement.cpp | 39 +++++++++++++++++--
 .../ezxml/src/private/private/PugiElement.h   |  1 +
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index 00ec2ea..5f50332 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -53,7 +53,7 @@ namespace ezxml
             return XElementType::null;
         }
 
-        if( std::string{ myNode.text().as_string() }.length() > 0 )
+        if( getText().length() > 0 )
         {
             return XElementType::text;
         }
@@ -111,6 +111,24 @@ namespace ezxml
     }
 
 
+    std::string
+    PugiElement::getText() const
+    {
+        // comments and CDATA sections divide a text
+        std::string result;
+
+        for( const auto& child : myNode.children() )
+        {
+            if( child.type() == pugi::node_pcdata || child.type() == pugi::node_cdata )
+            {
+                result += child.value();
+            }
+        }
+
+        return result;
+    }
+
+
     std::string
     PugiElement::getValue() const
     {
@@ -125,7 +143,7 @@ namespace ezxml
         }
         else
         {
-            return std::string{ myNode.text().as_string() };
+            return getText();
         }
     }
 
@@ -164,8 +182,21 @@ namespace ezxml
         }
         else if( xetype == XElementType::text )
         {
-            auto it = myNode.begin();
-            it->set_value( value.c_str() );
+            auto text = myNode.text().data();
+            text.set_value( value.c_str() );
+
+            // the text may have been in several pieces
+            for( auto next = text.next_sibling(); next; )
+            {
+                const auto piece = next;
+                next = next.next_sibling();
+
+                if( piece.type() == pugi::node_pcdata || piece.type() == pugi::node_cdata )
+                {
+                    myNode.remove_child( piece );
+                }
+            }
+
             update();
             return;
         }
diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.h b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.h
index 46083ca..4cd3ee3 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.h
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.h
@@ -75,6 +75,7 @@ namespace ezxml
 
     private:
         void update();
+        std::string getText() const;
     };
 }
 
-- 
2.43.0


From 3dca8ed851885a5d0357c7b374aa6414cfff12f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 75/99] fix: a decimal set to 2^64 or more became zero or an
 arbitrary number

---
 Sourcecode/private/mx/core/Decimals.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/core/Decimals.cpp b/Sourcecode/private/mx/core/Decimals.cpp
index eb11eb8..87edf87 100644
--- a/Sourcecode/private/mx/core/Decimals.cpp
+++ b/Sourcecode/private/mx/core/Decimals.cpp
@@ -66,7 +66,10 @@ namespace mx
                 myIsNegative = false;
             }
 
-            const auto integer = static_cast<decltype( myInteger )>( inValue );
+            // a value that the storage type cannot hold must not be converted to it
+            constexpr auto storageMax = std::numeric_limits<decltype( myInteger )>::max();
+            const bool isStorable = inValue < static_cast<DecimalType>( storageMax );
+            const auto integer = isStorable ? static_cast<decltype( myInteger )>( inValue ) : storageMax;
             const bool isTooBig = integer > myMaxExpressibleInteger;
 
             if( isTooBig )
-- 
2.43.0


From 267ff182e675396d3a861b63117beae3e89645fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 76/99] fix: a positive decimal set to a tiny value was rounded
 to zero

---
 Sourcecode/private/mx/core/Decimals.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/Decimals.cpp b/Sourcecode/private/mx/core/Decimals.cpp
index 87edf87..e43fd7f 100644
--- a/Sourcecode/private/mx/core/Decimals.cpp
+++ b/Sourcecode/private/mx/core/Decimals.cpp
@@ -357,7 +357,8 @@ namespace mx
 
         DecimalType minExclusive( DecimalType min, DecimalType val )
         {
-            if( val <= min )
+            // anything nearer would be rounded to the excluded bound itself
+            if( val < min + NON_ZERO_AMOUNT )
             {
                 return min + NON_ZERO_AMOUNT;
             }
@@ -377,7 +378,8 @@ namespace mx
 
         DecimalType maxExclusive( DecimalType max, DecimalType val )
         {
-            if( val >= max )
+            // anything nearer would be rounded to the excluded bound itself
+            if( val > max - NON_ZERO_AMOUNT )
             {
                 return max - NON_ZERO_AMOUNT;
             }
-- 
2.43.0


From 0c085d00ba784a27094bed94641cbc6674964f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:07 +0000
Subject: [PATCH 77/99] fix: a list of positive integers made from a set was
 spaced at random

---
 Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp b/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
index a7c62c9..550d048 100644
--- a/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
+++ b/Sourcecode/private/mx/core/CommaSeparatedPositiveIntegers.cpp
@@ -35,6 +35,7 @@ namespace mx
         
         CommaSeparatedListOfPositiveIntegers::CommaSeparatedListOfPositiveIntegers( const std::set<int>& values )
         :myValues()
+        ,myIsSpacingDesired( false )
         {
             setValues( values );
         }
-- 
2.43.0


From 5c0fbeb510ff5becbe119288f8474370b98b89f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:20 +0000
Subject: [PATCH 78/99] fix: the word other as a custom type was lost

---
 Sourcecode/private/mx/core/Enums.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/core/Enums.cpp b/Sourcecode/private/mx/core/Enums.cpp
index 2fef857..20d117e 100644
--- a/Sourcecode/private/mx/core/Enums.cpp
+++ b/Sourcecode/private/mx/core/Enums.cpp
@@ -823,7 +823,7 @@ namespace mx
         void DistanceType::setValue( const std::string& value )
         {
             const auto temp = tryParseDistanceTypeEnum( value );
-            if ( temp )
+            if ( temp && temp.value() != DistanceTypeEnum::other )
             {
                 myEnum = temp.value();
                 myCustomValue = "";
@@ -985,7 +985,7 @@ namespace mx
         void DynamicsValue::setValue( const std::string& value )
         {
             const auto temp = tryParseDynamicsEnum( value );
-            if ( temp )
+            if ( temp && temp.value() != DynamicsEnum::otherDynamics )
             {
                 myEnum = temp.value();
                 myCustomValue = "";
@@ -1971,7 +1971,7 @@ namespace mx
         void LineWidthType::setValue( const std::string& value )
         {
             const auto temp = tryParseLineWidthTypeEnum( value );
-            if ( temp )
+            if ( temp && temp.value() != LineWidthTypeEnum::other )
             {
                 myEnum = temp.value();
                 myCustomValue = "";
@@ -2317,7 +2317,7 @@ namespace mx
         void ModeValue::setValue( const std::string& value )
         {
             const auto temp = tryParseModeEnum( value );
-            if ( temp )
+            if ( temp && temp.value() != ModeEnum::other )
             {
                 myEnum = temp.value();
                 myCustomValue = "";
-- 
2.43.0


From f6f60e732e41c4370fa60566800909eb4a0a66dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:04 +0000
Subject: [PATCH 79/99] fix: the name of the text element type was not
 recognized

---
 Sourcecode/private/mx/ezxml/src/include/ezxml/XElement.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Sourcecode/private/mx/ezxml/src/include/ezxml/XElement.h b/Sourcecode/private/mx/ezxml/src/include/ezxml/XElement.h
index eb25d8a..0552240 100644
--- a/Sourcecode/private/mx/ezxml/src/include/ezxml/XElement.h
+++ b/Sourcecode/private/mx/ezxml/src/include/ezxml/XElement.h
@@ -141,6 +141,10 @@ namespace ezxml
         {
             return XElementType::element;
         }
+        else if( inString == xElementTextString )
+        {
+            return XElementType::text;
+        }
 
         return XElementType::null;
     }
-- 
2.43.0


From 9aac50ef54a1b5d77f2161fad3ca1dca561beb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:04 +0000
Subject: [PATCH 80/99] fix: the parent of the root element could not be asked
 for

---
 .../mx/ezxml/src/private/private/PugiElement.cpp       | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index 5f50332..12ae91d 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -215,7 +215,15 @@ namespace ezxml
     {
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
-        return XElementPtr{ new PugiElement{ myNode.parent(), myXDoc.lock() } };
+        const auto parent = myNode.parent();
+
+        if( parent.type() != pugi::node_element )
+        {
+            // this is the root of the tree
+            return XElementPtr{ new PugiElement{} };
+        }
+
+        return XElementPtr{ new PugiElement{ parent, myXDoc.lock() } };
     }
 
 
-- 
2.43.0


From c668eb131eb118fdf410f04ca1bbedbe1f54e789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:04 +0000
Subject: [PATCH 81/99] fix: an element could be added beside the root element

---
 .../private/mx/ezxml/src/private/private/PugiElement.cpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index 12ae91d..610d377 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -350,6 +350,12 @@ namespace ezxml
     {
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
+
+        if( myNode.parent().type() != pugi::node_element )
+        {
+            EZXML_THROW( "a sibling cannot be added to the root element" );
+        }
+
         auto newNode = myNode.parent().insert_child_after( newElementName.c_str(), myNode );
         const auto result = XElementPtr{ new PugiElement{ newNode, myXDoc.lock() } };
         update();
-- 
2.43.0


From ec3e72c2f01cd6295920708fb619dac0a10e540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:04 +0000
Subject: [PATCH 82/99] fix: elements could be added to an element which has
 text

---
 .../mx/ezxml/src/private/private/PugiElement.cpp     | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index 610d377..05d5241 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -328,6 +328,12 @@ namespace ezxml
     {
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
+
+        if( getType() == XElementType::text )
+        {
+            EZXML_THROW( "the object cannot hold both elements and text" );
+        }
+
         const auto result = XElementPtr{ new PugiElement{ myNode.append_child( name.c_str() ), myXDoc.lock() } };
         update();
         return result;
@@ -339,6 +345,12 @@ namespace ezxml
     {
         EZXML_CHECK_NULL_NODE;
         EZXML_CHECK_NODE_ELEMENT;
+
+        if( getType() == XElementType::text )
+        {
+            EZXML_THROW( "the object cannot hold both elements and text" );
+        }
+
         const auto result = XElementPtr{ new PugiElement{ myNode.prepend_child( name.c_str() ), myXDoc.lock() } };
         update();
         return result;
-- 
2.43.0


From ac88c29f674aea97b9c5e1617781457680f9782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 83/99] fix: the value of a processing instruction could not be
 set

---
 .../private/mx/ezxml/src/private/private/PugiElement.cpp  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index 05d5241..cb5a79d 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -167,6 +167,14 @@ namespace ezxml
         {
             return;
         }
+
+        if( getIsProcessingInstruction() )
+        {
+            myNode.set_value( value.c_str() );
+            update();
+            return;
+        }
+
         XElementType xetype = getType();
 
         if( xetype == XElementType::element )
-- 
2.43.0


From b8897074f6ea4ede2355ef98683d5a3ac0c31951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 84/99] fix: an empty text hid the elements added after it

---
 .../mx/ezxml/src/private/private/PugiElement.cpp   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index cb5a79d..d84392a 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -183,8 +183,13 @@ namespace ezxml
         }
         else if( xetype == XElementType::empty )
         {
-            auto newnode = myNode.prepend_child( pugi::node_pcdata );
-            newnode.set_value( value.c_str() );
+            // an empty text is no text: it would hide elements which are added later
+            if( !value.empty() )
+            {
+                auto newnode = myNode.prepend_child( pugi::node_pcdata );
+                newnode.set_value( value.c_str() );
+            }
+
             update();
             return;
         }
@@ -205,6 +210,11 @@ namespace ezxml
                 }
             }
 
+            if( value.empty() )
+            {
+                myNode.remove_child( text );
+            }
+
             update();
             return;
         }
-- 
2.43.0


From 8beaab6c34ed11685e629a527aa6533ac2ffcec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 85/99] fix: removing a child element removed a processing
 instruction of the same name

---
 .../mx/ezxml/src/private/private/PugiElement.cpp  | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
index d84392a..cc36825 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiElement.cpp
@@ -396,9 +396,18 @@ namespace ezxml
     bool
     PugiElement::removeChild( const std::string& elementName )
     {
-        const auto result = myNode.remove_child( elementName.c_str() );
-        update();
-        return result;
+        for( const auto& child : myNode.children( elementName.c_str() ) )
+        {
+            // a processing instruction may have the same name
+            if( child.type() == pugi::node_element )
+            {
+                const auto result = myNode.remove_child( child );
+                update();
+                return result;
+            }
+        }
+
+        return false;
     }
 
 
-- 
2.43.0


From f548680608bd472d43938ef86520604565144e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 86/99] fix: a document type after a processing instruction was
 not found

---
 .../mx/ezxml/src/private/private/PugiDoc.cpp  | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
index de22ba2..b77467e 100644
--- a/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
+++ b/Sourcecode/private/mx/ezxml/src/private/private/PugiDoc.cpp
@@ -547,24 +547,16 @@ namespace ezxml
             return pugi::xml_node{};
         }
 
-        auto childrenIter = myDoc.begin();
-        if( childrenIter == myDoc.end() )
+        // processing instructions may come before it
+        for( auto childrenIter = myDoc.begin(); childrenIter != myDoc.end(); ++childrenIter )
         {
-            return pugi::xml_node{};
-        }
-        if( childrenIter->type() == pugi::node_declaration )
-        {
-            ++childrenIter;
-        }
-        if( childrenIter == myDoc.end() ||
-            childrenIter->type() != pugi::node_doctype )
-        {
-            return pugi::xml_node{};
-        }
-        else
-        {
-            return *childrenIter;
+            if( childrenIter->type() == pugi::node_doctype )
+            {
+                return *childrenIter;
+            }
         }
+
+        return pugi::xml_node{};
     }
 
 
-- 
2.43.0


From 9960654fe6b85270ce1be4a54ba2f67e778fe222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:40 +0000
Subject: [PATCH 87/99] fix: a tuplet without dots was read differently after
 it was written

---
 Sourcecode/private/mx/impl/TupletReader.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/impl/TupletReader.cpp b/Sourcecode/private/mx/impl/TupletReader.cpp
index 6b1b8d5..d03a200 100644
--- a/Sourcecode/private/mx/impl/TupletReader.cpp
+++ b/Sourcecode/private/mx/impl/TupletReader.cpp
@@ -147,7 +147,10 @@ namespace mx
                 const auto& grp = *timeMod.getNormalTypeNormalDotGroup();
                 const auto durName = converter.convert( grp.getNormalType()->getValue() );
                 outTupletStart.normalDurationName = durName;
-                outTupletStart.normalDots = static_cast<int>( grp.getNormalDotSet().size() );
+                if( grp.getNormalDotSet().size() > 0 )
+                {
+                    outTupletStart.normalDots = static_cast<int>( grp.getNormalDotSet().size() );
+                }
             }
             else if ( myNote.getHasType() )
             {
@@ -172,7 +175,10 @@ namespace mx
                 const auto& grp = *timeMod.getNormalTypeNormalDotGroup();
                 const auto durName = converter.convert( grp.getNormalType()->getValue() );
                 outTupletStart.actualDurationName = durName;
-                outTupletStart.actualDots = static_cast<int>( grp.getNormalDotSet().size() );
+                if( grp.getNormalDotSet().size() > 0 )
+                {
+                    outTupletStart.actualDots = static_cast<int>( grp.getNormalDotSet().size() );
+                }
             }
             else if ( myNote.getHasType() )
             {
-- 
2.43.0


From eb9822a77aa9b5bbc9045a3055ea45ce3f78d1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:40 +0000
Subject: [PATCH 88/99] fix: a multiple measure rest was not written

---
 Sourcecode/private/mx/impl/MeasureWriter.cpp    |  5 +++++
 Sourcecode/private/mx/impl/PropertiesWriter.cpp | 12 ++++++++++++
 Sourcecode/private/mx/impl/PropertiesWriter.h   |  1 +
 3 files changed, 18 insertions(+)

diff --git a/Sourcecode/private/mx/impl/MeasureWriter.cpp b/Sourcecode/private/mx/impl/MeasureWriter.cpp
index 0ddf66a..5a31829 100644
--- a/Sourcecode/private/mx/impl/MeasureWriter.cpp
+++ b/Sourcecode/private/mx/impl/MeasureWriter.cpp
@@ -234,6 +234,11 @@ namespace mx
                 myPropertiesWriter->writeTime( myMeasureData.timeSignature );
             }
             
+            if( myMeasureData.multiMeasureRest > 0 )
+            {
+                myPropertiesWriter->writeMultiMeasureRest( myMeasureData.multiMeasureRest );
+            }
+            
             int localStaffCounter = 0;
             
             for( const auto& staff : myMeasureData.staves )
diff --git a/Sourcecode/private/mx/impl/PropertiesWriter.cpp b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
index 12e4c3c..f04211c 100644
--- a/Sourcecode/private/mx/impl/PropertiesWriter.cpp
+++ b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
@@ -15,6 +15,8 @@
 #include "mx/core/elements/Key.h"
 #include "mx/core/elements/Level.h"
 #include "mx/core/elements/MeasureStyle.h"
+#include "mx/core/elements/MultipleRest.h"
+#include "mx/core/elements/MeasureStyleChoice.h"
 #include "mx/core/elements/PartSymbol.h"
 #include "mx/core/elements/StaffDetails.h"
 #include "mx/core/elements/Staves.h"
@@ -256,6 +258,16 @@ namespace mx
         }
         
         
+        void PropertiesWriter::writeMultiMeasureRest( int value )
+        {
+            auto measureStyle = core::makeMeasureStyle();
+            auto choice = measureStyle->getMeasureStyleChoice();
+            choice->setChoice( core::MeasureStyleChoice::Choice::multipleRest );
+            choice->getMultipleRest()->setValue( core::PositiveIntegerOrEmpty{ core::PositiveInteger{ value } } );
+            myProperties->addMeasureStyle( measureStyle );
+        }
+        
+        
         void PropertiesWriter::writeClef( int staffIndex, const api::ClefData& inClefData )
         {
             auto mxClef = core::makeClef();
diff --git a/Sourcecode/private/mx/impl/PropertiesWriter.h b/Sourcecode/private/mx/impl/PropertiesWriter.h
index 5ca3093..7a664b9 100644
--- a/Sourcecode/private/mx/impl/PropertiesWriter.h
+++ b/Sourcecode/private/mx/impl/PropertiesWriter.h
@@ -58,6 +58,7 @@ namespace mx
             static void writeNonTraditionalKey( const api::KeyData& inKeyData, mx::core::KeyPtr& ioKey );
             void writeTime( const api::TimeSignatureData& value );
             void writeNumStaves( int value );
+            void writeMultiMeasureRest( int value );
             void writeClef( int staffIndex, const api::ClefData& inClefData );
             void writeTranspose( const api::TransposeData& inTransposeData );
 
-- 
2.43.0


From 60217aeb1a455d4c9fccf83342bba451d3650004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:40 +0000
Subject: [PATCH 89/99] fix: a clef's place before or after the barline was not
 written

---
 Sourcecode/private/mx/impl/PropertiesWriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Sourcecode/private/mx/impl/PropertiesWriter.cpp b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
index f04211c..1c06fda 100644
--- a/Sourcecode/private/mx/impl/PropertiesWriter.cpp
+++ b/Sourcecode/private/mx/impl/PropertiesWriter.cpp
@@ -292,6 +292,12 @@ namespace mx
                 mxClef->setHasClefOctaveChange( true );
                 mxClef->getClefOctaveChange()->setValue( core::Integer{ inClefData.octaveChange } );
             }
+            if( inClefData.location == api::ClefLocation::afterBarline || inClefData.location == api::ClefLocation::beforeBarline )
+            {
+                mxClef->getAttributes()->hasAfterBarline = true;
+                mxClef->getAttributes()->afterBarline = inClefData.location == api::ClefLocation::afterBarline ? core::YesNo::yes : core::YesNo::no;
+            }
+            
             myProperties->addClef( mxClef );
         }
 
-- 
2.43.0


From ffeb374d266cc12a6b9118327eaef993653286e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:40 +0000
Subject: [PATCH 90/99] fix: a continued wedge was written as a crescendo

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index 2016a6a..d36ff03 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -191,10 +191,7 @@ namespace mx
                 auto wedgePtr = wedgeStartDirectionTypePtr->getWedge();
                 auto& attr = *wedgePtr->getAttributes();
 
-                if( wedgeStart.wedgeType != api::WedgeType::unspecified )
-                {
-                    attr.type = myConverter.convert( wedgeStart.wedgeType );
-                }
+                attr.type = myConverter.convert( wedgeStart.wedgeType );
 
                 if( wedgeStart.numberLevel > 0 )
                 {
-- 
2.43.0


From 8b9ea36909eb2533308c7db1852988194bd0e2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:40 +0000
Subject: [PATCH 91/99] fix: a score with a metronome other than beats per
 minute could not be written again

---
 Sourcecode/private/mx/impl/DirectionWriter.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Sourcecode/private/mx/impl/DirectionWriter.cpp b/Sourcecode/private/mx/impl/DirectionWriter.cpp
index d36ff03..781b6d7 100644
--- a/Sourcecode/private/mx/impl/DirectionWriter.cpp
+++ b/Sourcecode/private/mx/impl/DirectionWriter.cpp
@@ -286,9 +286,16 @@ namespace mx
 
             for( const auto& tempo : myDirectionData.tempos )
             {
-                if( tempo.tempoType != api::TempoType::beatsPerMinute )
+                if( tempo.tempoType == api::TempoType::unspecified )
                 {
-                    MX_THROW( "Only api::TempoType::beatsPerMinute is supported, others are not implemented" );
+                    continue;
+                }
+                
+                const bool isText = tempo.tempoType == api::TempoType::tempoText;
+                
+                if( tempo.tempoType != api::TempoType::beatsPerMinute && !isText )
+                {
+                    MX_THROW( "Only api::TempoType::beatsPerMinute and tempoText are supported, others are not implemented" );
                 }
                 
                 auto outDirType = core::makeDirectionType();
@@ -311,7 +318,7 @@ namespace mx
                 auto pmobuc = bpm->getPerMinuteOrBeatUnitChoice();
                 pmobuc->setChoice( core::PerMinuteOrBeatUnitChoice::Choice::perMinute );
                 auto pm = pmobuc->getPerMinute();
-                auto str = std::to_string( tempo.beatsPerMinute.beatsPerMinute );
+                auto str = isText ? tempo.tempoText.tempoText : std::to_string( tempo.beatsPerMinute.beatsPerMinute );
                 pm->setValue( core::XsString{ str } );
                 auto& attr = *outElement->getAttributes();
                 setAttributesFromPositionData( tempo.positionData, attr );
-- 
2.43.0


From 2fae45813f50506eb02a9f63a486365313d1fbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:40 +0000
Subject: [PATCH 92/99] fix: the font and color of articulations, ornaments and
 technical marks were not written

---
 .../private/mx/impl/NotationsWriter.cpp       | 86 +++++++++----------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/Sourcecode/private/mx/impl/NotationsWriter.cpp b/Sourcecode/private/mx/impl/NotationsWriter.cpp
index 5e1758f..1ef9e99 100644
--- a/Sourcecode/private/mx/impl/NotationsWriter.cpp
+++ b/Sourcecode/private/mx/impl/NotationsWriter.cpp
@@ -446,91 +446,91 @@ namespace mx
             {
                 auto element = articulationsChoice->getAccent();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::strongAccent )
             {
                 auto element = articulationsChoice->getStrongAccent();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::staccato )
             {
                 auto element = articulationsChoice->getStaccato();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::tenuto )
             {
                 auto element = articulationsChoice->getTenuto();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::detachedLegato )
             {
                 auto element = articulationsChoice->getDetachedLegato();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::staccatissimo )
             {
                 auto element = articulationsChoice->getStaccatissimo();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::spiccato )
             {
                 auto element = articulationsChoice->getSpiccato();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::scoop )
             {
                 auto element = articulationsChoice->getScoop();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::plop )
             {
                 auto element = articulationsChoice->getPlop();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::doit )
             {
                 auto element = articulationsChoice->getDoit();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::falloff )
             {
                 auto element = articulationsChoice->getFalloff();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::breathMark )
             {
                 auto element = articulationsChoice->getBreathMark();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::caesura )
             {
                 auto element = articulationsChoice->getCaesura();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::stress )
             {
                 auto element = articulationsChoice->getStress();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::unstress )
             {
                 auto element = articulationsChoice->getUnstress();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( api::isMarkCustom( mark.markType ) )
             {
@@ -538,14 +538,14 @@ namespace mx
                 auto element = articulationsChoice->getOtherArticulation();
                 element->setValue( core::XsString{ customName } );
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::otherArticulation )
             {
                 auto element = articulationsChoice->getOtherArticulation();
                 element->setValue( core::XsString{ mark.name } );
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
         }
 
@@ -566,67 +566,67 @@ namespace mx
             {
                 auto element = ornamentsChoice->getTrillMark();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::turn )
             {
                 auto element = ornamentsChoice->getTurn();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::delayedTurn )
             {
                 auto element = ornamentsChoice->getDelayedTurn();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::invertedTurn )
             {
                 auto element = ornamentsChoice->getInvertedTurn();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::delayedInvertedTurn )
             {
                 auto element = ornamentsChoice->getDelayedInvertedTurn();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::verticalTurn )
             {
                 auto element = ornamentsChoice->getVerticalTurn();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::shake )
             {
                 auto element = ornamentsChoice->getShake();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::wavyLine )
             {
                 auto element = ornamentsChoice->getWavyLine();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::mordent )
             {
                 auto element = ornamentsChoice->getMordent();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::invertedMordent )
             {
                 auto element = ornamentsChoice->getInvertedMordent();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::schleifer )
             {
                 auto element = ornamentsChoice->getSchleifer();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( isMarkTremolo( mark.markType ) )
             {
@@ -635,7 +635,7 @@ namespace mx
                 auto attributes = element->getAttributes();
                 attributes->hasType = true;
                 attributes->type = mx::core::StartStopSingle::single;
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
                 element->setValue( mx::core::TremoloMarks{ api::numTremoloSlashes( mark.markType ) } );
             }
             else if( api::isMarkCustom( mark.markType ) )
@@ -648,7 +648,7 @@ namespace mx
             {
                 auto element = ornamentsChoice->getOtherOrnament();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
 
                 if( !mark.name.empty() )
                 {
@@ -673,80 +673,80 @@ namespace mx
             {
                 auto element = technicalChoice->getUpBow();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::downBow )
             {
                 auto element = technicalChoice->getDownBow();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::harmonic )
             {
                 auto element = technicalChoice->getHarmonic();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::openString )
             {
                 auto element = technicalChoice->getOpenString();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::thumbPosition )
             {
                 auto element = technicalChoice->getThumbPosition();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::doubleTongue )
             {
                 auto element = technicalChoice->getDoubleTongue();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::tripleTongue )
             {
                 auto element = technicalChoice->getTripleTongue();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::stopped )
             {
                 auto element = technicalChoice->getStopped();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::snapPizzicato )
             {
                 auto element = technicalChoice->getSnapPizzicato();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::heel )
             {
                 auto element = technicalChoice->getHeel();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::toe )
             {
                 auto element = technicalChoice->getToe();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( mark.markType == api::MarkType::fingernails )
             {
                 auto element = technicalChoice->getFingernails();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
             }
             else if( ( mark.markType == api::MarkType::unknownTechnical ) ||
                     ( mark.markType == api::MarkType::otherTechnical ) )
             {
                 auto element = technicalChoice->getOtherTechnical();
                 auto attributes = element->getAttributes();
-                setAttributesFromPositionData( mark.positionData, *attributes);
+                setAttributesFromMarkData( mark, *attributes );
 
                 if( !mark.name.empty() )
                 {
-- 
2.43.0


From 8f7a41c38f20085372e583dfd93e7fc98ce17640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:12 +0000
Subject: [PATCH 93/99] fix: a score with a metronome that relates notes could
 not be read

---
 Sourcecode/private/mx/impl/MetronomeReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sourcecode/private/mx/impl/MetronomeReader.cpp b/Sourcecode/private/mx/impl/MetronomeReader.cpp
index b9d00c7..5799426 100644
--- a/Sourcecode/private/mx/impl/MetronomeReader.cpp
+++ b/Sourcecode/private/mx/impl/MetronomeReader.cpp
@@ -100,7 +100,7 @@ namespace mx
         
         void MetronomeReader::parseNoteRelationNote() const
         {
-            MX_THROW( "wtf is this" );
+            // the api has no data for a metronome that relates notes, the tempo's type remains unspecified
         }
         
         
-- 
2.43.0


From e221282ac3c1c5b18db1ceab5260194d67821a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:10 +0000
Subject: [PATCH 94/99] fix: a midi instrument did not point to the instrument
 that was made for it

---
 Sourcecode/private/mx/impl/PartWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/private/mx/impl/PartWriter.cpp b/Sourcecode/private/mx/impl/PartWriter.cpp
index 21956ad..290359a 100644
--- a/Sourcecode/private/mx/impl/PartWriter.cpp
+++ b/Sourcecode/private/mx/impl/PartWriter.cpp
@@ -238,6 +238,7 @@ namespace mx
                     ss << "ID";
                     ss << api::DocumentManager::getInstance().getUniqueId();
                     scoreIntstrument->getAttributes()->id = core::XsID{ ss.str() };
+                    midiInstrument.getAttributes()->id = scoreIntstrument->getAttributes()->id;
                 }
                 else
                 {
-- 
2.43.0


From 0be1984b0dbd5d0518676cb08eb2822ba37833e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:25 +0000
Subject: [PATCH 95/99] fix: keys and barlines that were not in the order of
 their times were written late

---
 Sourcecode/private/mx/api/ScoreData.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/Sourcecode/private/mx/api/ScoreData.cpp b/Sourcecode/private/mx/api/ScoreData.cpp
index 33ed7d0..38f426b 100644
--- a/Sourcecode/private/mx/api/ScoreData.cpp
+++ b/Sourcecode/private/mx/api/ScoreData.cpp
@@ -70,6 +70,19 @@ namespace mx
             {
                 for( auto& measure : part.measures )
                 {
+                    const auto keyCompare = [&]( const KeyData& inLeft, const KeyData& inRight )
+                    {
+                        return inLeft.tickTimePosition < inRight.tickTimePosition;
+                    };
+
+                    const auto barlineCompare = [&]( const BarlineData& inLeft, const BarlineData& inRight )
+                    {
+                        return inLeft.tickTimePosition < inRight.tickTimePosition;
+                    };
+
+                    std::stable_sort( std::begin( measure.keys ), std::end( measure.keys ), keyCompare );
+                    std::stable_sort( std::begin( measure.barlines ), std::end( measure.barlines ), barlineCompare );
+
                     for ( auto& staff : measure.staves )
                     {
 
@@ -79,6 +92,7 @@ namespace mx
                         };
 
                         std::stable_sort( std::begin( staff.clefs ), std::end( staff.clefs ), clefCompare );
+                        std::stable_sort( std::begin( staff.keys ), std::end( staff.keys ), keyCompare );
 
                         const auto directionCompare = [&]( const DirectionData& inLeft, const DirectionData& inRight )
                         {
-- 
2.43.0


From 1b401ecc08dbfd6b7982a0fe34a63a725ce31a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:08 +0000
Subject: [PATCH 96/99] fix: a time or a metronome was left without its content
 when that was set to nothing

---
 .../mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp | 5 ++++-
 Sourcecode/private/mx/core/elements/Time.cpp                 | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp b/Sourcecode/private/mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp
index 6dee9d5..5f61084 100644
--- a/Sourcecode/private/mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp
+++ b/Sourcecode/private/mx/core/elements/BeatUnitPerOrNoteRelationNoteChoice.cpp
@@ -100,7 +100,10 @@ namespace mx
 
         void BeatUnitPerOrNoteRelationNoteChoice::setNoteRelationNote( const NoteRelationNotePtr& value )
         {
-            myNoteRelationNote = value;
+            if ( value )
+            {
+                myNoteRelationNote = value;
+            }
         }
 
 
diff --git a/Sourcecode/private/mx/core/elements/Time.cpp b/Sourcecode/private/mx/core/elements/Time.cpp
index ebb7e62..74a2940 100644
--- a/Sourcecode/private/mx/core/elements/Time.cpp
+++ b/Sourcecode/private/mx/core/elements/Time.cpp
@@ -77,7 +77,10 @@ namespace mx
 
         void Time::setTimeChoice( const TimeChoicePtr& value )
         {
-            myChoice = value;
+            if ( value )
+            {
+                myChoice = value;
+            }
         }
 
 
-- 
2.43.0


From 9adac4f33378db864f0f520fe44c4476cb2c0571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:08 +0000
Subject: [PATCH 97/99] fix: a display name gave a text for a place past its
 last one

---
 .../private/mx/core/elements/GroupAbbreviationDisplay.cpp       | 2 +-
 Sourcecode/private/mx/core/elements/GroupNameDisplay.cpp        | 2 +-
 Sourcecode/private/mx/core/elements/PartAbbreviationDisplay.cpp | 2 +-
 Sourcecode/private/mx/core/elements/PartNameDisplay.cpp         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Sourcecode/private/mx/core/elements/GroupAbbreviationDisplay.cpp b/Sourcecode/private/mx/core/elements/GroupAbbreviationDisplay.cpp
index e156703..a472a39 100644
--- a/Sourcecode/private/mx/core/elements/GroupAbbreviationDisplay.cpp
+++ b/Sourcecode/private/mx/core/elements/GroupAbbreviationDisplay.cpp
@@ -110,7 +110,7 @@ namespace mx
             {
                 return *setIterator;
             }
-            return makeDisplayTextOrAccidentalText();
+            return DisplayTextOrAccidentalTextPtr();
         }
 
         
diff --git a/Sourcecode/private/mx/core/elements/GroupNameDisplay.cpp b/Sourcecode/private/mx/core/elements/GroupNameDisplay.cpp
index f3003ff..de565dd 100644
--- a/Sourcecode/private/mx/core/elements/GroupNameDisplay.cpp
+++ b/Sourcecode/private/mx/core/elements/GroupNameDisplay.cpp
@@ -110,7 +110,7 @@ namespace mx
             {
                 return *setIterator;
             }
-            return makeDisplayTextOrAccidentalText();
+            return DisplayTextOrAccidentalTextPtr();
         }
         
         
diff --git a/Sourcecode/private/mx/core/elements/PartAbbreviationDisplay.cpp b/Sourcecode/private/mx/core/elements/PartAbbreviationDisplay.cpp
index bf3d935..8c3d305 100644
--- a/Sourcecode/private/mx/core/elements/PartAbbreviationDisplay.cpp
+++ b/Sourcecode/private/mx/core/elements/PartAbbreviationDisplay.cpp
@@ -113,7 +113,7 @@ namespace mx
             {
                 return *setIterator;
             }
-            return makeDisplayTextOrAccidentalText();
+            return DisplayTextOrAccidentalTextPtr();
         }
 
         
diff --git a/Sourcecode/private/mx/core/elements/PartNameDisplay.cpp b/Sourcecode/private/mx/core/elements/PartNameDisplay.cpp
index 33c73fc..1e35484 100644
--- a/Sourcecode/private/mx/core/elements/PartNameDisplay.cpp
+++ b/Sourcecode/private/mx/core/elements/PartNameDisplay.cpp
@@ -113,7 +113,7 @@ namespace mx
             {
                 return *setIterator;
             }
-            return makeDisplayTextOrAccidentalText();
+            return DisplayTextOrAccidentalTextPtr();
         }
         
         
-- 
2.43.0


From d8f702cddc43c2cffcdc6dedf9837c1e8b6f59bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:08 +0000
Subject: [PATCH 98/99] fix: clearing the parts of a timewise measure left none

---
 Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp b/Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp
index bd546f5..436834d 100644
--- a/Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp
+++ b/Sourcecode/private/mx/core/elements/TimewiseMeasure.cpp
@@ -106,6 +106,7 @@ namespace mx
         void TimewiseMeasure::clearTimewisePartSet()
         {
             myTimewisePartSet.clear();
+            myTimewisePartSet.push_back( makeTimewisePart() );
         }
 
 
-- 
2.43.0


From 7c0545ff9446d7c02930a12961ab41d65015aa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:23 +0000
Subject: [PATCH 99/99] fix: the texts of a notehead could not be looked up

---
 Sourcecode/private/mx/core/elements/NoteheadText.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Sourcecode/private/mx/core/elements/NoteheadText.cpp b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
index c9ef69f..b9a66f3 100644
--- a/Sourcecode/private/mx/core/elements/NoteheadText.cpp
+++ b/Sourcecode/private/mx/core/elements/NoteheadText.cpp
@@ -89,6 +89,16 @@ namespace mx
         }
 
 
+        NoteheadTextChoicePtr NoteheadText::getNoteheadTextChoice( const NoteheadTextChoiceSetIterConst& setIterator ) const
+        {
+            if( setIterator != myNoteheadTextChoiceSet.cend() )
+            {
+                return *setIterator;
+            }
+            return NoteheadTextChoicePtr();
+        }
+
+
         bool NoteheadText::fromXElementImpl( std::ostream& message, ::ezxml::XElement& xelement )
         {
             bool isSuccess = true;
-- 
2.43.0

