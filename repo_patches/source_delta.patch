From c9769d81ba860b65fac6c438e07b76f651f9383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:43 +0000
Subject: [PATCH 01/55] fix: add the missing message for KFileTooLarge to the
 status table

Without it every later status printed its successor's message and the last
one was read past the end of the table.
---
 Code/Json4C4/C4Json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 4181333..88ef558 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -502,6 +502,7 @@ namespace C4
         static const char* const StatusString[] = { "Ok",
                                                     "Could not open file",
                                                     "Could not read file",
+                                                    "File is too large",
                                                     "Invalid JSON text",
                                                     "Unterminated text buffer",
                                                     "Expected opening curly braces",
-- 
2.43.0


From 30dbe13f4e4c939becdc8b50c819404e3864a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:16 +0000
Subject: [PATCH 02/55] fix: accept only RFC 8259 number literals

Signs other than a leading minus, blanks after the sign, missing digits
around the decimal point or in the exponent, and garbage after the part
strtod understood (such as 1-1 or 1.5.5) were silently accepted.
---
 Code/Json4C4/C4Json.cpp | 62 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 7 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 88ef558..c031a71 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -803,6 +803,56 @@ namespace C4
             return ( Status::kOk );
         }
 
+        // Checks that a complete literal follows the (unsigned) number grammar of RFC 8259: int [ frac ] [ exp ]
+        bool IsValidFloatLiteral( const char* text, int32 length ) noexcept
+        {
+            const char* end = text + length;
+
+            auto skipDigits = [ & ]() noexcept
+            {
+                const char* begin = text;
+
+                while ( text != end && text[ 0 ] >= '0' && text[ 0 ] <= '9' )
+                {
+                    text++;
+                }
+
+                return text != begin;
+            };
+
+            if ( !skipDigits() )
+            {
+                return false;
+            }
+
+            if ( text != end && text[ 0 ] == '.' )
+            {
+                text++;
+
+                if ( !skipDigits() )
+                {
+                    return false;
+                }
+            }
+
+            if ( text != end && ( text[ 0 ] == 'e' || text[ 0 ] == 'E' ) )
+            {
+                text++;
+
+                if ( text != end && ( text[ 0 ] == '+' || text[ 0 ] == '-' ) )
+                {
+                    text++;
+                }
+
+                if ( !skipDigits() )
+                {
+                    return false;
+                }
+            }
+
+            return text == end;
+        }
+
         Status ReadDoubleLiteral( const char* text, int32* textLength, double* value )
         {
 #ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
@@ -821,6 +871,11 @@ namespace C4
                 }
             }
 
+            if ( !IsValidFloatLiteral( text, *textLength ) )
+            {
+                return ( Status::kFloatInvalid );
+            }
+
             char* str = new char[ ( *textLength ) + 1 ];
 
             Text::CopyText( text, str, *textLength );
@@ -997,16 +1052,9 @@ namespace C4
             if ( c == '-' )
             {
                 text++;
-                text += ComputeWhitespaceLength( text );
                 return ( true );
             }
 
-            if ( c == '+' )
-            {
-                text++;
-                text += ComputeWhitespaceLength( text );
-            }
-
             return ( false );
         }
 
-- 
2.43.0


From 13cb94a56543d46dba7c2b8ae628d9a0ef2af446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:20 +0000
Subject: [PATCH 03/55] fix: do not report 0e1 as a number with leading zeros

A zero integer part may be followed by an exponent.
---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index c031a71..fb32eff 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -865,7 +865,7 @@ namespace C4
 
             if ( text[ 0 ] == '0' )
             {
-                if ( *textLength > 1 && text[ 1 ] != '.' )
+                if ( *textLength > 1 && text[ 1 ] >= '0' && text[ 1 ] <= '9' )
                 {
                     return ( Status::kNumbersCannotHaveLeadingZeros );
                 }
-- 
2.43.0


From 448ddaac02cc268216219d0b4a60f0c53e81ab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:24 +0000
Subject: [PATCH 04/55] fix: accept documents of a single character

A lone digit is a complete JSON text; only an empty text is too short.
---
 Code/Json4C4/C4Json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index fb32eff..65d95da 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1741,7 +1741,7 @@ namespace C4
 
         Status ParseJsonRoot( Value*& jsonRoot, const Array<char>& nullTerminatedCharArray, int32* errorLine, int32* errorColumn ) noexcept
         {
-            if ( nullTerminatedCharArray.GetArrayElementCount() < 3 )
+            if ( nullTerminatedCharArray.GetArrayElementCount() < 2 )
             {
                 return Status::kTextBufferContentsInvalid;
             }
@@ -1834,7 +1834,7 @@ namespace C4
 
         ParseResult StructuredData::Parse( const Array<char>& nullTerminatedTextBuffer ) noexcept
         {
-            if ( nullTerminatedTextBuffer.GetArrayElementCount() < 3 )
+            if ( nullTerminatedTextBuffer.GetArrayElementCount() < 2 )
             {
                 return ParseResult { Status::kTextBufferContentsInvalid, 0, 0 };
             }
-- 
2.43.0


From 64d4780e9f29a4df2aa990759dc894401902c9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:29 +0000
Subject: [PATCH 05/55] fix: accept U+007F inside strings

RFC 8259 only excludes the characters below U+0020 from strings.
---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 65d95da..5e9cbb9 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -751,7 +751,7 @@ namespace C4
                     break;
                 }
 
-                if ( ( c < 32U ) || ( c == 127U ) )
+                if ( c < 32U )
                 {
                     return ( Status::kStringIllegalChar );
                 }
-- 
2.43.0


From 19e2af84d76032cbc5db4d962e1f2ff3477376f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:33 +0000
Subject: [PATCH 06/55] fix: combine escaped surrogate pairs into one character

\uD83D\uDE00 became two three-byte surrogates, which is not UTF-8.
---
 Code/Json4C4/C4Json.cpp | 55 +++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 5e9cbb9..32d6667 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -673,6 +673,36 @@ namespace C4
             return ( 0 );
         }
 
+        bool ReadUnicodeEscapeCode( const uint8* byte, uint32* value ) noexcept
+        {
+            if ( byte[ 0 ] != 'u' )
+            {
+                return ( false );
+            }
+
+            uint32 code = 0;
+
+            for ( machine a = 1; a <= 4; a++ )
+            {
+                uint32 c = byte[ a ] - '0';
+                if ( c >= 55U )
+                {
+                    return ( false );
+                }
+
+                int32 x = hexadecimalCharValue[ c ];
+                if ( x < 0 )
+                {
+                    return ( false );
+                }
+
+                code = ( code << 4 ) | x;
+            }
+
+            *value = code;
+            return ( true );
+        }
+
         int32 ReadStringEscapeChar( const char* text, int32* stringLength, char* restrict string ) noexcept
         {
             const uint8* byte = reinterpret_cast<const uint8*>( text );
@@ -681,36 +711,29 @@ namespace C4
             if ( c == 'u' )
             {
                 uint32 code = 0;
+                uint32 low  = 0;
 
-                for ( machine a = 1; a <= 4; a++ )
+                if ( ReadUnicodeEscapeCode( byte, &code ) && code != 0 )
                 {
-                    c = byte[ a ] - '0';
-                    if ( c >= 55U )
-                    {
-                        return ( 0 );
-                    }
+                    int32 textLength = 5;
 
-                    int32 x = hexadecimalCharValue[ c ];
-                    if ( x < 0 )
+                    // A high surrogate followed by an escaped low surrogate denotes a single character
+                    if ( code >= 0xD800 && code <= 0xDBFF && byte[ 5 ] == '\\' && ReadUnicodeEscapeCode( byte + 6, &low ) && low >= 0xDC00 && low <= 0xDFFF )
                     {
-                        return ( 0 );
+                        code       = 0x010000 + ( ( code - 0xD800 ) << 10 ) + ( low - 0xDC00 );
+                        textLength = 11;
                     }
 
-                    code = ( code << 4 ) | x;
-                }
-
-                if ( code != 0 )
-                {
                     if ( string )
                     {
                         *stringLength = Text::WriteUnicodeChar( string, code );
                     }
                     else
                     {
-                        *stringLength = 1 + ( code >= 0x000080 ) + ( code >= 0x000800 );
+                        *stringLength = 1 + ( code >= 0x000080 ) + ( code >= 0x000800 ) + ( code >= 0x010000 );
                     }
 
-                    return ( 5 );
+                    return ( textLength );
                 }
             }
             else
-- 
2.43.0


From f45d07749774ace3acaad53c5cfdeefaa564f494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 07/55] fix: reject text that follows an embedded null
 character

Everything after the first null character that followed the root value was
ignored, so {}<NUL>garbage was a valid document.
---
 Code/Json4C4/C4Json.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 32d6667..dd6da66 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1782,9 +1782,17 @@ namespace C4
             Status status = ParseAnyValue( jsonRoot, text );
 
             text += ComputeWhitespaceLength( text );
-            if ( status == Status::kOk && text[ 0 ] != 0 )
+            if ( status == Status::kOk )
             {
-                status = Status::kExpectedEndOfFile;
+                // Only the terminator (and any padding that repeats it) may follow the root value
+                for ( const char* rest = text; rest != nullTerminatedCharArray.end(); rest++ )
+                {
+                    if ( rest[ 0 ] != 0 )
+                    {
+                        status = Status::kExpectedEndOfFile;
+                        break;
+                    }
+                }
             }
 
             if ( status != Status::kOk )
-- 
2.43.0


From 18674cf8c774459b37a3e8d2c21e6a2cf3785415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:18 +0000
Subject: [PATCH 08/55] fix: count error lines and columns from the start of
 the text

Leading blanks were left out of the count, and blanks at the start of an
erroneous string moved the reported position past its beginning.
---
 Code/Json4C4/C4Json.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index dd6da66..eb79a3e 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1774,16 +1774,17 @@ namespace C4
                 return Status::kUnterminatedTextBuffer;
             }
 
-            const char* text = &nullTerminatedCharArray[ 0 ];
-            text += ComputeWhitespaceLength( text );
-
+            const char* text  = &nullTerminatedCharArray[ 0 ];
             const char* start = text;
 
+            text += ComputeWhitespaceLength( text );
+
             Status status = ParseAnyValue( jsonRoot, text );
 
-            text += ComputeWhitespaceLength( text );
             if ( status == Status::kOk )
             {
+                text += ComputeWhitespaceLength( text );
+
                 // Only the terminator (and any padding that repeats it) may follow the root value
                 for ( const char* rest = text; rest != nullTerminatedCharArray.end(); rest++ )
                 {
-- 
2.43.0


From aa9aac5d543534e7edd1d5fd4a0b4fdafd99751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:22 +0000
Subject: [PATCH 09/55] fix: do not keep a root value when the text has
 trailing garbage

Every other syntax error leaves the structured data without a root.
---
 Code/Json4C4/C4Json.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index eb79a3e..6143983 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1798,6 +1798,9 @@ namespace C4
 
             if ( status != Status::kOk )
             {
+                delete jsonRoot;
+                jsonRoot = nullptr;
+
                 *errorLine   = 1;
                 *errorColumn = 1;
 
-- 
2.43.0


From 1b26f769c51ff233d81a3accf7789ed1825fbc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 10/55] fix: handle repeated names in objects

The value of the repeated name was leaked and its name recorded once more,
so that writing the object emitted the first value again for each repetition.
---
 Code/Json4C4/C4Json.cpp | 12 +++++++++++-
 Code/Json4C4/C4Json.h   |  5 ++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 6143983..0df21c2 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1543,6 +1543,11 @@ namespace C4
 
         bool ObjectValue::InsertAccountedMapElement( Value* element )
         {
+            if ( this->FindMapElement( element->name ) )
+            {
+                return false;
+            }
+
             insertionOrder.AppendArrayElement( element->name );
 
             return this->InsertMapElement( element );
@@ -1603,7 +1608,12 @@ namespace C4
                     [ & ]()
                     {
                         jsonValue->name = name.data;
-                        jsonObject->InsertAccountedMapElement( jsonValue );
+
+                        if ( !jsonObject->InsertAccountedMapElement( jsonValue ) )
+                        {
+                            // The first value of a repeated name is the one that counts
+                            delete jsonValue;
+                        }
 
                         return Status::kOk;
                     } );
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 6d6f4c6..ad29fad 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -697,7 +697,10 @@ namespace C4
                         associateValue->name = name;
                         Serialize( associateValue, data );
 
-                        objectValue->InsertAccountedMapElement( associateValue );
+                        if ( !objectValue->InsertAccountedMapElement( associateValue ) )
+                        {
+                            delete associateValue;
+                        }
 
                         return Status::kOk;
                     } );
-- 
2.43.0


From 6bda94ebbdce000d57995c6b433a95619099aff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:16 +0000
Subject: [PATCH 11/55] fix: limit the nesting depth of parsed texts

The parser and the destruction of its values recurse, so a text of nothing
but opening brackets exhausted the stack.
---
 Code/Json4C4/C4Json.cpp | 34 +++++++++++++++++++++++-----------
 Code/Json4C4/C4Json.h   |  7 ++++---
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 0df21c2..7c22aba 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -95,6 +95,7 @@
 #define JSON4C4VERSION STR( JSON4C4VERSIONMAJOR ) "." STR( JSON4C4VERSIONMINOR ) "." STR( JSON4C4VERSIONPATCH )
 
 #define MAX_FILE_SIZE 0xffff - 1
+#define MAX_NESTING_DEPTH 1024
 
 namespace C4
 {
@@ -525,7 +526,8 @@ namespace C4
                                                     "An expected object value pair was not found",
                                                     "An exception was caught",
                                                     "JSON structured data contains invalid value type",
-                                                    "Could not find requested name of name/value pair" };
+                                                    "Could not find requested name of name/value pair",
+                                                    "Arrays and objects are nested too deeply" };
 
         TERATHON_API String<256> StatusToString( const Status& status ) noexcept
         {
@@ -1081,8 +1083,8 @@ namespace C4
             return ( false );
         }
 
-        template <class T>
-        Status ParseValue( Value*& value, const char*& text ) noexcept
+        template <class T, class... Args>
+        Status ParseValue( Value*& value, const char*& text, Args... args ) noexcept
         {
             T* jsonValue = nullptr;
 
@@ -1098,7 +1100,7 @@ namespace C4
                 return status;
             }
 
-            status = MayThrow( [ & ]() { return T::Parse( jsonValue, text ); } );
+            status = MayThrow( [ & ]() { return T::Parse( jsonValue, text, args... ); } );
 
             if ( status == Status::kOk )
             {
@@ -1112,7 +1114,7 @@ namespace C4
             return status;
         };
 
-        Status ParseAnyValue( Value*& value, const char*& text ) noexcept
+        Status ParseAnyValue( Value*& value, const char*& text, int32 depth = 0 ) noexcept
         {
             const char* start = text;
 
@@ -1142,13 +1144,13 @@ namespace C4
             }
             text = start;
 
-            status = ParseValue<ArrayValue>( value, text );
+            status = ParseValue<ArrayValue>( value, text, depth );
             if ( status == Status::kOk || status != Status::kExpectedOpeningSquareBrackets )
             {
                 return status;
             }
 
-            status = ParseValue<ObjectValue>( value, text );
+            status = ParseValue<ObjectValue>( value, text, depth );
             if ( status == Status::kOk || status != Status::kExpectedOpeningCurlyBraces || status == Status::kNumbersCannotHaveLeadingZeros )
             {
                 return status;
@@ -1426,13 +1428,18 @@ namespace C4
 
         } // namespace Detail
 
-        Status ArrayValue::Parse( ArrayValue* jsonArray, const char*& text ) noexcept
+        Status ArrayValue::Parse( ArrayValue* jsonArray, const char*& text, int32 depth ) noexcept
         {
             if ( text[ 0 ] != '[' )
             {
                 return Status::kExpectedOpeningSquareBrackets;
             }
 
+            if ( depth >= MAX_NESTING_DEPTH )
+            {
+                return Status::kNestingTooDeep;
+            }
+
             bool emptyArray = true;
 
             for ( ;; )
@@ -1453,7 +1460,7 @@ namespace C4
                 }
 
                 Value* jsonValue = nullptr;
-                Status status    = ParseAnyValue( jsonValue, text );
+                Status status    = ParseAnyValue( jsonValue, text, depth + 1 );
                 if ( status != Status::kOk )
                 {
                     return status;
@@ -1553,13 +1560,18 @@ namespace C4
             return this->InsertMapElement( element );
         }
 
-        Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text ) noexcept
+        Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text, int32 depth ) noexcept
         {
             if ( text[ 0 ] != '{' )
             {
                 return Status::kExpectedOpeningCurlyBraces;
             }
 
+            if ( depth >= MAX_NESTING_DEPTH )
+            {
+                return Status::kNestingTooDeep;
+            }
+
             bool emptyObject = true;
 
             for ( ;; )
@@ -1598,7 +1610,7 @@ namespace C4
 
                 Value* jsonValue = nullptr;
 
-                status = ParseAnyValue( jsonValue, text );
+                status = ParseAnyValue( jsonValue, text, depth + 1 );
                 if ( status != Status::kOk )
                 {
                     return status;
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index ad29fad..cd0d1bb 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -156,7 +156,8 @@ namespace C4
             kMissingObjectElement,
             kException,
             kInvalidValueType,
-            kNameNotPresent
+            kNameNotPresent,
+            kNestingTooDeep
         };
 
         TERATHON_API String<256> StatusToString( const Status& parseResult ) noexcept;
@@ -471,7 +472,7 @@ namespace C4
         class ArrayValue final : public Value
         {
         public:
-            static Status Parse( ArrayValue* jsonArray, const char*& text ) noexcept;
+            static Status Parse( ArrayValue* jsonArray, const char*& text, int32 depth = 0 ) noexcept;
 
         public:
             using DataType = Array<Value*>;
@@ -498,7 +499,7 @@ namespace C4
             using Map<Value>::end;
 
         public:
-            static Status Parse( ObjectValue* jsonObjectValue, const char*& text ) noexcept;
+            static Status Parse( ObjectValue* jsonObjectValue, const char*& text, int32 depth = 0 ) noexcept;
 
         public:
             TERATHON_API ~ObjectValue() noexcept override;
-- 
2.43.0


From 7667e58952fbc5c4b032eaef8f9c0907936efd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:32 +0000
Subject: [PATCH 12/55] fix: report and clean up allocation failures while
 parsing

A failed allocation for a number, true, false or null was reported as a
syntax error, and a value that could not be stored in its array or object
was leaked.
---
 Code/Json4C4/C4Json.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 7c22aba..d75b22c 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1126,21 +1126,23 @@ namespace C4
             text = start;
 
             status = ParseValue<NumberValue>( value, text );
-            if ( status == Status::kOk || status == Status::kNumbersCannotHaveLeadingZeros )
+            if ( status == Status::kOk || status == Status::kNumbersCannotHaveLeadingZeros || status == Status::kException )
             {
                 return status;
             }
             text = start;
 
-            if ( ParseValue<BoolValue>( value, text ) == Status::kOk )
+            status = ParseValue<BoolValue>( value, text );
+            if ( status == Status::kOk || status == Status::kException )
             {
-                return Status::kOk;
+                return status;
             }
             text = start;
 
-            if ( ParseValue<NullValue>( value, text ) == Status::kOk )
+            status = ParseValue<NullValue>( value, text );
+            if ( status == Status::kOk || status == Status::kException )
             {
-                return Status::kOk;
+                return status;
             }
             text = start;
 
@@ -1475,6 +1477,7 @@ namespace C4
 
                 if ( status != Status::kOk )
                 {
+                    delete jsonValue;
                     return status;
                 }
 
@@ -1632,6 +1635,7 @@ namespace C4
 
                 if ( status != Status::kOk )
                 {
+                    delete jsonValue;
                     return status;
                 }
 
-- 
2.43.0


From 6d62d4ce964d36753306648167567bdbbb851ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:37 +0000
Subject: [PATCH 13/55] fix: do not keep the deleted root value when
 serialization cannot start

If the new root could not be allocated the pointer to the deleted one
remained and was deleted again later.
---
 Code/Json4C4/C4Json.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index cd0d1bb..b00de1f 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -593,6 +593,7 @@ namespace C4
                 if ( rootJsonValue != nullptr )
                 {
                     delete rootJsonValue;
+                    rootJsonValue = nullptr;
                 }
 
                 Status status = MayThrow(
-- 
2.43.0


From 70916c28e4429e2367dc28248441fec714f1ac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:58 +0000
Subject: [PATCH 14/55] fix: report an allocation failure while looking up a
 name

Long names are copied for the lookup, and a failure to do so escaped from
functions that are noexcept.
---
 Code/Json4C4/C4Json.h | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index b00de1f..66a7b0d 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -652,14 +652,18 @@ namespace C4
                 return Status::kInvalidValueType;
             }
 
-            const Value* associateValue = objectValue->FindMapElement( name );
+            return MayThrow(
+                [ & ]()
+                {
+                    const Value* associateValue = objectValue->FindMapElement( name );
 
-            if ( !associateValue )
-            {
-                return Status::kNameNotPresent;
-            }
+                    if ( !associateValue )
+                    {
+                        return Status::kNameNotPresent;
+                    }
 
-            return MayThrow( [ & ]() { return Validate( associateValue, data ); } );
+                    return Validate( associateValue, data );
+                } );
         }
 
         template <class T>
@@ -672,14 +676,18 @@ namespace C4
                 return Status::kInvalidValueType;
             }
 
-            const Value* associateValue = objectValue->FindMapElement( name );
+            return MayThrow(
+                [ & ]()
+                {
+                    const Value* associateValue = objectValue->FindMapElement( name );
 
-            if ( !associateValue )
-            {
-                return Status::kNameNotPresent;
-            }
+                    if ( !associateValue )
+                    {
+                        return Status::kNameNotPresent;
+                    }
 
-            return MayThrow( [ & ]() { return Deserialize( associateValue, data ); } );
+                    return Deserialize( associateValue, data );
+                } );
         }
 
         template <class T>
-- 
2.43.0


From 6058aeb9c8946df19021b813fbae293528ddbee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:01 +0000
Subject: [PATCH 15/55] fix: do not dereference a missing root value

Deserializing from or validating structured data that holds no document
(for example after a failed parse) crashed.
---
 Code/Json4C4/C4Json.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 66a7b0d..044422a 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -573,6 +573,11 @@ namespace C4
             template <class T>
             Status DeserializeTo( T& data ) noexcept
             {
+                if ( rootJsonValue == nullptr )
+                {
+                    return Status::kInvalidStructuredData;
+                }
+
                 return MayThrow(
                     [ & ]()
                     {
@@ -626,6 +631,11 @@ namespace C4
         template <class T>
         Status Validate( const StructuredData& sd, const T& data ) noexcept
         {
+            if ( sd.GetRootJsonValue() == nullptr )
+            {
+                return Status::kInvalidStructuredData;
+            }
+
             return MayThrow(
                 [ & ]()
                 {
-- 
2.43.0


From f85e8d3b704995d759559655dbe922dc3d891ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:06 +0000
Subject: [PATCH 16/55] fix: report the failure to serialize a named value

The status was ignored and an empty value stored instead.
---
 Code/Json4C4/C4Json.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 044422a..347c468 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -715,7 +715,13 @@ namespace C4
                     {
                         associateValue       = Detail::CreateValueFor( data );
                         associateValue->name = name;
-                        Serialize( associateValue, data );
+
+                        Status valueStatus = Serialize( associateValue, data );
+
+                        if ( valueStatus != Status::kOk )
+                        {
+                            return valueStatus;
+                        }
 
                         if ( !objectValue->InsertAccountedMapElement( associateValue ) )
                         {
-- 
2.43.0


From 692e261974e1a0b4d14bbd16b073819d9e0cb462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:28 +0000
Subject: [PATCH 17/55] fix: account for the elements of serialized maps

They were stored in the object without recording their order, so writing
the object produced {}; the elements they replaced were leaked.
---
 Code/Json4C4/C4Json.cpp | 6 ++++++
 Code/Json4C4/C4Json.h   | 9 +++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index d75b22c..7792d87 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1563,6 +1563,12 @@ namespace C4
             return this->InsertMapElement( element );
         }
 
+        void ObjectValue::PurgeAccountedMapElements() noexcept
+        {
+            this->PurgeMap();
+            insertionOrder.PurgeArray();
+        }
+
         Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text, int32 depth ) noexcept
         {
             if ( text[ 0 ] != '{' )
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 347c468..c64631f 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -515,6 +515,7 @@ namespace C4
             TERATHON_API const ObjectValue*   FindJsonObjectValue( const char* name ) const noexcept;
 
             TERATHON_API bool InsertAccountedMapElement( Value* element );
+            TERATHON_API void PurgeAccountedMapElements() noexcept;
 
             TERATHON_API Status Write( File& file, uint32 indentationLength, const char indentationChar, Array<char>& indentationCharArray ) const override;
         };
@@ -1098,7 +1099,7 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    objectValue->RemoveAllMapElements();
+                    objectValue->PurgeAccountedMapElements();
 
                     T      temp;
                     Status status;
@@ -1123,7 +1124,7 @@ namespace C4
                             return status;
                         }
 
-                        objectValue->InsertMapElement( elem );
+                        objectValue->InsertAccountedMapElement( elem );
                     }
                     return Status::kOk;
                 } );
@@ -1374,7 +1375,7 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    objectValue->RemoveAllMapElements();
+                    objectValue->PurgeAccountedMapElements();
 
                     T      temp;
                     Status status;
@@ -1399,7 +1400,7 @@ namespace C4
                             return status;
                         }
 
-                        objectValue->InsertMapElement( elem );
+                        objectValue->InsertAccountedMapElement( elem );
                     }
 
                     return Status::kOk;
-- 
2.43.0


From d7aa12cedcb6e1166470d91c3c2380e8f9fdee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:33 +0000
Subject: [PATCH 18/55] fix: serialize std::vector as a JSON array

An object was created for it, so that serializing a vector failed (as the
root) or stored an empty object (as a named value). A vector of a type with
member functions did not compile.
---
 Code/Json4C4/C4Json.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index c64631f..ea76ffc 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -535,6 +535,16 @@ namespace C4
                 return new ArrayValue;
             }
 
+#ifdef JSON4C4_ENABLE_STD_SUPPORT_INTERNAL
+
+            template <class T>
+            Value* CreateValueFor( const std::vector<T>& ) noexcept( false )
+            {
+                return new ArrayValue;
+            }
+
+#endif
+
             template <>
             TERATHON_API Value* CreateValueFor( const String<>& ) noexcept( false );
 
@@ -1213,7 +1223,7 @@ namespace C4
 
                         if constexpr ( Detail::HasDeserializeMember<T>::Value )
                         {
-                            status = temp->Deserialize( value );
+                            status = temp.Deserialize( value );
                         }
                         else
                         {
-- 
2.43.0


From 8895b62fec58f294025c403e0e97572cf12ed07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:56 +0000
Subject: [PATCH 19/55] fix: release map elements when an allocation fails

A failure to copy the name of an element, or to record it in the object,
leaked the element.
---
 Code/Json4C4/C4Json.h | 60 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index ea76ffc..ed59073 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -457,6 +457,40 @@ namespace C4
             template <class T>
             using HasSerializeMember = IsDetectedExact<Status, SerializeMemberOperator, T>;
 
+            // Deletes an object that has not been handed over to its container yet
+            template <class T>
+            class OwningPointer
+            {
+            private:
+                T* pointer;
+
+            public:
+                explicit OwningPointer( T* p ) noexcept
+                    : pointer( p )
+                {
+                }
+
+                OwningPointer( const OwningPointer& )  = delete;
+                void operator=( const OwningPointer& ) = delete;
+
+                ~OwningPointer()
+                {
+                    delete pointer;
+                }
+
+                T* Get() const noexcept
+                {
+                    return pointer;
+                }
+
+                T* Release() noexcept
+                {
+                    T* p    = pointer;
+                    pointer = nullptr;
+                    return p;
+                }
+            };
+
             template <class T, int32 baseCount>
             void PurgePointerArray( Array<T*, baseCount>& array )
             {
@@ -1044,16 +1078,16 @@ namespace C4
                             status = MayThrow(
                                 [ & ]()
                                 {
-                                    dataMapElement = new DataMapElementType;
+                                    dataMapElement       = new DataMapElementType;
+                                    dataMapElement->name = key;
                                     return Status::kOk;
                                 } );
 
                             if ( status != Status::kOk )
                             {
+                                delete dataMapElement;
                                 return status;
                             }
-
-                            dataMapElement->name = key;
                         }
 
                         if constexpr ( Detail::HasDeserializeMember<T>::Value )
@@ -1116,7 +1150,9 @@ namespace C4
 
                     for ( const auto* dataMapElement : data )
                     {
-                        Value* elem = Detail::CreateValueFor( temp );
+                        Detail::OwningPointer<Value> owner( Detail::CreateValueFor( temp ) );
+
+                        Value* elem = owner.Get();
                         elem->name  = dataMapElement->name;
 
                         if constexpr ( Detail::HasSerializeMember<T>::Value )
@@ -1130,11 +1166,13 @@ namespace C4
 
                         if ( status != Status::kOk )
                         {
-                            delete elem;
                             return status;
                         }
 
-                        objectValue->InsertAccountedMapElement( elem );
+                        if ( objectValue->InsertAccountedMapElement( elem ) )
+                        {
+                            owner.Release();
+                        }
                     }
                     return Status::kOk;
                 } );
@@ -1392,7 +1430,9 @@ namespace C4
 
                     for ( auto const& [ dataMapElementKey, dataMapElementData ] : data )
                     {
-                        Value* elem = Detail::CreateValueFor( temp );
+                        Detail::OwningPointer<Value> owner( Detail::CreateValueFor( temp ) );
+
+                        Value* elem = owner.Get();
                         elem->name  = dataMapElementKey.c_str();
 
                         if constexpr ( Detail::HasSerializeMember<T>::Value )
@@ -1406,11 +1446,13 @@ namespace C4
 
                         if ( status != Status::kOk )
                         {
-                            delete elem;
                             return status;
                         }
 
-                        objectValue->InsertAccountedMapElement( elem );
+                        if ( objectValue->InsertAccountedMapElement( elem ) )
+                        {
+                            owner.Release();
+                        }
                     }
 
                     return Status::kOk;
-- 
2.43.0


From ce8e3c9842ab74dad1b0425d02879e5bc468008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:23 +0000
Subject: [PATCH 20/55] fix: escape strings and names when writing

Quotation marks, backslashes and control characters were written as they
are, which is not JSON and does not read back.
---
 Code/Json4C4/C4Json.cpp | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 7792d87..3a1b4d7 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -611,6 +611,39 @@ namespace C4
             }
         }
 
+        void WriteStringLiteral( File& file, const char* text )
+        {
+            file << '\"';
+
+            while ( text[ 0 ] != 0 )
+            {
+                const char* end = text;
+
+                while ( uint8( end[ 0 ] ) >= 32U && end[ 0 ] != '\"' && end[ 0 ] != '\\' )
+                {
+                    end++;
+                }
+
+                if ( end != text )
+                {
+                    file.WriteFile( text, end - text );
+                    text = end;
+                }
+                else if ( uint8( text[ 0 ] ) < 32U )
+                {
+                    file << "\\u00" << Text::hexDigit[ uint8( text[ 0 ] ) >> 4 ] << Text::hexDigit[ text[ 0 ] & 15 ];
+                    text++;
+                }
+                else
+                {
+                    file << '\\' << text[ 0 ];
+                    text++;
+                }
+            }
+
+            file << '\"';
+        }
+
         int32 ComputeWhitespaceLength( const char* text ) noexcept
         {
             const uint8* byte = reinterpret_cast<const uint8*>( text );
@@ -1229,7 +1262,7 @@ namespace C4
 
             Status Write( File& file, uint32 /*indentationLength*/, const char /*indentationChar*/, Array<char>& /*indentationCharArray*/ ) const override
             {
-                file << '\"' << data << '\"';
+                WriteStringLiteral( file, data );
 
                 return Status::kOk;
             }
@@ -1775,7 +1808,8 @@ namespace C4
 
                 file.WriteFile( indentationCharArray.begin(), indentationCharArray.GetArrayElementCount() );
 
-                file << '"' << value->name << "\" : ";
+                WriteStringLiteral( file, value->name );
+                file << " : ";
 
                 Status status = value->Write( file, indentationLength, indentationChar, indentationCharArray );
                 if ( status != Status::kOk )
-- 
2.43.0


From 6c7548d43c5fffef41fed8c38d11841bf12a0235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:27 +0000
Subject: [PATCH 21/55] fix: truncate the file that is written

The end of a longer file that existed before remained after the new text.
Without anything to write the file is left alone.
---
 Code/Json4C4/C4Json.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 3a1b4d7..9da22a4 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -270,7 +270,7 @@ namespace C4
                 return kFileOkay;
             }
 
-            int fd = open( fileName, O_WRONLY | O_CREAT, 0644 );
+            int fd = open( fileName, O_WRONLY | O_CREAT | O_TRUNC, 0644 );
 
             if ( fd == -1 )
             {
@@ -1959,6 +1959,10 @@ namespace C4
 
         TERATHON_API Status StructuredData::Write( const char* fileName, const uint32 indentationLength, const char indentationChar ) noexcept
         {
+            if ( !rootJsonValue )
+            {
+                return Status::kInvalidStructuredData;
+            }
 
             File file;
             if ( file.OpenFile( fileName, kFileCreate ) != kFileOkay )
@@ -1968,16 +1972,11 @@ namespace C4
 
             Array<char> indentCharArray;
 
-            if ( rootJsonValue )
-            {
-                Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
-
-                file.CloseFile();
+            Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
 
-                return status;
-            }
+            file.CloseFile();
 
-            return Status::kInvalidStructuredData;
+            return status;
         }
 
         const Value* StructuredData::GetRootJsonValue() const noexcept
-- 
2.43.0


From a7950747f84548641def2b1315281ea10179c416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:32 +0000
Subject: [PATCH 22/55] fix: read files that arrive in pieces or end early

Each piece was read to the start of the buffer, and a file that had become
shorter since its size was taken was read forever.
---
 Code/Json4C4/C4Json.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 9da22a4..b496e35 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -375,7 +375,7 @@ namespace C4
 
                 BOOL ok = ::ReadFile( fileHandle, p, end - p, &numberOfBytesRead, nullptr );
 
-                if ( !ok )
+                if ( !ok || numberOfBytesRead == 0 )
                 {
                     return kFileReadError;
                 }
@@ -401,9 +401,9 @@ namespace C4
 
             while ( p != end )
             {
-                int numberOfBytesRead = read( this->fileDescriptor, buffer, end - p );
+                int numberOfBytesRead = read( this->fileDescriptor, p, end - p );
 
-                if ( numberOfBytesRead == -1 )
+                if ( numberOfBytesRead <= 0 )
                 {
                     return kFileReadError;
                 }
-- 
2.43.0


From c89dba64f2a67cfa7d9396c0f0f69a1e5ca0ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:30 +0000
Subject: [PATCH 23/55] fix: report errors while writing a file

Failed writes were ignored and an incomplete file reported as written.
---
 Code/Json4C4/C4Json.cpp | 39 +++++++++++++++++++++++++++++++++------
 Code/Json4C4/C4Json.h   |  3 ++-
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index b496e35..4885edb 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -200,7 +200,8 @@ namespace C4
     class File
     {
     private:
-        bool IsReadOnly = false;
+        bool       IsReadOnly  = false;
+        FileStatus writeStatus = kFileOkay;
 
 #    if defined( JSON4C4_WINDOWS )
 
@@ -222,6 +223,8 @@ namespace C4
         {
             CloseFile();
 
+            writeStatus = kFileOkay;
+
 #    if defined( JSON4C4_WINDOWS )
 
             const WCharBuffer wideFileName( Terathon::String<> { fileName } );
@@ -300,7 +303,10 @@ namespace C4
 
             if ( this->fileDescriptor != -1 )
             {
-                close( this->fileDescriptor );
+                if ( close( this->fileDescriptor ) != 0 && !IsReadOnly )
+                {
+                    writeStatus = kFileWriteError;
+                }
 
                 fileDescriptor = -1;
             }
@@ -423,6 +429,11 @@ namespace C4
                 return kFileWriteError;
             }
 
+            if ( writeStatus != kFileOkay )
+            {
+                return writeStatus;
+            }
+
 #    if defined( JSON4C4_WINDOWS )
 
             if ( fileHandle == nullptr )
@@ -442,7 +453,7 @@ namespace C4
 
                 if ( !ok )
                 {
-                    return kFileWriteError;
+                    return ( writeStatus = kFileWriteError );
                 }
 
                 p += numberOfBytesWritten;
@@ -463,9 +474,9 @@ namespace C4
             {
                 int numberOfBytesWritten = write( this->fileDescriptor, p, end - p );
 
-                if ( numberOfBytesWritten == -1 )
+                if ( numberOfBytesWritten <= 0 )
                 {
-                    return kFileWriteError;
+                    return ( writeStatus = kFileWriteError );
                 }
 
                 p += numberOfBytesWritten;
@@ -476,6 +487,12 @@ namespace C4
             return kFileOkay;
         }
 
+        // The first error that occurred while writing to the file or closing it
+        FileStatus GetWriteStatus() const
+        {
+            return writeStatus;
+        }
+
         File& operator<<( char c )
         {
             this->WriteFile( &c, 1 );
@@ -527,7 +544,8 @@ namespace C4
                                                     "An exception was caught",
                                                     "JSON structured data contains invalid value type",
                                                     "Could not find requested name of name/value pair",
-                                                    "Arrays and objects are nested too deeply" };
+                                                    "Arrays and objects are nested too deeply",
+                                                    "Could not write file" };
 
         TERATHON_API String<256> StatusToString( const Status& status ) noexcept
         {
@@ -1976,6 +1994,15 @@ namespace C4
 
             file.CloseFile();
 
+#ifndef C4_ENGINE_MODULE
+
+            if ( status == Status::kOk && file.GetWriteStatus() != kFileOkay )
+            {
+                status = Status::KFileWriteError;
+            }
+
+#endif
+
             return status;
         }
 
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index ed59073..bfa04d2 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -157,7 +157,8 @@ namespace C4
             kException,
             kInvalidValueType,
             kNameNotPresent,
-            kNestingTooDeep
+            kNestingTooDeep,
+            KFileWriteError
         };
 
         TERATHON_API String<256> StatusToString( const Status& parseResult ) noexcept;
-- 
2.43.0


From 89dfb7f5ec4a9add39939c0631724b0642b6ab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:34 +0000
Subject: [PATCH 24/55] fix: do not write numbers that JSON cannot represent

Infinities and NaNs were written as inf and nan.
---
 Code/Json4C4/C4Json.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 4885edb..771f64c 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1337,6 +1337,11 @@ namespace C4
 
             Status Write( File& file, uint32 /*indentationLength*/, const char /*indentationChar*/, Array<char>& /*indentationCharArray*/ ) const override
             {
+                // JSON has no representation for infinities and NaNs
+                if ( data - data != 0.0 )
+                {
+                    return Status::kInvalidStructuredData;
+                }
 
 #ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
 
-- 
2.43.0


From 34c4076af2ee05856b17fe8760560e448356c240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:37 +0000
Subject: [PATCH 25/55] fix: report an allocation failure while writing

The indentation buffer is allocated within a noexcept function.
---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 771f64c..21d6b92 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1995,7 +1995,7 @@ namespace C4
 
             Array<char> indentCharArray;
 
-            Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
+            Status status = MayThrow( [ & ]() { return rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray ); } );
 
             file.CloseFile();
 
-- 
2.43.0


From aa9c199c90597e0bb9c9b2f590853aa5d600bd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:32 +0000
Subject: [PATCH 26/55] fix: replace the root element of a map

The map kept pointing to the replaced element.
---
 Code/Terathon/TSMap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Code/Terathon/TSMap.cpp b/Code/Terathon/TSMap.cpp
index 8c1fcba..b424f3a 100644
--- a/Code/Terathon/TSMap.cpp
+++ b/Code/Terathon/TSMap.cpp
@@ -571,6 +571,10 @@ void MapBase::ReplaceMapElement(MapElementBase *element, MapElementBase *replace
 			super->rightSubnode = replacement;
 		}
 	}
+	else
+	{
+		rootElement = replacement;
+	}
 
 	replacement->superNode = super;
 	replacement->balance = element->balance;
-- 
2.43.0


From 660ff92c83d5846c56adffea384da37dd75f6ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 27/55] fix: update the capacity when a string shrinks to its
 local storage

Characters appended later were written past the end of the local storage.
---
 Code/Terathon/TSString.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 6bf3912..f112371 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -634,6 +634,7 @@ String<0>& String<0>::SetStringLength(int32 length)
 				Text::CopyText(stringPointer, localString, copyLength);
 				delete[] stringPointer;
 				stringPointer = localString;
+				physicalSize = kStringLocalSize;
 			}
 
 			stringPointer[length] = 0;
-- 
2.43.0


From 2892723209336634e1f423faa1fd09a090ff4808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:34 +0000
Subject: [PATCH 28/55] fix: count the terminator of a string with encoded
 escape sequences

The length was one too small, and characters appended later replaced the
last one.
---
 Code/Terathon/TSString.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index f112371..1f564d9 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -784,8 +784,8 @@ String<0>& String<0>::EncodeEscapeSequences(void)
 
 	if (maxCharSize > 1)
 	{
-		logicalSize = encodedLength;
-		physicalSize = GetPhysicalSize(encodedLength);
+		logicalSize = encodedLength + 1;
+		physicalSize = GetPhysicalSize(logicalSize);
 		char *encodedString = new char[physicalSize];
 
 		byte = reinterpret_cast<uint8 *>(stringPointer);
-- 
2.43.0


From 189b2f1066b08a32f84f68ec12f5c2f41b08d937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 29/55] fix: append no more than the characters that are there

AppendString counted characters beyond the end of the appended text.
---
 Code/Terathon/TSString.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 1f564d9..bb27014 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -655,6 +655,15 @@ String<0>& String<0>::SetStringLength(int32 length)
 
 String<0>& String<0>::AppendString(const char *s, int32 length)
 {
+	for (machine a = 0; a < length; a++)
+	{
+		if (s[a] == 0)
+		{
+			length = int32(a);
+			break;
+		}
+	}
+
 	if (length > 0)
 	{
 		int32 size = logicalSize + length;
-- 
2.43.0


From 2874cb71aefa5c05b40bc6bf7372c2723a1b0e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 30/55] fix: allow a string to be assigned and appended to
 itself

Assignment read storage that had just been released, and appending copied
characters until it ran out of memory.
---
 Code/Terathon/TSString.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index bb27014..3c3c5bd 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -346,6 +346,11 @@ String<0>& String<0>::Set(const char *s, int32 length)
 
 String<0>& String<0>::operator =(String&& s) noexcept
 {
+	if (&s == this)
+	{
+		return (*this);
+	}
+
 	if (stringPointer != localString)
 	{
 		delete[] stringPointer;
@@ -377,6 +382,11 @@ String<0>& String<0>::operator =(String&& s) noexcept
 
 String<0>& String<0>::operator =(const String& s)
 {
+	if (&s == this)
+	{
+		return (*this);
+	}
+
 	int32 size = s.logicalSize;
 	if (size > 1)
 	{
@@ -455,7 +465,7 @@ String<0>& String<0>::operator +=(const String<>& s)
 			stringPointer = newPointer;
 		}
 
-		Text::CopyText(s, stringPointer + logicalSize - 1);
+		Text::CopyText(s, stringPointer + logicalSize - 1, length);
 		logicalSize = size;
 	}
 
-- 
2.43.0


From 5840afb2ee3cf30aa134472e0f7637754743c6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:59 +0000
Subject: [PATCH 31/55] fix: keep strings intact when an allocation fails

The size was changed and the old storage released before the new storage
had been allocated, so that the string was released twice or overrun later.
---
 Code/Terathon/TSString.cpp | 64 +++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 3c3c5bd..d83f7ac 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -294,18 +294,20 @@ void String<0>::PurgeString(void)
 
 void String<0>::Resize(int32 size)
 {
-	logicalSize = size;
 	if (size > kStringLocalSize)
 	{
 		if ((size > physicalSize) || (size < physicalSize / 2))
 		{
+			int32 newSize = GetPhysicalSize(size);
+			char *newPointer = new char[newSize];
+
 			if (stringPointer != localString)
 			{
 				delete[] stringPointer;
 			}
 
-			physicalSize = GetPhysicalSize(size);
-			stringPointer = new char[physicalSize];
+			physicalSize = newSize;
+			stringPointer = newPointer;
 		}
 	}
 	else
@@ -318,6 +320,8 @@ void String<0>::Resize(int32 size)
 		physicalSize = kStringLocalSize;
 		stringPointer = localString;
 	}
+
+	logicalSize = size;
 }
 
 String<0>& String<0>::Set(const char *s, int32 length)
@@ -453,8 +457,8 @@ String<0>& String<0>::operator +=(const String<>& s)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -463,6 +467,7 @@ String<0>& String<0>::operator +=(const String<>& s)
 			}
 
 			stringPointer = newPointer;
+			physicalSize = newSize;
 		}
 
 		Text::CopyText(s, stringPointer + logicalSize - 1, length);
@@ -480,8 +485,8 @@ String<0>& String<0>::operator +=(const char *s)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -490,6 +495,7 @@ String<0>& String<0>::operator +=(const char *s)
 			}
 
 			stringPointer = newPointer;
+			physicalSize = newSize;
 		}
 
 		Text::CopyText(s, stringPointer + logicalSize - 1);
@@ -504,8 +510,8 @@ String<0>& String<0>::operator +=(char k)
 	int32 size = logicalSize + 1;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -514,6 +520,7 @@ String<0>& String<0>::operator +=(char k)
 		}
 
 		stringPointer = newPointer;
+		physicalSize = newSize;
 	}
 
 	stringPointer[logicalSize - 1] = k;
@@ -527,8 +534,8 @@ String<0>& String<0>::operator +=(int32 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -537,6 +544,7 @@ String<0>& String<0>::operator +=(int32 n)
 		}
 
 		stringPointer = newPointer;
+		physicalSize = newSize;
 	}
 
 	logicalSize += Text::IntegerToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
@@ -548,8 +556,8 @@ String<0>& String<0>::operator +=(uint32 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -558,6 +566,7 @@ String<0>& String<0>::operator +=(uint32 n)
 		}
 
 		stringPointer = newPointer;
+		physicalSize = newSize;
 	}
 
 	logicalSize += Text::IntegerToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
@@ -569,8 +578,8 @@ String<0>& String<0>::operator +=(int64 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -579,6 +588,7 @@ String<0>& String<0>::operator +=(int64 n)
 		}
 
 		stringPointer = newPointer;
+		physicalSize = newSize;
 	}
 
 	logicalSize += Text::Integer64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
@@ -590,8 +600,8 @@ String<0>& String<0>::operator +=(uint64 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -600,6 +610,7 @@ String<0>& String<0>::operator +=(uint64 n)
 		}
 
 		stringPointer = newPointer;
+		physicalSize = newSize;
 	}
 
 	logicalSize += Text::Integer64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
@@ -621,14 +632,13 @@ String<0>& String<0>::SetStringLength(int32 length)
 		if (size != logicalSize)
 		{
 			int32 copyLength = Min(length, logicalSize - 1);
-			logicalSize = size;
 
 			if (size > kStringLocalSize)
 			{
 				if ((size > physicalSize) || (size < physicalSize / 2))
 				{
-					physicalSize = GetPhysicalSize(size);
-					char *newPointer = new char[physicalSize];
+					int32 newSize = GetPhysicalSize(size);
+					char *newPointer = new char[newSize];
 					Text::CopyText(stringPointer, newPointer, copyLength);
 
 					if (stringPointer != localString)
@@ -637,6 +647,7 @@ String<0>& String<0>::SetStringLength(int32 length)
 					}
 
 					stringPointer = newPointer;
+					physicalSize = newSize;
 				}
 			}
 			else if (stringPointer != localString)
@@ -647,6 +658,7 @@ String<0>& String<0>::SetStringLength(int32 length)
 				physicalSize = kStringLocalSize;
 			}
 
+			logicalSize = size;
 			stringPointer[length] = 0;
 		}
 	}
@@ -679,8 +691,8 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
 			Text::CopyText(stringPointer, newPointer);
 
 			if (stringPointer != localString)
@@ -689,6 +701,7 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 			}
 
 			stringPointer = newPointer;
+			physicalSize = newSize;
 		}
 
 		Text::CopyText(s, stringPointer + logicalSize - 1, length);
@@ -803,9 +816,8 @@ String<0>& String<0>::EncodeEscapeSequences(void)
 
 	if (maxCharSize > 1)
 	{
-		logicalSize = encodedLength + 1;
-		physicalSize = GetPhysicalSize(logicalSize);
-		char *encodedString = new char[physicalSize];
+		int32 newSize = GetPhysicalSize(encodedLength + 1);
+		char *encodedString = new char[newSize];
 
 		byte = reinterpret_cast<uint8 *>(stringPointer);
 		uint8 *encodedByte = reinterpret_cast<uint8 *>(encodedString);
@@ -869,6 +881,8 @@ String<0>& String<0>::EncodeEscapeSequences(void)
 		}
 
 		stringPointer = encodedString;
+		physicalSize = newSize;
+		logicalSize = encodedLength + 1;
 	}
 
 	return (*this);
-- 
2.43.0


From d159e01f1219e6ac288d6094ddb18a8bf3d879ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 32/55] fix: keep the capacity of an array when an allocation
 fails

The new capacity was recorded before its storage had been allocated, so that
elements appended later overran the old storage.
---
 Code/Terathon/TSArray.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index f9080c5..718673c 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -477,8 +477,8 @@ namespace Terathon
 	template <typename type, int32 baseCount>
 	void Array<type, baseCount>::SetReservedCount(int32 count)
 	{
-		reservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
-		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
+		int32 newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
+		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newCount]);
 
 		type *pointer = arrayPointer;
 		for (machine a = 0; a < elementCount; a++)
@@ -495,6 +495,7 @@ namespace Terathon
 		}
 
 		arrayPointer = newPointer;
+		reservedCount = newCount;
 	}
 
 	template <typename type, int32 baseCount>
@@ -787,8 +788,8 @@ namespace Terathon
 	template <typename type>
 	void Array<type, 0>::SetReservedCount(int32 count)
 	{
-		reservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));
-		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
+		int32 newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));
+		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newCount]);
 
 		type *pointer = arrayPointer;
 		if (pointer)
@@ -804,6 +805,7 @@ namespace Terathon
 		}
 
 		arrayPointer = newPointer;
+		reservedCount = newCount;
 	}
 
 	template <typename type>
-- 
2.43.0


From 6579d22450095b8cb89a01f6bb2f2661db734b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:35 +0000
Subject: [PATCH 33/55] fix: release the storage of a moved array that fits the
 local storage

An array that had grown beyond its local storage and shrunk again leaked its
allocated storage when it was moved.
---
 Code/Terathon/TSArray.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index 718673c..cc922a4 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -419,6 +419,12 @@ namespace Terathon
 				new(&arrayPointer[a]) type(static_cast<type&&>(pointer[a]));
 				pointer[a].~type();
 			}
+
+			char *ptr = reinterpret_cast<char *>(pointer);
+			if (ptr != array.arrayStorage)
+			{
+				delete[] ptr;
+			}
 		}
 
 		array.elementCount = 0;
-- 
2.43.0


From 6145766574ca63af4c4d8b6248d7cbacceab8d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:36 +0000
Subject: [PATCH 34/55] fix: do not write half a surrogate pair past the end of
 the wide text

When one code unit was left a pair was written nevertheless.
---
 Code/Terathon/TSText.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index b66320b..1fc50ea 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -463,6 +463,11 @@ void Text::ConvertStringToWideText(const char *string, uint16 *wideText, int32 m
 		}
 		else
 		{
+			if (max < 2)
+			{
+				break;
+			}
+
 			code -= 0x010000U;
 			wideText[0] = uint16((code >> 10) + 0xD800U);
 			wideText[1] = uint16((code & 0x03FF) + 0xDC00U);
-- 
2.43.0


From 583380465cd97014d490515b1b3e849b43837a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:37 +0000
Subject: [PATCH 35/55] fix: order numbered texts consistently

With more leading zeros in the first text the comparison went on behind the
number, so that 01a was less than 1b and 1b less than 01a.
---
 Code/Terathon/TSText.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 1fc50ea..12b7cdd 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -987,9 +987,9 @@ bool Text::CompareNumberedTextLessThan(const char *s1, const char *s2)
 			{
 				return (xnum < ynum);
 			}
-			else if (xcount < ycount)
+			else if (xcount != ycount)
 			{
-				return (true);
+				return (xcount < ycount);
 			}
 		}
 		else
@@ -1047,9 +1047,9 @@ bool Text::CompareNumberedTextLessThanCaseless(const char *s1, const char *s2)
 			{
 				return (xnum < ynum);
 			}
-			else if (xcount < ycount)
+			else if (xcount != ycount)
 			{
-				return (true);
+				return (xcount < ycount);
 			}
 		}
 		else
-- 
2.43.0


From 2c6ca23552a478ee22674d5929d1aaea46ace091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:38 +0000
Subject: [PATCH 36/55] fix: ignore the case of the first character in
 FindTextCaseless

---
 Code/Terathon/TSText.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 12b7cdd..77f206e 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1118,16 +1118,25 @@ int32 Text::FindText(const char *s1, const char *s2)
 int32 Text::FindTextCaseless(const char *s1, const char *s2)
 {
 	const char *start = s1;
-	int32 first = *reinterpret_cast<const uint8 *>(s2);
+	uint32 first = *reinterpret_cast<const uint8 *>(s2);
+	if (first - 'a' < 26U)
+	{
+		first -= 32;
+	}
 
 	for (;;)
 	{
-		int32 c = *reinterpret_cast<const uint8 *>(s1++);
+		uint32 c = *reinterpret_cast<const uint8 *>(s1++);
 		if (c == 0)
 		{
 			break;
 		}
 
+		if (c - 'a' < 26U)
+		{
+			c -= 32;
+		}
+
 		if (c == first)
 		{
 			const uint8 *s3 = reinterpret_cast<const uint8 *>(s1);
-- 
2.43.0


From 5974b368690972a14befe934d95a3d40fe6db553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:39 +0000
Subject: [PATCH 37/55] fix: read the sign of an exponent in ReadFloat

---
 Code/Terathon/TSText.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 77f206e..737920c 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1571,9 +1571,12 @@ int32 Text::ReadFloat(const char *text, char *number, int32 max)
 		}
 		else
 		{
-			if ((c == '-') && (expneg))
+			if (c == '-')
 			{
-				break;
+				if (expneg)
+				{
+					break;
+				}
 			}
 			else if (c - '0' >= 10U)
 			{
-- 
2.43.0


From 3b9d323d445f56a296866562c6874b87a4da8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 38/55] fix: return the whole length from FloatToString

Only the length of the exponent was returned when there was one.
---
 Code/Terathon/TSText.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 737920c..070104a 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1454,7 +1454,7 @@ int32 Text::FloatToString(float num, char *text, int32 max)
 	if ((power != 0) && (len < max))
 	{
 		text[len++] = 'e';
-		return (IntegerToString(power, &text[len], max - len));
+		return (len + IntegerToString(power, &text[len], max - len));
 	}
 
 	end:
-- 
2.43.0


From 017e5f4787b4fede39538b261c326a59eb676928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:06 +0000
Subject: [PATCH 39/55] fix: convert the least integers to strings

-2147483648 and -9223372036854775808 were converted to -0.
---
 Code/Terathon/TSText.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 070104a..e0880c4 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1182,15 +1182,15 @@ int32 Text::IntegerToString(int32 num, char *text, int32 max)
 	char	c[16];
 
 	bool negative = (num < 0);
-	num = Abs(num) & 0x7FFFFFFF;
+	uint32 absolute = (negative) ? 0U - uint32(num) : uint32(num);
 
 	machine length = 0;
 	do
 	{
-		int32 p = num % 10;
+		uint32 p = absolute % 10U;
 		c[length++] = char(p + 48);
-		num /= 10;
-	} while (num != 0);
+		absolute /= 10U;
+	} while (absolute != 0);
 
 	machine a = -1;
 	if (negative)
@@ -1228,15 +1228,15 @@ int32 Text::Integer64ToString(int64 num, char *text, int32 max)
 	char	c[32];
 
 	bool negative = (num < 0);
-	num = Abs64(num) & 0x7FFFFFFFFFFFFFFFULL;
+	uint64 absolute = (negative) ? 0ULL - uint64(num) : uint64(num);
 
 	machine length = 0;
 	do
 	{
-		int32 p = num % 10;
+		uint32 p = uint32(absolute % 10U);
 		c[length++] = char(p + 48);
-		num /= 10;
-	} while (num != 0);
+		absolute /= 10U;
+	} while (absolute != 0);
 
 	machine a = -1;
 	if (negative)
-- 
2.43.0


From 237c15b099bbf606d6dd43b360bfef643a5b5231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:50 +0000
Subject: [PATCH 40/55] fix: convert unsigned integers above the signed range
 to strings

They were converted as negative numbers.
---
 Code/Terathon/TSString.cpp | 8 ++++----
 Code/Terathon/TSString.h   | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index d83f7ac..e927885 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -197,7 +197,7 @@ String<0>::String(uint32 n)
 {
 	physicalSize = kStringLocalSize;
 	stringPointer = localString;
-	logicalSize = Text::IntegerToString(n, localString, kStringLocalSize - 1) + 1;
+	logicalSize = Text::Integer64ToString(n, localString, kStringLocalSize - 1) + 1;
 }
 
 String<0>::String(int64 n)
@@ -265,7 +265,7 @@ String<0>::String(uint32 n, const char *s1)
 	physicalSize = GetPhysicalSize(size);
 	stringPointer = new char[physicalSize];
 	Text::CopyText(s1, stringPointer);
-	logicalSize = len1 + Text::IntegerToString(n, stringPointer + len1, kStringAllocSize - 1) + 1;
+	logicalSize = len1 + Text::Integer64ToString(n, stringPointer + len1, kStringAllocSize - 1) + 1;
 }
 
 String<0>::String(int64 n, const char *s1)
@@ -431,7 +431,7 @@ String<0>& String<0>::operator =(int32 n)
 String<0>& String<0>::operator =(uint32 n)
 {
 	Resize(kStringAllocSize);
-	logicalSize = Text::IntegerToString(n, stringPointer, kStringAllocSize - 1) + 1;
+	logicalSize = Text::Integer64ToString(n, stringPointer, kStringAllocSize - 1) + 1;
 	return (*this);
 }
 
@@ -569,7 +569,7 @@ String<0>& String<0>::operator +=(uint32 n)
 		physicalSize = newSize;
 	}
 
-	logicalSize += Text::IntegerToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
+	logicalSize += Text::Integer64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
 	return (*this);
 }
 
diff --git a/Code/Terathon/TSString.h b/Code/Terathon/TSString.h
index 9f01605..826a277 100644
--- a/Code/Terathon/TSString.h
+++ b/Code/Terathon/TSString.h
@@ -191,7 +191,7 @@ namespace Terathon
 
 			explicit String(uint32 n)
 			{
-				Text::IntegerToString(n, c, len);
+				Text::Integer64ToString(n, c, len);
 			}
 
 			explicit String(int64 n)
@@ -249,7 +249,7 @@ namespace Terathon
 
 			String& operator =(uint32 n)
 			{
-				Text::IntegerToString(n, c, len);
+				Text::Integer64ToString(n, c, len);
 				return (*this);
 			}
 
@@ -294,7 +294,7 @@ namespace Terathon
 			String& operator +=(uint32 n)
 			{
 				int32 l = GetStringLength();
-				Text::IntegerToString(n, &c[l], len - l);
+				Text::Integer64ToString(n, &c[l], len - l);
 				return (*this);
 			}
 
-- 
2.43.0


From f81ca1f3f23a0066963427bd5869ac43e89c1717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:28 +0000
Subject: [PATCH 41/55] fix: render positions with many digits in full

---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 21d6b92..e9dff77 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -2027,7 +2027,7 @@ namespace C4
 
             if ( parseResult.errorLine != 0 && parseResult.status != Status::kException )
             {
-                string += String<24>( ". Line: " ) + String<24>( parseResult.errorLine ) + String<24>( ", column: " ) + String<24>( parseResult.errorColumn );
+                string += String<64>( ". Line: " ) + String<64>( parseResult.errorLine ) + String<64>( ", column: " ) + String<64>( parseResult.errorColumn );
             }
 
             return string;
-- 
2.43.0


From c7ab85e875841462c4b3ef5c4a045d36315bb5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:44 +0000
Subject: [PATCH 42/55] fix: an optional member that is present must fit: a
 name missing inside it was taken for its absence

---
 Code/Json4C4/C4Json.h | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index bfa04d2..2e1b632 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1462,6 +1462,19 @@ namespace C4
 
 #endif
 
+        // Tells whether an optional member is there: kOk, kNameNotPresent or kInvalidValueType
+        inline Status FindOptional( const Value* value, const char* name ) noexcept
+        {
+            const ObjectValue* objectValue = value->AsJsonObjectValue();
+
+            if ( !objectValue )
+            {
+                return Status::kInvalidValueType;
+            }
+
+            return MayThrow( [ & ]() { return objectValue->FindMapElement( name ) ? Status::kOk : Status::kNameNotPresent; } );
+        }
+
         inline Status ValidateProto( const Value* ) noexcept
         {
             return Status::kOk;
@@ -1496,9 +1509,18 @@ namespace C4
         template <class T, class... Args>
         Status ValidateProto( const Value* value, Detail::Optional, const char* name, const T& data, Args&&... args ) noexcept
         {
-            Status status = Validate( value, name, data );
+            Status status = FindOptional( value, name );
+
+            if ( status == Status::kOk )
+            {
+                status = Validate( value, name, data );
 
-            if ( status != Status::kOk && status != Status::kNameNotPresent )
+                if ( status != Status::kOk )
+                {
+                    return status;
+                }
+            }
+            else if ( status != Status::kNameNotPresent )
             {
                 return status;
             }
@@ -1540,9 +1562,18 @@ namespace C4
         template <class T, class... Args>
         Status DeserializeProto( const Value* value, Detail::Optional, const char* name, T& data, Args&&... args ) noexcept
         {
-            Status status = Deserialize( value, name, data );
+            Status status = FindOptional( value, name );
 
-            if ( status != Status::kOk && status != Status::kNameNotPresent )
+            if ( status == Status::kOk )
+            {
+                status = Deserialize( value, name, data );
+
+                if ( status != Status::kOk )
+                {
+                    return status;
+                }
+            }
+            else if ( status != Status::kNameNotPresent )
             {
                 return status;
             }
-- 
2.43.0


From 589110190c0fbb4aa8d4c9ad33b367e9230fe00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 43/55] fix: an ObjectMap of ObjectMaps did not compile

---
 Code/Json4C4/C4Json.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 2e1b632..7f4a3ee 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -230,6 +230,11 @@ namespace C4
         {
         public:
             using ElementType = ObjectMapElement<ValueType>;
+
+            // Not an aggregate, so that a map can be an element of a map
+            ObjectMap()
+            {
+            }
         };
 
         class Value : public Terathon::MapElement<Value>
-- 
2.43.0


From b9d06bddb3f637ab28bf17cf17baf6d0b06a212c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:31 +0000
Subject: [PATCH 44/55] fix: appending a fixed-size string to itself repeated
 it until the string was full

---
 Code/Terathon/TSString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSString.h b/Code/Terathon/TSString.h
index 826a277..d651a48 100644
--- a/Code/Terathon/TSString.h
+++ b/Code/Terathon/TSString.h
@@ -268,7 +268,7 @@ namespace Terathon
 			String& operator +=(const char *s)
 			{
 				int32 l = GetStringLength();
-				Text::CopyText(s, &c[l], len - l);
+				Text::CopyText(s, &c[l], Min(len - l, Text::GetTextLength(s)));
 				return (*this);
 			}
 
-- 
2.43.0


From 38c3bb155585b06570ce70ab7defcb2376ff5a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:26 +0000
Subject: [PATCH 45/55] fix: numbers of ten and more digits were ordered by
 their value modulo 2^32 in number-aware comparison

---
 Code/Terathon/TSText.cpp | 128 ++++++++++++++++-----------------------
 1 file changed, 51 insertions(+), 77 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index e0880c4..dddbab4 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -942,54 +942,63 @@ bool Text::CompareTextLessEqualCaseless(const char *s1, const char *s2, int32 ma
 	return (true);
 }
 
-bool Text::CompareNumberedTextLessThan(const char *s1, const char *s2)
+// Compares the numbers whose first digits have just been read, and advances both strings past their last digits.
+// The numbers can have any count of digits. Equal numbers are ordered by the count of their leading zeros.
+
+static int32 CompareDigits(const char *& s1, const char *& s2)
 {
-	for (;;)
+	const char *n1 = s1 - 1;
+	const char *n2 = s2 - 1;
+
+	while (uint32(*s1) - '0' < 10U)
 	{
-		uint32 x = *reinterpret_cast<const uint8 *>(s1++);
-		uint32 y = *reinterpret_cast<const uint8 *>(s2++);
+		s1++;
+	}
 
-		uint32 xnum = x - '0';
-		uint32 ynum = y - '0';
+	while (uint32(*s2) - '0' < 10U)
+	{
+		s2++;
+	}
 
-		if ((xnum < 10U) && (ynum < 10U))
-		{
-			int32 xcount = 1;
-			int32 ycount = 1;
+	machine count = (s1 - n1) - (s2 - n2);
 
-			for (;;)
-			{
-				x = *reinterpret_cast<const uint8 *>(s1) - '0';
-				if (x >= 10U)
-				{
-					break;
-				}
+	while ((n1 < s1) && (*n1 == '0'))
+	{
+		n1++;
+	}
 
-				xnum = xnum * 10 + x;
-				xcount++;
-				s1++;
-			}
+	while ((n2 < s2) && (*n2 == '0'))
+	{
+		n2++;
+	}
 
-			for (;;)
-			{
-				y = *reinterpret_cast<const uint8 *>(s2) - '0';
-				if (y >= 10U)
-				{
-					break;
-				}
+	machine order = (s1 - n1) - (s2 - n2);
+	for (; (order == 0) && (n1 < s1); n1++, n2++)
+	{
+		order = *n1 - *n2;
+	}
 
-				ynum = ynum * 10 + y;
-				ycount++;
-				s2++;
-			}
+	if (order == 0)
+	{
+		order = count;
+	}
 
-			if (xnum != ynum)
-			{
-				return (xnum < ynum);
-			}
-			else if (xcount != ycount)
+	return ((order > 0) - (order < 0));
+}
+
+bool Text::CompareNumberedTextLessThan(const char *s1, const char *s2)
+{
+	for (;;)
+	{
+		uint32 x = *reinterpret_cast<const uint8 *>(s1++);
+		uint32 y = *reinterpret_cast<const uint8 *>(s2++);
+
+		if ((x - '0' < 10U) && (y - '0' < 10U))
+		{
+			int32 order = CompareDigits(s1, s2);
+			if (order != 0)
 			{
-				return (xcount < ycount);
+				return (order < 0);
 			}
 		}
 		else
@@ -1009,47 +1018,12 @@ bool Text::CompareNumberedTextLessThanCaseless(const char *s1, const char *s2)
 		uint32 x = *reinterpret_cast<const uint8 *>(s1++);
 		uint32 y = *reinterpret_cast<const uint8 *>(s2++);
 
-		uint32 xnum = x - '0';
-		uint32 ynum = y - '0';
-
-		if ((xnum < 10U) && (ynum < 10U))
+		if ((x - '0' < 10U) && (y - '0' < 10U))
 		{
-			int32 xcount = 1;
-			int32 ycount = 1;
-
-			for (;;)
-			{
-				x = *reinterpret_cast<const uint8 *>(s1) - '0';
-				if (x >= 10U)
-				{
-					break;
-				}
-
-				xnum = xnum * 10 + x;
-				xcount++;
-				s1++;
-			}
-
-			for (;;)
-			{
-				y = *reinterpret_cast<const uint8 *>(s2) - '0';
-				if (y >= 10U)
-				{
-					break;
-				}
-
-				ynum = ynum * 10 + y;
-				ycount++;
-				s2++;
-			}
-
-			if (xnum != ynum)
-			{
-				return (xnum < ynum);
-			}
-			else if (xcount != ycount)
+			int32 order = CompareDigits(s1, s2);
+			if (order != 0)
 			{
-				return (xcount < ycount);
+				return (order < 0);
 			}
 		}
 		else
-- 
2.43.0


From e9e1d104f7878ccec93bed6ab7a00b797f0a0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:29 +0000
Subject: [PATCH 46/55] fix: the constant hash value of a string with bytes
 above 127 was not its hash value

---
 Code/Terathon/TSText.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSText.h b/Code/Terathon/TSText.h
index d29392f..e968ba7 100644
--- a/Code/Terathon/TSText.h
+++ b/Code/Terathon/TSText.h
@@ -398,7 +398,7 @@ namespace Terathon
 				{
 					enum : uint32
 					{
-						hash = (c == 0) ? h : uint32((h ^ c) * 0x6B84DF47ULL + 1)
+						hash = (c == 0) ? h : uint32((h ^ uint8(c)) * 0x6B84DF47ULL + 1)
 					};
 				};
 
-- 
2.43.0


From 3ad89896875d7f10cd73abbe0ea7b39306aa2904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:46 +0000
Subject: [PATCH 47/55] fix: leave the document empty when serialisation fails,
 not half filled

---
 Code/Json4C4/C4Json.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 7f4a3ee..f09ce60 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -664,7 +664,7 @@ namespace C4
                     return status;
                 }
 
-                return MayThrow(
+                status = MayThrow(
                     [ & ]()
                     {
                         if constexpr ( Detail::HasSerializeMember<T>::Value )
@@ -676,6 +676,14 @@ namespace C4
                             return Serialize( this->GetRootJsonValue(), data );
                         }
                     } );
+
+                if ( status != Status::kOk )
+                {
+                    delete rootJsonValue;
+                    rootJsonValue = nullptr;
+                }
+
+                return status;
             }
         };
 
-- 
2.43.0


From 02ea14796a2f8cb6e77e31b4543c74224a561937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:15 +0000
Subject: [PATCH 48/55] fix: release what an array copy has made when copying
 an element throws

---
 Code/Terathon/TSArray.h | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index cc922a4..e7fb340 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -377,24 +377,20 @@ namespace Terathon
 	}
 
 	template <typename type, int32 baseCount>
-	Array<type, baseCount>::Array(const Array& array)
+	Array<type, baseCount>::Array(const Array& array) : Array()
 	{
-		elementCount = array.elementCount;
+		// The object is complete here, so its destructor releases everything if a copy throws.
 
-		if (elementCount > baseCount)
+		if (array.elementCount > baseCount)
 		{
+			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * array.reservedCount]);
 			reservedCount = array.reservedCount;
-			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
-		}
-		else
-		{
-			reservedCount = baseCount;
-			arrayPointer = reinterpret_cast<type *>(arrayStorage);
 		}
 
-		for (machine a = 0; a < elementCount; a++)
+		for (machine a = 0; a < array.elementCount; a++)
 		{
 			new(&arrayPointer[a]) type(array.arrayPointer[a]);
+			elementCount++;
 		}
 	}
 
@@ -720,22 +716,14 @@ namespace Terathon
 	}
 
 	template <typename type>
-	Array<type, 0>::Array(const Array& array)
+	Array<type, 0>::Array(const Array& array) : Array(array.reservedCount)
 	{
-		elementCount = array.elementCount;
-		reservedCount = array.reservedCount;
+		// The object is complete here, so its destructor releases everything if a copy throws.
 
-		if (reservedCount > 0)
-		{
-			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
-			for (machine a = 0; a < elementCount; a++)
-			{
-				new(&arrayPointer[a]) type(array.arrayPointer[a]);
-			}
-		}
-		else
+		for (machine a = 0; a < array.elementCount; a++)
 		{
-			arrayPointer = nullptr;
+			new(&arrayPointer[a]) type(array.arrayPointer[a]);
+			elementCount++;
 		}
 	}
 
-- 
2.43.0


From 0249cb2d88c82d26ab2c0efe010709e16b99fee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:15 +0000
Subject: [PATCH 49/55] fix: VecFloorCeil leaves numbers beyond 2^23 as they
 are, like VecFloor and VecCeil

---
 Code/Terathon/TSSimd.h | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/Code/Terathon/TSSimd.h b/Code/Terathon/TSSimd.h
index 059eaa7..c10ac21 100644
--- a/Code/Terathon/TSSimd.h
+++ b/Code/Terathon/TSSimd.h
@@ -1529,8 +1529,11 @@ namespace Terathon
 				const vec_float two23 = VecLoadVectorConstant<0x4B000000>();
 
 				vec_float result = _mm_sub_ps(_mm_add_ps(_mm_add_ps(_mm_sub_ps(v, two23), two23), two23), two23);
-				*f = _mm_sub_ps(result, _mm_and_ps(one, _mm_cmplt_ps(v, result)));
-				*c = _mm_add_ps(result, _mm_and_ps(one, _mm_cmplt_ps(result, v)));
+				vec_float vf = _mm_sub_ps(result, _mm_and_ps(one, _mm_cmplt_ps(v, result)));
+				vec_float vc = _mm_add_ps(result, _mm_and_ps(one, _mm_cmplt_ps(result, v)));
+				vec_float mask = _mm_cmplt_ps(two23, _mm_andnot_ps(VecFloatGetMinusZero(), v));
+				*f = _mm_or_ps(_mm_andnot_ps(mask, vf), _mm_and_ps(mask, v));
+				*c = _mm_or_ps(_mm_andnot_ps(mask, vc), _mm_and_ps(mask, v));
 
 			#endif
 
@@ -1540,8 +1543,11 @@ namespace Terathon
 			const vec_float two23 = vdupq_n_f32(8388608.0F);
 
 			vec_float result = vsubq_f32(vaddq_f32(vaddq_f32(vsubq_f32(v, two23), two23), two23), two23);
-			*f = vsubq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(v, result))));
-			*c = vaddq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(result, v))));
+			vec_float vf = vsubq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(v, result))));
+			vec_float vc = vaddq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(result, v))));
+			vec_uint32 mask = vcltq_f32(two23, vabsq_f32(v));
+			*f = vbslq_f32(mask, v, vf);
+			*c = vbslq_f32(mask, v, vc);
 
 		#endif
 	}
@@ -1561,8 +1567,11 @@ namespace Terathon
 				const vec_float two23 = VecLoadVectorConstant<0x4B000000>();
 
 				vec_float result = _mm_sub_ss(_mm_add_ss(_mm_add_ss(_mm_sub_ss(v, two23), two23), two23), two23);
-				*f = _mm_sub_ss(result, _mm_and_ps(one, _mm_cmplt_ps(v, result)));
-				*c = _mm_add_ss(result, _mm_and_ps(one, _mm_cmplt_ps(result, v)));
+				vec_float vf = _mm_sub_ss(result, _mm_and_ps(one, _mm_cmplt_ps(v, result)));
+				vec_float vc = _mm_add_ss(result, _mm_and_ps(one, _mm_cmplt_ps(result, v)));
+				vec_float mask = _mm_cmplt_ps(two23, _mm_andnot_ps(VecFloatGetMinusZero(), v));
+				*f = _mm_or_ps(_mm_andnot_ps(mask, vf), _mm_and_ps(mask, v));
+				*c = _mm_or_ps(_mm_andnot_ps(mask, vc), _mm_and_ps(mask, v));
 
 			#endif
 
@@ -1572,8 +1581,11 @@ namespace Terathon
 			const vec_float two23 = vdupq_n_f32(8388608.0F);
 
 			vec_float result = vsubq_f32(vaddq_f32(vaddq_f32(vsubq_f32(v, two23), two23), two23), two23);
-			*f = vsubq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(v, result))));
-			*c = vaddq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(result, v))));
+			vec_float vf = vsubq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(v, result))));
+			vec_float vc = vaddq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(result, v))));
+			vec_uint32 mask = vcltq_f32(two23, vabsq_f32(v));
+			*f = vbslq_f32(mask, v, vf);
+			*c = vbslq_f32(mask, v, vc);
 
 		#endif
 	}
-- 
2.43.0


From 0d1da79dafcb590b097cbd9fb7bc56630dea0fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:19 +0000
Subject: [PATCH 50/55] fix: Exchange of an integer with itself keeps it

---
 Code/Terathon/TSBasic.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Terathon/TSBasic.h b/Code/Terathon/TSBasic.h
index 0dc8e42..afa269e 100644
--- a/Code/Terathon/TSBasic.h
+++ b/Code/Terathon/TSBasic.h
@@ -115,9 +115,9 @@ namespace Terathon
 	template <typename type>
 	inline void Exchange(type& x, type& y)
 	{
-		x ^= y;
-		y ^= x;
-		x ^= y;
+		type t = x;
+		x = y;
+		y = t;
 	}
 
 	template <>
-- 
2.43.0


From 035367c1f7b50de4b0616696efc3d9f6fe179160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:24 +0000
Subject: [PATCH 51/55] fix: the sign of the least integer is negative

---
 Code/Terathon/TSBasic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSBasic.h b/Code/Terathon/TSBasic.h
index afa269e..5861cc0 100644
--- a/Code/Terathon/TSBasic.h
+++ b/Code/Terathon/TSBasic.h
@@ -42,12 +42,12 @@ namespace Terathon
 
 	inline int32 Sgn(int32 x)
 	{
-		return ((x >> 31) - (-x >> 31));
+		return ((x > 0) - (x < 0));
 	}
 
 	inline int64 Sgn64(int64 x)
 	{
-		return ((x >> 63) - (-x >> 63));
+		return ((x > 0) - (x < 0));
 	}
 
 
-- 
2.43.0


From f03ac8315579d7024b1670d73cd767668f461bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:31 +0000
Subject: [PATCH 52/55] fix: floats below 1e-37 are displayed with their own
 digits

---
 Code/Terathon/TSText.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index dddbab4..ee5d6c3 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1309,7 +1309,7 @@ int32 Text::FloatToString(float num, char *text, int32 max)
 	if ((absolute < 1.0e-4F) || (!(absolute < 1.0e5F)))
 	{
 		float f = Floor(Log(absolute) * Math::one_over_ln_10);
-		absolute /= Exp(f * Math::ln_10);
+		absolute = (f < 0.0F) ? absolute * Exp(-f * Math::ln_10) : absolute / Exp(f * Math::ln_10);
 		power = int32(f);
 
 		binary = *reinterpret_cast<int32 *>(&absolute);
-- 
2.43.0


From 89d5e94944c25cd53f41b9ba464429997decc34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:21 +0000
Subject: [PATCH 53/55] fix: the sine with vector instructions uses the
 coefficients of its series in their order

---
 Code/Terathon/TSMath.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSMath.cpp b/Code/Terathon/TSMath.cpp
index 5f6159a..7c0871b 100644
--- a/Code/Terathon/TSMath.cpp
+++ b/Code/Terathon/TSMath.cpp
@@ -234,7 +234,7 @@ float Terathon::Sin(float x)
 		vec_float sine_alpha = VecLoadScalar(&cossin.y);
 
 		vec_float b2 = VecMulScalar(b, b);
-		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3E2AAAAB>(), VecLoadScalarConstant<0x3C088889>()), b);
+		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3C088889>(), VecLoadScalarConstant<0x3E2AAAAB>()), b);
 		vec_float cosine_beta = VecNmsubScalar(b2, VecNmsub(b2, VecLoadScalarConstant<0x3D2AAAAB>(), VecLoadScalarConstant<0x3F000000>()), VecLoadScalarConstant<0x3F800000>());
 
 		vec_float sine = VecMaddScalar(sine_alpha, cosine_beta, VecMulScalar(cosine_alpha, sine_beta));
@@ -275,7 +275,7 @@ float Terathon::Cos(float x)
 		vec_float sine_alpha = VecLoadScalar(&cossin.y);
 
 		vec_float b2 = VecMulScalar(b, b);
-		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3E2AAAAB>(), VecLoadScalarConstant<0x3C088889>()), b);
+		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3C088889>(), VecLoadScalarConstant<0x3E2AAAAB>()), b);
 		vec_float cosine_beta = VecNmsubScalar(b2, VecNmsub(b2, VecLoadScalarConstant<0x3D2AAAAB>(), VecLoadScalarConstant<0x3F000000>()), VecLoadScalarConstant<0x3F800000>());
 
 		VecStoreX(VecSubScalar(VecMulScalar(cosine_alpha, cosine_beta), VecMulScalar(sine_alpha, sine_beta)), &result);
@@ -313,7 +313,7 @@ float Terathon::Tan(float x)
 		vec_float sine_alpha = VecLoadScalar(&cossin.y);
 
 		vec_float b2 = VecMulScalar(b, b);
-		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3E2AAAAB>(), VecLoadScalarConstant<0x3C088889>()), b);
+		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3C088889>(), VecLoadScalarConstant<0x3E2AAAAB>()), b);
 		vec_float cosine_beta = VecNmsubScalar(b2, VecNmsub(b2, VecLoadScalarConstant<0x3D2AAAAB>(), VecLoadScalarConstant<0x3F000000>()), VecLoadScalarConstant<0x3F800000>());
 
 		VecStoreX(VecMaddScalar(sine_alpha, cosine_beta, VecMulScalar(cosine_alpha, sine_beta)), &sine);
@@ -356,7 +356,7 @@ void Terathon::CosSin(float x, float *c, float *s)
 		vec_float sine_alpha = VecLoadScalar(&cossin.y);
 
 		vec_float b2 = VecMulScalar(b, b);
-		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3E2AAAAB>(), VecLoadScalarConstant<0x3C088889>()), b);
+		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3C088889>(), VecLoadScalarConstant<0x3E2AAAAB>()), b);
 		vec_float cosine_beta = VecNmsubScalar(b2, VecNmsub(b2, VecLoadScalarConstant<0x3D2AAAAB>(), VecLoadScalarConstant<0x3F000000>()), VecLoadScalarConstant<0x3F800000>());
 
 		vec_float sine = VecMaddScalar(sine_alpha, cosine_beta, VecMulScalar(cosine_alpha, sine_beta));
-- 
2.43.0


From 00a3d091cfe56af6d22a9d093bf47b208d18c699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:12 +0000
Subject: [PATCH 54/55] fix: the exponential of large numbers is infinite, not
 zero

---
 Code/Terathon/TSMath.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSMath.cpp b/Code/Terathon/TSMath.cpp
index 7c0871b..6842ed8 100644
--- a/Code/Terathon/TSMath.cpp
+++ b/Code/Terathon/TSMath.cpp
@@ -478,9 +478,9 @@ float Terathon::Arctan(float y, float x)
 
 float Terathon::Exp(float x)
 {
-	// Values of exp(n) for integers n in the range [-88, 91].
+	// Values of exp(n) for integers n in the range [-88, 89].
 
-	alignas(64) static const uint32 table[180] =
+	alignas(64) static const uint32 table[178] =
 	{
 		0x00000000, 0x00B33687, 0x01739362, 0x022586E0, 0x02E0F96D, 0x0398E2CB, 0x044FCB22, 0x050D35D7,
 		0x05BFECBA, 0x06826D27, 0x07314490, 0x07F0EE94, 0x08A3BAF0, 0x095E884F, 0x0A1739FB, 0x0ACD89C1,
@@ -508,7 +508,7 @@ float Terathon::Exp(float x)
 	};
 
 	float f = Floor(x);
-	int32 i = int32(f) + 88;
+	int32 i = int32(Clamp(f, -88.0F, 89.0F)) + 88;
 	if (i > 0)
 	{
 		x -= f;
@@ -522,7 +522,7 @@ float Terathon::Exp(float x)
 		r = r * x + 1.0F / 6.0F;
 		r = r * x + 0.5F;
 
-		return ((r * (x * x) + (x + 1.0F)) * reinterpret_cast<const float *>(table)[(i < 179) ? i : 179]);
+		return ((r * (x * x) + (x + 1.0F)) * reinterpret_cast<const float *>(table)[i]);
 	}
 
 	return (0.0F);
-- 
2.43.0


From d09a7ca70791dd16d948ef1c2987514ead9d6d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:30 +0000
Subject: [PATCH 55/55] fix: displaying a float shifts its mantissa without
 overflow

---
 Code/Terathon/TSText.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index ee5d6c3..a05c8b2 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1330,7 +1330,7 @@ int32 Text::FloatToString(float num, char *text, int32 max)
 	if (exponent >= 0)
 	{
 		int32 whole = mantissa >> (23 - exponent);
-		mantissa = (mantissa << exponent) & 0x007FFFFF;
+		mantissa = int32((uint32(mantissa) << exponent) & 0x007FFFFF);
 
 		len += IntegerToString(whole, &text[len], max - len);
 		if (len < max)
-- 
2.43.0

