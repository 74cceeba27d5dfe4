------------------------------ MODULE Messages ------------------------------
(***************************************************************************)
(* How a parse result is rendered: the message of its status and, when the *)
(* result has a position, the position. An exception has no position.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

Status == {"kOk", "KFileOpenError", "KFileReadError", "KFileTooLarge", "kTextBufferContentsInvalid", "kUnterminatedTextBuffer",
  "kExpectedOpeningCurlyBraces", "kExpectedClosingCurlyBracesOrComma", "kExpectedOpeningSquareBrackets",
  "kExpectedClosingSquareBracketsOrComma", "kStringIllegalChar", "kStringIllegalEscape", "kExpectedColon",
  "kExpectedBeginingDoubleQuotes", "kExpectedEndingDoubleQuotes", "kFloatInvalid", "kExpectedTrueOrFalse", "kExpectedNull",
  "kExpectedJsonValue", "kExpectedEndOfFile", "kPrematureNullTerminator", "kNumbersCannotHaveLeadingZeros",
  "kInvalidStructuredData", "kMissingObjectElement", "kException", "kInvalidValueType", "kNameNotPresent",
  "kNestingTooDeep", "KFileWriteError"}

\* statuses that can come with a position in the text
Positioned == {"kExpectedClosingCurlyBracesOrComma", "kExpectedClosingSquareBracketsOrComma", "kStringIllegalChar", "kStringIllegalEscape",
  "kExpectedColon", "kExpectedBeginingDoubleQuotes", "kExpectedJsonValue", "kExpectedEndOfFile", "kPrematureNullTerminator",
  "kNumbersCannotHaveLeadingZeros", "kNestingTooDeep"}

Suffix(l, c) == IF l = 0 THEN "" ELSE ". Line: " \o ToString(l) \o ", column: " \o ToString(c)

VARIABLES s, l, c
Init == /\ s \in Status
        /\ \/ l = 0 /\ c = 0
           \/ s \in Positioned /\ l \in {1, 9, 10, 12345} /\ c \in {1, 2, 99, 100000, 2147483647}
Next == FALSE /\ UNCHANGED <<s, l, c>>
Spec == Init /\ [][Next]_<<s, l, c>>
Emitted == PrintT(<<"V", ToJson(<<s, l, c, Suffix(l, c)>>)>>)
=============================================================================
