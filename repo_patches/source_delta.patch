From 999753a8d6360a303f98a97697255a0f22fe45d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:31 +0000
Subject: [PATCH 01/19] fix: accept a leading vowel at the end of a word

A leading vowel other than SARA E at the end of a word made the parser
look at the character after the end, and the program aborted.
Stop there with no reading, as is already done for SARA E.
---
 parser/parser.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index 6641bd0..d69a4a8 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -1498,6 +1498,10 @@ ParseOtherLV (const u16string& u16word, const ParseState& state,
     assert (th_wcisldvowel (u16word.at (state.pos)));
     assert (UTH_SARA_E != u16word.at (state.pos));
 
+    if (state.pos + 1 >= state.stopPos) {
+        return;
+    }
+
     auto ldv = u16word.at (state.pos);
 
     list<PartialSyl> partialSyls = MatchInitCons (u16word, state.pos + 1,
-- 
2.43.0


From 064848d930861b9bc24f898aa222d36b9c076e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:31 +0000
Subject: [PATCH 02/19] fix: do not dereference the end of an empty
 pronunciation list

JSON output of a word without any reading, and JSON or Roman output of an
empty syllable string, read past the end of the list and crashed.
Write an empty array (or an empty string) instead.
---
 output/output-json.cxx  | 19 +++++++++++--------
 output/output-roman.cxx |  3 +++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/output/output-json.cxx b/output/output-json.cxx
index f37fbb9..ab8ceeb 100644
--- a/output/output-json.cxx
+++ b/output/output-json.cxx
@@ -11,10 +11,12 @@ JsonOutput::output (const SylString& sylStr) const
 {
     string outStr;
 
-    auto i = sylStr.begin();
-    outStr = "[\"" + mSylOutput->output (*i) + "\"";
-    while (++i != sylStr.end()) {
-        outStr += ",\"" + mSylOutput->output (*i) + "\"";
+    outStr = "[";
+    for (auto i = sylStr.begin(); i != sylStr.end(); ++i) {
+        if (i != sylStr.begin()) {
+            outStr += ",";
+        }
+        outStr += "\"" + mSylOutput->output (*i) + "\"";
     }
     outStr += "]";
 
@@ -27,10 +29,11 @@ JsonOutput::output (const list<SylString>& strList) const
     string outStr;
 
     outStr = "[";
-    auto i = strList.begin();
-    outStr += output (*i);
-    while (++i != strList.end()) {
-        outStr += "," + output (*i);
+    for (auto i = strList.begin(); i != strList.end(); ++i) {
+        if (i != strList.begin()) {
+            outStr += ",";
+        }
+        outStr += output (*i);
     }
     outStr += "]";
 
diff --git a/output/output-roman.cxx b/output/output-roman.cxx
index b0e8f57..c1ff35d 100644
--- a/output/output-roman.cxx
+++ b/output/output-roman.cxx
@@ -14,6 +14,9 @@ RomanOutput::output (const SylString& sylStr) const
     string outStr;
 
     auto i = sylStr.begin();
+    if (i == sylStr.end())
+        return outStr;
+
     outStr = mRomanSylOutput.output (*i);
     if (mIsCapitalize) {
         outStr[0] = toupper (outStr[0]);
-- 
2.43.0


From 7ff5b26d28fd67cf57b407e9edd896c0c3815c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:31 +0000
Subject: [PATCH 03/19] fix: escape special characters in JSON strings

Non-Thai text is copied to the output as is. Quotes, backslashes and
control characters in it made the JSON output invalid.
---
 output/output-json.cxx | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/output/output-json.cxx b/output/output-json.cxx
index ab8ceeb..26a088d 100644
--- a/output/output-json.cxx
+++ b/output/output-json.cxx
@@ -4,8 +4,31 @@
 
 #include "output-json.h"
 
+#include <cstdio>
+
 using namespace std;
 
+static string
+JsonQuote (const string& str)
+{
+    string outStr = "\"";
+
+    for (unsigned char c : str) {
+        if ('"' == c || '\\' == c) {
+            outStr += '\\';
+            outStr += c;
+        } else if (c < 0x20) {
+            char buff[8];
+            snprintf (buff, sizeof (buff), "\\u%04x", c);
+            outStr += buff;
+        } else {
+            outStr += c;
+        }
+    }
+
+    return outStr + "\"";
+}
+
 string
 JsonOutput::output (const SylString& sylStr) const
 {
@@ -16,7 +39,7 @@ JsonOutput::output (const SylString& sylStr) const
         if (i != sylStr.begin()) {
             outStr += ",";
         }
-        outStr += "\"" + mSylOutput->output (*i) + "\"";
+        outStr += JsonQuote (mSylOutput->output (*i));
     }
     outStr += "]";
 
-- 
2.43.0


From 5da8ce876e77b75d8d6ffb4d1e3977cd89e577d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:31 +0000
Subject: [PATCH 04/19] fix: reject truncated dictionary files cleanly

When the word index could be read but its data could not, the index was
kept, and the first word found in it crashed the program.
Drop the index as well, so that the program works without the dictionary,
as its warning says. Also refuse a negative data size, accept a dictionary
without entries, and terminate the last entry.
---
 dict/dict.cxx | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index 7d32077..aae34cd 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -30,11 +30,16 @@ ReadDataBank (FILE* input)
     if (!ReadInt32 (input, bankSize))
         return nullptr;
 
-    char* data = new char[bankSize];
-    if (fread (data, bankSize, 1, input) != 1) {
+    if (bankSize < 0)
+        return nullptr;
+
+    // with extra null terminator, in case the last entry misses it
+    char* data = new char[static_cast<size_t> (bankSize) + 1];
+    if (bankSize > 0 && fread (data, bankSize, 1, input) != 1) {
         delete[] data;
         return nullptr;
     }
+    data[bankSize] = '\0';
 
     return data;
 }
@@ -52,7 +57,14 @@ Dict::open (const char* dictPath)
     mData = ReadDataBank (dictFile);
 
     fclose (dictFile);
-    return mTrie != nullptr && mData != nullptr;
+
+    if (!mTrie || !mData) {
+        // do not leave the dict half open
+        close();
+        return false;
+    }
+
+    return true;
 }
 
 void
-- 
2.43.0


From 5af0f889e9de391a9db40ab7491435df7c793a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:32 +0000
Subject: [PATCH 05/19] fix: recognize --help at any position

The first argument was looked at, whatever the position of the option.
This could also read past the end of a short first argument.
---
 thpronun/thpronun.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index 66815fd..b03d58b 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -201,7 +201,7 @@ main (int argc, const char* argv[])
                 if (strcmp (argv[i]+2, "version") == 0) {
                     Version (argv[0]);
                     return 1;
-                } else if (strcmp (argv[1]+2, "help") == 0) {
+                } else if (strcmp (argv[i]+2, "help") == 0) {
                     Usage (argv[0]);
                     return 1;
                 } else {
-- 
2.43.0


From bb86b50cc01f5dee62e5a1fefcccc2219e998c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:32 +0000
Subject: [PATCH 06/19] fix: report invalid UTF-8 input instead of aborting

One word that is not valid UTF-8 ended the program, leaving the remaining
words unread. Report it and go on with the next word.
---
 thpronun/thpronun.cxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index b03d58b..936cb0f 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -13,6 +13,7 @@
 #include <list>
 #include <memory>
 #include <cstring>
+#include <stdexcept>
 
 #define EXCEPT_DICT_NAME "except.dic"
 #define EXCEPT_DICT_PATH EXCEPT_DICT_DIR "/" EXCEPT_DICT_NAME
@@ -24,9 +25,13 @@ DoParse (const Parser& parser, string word,
          const list<unique_ptr<IOutput>>& stringOutputs)
 {
     cout << word << ":" << endl;
-    auto pronDAG = parser.parseWord (word);
-    for (const auto& strOut : stringOutputs) {
-        cout << strOut->output (pronDAG) << endl;;
+    try {
+        auto pronDAG = parser.parseWord (word);
+        for (const auto& strOut : stringOutputs) {
+            cout << strOut->output (pronDAG) << endl;;
+        }
+    } catch (const range_error&) {
+        cerr << "Invalid UTF-8 input '" << word << "'" << endl;
     }
 }
 
-- 
2.43.0


From fc256b75594ec1fa11785a90e8a21fd1c2cc2d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:32 +0000
Subject: [PATCH 07/19] fix: do not break strict aliasing in gen-lookup-dict

A char pointer was updated through an unsigned char **. With optimization
the update was not seen, and the generated dictionary was empty.
---
 dict/gen-lookup-dict.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index 12b608f..c3061f7 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -182,6 +182,7 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
 {
     char *line = (char *) malloc (wordMax);
     char *pLine;
+    const unsigned char *pUTF8;
     size_t lineLeft;
     uint32_t *pWord;
 
@@ -207,10 +208,10 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
     strncpy (data, pLine + 1, dataMax);
 
     /* read UTF-8-encoded word */
-    pLine = line;
+    pUTF8 = (const unsigned char *) line;
     pWord = word;
-    while (*pLine && pWord - word < wordMax - 1) {
-        if (GetUTF8 ((const unsigned char **)&pLine, pWord) == EXIT_SUCCESS) {
+    while (*pUTF8 && pWord - word < wordMax - 1) {
+        if (GetUTF8 (&pUTF8, pWord) == EXIT_SUCCESS) {
             pWord++;
         } else {
             fprintf (stderr, "Fail to convert word '%s'.\n", line);
-- 
2.43.0


From ee8abdf3b4e3b4708a59a558c4d4fac2e2a2225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:32 +0000
Subject: [PATCH 08/19] fix: let gen-lookup-dict fail on bad input and write
 errors

A malformed line was taken for the end of the input, and write errors were
ignored. An incomplete dictionary was left, and the exit status was zero.
---
 dict/gen-lookup-dict.c | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index c3061f7..d15d8cc 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -109,7 +109,9 @@ DataBankWrite (const DataBank *bank, FILE *output)
     if (FileWriteInt32 (output, bank->dataSize) != EXIT_SUCCESS) {
         return EXIT_FAILURE;
     }
-    if (fwrite (bank->pool, bank->dataSize, 1, output) != 1) {
+    if (bank->dataSize > 0
+        && fwrite (bank->pool, bank->dataSize, 1, output) != 1)
+    {
         return EXIT_FAILURE;
     }
 
@@ -186,12 +188,17 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
     size_t lineLeft;
     uint32_t *pWord;
 
-    if (!fgets (line, wordMax, input))
+    if (!fgets (line, wordMax, input)) {
+        if (ferror (input)) {
+            fprintf (stderr, "Fail to read input file.\n");
+            goto err;
+        }
         goto eof;
+    }
 
     /* trim newline */
     lineLeft = strlen (line);
-    if (line[lineLeft - 1] == '\n') {
+    if (lineLeft > 0 && line[lineLeft - 1] == '\n') {
         line[--lineLeft] = '\0';
     }
 
@@ -224,6 +231,9 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
     return EXIT_SUCCESS;
 
 eof:
+    free (line);
+    return EOF;
+
 err:
     free (line);
     return EXIT_FAILURE;
@@ -236,9 +246,11 @@ GenDict (FILE *input, FILE *output)
     char data[256];
     Trie *trie = NewTrie();
     DataBank *bank = NewDataBank();
+    int readStatus;
 
-    while (ReadInput (word, N_ELM (word),
-                      data, N_ELM (data), input) == EXIT_SUCCESS)
+    while ((readStatus = ReadInput (word, N_ELM (word),
+                                    data, N_ELM (data), input))
+               == EXIT_SUCCESS)
     {
         int dataIdx = DataBankAddData (bank, data);
         if (dataIdx < 0) {
@@ -262,8 +274,16 @@ GenDict (FILE *input, FILE *output)
         }
     }
 
-    trie_fwrite (trie, output);
-    DataBankWrite (bank, output);
+    if (readStatus != EOF) {
+        goto err;
+    }
+
+    if (trie_fwrite (trie, output) != 0
+        || DataBankWrite (bank, output) != EXIT_SUCCESS)
+    {
+        fprintf (stderr, "Fail to write dictionary.\n");
+        goto err;
+    }
 
     FreeDataBank (bank);
     trie_free (trie);
@@ -310,7 +330,10 @@ main (int argc, const char *argv[])
         goto err_output_opened;
     }
 
-    fclose (output);
+    if (fclose (output) != 0) {
+        fprintf (stderr, "Fail to write output file \"%s\".\n", argv[2]);
+        goto err_input_opened;
+    }
     fclose (input);
 
     return EXIT_SUCCESS;
-- 
2.43.0


From 8b394c3d606b901f03e53f8423dc8f612da95fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:32 +0000
Subject: [PATCH 09/19] fix: restore Roman hyphens after a blank

After a blank syllable, hyphens were left out up to the end of the string,
and not only for the first syllable following the blank.
---
 output/output-roman.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/output/output-roman.cxx b/output/output-roman.cxx
index c1ff35d..933dd1f 100644
--- a/output/output-roman.cxx
+++ b/output/output-roman.cxx
@@ -40,6 +40,7 @@ RomanOutput::output (const SylString& sylStr) const
             outStr += '-';
         }
         outStr += mRomanSylOutput.output (*i);
+        isBegin = false;
     }
 
     return outStr;
-- 
2.43.0


From b1da7919a8e5bfd68906d85f122c561072287ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:32 +0000
Subject: [PATCH 10/19] fix: merge parse states behind one of the other kind
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

States are kept by position. When the first state at a position differed
in linking, the search for one to merge with stopped there, and the same
state was added again and again. Parsing took exponential time: seconds
for 25 characters of repeated "มาตรา".
---
 parser/parser.cxx | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index d69a4a8..e97c2c2 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -124,17 +124,20 @@ private:
 void
 StatePool::add (const ParseState& state)
 {
-    for (auto it = mStates.begin(); it != mStates.end(); ++it) {
-        if (it->pos == state.pos && it->isLinked == state.isLinked) {
-            it->pronDAG.unionDAG (state.pronDAG);
-            return;
-        }
-        if (it->pos >= state.pos) {
-            mStates.insert (it, state);
+    auto it = mStates.begin();
+    while (it != mStates.end() && it->pos < state.pos) {
+        ++it;
+    }
+    for (auto sameIt = it;
+         sameIt != mStates.end() && sameIt->pos == state.pos;
+         ++sameIt)
+    {
+        if (sameIt->isLinked == state.isLinked) {
+            sameIt->pronDAG.unionDAG (state.pronDAG);
             return;
         }
     }
-    mStates.push_back (state);
+    mStates.insert (it, state);
 }
 
 bool
-- 
2.43.0


From 50a2a82ab78f54d1b9a8284441556ba14b0a7b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:56 +0000
Subject: [PATCH 11/19] fix: refuse overlong or NUL-broken lines in
 gen-lookup-dict

A line longer than the read buffer was split, and its tail taken as another
entry if it held a TAB.  Text behind a NUL byte was dropped silently.
---
 dict/gen-lookup-dict.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index d15d8cc..3376cfe 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -200,6 +200,13 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
     lineLeft = strlen (line);
     if (lineLeft > 0 && line[lineLeft - 1] == '\n') {
         line[--lineLeft] = '\0';
+    } else {
+        int next = fgetc (input);
+        if (next != EOF) {
+            fprintf (stderr, "Line too long or broken by NUL.\n");
+            fprintf (stderr, "Line:%s\n", line);
+            goto err;
+        }
     }
 
     /* split fields */
-- 
2.43.0


From c266de08b12ed94314b8c0db22fc18fbf8946c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:39 +0000
Subject: [PATCH 12/19] fix: report UTF-8 input that ends inside a character

The conversion stops silently at an incomplete last character, so the word
was read without it.
---
 parser/parser.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index e97c2c2..7e61d9d 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -10,6 +10,7 @@
 #include <codecvt>
 #include <thai/thwctype.h>
 #include <cassert>
+#include <stdexcept>
 #include <unordered_map>
 #include <unordered_set>
 #include <vector>
@@ -1985,6 +1986,10 @@ Parser::parseWord (string word) const
     // convert UTF-8 word string to UTF-16
     wstring_convert<codecvt_utf8_utf16<char16_t>, char16_t> u16conv;
     u16string u16word = u16conv.from_bytes (word);
+    if (u16conv.converted() != word.size()) {
+        // incomplete sequence at the end is not an error to from_bytes()
+        throw range_error ("Incomplete UTF-8 sequence");
+    }
 
     auto brkPos = FindBreaks (u16word, mThBrk);
 
-- 
2.43.0


From e09964b564cb7113ee8bb79c791bc0b5b5d3bdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:09:39 +0000
Subject: [PATCH 13/19] fix: Fail with a message when the dictionary generator
 runs out of memory

The line buffer, the trie and the data bank were used without checking
that they could be allocated, so the generator crashed.
---
 dict/gen-lookup-dict.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index 3376cfe..de3192a 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -188,6 +188,11 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
     size_t lineLeft;
     uint32_t *pWord;
 
+    if (!line) {
+        fprintf (stderr, "Failed to allocate input line.\n");
+        return EXIT_FAILURE;
+    }
+
     if (!fgets (line, wordMax, input)) {
         if (ferror (input)) {
             fprintf (stderr, "Fail to read input file.\n");
@@ -255,6 +260,11 @@ GenDict (FILE *input, FILE *output)
     DataBank *bank = NewDataBank();
     int readStatus;
 
+    if (!trie || !bank) {
+        fprintf (stderr, "Failed to allocate dictionary.\n");
+        goto err;
+    }
+
     while ((readStatus = ReadInput (word, N_ELM (word),
                                     data, N_ELM (data), input))
                == EXIT_SUCCESS)
@@ -297,8 +307,12 @@ GenDict (FILE *input, FILE *output)
     return EXIT_SUCCESS;
 
 err:
-    FreeDataBank (bank);
-    trie_free (trie);
+    if (bank) {
+        FreeDataBank (bank);
+    }
+    if (trie) {
+        trie_free (trie);
+    }
     return EXIT_FAILURE;
 }
 
-- 
2.43.0


From aea948832e04c34d1297bf320bf0ef24b74d2ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:15:05 +0000
Subject: [PATCH 14/19] fix: Let a syllable of a string be assigned to the
 string

The string was cleared before the syllable was copied.
---
 sylstring/sylstring.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sylstring/sylstring.inl b/sylstring/sylstring.inl
index 177aff7..d51e22b 100644
--- a/sylstring/sylstring.inl
+++ b/sylstring/sylstring.inl
@@ -44,8 +44,10 @@ SylString::operator+= (const SylString& other)
 inline SylString&
 SylString::operator= (const Syl& syl)
 {
-    mSyls.clear();
-    return *this += syl;
+    // syl may belong to the string itself
+    std::list<Syl> syls (1, syl);
+    mSyls.swap (syls);
+    return *this;
 }
 
 inline SylString&
-- 
2.43.0


From dcc30a529b84fadc43ec5d7df0706759c1ae2dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:15:05 +0000
Subject: [PATCH 15/19] fix: Let an alternative of a fraction be assigned to
 the fraction

The alternatives were cleared before the assigned one was copied.
---
 lattice/lattice.inl | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lattice/lattice.inl b/lattice/lattice.inl
index 0f00c0d..6b2fe40 100644
--- a/lattice/lattice.inl
+++ b/lattice/lattice.inl
@@ -40,9 +40,11 @@ PronunFrac::operator= (const PronunFrac& other)
 inline PronunFrac&
 PronunFrac::operator= (const SylString& sylString)
 {
-    mAltPronuns.clear();
-    mEndPos = sylString.endPos();
-    return *this += sylString;
+    // sylString may be one of the alternatives
+    std::list<SylString> altPronuns (1, sylString);
+    mAltPronuns.swap (altPronuns);
+    mEndPos = mAltPronuns.front().endPos();
+    return *this;
 }
 
 inline int
-- 
2.43.0


From d5cd8e59431eb7cae5fa23610874007a061d2837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:17:33 +0000
Subject: [PATCH 16/19] fix: Ignore malformed pronunciations in dictionary
 entries

A pronunciation with wrong codes or places in a user's dictionary made the
program abort, read outside the text or recurse without end. Such a
pronunciation is now passed over; an entry with none left is not used.
---
 parser/parser.cxx | 80 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 72 insertions(+), 8 deletions(-)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index 7e61d9d..0ef05e2 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -1681,6 +1681,64 @@ ParseRuLu (const u16string& u16word, const ParseState& state, StatePool& pool)
     }
 }
 
+// Check that a pronunciation from the dictionary is well-formed and that its
+// syllables advance through the word.
+static bool
+IsValidPronun (const string& desc)
+{
+    static const string iCons1Codes = "kcgjJydtTnbpPfmrlwsh?";
+    static const string iCons2Codes = "_rlw";
+    static const string vowelCodes = "aAiIvVuUeExXyYzZtToOcCwW";
+    static const string eConsCodes = "_ktpgnmyw";
+    static const string toneCodes = "01234";
+
+    int pos = 0;
+    int preSylPos = 0;
+    size_t begin = 0;
+    size_t end;
+    do {
+        end = desc.find (',', begin);
+        const string syl = desc.substr (begin, end - begin);
+        if (syl.size() < 7
+            || iCons1Codes.find (syl[0]) == string::npos
+            || iCons2Codes.find (syl[1]) == string::npos
+            || vowelCodes.find (syl[2]) == string::npos
+            || eConsCodes.find (syl[3]) == string::npos
+            || toneCodes.find (syl[4]) == string::npos
+            || '@' != syl[5])
+        {
+            return false;
+        }
+
+        const bool isPreSyl = '-' == syl[6];
+        const string digits = syl.substr (isPreSyl ? 7 : 6);
+        if (digits.empty() || digits.size() > 6
+            || digits.find_first_not_of ("0123456789") != string::npos)
+        {
+            return false;
+        }
+        if (isPreSyl) {
+            if (preSylPos != 0)
+                return false;
+            preSylPos = -stoi (digits);
+            if (preSylPos == 0)
+                return false;
+        } else {
+            const int nextPos = stoi (digits);
+            if (nextPos <= pos)
+                return false;
+            // See AddSyl() for pre-syllable end pos encoding
+            if (preSylPos != 0 && preSylPos != -(pos * 100 + nextPos))
+                return false;
+            pos = nextPos;
+            preSylPos = 0;
+        }
+        begin = end + 1;
+    } while (end != string::npos);
+
+    return preSylPos == 0;
+}
+
 static list<SylString>
 MakeSylStrings (const string& desc)
 {
@@ -1688,14 +1746,14 @@ MakeSylStrings (const string& desc)
 
     size_t beginPos = 0;
     size_t endPos;
-    while ((endPos = desc.find (';', beginPos)) != string::npos) {
-        sylStrings.push_back (
-            SylString (desc.substr (beginPos, endPos - beginPos))
-        );
+    do {
+        endPos = desc.find (';', beginPos);
+        const string pronun = desc.substr (beginPos, endPos - beginPos);
+        if (IsValidPronun (pronun)) {
+            sylStrings.push_back (SylString (pronun));
+        }
         beginPos = endPos + 1;
-    }
-    // last one
-    sylStrings.push_back (SylString (desc.substr (beginPos)));
+    } while (endPos != string::npos);
 
     return sylStrings;
 }
@@ -1720,8 +1778,14 @@ FindExceptions (const u16string& u16word, const ParseState& state,
             continue;
         }
 
+        auto sylStrings = MakeSylStrings (match.getData());
+        if (sylStrings.empty()) {
+            // nothing usable
+            continue;
+        }
+
         PronunDAG newDAG = state.pronDAG;
-        for (auto& s : MakeSylStrings (match.getData())) {
+        for (auto& s : sylStrings) {
             s.shiftEndPos (state.pos);
             newDAG.addSylString (state.pos, s);
         }
-- 
2.43.0


From f895e58b25ea24a41336c27695a34fcbbabc4640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:17:33 +0000
Subject: [PATCH 17/19] fix: Report failure to read the words or write the
 answers

The program ended with status 0 when the output could not be written, for
example on a full disk, or when reading the input failed.
---
 thpronun/thpronun.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index 936cb0f..3f5c4df 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -12,6 +12,7 @@
 #include <iostream>
 #include <list>
 #include <memory>
+#include <cstdio>
 #include <cstring>
 #include <stdexcept>
 
@@ -293,6 +294,10 @@ main (int argc, const char* argv[])
         while (getline (cin, word)) {
             DoParse (parser, word, stringOutputs);
         }
+        if (cin.bad() || ferror (stdin)) {
+            cerr << "Error reading input" << endl;
+            return 1;
+        }
     } else {
         // read word list from command line args
         for (int i = 1; i < argc; ++i) {
@@ -302,6 +307,11 @@ main (int argc, const char* argv[])
         }
     }
 
+    if (!cout.flush()) {
+        cerr << "Error writing output" << endl;
+        return 1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From a9d790e3542e4436b1e82d3ee7e10230a2bdbae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:43:02 +0000
Subject: [PATCH 18/19] fix: Do not read entries outside the data of a damaged
 dictionary

The index of a dictionary file whose data part is shorter than it was could
lead behind the end of the data.
---
 dict/dict.cxx | 6 +++---
 dict/dict.h   | 1 +
 dict/dict.inl | 9 +++++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index aae34cd..4343ef0 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -24,9 +24,8 @@ ReadInt32 (FILE* input, int32_t& output)
 }
 
 static char*
-ReadDataBank (FILE* input)
+ReadDataBank (FILE* input, int& bankSize)
 {
-    int bankSize;
     if (!ReadInt32 (input, bankSize))
         return nullptr;
 
@@ -54,7 +53,7 @@ Dict::open (const char* dictPath)
         return false;
 
     mTrie = trie_fread (dictFile);
-    mData = ReadDataBank (dictFile);
+    mData = ReadDataBank (dictFile, mDataSize);
 
     fclose (dictFile);
 
@@ -77,6 +76,7 @@ Dict::close()
     if (mData) {
         delete[] mData;
         mData = nullptr;
+        mDataSize = 0;
     }
 }
 
diff --git a/dict/dict.h b/dict/dict.h
index ee7fd2f..fa75751 100644
--- a/dict/dict.h
+++ b/dict/dict.h
@@ -24,6 +24,7 @@ public:
 private:
     Trie*   mTrie;
     char*   mData;
+    int     mDataSize;
 };
 
 
diff --git a/dict/dict.inl b/dict/dict.inl
index 2220de6..41ae182 100644
--- a/dict/dict.inl
+++ b/dict/dict.inl
@@ -9,12 +9,14 @@
 inline
 Dict::Dict()
     : mTrie (nullptr),
-      mData (nullptr) {}
+      mData (nullptr),
+      mDataSize (0) {}
 
 inline
 Dict::Dict (const char* dictPath)
     : mTrie (nullptr),
-      mData (nullptr)
+      mData (nullptr),
+      mDataSize (0)
 {
     open (dictPath);
 }
@@ -34,6 +36,9 @@ Dict::trie() const
 inline std::string
 Dict::getData (int dataIdx) const
 {
+    // the index of a damaged dictionary may lead outside its data
+    if (dataIdx < 0 || dataIdx >= mDataSize)
+        return "";
     return mData + dataIdx;
 }
 
-- 
2.43.0


From 9a407758a0e457a1483dc299b4c172b5eb07035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:02:04 +0000
Subject: [PATCH 19/19] fix: Accept any end of a pre-syllable within its
 syllable

Dictionary entries need not name the end of the whole double syllable as the
end of its first half.
---
 parser/parser.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index 0ef05e2..88bd5a9 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -1728,8 +1728,12 @@ IsValidPronun (const string& desc)
             if (nextPos <= pos)
                 return false;
             // See AddSyl() for pre-syllable end pos encoding
-            if (preSylPos != 0 && preSylPos != -(pos * 100 + nextPos))
+            if (preSylPos != 0
+                && (preSylPos >= -(pos * 100 + pos)
+                    || preSylPos < -(pos * 100 + nextPos)))
+            {
                 return false;
+            }
             pos = nextPos;
             preSylPos = 0;
         }
-- 
2.43.0

