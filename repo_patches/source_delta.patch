From 76edfa83f9ac5e38d8ee4b6afa7e33b6fa0f7951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:51:59 +0000
Subject: [PATCH 01/16] fix: Reject incomplete dictionary files completely

Loading a file that holds a trie but not its whole data bank reported
failure but kept the trie.  The next word found in it then read the
missing data bank and crashed.

Loading a file that is no dictionary at all took its first bytes for the
size of the data bank.  A negative or huge size ended in an uncaught
exception.

Read the data bank only after a trie, check its size, and drop
everything when either part is missing.
---
 dict/dict.cxx | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index 7d32077..ad7ab57 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -5,6 +5,7 @@
 #include "dict.h"
 
 #include <cstdio>
+#include <new>
 
 using namespace std;
 
@@ -30,8 +31,13 @@ ReadDataBank (FILE* input)
     if (!ReadInt32 (input, bankSize))
         return nullptr;
 
-    char* data = new char[bankSize];
-    if (fread (data, bankSize, 1, input) != 1) {
+    if (bankSize < 0)
+        return nullptr;
+
+    char* data = new (nothrow) char[bankSize];
+    if (!data)
+        return nullptr;
+    if (bankSize > 0 && fread (data, bankSize, 1, input) != 1) {
         delete[] data;
         return nullptr;
     }
@@ -49,10 +55,17 @@ Dict::open (const char* dictPath)
         return false;
 
     mTrie = trie_fread (dictFile);
-    mData = ReadDataBank (dictFile);
+    if (mTrie) {
+        mData = ReadDataBank (dictFile);
+    }
 
     fclose (dictFile);
-    return mTrie != nullptr && mData != nullptr;
+
+    if (!mTrie || !mData) {
+        close();
+        return false;
+    }
+    return true;
 }
 
 void
-- 
2.43.0


From a34cb6665af72e0a6bbf13b584ee617b834d1fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:51:59 +0000
Subject: [PATCH 02/16] fix: Do not skip the dictionary when out of memory

A failed allocation of the trie state made the look-up find nothing, so
the word silently got a result without its dictionary entries.  Throw
bad_alloc, like all other failed allocations of the parser.
---
 dict/dict.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index ad7ab57..72327a7 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -95,6 +95,8 @@ Match::Match (const std::u16string& word, int beginPos, const Dict* dict)
 {
     if (dict->trie()) {
         mTrieState = trie_root (dict->trie());
+        if (!mTrieState)
+            throw bad_alloc();
     }
 }
 
-- 
2.43.0


From 9038a23bad3c0ec8c63329ccf0364aca2497818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:51:59 +0000
Subject: [PATCH 03/16] fix: Report write errors of gen-lookup-dict

The results of writing the trie and the data bank, and of closing the
output file, were ignored.  With a full disk, the tool left a truncated
dictionary and still exited successfully.
---
 dict/gen-lookup-dict.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index 12b608f..9c92535 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -109,7 +109,9 @@ DataBankWrite (const DataBank *bank, FILE *output)
     if (FileWriteInt32 (output, bank->dataSize) != EXIT_SUCCESS) {
         return EXIT_FAILURE;
     }
-    if (fwrite (bank->pool, bank->dataSize, 1, output) != 1) {
+    if (bank->dataSize > 0
+        && fwrite (bank->pool, bank->dataSize, 1, output) != 1)
+    {
         return EXIT_FAILURE;
     }
 
@@ -261,8 +263,12 @@ GenDict (FILE *input, FILE *output)
         }
     }
 
-    trie_fwrite (trie, output);
-    DataBankWrite (bank, output);
+    if (trie_fwrite (trie, output) != 0
+        || DataBankWrite (bank, output) != EXIT_SUCCESS)
+    {
+        fprintf (stderr, "Failed to write dictionary\n");
+        goto err;
+    }
 
     FreeDataBank (bank);
     trie_free (trie);
@@ -309,7 +315,10 @@ main (int argc, const char *argv[])
         goto err_output_opened;
     }
 
-    fclose (output);
+    if (fclose (output) != 0) {
+        fprintf (stderr, "Fail to write output file \"%s\".\n", argv[2]);
+        goto err_input_opened;
+    }
     fclose (input);
 
     return EXIT_SUCCESS;
-- 
2.43.0


From abe761394926e533ebd144920765089d42a48ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:52:41 +0000
Subject: [PATCH 04/16] fix: Do not take bad input for the end of input in
 gen-lookup-dict

A line without TAB, a key in bad UTF-8 or a read error ended the input
loop as if all of the input had been read.  The tool then wrote a
dictionary without the remaining entries and exited successfully.  A
line longer than the buffer was split, losing its end or turning it into
an entry of its own.

Tell the end of input from errors, and fail on errors.  An empty line
buffer no longer makes the newline test look before its start.
---
 dict/gen-lookup-dict.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index 9c92535..bdce373 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -187,13 +187,27 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
     size_t lineLeft;
     uint32_t *pWord;
 
-    if (!fgets (line, wordMax, input))
+    if (!line) {
+        fprintf (stderr, "Failed to allocate line buffer\n");
+        return EXIT_FAILURE;
+    }
+
+    if (!fgets (line, wordMax, input)) {
+        if (ferror (input)) {
+            fprintf (stderr, "Failed to read input\n");
+            goto err;
+        }
         goto eof;
+    }
 
     /* trim newline */
     lineLeft = strlen (line);
-    if (line[lineLeft - 1] == '\n') {
+    if (lineLeft > 0 && line[lineLeft - 1] == '\n') {
         line[--lineLeft] = '\0';
+    } else if (ferror (input) || !feof (input)) {
+        fprintf (stderr, "Line too long or incomplete.\n");
+        fprintf (stderr, "Line:%s\n", line);
+        goto err;
     }
 
     /* split fields */
@@ -225,6 +239,9 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
     return EXIT_SUCCESS;
 
 eof:
+    free (line);
+    return EOF;
+
 err:
     free (line);
     return EXIT_FAILURE;
@@ -237,9 +254,10 @@ GenDict (FILE *input, FILE *output)
     char data[256];
     Trie *trie = NewTrie();
     DataBank *bank = NewDataBank();
+    int status;
 
-    while (ReadInput (word, N_ELM (word),
-                      data, N_ELM (data), input) == EXIT_SUCCESS)
+    while ((status = ReadInput (word, N_ELM (word),
+                                data, N_ELM (data), input)) == EXIT_SUCCESS)
     {
         int dataIdx = DataBankAddData (bank, data);
         if (dataIdx < 0) {
@@ -263,6 +281,10 @@ GenDict (FILE *input, FILE *output)
         }
     }
 
+    if (status != EOF) {
+        goto err;
+    }
+
     if (trie_fwrite (trie, output) != 0
         || DataBankWrite (bank, output) != EXIT_SUCCESS)
     {
-- 
2.43.0


From 12d2bf42557a5c213cd000f53288d3988c877904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:52:41 +0000
Subject: [PATCH 05/16] fix: Check allocations in gen-lookup-dict

Running out of memory while creating the trie or the data bank crashed
the tool, and a failure to add the Thai range left a trie that accepts
no word.  Report a failure instead.
---
 dict/gen-lookup-dict.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index bdce373..c7b631b 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -130,7 +130,13 @@ NewTrie()
     Trie *trie;
 
     alphaMap = alpha_map_new();
-    alpha_map_add_range (alphaMap, 0x0e01, 0x0e5b);
+    if (!alphaMap) {
+        return NULL;
+    }
+    if (alpha_map_add_range (alphaMap, 0x0e01, 0x0e5b) != 0) {
+        alpha_map_free (alphaMap);
+        return NULL;
+    }
     trie = trie_new (alphaMap);
     alpha_map_free (alphaMap);
 
@@ -256,6 +262,11 @@ GenDict (FILE *input, FILE *output)
     DataBank *bank = NewDataBank();
     int status;
 
+    if (!trie || !bank) {
+        fprintf (stderr, "Failed to allocate dictionary\n");
+        goto err;
+    }
+
     while ((status = ReadInput (word, N_ELM (word),
                                 data, N_ELM (data), input)) == EXIT_SUCCESS)
     {
@@ -297,8 +308,12 @@ GenDict (FILE *input, FILE *output)
     return EXIT_SUCCESS;
 
 err:
-    FreeDataBank (bank);
-    trie_free (trie);
+    if (bank) {
+        FreeDataBank (bank);
+    }
+    if (trie) {
+        trie_free (trie);
+    }
     return EXIT_FAILURE;
 }
 
-- 
2.43.0


From 820565ff8dc0ff3c2c347b47818b99feb6ccc593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:52:41 +0000
Subject: [PATCH 06/16] fix: Do not alias pointer types when decoding keys

The pointer into the line was modified through a pointer to a pointer of
another type, which the compiler may assume not to happen: with strict
aliasing the loop may not see the pointer move.
---
 dict/gen-lookup-dict.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index c7b631b..a46210f 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -190,6 +190,7 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
 {
     char *line = (char *) malloc (wordMax);
     char *pLine;
+    const unsigned char *pKey;
     size_t lineLeft;
     uint32_t *pWord;
 
@@ -229,10 +230,10 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
     strncpy (data, pLine + 1, dataMax);
 
     /* read UTF-8-encoded word */
-    pLine = line;
+    pKey = (const unsigned char *) line;
     pWord = word;
-    while (*pLine && pWord - word < wordMax - 1) {
-        if (GetUTF8 ((const unsigned char **)&pLine, pWord) == EXIT_SUCCESS) {
+    while (*pKey && pWord - word < wordMax - 1) {
+        if (GetUTF8 (&pKey, pWord) == EXIT_SUCCESS) {
             pWord++;
         } else {
             fprintf (stderr, "Fail to convert word '%s'.\n", line);
-- 
2.43.0


From 3dd27f06c33386da58196dc52a8ca4aefdf65d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:18 +0000
Subject: [PATCH 07/16] fix: Stop at a leading vowel that ends the word

A leading vowel other than Sara E with nothing after it made the parser
look for an initial consonant beyond the end of the word, and abort.
Give up on it, as is done for Sara E.
---
 parser/parser.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index 6641bd0..852c599 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -1500,6 +1500,10 @@ ParseOtherLV (const u16string& u16word, const ParseState& state,
 
     auto ldv = u16word.at (state.pos);
 
+    if (state.pos + 1 >= state.stopPos) {
+        return;
+    }
+
     list<PartialSyl> partialSyls = MatchInitCons (u16word, state.pos + 1,
                                                   state.stopPos,
                                                   state.isLinked);
-- 
2.43.0


From 1af329e6d91f36445ac860328f9db529650472b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:18 +0000
Subject: [PATCH 08/16] fix: Output an empty JSON list for a word without
 pronunciation

The first element of the list was used without checking that there is
one.  Blank lines and words that cannot be parsed crashed thpronun -j.
---
 output/output-json.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/output/output-json.cxx b/output/output-json.cxx
index f37fbb9..4b53815 100644
--- a/output/output-json.cxx
+++ b/output/output-json.cxx
@@ -26,6 +26,9 @@ JsonOutput::output (const list<SylString>& strList) const
 {
     string outStr;
 
+    if (strList.empty())
+        return "[]";
+
     outStr = "[";
     auto i = strList.begin();
     outStr += output (*i);
-- 
2.43.0


From 4eca13b05f3ed75a92c39f09e420552f40305f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:18 +0000
Subject: [PATCH 09/16] fix: Do not die on words in invalid UTF-8

A word that cannot be decoded ended the whole run with an uncaught
exception, and all following words were lost.  Report the word and go
on with the next one.
---
 thpronun/thpronun.cxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index 66815fd..4315205 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -12,6 +12,7 @@
 #include <iostream>
 #include <list>
 #include <memory>
+#include <stdexcept>
 #include <cstring>
 
 #define EXCEPT_DICT_NAME "except.dic"
@@ -24,9 +25,13 @@ DoParse (const Parser& parser, string word,
          const list<unique_ptr<IOutput>>& stringOutputs)
 {
     cout << word << ":" << endl;
-    auto pronDAG = parser.parseWord (word);
-    for (const auto& strOut : stringOutputs) {
-        cout << strOut->output (pronDAG) << endl;;
+    try {
+        auto pronDAG = parser.parseWord (word);
+        for (const auto& strOut : stringOutputs) {
+            cout << strOut->output (pronDAG) << endl;;
+        }
+    } catch (const range_error&) {
+        cerr << "Invalid UTF-8 in word '" << word << "'" << endl;
     }
 }
 
-- 
2.43.0


From ffd6c96a00cd4e587ae27eb5e5f0d65432de221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:53:18 +0000
Subject: [PATCH 10/16] fix: Report errors of the standard streams

thpronun exited successfully when its output could not be written, for
example to a full disk, and when reading the words failed half way.
---
 thpronun/thpronun.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index 4315205..ced73ae 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -13,6 +13,7 @@
 #include <list>
 #include <memory>
 #include <stdexcept>
+#include <cstdio>
 #include <cstring>
 
 #define EXCEPT_DICT_NAME "except.dic"
@@ -293,6 +294,10 @@ main (int argc, const char* argv[])
         while (getline (cin, word)) {
             DoParse (parser, word, stringOutputs);
         }
+        if (cin.bad() || ferror (stdin)) {
+            cerr << "Error reading standard input" << endl;
+            return 1;
+        }
     } else {
         // read word list from command line args
         for (int i = 1; i < argc; ++i) {
@@ -302,6 +307,11 @@ main (int argc, const char* argv[])
         }
     }
 
+    if (!cout.flush()) {
+        cerr << "Error writing standard output" << endl;
+        return 1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From ec410a74806bf45005877579c14139883edec3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:15 +0000
Subject: [PATCH 11/16] fix: Reject over-long UTF-8 in dictionary keys

An over-long encoding of NUL ended the key early, so that gen-lookup-dict
stored a different key and still reported success.
---
 dict/gen-lookup-dict.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index a46210f..cf6d9ac 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -148,7 +148,7 @@ GetUTF8 (const unsigned char **input, uint32_t *output)
 {
     const unsigned char *in = *input;
     unsigned char h = *in++;
-    uint32_t uc;
+    uint32_t uc, minUC;
 
     if (!h)
         return EXIT_FAILURE;
@@ -168,6 +168,7 @@ GetUTF8 (const unsigned char **input, uint32_t *output)
             return EXIT_FAILURE;
         }
         uc = (h & mask);
+        minUC = h < 0xe0 ? 0x80 : h < 0xf0 ? 0x800 : 0x10000;
         while (check != 0x40) {
             if ((*in & 0xc0) != 0x80) {
                 /* following byte is not 10xx-xxxx -> invalid */
@@ -177,6 +178,10 @@ GetUTF8 (const unsigned char **input, uint32_t *output)
             ++in;
             check <<= 1;
         }
+        if (h >= 0xf8 || uc < minUC) {
+            /* over-long form -> invalid */
+            return EXIT_FAILURE;
+        }
     }
 
     *input = in;
-- 
2.43.0


From e6386a65adb451edbae6359cede7b247d139c38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:56:07 +0000
Subject: [PATCH 12/16] fix: Build the shipped dictionary through temporary
 files

A failing or killed command left an incomplete except.tsv or except.dic
that was newer than the word lists, so the next make took it for done.
---
 data/Makefile.am | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/data/Makefile.am b/data/Makefile.am
index e91d300..ca09f63 100644
--- a/data/Makefile.am
+++ b/data/Makefile.am
@@ -19,11 +19,15 @@ EXTRA_DIST = \
 
 CLEANFILES = \
 	except.tsv	\
+	except.tsv.tmp	\
 	except.dic	\
+	except.dic.tmp	\
 	$(NULL)
 
 except.tsv: $(EXCEPT_SRC)
-	cat $^ | LC_ALL=C sort -u > $@
+	LC_ALL=C sort -u $^ > $@.tmp
+	mv $@.tmp $@
 
 except.dic: except.tsv
-	$(top_builddir)/dict/gen-lookup-dict $< $@
+	$(top_builddir)/dict/gen-lookup-dict $< $@.tmp
+	mv $@.tmp $@
-- 
2.43.0


From 88d94ac722f346e1a8f1274199a27080a3b93d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:59:07 +0000
Subject: [PATCH 13/16] fix: Do not overwrite a dictionary that may be in use

gen-lookup-dict truncated and rewrote the old output file in place.  A
thpronun reading it at that time could get the old words with the new
pronunciations, without any warning.  Remove an old regular file first, so
that the new dictionary is a new file.
---
 dict/gen-lookup-dict.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index cf6d9ac..e287e42 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -10,6 +10,8 @@
 #include <string.h>
 #include <stdlib.h>
 #include <stdint.h>
+#include <unistd.h>
+#include <sys/stat.h>
 
 #define N_ELM(a)  (sizeof(a)/sizeof(a[0]))
 #define MAX(a,b)  ((a)>(b)?(a):(b))
@@ -333,6 +335,7 @@ int
 main (int argc, const char *argv[])
 {
     FILE *input, *output;
+    struct stat st;
 
     if (argc != 3) {
         Usage();
@@ -346,6 +349,12 @@ main (int argc, const char *argv[])
         goto err;
     }
 
+    /* a running program may be reading the old dictionary: leave it alone
+       and start a new file, rather than overwriting it in place */
+    if (lstat (argv[2], &st) == 0 && S_ISREG (st.st_mode)) {
+        unlink (argv[2]);
+    }
+
     output = fopen (argv[2], "wb");
     if (!output) {
         fprintf (stderr, "Fail to open output file \"%s\" for writing.\n",
-- 
2.43.0


From 5dd25141a7f300dafebe5fff289373d5dd3503bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:15:34 +0000
Subject: [PATCH 14/16] fix: Do not read beyond the data of a damaged
 dictionary

The last string of the data bank was taken to end with a NUL and the offsets
from the trie were taken to lie within the bank.  With a damaged file,
neither need be so.
---
 dict/dict.cxx | 8 ++++----
 dict/dict.h   | 1 +
 dict/dict.inl | 8 ++++++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index 72327a7..4ea521f 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -25,22 +25,22 @@ ReadInt32 (FILE* input, int32_t& output)
 }
 
 static char*
-ReadDataBank (FILE* input)
+ReadDataBank (FILE* input, int& bankSize)
 {
-    int bankSize;
     if (!ReadInt32 (input, bankSize))
         return nullptr;
 
     if (bankSize < 0)
         return nullptr;
 
-    char* data = new (nothrow) char[bankSize];
+    char* data = new (nothrow) char[static_cast<size_t> (bankSize) + 1];
     if (!data)
         return nullptr;
     if (bankSize > 0 && fread (data, bankSize, 1, input) != 1) {
         delete[] data;
         return nullptr;
     }
+    data[bankSize] = '\0';
 
     return data;
 }
@@ -56,7 +56,7 @@ Dict::open (const char* dictPath)
 
     mTrie = trie_fread (dictFile);
     if (mTrie) {
-        mData = ReadDataBank (dictFile);
+        mData = ReadDataBank (dictFile, mDataSize);
     }
 
     fclose (dictFile);
diff --git a/dict/dict.h b/dict/dict.h
index ee7fd2f..fa75751 100644
--- a/dict/dict.h
+++ b/dict/dict.h
@@ -24,6 +24,7 @@ public:
 private:
     Trie*   mTrie;
     char*   mData;
+    int     mDataSize;
 };
 
 
diff --git a/dict/dict.inl b/dict/dict.inl
index 2220de6..785f7cb 100644
--- a/dict/dict.inl
+++ b/dict/dict.inl
@@ -9,12 +9,14 @@
 inline
 Dict::Dict()
     : mTrie (nullptr),
-      mData (nullptr) {}
+      mData (nullptr),
+      mDataSize (0) {}
 
 inline
 Dict::Dict (const char* dictPath)
     : mTrie (nullptr),
-      mData (nullptr)
+      mData (nullptr),
+      mDataSize (0)
 {
     open (dictPath);
 }
@@ -34,6 +36,8 @@ Dict::trie() const
 inline std::string
 Dict::getData (int dataIdx) const
 {
+    if (dataIdx < 0 || dataIdx >= mDataSize)
+        return "";
     return mData + dataIdx;
 }
 
-- 
2.43.0


From d50a379aff99aaae3da4b48f06e7209d1596bce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:15:43 +0000
Subject: [PATCH 15/16] fix: Ignore malformed pronunciations in the exception
 dictionary

A pronunciation with an unknown code, a missing part or a bad end position
made thpronun abort, or recurse without end, at the first word it matched;
the rest of the input was lost.
---
 parser/parser.cxx | 53 ++++++++++++++++++++++++++++++++++++++++++++++-
 sylstring/syl.cxx | 10 ++++-----
 2 files changed, 57 insertions(+), 6 deletions(-)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index 852c599..600bbe0 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -10,6 +10,8 @@
 #include <codecvt>
 #include <thai/thwctype.h>
 #include <cassert>
+#include <cstring>
+#include <stdexcept>
 #include <unordered_map>
 #include <unordered_set>
 #include <vector>
@@ -1696,6 +1698,40 @@ MakeSylStrings (const string& desc)
     return sylStrings;
 }
 
+// Are all syllables complete, and do their end positions lead from
+// the beginning to the end of the key?
+static bool
+IsValidPronun (const SylString& sylString, int keyLen)
+{
+    int pos = 0;
+    for (auto it = sylString.begin(); it != sylString.end(); ++it) {
+        if (EInitConsSound::INVALID == it->iCons1()
+            || ETone::INVALID == it->tone()
+            || !memchr ("_rlw", static_cast<int> (it->iCons2()), 4)
+            || !memchr ("aAiIvVuUeExXyYzZtToOcCwW",
+                        static_cast<int> (it->vowel()), 24))
+        {
+            return false;
+        }
+
+        // See AddSyl() for pre-syllable end pos encoding
+        if (it->endPos() < 0) {
+            auto next = it;
+            if (++next == sylString.end()
+                || next->endPos() <= pos || next->endPos() > keyLen
+                || it->endPos() != -(pos * 100 + next->endPos()))
+            {
+                return false;
+            }
+        } else {
+            if (it->endPos() <= pos || it->endPos() > keyLen)
+                return false;
+            pos = it->endPos();
+        }
+    }
+    return pos == keyLen;
+}
+
 static int
 FindExceptions (const u16string& u16word, const ParseState& state,
                 StatePool& pool, const Dict* exceptDict)
@@ -1716,8 +1752,23 @@ FindExceptions (const u16string& u16word, const ParseState& state,
             continue;
         }
 
+        // ignore malformed entries
+        list<SylString> sylStrings;
+        try {
+            sylStrings = MakeSylStrings (match.getData());
+        } catch (const logic_error&) {
+            continue;
+        }
+        bool isValid = true;
+        for (const auto& s : sylStrings) {
+            isValid = isValid
+                      && IsValidPronun (s, match.getCurPos() - state.pos);
+        }
+        if (!isValid)
+            continue;
+
         PronunDAG newDAG = state.pronDAG;
-        for (auto& s : MakeSylStrings (match.getData())) {
+        for (auto& s : sylStrings) {
             s.shiftEndPos (state.pos);
             newDAG.addSylString (state.pos, s);
         }
diff --git a/sylstring/syl.cxx b/sylstring/syl.cxx
index cca96a8..f8d3d2d 100644
--- a/sylstring/syl.cxx
+++ b/sylstring/syl.cxx
@@ -13,11 +13,11 @@ using namespace std;
 const Syl Syl::Blank;
 
 Syl::Syl (const std::string& desc, int endPos)
-  : mICons1 (InitConsCodeToSound (desc[0])),
-    mICons2 (static_cast<ESecInitCons> (desc[1])),
-    mVowel (static_cast<EVowel> (desc[2])),
-    mECons (EndConsCodeToClass (desc[3])),
-    mTone (ToneCodeToTone (desc[4])),
+  : mICons1 (InitConsCodeToSound (desc.at (0))),
+    mICons2 (static_cast<ESecInitCons> (desc.at (1))),
+    mVowel (static_cast<EVowel> (desc.at (2))),
+    mECons (EndConsCodeToClass (desc.at (3))),
+    mTone (ToneCodeToTone (desc.at (4))),
     mLiteral(),
     mEndPos (endPos)
 {
-- 
2.43.0


From 7f56b2796667e51a97b239d153a0b3b0b9a5cab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:40:24 +0000
Subject: [PATCH 16/16] fix: Recognise --help wherever it stands

It was looked for in the first argument only, so that 'thpronun -n --help'
complained of an unknown option.
---
 thpronun/thpronun.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index ced73ae..3f32569 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -207,7 +207,7 @@ main (int argc, const char* argv[])
                 if (strcmp (argv[i]+2, "version") == 0) {
                     Version (argv[0]);
                     return 1;
-                } else if (strcmp (argv[1]+2, "help") == 0) {
+                } else if (strcmp (argv[i]+2, "help") == 0) {
                     Usage (argv[0]);
                     return 1;
                 } else {
-- 
2.43.0

