From 253c89f1a70032c96b3afc7640370ad0d70248c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:03 +0000
Subject: [PATCH 01/39] fix: respect text length when looking up cached grammar
 errors

voikkoNextGrammarErrorUcs4 compared the cached paragraph with the text as
if it were null terminated: it read past the end of the text, and no errors
were reported when the text was followed by more characters in its buffer.
---
 libvoikko/src/grammar/GrammarChecker.cpp | 4 ++--
 libvoikko/src/grammar/GrammarChecker.hpp | 2 +-
 libvoikko/src/grammar/interface.cpp      | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libvoikko/src/grammar/GrammarChecker.cpp b/libvoikko/src/grammar/GrammarChecker.cpp
index 2895669..09be5e7 100644
--- a/libvoikko/src/grammar/GrammarChecker.cpp
+++ b/libvoikko/src/grammar/GrammarChecker.cpp
@@ -39,11 +39,11 @@ GrammarChecker::~GrammarChecker() {
 	cache.clear();
 }
 
-const VoikkoGrammarError * GrammarChecker::errorFromCache(const wchar_t * text, size_t startpos, int skiperrors) {
+const VoikkoGrammarError * GrammarChecker::errorFromCache(const wchar_t * text, size_t textlen, size_t startpos, int skiperrors) {
 	if (!cache.paragraph) {
 		return 0;
 	}
-	if (wcscmp(cache.paragraph, text) != 0) {
+	if (wcslen(cache.paragraph) != textlen || wcsncmp(cache.paragraph, text, textlen) != 0) {
 		return 0;
 	}
 	CacheEntry * e = cache.firstError;
diff --git a/libvoikko/src/grammar/GrammarChecker.hpp b/libvoikko/src/grammar/GrammarChecker.hpp
index 27247a6..5a79cbe 100644
--- a/libvoikko/src/grammar/GrammarChecker.hpp
+++ b/libvoikko/src/grammar/GrammarChecker.hpp
@@ -44,7 +44,7 @@ class GrammarChecker {
 		 * Returns a pointer to a cached grammar error or null, if there are no cached
 		 * results for given paragraph.
 		 */
-		const VoikkoGrammarError * errorFromCache(const wchar_t * text, size_t startpos, int skiperrors);
+		const VoikkoGrammarError * errorFromCache(const wchar_t * text, size_t textlen, size_t startpos, int skiperrors);
 		
 		/**
 		 * Performs grammar checking on the entire paragraph and stores the results
diff --git a/libvoikko/src/grammar/interface.cpp b/libvoikko/src/grammar/interface.cpp
index 3250a77..3f5bea1 100644
--- a/libvoikko/src/grammar/interface.cpp
+++ b/libvoikko/src/grammar/interface.cpp
@@ -43,10 +43,10 @@ VOIKKOEXPORT VoikkoGrammarError * voikkoNextGrammarErrorUcs4(VoikkoHandle * opti
 		return 0;
 	}
 	const VoikkoGrammarError * c_error =
-	    options->grammarChecker->errorFromCache(text_ucs4, startpos, skiperrors);
+	    options->grammarChecker->errorFromCache(text_ucs4, wtextlen, startpos, skiperrors);
 	if (!c_error) {
 		options->grammarChecker->paragraphToCache(text_ucs4, wtextlen);
-		c_error = options->grammarChecker->errorFromCache(text_ucs4, startpos, skiperrors);
+		c_error = options->grammarChecker->errorFromCache(text_ucs4, wtextlen, startpos, skiperrors);
 	}
 	
 	if (!c_error || c_error->getErrorCode() == 0) {
-- 
2.43.0


From ede9f273d807cb7084db5b0a689e771ce5522c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:16 +0000
Subject: [PATCH 02/39] fix: do not use length of normalised word for the
 original word in suggestions

Normalisation may change the number of characters. Restoring the original
characters then read past the end of the word, and words that become one
character long were passed to generators that require at least two.
---
 libvoikko/src/spellchecker/suggestions.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/spellchecker/suggestions.cpp b/libvoikko/src/spellchecker/suggestions.cpp
index 5e93282..3848a0d 100644
--- a/libvoikko/src/spellchecker/suggestions.cpp
+++ b/libvoikko/src/spellchecker/suggestions.cpp
@@ -95,6 +95,10 @@ VOIKKOEXPORT wchar_t ** voikkoSuggestUcs4(VoikkoHandle * options, const wchar_t
 		return 0;
 	}
 	wlen = wcslen(nword);
+	if (wlen <= 1) {
+		delete[] nword;
+		return 0;
+	}
 	
 	if (options->ignore_dot) {
 		if (wlen == 2) {
@@ -144,9 +148,10 @@ VOIKKOEXPORT wchar_t ** voikkoSuggestUcs4(VoikkoHandle * options, const wchar_t
 	}
 
 	/* Undo character set normalisation */
+	size_t origlen = wcslen(word);
 	for (size_t i = 0; suggestions[i] != 0;) {
 		suglen = wcslen(suggestions[i]);
-		voikko_cset_reformat(word, wlen, &(suggestions[i]), suglen);
+		voikko_cset_reformat(word, origlen, &(suggestions[i]), suglen);
 		i++;
 	}
 
-- 
2.43.0


From 4a5ad12b66f6bf39de3ab684af437e0ae772bb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:54 +0000
Subject: [PATCH 03/39] fix: avoid exponential time in spell checking when
 extra hyphens are accepted

With VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS each hyphen doubled the time needed to
check a word, so that words with a few dozen hyphens never finished.
---
 .../FinnishSpellerTweaksWrapper.cpp           | 19 ++++++++++++++++++-
 .../FinnishSpellerTweaksWrapper.hpp           |  6 ++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp
index 869fbe0..24260da 100644
--- a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp
+++ b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp
@@ -43,7 +43,7 @@ FinnishSpellerTweaksWrapper::FinnishSpellerTweaksWrapper(Speller * speller, Anal
 	 VoikkoHandle * voikkoOptions) :
 	speller(speller), analyzer(analyzer),
 	hyphenator(new hyphenator::AnalyzerToFinnishHyphenatorAdapter(analyzer)),
-	voikkoOptions(voikkoOptions) {
+	voikkoOptions(voikkoOptions), variantDepth(0) {
 	hyphenator->setUglyHyphenation(true);
 	hyphenator->setHyphenateUnknown(true);
 	hyphenator->setMinHyphenatedWordLength(3);
@@ -51,6 +51,23 @@ FinnishSpellerTweaksWrapper::FinnishSpellerTweaksWrapper(Speller * speller, Anal
 }
 
 spellresult FinnishSpellerTweaksWrapper::spellWithoutSoftHyphen(const wchar_t * word, size_t wlen) {
+	// The same variant can be reached in exponentially many ways. Check it only once.
+	const std::wstring variant(word, wlen);
+	std::map<std::wstring, spellresult>::const_iterator known = variantResults.find(variant);
+	if (known != variantResults.end()) {
+		return known->second;
+	}
+	++variantDepth;
+	spellresult result = spellWithOptionalHyphens(word, wlen);
+	if (--variantDepth == 0) {
+		variantResults.clear();
+	} else {
+		variantResults[variant] = result;
+	}
+	return result;
+}
+
+spellresult FinnishSpellerTweaksWrapper::spellWithOptionalHyphens(const wchar_t * word, size_t wlen) {
 	spellresult result_with_border = SPELL_FAILED;
 	spellresult result_without_border = SPELL_FAILED;
 	
diff --git a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.hpp b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.hpp
index 7367fe3..83f84f7 100644
--- a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.hpp
+++ b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.hpp
@@ -33,6 +33,8 @@
 #include "morphology/Analyzer.hpp"
 #include "setup/setup.hpp"
 #include "hyphenator/AnalyzerToFinnishHyphenatorAdapter.hpp"
+#include <map>
+#include <string>
 
 namespace libvoikko { namespace spellchecker {
 
@@ -48,10 +50,14 @@ class FinnishSpellerTweaksWrapper : public Speller {
 		void terminate();
 	private:
 		spellresult spellWithoutSoftHyphen(const wchar_t * word, size_t wlen);
+		spellresult spellWithOptionalHyphens(const wchar_t * word, size_t wlen);
 		Speller * const speller;
 		morphology::Analyzer * const analyzer;
 		hyphenator::AnalyzerToFinnishHyphenatorAdapter * hyphenator;
 		const VoikkoHandle * const voikkoOptions;
+		/** Results for variants of the word that is being checked */
+		std::map<std::wstring, spellresult> variantResults;
+		size_t variantDepth;
 };
 
 } }
-- 
2.43.0


From ecb2c00649c446bd3881ad86bfafcb58a43b591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:54 +0000
Subject: [PATCH 04/39] fix: reset flag diacritics before each lookup from
 unweighted transducer

A search that was stopped at a work limit left its flag values behind and
made later lookups with the same handle fail.
---
 libvoikko/src/fst/UnweightedTransducer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/src/fst/UnweightedTransducer.cpp b/libvoikko/src/fst/UnweightedTransducer.cpp
index ce9f0cd..301b240 100644
--- a/libvoikko/src/fst/UnweightedTransducer.cpp
+++ b/libvoikko/src/fst/UnweightedTransducer.cpp
@@ -201,6 +201,10 @@ namespace libvoikko { namespace fst {
 		configuration->stateIndexStack[0] = 0;
 		configuration->currentTransitionStack[0] = 0;
 		configuration->inputLength = 0;
+		if (flagDiacriticFeatureCount) {
+			// previous search may have stopped before all flags were restored
+			memset(configuration->currentFlagValues, 0, flagDiacriticFeatureCount * sizeof(uint16_t));
+		}
 		bool allKnown = true;
 		while ((size_t)configuration->inputLength < inputLen) {
 			std::map<wchar_t,uint16_t>::const_iterator it = stringToSymbol.find(input[configuration->inputLength]);
-- 
2.43.0


From ade9cc337ac6d21227c7397aa97a8b3f4a9d3bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:33 +0000
Subject: [PATCH 05/39] fix: forget cached spelling results when hyphen options
 are changed

Words accepted only with extra or missing hyphens stayed accepted after
the option was turned off.
---
 libvoikko/src/setup/setup.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index b7c6ff1..7818c14 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -63,6 +63,19 @@ static int setGrammarOption(VoikkoHandle * handle, int value, int * option) {
 		return 1;
 }
 
+static int setCachedSpellingOption(VoikkoHandle * handle, int value, int * option) {
+	if ((value ? 1 : 0) != *option) {
+		*option = (value ? 1 : 0);
+		if (handle->spellerCache) {
+			// cached results may not be valid with the new value
+			int cacheSize = handle->spellerCache->getSizeParam();
+			delete handle->spellerCache;
+			handle->spellerCache = new spellchecker::SpellerCache(cacheSize);
+		}
+	}
+	return 1;
+}
+
 VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int value) {
 	switch (option) {
 		case VOIKKO_OPT_IGNORE_DOT:
@@ -109,11 +122,11 @@ VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int
 			options->ignore_nonwords = (value ? 1 : 0);
 			return 1;
 		case VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS:
-			options->accept_extra_hyphens = (value ? 1 : 0);
-			return 1;
+			return setCachedSpellingOption(options, value,
+			       &(options->accept_extra_hyphens));
 		case VOIKKO_OPT_ACCEPT_MISSING_HYPHENS:
-			options->accept_missing_hyphens = (value ? 1 : 0);
-			return 1;
+			return setCachedSpellingOption(options, value,
+			       &(options->accept_missing_hyphens));
 		case VOIKKO_OPT_ACCEPT_TITLES_IN_GC:
 			return setGrammarOption(options, value,
 			       &(options->accept_titles_in_gc));
-- 
2.43.0


From f2122e8c38d5b35064edc0a698ebbc9eddd11d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:57 +0000
Subject: [PATCH 06/39] fix: list positive among the values of COMPARISON

Analyses of adjectives in the positive degree have COMPARISON=positive,
but the value was missing from the list of possible values.
---
 libvoikko/src/morphology/FinnishVfstAnalyzer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
index 94ccc78..2ca69a1 100644
--- a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
@@ -1129,7 +1129,9 @@ std::list<const wchar_t *> FinnishVfstAnalyzer::getAttributeValues(const char *
 		return valuesFromMap(numberMap);
 	}
 	if (attribute == "COMPARISON") {
-		return valuesFromMap(comparisonMap);
+		list<const wchar_t *> values = valuesFromMap(comparisonMap);
+		values.push_back(L"positive");
+		return values;
 	}
 	if (attribute == "FOCUS") {
 		return valuesFromMap(focusMap);
-- 
2.43.0


From 6d73a4622048c4c66a4361b7180971b43ac5e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:19 +0000
Subject: [PATCH 07/39] fix: do not limit the length of words by their size in
 UTF-8

Words of at most 255 characters were rejected by the UTF-8 functions when their
encoded form was longer than 255 bytes.  The wide character functions behind them
already enforce the limit in characters.
---
 libvoikko/src/hyphenator/interface.cpp     | 6 ------
 libvoikko/src/morphology/interface.cpp     | 3 ---
 libvoikko/src/spellchecker/spell.cpp       | 3 ---
 libvoikko/src/spellchecker/suggestions.cpp | 3 ---
 4 files changed, 15 deletions(-)

diff --git a/libvoikko/src/hyphenator/interface.cpp b/libvoikko/src/hyphenator/interface.cpp
index 8d108b3..a5f0b96 100644
--- a/libvoikko/src/hyphenator/interface.cpp
+++ b/libvoikko/src/hyphenator/interface.cpp
@@ -53,9 +53,6 @@ VOIKKOEXPORT char * voikkoHyphenateCstr(VoikkoHandle * options, const char * wor
 		return 0;
 	}
 	size_t len = strlen(word);
-	if (len > LIBVOIKKO_MAX_WORD_CHARS) {
-		return 0;
-	}
 	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word, len);
 	if (word_ucs4 == 0) {
 		return 0;
@@ -74,9 +71,6 @@ VOIKKOEXPORT char * voikkoInsertHyphensCstr(VoikkoHandle * options, const char *
 	// For now we are intentionally omitting UCS4 variant of this function and thus
 	// we perform the necessary initial conversions here.
 	size_t len = strlen(word);
-	if (len > LIBVOIKKO_MAX_WORD_CHARS) {
-		return nullptr;
-	}
 	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word, len);
 	if (!word_ucs4) {
 		return nullptr;
diff --git a/libvoikko/src/morphology/interface.cpp b/libvoikko/src/morphology/interface.cpp
index be0882a..634d818 100644
--- a/libvoikko/src/morphology/interface.cpp
+++ b/libvoikko/src/morphology/interface.cpp
@@ -83,9 +83,6 @@ VOIKKOEXPORT voikko_mor_analysis ** voikkoAnalyzeWordCstr(
 		return 0;
 	}
 	size_t len = strlen(word);
-	if (len > LIBVOIKKO_MAX_WORD_CHARS) {
-		return 0;
-	}
 	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word, len);
 	if (word_ucs4 == 0) {
 		return 0;
diff --git a/libvoikko/src/spellchecker/spell.cpp b/libvoikko/src/spellchecker/spell.cpp
index 9977fbf..4e74db6 100644
--- a/libvoikko/src/spellchecker/spell.cpp
+++ b/libvoikko/src/spellchecker/spell.cpp
@@ -239,9 +239,6 @@ VOIKKOEXPORT int voikkoSpellCstr(VoikkoHandle * handle, const char * word) {
 		return VOIKKO_SPELL_OK;
 	}
 	size_t len = strlen(word);
-	if (len > LIBVOIKKO_MAX_WORD_CHARS) {
-		return VOIKKO_SPELL_FAILED;
-	}
 	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word, len);
 	if (word_ucs4 == 0) {
 		return VOIKKO_CHARSET_CONVERSION_FAILED;
diff --git a/libvoikko/src/spellchecker/suggestions.cpp b/libvoikko/src/spellchecker/suggestions.cpp
index 3848a0d..483d6d5 100644
--- a/libvoikko/src/spellchecker/suggestions.cpp
+++ b/libvoikko/src/spellchecker/suggestions.cpp
@@ -164,9 +164,6 @@ VOIKKOEXPORT char ** voikkoSuggestCstr(VoikkoHandle * options, const char * word
 		return 0;
 	}
 	size_t len = strlen(word);
-	if (len > LIBVOIKKO_MAX_WORD_CHARS) {
-		return 0;
-	}
 	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word, len);
 	if (word_ucs4 == 0) {
 		return 0;
-- 
2.43.0


From 6cc93967f56294856287c4067b2ba73889e38711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:19 +0000
Subject: [PATCH 08/39] fix: classify U+00C0 as a letter

---
 libvoikko/src/character/charset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/character/charset.cpp b/libvoikko/src/character/charset.cpp
index 00c3a5e..681c668 100644
--- a/libvoikko/src/character/charset.cpp
+++ b/libvoikko/src/character/charset.cpp
@@ -42,7 +42,7 @@ namespace libvoikko {
 char_type get_char_type(wchar_t c) {
 	if ((c >= 0x41 && c <= 0x5A) || /* A-Z */
 	    (c >= 0x61 && c <= 0x7A) || /* a-z */
-	    (c >= 0xC1 && c <= 0xD6) || /* À-Ö */
+	    (c >= 0xC0 && c <= 0xD6) || /* À-Ö */
 	    (c >= 0xD8 && c <= 0xF6) || /* Ø-ö */
 	    (c >= 0x00F8 && c <= 0x02AF) || /* ø-ɏ */
 	    (c >= 0x0400 && c <= 0x0481) || /* Ѐ-ҁ - Cyrillic */
-- 
2.43.0


From 3c44d5b5554e6f3c8e1c2589bab1998fce98a956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:14 +0000
Subject: [PATCH 09/39] fix: reject malformed UTF-8 at the beginning of long
 texts in voikkoNextTokenCstr

The beginning of a long text was decoded without checking that it is valid.
---
 libvoikko/src/utils/StringUtils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libvoikko/src/utils/StringUtils.cpp b/libvoikko/src/utils/StringUtils.cpp
index 5b2db07..727676f 100644
--- a/libvoikko/src/utils/StringUtils.cpp
+++ b/libvoikko/src/utils/StringUtils.cpp
@@ -72,6 +72,9 @@ wchar_t * StringUtils::ucs4FromUtf8(const char * const original, size_t byteCoun
 	try {
 		size_t chars;
 		if (maxChars * 6 + 1 < byteCount) {
+			// check the validity of the characters that will be converted
+			const char * checkPtr = original;
+			utf8::advance(checkPtr, maxChars, original + byteCount);
 			chars = maxChars;
 		}
 		else {
-- 
2.43.0


From 15c12d093175f1bcc436e1c10eda40edc5915889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:14 +0000
Subject: [PATCH 10/39] fix: recognise long email addresses in
 voikkoNextTokenCstr

Whether a word starts an email address may depend on characters beyond the part of
the text that was converted.
---
 libvoikko/src/tokenizer/interface.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/libvoikko/src/tokenizer/interface.cpp b/libvoikko/src/tokenizer/interface.cpp
index c5ae741..fb958d8 100644
--- a/libvoikko/src/tokenizer/interface.cpp
+++ b/libvoikko/src/tokenizer/interface.cpp
@@ -30,6 +30,7 @@
 #include "setup/setup.hpp"
 #include "utils/StringUtils.hpp"
 #include "tokenizer/Tokenizer.hpp"
+#include "character/charset.hpp"
 #include <cwchar>
 
 namespace libvoikko { namespace tokenizer {
@@ -40,13 +41,24 @@ VOIKKOEXPORT enum voikko_token_type voikkoNextTokenUcs4(VoikkoHandle * options,
 }
 
 static enum voikko_token_type doVoikkoNextTokenCstr(VoikkoHandle * options, const char * text, size_t textlen,
-                                                           size_t * tokenlen, size_t maxChars) {
+                                                           size_t * tokenlen, size_t maxChars, bool & enoughText) {
 	wchar_t * text_ucs4 = utils::StringUtils::ucs4FromUtf8(text, textlen, maxChars);
 	if (text_ucs4 == 0) {
+		enoughText = true;
 		return TOKEN_NONE;
 	}
+	size_t chars = wcslen(text_ucs4);
 	voikko_token_type result =
-		voikkoNextTokenUcs4(options, text_ucs4, wcslen(text_ucs4), tokenlen);
+		voikkoNextTokenUcs4(options, text_ucs4, chars, tokenlen);
+	enoughText = chars < maxChars || result == TOKEN_NONE || *tokenlen + 5 < maxChars;
+	if (enoughText && chars == maxChars && (result == TOKEN_WORD || wcschr(L"-\u2010\u2011", text_ucs4[0]))) {
+		// The token may be the start of an email address, which can be recognised only after all
+		// characters up to the next whitespace have been seen.
+		enoughText = false;
+		for (size_t i = *tokenlen; i < chars && !enoughText; i++) {
+			enoughText = get_char_type(text_ucs4[i]) == CHAR_WHITESPACE;
+		}
+	}
 	delete[] text_ucs4;
 	return result;
 }
@@ -60,9 +72,10 @@ VOIKKOEXPORT enum voikko_token_type voikkoNextTokenCstr(VoikkoHandle * options,
 	size_t maxChars = 50;
 	*tokenlen = 0;
 	voikko_token_type result;
+	bool enoughText = false;
 	while (true) {
-		result = doVoikkoNextTokenCstr(options, text, textlen, tokenlen, maxChars);
-		if (result == TOKEN_NONE || *tokenlen + 5 < maxChars) {
+		result = doVoikkoNextTokenCstr(options, text, textlen, tokenlen, maxChars, enoughText);
+		if (enoughText) {
 			break;
 		}
 		maxChars *= 2;
-- 
2.43.0


From 8a647d273509667b6d23f30cb40098836a011113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:59 +0000
Subject: [PATCH 11/39] fix: do not use or leak the handle table of the
 deprecated API when no handles are open

voikko_terminate crashed when called for a handle that was already closed and no
other handles were open, although it checks the validity of its argument.  The table
was left allocated when opening the first handle failed.
---
 libvoikko/src/compatibility/interface.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/compatibility/interface.cpp b/libvoikko/src/compatibility/interface.cpp
index 0ecad1e..34b4929 100644
--- a/libvoikko/src/compatibility/interface.cpp
+++ b/libvoikko/src/compatibility/interface.cpp
@@ -110,6 +110,7 @@ VOIKKOEXPORT const char * voikko_init_with_path(int * handle, const char * langc
 			delete[] language;
 		}
 	} else {
+		freeHandlesIfPossible();
 		return "Null language code is not allowed";
 	}
 	
@@ -118,6 +119,7 @@ VOIKKOEXPORT const char * voikko_init_with_path(int * handle, const char * langc
 		*handle = handleIndex;
 		return 0;
 	} else {
+		freeHandlesIfPossible();
 		*handle = 0;
 		return error;
 	}
@@ -128,7 +130,7 @@ VOIKKOEXPORT const char * voikko_init(int * handle, const char * langcode, int c
 }
 
 VOIKKOEXPORT int voikko_terminate(int handle) {
-	if (handle >= 1 && handle < MAX_HANDLES && handles[handle]) {
+	if (handles && handle >= 1 && handle < MAX_HANDLES && handles[handle]) {
 		voikkoTerminate(handles[handle]);
 		handles[handle] = 0;
 		freeHandlesIfPossible();
-- 
2.43.0


From 36c9f070c42bf3a2a186e487f07afd819efa5c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:10 +0000
Subject: [PATCH 12/39] fix: do not capitalise the first word of a split
 suggestion because a longer prefix is a name

---
 .../src/spellchecker/suggestion/SuggestionGeneratorSplitWord.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorSplitWord.cpp b/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorSplitWord.cpp
index e502b2e..54b1699 100644
--- a/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorSplitWord.cpp
+++ b/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorSplitWord.cpp
@@ -79,6 +79,7 @@ void SuggestionGeneratorSplitWord::generate(SuggestionStatus * s) const {
 		if (s->getWord()[splitind-2] == L'-' || s->getWord()[splitind-1] == L'-' ||
 		    s->getWord()[splitind+1] == L'-') continue;
 		size_t stripLead2 = (s->getWord()[splitind] == L'-') ? 1 : 0; // "suuntaa-antava" -> "suuntaa antava"
+		part1[0] = s->getWord()[0]; // may have been capitalized for a longer part1
 		part1[splitind] = L'\0';
 		if (getResultForPart1(s, part1, splitind, prio_total)) {
 			wchar_t * suggestion = new wchar_t[s->getWordLength() + 2];
-- 
2.43.0


From 7657b4f5bf955de1bd2b1f5d1fe6d368662d51a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:56 +0000
Subject: [PATCH 13/39] fix: find autocorrect errors after repeated spaces or
 soft hyphens and give them their right length

---
 .../VfstAutocorrectCheck.cpp                  | 28 ++++++-------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp b/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
index c39482c..b3163a5 100644
--- a/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
+++ b/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
@@ -128,33 +128,21 @@ bool VfstAutocorrectCheck::check(VoikkoHandle * options, const Sentence * senten
 		transducer->prepare(configuration, inputBuffer + position, sentenceLengthUtf - position);
 		size_t prefixLength = 0;
 		if (transducer->nextPrefix(configuration, outputBuffer, BUFFER_SIZE, &prefixLength)) {
-			bool endAtBoundary = false;
-			for (vector<size_t>::iterator p = ucsNormalizedPositions.begin(); p != ucsNormalizedPositions.end(); ++p) {
-				if (ucsPosition + prefixLength == *p) {
-					endAtBoundary = true;
+			// position of the end of the match in the original sentence, 0 if not at token boundary
+			size_t ucsEnd = 0;
+			for (size_t n = 1; n < ucsNormalizedPositions.size(); n++) {
+				if (position + prefixLength == ucsNormalizedPositions[n]) {
+					ucsEnd = ucsOriginalPositions[n];
 					break;
 				}
 			}
-			if (!endAtBoundary) {
+			if (ucsEnd == 0) {
 				continue; // end is not at word boundary
 			}
 			CacheEntry * e = new CacheEntry(1);
 			e->error.setErrorCode(GCERR_INVALID_SPELLING);
-			size_t startPos = sentence->pos + ucsPosition;
-			e->error.setStartPos(startPos);
-			size_t lengthCorrection = 0;
-			for (size_t n = 0; n < ucsOriginalPositions.size(); n++) {
-				size_t oPos = ucsOriginalPositions[n];
-				size_t nPos = ucsNormalizedPositions[n];
-				if (oPos <= startPos) {
-					lengthCorrection = oPos - nPos;
-				}
-				if (nPos > startPos + prefixLength) {
-					lengthCorrection = (ucsOriginalPositions[n - 1] - ucsNormalizedPositions[n - 1]) - lengthCorrection;
-					break;
-				}
-			}
-			e->error.setErrorLen(prefixLength + lengthCorrection);
+			e->error.setStartPos(sentence->pos + ucsPosition);
+			e->error.setErrorLen(ucsEnd - ucsPosition);
 			if (lowerFirst) {
 				outputBuffer[0] = character::SimpleChar::upper(outputBuffer[0]);
 			}
-- 
2.43.0


From 75d7afd5a254a3d25f5b8f7c8951f4c6a6e25d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:03 +0000
Subject: [PATCH 14/39] fix: do not ask for an upper case letter where the
 first character of the word has none

---
 .../src/grammar/FinnishRuleEngine/CapitalizationCheck.cpp      | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libvoikko/src/grammar/FinnishRuleEngine/CapitalizationCheck.cpp b/libvoikko/src/grammar/FinnishRuleEngine/CapitalizationCheck.cpp
index 6fbd773..b38b36f 100644
--- a/libvoikko/src/grammar/FinnishRuleEngine/CapitalizationCheck.cpp
+++ b/libvoikko/src/grammar/FinnishRuleEngine/CapitalizationCheck.cpp
@@ -237,8 +237,7 @@ static CapitalizationState inUpper(CapitalizationContext & context) {
 		pushAndPopQuotes(context, separators);
 		return DONT_CARE;
 	}
-	if (!SimpleChar::isUpper(word->str[0]) &&
-	    !SimpleChar::isDigit(word->str[0]) &&
+	if (SimpleChar::isLower(word->str[0]) &&
 	    !word->possibleSentenceStart) {
 		CacheEntry * e = new CacheEntry(1);
 		e->error.setErrorCode(GCERR_WRITE_FIRST_UPPERCASE);
-- 
2.43.0


From 8b12ece51b7653929a2d9908a0eb32429110b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:44 +0000
Subject: [PATCH 15/39] fix: swap the bytes of transducer weights without
 extending the sign

---
 libvoikko/src/fst/WeightedTransducer.cpp | 3 ++-
 libvoikko/src/tools/voikkovfstc.cpp      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index 25e5b6c..4bd517d 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -63,7 +63,8 @@ namespace libvoikko { namespace fst {
 	}
 	
 	static int16_t swap(int16_t x) {
-		return (x>>8) | (x<<8);
+		// the bytes must be swapped without extending the sign
+		return static_cast<int16_t>(swap(static_cast<uint16_t>(x)));
 	}
 	
 	static uint32_t swap(uint32_t x) {
diff --git a/libvoikko/src/tools/voikkovfstc.cpp b/libvoikko/src/tools/voikkovfstc.cpp
index b2aa41a..791bde0 100644
--- a/libvoikko/src/tools/voikkovfstc.cpp
+++ b/libvoikko/src/tools/voikkovfstc.cpp
@@ -56,7 +56,8 @@ static uint16_t swap(uint16_t x) {
 }
 
 static int16_t swap(int16_t x) {
-	return (x>>8) | (x<<8);
+	// the bytes must be swapped without extending the sign
+	return static_cast<int16_t>(swap(static_cast<uint16_t>(x)));
 }
 
 static uint16_t swapIf(bool doSwap, uint16_t x) {
-- 
2.43.0


From acc5c3498ac54d8037b4351af3fe8c8113665c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 16/39] fix: try all flag diacritics of a state at the end of
 the word in weighted transducers

---
 libvoikko/src/fst/WeightedTransducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index 4bd517d..99b45a8 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -361,7 +361,8 @@ namespace libvoikko { namespace fst {
 					}
 					goto nextInMainLoop;
 				}
-				else if (currentTransition->symIn > inputSym) {
+				else if (currentTransition->symIn >= firstNormalChar && currentTransition->symIn > inputSym) {
+					// a flag diacritic that blocks the path may be followed by others that do not
 					break;
 				}
 				else if (tc >= 1 && currentTransition->symIn >= firstNormalChar &&
-- 
2.43.0


From ffd372399e8eef3fc49864971940951685fe1d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:55 +0000
Subject: [PATCH 17/39] fix: restore flag diacritics when the error model of a
 weighted speller backtracks

---
 libvoikko/src/fst/WeightedTransducer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index 99b45a8..727e469 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -424,6 +424,9 @@ namespace libvoikko { namespace fst {
 				if (previousInputSymbol >= firstNormalChar) {
 					configuration->inputDepth--;
 				}
+				else if (flagDiacriticFeatureCount && previousInputSymbol != 0) {
+					configuration->flagDepth--;
+				}
 			}
 			configuration->currentTransitionStack[configuration->stackDepth]++;
 		}
-- 
2.43.0


From 9cbbf24187ba116c740fabe4ccfe498a5fa46482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:45 +0000
Subject: [PATCH 18/39] fix: do not prefer dictionaries whose tag is ten
 characters long as if they were the standard variant

---
 libvoikko/src/setup/DictionaryFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/setup/DictionaryFactory.cpp b/libvoikko/src/setup/DictionaryFactory.cpp
index 6be8652..d491ed4 100644
--- a/libvoikko/src/setup/DictionaryFactory.cpp
+++ b/libvoikko/src/setup/DictionaryFactory.cpp
@@ -92,7 +92,7 @@ list<Dictionary> DictionaryFactory::findAllAvailable(const std::string & path) {
 		if (i->second.isDefault()) {
 			dicts.push_front(i->second);
 		}
-		else if (i->first.rfind("-x-standard") == i->first.size() - 11 &&
+		else if (i->second.getLanguage().getPrivateUse() == "standard" &&
 		         !DictionaryLoader::hasDefaultForLanguage(&dictMap, i->second.getLanguage().getLanguage())) {
 			dicts.push_front(i->second);
 		}
-- 
2.43.0


From b3fe2b78e1b6e0da4c15be3a73be24dc53b7f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:20 +0000
Subject: [PATCH 19/39] fix: tell the grammar backend where the dictionary is
 when the backend is named in the index file

---
 libvoikko/src/setup/V5DictionaryLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/setup/V5DictionaryLoader.cpp b/libvoikko/src/setup/V5DictionaryLoader.cpp
index dbe774d..b5034ae 100644
--- a/libvoikko/src/setup/V5DictionaryLoader.cpp
+++ b/libvoikko/src/setup/V5DictionaryLoader.cpp
@@ -109,7 +109,7 @@ Dictionary V5DictionaryLoader::dictionaryFromPath(const string & path) {
 			hyphenatorBackend = BackendProperties(line.substr(20), true);
 		}
 		else if (line.find("Grammar-Backend: ") == 0) {
-			grammarBackend = BackendProperties(line.substr(17), true);
+			grammarBackend = BackendProperties(line.substr(17), path, true);
 		}
 	}
 	file.close();
-- 
2.43.0


From ff8abbf9d1273c3aa00d25decf8ee953450a8221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:38 +0000
Subject: [PATCH 20/39] fix: refuse transducer files that are empty, incomplete
 or have malformed symbols

---
 libvoikko/src/fst/Transducer.cpp           | 33 +++++++++++++++++++++-
 libvoikko/src/fst/Transducer.hpp           |  1 +
 libvoikko/src/fst/UnweightedTransducer.cpp |  4 +++
 libvoikko/src/fst/WeightedTransducer.cpp   |  4 +++
 4 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/fst/Transducer.cpp b/libvoikko/src/fst/Transducer.cpp
index 1953abf..53c9cf5 100644
--- a/libvoikko/src/fst/Transducer.cpp
+++ b/libvoikko/src/fst/Transducer.cpp
@@ -132,10 +132,15 @@ namespace libvoikko { namespace fst {
 			struct stat st;
 			fstat(fd, &st);
 			fileLength = st.st_size;
+			if (fileLength < 18) {
+				// there must be room for the header and the number of symbols
+				close(fd);
+				return 0;
+			}
 			
 			void * map = mmap(0, fileLength, PROT_READ, MAP_SHARED, fd, 0);
 			close(fd);
-			return map;
+			return map == MAP_FAILED ? 0 : map;
 		#endif
 		#ifdef WIN32
 			HANDLE fileHandle = CreateFile(filePath, GENERIC_READ, FILE_SHARE_READ,
@@ -182,6 +187,32 @@ namespace libvoikko { namespace fst {
 		return filePtr[8] == 0x01;
 	}
 	
+	/**
+	 * Throws an exception unless the file contains a complete symbol table and
+	 * a transition table that has at least one transition.
+	 */
+	void Transducer::checkFileSize(const char * filePtr, size_t fileLength, bool swapBytes, size_t transitionSize) {
+		uint16_t symbolCount;
+		memcpy(&symbolCount, filePtr + 16, sizeof(uint16_t));
+		if (swapBytes) {
+			symbolCount = (symbolCount >> 8) | (symbolCount << 8);
+		}
+		const char * fileEnd = filePtr + fileLength;
+		const char * symbolPtr = filePtr + 18;
+		for (uint16_t i = 0; i < symbolCount; i++) {
+			symbolPtr = static_cast<const char *>(memchr(symbolPtr, 0, fileEnd - symbolPtr));
+			if (!symbolPtr) {
+				throw setup::DictionaryException("Transducer file is incomplete");
+			}
+			symbolPtr++;
+		}
+		size_t tableStart = symbolPtr - filePtr;
+		tableStart = (tableStart + transitionSize - 1) / transitionSize * transitionSize;
+		if (tableStart >= fileLength || (fileLength - tableStart) % transitionSize != 0) {
+			throw setup::DictionaryException("Transducer file is incomplete");
+		}
+	}
+	
 	uint16_t Transducer::getFlagDiacriticFeatureCount() const {
 		return flagDiacriticFeatureCount;
 	}
diff --git a/libvoikko/src/fst/Transducer.hpp b/libvoikko/src/fst/Transducer.hpp
index 1eccc48..bbc8a75 100644
--- a/libvoikko/src/fst/Transducer.hpp
+++ b/libvoikko/src/fst/Transducer.hpp
@@ -67,6 +67,7 @@ namespace libvoikko { namespace fst {
 			void vfstMunmap(void * map, size_t fileLength);
 			bool checkNeedForByteSwapping(const char * filePtr);
 			bool isWeightedTransducerFile(const char * filePtr);
+			void checkFileSize(const char * filePtr, size_t fileLength, bool swapBytes, size_t transitionSize);
 		public:
 			uint16_t flagDiacriticFeatureCount;
 			uint16_t firstNormalChar;
diff --git a/libvoikko/src/fst/UnweightedTransducer.cpp b/libvoikko/src/fst/UnweightedTransducer.cpp
index 301b240..7a5754c 100644
--- a/libvoikko/src/fst/UnweightedTransducer.cpp
+++ b/libvoikko/src/fst/UnweightedTransducer.cpp
@@ -131,6 +131,7 @@ namespace libvoikko { namespace fst {
 		if (isWeightedTransducerFile(static_cast<char *>(map))) {
 			throw setup::DictionaryException("Expected unweighted but got weighted transducer");
 		}
+		checkFileSize(static_cast<char *>(map), fileLength, byteSwapped, sizeof(Transition));
 		if (byteSwapped) {
 			byteSwapTransducer(map, fileLength);
 		}
@@ -150,6 +151,9 @@ namespace libvoikko { namespace fst {
 		DEBUG("Reading " << symbolCount << " symbols to symbol table");
 		for (uint16_t i = 0; i < symbolCount; i++) {
 			wchar_t * ucs4Symbol = utils::StringUtils::ucs4FromUtf8(filePtr);
+			if (!ucs4Symbol) {
+				throw setup::DictionaryException("Transducer file has a symbol that is not valid UTF-8");
+			}
 			symbolToString.push_back(ucs4Symbol);
 			if (i == 0) {
 				symbolToDiacritic.push_back(OpFeatureValue()); // epsilon
diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index 727e469..f4be39d 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -138,6 +138,7 @@ namespace libvoikko { namespace fst {
 		if (!isWeightedTransducerFile(static_cast<char *>(map))) {
 			throw setup::DictionaryException("Expected weighted but got unweighted transducer");
 		}
+		checkFileSize(static_cast<char *>(map), fileLength, byteSwapped, sizeof(WeightedTransition));
 		if (byteSwapped) {
 			byteSwapTransducer(map, fileLength);
 		}
@@ -157,6 +158,9 @@ namespace libvoikko { namespace fst {
 		DEBUG("Reading " << symbolCount << " symbols to symbol table");
 		for (uint16_t i = 0; i < symbolCount; i++) {
 			wchar_t * ucs4Symbol = utils::StringUtils::ucs4FromUtf8(filePtr);
+			if (!ucs4Symbol) {
+				throw setup::DictionaryException("Transducer file has a symbol that is not valid UTF-8");
+			}
 			symbolToString.push_back(ucs4Symbol);
 			if (i == 0) {
 				symbolToDiacritic.push_back(OpFeatureValue()); // epsilon
-- 
2.43.0


From 069c4930ee0cb9ac9c24bde70f4815e68ce765b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:24 +0000
Subject: [PATCH 21/39] fix: release the transducer file when it cannot be used

---
 libvoikko/src/fst/UnweightedTransducer.cpp | 22 +++++++++++++++++++---
 libvoikko/src/fst/UnweightedTransducer.hpp |  1 +
 libvoikko/src/fst/WeightedTransducer.cpp   | 22 +++++++++++++++++++---
 libvoikko/src/fst/WeightedTransducer.hpp   |  1 +
 4 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/libvoikko/src/fst/UnweightedTransducer.cpp b/libvoikko/src/fst/UnweightedTransducer.cpp
index 7a5754c..7b5b359 100644
--- a/libvoikko/src/fst/UnweightedTransducer.cpp
+++ b/libvoikko/src/fst/UnweightedTransducer.cpp
@@ -127,13 +127,29 @@ namespace libvoikko { namespace fst {
 		if (!map) {
 			throw setup::DictionaryException("Unweighted transducer file could not be read");
 		}
-		byteSwapped = checkNeedForByteSwapping(static_cast<char *>(map));
+		byteSwapped = false;
+		try {
+			readSymbols();
+		}
+		catch (...) {
+			// destructor will not be called
+			for (wchar_t * s : symbolToString) {
+				delete[] s;
+			}
+			terminate();
+			throw;
+		}
+	}
+	
+	void UnweightedTransducer::readSymbols() {
+		bool swapNeeded = checkNeedForByteSwapping(static_cast<char *>(map));
 		if (isWeightedTransducerFile(static_cast<char *>(map))) {
 			throw setup::DictionaryException("Expected unweighted but got weighted transducer");
 		}
-		checkFileSize(static_cast<char *>(map), fileLength, byteSwapped, sizeof(Transition));
-		if (byteSwapped) {
+		checkFileSize(static_cast<char *>(map), fileLength, swapNeeded, sizeof(Transition));
+		if (swapNeeded) {
 			byteSwapTransducer(map, fileLength);
+			byteSwapped = true;
 		}
 		char * filePtr = static_cast<char *>(map);
 		
diff --git a/libvoikko/src/fst/UnweightedTransducer.hpp b/libvoikko/src/fst/UnweightedTransducer.hpp
index 7435359..b77f136 100644
--- a/libvoikko/src/fst/UnweightedTransducer.hpp
+++ b/libvoikko/src/fst/UnweightedTransducer.hpp
@@ -46,6 +46,7 @@ namespace libvoikko { namespace fst {
 			uint16_t firstMultiChar;
 			uint16_t unknownSymbolOrdinal;
 			void byteSwapTransducer(void *& mapPtr, size_t fileLength);
+			void readSymbols();
 		public:
 			explicit UnweightedTransducer(const char * filePath);
 			~UnweightedTransducer();
diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index f4be39d..8e5a665 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -134,13 +134,29 @@ namespace libvoikko { namespace fst {
 			DEBUG(filePath);
 			throw setup::DictionaryException("Weighted transducer file could not be read");
 		}
-		byteSwapped = checkNeedForByteSwapping(static_cast<char *>(map));
+		byteSwapped = false;
+		try {
+			readSymbols();
+		}
+		catch (...) {
+			// destructor will not be called
+			for (wchar_t * s : symbolToString) {
+				delete[] s;
+			}
+			terminate();
+			throw;
+		}
+	}
+	
+	void WeightedTransducer::readSymbols() {
+		bool swapNeeded = checkNeedForByteSwapping(static_cast<char *>(map));
 		if (!isWeightedTransducerFile(static_cast<char *>(map))) {
 			throw setup::DictionaryException("Expected weighted but got unweighted transducer");
 		}
-		checkFileSize(static_cast<char *>(map), fileLength, byteSwapped, sizeof(WeightedTransition));
-		if (byteSwapped) {
+		checkFileSize(static_cast<char *>(map), fileLength, swapNeeded, sizeof(WeightedTransition));
+		if (swapNeeded) {
 			byteSwapTransducer(map, fileLength);
+			byteSwapped = true;
 		}
 		char * filePtr = static_cast<char *>(map);
 		
diff --git a/libvoikko/src/fst/WeightedTransducer.hpp b/libvoikko/src/fst/WeightedTransducer.hpp
index ded5e29..65bb6d4 100644
--- a/libvoikko/src/fst/WeightedTransducer.hpp
+++ b/libvoikko/src/fst/WeightedTransducer.hpp
@@ -44,6 +44,7 @@ namespace libvoikko { namespace fst {
 			std::vector<size_t> symbolStringLength;
 			uint16_t firstMultiChar;
 			void byteSwapTransducer(void *& mapPtr, size_t fileLength);
+			void readSymbols();
 		public:
 			explicit WeightedTransducer(const char * filePath);
 			~WeightedTransducer();
-- 
2.43.0


From b7be53a3d3bf6bb7077acff97ad3760862e35797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:25 +0000
Subject: [PATCH 22/39] fix: release suggestion generators and grammar checks
 when they are replaced or cannot be used

---
 libvoikko/src/grammar/FinnishRuleEngine.cpp | 14 ++++++++++++--
 libvoikko/src/grammar/FinnishRuleEngine.hpp |  2 ++
 libvoikko/src/setup/setup.cpp               | 18 ++++++++++++++----
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/libvoikko/src/grammar/FinnishRuleEngine.cpp b/libvoikko/src/grammar/FinnishRuleEngine.cpp
index c2df81c..3e596be 100644
--- a/libvoikko/src/grammar/FinnishRuleEngine.cpp
+++ b/libvoikko/src/grammar/FinnishRuleEngine.cpp
@@ -54,18 +54,28 @@ FinnishRuleEngine::FinnishRuleEngine(VoikkoHandle * voikkoOptions) :
 #ifdef HAVE_VFST
 	if (voikkoOptions->dictionary.getGrammarBackend().getBackend() == "finnishVfst") {
 		std::string autocorrFile = voikkoOptions->dictionary.getGrammarBackend().getPath() + "/autocorr.vfst";
-		sentenceChecks.push_back(new check::VfstAutocorrectCheck(autocorrFile));
+		try {
+			sentenceChecks.push_back(new check::VfstAutocorrectCheck(autocorrFile));
+		}
+		catch (...) {
+			deleteSentenceChecks(); // destructor will not be called
+			throw;
+		}
 	}
 #endif
 }
 
-FinnishRuleEngine::~FinnishRuleEngine() {
+void FinnishRuleEngine::deleteSentenceChecks() {
 	std::list<check::SentenceCheck *>::iterator i = sentenceChecks.begin();
 	for (; i != sentenceChecks.end(); ++i) {
 		delete *i;
 	}
 }
 
+FinnishRuleEngine::~FinnishRuleEngine() {
+	deleteSentenceChecks();
+}
+
 void FinnishRuleEngine::check(const Paragraph * paragraph) {
 	std::list<check::SentenceCheck *>::const_iterator sentenceCheckIt;
 	for (size_t i = 0; i < paragraph->sentenceCount; i++) {
diff --git a/libvoikko/src/grammar/FinnishRuleEngine.hpp b/libvoikko/src/grammar/FinnishRuleEngine.hpp
index d50b463..fafdda9 100644
--- a/libvoikko/src/grammar/FinnishRuleEngine.hpp
+++ b/libvoikko/src/grammar/FinnishRuleEngine.hpp
@@ -54,6 +54,8 @@ class FinnishRuleEngine : public RuleEngine {
 		std::list<check::SentenceCheck *> sentenceChecks;
 		VoikkoHandle * voikkoOptions;
 
+		void deleteSentenceChecks();
+
 		FinnishRuleEngine(FinnishRuleEngine const & other);
 		FinnishRuleEngine & operator = (const FinnishRuleEngine & other);
 };
diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index 7818c14..868ca14 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -113,9 +113,16 @@ VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int
 			spellchecker::suggestion::SuggestionType type = (value ? 
 				spellchecker::suggestion::SUGGESTION_TYPE_OCR :
 				spellchecker::suggestion::SUGGESTION_TYPE_STD);
+			spellchecker::suggestion::SuggestionGenerator * generator;
+			try {
+				generator = spellchecker::suggestion::SuggestionGeneratorFactory::getSuggestionGenerator(options, type);
+			}
+			catch (DictionaryException & e) {
+				return 0;
+			}
+			options->suggestionGenerator->terminate();
 			delete options->suggestionGenerator;
-			options->suggestionGenerator =
-				spellchecker::suggestion::SuggestionGeneratorFactory::getSuggestionGenerator(options, type);
+			options->suggestionGenerator = generator;
 			return 1;
 			}
 		case VOIKKO_OPT_IGNORE_NONWORDS:
@@ -223,8 +230,11 @@ VOIKKOEXPORT VoikkoHandle * voikkoInit(const char ** error, const char * langcod
 			delete options->hyphenator;
 			options->hyphenator = 0;
 		}
-		delete options->suggestionGenerator;
-		options->suggestionGenerator = 0;
+		if (options->suggestionGenerator) {
+			options->suggestionGenerator->terminate();
+			delete options->suggestionGenerator;
+			options->suggestionGenerator = 0;
+		}
 		if (options->speller) {
 			options->speller->terminate();
 			delete options->speller;
-- 
2.43.0


From 56b6224b987362dce7150e0f93b479e55bc69ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:55 +0000
Subject: [PATCH 23/39] fix: ignore ZHFST dictionaries whose transducers cannot
 be read

---
 libvoikko/src/setup/V3DictionaryLoader.cpp | 6 +++++-
 libvoikko/src/spellchecker/HfstSpeller.cpp | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/setup/V3DictionaryLoader.cpp b/libvoikko/src/setup/V3DictionaryLoader.cpp
index 3024766..b65d9e5 100644
--- a/libvoikko/src/setup/V3DictionaryLoader.cpp
+++ b/libvoikko/src/setup/V3DictionaryLoader.cpp
@@ -65,10 +65,14 @@ void V3DictionaryLoader::findDictionaries(const string & path) {
 			try {
 				speller->read_zhfst(fullPath.c_str());
 			}
-			catch (hfst_ospell::ZHfstZipReadingError& zhzre) {
+			catch (hfst_ospell::ZHfstException & zhe) {
 				delete speller;
 				continue; // broken dictionary
 			}
+			catch (hfst_ospell::OspellException & oe) {
+				delete speller;
+				continue; // broken transducer within the dictionary
+			}
 			const hfst_ospell::ZHfstOspellerXmlMetadata spellerMetadata = speller->get_metadata();
 			
 			LanguageTag language;
diff --git a/libvoikko/src/spellchecker/HfstSpeller.cpp b/libvoikko/src/spellchecker/HfstSpeller.cpp
index 8b90407..c876652 100644
--- a/libvoikko/src/spellchecker/HfstSpeller.cpp
+++ b/libvoikko/src/spellchecker/HfstSpeller.cpp
@@ -49,9 +49,14 @@ HfstSpeller::HfstSpeller(const string & zhfstFileName, VoikkoHandle * voikkoOpti
 	try {
 		speller->read_zhfst(zhfstFileName.c_str());
 	}
-	catch (hfst_ospell::ZHfstZipReadingError& zhzre) {
+	catch (hfst_ospell::ZHfstException & zhe) {
+		delete speller;
 		throw setup::DictionaryException("Error reading ZHFST speller");
 	}
+	catch (hfst_ospell::OspellException & oe) {
+		delete speller;
+		throw setup::DictionaryException("Error reading transducers of ZHFST speller");
+	}
 }
 
 spellresult HfstSpeller::doSpell(const wchar_t * word, size_t wlen) {
-- 
2.43.0


From 5f05f23f6fa885558e9f4ecdaafc1b073e5efe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:14 +0000
Subject: [PATCH 24/39] fix: wait for the right threads when voikkospell has
 fewer blocks of words than threads

---
 libvoikko/src/tools/voikkospell.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvoikko/src/tools/voikkospell.cpp b/libvoikko/src/tools/voikkospell.cpp
index a79e248..cc98f8f 100644
--- a/libvoikko/src/tools/voikkospell.cpp
+++ b/libvoikko/src/tools/voikkospell.cpp
@@ -216,6 +216,8 @@ static void handleWordMultiThread(const wchar_t * word) {
 static void finishProcessing() {
 	#ifdef HAVE_PTHREAD
 		queueNextBlock();
+		// continue from the thread that was started first
+		nextThread = (nextThread + threadCount - nThreadsInUse) % threadCount;
 		while (nThreadsInUse > 0) {
 			cleanupThread();
 			nextThread = (nextThread + 1) % threadCount;
-- 
2.43.0


From 3455e31df13a56f51f122a8e4c96968b764bb380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:14 +0000
Subject: [PATCH 25/39] fix: count lines in voikkogc so that -n prints their
 numbers

---
 libvoikko/src/tools/voikkogc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvoikko/src/tools/voikkogc.cpp b/libvoikko/src/tools/voikkogc.cpp
index ed558c7..5c8e8e4 100644
--- a/libvoikko/src/tools/voikkogc.cpp
+++ b/libvoikko/src/tools/voikkogc.cpp
@@ -250,6 +250,7 @@ int main(int argc, char ** argv) {
 
 	std::string utf8_line;
 	while (std::getline(std::cin, utf8_line)) {
+		lineNumber++;
 		if (utf8_line.empty()) continue;
 
 		const char * src = utf8_line.c_str();
-- 
2.43.0


From 9b7ea4999e0107cd99a3f5207d6aa5e65f6c34eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:55 +0000
Subject: [PATCH 26/39] fix: do not crash in the Python binding when a word
 cannot be hyphenated

---
 libvoikko/python/libvoikko.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/python/libvoikko.py b/libvoikko/python/libvoikko.py
index cf5fd76..a429257 100644
--- a/libvoikko/python/libvoikko.py
+++ b/libvoikko/python/libvoikko.py
@@ -785,6 +785,8 @@ class Voikko(object):
             return "".ljust(len(word))
 
         cHyphenationPattern = self.__lib.voikkoHyphenateUcs4(self.__handle, word)
+        if not bool(cHyphenationPattern):
+            return "".ljust(len(word))
         hyphenationPattern = string_at(cHyphenationPattern)
         self.__lib.voikkoFreeCstr(cHyphenationPattern)
         return unicode_str(hyphenationPattern, 'ASCII')
@@ -795,6 +797,8 @@ class Voikko(object):
             return word
         cHyphenated = self.__lib.voikkoInsertHyphensCstr(
             self.__handle, word.encode("UTF-8"), separator.encode("UTF-8"), _boolToInt(allowContextChanges))
+        if not bool(cHyphenated):
+            return word
         hyphenated = string_at(cHyphenated)
         self.__lib.voikkoFreeCstr(cHyphenated)
         return unicode_str(hyphenated, "UTF-8")
-- 
2.43.0


From f1aca3f430ed2938caaaf4648c0a98e12b3eba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:55 +0000
Subject: [PATCH 27/39] fix: make the order of dictionaries in the Python
 binding consistent

---
 libvoikko/python/libvoikko.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/libvoikko/python/libvoikko.py b/libvoikko/python/libvoikko.py
index a429257..d299a5b 100644
--- a/libvoikko/python/libvoikko.py
+++ b/libvoikko/python/libvoikko.py
@@ -111,13 +111,10 @@ class Dictionary:
     def __lt__(self, other):
         if not isinstance(other, Dictionary):
             return False
-        if self.language < other.language:
-            return True
-        if self.script < other.script:
-            return True
-        if self.variant < other.variant:
-            return True
-        return self.description < other.description
+        return (
+            (self.language, self.script, self.variant, self.description) <
+            (other.language, other.script, other.variant, other.description)
+        )
 
     def __eq__(self, other):
         return (
-- 
2.43.0


From 05940e56adc56a08884992f89491bba0dd1af35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:00 +0000
Subject: [PATCH 28/39] fix: give positions of grammar errors and sentences as
 Java string offsets when the text has supplementary characters

---
 .../src/main/java/org/puimula/libvoikko/Voikko.java   | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
index 0c60cf0..6405c97 100644
--- a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
+++ b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
@@ -243,17 +243,18 @@ public class Voikko {
             if (cError == null) {
                 return;
             }
-            errorList.add(getGrammarError(cError, offset, language));
+            errorList.add(getGrammarError(cError, paragraph, offset, language));
             lib.voikkoFreeGrammarError(cError);
             skipErrors++;
         }
     }
 
-    private GrammarError getGrammarError(VoikkoGrammarError cError, int offset, String language) {
+    private GrammarError getGrammarError(VoikkoGrammarError cError, String paragraph, int offset, String language) {
         final Libvoikko lib = getLib();
         int errorCode = lib.voikkoGetGrammarErrorCode(cError);
-        int startPos = lib.voikkoGetGrammarErrorStartPos(cError).intValue();
-        int errorLength = lib.voikkoGetGrammarErrorLength(cError).intValue();
+        // The native library counts code points
+        int startPos = paragraph.offsetByCodePoints(0, lib.voikkoGetGrammarErrorStartPos(cError).intValue());
+        int errorLength = paragraph.offsetByCodePoints(startPos, lib.voikkoGetGrammarErrorLength(cError).intValue()) - startPos;
         Pointer cSuggestions = lib.voikkoGetGrammarErrorSuggestions(cError);
         List<String> suggestions;
         if (cSuggestions == null) {
@@ -377,7 +378,7 @@ public class Voikko {
         SizeTByReference sentenceLenByRef = new SizeTByReference();
         while (textLen > 0) {
             int sentenceTypeInt = lib.voikkoNextSentenceStartCstr(handle, textBytes, new SizeT(textLen), sentenceLenByRef);
-            int sentenceLen = sentenceLenByRef.getValue().intValue();
+            int sentenceLen = text.offsetByCodePoints(0, sentenceLenByRef.getValue().intValue());
             SentenceStartType sentenceType = SentenceStartType.values()[sentenceTypeInt];
             String tokenText = text.substring(0, sentenceLen);
             result.add(new Sentence(tokenText, sentenceType));
-- 
2.43.0


From adea45561cfc82698dbba309a2f856db31c9b796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:00 +0000
Subject: [PATCH 29/39] fix: do not loop forever in the Java binding when the
 text has characters the library does not accept

---
 .../java/src/main/java/org/puimula/libvoikko/Voikko.java  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
index 6405c97..9918855 100644
--- a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
+++ b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
@@ -330,7 +330,7 @@ public class Voikko {
         int len = text.length();
         for (int i = startFrom; i < len; i++) {
             int c = text.charAt(i);
-            if (c == 0 || (c >= 0xD800 && c <= 0xDFFF)) {
+            if (c == 0 || (c >= 0xD800 && c <= 0xDFFF) || c >= 0xFFFE) {
                 return i;
             }
         }
@@ -378,8 +378,12 @@ public class Voikko {
         SizeTByReference sentenceLenByRef = new SizeTByReference();
         while (textLen > 0) {
             int sentenceTypeInt = lib.voikkoNextSentenceStartCstr(handle, textBytes, new SizeT(textLen), sentenceLenByRef);
-            int sentenceLen = text.offsetByCodePoints(0, sentenceLenByRef.getValue().intValue());
             SentenceStartType sentenceType = SentenceStartType.values()[sentenceTypeInt];
+            if (sentenceType == SentenceStartType.NONE) {
+                result.add(new Sentence(text, sentenceType));
+                break;
+            }
+            int sentenceLen = text.offsetByCodePoints(0, sentenceLenByRef.getValue().intValue());
             String tokenText = text.substring(0, sentenceLen);
             result.add(new Sentence(tokenText, sentenceType));
             text = text.substring(sentenceLen);
-- 
2.43.0


From b7e80327d9640862267266d311f5e18bc61b37fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:00 +0000
Subject: [PATCH 30/39] fix: do not throw NullPointerException in the Java
 binding when a word cannot be hyphenated

---
 .../java/org/puimula/libvoikko/Voikko.java    | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
index 9918855..9772be4 100644
--- a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
+++ b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
@@ -406,19 +406,26 @@ public class Voikko {
     public synchronized String getHyphenationPattern(String word) {
         requireValidHandle();
         if (!isValidInput(word)) {
-            // return string of spaces
-            StringBuilder sb = new StringBuilder();
-            for (int i = 0; i < word.length(); i++) {
-                sb.append(" ");
-            }
-            return sb.toString();
+            return emptyHyphenationPattern(word);
         }
         ByteArray cPattern = getLib().voikkoHyphenateCstr(handle, s2n(word));
+        if (cPattern == null) {
+            return emptyHyphenationPattern(word);
+        }
         String pattern = cPattern.toString();
         getLib().voikkoFreeCstr(cPattern);
         return pattern;
     }
 
+    private static String emptyHyphenationPattern(String word) {
+        // return string of spaces
+        StringBuilder sb = new StringBuilder();
+        for (int i = 0; i < word.length(); i++) {
+            sb.append(" ");
+        }
+        return sb.toString();
+    }
+
     /**
      * @deprecated Use the function with explicit separator instead
      * @param word
@@ -445,6 +452,9 @@ public class Voikko {
         }
         ByteArray cHyphenated = getLib().voikkoInsertHyphensCstr(
                 handle, s2n(word), s2n(separator), boolToInt(allowContextChanges));
+        if (cHyphenated == null) {
+            return word;
+        }
         String hyphenated = cHyphenated.toString();
         getLib().voikkoFreeCstr(cHyphenated);
         return hyphenated;
-- 
2.43.0


From 7cd52305411dad0f8258396c7f62bef5a40bba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:00 +0000
Subject: [PATCH 31/39] fix: synchronize all methods of the Java binding that
 use the handle

---
 .../java/src/main/java/org/puimula/libvoikko/Voikko.java      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
index 9772be4..f635b88 100644
--- a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
+++ b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
@@ -445,7 +445,7 @@ public class Voikko {
      *        the hyphen will lead to other changes in the word
      * @return the given word in fully hyphenated form.
      */
-    public String hyphenate(String word, String separator, boolean allowContextChanges) {
+    public synchronized String hyphenate(String word, String separator, boolean allowContextChanges) {
         requireValidHandle();
         if (!isValidInput(word) || !isValidInput(separator)) {
             return word;
@@ -667,7 +667,7 @@ public class Voikko {
      * @return A list of possible attribute values for attribute in morphological analysis or null if
      *         the attribute does not exist or it does not have a known finite set of possible values.
      */
-    public List<String> attributeValues(String attributeName) {
+    public synchronized List<String> attributeValues(String attributeName) {
         requireValidHandle();
         if (!isValidInput(attributeName)) {
             return null;
-- 
2.43.0


From 419c053332644809d9b4d354db1562db81a4fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:33 +0000
Subject: [PATCH 32/39] fix: count UTF-16 code units in the JavaScript binding
 when the text has supplementary characters

---
 libvoikko/js/libvoikko_api.js | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/libvoikko/js/libvoikko_api.js b/libvoikko/js/libvoikko_api.js
index a886f20..6ee794d 100644
--- a/libvoikko/js/libvoikko_api.js
+++ b/libvoikko/js/libvoikko_api.js
@@ -34,6 +34,16 @@ var isValidInput = function(word) {
 	return word.indexOf('\0') == -1;
 }
 
+// Converts a length in code points, as used by the C API, to a length in UTF-16 code units starting from given index.
+var utf16Length = function(text, start, codePoints) {
+	var end = start;
+	for (var i = 0; i < codePoints && end < text.length; i++) {
+		var c = text.charCodeAt(end);
+		end += (c >= 0xD800 && c <= 0xDBFF && end + 1 < text.length) ? 2 : 1;
+	}
+	return end - start;
+};
+
 Module["onRuntimeInitialized"] = function() {
 	if ("onLoad" in Module) {
 		Module["onLoad"](Module);
@@ -65,7 +75,7 @@ Module["init"] = function(lang, path) {
 		while (bytesLen > 0) {
 			var textBytesPosition = textBytes + bytesStart;
 			var tokenTypeInt = c_nextTokenCstr(handle, textBytesPosition, bytesLen, tokenLenByRef);
-			var tokenLen = getValue(tokenLenByRef, "i32");
+			var tokenLen = utf16Length(text, textStart, getValue(tokenLenByRef, "i32"));
 			var tokenType = tokenTypes[tokenTypeInt];
 			var tokenText = text.substring(textStart, textStart + tokenLen);
 			textStart += tokenText.length;
@@ -125,10 +135,10 @@ Module["init"] = function(lang, path) {
 		}
 	};
 	
-	var getGrammarError = function(cError, offset, language) {
+	var getGrammarError = function(cError, paragraph, offset, language) {
 		var errorCode = c_grammarErrorCode(cError);
-		var startPos = c_grammarErrorStartPos(cError);
-		var errorLength = c_grammarErrorLength(cError);
+		var startPos = utf16Length(paragraph, 0, c_grammarErrorStartPos(cError));
+		var errorLength = utf16Length(paragraph, startPos, c_grammarErrorLength(cError));
 		var cSuggestions = c_grammarErrorSuggestions(cError);
 		var suggestions = [];
 		if (cSuggestions) {
@@ -153,7 +163,7 @@ Module["init"] = function(lang, path) {
 			if (!cError) {
 				return;
 			}
-			errorList.push(getGrammarError(cError, offset, language));
+			errorList.push(getGrammarError(cError, paragraph, offset, language));
 			c_freeGrammarError(cError);
 			skipErrors++;
 		}
@@ -284,7 +294,7 @@ Module["init"] = function(lang, path) {
 			var sentenceLenByRef = mallocPtr();
 			while (textLen > 0) {
 				var sentenceTypeInt = c_nextSentenceStartCstr(handle, textBytesPtr, textLen, sentenceLenByRef);
-				var sentenceLen = getValue(sentenceLenByRef, "i32");
+				var sentenceLen = utf16Length(text, 0, getValue(sentenceLenByRef, "i32"));
 				var sentenceType = sentenceTypes[sentenceTypeInt];
 				var sentenceText = text.substring(0, sentenceLen);
 				result.push({"text": sentenceText, "nextStartType": sentenceType});
-- 
2.43.0


From 723c7169a8b70cf909f8136ff015abc334d6e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:33 +0000
Subject: [PATCH 33/39] fix: do not loop forever in the JavaScript binding when
 the text has characters the library does not accept

---
 libvoikko/js/libvoikko_api.js | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libvoikko/js/libvoikko_api.js b/libvoikko/js/libvoikko_api.js
index 6ee794d..ab46c5d 100644
--- a/libvoikko/js/libvoikko_api.js
+++ b/libvoikko/js/libvoikko_api.js
@@ -271,10 +271,13 @@ Module["init"] = function(lang, path) {
 			requireValidHandle();
 			var allTokens = [];
 			var lastStart = 0;
-			for (var i = text.indexOf("\0"); i != -1; i = text.indexOf("\0", i + 1)) {
-				allTokens.push.apply(allTokens, tokensNonNull(text.substring(lastStart, i)));
-				allTokens.push({"type": "UNKNOWN", "text": "\0"});
-				lastStart = i + 1;
+			for (var i = 0; i < text.length; i++) {
+				var c = text.charAt(i);
+				if (c == "\0" || c == "\uFFFE" || c == "\uFFFF") {
+					allTokens.push.apply(allTokens, tokensNonNull(text.substring(lastStart, i)));
+					allTokens.push({"type": "UNKNOWN", "text": c});
+					lastStart = i + 1;
+				}
 			}
 			allTokens.push.apply(allTokens, tokensNonNull(text.substring(lastStart)));
 			return allTokens;
@@ -294,8 +297,12 @@ Module["init"] = function(lang, path) {
 			var sentenceLenByRef = mallocPtr();
 			while (textLen > 0) {
 				var sentenceTypeInt = c_nextSentenceStartCstr(handle, textBytesPtr, textLen, sentenceLenByRef);
-				var sentenceLen = utf16Length(text, 0, getValue(sentenceLenByRef, "i32"));
 				var sentenceType = sentenceTypes[sentenceTypeInt];
+				if (sentenceType == "NONE") {
+					result.push({"text": text, "nextStartType": sentenceType});
+					break;
+				}
+				var sentenceLen = utf16Length(text, 0, getValue(sentenceLenByRef, "i32"));
 				var sentenceText = text.substring(0, sentenceLen);
 				result.push({"text": sentenceText, "nextStartType": sentenceType});
 				text = text.substring(sentenceLen);
-- 
2.43.0


From 47212896ed7d8647cd0dab3de68e263b9ec5328d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:33 +0000
Subject: [PATCH 34/39] fix: return the word and an empty pattern in the
 JavaScript binding when a word cannot be hyphenated

---
 libvoikko/js/libvoikko_api.js | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libvoikko/js/libvoikko_api.js b/libvoikko/js/libvoikko_api.js
index ab46c5d..d3d89f7 100644
--- a/libvoikko/js/libvoikko_api.js
+++ b/libvoikko/js/libvoikko_api.js
@@ -91,7 +91,8 @@ Module["init"] = function(lang, path) {
 	
 	var getHyphenationPattern = function(word) {
 		requireValidHandle();
-		if (!isValidInput(word)) {
+		var cPattern = isValidInput(word) ? c_hyphenateCstr(handle, word) : 0;
+		if (!cPattern) {
 			// return string of spaces
 			var sb = "";
 			for (var i = 0; i < word.length; i++) {
@@ -99,7 +100,6 @@ Module["init"] = function(lang, path) {
 			}
 			return sb;
 		}
-		var cPattern = c_hyphenateCstr(handle, word);
 		var pattern = UTF8ToString(cPattern);
 		c_freeCstr(cPattern);
 		return pattern;
@@ -329,6 +329,9 @@ Module["init"] = function(lang, path) {
 				return word;
 			}
 			var cHyphenated = c_insertHyphensCstr(handle, word, separator, boolToInt(allowContextChanges));
+			if (!cHyphenated) {
+				return word;
+			}
 			var hyphenated = UTF8ToString(cHyphenated);
 			c_freeCstr(cHyphenated);
 			return hyphenated;
-- 
2.43.0


From 5c0e59cfc753785dd23dfebe4e840372e9131f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:04 +0000
Subject: [PATCH 35/39] fix: do not abort when the analysis of a word has more
 letters than the word (old spellings in the Sukija dictionary)

---
 .../src/morphology/FinnishVfstAnalyzer.cpp    | 26 +++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
index 2ca69a1..5a2b0f6 100644
--- a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
@@ -32,7 +32,7 @@
 #include "character/SimpleChar.hpp"
 #include "utils/utils.hpp"
 #include "voikko_defines.h"
-#include <cassert>
+#include <algorithm>
 
 using namespace libvoikko::character;
 using namespace libvoikko::utils;
@@ -157,15 +157,12 @@ static void createDefaultStructure(size_t charsMissing, bool & defaultTitleCase,
 	}
 }
 
-static inline void decreaseCharsMissing(size_t & charsMissing, size_t charsSeen, size_t charsFromDefault) {
-	if (charsSeen - charsFromDefault <= charsMissing) {
-		charsMissing -= (charsSeen - charsFromDefault);
-	}
-	else {
-		// lexicon error: something wrong with fstOutput
-		assert(false);
-		charsMissing = 0;
-	}
+static void createDefaultStructureForSeen(size_t charsSeen, size_t charsFromDefault, size_t & charsMissing,
+                                          bool & defaultTitleCase, wchar_t * structure, size_t & structurePos, bool isAbbr) {
+	// fstOutput may have more characters than the word, for example if the word has an old spelling
+	size_t count = std::min(charsSeen - charsFromDefault, charsMissing);
+	createDefaultStructure(count, defaultTitleCase, structure, structurePos, isAbbr);
+	charsMissing -= count;
 }
 
 static wchar_t * parseStructure(const wchar_t * fstOutput, size_t wlen) {
@@ -185,8 +182,7 @@ static wchar_t * parseStructure(const wchar_t * fstOutput, size_t wlen) {
 					structure[structurePos++] = L'=';
 				}
 				if (charsSeen > charsFromDefault) {
-					createDefaultStructure(charsSeen - charsFromDefault, defaultTitleCase, structure, structurePos, isAbbr);
-					decreaseCharsMissing(charsMissing, charsSeen, charsFromDefault);
+					createDefaultStructureForSeen(charsSeen, charsFromDefault, charsMissing, defaultTitleCase, structure, structurePos, isAbbr);
 				}
 				if (i != 1 && i + 5 < outputLen && structurePos > 0 && structure[structurePos - 1] != L'=') {
 					structure[structurePos++] = L'=';
@@ -254,8 +250,7 @@ static wchar_t * parseStructure(const wchar_t * fstOutput, size_t wlen) {
 		}
 		else if (fstOutput[i] == L'-') {
 			if (charsSeen > charsFromDefault) {
-				createDefaultStructure(charsSeen - charsFromDefault, defaultTitleCase, structure, structurePos, isAbbr);
-				decreaseCharsMissing(charsMissing, charsSeen, charsFromDefault);
+				createDefaultStructureForSeen(charsSeen, charsFromDefault, charsMissing, defaultTitleCase, structure, structurePos, isAbbr);
 				structure[structurePos++] = L'-';
 				charsSeen = 0;
 				charsFromDefault = 0;
@@ -278,8 +273,7 @@ static wchar_t * parseStructure(const wchar_t * fstOutput, size_t wlen) {
 		else if (fstOutput[i] == L':') {
 			if (isAbbr) {
 				if (charsSeen > charsFromDefault) {
-					createDefaultStructure(charsSeen - charsFromDefault, defaultTitleCase, structure, structurePos, isAbbr);
-					decreaseCharsMissing(charsMissing, charsSeen, charsFromDefault);
+					createDefaultStructureForSeen(charsSeen, charsFromDefault, charsMissing, defaultTitleCase, structure, structurePos, isAbbr);
 					charsSeen = 0;
 					charsFromDefault = 0;
 				}
-- 
2.43.0


From 78647ea1268ba77236ee56c7e97f569e1bce017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:04 +0000
Subject: [PATCH 36/39] fix: give the singular forms of the inflection class
 poika in the inflection tables (they were plural forms)

---
 data/subst.aff | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/data/subst.aff b/data/subst.aff
index 175ff75..b012c63 100644
--- a/data/subst.aff
+++ b/data/subst.aff
@@ -601,16 +601,16 @@ rules:
 nominatiivi	0	0	s
 genetiivi		ika	jan	s	ps=f
 partitiivi	0	a	s
-translatiivi	ika	jiksi	s	ps=f
-translatiivi	ika	jikse	s	ps=r
+translatiivi	ika	jaksi	s	ps=f
+translatiivi	ika	jakse	s	ps=r
 essiivi		0	na	s
-inessiivi		ika	jissa	s
-elatiivi		ika	jista	s
+inessiivi		ika	jassa	s
+elatiivi		ika	jasta	s
 illatiivi		([aeiou])	(1)(1)n	s
-adessiivi		ika	jilla	s
-ablatiivi		ika	jilta	s
-allatiivi		ika	jille	s
-abessiivi		ika	jitta	s	ps=f
+adessiivi		ika	jalla	s
+ablatiivi		ika	jalta	s
+allatiivi		ika	jalle	s
+abessiivi		ika	jatta	s	ps=f
 nominatiivi_mon	ika	jat	s	ps=f
 genetiivi_mon	a	ien	s
 genetiivi_mon	0	in	s	ps=f,prio=2
-- 
2.43.0


From 2816d099e317d86ef8c49be6dcfe9c5152cd0b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:03 +0000
Subject: [PATCH 37/39] fix: include the words marked with not_voikko in the
 dictionary when extra-usage lists sukija, as README says

---
 voikko-fi/vvfst/generate_lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/voikko-fi/vvfst/generate_lex.py b/voikko-fi/vvfst/generate_lex.py
index 79d9436..1e5f05c 100644
--- a/voikko-fi/vvfst/generate_lex.py
+++ b/voikko-fi/vvfst/generate_lex.py
@@ -296,7 +296,7 @@ def handle_word(word):
 	global CLASSMAP
 	# Drop words that are not needed in the Voikko lexicon
 	# but only if not generating Sukija lexicon.
-	if generate_lex_common.has_flag(word, "not_voikko") and not OPTIONS["sukija"]: return
+	if generate_lex_common.has_flag(word, "not_voikko") and not OPTIONS["sukija"] and "sukija" not in OPTIONS["extra-usage"]: return
 	if not check_style(word): return
 	if not check_usage(word): return
 	if frequency(word) >= OPTIONS["frequency"] + 1: return
-- 
2.43.0


From 77c52fc51384a47bb555caea16ee13aa8f53c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:12 +0000
Subject: [PATCH 38/39] fix: check also the last paragraph in voikko-gc-pretty
 --empty-line when no empty line follows it

---
 tools/bin/voikko-gc-pretty | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/bin/voikko-gc-pretty b/tools/bin/voikko-gc-pretty
index b3739da..fb615b5 100755
--- a/tools/bin/voikko-gc-pretty
+++ b/tools/bin/voikko-gc-pretty
@@ -67,4 +67,5 @@ else:
 		if len(paragraph) > 0:
 			paragraph = paragraph + " "
 		paragraph = paragraph + line
-
+	if len(paragraph) > 0:
+		handleParagraph(paragraph)
-- 
2.43.0


From 84c61e14c80e8905a7df8892dd557677e4c2ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:26 +0000
Subject: [PATCH 39/39] fix: find a phrase of the autocorrect data also when a
 shorter phrase of the data begins it

---
 .../VfstAutocorrectCheck.cpp                  | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp b/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
index b3163a5..4910651 100644
--- a/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
+++ b/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
@@ -31,6 +31,7 @@
 #include "utils/StringUtils.hpp"
 #include "character/SimpleChar.hpp"
 #include <list>
+#include <string>
 #include <vector>
 
 using namespace std;
@@ -127,26 +128,29 @@ bool VfstAutocorrectCheck::check(VoikkoHandle * options, const Sentence * senten
 		size_t ucsPosition = *(ucsPositions++);
 		transducer->prepare(configuration, inputBuffer + position, sentenceLengthUtf - position);
 		size_t prefixLength = 0;
-		if (transducer->nextPrefix(configuration, outputBuffer, BUFFER_SIZE, &prefixLength)) {
-			// position of the end of the match in the original sentence, 0 if not at token boundary
-			size_t ucsEnd = 0;
+		// end of the longest match that ends at token boundary in the original sentence, 0 if there is no such match
+		size_t ucsEnd = 0;
+		wstring correction;
+		while (transducer->nextPrefix(configuration, outputBuffer, BUFFER_SIZE, &prefixLength)) {
 			for (size_t n = 1; n < ucsNormalizedPositions.size(); n++) {
 				if (position + prefixLength == ucsNormalizedPositions[n]) {
-					ucsEnd = ucsOriginalPositions[n];
+					if (ucsOriginalPositions[n] > ucsEnd) {
+						ucsEnd = ucsOriginalPositions[n];
+						correction = outputBuffer;
+					}
 					break;
 				}
 			}
-			if (ucsEnd == 0) {
-				continue; // end is not at word boundary
-			}
+		}
+		if (ucsEnd > 0) {
 			CacheEntry * e = new CacheEntry(1);
 			e->error.setErrorCode(GCERR_INVALID_SPELLING);
 			e->error.setStartPos(sentence->pos + ucsPosition);
 			e->error.setErrorLen(ucsEnd - ucsPosition);
 			if (lowerFirst) {
-				outputBuffer[0] = character::SimpleChar::upper(outputBuffer[0]);
+				correction[0] = character::SimpleChar::upper(correction[0]);
 			}
-			e->error.getSuggestions()[0] = utils::StringUtils::utf8FromUcs4(outputBuffer);
+			e->error.getSuggestions()[0] = utils::StringUtils::utf8FromUcs4(correction.c_str());
 			options->grammarChecker->cache.appendError(e);
 		}
 		else {
-- 
2.43.0

