From 1674f907e6195dd4db8fd7d389e1f63737474212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:01 +0000
Subject: [PATCH 01/69] fix: merge a delta into its own language's entry, not
 only into the first one

ohcount_loc_delta_list_add_loc_delta() compared every item of the list with
the language of the list's head, so a language that was not the first one got
a new entry each time and its first entry was never updated.
---
 src/loc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loc.c b/src/loc.c
index bd43934..af2e7d8 100644
--- a/src/loc.c
+++ b/src/loc.c
@@ -258,7 +258,7 @@ void ohcount_loc_delta_list_add_loc_delta(LocDeltaList *list, LocDelta *delta) {
   } else {
     LocDeltaList *iter = list->head;
     while (iter) {
-      if (list->delta && strcmp(list->delta->language, delta->language) == 0) break;
+      if (iter->delta && strcmp(iter->delta->language, delta->language) == 0) break;
       iter = iter->next;
     }
     if (iter == NULL) { // new language
-- 
2.43.0


From 4953ed7f659904230e6678db0aca6cfd7de9ffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:21 +0000
Subject: [PATCH 02/69] fix: compare lines by their text when diffing, not by a
 16 bit hash

Different lines with the same hash (for example 'eaa' and 'dae') were taken
for equal, so that changes went unreported; the line following the last one
could be read as part of its class when a hash was 0; and the copy of the
buffer was one byte too short for its terminator.
---
 src/diff.c | 78 ++++++++++++++++++++++++++----------------------------
 1 file changed, 38 insertions(+), 40 deletions(-)

diff --git a/src/diff.c b/src/diff.c
index bbb96ab..5c28503 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -264,10 +264,12 @@ struct cand {
 
 struct line {
   int serial;
-  int value;
+  int value; // equal for lines with the same text
+  const char *text;
 };
 
 int len[2];
+static char *text[2]; // copies of the files, split into lines
 struct line *file[2];
 struct line *sfile[2];  // shortened by pruning common prefix and suffix
 int slen[2];
@@ -279,59 +281,59 @@ struct cand *clist; // merely a free storage pot for candidates
 int clen;
 int *J; // will be overlaid on class
 
-#define HALFLONG 16
-#define low(x)  (x&((1L<<HALFLONG)-1))
-#define high(x) (x>>HALFLONG)
-
 /**
- * Returns a computed hash for a given string.
- * Hashing has the effect of arranging line in 7-bit bytes and then summing 1-s
- * complement in 16-bit hunks.
- * @param line The line of a buffer to hash.
+ * Orders lines by their text.
  */
-static int hash(char *line) {
-  long sum;
-  unsigned shift;
-  char *p;
-  int len;
-
-  sum = 1;
-  shift = 0;
-  len = strlen(line);
-  p = line;
-  while (len--) {
-    sum += (long)*p++ << (shift &= (HALFLONG-1));
-    shift += 7;
-  }
-  sum = low(sum) + high(sum);
-  return ((short)low(sum) + (short)high(sum));
+static int compare_text(const void *a, const void *b) {
+  return strcmp((*(struct line **)a)->text, (*(struct line **)b)->text);
 }
 
 /**
- * Hashes each line in the given string buffer and stores it internally.
+ * Splits the given string buffer into lines and stores them internally.
  * @param i 0 for diff 'from', 1 for diff 'to'.
  * @param buf The string buffer to prepare from.
  */
 void prepare(int i, const char *buf) {
   struct line *p;
   int j;
-  char bufcpy[strlen(buf)];
   char *l;
 
   p = malloc(3*sizeof(struct line));
   j = 0;
-  strncpy(bufcpy, buf, strlen(buf));
-  bufcpy[strlen(buf)] = 0;
-  l = strtok(bufcpy, "\n");
+  text[i] = strdup(buf);
+  l = strtok(text[i], "\n");
   while (l) {
     p = realloc(p, (++j+3)*sizeof(struct line));
-    p[j].value = hash(l);
+    p[j].text = l;
     l = strtok(NULL, "\n");
   }
   len[i] = j;
   file[i] = p;
 }
 
+/**
+ * Gives lines with the same text the same value, and lines with different text
+ * different values.
+ */
+static void classify(void) {
+  struct line **lines;
+  int i, j, n, value;
+
+  lines = malloc((len[0]+len[1]+1)*sizeof(struct line *));
+  n = 0;
+  for(i=0;i<2;i++)
+    for(j=1;j<=len[i];j++)
+      lines[n++] = &file[i][j];
+  qsort(lines, n, sizeof(struct line *), compare_text);
+  value = 0;
+  for(i=0;i<n;i++) {
+    if(i == 0 || strcmp(lines[i-1]->text, lines[i]->text) != 0)
+      value++;
+    lines[i]->value = value;
+  }
+  free(lines);
+}
+
 /**
  * Adds to the count of lines added and removed for this diff.
  * Diff 'from' chunks are counted as lines removed and diff 'to' chunks are
@@ -375,9 +377,9 @@ void change(int a, int b, int c, int d, int *added, int *removed) {
  * to line i file0. J[i] = 0 if there is no
  * such line in file1.
  *
- * Lines are hashed so as to work in core. All potential
+ * Lines are numbered by their text. All potential
  * matches are located by sorting the lines of each file
- * on the hash (called value). In particular, this
+ * on the number (called value). In particular, this
  * collects the equivalence classes in file1 together.
  * Subroutine equiv replaces the value of each line in
  * file0 by the index of the first element of its
@@ -411,13 +413,6 @@ void change(int a, int b, int c, int d, int *added, int *removed) {
  * At the end, the longest subsequence is pulled out
  * and placed in the array J by unravel.
  *
- * With J in hand, the matches there recorded are
- * check'ed against reality to assure that no spurious
- * matches have crept in due to hashing. If they have,
- * they are broken, and "jackpot " is recorded--a harmless
- * matter except that a true match for a spuriously
- * mated line may now be unnecessarily reported as a change.
- *
  * Much of the complexity of the program comes simply
  * from trying to minimize core utilization and
  * maximize the range of doable problems by dynamically
@@ -678,6 +673,7 @@ void ohcount_calc_diff(const char *from,
 
   prepare(0, from);
   prepare(1, to);
+  classify();
   clen = 0;
   prune();
   sort(sfile[0], slen[0]);
@@ -705,4 +701,6 @@ void ohcount_calc_diff(const char *from,
   *added = *removed = 0;
   output(added, removed);
   free(J);
+  free(text[0]);
+  free(text[1]);
 }
-- 
2.43.0


From 7d83a8d43f6f979b8d872aa90a68b8975c50c5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:03 +0000
Subject: [PATCH 03/69] fix: make the diff of large texts agree with that of
 small ones and survive failures

A large text whose last line has no newline differed from the same text with
one, a line longer than 9999 characters was counted again when a later piece of
it began with '<' or '>', and diff's heuristics could report more changes than
there are. When the temporary files or the diff program were not available the
program crashed, exited (leaving a temporary file) or reported no changes; it
now compares in memory.
---
 src/diff.c | 80 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 54 insertions(+), 26 deletions(-)

diff --git a/src/diff.c b/src/diff.c
index 5c28503..13f1922 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -5,6 +5,10 @@
 #ifdef _WIN32
 # include <fcntl.h>
 # define mkstemp(p) _open(_mktemp(p), _O_CREAT | _O_SHORT_LIVED | _O_EXCL)
+# define WIFEXITED(status) ((status) >= 0)
+# define WEXITSTATUS(status) (status)
+#else
+# include <sys/wait.h>
 #endif
 
 /*
@@ -614,18 +618,30 @@ static void output(int *added, int *removed) {
     change(1, 0, 1, len[1], added, removed);
 }
 
-// create and return the path of a tmp_file filled with buf
-// caller must delete file if that's desired
+// create and return the path of a tmp_file filled with buf, its last line
+// always terminated; returns NULL if that fails
+// caller must free the path and delete the file
 char *tmp_file_from_buf(const char *buf) {
 	char *template = "/tmp/ohcount_diff_XXXXXXX";
 	char *path = strdup(template);
+	size_t size = strlen(buf);
 
 	int fd = mkstemp(path);
-  if (write(fd, buf, strlen(buf)) != strlen(buf)) {
-    fprintf(stderr, "src/diff.c: Could not write temporary file %s.\n", path);
-    exit(1);
-  }
-	close(fd);
+	if (fd < 0) {
+		free(path);
+		return NULL;
+	}
+	int ok = write(fd, buf, size) == size;
+	if (ok && size > 0 && buf[size - 1] != '\n')
+		ok = write(fd, "\n", 1) == 1;
+	if (close(fd) != 0)
+		ok = 0;
+	if (!ok) {
+		fprintf(stderr, "src/diff.c: Could not write temporary file %s.\n", path);
+		unlink(path);
+		free(path);
+		return NULL;
+	}
 	return path;
 }
 
@@ -633,34 +649,45 @@ char *tmp_file_from_buf(const char *buf) {
 extern int errno;
 #endif
 
-void ohcount_calc_diff_with_disk(
+// returns 1 if the comparison could be made, 0 otherwise
+int ohcount_calc_diff_with_disk(
 		const char *from,
 		const char *to,
 		int *added,
 		int *removed) {
+	int ok = 0;
 	*added = *removed = 0;
 	char *from_tmp = tmp_file_from_buf(from);
-	char *to_tmp = tmp_file_from_buf(to);
-
-	char command[1000];
-	sprintf(command, "diff --normal --suppress-common-lines --new-file '%s' '%s'", from_tmp, to_tmp);
-	FILE *f = popen(command, "r");
-	if (f) {
-		char line[10000];
-		while(fgets(line, sizeof(line), f)) {
-			if (line[0] == '>')
-			 	(*added)++;
-			if (line[0] == '<')
-				(*removed)++;
+	char *to_tmp = from_tmp ? tmp_file_from_buf(to) : NULL;
+
+	if (from_tmp && to_tmp) {
+		char command[1000];
+		sprintf(command, "diff --normal --minimal --suppress-common-lines --new-file '%s' '%s'", from_tmp, to_tmp);
+		FILE *f = popen(command, "r");
+		if (f) {
+			char line[10000];
+			int line_start = 1; // long lines are read in pieces
+			while(fgets(line, sizeof(line), f)) {
+				if (line_start && line[0] == '>')
+					(*added)++;
+				if (line_start && line[0] == '<')
+					(*removed)++;
+				line_start = line[strlen(line) - 1] == '\n';
+			}
+			int failed = ferror(f);
+			int status = pclose(f);
+			ok = !failed && WIFEXITED(status) && WEXITSTATUS(status) <= 1;
 		}
 	}
-	pclose(f);
-	if (unlink(from_tmp)) {
+	if (from_tmp && unlink(from_tmp)) {
 		printf("error unlinking %s: %d", from_tmp, errno);
 	}
-	if (unlink(to_tmp)) {
-		printf("error unlinking %s: %d", from_tmp, errno);
+	if (to_tmp && unlink(to_tmp)) {
+		printf("error unlinking %s: %d", to_tmp, errno);
 	}
+	free(from_tmp);
+	free(to_tmp);
+	return ok;
 }
 
 #define USE_DISK_IF_LARGER 100000
@@ -668,8 +695,9 @@ void ohcount_calc_diff(const char *from,
 	 	const char *to, int *added, int *removed) {
   int k;
 
-	if (strlen(from) > USE_DISK_IF_LARGER || strlen(to) > USE_DISK_IF_LARGER)
-		return ohcount_calc_diff_with_disk(from, to, added, removed);
+	if ((strlen(from) > USE_DISK_IF_LARGER || strlen(to) > USE_DISK_IF_LARGER) &&
+			ohcount_calc_diff_with_disk(from, to, added, removed))
+		return;
 
   prepare(0, from);
   prepare(1, to);
-- 
2.43.0


From d0d62c4b6a09d7c207144172380babeea18eb99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:45 +0000
Subject: [PATCH 04/69] fix: keep counting after a vertical tab

No pattern of any line scanner matched a vertical tab outside comments and
strings, so the scanner stopped there and the rest of the file was not counted.
A vertical tab is white space now, like a tab.
---
 src/parsers/common.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/common.rl b/src/parsers/common.rl
index 23a8398..51d1466 100644
--- a/src/parsers/common.rl
+++ b/src/parsers/common.rl
@@ -4,8 +4,8 @@ machine common;
 # common definitions
 
 # whitespace, non-printables
-ws = [\t ];
-spaces = [\t ]+;
+ws = [\t\v ];
+spaces = [\t\v ]+;
 newline = ('\r\n' | '\n' | '\f' | '\r' when { p+1 < pe && *(p+1) != '\n' });
 escaped_newline = '\\' newline;
 nonnewline = any - [\r\n\f];
-- 
2.43.0


From 2ebf21da0357fb43bfe4dcaf07c1897dbc1bd39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:07 +0000
Subject: [PATCH 05/69] fix: report each line exactly once when a comment or
 string is not closed

---
 src/parser.c | 48 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 358113e..7fbcdb8 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -9,6 +9,49 @@
 
 struct ParserMap * ohcount_hash_parser_from_language (register const char *str, register size_t len);
 
+/** The destination of a parser's line reports, and how far it has got. */
+typedef struct {
+  const char *buffer;
+  int reported; // the position up to which lines have been reported
+  void (*callback) (const char *, const char *, int, int, void *);
+  void *userdata;
+} LineReports;
+
+/**
+ * Callback function that passes on a parser's report of a line exactly once.
+ * At the end of the buffer, an unterminated comment or string is scanned, and
+ * reported, again as something else, and a string that is not meant to contain
+ * newlines but does is reported in one piece.
+ */
+static void report_lines(const char *language, const char *entity, int start,
+                         int end, void *userdata) {
+  LineReports *reports = (LineReports *)userdata;
+  const char *buffer = reports->buffer;
+  int whole = start >= reports->reported;
+  if (!whole)
+    start = reports->reported;
+  while (start < end) {
+    int blank = 1, p = start;
+    while (p < end && buffer[p] != '\n' && buffer[p] != '\r' &&
+           buffer[p] != '\f') {
+      if (buffer[p] != ' ' && buffer[p] != '\t' && buffer[p] != '\v')
+        blank = 0;
+      p++;
+    }
+    if (p < end && buffer[p] == '\r' && p + 1 < end && buffer[p + 1] == '\n')
+      p++;
+    if (p < end)
+      p++;
+    if (p == end && whole) // a single line
+      reports->callback(language, entity, start, end, reports->userdata);
+    else
+      reports->callback(language, blank ? "lblank" : entity, start, p,
+                        reports->userdata);
+    whole = 0;
+    reports->reported = start = p;
+  }
+}
+
 int ohcount_parse(SourceFile *sourcefile, int count,
                   void (*callback) (const char *, const char *, int, int,
                                     void *),
@@ -20,7 +63,10 @@ int ohcount_parse(SourceFile *sourcefile, int count,
     if (rp) {
       char *buffer = ohcount_sourcefile_get_contents(sourcefile);
       int buffer_len = ohcount_sourcefile_get_contents_size(sourcefile);
-      if (callback)
+      if (callback && count) {
+        LineReports reports = { buffer, 0, callback, userdata };
+        rp->parser(buffer, buffer_len, count, report_lines, &reports);
+      } else if (callback)
         rp->parser(buffer, buffer_len, count, callback, userdata);
       return 1;
     }
-- 
2.43.0


From 9bf8f569c076f78a4eeba621fa3973f30172c521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:07 +0000
Subject: [PATCH 06/69] fix: do not lose a Haml line with only a Ruby evaluator

---
 src/parsers/haml.rl | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/parsers/haml.rl b/src/parsers/haml.rl
index d65ce2c..913e431 100644
--- a/src/parsers/haml.rl
+++ b/src/parsers/haml.rl
@@ -126,12 +126,15 @@ enum {
     haml_xhtml_tag{,1}
     haml_ruby_evaluator ws @code;
 
-  haml_ruby_outry =
-    newline %{ entity = INTERNAL_NL;} %haml_ccallback
-    any @{fhold;};
+  action haml_saw_ruby {
+    char *rest = p;
+    if (!is_blank_entry(&rest, pe)) saw(RUBY_LANG)
+  }
+
+  haml_ruby_outry = newline;
 
   haml_ruby_line := |*
-    haml_ruby_outry @{ p = ts; fret; };
+    haml_ruby_outry @{ p = ts - 1; fret; };
     spaces        ${ entity = RUBY_SPACE; } => ruby_ccallback;
     ruby_comment;
     ruby_string;
@@ -140,7 +143,7 @@ enum {
   *|;
 
   haml_line := |*
-    haml_ruby_entry @{entity = CHECK_BLANK_ENTRY; } @{saw(RUBY_LANG)} => {fcall haml_ruby_line; };
+    haml_ruby_entry @haml_saw_ruby => {fcall haml_ruby_line; };
     spaces          ${ entity = HAML_SPACE; } => haml_ccallback;
     haml_comment;
     haml_string;
@@ -211,7 +214,7 @@ void parse_haml(char *buffer, int length, int count,
   %% write exec;
 
   // if no newline at EOF; callback contents of last line
-  if (count) { process_last_line(HAML_LANG) }
+  if (count) { process_last_line(seen ? seen : HAML_LANG) }
 }
 
 #endif
-- 
2.43.0


From 703d1f8084d68ed01c2bb59e8929d8ae893af685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:07 +0000
Subject: [PATCH 07/69] fix: count a Perl = and the closing quote of a
 Smalltalk comment

---
 src/parsers/perl.rl      | 2 +-
 src/parsers/smalltalk.rl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/perl.rl b/src/parsers/perl.rl
index b3bebc4..d9c3759 100644
--- a/src/parsers/perl.rl
+++ b/src/parsers/perl.rl
@@ -99,7 +99,7 @@ enum {
     perl_comment;
     perl_string;
     newline        ${ entity = NEWLINE;    } => perl_ccallback;
-    '=' when !starts_line;
+    '=' when !starts_line ${ entity = PERL_ANY; } => perl_ccallback;
     ^(space | '=') ${ entity = PERL_ANY;   } => perl_ccallback;
   *|;
 
diff --git a/src/parsers/smalltalk.rl b/src/parsers/smalltalk.rl
index bffb167..fd59f35 100644
--- a/src/parsers/smalltalk.rl
+++ b/src/parsers/smalltalk.rl
@@ -51,7 +51,7 @@ enum {
       ws
       |
       [^\r\n\f\t "] @comment
-    )* '"';
+    )* '"' @comment;
 
   smalltalk_string = '\'' @code [^\r\n\f']* '\'';
 
-- 
2.43.0


From 9c24bc133e9875e6e16e026fba05483564ea6f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:07 +0000
Subject: [PATCH 08/69] fix: end an indented Nix string at its first closing
 quotes

---
 src/parsers/nix.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/nix.rl b/src/parsers/nix.rl
index a95c071..dad6d0b 100644
--- a/src/parsers/nix.rl
+++ b/src/parsers/nix.rl
@@ -77,7 +77,7 @@ enum {
   nix_dsq_shell_entry = "''" @code;
   nix_dsq_shell_outry = "''" @check_blank_outry @code;
   nix_dsq_shell_line := |*
-    nix_dsq_shell_outry @{ p = ts; fret; };
+    nix_dsq_shell_outry @{ inqueue = 0; p = ts; fret; }; # not an empty string
     # TODO: Add embeded Nix between '${' and '}'
     # unmodified SHELL patterns
     spaces         ${ entity = SHELL_SPACE; } => shell_ccallback;
-- 
2.43.0


From e2ec88bf5764f9490c717430f19387d7845dd05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:07 +0000
Subject: [PATCH 09/69] fix: go on after a dash in an HTML comment and a ? in
 embedded PHP

---
 src/parsers/clearsilverhtml.rl | 67 ++++++++++++++------------------
 src/parsers/cs_aspx.rl         | 71 ++++++++++++++--------------------
 src/parsers/html.rl            |  2 +-
 src/parsers/jsp.rl             | 67 ++++++++++++++------------------
 src/parsers/phphtml.rl         | 71 ++++++++++++++--------------------
 src/parsers/rhtml.rl           | 67 ++++++++++++++------------------
 src/parsers/vb_aspx.rl         | 71 ++++++++++++++--------------------
 7 files changed, 175 insertions(+), 241 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 2ff8dee..911e68e 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -56,44 +56,33 @@ enum {
     }
   }
 
-  cshtml_comment := (
-    newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
-    |
-    ws
-    |
-    ^(space | [\-<]) @comment
-    |
-    '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
-    |
-    '<' !'?cs'
-  )* :>> '-->' @comment @{ fgoto cshtml_line; };
-
-  cshtml_sq_str := (
-    newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
-    |
-    ws
-    |
-    [^\r\n\f\t '\\<] @code
-    |
-    '\\' nonnewline @code
-    |
-    '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
-    |
-    '<' !'?cs'
-  )* '\'' @{ fgoto cshtml_line; };
-  cshtml_dq_str := (
-    newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
-    |
-    ws
-    |
-    [^\r\n\f\t "\\<] @code
-    |
-    '\\' nonnewline @code
-    |
-    '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
-    |
-    '<' !'?cs'
-  )* '"' @{ fgoto cshtml_line; };
+  cshtml_comment := |*
+    '-->' @comment => { fgoto cshtml_line; };
+    '<?cs' @comment @{ entity = CHECK_BLANK_ENTRY; } @cshtml_ccallback
+      @{ saw(CS_LANG); } => { fcall cshtml_cs_line; };
+    spaces  ${ entity = CSHTML_SPACE; } => cshtml_ccallback;
+    newline ${ entity = NEWLINE; } => cshtml_ccallback;
+    ^space  @comment;
+  *|;
+
+  cshtml_sq_str := |*
+    '\'' @code => { fgoto cshtml_line; };
+    '<?cs' @code @{ entity = CHECK_BLANK_ENTRY; } @cshtml_ccallback
+      @{ saw(CS_LANG); } => { fcall cshtml_cs_line; };
+    spaces  ${ entity = CSHTML_SPACE; } => cshtml_ccallback;
+    '\\' nonnewline @code;
+    newline ${ entity = NEWLINE; } => cshtml_ccallback;
+    ^space  ${ entity = CSHTML_ANY; } => cshtml_ccallback;
+  *|;
+  cshtml_dq_str := |*
+    '"' @code => { fgoto cshtml_line; };
+    '<?cs' @code @{ entity = CHECK_BLANK_ENTRY; } @cshtml_ccallback
+      @{ saw(CS_LANG); } => { fcall cshtml_cs_line; };
+    spaces  ${ entity = CSHTML_SPACE; } => cshtml_ccallback;
+    '\\' nonnewline @code;
+    newline ${ entity = NEWLINE; } => cshtml_ccallback;
+    ^space  ${ entity = CSHTML_ANY; } => cshtml_ccallback;
+  *|;
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cshtml_ccallback);
 
@@ -231,7 +220,7 @@ void parse_cshtml(char *buffer, int length, int count,
   %% write exec;
 
   // if no newline at EOF; callback contents of last line
-  if (count) { process_last_line(CSHTML_LANG) }
+  if (count) { process_last_line(seen ? seen : CSHTML_LANG) }
 }
 
 #endif
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 911b730..6fe3375 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -54,44 +54,33 @@ enum {
     }
   }
 
-  cs_aspx_comment := (
-    newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
-    |
-    ws
-    |
-    ^(space | [\-<]) @comment
-    |
-    '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
-    |
-    '<' !'%'
-  )* :>> '-->' @comment @{ fgoto cs_aspx_line; };
-
-  cs_aspx_sq_str := (
-    newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
-    |
-    ws
-    |
-    [^\r\n\f\t '\\<] @code
-    |
-    '\\' nonnewline @code
-    |
-    '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
-    |
-    '<' !'%'
-  )* '\'' @{ fgoto cs_aspx_line; };
-  cs_aspx_dq_str := (
-    newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
-    |
-    ws
-    |
-    [^\r\n\f\t "\\<] @code
-    |
-    '\\' nonnewline @code
-    |
-    '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
-    |
-    '<' !'%'
-  )* '"' @{ fgoto cs_aspx_line; };
+  cs_aspx_comment := |*
+    '-->' @comment => { fgoto cs_aspx_line; };
+    '<%' @comment @{ entity = CHECK_BLANK_ENTRY; } @cs_aspx_ccallback
+      @{ saw(C_LANG); } => { fcall cs_aspx_cs_line; };
+    spaces  ${ entity = CS_ASPX_SPACE; } => cs_aspx_ccallback;
+    newline ${ entity = NEWLINE; } => cs_aspx_ccallback;
+    ^space  @comment;
+  *|;
+
+  cs_aspx_sq_str := |*
+    '\'' @code => { fgoto cs_aspx_line; };
+    '<%' @code @{ entity = CHECK_BLANK_ENTRY; } @cs_aspx_ccallback
+      @{ saw(C_LANG); } => { fcall cs_aspx_cs_line; };
+    spaces  ${ entity = CS_ASPX_SPACE; } => cs_aspx_ccallback;
+    '\\' nonnewline @code;
+    newline ${ entity = NEWLINE; } => cs_aspx_ccallback;
+    ^space  ${ entity = CS_ASPX_ANY; } => cs_aspx_ccallback;
+  *|;
+  cs_aspx_dq_str := |*
+    '"' @code => { fgoto cs_aspx_line; };
+    '<%' @code @{ entity = CHECK_BLANK_ENTRY; } @cs_aspx_ccallback
+      @{ saw(C_LANG); } => { fcall cs_aspx_cs_line; };
+    spaces  ${ entity = CS_ASPX_SPACE; } => cs_aspx_ccallback;
+    '\\' nonnewline @code;
+    newline ${ entity = NEWLINE; } => cs_aspx_ccallback;
+    ^space  ${ entity = CS_ASPX_ANY; } => cs_aspx_ccallback;
+  *|;
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cs_aspx_ccallback);
 
@@ -120,7 +109,7 @@ enum {
   *|;
 
   cs_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  cs_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  cs_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>') @check_blank_outry @code;
   cs_aspx_cs_line := |*
     cs_aspx_cs_outry @{ p = ts; fret; };
     # unmodified C patterns
@@ -177,7 +166,7 @@ enum {
   *|;
 
   cs_aspx_cs_entry_entity = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  cs_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  cs_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_inl* '>') @check_blank_outry @code;
   cs_aspx_cs_entity := |*
     cs_aspx_cs_outry_entity @{ fret; };
     # unmodified C patterns
@@ -230,7 +219,7 @@ void parse_cs_aspx(char *buffer, int length, int count,
   %% write exec;
 
   // if no newline at EOF; callback contents of last line
-  if (count) { process_last_line(CS_ASPX_LANG) }
+  if (count) { process_last_line(seen ? seen : CS_ASPX_LANG) }
 
 	C_LANG = LANG_C;
 }
diff --git a/src/parsers/html.rl b/src/parsers/html.rl
index 13a155a..f4ff387 100644
--- a/src/parsers/html.rl
+++ b/src/parsers/html.rl
@@ -173,7 +173,7 @@ void parse_html(char *buffer, int length, int count,
   %% write exec;
 
   // if no newline at EOF; callback contents of last line
-  if (count) { process_last_line(HTML_LANG) }
+  if (count) { process_last_line(seen ? seen : HTML_LANG) }
 }
 
 #endif
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index f197d40..7ec8eaf 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -56,44 +56,33 @@ enum {
     }
   }
 
-  jsp_comment := (
-    newline %{ entity = INTERNAL_NL; } %jsp_ccallback
-    |
-    ws
-    |
-    ^(space | [\-<]) @comment
-    |
-    '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
-    |
-    '<' !'%'
-  )* :>> '-->' @comment @{ fgoto jsp_line; };
-
-  jsp_sq_str := (
-    newline %{ entity = INTERNAL_NL; } %jsp_ccallback
-    |
-    ws
-    |
-    [^\r\n\f\t '\\<] @code
-    |
-    '\\' nonnewline @code
-    |
-    '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
-    |
-    '<' !'%'
-  )* '\'' @{ fgoto jsp_line; };
-  jsp_dq_str := (
-    newline %{ entity = INTERNAL_NL; } %jsp_ccallback
-    |
-    ws
-    |
-    [^\r\n\f\t "\\<] @code
-    |
-    '\\' nonnewline @code
-    |
-    '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
-    |
-    '<' !'%'
-  )* '"' @{ fgoto jsp_line; };
+  jsp_comment := |*
+    '-->' @comment => { fgoto jsp_line; };
+    '<%' @comment @{ entity = CHECK_BLANK_ENTRY; } @jsp_ccallback
+      @{ saw(JAVA_LANG); } => { fcall jsp_java_line; };
+    spaces  ${ entity = JSP_SPACE; } => jsp_ccallback;
+    newline ${ entity = NEWLINE; } => jsp_ccallback;
+    ^space  @comment;
+  *|;
+
+  jsp_sq_str := |*
+    '\'' @code => { fgoto jsp_line; };
+    '<%' @code @{ entity = CHECK_BLANK_ENTRY; } @jsp_ccallback
+      @{ saw(JAVA_LANG); } => { fcall jsp_java_line; };
+    spaces  ${ entity = JSP_SPACE; } => jsp_ccallback;
+    '\\' nonnewline @code;
+    newline ${ entity = NEWLINE; } => jsp_ccallback;
+    ^space  ${ entity = JSP_ANY; } => jsp_ccallback;
+  *|;
+  jsp_dq_str := |*
+    '"' @code => { fgoto jsp_line; };
+    '<%' @code @{ entity = CHECK_BLANK_ENTRY; } @jsp_ccallback
+      @{ saw(JAVA_LANG); } => { fcall jsp_java_line; };
+    spaces  ${ entity = JSP_SPACE; } => jsp_ccallback;
+    '\\' nonnewline @code;
+    newline ${ entity = NEWLINE; } => jsp_ccallback;
+    ^space  ${ entity = JSP_ANY; } => jsp_ccallback;
+  *|;
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %jsp_ccallback);
 
@@ -230,7 +219,7 @@ void parse_jsp(char *buffer, int length, int count,
   %% write exec;
 
   // if no newline at EOF; callback contents of last line
-  if (count) { process_last_line(JSP_LANG) }
+  if (count) { process_last_line(seen ? seen : JSP_LANG) }
 }
 
 #endif
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 9dfe21e..5a7d8c9 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -56,44 +56,33 @@ enum {
     }
   }
 
-  phtml_comment := (
-    newline %{ entity = INTERNAL_NL; } %phtml_ccallback
-    |
-    ws
-    |
-    ^(space | [\-<]) @comment
-    |
-    '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
-    |
-    '<' !'?php'
-  )* :>> '-->' @comment @{ fgoto phtml_line; };
-
-  phtml_sq_str := (
-    newline %{ entity = INTERNAL_NL; } %phtml_ccallback
-    |
-    ws
-    |
-    [^\r\n\f\t '\\<] @code
-    |
-    '\\' nonnewline @code
-    |
-    '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
-    |
-    '<' !'?php'
-  )* '\'' @{ fgoto phtml_line; };
-  phtml_dq_str := (
-    newline %{ entity = INTERNAL_NL; } %phtml_ccallback
-    |
-    ws
-    |
-    [^\r\n\f\t "\\<] @code
-    |
-    '\\' nonnewline @code
-    |
-    '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
-    |
-    '<' !'?php'
-  )* '"' @{ fgoto phtml_line; };
+  phtml_comment := |*
+    '-->' @comment => { fgoto phtml_line; };
+    '<?php' @comment @{ entity = CHECK_BLANK_ENTRY; } @php_ccallback
+      @{ saw(PHP_LANG); } => { fcall phtml_php_line; };
+    spaces  ${ entity = PHTML_SPACE; } => phtml_ccallback;
+    newline ${ entity = NEWLINE; } => phtml_ccallback;
+    ^space  @comment;
+  *|;
+
+  phtml_sq_str := |*
+    '\'' @code => { fgoto phtml_line; };
+    '<?php' @code @{ entity = CHECK_BLANK_ENTRY; } @php_ccallback
+      @{ saw(PHP_LANG); } => { fcall phtml_php_line; };
+    spaces  ${ entity = PHTML_SPACE; } => phtml_ccallback;
+    '\\' nonnewline @code;
+    newline ${ entity = NEWLINE; } => phtml_ccallback;
+    ^space  ${ entity = PHTML_ANY; } => phtml_ccallback;
+  *|;
+  phtml_dq_str := |*
+    '"' @code => { fgoto phtml_line; };
+    '<?php' @code @{ entity = CHECK_BLANK_ENTRY; } @php_ccallback
+      @{ saw(PHP_LANG); } => { fcall phtml_php_line; };
+    spaces  ${ entity = PHTML_SPACE; } => phtml_ccallback;
+    '\\' nonnewline @code;
+    newline ${ entity = NEWLINE; } => phtml_ccallback;
+    ^space  ${ entity = PHTML_ANY; } => phtml_ccallback;
+  *|;
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %phtml_ccallback);
 
@@ -122,9 +111,9 @@ enum {
   *|;
 
   phtml_php_entry = ('<?' 'php'?) @code;
-  phtml_php_outry = '?>' @check_blank_outry @code;
+  phtml_php_outry = '?>';
   phtml_php_line := |*
-    phtml_php_outry ${ p = ts; fret; };
+    phtml_php_outry @{ p = ts; fret; };
     # unmodified PHP patterns
     spaces       ${ entity = PHP_SPACE; } => php_ccallback;
     php_comment;
@@ -230,7 +219,7 @@ void parse_phtml(char *buffer, int length, int count,
   %% write exec;
 
   // if no newline at EOF; callback contents of last line
-  if (count) { process_last_line(PHTML_LANG) }
+  if (count) { process_last_line(seen ? seen : PHTML_LANG) }
 }
 
 #endif
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 16b4b50..b1cdcf7 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -56,44 +56,33 @@ enum {
     }
   }
 
-  rhtml_comment := (
-    newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
-    |
-    ws
-    |
-    ^(space | [\-<]) @comment
-    |
-    '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
-    |
-    '<' !'%'
-  )* :>> '-->' @comment @{ fgoto rhtml_line; };
-
-  rhtml_sq_str := (
-    newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
-    |
-    ws
-    |
-    [^\r\n\f\t '\\<] @code
-    |
-    '\\' nonnewline @code
-    |
-    '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
-    |
-    '<' !'%'
-  )* '\'' @{ fgoto rhtml_line; };
-  rhtml_dq_str := (
-    newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
-    |
-    ws
-    |
-    [^\r\n\f\t "\\<] @code
-    |
-    '\\' nonnewline @code
-    |
-    '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
-    |
-    '<' !'%'
-  )* '"' @{ fgoto rhtml_line; };
+  rhtml_comment := |*
+    '-->' @comment => { fgoto rhtml_line; };
+    '<%' @comment @{ entity = CHECK_BLANK_ENTRY; } @rhtml_ccallback
+      @{ saw(RUBY_LANG); } => { fcall rhtml_ruby_line; };
+    spaces  ${ entity = RHTML_SPACE; } => rhtml_ccallback;
+    newline ${ entity = NEWLINE; } => rhtml_ccallback;
+    ^space  @comment;
+  *|;
+
+  rhtml_sq_str := |*
+    '\'' @code => { fgoto rhtml_line; };
+    '<%' @code @{ entity = CHECK_BLANK_ENTRY; } @rhtml_ccallback
+      @{ saw(RUBY_LANG); } => { fcall rhtml_ruby_line; };
+    spaces  ${ entity = RHTML_SPACE; } => rhtml_ccallback;
+    '\\' nonnewline @code;
+    newline ${ entity = NEWLINE; } => rhtml_ccallback;
+    ^space  ${ entity = RHTML_ANY; } => rhtml_ccallback;
+  *|;
+  rhtml_dq_str := |*
+    '"' @code => { fgoto rhtml_line; };
+    '<%' @code @{ entity = CHECK_BLANK_ENTRY; } @rhtml_ccallback
+      @{ saw(RUBY_LANG); } => { fcall rhtml_ruby_line; };
+    spaces  ${ entity = RHTML_SPACE; } => rhtml_ccallback;
+    '\\' nonnewline @code;
+    newline ${ entity = NEWLINE; } => rhtml_ccallback;
+    ^space  ${ entity = RHTML_ANY; } => rhtml_ccallback;
+  *|;
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %rhtml_ccallback);
 
@@ -230,7 +219,7 @@ void parse_rhtml(char *buffer, int length, int count,
   %% write exec;
 
   // if no newline at EOF; callback contents of last line
-  if (count) { process_last_line(RHTML_LANG) }
+  if (count) { process_last_line(seen ? seen : RHTML_LANG) }
 }
 
 #endif
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 37dd9a0..eeed854 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -54,44 +54,33 @@ enum {
     }
   }
 
-  vb_aspx_comment := (
-    newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
-    |
-    ws
-    |
-    ^(space | [\-<]) @comment
-    |
-    '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
-    |
-    '<' !'%'
-  )* :>> '-->' @comment @{ fgoto vb_aspx_line; };
-
-  vb_aspx_sq_str := (
-    newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
-    |
-    ws
-    |
-    [^\r\n\f\t '\\<] @code
-    |
-    '\\' nonnewline @code
-    |
-    '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
-    |
-    '<' !'%'
-  )* '\'' @{ fgoto vb_aspx_line; };
-  vb_aspx_dq_str := (
-    newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
-    |
-    ws
-    |
-    [^\r\n\f\t "\\<] @code
-    |
-    '\\' nonnewline @code
-    |
-    '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
-    |
-    '<' !'%'
-  )* '"' @{ fgoto vb_aspx_line; };
+  vb_aspx_comment := |*
+    '-->' @comment => { fgoto vb_aspx_line; };
+    '<%' @comment @{ entity = CHECK_BLANK_ENTRY; } @vb_aspx_ccallback
+      @{ saw(VB_LANG); } => { fcall vb_aspx_cs_line; };
+    spaces  ${ entity = VB_ASPX_SPACE; } => vb_aspx_ccallback;
+    newline ${ entity = NEWLINE; } => vb_aspx_ccallback;
+    ^space  @comment;
+  *|;
+
+  vb_aspx_sq_str := |*
+    '\'' @code => { fgoto vb_aspx_line; };
+    '<%' @code @{ entity = CHECK_BLANK_ENTRY; } @vb_aspx_ccallback
+      @{ saw(VB_LANG); } => { fcall vb_aspx_cs_line; };
+    spaces  ${ entity = VB_ASPX_SPACE; } => vb_aspx_ccallback;
+    '\\' nonnewline @code;
+    newline ${ entity = NEWLINE; } => vb_aspx_ccallback;
+    ^space  ${ entity = VB_ASPX_ANY; } => vb_aspx_ccallback;
+  *|;
+  vb_aspx_dq_str := |*
+    '"' @code => { fgoto vb_aspx_line; };
+    '<%' @code @{ entity = CHECK_BLANK_ENTRY; } @vb_aspx_ccallback
+      @{ saw(VB_LANG); } => { fcall vb_aspx_cs_line; };
+    spaces  ${ entity = VB_ASPX_SPACE; } => vb_aspx_ccallback;
+    '\\' nonnewline @code;
+    newline ${ entity = NEWLINE; } => vb_aspx_ccallback;
+    ^space  ${ entity = VB_ASPX_ANY; } => vb_aspx_ccallback;
+  *|;
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %vb_aspx_ccallback);
 
@@ -120,7 +109,7 @@ enum {
   *|;
 
   vb_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  vb_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  vb_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>') @check_blank_outry @code;
   vb_aspx_cs_line := |*
     vb_aspx_cs_outry @{ p = ts; fret; };
     # unmodified VB patterns
@@ -177,7 +166,7 @@ enum {
   *|;
 
   vb_aspx_cs_entry_entity = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  vb_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  vb_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_inl* '>') @check_blank_outry @code;
   vb_aspx_cs_entity := |*
     vb_aspx_cs_outry_entity @{ fret; };
     # unmodified C patterns
@@ -229,7 +218,7 @@ void parse_vb_aspx(char *buffer, int length, int count,
   %% write exec;
 
   // if no newline at EOF; callback contents of last line
-  if (count) { process_last_line(VB_ASPX_LANG) }
+  if (count) { process_last_line(seen ? seen : VB_ASPX_LANG) }
 }
 
 #endif
-- 
2.43.0


From c38abfa2eb024ecb20ef94bbfdb51723c0df99fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:07 +0000
Subject: [PATCH 10/69] fix: do not lose the start of an unterminated string or
 an embedded section at the end

---
 src/parser_macros.h         | 18 ++++++++++++------
 src/parsers/coffeescript.rl |  5 ++++-
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index 4ff2988..0efbdc0 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -167,6 +167,9 @@ void free_queue() {
  * @note Applies only to line counting parsers.
  */
 #define std_internal_newline(lang) { \
+  if (p == ts) { /* not a newline: the start of an unterminated entity */ \
+    code \
+  } else { \
   if (callback && p > line_start) { \
     if (line_contains_code) { \
       if (inqueue) \
@@ -188,6 +191,7 @@ void free_queue() {
   whole_line_comment = 0; \
   line_contains_code = 0; \
   line_start = p; \
+  } \
 }
 
 /**
@@ -203,7 +207,7 @@ void free_queue() {
     std_internal_newline(seen) \
   else \
     std_internal_newline(lang) \
-  seen = 0; \
+  if (p != ts) seen = 0; \
 }
 
 /**
@@ -263,17 +267,19 @@ void free_queue() {
  * Determines whether or not the rest of the line is blank.
  * This is typically used when entering an embedded language.
  * @param p The position of entry into the emebedded language.
+ * @param pe The end of the buffer.
  * @return 0 if the rest of the line is not blank, the position at the end of
  *   the newline otherwise (inclusive).
  * @note Applies only to line counting parsers.
  */
-int is_blank_entry(char **p) {
+int is_blank_entry(char **p, char *pe) {
   char *pos = *p+1;
-  while (*pos != '\n' && *pos != '\r' && *pos != '\f') {
-    if (*pos != '\t' && *pos != ' ') return 0;
+  while (pos < pe && *pos != '\n' && *pos != '\r' && *pos != '\f') {
+    if (*pos != '\t' && *pos != '\v' && *pos != ' ') return 0;
     pos++;
   }
-  if (*pos == '\r' && *(pos+1) == '\n') pos++;
+  if (pos == pe) pos--; // the last line, without a newline
+  else if (*pos == '\r' && pos + 1 < pe && *(pos+1) == '\n') pos++;
   *p = pos;
   return 1;
 }
@@ -289,7 +295,7 @@ int is_blank_entry(char **p) {
  * @note Applies only to line counting parsers.
  */
 #define check_blank_entry(lang) { \
-  if (is_blank_entry(&p)) { \
+  if (is_blank_entry(&p, pe)) { \
     te = p + 1; \
     std_newline(lang) \
   } \
diff --git a/src/parsers/coffeescript.rl b/src/parsers/coffeescript.rl
index b08a653..463f0fe 100644
--- a/src/parsers/coffeescript.rl
+++ b/src/parsers/coffeescript.rl
@@ -42,6 +42,9 @@ enum {
       break;
     case NEWLINE:
       std_newline(COFFEESCRIPT_LANG)
+      break;
+    case CHECK_BLANK_ENTRY:
+      check_blank_entry(COFFEESCRIPT_LANG)
     }
   }
 
@@ -108,7 +111,7 @@ enum {
   *|;
 
   coffeescript_line := |*
-		coffeescript_js_entry @coffeescript_ccallback
+		coffeescript_js_entry @{ entity = CHECK_BLANK_ENTRY; } @coffeescript_ccallback
 			@{ saw(JS_LANG); } => { fcall coffeescript_js_line; };
     spaces          ${ entity = COFFEESCRIPT_SPACE; } => coffeescript_ccallback;
     coffeescript_comment;
-- 
2.43.0


From 934f9092b46a642d3d76e229413de2ce980be39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:07 +0000
Subject: [PATCH 11/69] fix: count the line with a string's closing quote or an
 escaped newline by its text

---
 src/parsers/actionscript.rl |  2 +-
 src/parsers/autoconf.rl     |  2 +-
 src/parsers/bfpp.rl         |  2 +-
 src/parsers/c.rl            | 10 +++++-----
 src/parsers/chaiscript.rl   |  8 ++++----
 src/parsers/coq.rl          |  2 +-
 src/parsers/css.rl          |  4 ++--
 src/parsers/d.rl            | 14 +++++++-------
 src/parsers/dart.rl         |  2 +-
 src/parsers/elm.rl          |  4 ++--
 src/parsers/factor.rl       |  2 +-
 src/parsers/fortranfree.rl  |  4 ++--
 src/parsers/fsharp.rl       | 10 +++++-----
 src/parsers/glsl.rl         | 10 +++++-----
 src/parsers/golang.rl       | 10 +++++-----
 src/parsers/grace.rl        |  2 +-
 src/parsers/groovy.rl       | 10 +++++-----
 src/parsers/haskell.rl      |  4 ++--
 src/parsers/haxe.rl         |  2 +-
 src/parsers/jam.rl          |  4 ++--
 src/parsers/javascript.rl   |  8 ++++----
 src/parsers/kotlin.rl       |  2 +-
 src/parsers/lisp.rl         |  2 +-
 src/parsers/lua.rl          |  4 ++--
 src/parsers/modula3.rl      |  8 ++++----
 src/parsers/mxml.rl         |  4 ++--
 src/parsers/objective_c.rl  |  2 +-
 src/parsers/objective_j.rl  |  2 +-
 src/parsers/pascal.rl       |  2 +-
 src/parsers/powershell.rl   |  8 ++++----
 src/parsers/puppet.rl       |  2 +-
 src/parsers/rust.rl         |  6 +++---
 src/parsers/shell.rl        |  8 ++++----
 src/parsers/stratego.rl     |  6 +++---
 src/parsers/swift.rl        |  2 +-
 src/parsers/tcl.rl          |  6 +++---
 src/parsers/unrealscript.rl |  8 ++++----
 src/parsers/xaml.rl         |  2 +-
 src/parsers/xml.rl          |  2 +-
 src/parsers/xmlschema.rl    |  2 +-
 src/parsers/xslt.rl         |  2 +-
 41 files changed, 98 insertions(+), 98 deletions(-)

diff --git a/src/parsers/actionscript.rl b/src/parsers/actionscript.rl
index 340b3a1..11c29ce 100644
--- a/src/parsers/actionscript.rl
+++ b/src/parsers/actionscript.rl
@@ -63,7 +63,7 @@ enum {
     ws
     |
     (nonnewline - ws) @code
-  )* :>> ']]>';
+  )* :>> ']]>' @code;
   as_string = as_sq_str | as_dq_str | as_ml_str;
 
   as_line := |*
diff --git a/src/parsers/autoconf.rl b/src/parsers/autoconf.rl
index 98721d1..065807a 100644
--- a/src/parsers/autoconf.rl
+++ b/src/parsers/autoconf.rl
@@ -61,7 +61,7 @@ enum {
       ']' @ac_str_nc_dec @code
       |
       (nonnewline - ws - [\[\]]) @code
-    )* :>> (']' when { nest_count == 0 });
+    )* :>> (']' when { nest_count == 0 }) @code;
 
   ac_line := |*
     spaces      ${ entity = AC_SPACE; } => ac_ccallback;
diff --git a/src/parsers/bfpp.rl b/src/parsers/bfpp.rl
index fcb029e..141db71 100644
--- a/src/parsers/bfpp.rl
+++ b/src/parsers/bfpp.rl
@@ -58,7 +58,7 @@ enum {
       ws
       |
       (nonnewline - ws) @code
-    )* :>> ')';
+    )* :>> ')' @code;
 
   bfpp_line := |*
     spaces             ${ entity = BFPP_SPACE;    } => bfpp_ccallback;
diff --git a/src/parsers/c.rl b/src/parsers/c.rl
index 0ba4008..d678132 100755
--- a/src/parsers/c.rl
+++ b/src/parsers/c.rl
@@ -48,7 +48,7 @@ enum {
 
   c_line_comment =
     '//' @comment (
-      escaped_newline %{ entity = INTERNAL_NL; } %c_ccallback
+      escaped_newline >comment %{ entity = INTERNAL_NL; } %c_ccallback
       |
       ws
       |
@@ -66,24 +66,24 @@ enum {
 
   c_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %c_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %c_ccallback
       |
       ws
       |
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   c_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %c_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %c_ccallback
       |
       ws
       |
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   c_string = c_sq_str | c_dq_str;
 
   c_line := |*
diff --git a/src/parsers/chaiscript.rl b/src/parsers/chaiscript.rl
index 5491e36..75fccb1 100644
--- a/src/parsers/chaiscript.rl
+++ b/src/parsers/chaiscript.rl
@@ -62,24 +62,24 @@ enum {
   # I can't find a definitive answer.
   chai_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %chai_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %chai_ccallback
       |
       ws
       |
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   chai_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %chai_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %chai_ccallback
       |
       ws
       |
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   chai_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   chai_string = chai_sq_str | chai_dq_str | chai_regex_str;
 
diff --git a/src/parsers/coq.rl b/src/parsers/coq.rl
index eaa3330..f1e141e 100644
--- a/src/parsers/coq.rl
+++ b/src/parsers/coq.rl
@@ -68,7 +68,7 @@ enum {
       ws
       |
       [^"] @code
-    )* '"';
+    )* '"' @code;
 
   coq_line := |*
     spaces          ${ entity = COQ_SPACE; } => coq_ccallback;
diff --git a/src/parsers/css.rl b/src/parsers/css.rl
index 12cd5e8..14736d9 100644
--- a/src/parsers/css.rl
+++ b/src/parsers/css.rl
@@ -64,7 +64,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   css_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %css_ccallback
@@ -74,7 +74,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   css_string = css_sq_str | css_dq_str;
 
   css_line := |*
diff --git a/src/parsers/d.rl b/src/parsers/d.rl
index 9ca52b8..e08e247 100644
--- a/src/parsers/d.rl
+++ b/src/parsers/d.rl
@@ -50,7 +50,7 @@ enum {
 
   d_line_comment =
     '//' @comment (
-      escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
+      escaped_newline >comment %{ entity = INTERNAL_NL; } %d_ccallback
       |
       ws
       |
@@ -80,34 +80,34 @@ enum {
 
   d_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %d_ccallback
       |
       ws
       |
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   d_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %d_ccallback
       |
       ws
       |
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   d_bt_str =
     '`' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %d_ccallback
       |
       ws
       |
       [^\t `\\] @code
       |
       '\\' nonnewline @code
-    )* '`';
+    )* '`' @code;
   d_string = d_sq_str | d_dq_str | d_bt_str;
 
   d_line := |*
diff --git a/src/parsers/dart.rl b/src/parsers/dart.rl
index 9669564..ba2398b 100755
--- a/src/parsers/dart.rl
+++ b/src/parsers/dart.rl
@@ -44,7 +44,7 @@ enum {
 
   dart_line_comment =
     '//' @comment (
-      escaped_newline %{ entity = INTERNAL_NL; } %dart_ccallback
+      escaped_newline >comment %{ entity = INTERNAL_NL; } %dart_ccallback
       |
       ws
       |
diff --git a/src/parsers/elm.rl b/src/parsers/elm.rl
index 1d71ab2..a196152 100644
--- a/src/parsers/elm.rl
+++ b/src/parsers/elm.rl
@@ -67,14 +67,14 @@ enum {
   elm_char = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline) '\'';
   elm_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %elm_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %elm_ccallback
       |
       ws
       |
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   elm_string = elm_char | elm_dq_str;
 
   elm_line := |*
diff --git a/src/parsers/factor.rl b/src/parsers/factor.rl
index c16aee9..06a11da 100644
--- a/src/parsers/factor.rl
+++ b/src/parsers/factor.rl
@@ -56,7 +56,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   factor_line := |*
     spaces        ${ entity = FACTOR_SPACE; } => factor_ccallback;
diff --git a/src/parsers/fortranfree.rl b/src/parsers/fortranfree.rl
index 0f1def1..f805a31 100644
--- a/src/parsers/fortranfree.rl
+++ b/src/parsers/fortranfree.rl
@@ -53,7 +53,7 @@ enum {
       ws
       |
       [^\r\n\f\t '] @code
-    )* '\'';
+    )* '\'' @code;
   ffree_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %ffree_ccallback
@@ -61,7 +61,7 @@ enum {
       ws
       |
       [^\r\n\f\t "] @code
-    )* '"';
+    )* '"' @code;
   ffree_string = ffree_sq_str | ffree_dq_str;
 
   ffree_line := |*
diff --git a/src/parsers/fsharp.rl b/src/parsers/fsharp.rl
index 64c85b1..27070a2 100644
--- a/src/parsers/fsharp.rl
+++ b/src/parsers/fsharp.rl
@@ -49,7 +49,7 @@ enum {
 
   fsharp_line_comment =
     '//' @comment (
-      escaped_newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
+      escaped_newline >comment %{ entity = INTERNAL_NL; } %fsharp_ccallback
       |
       ws
       |
@@ -67,24 +67,24 @@ enum {
 
   fsharp_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %fsharp_ccallback
       |
       ws
       |
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   fsharp_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %fsharp_ccallback
       |
       ws
       |
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   fsharp_string = fsharp_sq_str | fsharp_dq_str;
 
   fsharp_line := |*
diff --git a/src/parsers/glsl.rl b/src/parsers/glsl.rl
index 167364c..5b77c5a 100644
--- a/src/parsers/glsl.rl
+++ b/src/parsers/glsl.rl
@@ -50,7 +50,7 @@ enum {
 
   glsl_line_comment =
     '//' @comment (
-      escaped_newline %{ entity = INTERNAL_NL; } %glsl_ccallback
+      escaped_newline >comment %{ entity = INTERNAL_NL; } %glsl_ccallback
       |
       ws
       |
@@ -68,24 +68,24 @@ enum {
 
   glsl_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %glsl_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %glsl_ccallback
       |
       ws
       |
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   glsl_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %glsl_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %glsl_ccallback
       |
       ws
       |
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   glsl_string = glsl_sq_str | glsl_dq_str;
 
   glsl_line := |*
diff --git a/src/parsers/golang.rl b/src/parsers/golang.rl
index f845ca0..ccc6501 100644
--- a/src/parsers/golang.rl
+++ b/src/parsers/golang.rl
@@ -48,7 +48,7 @@ enum {
 
   golang_line_comment =
     '//' @comment (
-      escaped_newline %{ entity = INTERNAL_NL; } %golang_ccallback
+      escaped_newline >comment %{ entity = INTERNAL_NL; } %golang_ccallback
       |
       ws
       |
@@ -66,24 +66,24 @@ enum {
 
   golang_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %golang_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %golang_ccallback
       |
       ws
       |
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   golang_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %golang_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %golang_ccallback
       |
       ws
       |
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   golang_string = golang_sq_str | golang_dq_str;
 
   golang_line := |*
diff --git a/src/parsers/grace.rl b/src/parsers/grace.rl
index daf60dd..073e2d1 100644
--- a/src/parsers/grace.rl
+++ b/src/parsers/grace.rl
@@ -54,7 +54,7 @@ enum {
       ws
       |
       [^\r\n\f\t "\\] @code
-    )* '"' @commit;
+    )* '"' @code @commit;
 
   grace_line := |*
     spaces         ${ entity = GRACE_SPACE; } => grace_ccallback;
diff --git a/src/parsers/groovy.rl b/src/parsers/groovy.rl
index e1a6da4..8999cc0 100644
--- a/src/parsers/groovy.rl
+++ b/src/parsers/groovy.rl
@@ -46,7 +46,7 @@ enum {
 
   groovy_line_comment =
     '//' @comment (
-      escaped_newline %{ entity = INTERNAL_NL; } %groovy_ccallback
+      escaped_newline >comment %{ entity = INTERNAL_NL; } %groovy_ccallback
       |
       ws
       |
@@ -64,24 +64,24 @@ enum {
 
   groovy_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %groovy_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %groovy_ccallback
       |
       ws
       |
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   groovy_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %groovy_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %groovy_ccallback
       |
       ws
       |
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   groovy_string = groovy_sq_str | groovy_dq_str;
 
   groovy_line := |*
diff --git a/src/parsers/haskell.rl b/src/parsers/haskell.rl
index 1bb062d..2ae67e1 100644
--- a/src/parsers/haskell.rl
+++ b/src/parsers/haskell.rl
@@ -67,14 +67,14 @@ enum {
   haskell_char = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline) '\'';
   haskell_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %haskell_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %haskell_ccallback
       |
       ws
       |
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   haskell_string = haskell_char | haskell_dq_str;
 
   haskell_line := |*
diff --git a/src/parsers/haxe.rl b/src/parsers/haxe.rl
index bc8ebce..1c118b5 100644
--- a/src/parsers/haxe.rl
+++ b/src/parsers/haxe.rl
@@ -46,7 +46,7 @@ enum {
 
   hx_line_comment =
     '//' @comment (
-      escaped_newline %{ entity = INTERNAL_NL; } %hx_ccallback
+      escaped_newline >comment %{ entity = INTERNAL_NL; } %hx_ccallback
       |
       ws
       |
diff --git a/src/parsers/jam.rl b/src/parsers/jam.rl
index 3b4ccc7..3f7f518 100644
--- a/src/parsers/jam.rl
+++ b/src/parsers/jam.rl
@@ -55,7 +55,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'' @commit;
+    )* '\'' @code @commit;
   jam_dq_str =
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %jam_ccallback
@@ -65,7 +65,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"' @commit;
+    )* '"' @code @commit;
   # TODO: heredocs; see ruby.rl for details
   jam_string = jam_sq_str | jam_dq_str;
 
diff --git a/src/parsers/javascript.rl b/src/parsers/javascript.rl
index 172989e..0ad0307 100644
--- a/src/parsers/javascript.rl
+++ b/src/parsers/javascript.rl
@@ -61,24 +61,24 @@ enum {
   # I can't find a definitive answer.
   js_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %js_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %js_ccallback
       |
       ws
       |
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   js_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %js_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %js_ccallback
       |
       ws
       |
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   js_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   js_string = js_sq_str | js_dq_str | js_regex_str;
 
diff --git a/src/parsers/kotlin.rl b/src/parsers/kotlin.rl
index 38ef112..cdb974e 100644
--- a/src/parsers/kotlin.rl
+++ b/src/parsers/kotlin.rl
@@ -76,7 +76,7 @@ enum {
       ws
       |
       [^\t ] @code
-    )* '"""';
+    )* '"""' @code;
   kotlin_string = kotlin_dq_str | kotlin_raw_str;
 
   kotlin_line := |*
diff --git a/src/parsers/lisp.rl b/src/parsers/lisp.rl
index 0698964..08bf62e 100644
--- a/src/parsers/lisp.rl
+++ b/src/parsers/lisp.rl
@@ -71,7 +71,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   lisp_string = lisp_empty_string | lisp_char_string | lisp_regular_string;
 
diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index 4092ecf..067413f 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -78,7 +78,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   lua_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %lua_ccallback
@@ -88,7 +88,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   lua_string = lua_sq_str | lua_dq_str | lua_long_string;
 
   lua_line := |*
diff --git a/src/parsers/modula3.rl b/src/parsers/modula3.rl
index 2166f0f..b5d5760 100644
--- a/src/parsers/modula3.rl
+++ b/src/parsers/modula3.rl
@@ -71,24 +71,24 @@ enum {
 
   modula3_singlequoted_string =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %modula3_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %modula3_ccallback
       |
       ws
       |
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   modula3_doublequoted_string =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %modula3_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %modula3_ccallback
       |
       ws
       |
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   modula3_string = modula3_singlequoted_string | modula3_doublequoted_string;
 
 
diff --git a/src/parsers/mxml.rl b/src/parsers/mxml.rl
index 7afe23b..f3604c0 100644
--- a/src/parsers/mxml.rl
+++ b/src/parsers/mxml.rl
@@ -72,7 +72,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   mxml_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %mxml_ccallback
@@ -82,7 +82,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   mxml_string = mxml_sq_str | mxml_dq_str;
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %mxml_ccallback);
diff --git a/src/parsers/objective_c.rl b/src/parsers/objective_c.rl
index d0c8885..fe5d7cb 100644
--- a/src/parsers/objective_c.rl
+++ b/src/parsers/objective_c.rl
@@ -46,7 +46,7 @@ enum {
 
   objc_line_comment =
     '//' @comment (
-      escaped_newline %{ entity = INTERNAL_NL; } %objc_ccallback
+      escaped_newline >comment %{ entity = INTERNAL_NL; } %objc_ccallback
       |
       ws
       |
diff --git a/src/parsers/objective_j.rl b/src/parsers/objective_j.rl
index d1f8be8..ad909c9 100644
--- a/src/parsers/objective_j.rl
+++ b/src/parsers/objective_j.rl
@@ -47,7 +47,7 @@ enum {
 
   objj_line_comment =
     '//' @comment (
-      escaped_newline %{ entity = INTERNAL_NL; } %objj_ccallback
+      escaped_newline >comment %{ entity = INTERNAL_NL; } %objj_ccallback
       |
       ws
       |
diff --git a/src/parsers/pascal.rl b/src/parsers/pascal.rl
index 4dfdf17..3f4a0e9 100644
--- a/src/parsers/pascal.rl
+++ b/src/parsers/pascal.rl
@@ -73,7 +73,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
 
   pascal_line := |*
     spaces          ${ entity = PASCAL_SPACE; } => pascal_ccallback;
diff --git a/src/parsers/powershell.rl b/src/parsers/powershell.rl
index 6b3947a..3021471 100644
--- a/src/parsers/powershell.rl
+++ b/src/parsers/powershell.rl
@@ -57,26 +57,26 @@ enum {
     '\'' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %powershell_ccallback
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %powershell_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %powershell_ccallback
       |
       ws
       |
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'' @commit;
+    )* '\'' @code @commit;
   powershell_dq_str =
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %powershell_ccallback
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %powershell_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %powershell_ccallback
       |
       ws
       |
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"' @commit;
+    )* '"' @code @commit;
   # TODO: heredoc; see ruby.rl for details.
   powershell_string = powershell_sq_str | powershell_dq_str;
 
diff --git a/src/parsers/puppet.rl b/src/parsers/puppet.rl
index d862f7f..0abb695 100644
--- a/src/parsers/puppet.rl
+++ b/src/parsers/puppet.rl
@@ -65,7 +65,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
 
   puppet_line := |*
     spaces          ${ entity = PUPPET_SPACE; } => puppet_ccallback;
diff --git a/src/parsers/rust.rl b/src/parsers/rust.rl
index e3b17c3..dda9657 100644
--- a/src/parsers/rust.rl
+++ b/src/parsers/rust.rl
@@ -49,7 +49,7 @@ enum {
 
   rust_line_comment =
     '//' @comment (
-      escaped_newline %{ entity = INTERNAL_NL; } %rust_ccallback
+      escaped_newline >comment %{ entity = INTERNAL_NL; } %rust_ccallback
       |
       ws
       |
@@ -67,14 +67,14 @@ enum {
 
   rust_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %rust_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %rust_ccallback
       |
       ws
       |
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   rust_string = rust_dq_str;
 
   rust_line := |*
diff --git a/src/parsers/shell.rl b/src/parsers/shell.rl
index 567afa1..fb9b0be 100644
--- a/src/parsers/shell.rl
+++ b/src/parsers/shell.rl
@@ -50,26 +50,26 @@ enum {
     '\'' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %shell_ccallback
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %shell_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %shell_ccallback
       |
       ws
       |
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'' @commit;
+    )* '\'' @code @commit;
   shell_dq_str =
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %shell_ccallback
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %shell_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %shell_ccallback
       |
       ws
       |
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"' @commit;
+    )* '"' @code @commit;
   # TODO: heredocs; see ruby.rl for details
   shell_string = shell_sq_str | shell_dq_str;
 
diff --git a/src/parsers/stratego.rl b/src/parsers/stratego.rl
index 56d76c6..de6fabd 100644
--- a/src/parsers/stratego.rl
+++ b/src/parsers/stratego.rl
@@ -44,7 +44,7 @@ enum {
 
   stratego_line_comment =
     '//' @comment (
-      escaped_newline %{ entity = INTERNAL_NL; } %stratego_ccallback
+      escaped_newline >comment %{ entity = INTERNAL_NL; } %stratego_ccallback
       |
       ws
       |
@@ -64,14 +64,14 @@ enum {
 
   stratego_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %stratego_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %stratego_ccallback
       |
       ws
       |
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   stratego_char_str =
     '\'' (
diff --git a/src/parsers/swift.rl b/src/parsers/swift.rl
index ffef527..426c997 100644
--- a/src/parsers/swift.rl
+++ b/src/parsers/swift.rl
@@ -44,7 +44,7 @@ enum {
 
   swift_line_comment =
     '//' @comment (
-      escaped_newline %{ entity = INTERNAL_NL; } %swift_ccallback
+      escaped_newline >comment %{ entity = INTERNAL_NL; } %swift_ccallback
       |
       ws
       |
diff --git a/src/parsers/tcl.rl b/src/parsers/tcl.rl
index cef3df1..2a47746 100644
--- a/src/parsers/tcl.rl
+++ b/src/parsers/tcl.rl
@@ -46,7 +46,7 @@ enum {
 
   tcl_comment =
     '#' @comment (
-      escaped_newline %{ entity = INTERNAL_NL; } %tcl_ccallback
+      escaped_newline >comment %{ entity = INTERNAL_NL; } %tcl_ccallback
       |
       ws
       |
@@ -55,14 +55,14 @@ enum {
 
   tcl_string =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %tcl_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %tcl_ccallback
       |
       ws
       |
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   tcl_line := |*
     spaces       ${ entity = TCL_SPACE; } => tcl_ccallback;
diff --git a/src/parsers/unrealscript.rl b/src/parsers/unrealscript.rl
index 7e6d8e4..810cefa 100644
--- a/src/parsers/unrealscript.rl
+++ b/src/parsers/unrealscript.rl
@@ -57,24 +57,24 @@ enum {
 
   unrealscript_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %unrealscript_ccallback
       |
       ws
       |
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   unrealscript_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
+      escaped_newline >code %{ entity = INTERNAL_NL; } %unrealscript_ccallback
       |
       ws
       |
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   unrealscript_string = unrealscript_sq_str | unrealscript_dq_str;
 
   unrealscript_line := |*
diff --git a/src/parsers/xaml.rl b/src/parsers/xaml.rl
index 21bd757..69d7795 100644
--- a/src/parsers/xaml.rl
+++ b/src/parsers/xaml.rl
@@ -65,7 +65,7 @@ enum {
       ws
       |
       (nonnewline - ws) @code
-    )* :>> ']]>';
+    )* :>> ']]>' @code;
   xaml_string = xaml_sq_str | xaml_dq_str | xaml_cdata_str;
 
   xaml_line := |*
diff --git a/src/parsers/xml.rl b/src/parsers/xml.rl
index 552a1d8..2495451 100644
--- a/src/parsers/xml.rl
+++ b/src/parsers/xml.rl
@@ -67,7 +67,7 @@ enum {
       ws
       |
       (nonnewline - ws) @code
-    )* :>> ']]>';
+    )* :>> ']]>' @code;
   xml_string = xml_sq_str | xml_dq_str | xml_cdata_str;
 
   xml_line := |*
diff --git a/src/parsers/xmlschema.rl b/src/parsers/xmlschema.rl
index 8e4af6c..39a948d 100644
--- a/src/parsers/xmlschema.rl
+++ b/src/parsers/xmlschema.rl
@@ -67,7 +67,7 @@ enum {
       ws
       |
       (nonnewline - ws) @code
-    )* :>> ']]>';
+    )* :>> ']]>' @code;
   xmlschema_string = xmlschema_sq_str | xmlschema_dq_str | xmlschema_cdata_str;
 
   xmlschema_line := |*
diff --git a/src/parsers/xslt.rl b/src/parsers/xslt.rl
index 9ad6be2..de66370 100644
--- a/src/parsers/xslt.rl
+++ b/src/parsers/xslt.rl
@@ -67,7 +67,7 @@ enum {
       ws
       |
       (nonnewline - ws) @code
-    )* :>> ']]>';
+    )* :>> ']]>' @code;
   xslt_string = xslt_sq_str | xslt_dq_str | xslt_cdata_str;
 
   xslt_line := |*
-- 
2.43.0


From 1a111d5cb34ed9c0e087688c06da97710897853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:37 +0000
Subject: [PATCH 12/69] fix: count a lone carriage return at the end of a file,
 and a single % comment in Erlang

---
 src/parsers/common.rl | 2 +-
 src/parsers/erlang.rl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/common.rl b/src/parsers/common.rl
index 51d1466..eeebff8 100644
--- a/src/parsers/common.rl
+++ b/src/parsers/common.rl
@@ -6,7 +6,7 @@ machine common;
 # whitespace, non-printables
 ws = [\t\v ];
 spaces = [\t\v ]+;
-newline = ('\r\n' | '\n' | '\f' | '\r' when { p+1 < pe && *(p+1) != '\n' });
+newline = ('\r\n' | '\n' | '\f' | '\r' when { p+1 == pe || *(p+1) != '\n' });
 escaped_newline = '\\' newline;
 nonnewline = any - [\r\n\f];
 nonprintable_char = cntrl - [\r\n\f];
diff --git a/src/parsers/erlang.rl b/src/parsers/erlang.rl
index e1294b6..eceaeaa 100644
--- a/src/parsers/erlang.rl
+++ b/src/parsers/erlang.rl
@@ -44,7 +44,7 @@ enum {
     }
   }
 
-  erlang_comment = '%%' @comment nonnewline*;
+  erlang_comment = '%' @comment nonnewline*;
 
   erlang_sq_str = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline)* '\'';
   erlang_dq_str = '"' @code ([^\r\n\f"\\] | '\\' nonnewline)* '"';
-- 
2.43.0


From d34bd3de61aa1f98f3ba1c856491353dcb784384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:23 +0000
Subject: [PATCH 13/69] fix: do not let the delimiters of nested comments
 overlap

---
 src/parsers/augeas.rl      | 11 ++++++-----
 src/parsers/boo.rl         | 11 ++++++-----
 src/parsers/coq.rl         | 11 ++++++-----
 src/parsers/d.rl           | 11 ++++++-----
 src/parsers/elm.rl         | 11 ++++++-----
 src/parsers/haskell.rl     | 11 ++++++-----
 src/parsers/kotlin.rl      |  9 +++++----
 src/parsers/mathematica.rl | 11 ++++++-----
 src/parsers/modula2.rl     | 11 ++++++-----
 src/parsers/modula3.rl     | 11 ++++++-----
 src/parsers/oberon.rl      | 11 ++++++-----
 src/parsers/ocaml.rl       | 11 ++++++-----
 src/parsers/rexx.rl        | 11 ++++++-----
 13 files changed, 77 insertions(+), 64 deletions(-)

diff --git a/src/parsers/augeas.rl b/src/parsers/augeas.rl
index bfc89d1..4e964fc 100644
--- a/src/parsers/augeas.rl
+++ b/src/parsers/augeas.rl
@@ -43,9 +43,9 @@ enum {
     }
   }
 
-  action augeas_comment_nc_res { nest_count = 0; }
-  action augeas_comment_nc_inc { nest_count++; }
-  action augeas_comment_nc_dec { nest_count--; }
+  action augeas_comment_nc_res { nest_count = 0; nest_last = p + 1; }
+  action augeas_comment_nc_inc { if (p - 1 > nest_last) { nest_count++; nest_last = p; } }
+  action augeas_comment_nc_dec { if (p - 1 > nest_last) { nest_count--; nest_last = p; } }
 
   augeas_nested_block_comment =
 		'(*' >augeas_comment_nc_res @comment (
@@ -58,7 +58,7 @@ enum {
 			'*)' @augeas_comment_nc_dec @comment
 			|
 			(nonnewline - ws) @comment
-		)* :>> ('*)' when { nest_count == 0 }) @comment;
+		)* :>> ('*)' when { nest_count == 0 && p > nest_last }) @comment;
 
   augeas_comment = augeas_nested_block_comment;
 	augeas_string = '"' @code ([^\r\n\f"\\] | '\\' nonnewline)* '"';
@@ -84,7 +84,7 @@ enum {
     '*)' @augeas_comment_nc_dec
     |
     any
-  )* :>> ('*)' when { nest_count == 0 });
+  )* :>> ('*)' when { nest_count == 0 && p > nest_last });
 
   augeas_entity := |*
     space+               ${ entity = AUGEAS_SPACE;   } => augeas_ecallback;
@@ -115,6 +115,7 @@ void parse_augeas(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  char *nest_last = NULL; // the end of the last delimiter
 
   %% write init;
   cs = (count) ? augeas_en_augeas_line : augeas_en_augeas_entity;
diff --git a/src/parsers/boo.rl b/src/parsers/boo.rl
index 961b18a..8b3646f 100644
--- a/src/parsers/boo.rl
+++ b/src/parsers/boo.rl
@@ -44,9 +44,9 @@ enum {
     }
   }
 
-  action boo_comment_nc_res { nest_count = 0; }
-  action boo_comment_nc_inc { nest_count++; }
-  action boo_comment_nc_dec { nest_count--; }
+  action boo_comment_nc_res { nest_count = 0; nest_last = p + 1; }
+  action boo_comment_nc_inc { if (p - 1 > nest_last) { nest_count++; nest_last = p; } }
+  action boo_comment_nc_dec { if (p - 1 > nest_last) { nest_count--; nest_last = p; } }
 
   boo_line_comment = ('#' | '//') @comment nonnewline*;
   boo_block_comment =
@@ -60,7 +60,7 @@ enum {
       '*/' @boo_comment_nc_dec @comment
       |
       ^space @comment
-    )* :>> ('*/' when { nest_count == 0 }) @comment;
+    )* :>> ('*/' when { nest_count == 0 && p > nest_last }) @comment;
   boo_doc_comment =
     '"""' @comment (
       newline %{ entity = INTERNAL_NL; } %boo_ccallback
@@ -99,7 +99,7 @@ enum {
     '*/' @boo_comment_nc_dec
     |
     any
-  )* :>> ('*/' when { nest_count == 0 });
+  )* :>> ('*/' when { nest_count == 0 && p > nest_last });
   boo_comment_entity = boo_line_comment_entity | boo_block_comment_entity;
 
   boo_entity := |*
@@ -131,6 +131,7 @@ void parse_boo(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  char *nest_last = NULL; // the end of the last delimiter
 
   %% write init;
   cs = (count) ? boo_en_boo_line : boo_en_boo_entity;
diff --git a/src/parsers/coq.rl b/src/parsers/coq.rl
index f1e141e..429b091 100644
--- a/src/parsers/coq.rl
+++ b/src/parsers/coq.rl
@@ -42,9 +42,9 @@ enum {
     }
   }
 
-  action coq_comment_nc_res { nest_count = 0; }
-  action coq_comment_nc_inc { nest_count++; }
-  action coq_comment_nc_dec { nest_count--; }
+  action coq_comment_nc_res { nest_count = 0; nest_last = p + 1; }
+  action coq_comment_nc_inc { if (p - 1 > nest_last) { nest_count++; nest_last = p; } }
+  action coq_comment_nc_dec { if (p - 1 > nest_last) { nest_count--; nest_last = p; } }
 
   coq_nested_block_comment =
     '(*' >coq_comment_nc_res @comment (
@@ -57,7 +57,7 @@ enum {
       '*)' @coq_comment_nc_dec @comment
       |
       (nonnewline - ws) @comment
-    )* :>> ('*)' when { nest_count == 0 }) @comment;
+    )* :>> ('*)' when { nest_count == 0 && p > nest_last }) @comment;
 
   coq_comment = coq_nested_block_comment;
 
@@ -90,7 +90,7 @@ enum {
     '*)' @coq_comment_nc_dec
     |
     any
-  )* :>> ('*)' when { nest_count == 0 });
+  )* :>> ('*)' when { nest_count == 0 && p > nest_last });
 
   coq_entity := |*
     space+             ${ entity = COQ_SPACE;   } => coq_ecallback;
@@ -121,6 +121,7 @@ void parse_coq(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  char *nest_last = NULL; // the end of the last delimiter
 
   %% write init;
   cs = (count) ? coq_en_coq_line : coq_en_coq_entity;
diff --git a/src/parsers/d.rl b/src/parsers/d.rl
index e08e247..fcf1179 100644
--- a/src/parsers/d.rl
+++ b/src/parsers/d.rl
@@ -44,9 +44,9 @@ enum {
     }
   }
 
-  action d_comment_nc_res { nest_count = 0; }
-  action d_comment_nc_inc { nest_count++; }
-  action d_comment_nc_dec { nest_count--; }
+  action d_comment_nc_res { nest_count = 0; nest_last = p + 1; }
+  action d_comment_nc_inc { if (p - 1 > nest_last) { nest_count++; nest_last = p; } }
+  action d_comment_nc_dec { if (p - 1 > nest_last) { nest_count--; nest_last = p; } }
 
   d_line_comment =
     '//' @comment (
@@ -75,7 +75,7 @@ enum {
       '+/' @d_comment_nc_dec @comment
       |
       ^space @comment
-    )* :>> ('+/' when { nest_count == 0 }) @comment;
+    )* :>> ('+/' when { nest_count == 0 && p > nest_last }) @comment;
   d_comment = d_line_comment | d_block_comment | d_nested_comment;
 
   d_sq_str =
@@ -132,7 +132,7 @@ enum {
     '+/' @d_comment_nc_dec
     |
     any
-  )* :>> ('+/' when { nest_count == 0 });
+  )* :>> ('+/' when { nest_count == 0 && p > nest_last });
   d_comment_entity = d_line_comment_entity | d_block_comment_entity |
     d_nested_comment_entity;
 
@@ -165,6 +165,7 @@ void parse_d(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  char *nest_last = NULL; // the end of the last delimiter
 
   %% write init;
   cs = (count) ? d_en_d_line : d_en_d_entity;
diff --git a/src/parsers/elm.rl b/src/parsers/elm.rl
index a196152..075668f 100644
--- a/src/parsers/elm.rl
+++ b/src/parsers/elm.rl
@@ -44,9 +44,9 @@ enum {
     }
   }
 
-  action elm_comment_nc_res { nest_count = 0; }
-  action elm_comment_nc_inc { nest_count++; }
-  action elm_comment_nc_dec { nest_count--; }
+  action elm_comment_nc_res { nest_count = 0; nest_last = p + 1; }
+  action elm_comment_nc_inc { if (p - 1 > nest_last) { nest_count++; nest_last = p; } }
+  action elm_comment_nc_dec { if (p - 1 > nest_last) { nest_count--; nest_last = p; } }
 
   # TODO: |-- is not a comment
   elm_line_comment = '--' [^>] @{ fhold; } @comment nonnewline*;
@@ -61,7 +61,7 @@ enum {
 			'-}' @elm_comment_nc_dec @comment
       |
       (nonnewline - ws) @comment
-    )* :>> ('-}' when { nest_count == 0 }) @comment;
+    )* :>> ('-}' when { nest_count == 0 && p > nest_last }) @comment;
   elm_comment = elm_line_comment | elm_nested_block_comment;
 
   elm_char = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline) '\'';
@@ -99,7 +99,7 @@ enum {
     '-}' @elm_comment_nc_dec
     |
     any
-  )* :>> ('-}' when { nest_count == 0 });
+  )* :>> ('-}' when { nest_count == 0 && p > nest_last });
   elm_comment_entity =
     elm_line_comment_entity | elm_block_comment_entity;
 
@@ -132,6 +132,7 @@ void parse_elm(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  char *nest_last = NULL; // the end of the last delimiter
 
   %% write init;
   cs = (count) ? elm_en_elm_line : elm_en_elm_entity;
diff --git a/src/parsers/haskell.rl b/src/parsers/haskell.rl
index 2ae67e1..0b01e0f 100644
--- a/src/parsers/haskell.rl
+++ b/src/parsers/haskell.rl
@@ -44,9 +44,9 @@ enum {
     }
   }
 
-  action haskell_comment_nc_res { nest_count = 0; }
-  action haskell_comment_nc_inc { nest_count++; }
-  action haskell_comment_nc_dec { nest_count--; }
+  action haskell_comment_nc_res { nest_count = 0; nest_last = p + 1; }
+  action haskell_comment_nc_inc { if (p - 1 > nest_last) { nest_count++; nest_last = p; } }
+  action haskell_comment_nc_dec { if (p - 1 > nest_last) { nest_count--; nest_last = p; } }
 
   # TODO: |-- is not a comment
   haskell_line_comment = '--' [^>] @{ fhold; } @comment nonnewline*;
@@ -61,7 +61,7 @@ enum {
 			'-}' @haskell_comment_nc_dec @comment
       |
       (nonnewline - ws) @comment
-    )* :>> ('-}' when { nest_count == 0 }) @comment;
+    )* :>> ('-}' when { nest_count == 0 && p > nest_last }) @comment;
   haskell_comment = haskell_line_comment | haskell_nested_block_comment;
 
   haskell_char = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline) '\'';
@@ -99,7 +99,7 @@ enum {
     '-}' @haskell_comment_nc_dec
     |
     any
-  )* :>> ('-}' when { nest_count == 0 });
+  )* :>> ('-}' when { nest_count == 0 && p > nest_last });
   haskell_comment_entity =
     haskell_line_comment_entity | haskell_block_comment_entity;
 
@@ -132,6 +132,7 @@ void parse_haskell(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  char *nest_last = NULL; // the end of the last delimiter
 
   %% write init;
   cs = (count) ? haskell_en_haskell_line : haskell_en_haskell_entity;
diff --git a/src/parsers/kotlin.rl b/src/parsers/kotlin.rl
index cdb974e..b89ad62 100644
--- a/src/parsers/kotlin.rl
+++ b/src/parsers/kotlin.rl
@@ -47,9 +47,9 @@ enum {
     }
   }
 
-  action kotlin_comment_nc_res { kotlin_comment_nest_count = 0; }
-  action kotlin_comment_nc_inc { kotlin_comment_nest_count++; }
-  action kotlin_comment_nc_dec { kotlin_comment_nest_count--; }
+  action kotlin_comment_nc_res { kotlin_comment_nest_count = 0; nest_last = p + 1; }
+  action kotlin_comment_nc_inc { if (p - 1 > nest_last) { kotlin_comment_nest_count++; nest_last = p; } }
+  action kotlin_comment_nc_dec { if (p - 1 > nest_last) { kotlin_comment_nest_count--; nest_last = p; } }
 
   kotlin_line_comment = '//' @comment nonnewline*;
   kotlin_block_comment =
@@ -63,7 +63,7 @@ enum {
       '*/' @kotlin_comment_nc_dec @comment
       |
       (nonnewline - ws) @comment
-    )* :>> ('*/' when { kotlin_comment_nest_count == 0 }) @comment;
+    )* :>> ('*/' when { kotlin_comment_nest_count == 0 && p > nest_last }) @comment;
   kotlin_comment = kotlin_line_comment | kotlin_block_comment;
 
   kotlin_dq_str =
@@ -161,6 +161,7 @@ void parse_kotlin(char *buffer, int length, int count,
   init
 
   int kotlin_comment_nest_count = 0;
+  char *nest_last = NULL; // the end of the last delimiter
 
   %% write init;
   cs = (count) ? kotlin_en_kotlin_line : kotlin_en_kotlin_entity;
diff --git a/src/parsers/mathematica.rl b/src/parsers/mathematica.rl
index 72b5957..a627300 100644
--- a/src/parsers/mathematica.rl
+++ b/src/parsers/mathematica.rl
@@ -44,9 +44,9 @@ enum {
     }
   }
 
-  action mathematica_comment_nc_res { nest_count = 0; }
-  action mathematica_comment_nc_inc { nest_count++; }
-  action mathematica_comment_nc_dec { nest_count--; }
+  action mathematica_comment_nc_res { nest_count = 0; nest_last = p + 1; }
+  action mathematica_comment_nc_inc { if (p - 1 > nest_last) { nest_count++; nest_last = p; } }
+  action mathematica_comment_nc_dec { if (p - 1 > nest_last) { nest_count--; nest_last = p; } }
 
   mathematica_nested_block_comment =
 		'(*' >mathematica_comment_nc_res @comment (
@@ -59,7 +59,7 @@ enum {
 			'*)' @mathematica_comment_nc_dec @comment
 			|
 			(nonnewline - ws) @comment
-		)* :>> ('*)' when { nest_count == 0 }) @comment;
+		)* :>> ('*)' when { nest_count == 0 && p > nest_last }) @comment;
 
   mathematica_comment = mathematica_nested_block_comment;
 
@@ -86,7 +86,7 @@ enum {
     '*)' @mathematica_comment_nc_dec
     |
     any
-  )* :>> ('*)' when { nest_count == 0 });
+  )* :>> ('*)' when { nest_count == 0 && p > nest_last });
 
   mathematica_entity := |*
     space+                     ${ entity = MATHEMATICA_SPACE;   } => mathematica_ecallback;
@@ -117,6 +117,7 @@ void parse_mathematica(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  char *nest_last = NULL; // the end of the last delimiter
 
   %% write init;
   cs = (count) ? mathematica_en_mathematica_line : mathematica_en_mathematica_entity;
diff --git a/src/parsers/modula2.rl b/src/parsers/modula2.rl
index 27d6156..ca5bb96 100644
--- a/src/parsers/modula2.rl
+++ b/src/parsers/modula2.rl
@@ -49,9 +49,9 @@ enum {
 
   # Modula-2 comments
 
-  action modula2_comment_nc_res { nest_count = 0; }
-  action modula2_comment_nc_inc { nest_count++; }
-  action modula2_comment_nc_dec { nest_count--; }
+  action modula2_comment_nc_res { nest_count = 0; nest_last = p + 1; }
+  action modula2_comment_nc_inc { if (p - 1 > nest_last) { nest_count++; nest_last = p; } }
+  action modula2_comment_nc_dec { if (p - 1 > nest_last) { nest_count--; nest_last = p; } }
 
   modula2_comment =
     '(*' >modula2_comment_nc_res @comment (
@@ -64,7 +64,7 @@ enum {
       '*)' @modula2_comment_nc_dec @comment
       |
       ^space @comment
-    )* :>> ('*)' when { nest_count == 0 }) @comment;
+    )* :>> ('*)' when { nest_count == 0 && p > nest_last }) @comment;
 
 
   # Modula-2 string literals
@@ -99,7 +99,7 @@ enum {
     '*)' @modula2_comment_nc_dec
     |
     any
-  )* :>> ('*)' when { nest_count == 0 });
+  )* :>> ('*)' when { nest_count == 0 && p > nest_last });
 
   modula2_string_entity = sq_str | dq_str;
 
@@ -133,6 +133,7 @@ void parse_modula2(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  char *nest_last = NULL; // the end of the last delimiter
 
   %% write init;
   cs = (count) ? modula2_en_modula2_line : modula2_en_modula2_entity;
diff --git a/src/parsers/modula3.rl b/src/parsers/modula3.rl
index b5d5760..f893051 100644
--- a/src/parsers/modula3.rl
+++ b/src/parsers/modula3.rl
@@ -49,9 +49,9 @@ enum {
 
   # Modula-3 comments
 
-  action modula3_comment_nc_res { nest_count = 0; }
-  action modula3_comment_nc_inc { nest_count++; }
-  action modula3_comment_nc_dec { nest_count--; }
+  action modula3_comment_nc_res { nest_count = 0; nest_last = p + 1; }
+  action modula3_comment_nc_inc { if (p - 1 > nest_last) { nest_count++; nest_last = p; } }
+  action modula3_comment_nc_dec { if (p - 1 > nest_last) { nest_count--; nest_last = p; } }
 
   modula3_comment =
     '(*' >modula3_comment_nc_res @comment (
@@ -64,7 +64,7 @@ enum {
       '*)' @modula3_comment_nc_dec @comment
       |
       ^space @comment
-    )* :>> ('*)' when { nest_count == 0 }) @comment;
+    )* :>> ('*)' when { nest_count == 0 && p > nest_last }) @comment;
 
 
   # Modula-3 string literals
@@ -116,7 +116,7 @@ enum {
     '*)' @modula3_comment_nc_dec
     |
     any
-  )* :>> ('*)' when { nest_count == 0 });
+  )* :>> ('*)' when { nest_count == 0 && p > nest_last });
 
   modula3_string_entity = sq_str_with_escapes |
                           dq_str_with_escapes;
@@ -151,6 +151,7 @@ void parse_modula3(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  char *nest_last = NULL; // the end of the last delimiter
 
   %% write init;
   cs = (count) ? modula3_en_modula3_line : modula3_en_modula3_entity;
diff --git a/src/parsers/oberon.rl b/src/parsers/oberon.rl
index ee0e30e..9ed6802 100644
--- a/src/parsers/oberon.rl
+++ b/src/parsers/oberon.rl
@@ -49,9 +49,9 @@ enum {
 
   # Oberon comments
 
-  action oberon_comment_nc_res { nest_count = 0; }
-  action oberon_comment_nc_inc { nest_count++; }
-  action oberon_comment_nc_dec { nest_count--; }
+  action oberon_comment_nc_res { nest_count = 0; nest_last = p + 1; }
+  action oberon_comment_nc_inc { if (p - 1 > nest_last) { nest_count++; nest_last = p; } }
+  action oberon_comment_nc_dec { if (p - 1 > nest_last) { nest_count--; nest_last = p; } }
 
   oberon_comment =
     '(*' >oberon_comment_nc_res @comment (
@@ -64,7 +64,7 @@ enum {
       '*)' @oberon_comment_nc_dec @comment
       |
       ^space @comment
-    )* :>> ('*)' when { nest_count == 0 }) @comment;
+    )* :>> ('*)' when { nest_count == 0 && p > nest_last }) @comment;
 
 
   # Oberon string literals
@@ -99,7 +99,7 @@ enum {
     '*)' @oberon_comment_nc_dec
     |
     any
-  )* :>> ('*)' when { nest_count == 0 });
+  )* :>> ('*)' when { nest_count == 0 && p > nest_last });
 
   oberon_string_entity = sq_str | dq_str;
 
@@ -133,6 +133,7 @@ void parse_oberon(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  char *nest_last = NULL; // the end of the last delimiter
 
   %% write init;
   cs = (count) ? oberon_en_oberon_line : oberon_en_oberon_entity;
diff --git a/src/parsers/ocaml.rl b/src/parsers/ocaml.rl
index 0c53f59..9c9d082 100644
--- a/src/parsers/ocaml.rl
+++ b/src/parsers/ocaml.rl
@@ -42,9 +42,9 @@ enum {
     }
   }
 
-  action ocaml_comment_nc_res { nest_count = 0; }
-  action ocaml_comment_nc_inc { nest_count++; }
-  action ocaml_comment_nc_dec { nest_count--; }
+  action ocaml_comment_nc_res { nest_count = 0; nest_last = p + 1; }
+  action ocaml_comment_nc_inc { if (p - 1 > nest_last) { nest_count++; nest_last = p; } }
+  action ocaml_comment_nc_dec { if (p - 1 > nest_last) { nest_count--; nest_last = p; } }
 
   ocaml_nested_block_comment =
 		'(*' >ocaml_comment_nc_res @comment (
@@ -57,7 +57,7 @@ enum {
 			'*)' @ocaml_comment_nc_dec @comment
 			|
 			(nonnewline - ws) @comment
-		)* :>> ('*)' when { nest_count == 0 }) @comment;
+		)* :>> ('*)' when { nest_count == 0 && p > nest_last }) @comment;
 
   ocaml_comment = ocaml_nested_block_comment;
 	ocaml_string = '"' @code ([^\r\n\f"\\] | '\\' nonnewline)* '"';
@@ -83,7 +83,7 @@ enum {
     '*)' @ocaml_comment_nc_dec
     |
     any
-  )* :>> ('*)' when { nest_count == 0 });
+  )* :>> ('*)' when { nest_count == 0 && p > nest_last });
 
   ocaml_entity := |*
     space+               ${ entity = OCAML_SPACE;   } => ocaml_ecallback;
@@ -114,6 +114,7 @@ void parse_ocaml(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  char *nest_last = NULL; // the end of the last delimiter
 
   %% write init;
   cs = (count) ? ocaml_en_ocaml_line : ocaml_en_ocaml_entity;
diff --git a/src/parsers/rexx.rl b/src/parsers/rexx.rl
index 5d0c0af..1c2cc6d 100644
--- a/src/parsers/rexx.rl
+++ b/src/parsers/rexx.rl
@@ -44,9 +44,9 @@ enum {
     }
   }
 
-  action rexx_comment_nc_res { nest_count = 0; }
-  action rexx_comment_nc_inc { nest_count++; }
-  action rexx_comment_nc_dec { nest_count--; }
+  action rexx_comment_nc_res { nest_count = 0; nest_last = p + 1; }
+  action rexx_comment_nc_inc { if (p - 1 > nest_last) { nest_count++; nest_last = p; } }
+  action rexx_comment_nc_dec { if (p - 1 > nest_last) { nest_count--; nest_last = p; } }
 
   rexx_comment =
     '/*' >rexx_comment_nc_res @comment (
@@ -59,7 +59,7 @@ enum {
       '*/' @rexx_comment_nc_dec @comment
       |
       ^space @comment
-    )* :>> ('*/' when { nest_count == 0 }) @comment;
+    )* :>> ('*/' when { nest_count == 0 && p > nest_last }) @comment;
 
   rexx_sq_str = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline)* '\'';
   rexx_dq_str = '"' @code ([^\r\n\f"\\] | '\\' nonnewline)* '"';
@@ -85,7 +85,7 @@ enum {
     '*/' @rexx_comment_nc_dec
     |
     any
-  )* :>> ('*/' when { nest_count == 0 });
+  )* :>> ('*/' when { nest_count == 0 && p > nest_last });
 
   rexx_entity := |*
     space+              ${ entity = REXX_SPACE;   } => rexx_ecallback;
@@ -116,6 +116,7 @@ void parse_rexx(char *buffer, int length, int count,
   init
 
   int nest_count = 0;
+  char *nest_last = NULL; // the end of the last delimiter
 
   %% write init;
   cs = (count) ? rexx_en_rexx_line : rexx_en_rexx_entity;
-- 
2.43.0


From a86300bdaf2ee1b97252a536b340cd6bd7eeddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:23 +0000
Subject: [PATCH 14/69] fix: let a backslash escape a line end in strings that
 span lines

---
 src/parsers/cmake.rl        |  2 ++
 src/parsers/coffeescript.rl |  4 ++++
 src/parsers/crystal.rl      |  8 ++++++++
 src/parsers/css.rl          |  4 ++++
 src/parsers/factor.rl       |  2 ++
 src/parsers/jam.rl          |  4 ++++
 src/parsers/lisp.rl         |  2 ++
 src/parsers/lua.rl          |  4 ++++
 src/parsers/mxml.rl         |  4 ++++
 src/parsers/pascal.rl       |  2 ++
 src/parsers/perl.rl         |  6 ++++++
 src/parsers/php.rl          |  4 ++++
 src/parsers/puppet.rl       |  2 ++
 src/parsers/ruby.rl         | 10 ++++++++++
 14 files changed, 58 insertions(+)

diff --git a/src/parsers/cmake.rl b/src/parsers/cmake.rl
index 00ea34f..29cb60c 100644
--- a/src/parsers/cmake.rl
+++ b/src/parsers/cmake.rl
@@ -59,6 +59,8 @@ enum {
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %cmake_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %cmake_ccallback
+      |
       ws
       |
       [^\r\n\f\t "\\] @code
diff --git a/src/parsers/coffeescript.rl b/src/parsers/coffeescript.rl
index 463f0fe..249d7f0 100644
--- a/src/parsers/coffeescript.rl
+++ b/src/parsers/coffeescript.rl
@@ -63,6 +63,8 @@ enum {
     '\'' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %coffeescript_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %coffeescript_ccallback
+      |
       ws
       |
       [^\r\n\f\t '\\] @code
@@ -73,6 +75,8 @@ enum {
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %coffeescript_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %coffeescript_ccallback
+      |
       ws
       |
       [^\r\n\f\t "\\] @code
diff --git a/src/parsers/crystal.rl b/src/parsers/crystal.rl
index 31b582f..8175a0c 100644
--- a/src/parsers/crystal.rl
+++ b/src/parsers/crystal.rl
@@ -61,6 +61,8 @@ enum {
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %crystal_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %crystal_ccallback
+      |
       ws
       |
       [^\r\n\f\t "\\] @code
@@ -80,6 +82,8 @@ enum {
     '%' [qQ]? [(\[{] @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %crystal_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %crystal_ccallback
+      |
       ws
       |
       [^\r\n\f\t )\]}\\] @code
@@ -90,6 +94,8 @@ enum {
     '`' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %crystal_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %crystal_ccallback
+      |
       ws
       |
       [^\r\n\f\t `\\] @code
@@ -103,6 +109,8 @@ enum {
     '%' [wrx] [(\[{] @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %crystal_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %crystal_ccallback
+      |
       ws
       |
       [^\r\n\f\t )\]}\\] @code
diff --git a/src/parsers/css.rl b/src/parsers/css.rl
index 14736d9..ec2eff1 100644
--- a/src/parsers/css.rl
+++ b/src/parsers/css.rl
@@ -59,6 +59,8 @@ enum {
     '\'' @code (
       newline %{ entity = INTERNAL_NL; } %css_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %css_ccallback
+      |
       ws
       |
       [^\r\n\f\t '\\] @code
@@ -69,6 +71,8 @@ enum {
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %css_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %css_ccallback
+      |
       ws
       |
       [^\r\n\f\t "\\] @code
diff --git a/src/parsers/factor.rl b/src/parsers/factor.rl
index 06a11da..7eba199 100644
--- a/src/parsers/factor.rl
+++ b/src/parsers/factor.rl
@@ -51,6 +51,8 @@ enum {
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %factor_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %factor_ccallback
+      |
       ws
       |
       [^\r\n\f\t "\\] @code
diff --git a/src/parsers/jam.rl b/src/parsers/jam.rl
index 3f7f518..a63824c 100644
--- a/src/parsers/jam.rl
+++ b/src/parsers/jam.rl
@@ -50,6 +50,8 @@ enum {
     '\'' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %jam_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %jam_ccallback
+      |
       ws
       |
       [^\r\n\f\t '\\] @code
@@ -60,6 +62,8 @@ enum {
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %jam_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %jam_ccallback
+      |
       ws
       |
       [^\r\n\f\t "\\] @code
diff --git a/src/parsers/lisp.rl b/src/parsers/lisp.rl
index 08bf62e..b5d2c1e 100644
--- a/src/parsers/lisp.rl
+++ b/src/parsers/lisp.rl
@@ -66,6 +66,8 @@ enum {
     '"' ([^"]{2}) @code (
       newline %{ entity = INTERNAL_NL; } %lisp_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %lisp_ccallback
+      |
       ws
       |
       [^\r\n\f\t "\\] @code
diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index 067413f..6d38dae 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -73,6 +73,8 @@ enum {
     '\'' @code (
       newline %{ entity = INTERNAL_NL; } %lua_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %lua_ccallback
+      |
       ws
       |
       [^\r\n\f\t '\\] @code
@@ -83,6 +85,8 @@ enum {
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %lua_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %lua_ccallback
+      |
       ws
       |
       [^\r\n\f\t "\\] @code
diff --git a/src/parsers/mxml.rl b/src/parsers/mxml.rl
index f3604c0..cc8eead 100644
--- a/src/parsers/mxml.rl
+++ b/src/parsers/mxml.rl
@@ -67,6 +67,8 @@ enum {
     '\'' @code (
       newline %{ entity = INTERNAL_NL; } %mxml_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %mxml_ccallback
+      |
       ws
       |
       [^\r\n\f\t '\\] @code
@@ -77,6 +79,8 @@ enum {
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %mxml_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %mxml_ccallback
+      |
       ws
       |
       [^\r\n\f\t "\\] @code
diff --git a/src/parsers/pascal.rl b/src/parsers/pascal.rl
index 3f4a0e9..c37f514 100644
--- a/src/parsers/pascal.rl
+++ b/src/parsers/pascal.rl
@@ -68,6 +68,8 @@ enum {
     '\'' @code (
       newline %{ entity = INTERNAL_NL; } %pascal_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %pascal_ccallback
+      |
       ws
       |
       [^\r\n\f\t '\\] @code
diff --git a/src/parsers/perl.rl b/src/parsers/perl.rl
index d9c3759..778f23e 100644
--- a/src/parsers/perl.rl
+++ b/src/parsers/perl.rl
@@ -61,6 +61,8 @@ enum {
     '\'' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %perl_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %perl_ccallback
+      |
       ws
       |
       [^\r\n\f\t '\\] @code
@@ -71,6 +73,8 @@ enum {
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %perl_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %perl_ccallback
+      |
       ws
       |
       [^\r\n\f\t "\\] @code
@@ -81,6 +85,8 @@ enum {
     '`' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %perl_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %perl_ccallback
+      |
       ws
       |
       [^\r\n\f\t `\\] @code
diff --git a/src/parsers/php.rl b/src/parsers/php.rl
index e949794..d85f8e2 100644
--- a/src/parsers/php.rl
+++ b/src/parsers/php.rl
@@ -63,6 +63,8 @@ enum {
     '\'' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %php_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %php_ccallback
+      |
       ws
       |
       [^\r\n\f'\\] @code
@@ -73,6 +75,8 @@ enum {
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %php_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %php_ccallback
+      |
       ws
       |
       [^\r\n\f"\\] @code
diff --git a/src/parsers/puppet.rl b/src/parsers/puppet.rl
index 0abb695..3dba8c1 100644
--- a/src/parsers/puppet.rl
+++ b/src/parsers/puppet.rl
@@ -60,6 +60,8 @@ enum {
     '\'' @code (
       newline %{ entity = INTERNAL_NL; } %puppet_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %puppet_ccallback
+      |
       ws
       |
       [^\r\n\f\t '\\] @code
diff --git a/src/parsers/ruby.rl b/src/parsers/ruby.rl
index 8426900..baa8381 100644
--- a/src/parsers/ruby.rl
+++ b/src/parsers/ruby.rl
@@ -61,6 +61,8 @@ enum {
     '\'' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %ruby_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %ruby_ccallback
+      |
       ws
       |
       [^\r\n\f\t '\\] @code
@@ -71,6 +73,8 @@ enum {
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %ruby_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %ruby_ccallback
+      |
       ws
       |
       [^\r\n\f\t "\\] @code
@@ -90,6 +94,8 @@ enum {
     '%' [qQ]? [(\[{] @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %ruby_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %ruby_ccallback
+      |
       ws
       |
       [^\r\n\f\t )\]}\\] @code
@@ -100,6 +106,8 @@ enum {
     '`' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %ruby_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %ruby_ccallback
+      |
       ws
       |
       [^\r\n\f\t `\\] @code
@@ -113,6 +121,8 @@ enum {
     '%' [wrx] [(\[{] @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %ruby_ccallback
       |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %ruby_ccallback
+      |
       ws
       |
       [^\r\n\f\t )\]}\\] @code
-- 
2.43.0


From 4c88125f751a36d9e180b982d0d3444f717bae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:23 +0000
Subject: [PATCH 15/69] fix: count the text of block comments as comment

---
 src/parsers/forth.rl  | 2 +-
 src/parsers/matlab.rl | 2 +-
 src/parsers/octave.rl | 2 +-
 src/parsers/pascal.rl | 4 ++--
 src/parsers/puppet.rl | 2 +-
 src/parsers/sql.rl    | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/parsers/forth.rl b/src/parsers/forth.rl
index c7c53c0..ebfa526 100644
--- a/src/parsers/forth.rl
+++ b/src/parsers/forth.rl
@@ -53,7 +53,7 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> ')';
+    )* :>> ')' @comment;
   forth_comment = forth_line_comment | forth_block_comment;
 
   forth_string = '"' @code ([^\r\n\f"])* '"';
diff --git a/src/parsers/matlab.rl b/src/parsers/matlab.rl
index 94862b4..74b1324 100644
--- a/src/parsers/matlab.rl
+++ b/src/parsers/matlab.rl
@@ -52,7 +52,7 @@ enum {
       |
       ws
       |
-      (nonnewline - ws) @code
+      (nonnewline - ws) @comment
     )* :>> '%}';
   matlab_comment = matlab_line_comment | matlab_block_comment;
 
diff --git a/src/parsers/octave.rl b/src/parsers/octave.rl
index 6261af3..4d9255c 100644
--- a/src/parsers/octave.rl
+++ b/src/parsers/octave.rl
@@ -54,7 +54,7 @@ enum {
       |
       ws
       |
-      (nonnewline - ws) @code
+      (nonnewline - ws) @comment
     )* :>> '%}';
   octave_comment = octave_line_comment | octave_block_comment;
 
diff --git a/src/parsers/pascal.rl b/src/parsers/pascal.rl
index c37f514..2f50d92 100644
--- a/src/parsers/pascal.rl
+++ b/src/parsers/pascal.rl
@@ -51,7 +51,7 @@ enum {
       |
       ws
       |
-      (nonnewline - ws) @code
+      (nonnewline - ws) @comment
     )* :>> '*)';
   pascal_turbo_block_comment =
     '{' @comment (
@@ -60,7 +60,7 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> '}';
+    )* :>> '}' @comment;
   pascal_comment = pascal_line_comment | pascal_old_block_comment |
                    pascal_turbo_block_comment;
 
diff --git a/src/parsers/puppet.rl b/src/parsers/puppet.rl
index 3dba8c1..9b5a86f 100644
--- a/src/parsers/puppet.rl
+++ b/src/parsers/puppet.rl
@@ -52,7 +52,7 @@ enum {
       |
       ws
       |
-      (nonnewline - ws) @code
+      (nonnewline - ws) @comment
     )* :>> '*/';
   puppet_comment = puppet_line_comment | puppet_block_comment;
 
diff --git a/src/parsers/sql.rl b/src/parsers/sql.rl
index 8f20433..09eb40d 100644
--- a/src/parsers/sql.rl
+++ b/src/parsers/sql.rl
@@ -60,7 +60,7 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> '}';
+    )* :>> '}' @comment;
   sql_comment = sql_line_comment | sql_c_block_comment | sql_block_comment;
 
   sql_sq_str = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline)* '\'';
-- 
2.43.0


From c01b69a95847b94d4e2f940935773811b2bd531d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:23 +0000
Subject: [PATCH 16/69] fix: let strings span lines in Tcl, escapes in Grace,
 and end Vim strings with their line

---
 src/parsers/grace.rl | 4 ++++
 src/parsers/tcl.rl   | 2 ++
 src/parsers/vim.rl   | 7 +++----
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parsers/grace.rl b/src/parsers/grace.rl
index 073e2d1..dcdfb46 100644
--- a/src/parsers/grace.rl
+++ b/src/parsers/grace.rl
@@ -54,6 +54,10 @@ enum {
       ws
       |
       [^\r\n\f\t "\\] @code
+      |
+      '\\' nonnewline @code
+      |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %grace_ccallback
     )* '"' @code @commit;
 
   grace_line := |*
diff --git a/src/parsers/tcl.rl b/src/parsers/tcl.rl
index 2a47746..632540a 100644
--- a/src/parsers/tcl.rl
+++ b/src/parsers/tcl.rl
@@ -55,6 +55,8 @@ enum {
 
   tcl_string =
     '"' @code (
+      newline %{ entity = INTERNAL_NL; } %tcl_ccallback
+      |
       escaped_newline >code %{ entity = INTERNAL_NL; } %tcl_ccallback
       |
       ws
diff --git a/src/parsers/vim.rl b/src/parsers/vim.rl
index 3d278f2..e508993 100644
--- a/src/parsers/vim.rl
+++ b/src/parsers/vim.rl
@@ -46,8 +46,8 @@ enum {
 
   vim_comment = '"' when no_code  @comment nonnewline*;
 
-  vim_sq_str = '\'' @code ([^\r\n\f'\\] | '\\' any)* '\'';
-  vim_dq_str = '"' when !no_code @code ([^\r\n\f"\\] | '\\' any)* '"';
+  vim_sq_str = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline)* '\'';
+  vim_dq_str = '"' when !no_code @code ([^\r\n\f"\\] | '\\' nonnewline)* '"';
   vim_string = vim_sq_str | vim_dq_str;
 
   vim_line := |*
@@ -55,9 +55,8 @@ enum {
     vim_comment;
     vim_string;
     newline        ${ entity = NEWLINE;   } => vim_ccallback;
-    #'"';
+    '"' when !no_code ${ entity = VIM_ANY; } => vim_ccallback;
     ^(space | '"') ${ entity = VIM_ANY;   } => vim_ccallback;
-
   *|;
 
   # Entity machine
-- 
2.43.0


From 2726bbdc0c0e3b0e79e954d54e11e8364cc2094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:24 +0000
Subject: [PATCH 17/69] fix: see blank lines in Coq, Kotlin and Modelica
 strings and end Modula-2 and Oberon strings

---
 src/parsers/coq.rl      | 2 +-
 src/parsers/kotlin.rl   | 2 +-
 src/parsers/modelica.rl | 5 +++--
 src/parsers/modula2.rl  | 2 +-
 src/parsers/oberon.rl   | 2 +-
 5 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/parsers/coq.rl b/src/parsers/coq.rl
index 429b091..f22e309 100644
--- a/src/parsers/coq.rl
+++ b/src/parsers/coq.rl
@@ -67,7 +67,7 @@ enum {
       |
       ws
       |
-      [^"] @code
+      [^\r\n\f\t "] @code
     )* '"' @code;
 
   coq_line := |*
diff --git a/src/parsers/kotlin.rl b/src/parsers/kotlin.rl
index b89ad62..c6873b9 100644
--- a/src/parsers/kotlin.rl
+++ b/src/parsers/kotlin.rl
@@ -75,7 +75,7 @@ enum {
       |
       ws
       |
-      [^\t ] @code
+      [^\r\n\f\t ] @code
     )* '"""' @code;
   kotlin_string = kotlin_dq_str | kotlin_raw_str;
 
diff --git a/src/parsers/modelica.rl b/src/parsers/modelica.rl
index f6c5cd2..4a9b387 100644
--- a/src/parsers/modelica.rl
+++ b/src/parsers/modelica.rl
@@ -60,8 +60,9 @@ enum {
   string = '\"' @code
     (newline %{ entity = INTERNAL_NL; } %modelica_ccallback
     |ws
-    |[^ \t\n"\\] @code
-    |'\\\"' @code
+    |[^\r\n\f\t "\\] @code
+    |'\\' nonnewline @code
+    |'\\' @code newline %{ entity = INTERNAL_NL; } %modelica_ccallback
     )* '\"' @code;
 
   modelica_line := |*
diff --git a/src/parsers/modula2.rl b/src/parsers/modula2.rl
index ca5bb96..1f19e49 100644
--- a/src/parsers/modula2.rl
+++ b/src/parsers/modula2.rl
@@ -69,7 +69,7 @@ enum {
 
   # Modula-2 string literals
 
-  modula2_singlequoted_string = '\'' @code [^\r\n\f"]* '\'';
+  modula2_singlequoted_string = '\'' @code [^\r\n\f']* '\'';
   modula2_doublequoted_string = '"' @code [^\r\n\f"]* '"';
 
   modula2_string = modula2_singlequoted_string | modula2_doublequoted_string;
diff --git a/src/parsers/oberon.rl b/src/parsers/oberon.rl
index 9ed6802..5cefad6 100644
--- a/src/parsers/oberon.rl
+++ b/src/parsers/oberon.rl
@@ -69,7 +69,7 @@ enum {
 
   # Oberon string literals
 
-  oberon_singlequoted_string = '\'' @code [^\r\n\f"]* '\'';
+  oberon_singlequoted_string = '\'' @code [^\r\n\f']* '\'';
   oberon_doublequoted_string = '"' @code [^\r\n\f"]* '"';
 
   oberon_string = oberon_singlequoted_string | oberon_doublequoted_string;
-- 
2.43.0


From fe8697b536235e6487d33de13de5b59a15d12cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:24 +0000
Subject: [PATCH 18/69] fix: Lisp strings that start with an escape or are one
 character long

---
 src/parsers/lisp.rl | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/parsers/lisp.rl b/src/parsers/lisp.rl
index b5d2c1e..6cdf669 100644
--- a/src/parsers/lisp.rl
+++ b/src/parsers/lisp.rl
@@ -59,11 +59,18 @@ enum {
   lisp_empty_string =
     '"'{2} [^"] @{fhold;} @code;
 
-  lisp_char_string =
-    '"' [^"] '"' @code;
-
   lisp_regular_string =
-    '"' ([^"]{2}) @code (
+    '"' ( # not a quote; the first character tells """ apart
+      newline >code %{ entity = INTERNAL_NL; } %lisp_ccallback
+      |
+      '\\' @code newline %{ entity = INTERNAL_NL; } %lisp_ccallback
+      |
+      ws @code
+      |
+      [^\r\n\f\t "\\] @code
+      |
+      '\\' nonnewline @code
+    ) (
       newline %{ entity = INTERNAL_NL; } %lisp_ccallback
       |
       '\\' @code newline %{ entity = INTERNAL_NL; } %lisp_ccallback
@@ -75,7 +82,7 @@ enum {
       '\\' nonnewline @code
     )* '"' @code;
 
-  lisp_string = lisp_empty_string | lisp_char_string | lisp_regular_string;
+  lisp_string = lisp_empty_string | lisp_regular_string;
 
   lisp_line := |*
     spaces        ${ entity = LISP_SPACE; } => lisp_ccallback;
-- 
2.43.0


From 28eb17438a44751480fecb4388487dcdc1ec0df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:24 +0000
Subject: [PATCH 19/69] fix: match the level of Lua's long brackets when
 another level is inside

---
 src/parsers/lua.rl | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index 6d38dae..27c6401 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -48,7 +48,8 @@ enum {
 
   action lua_long_ec_res { equal_count = 0; }
   action lua_long_ec_inc { equal_count++; }
-  action lua_long_ec_dec { equal_count--; }
+  action lua_long_close_res { close_count = 0; }
+  action lua_long_close_inc { close_count++; }
 
   lua_long_comment =
     '--' ('[' >lua_long_ec_res '='* $lua_long_ec_inc '[') @enqueue @comment (
@@ -57,7 +58,8 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 }) @commit;
+    )* :>> (']' >lua_long_close_res '='* $lua_long_close_inc
+             ']' when { close_count == equal_count }) @commit;
   lua_line_comment = '--' @comment nonnewline*;
   lua_comment = lua_long_comment | lua_line_comment;
 
@@ -68,7 +70,8 @@ enum {
       ws
       |
       (nonnewline - ws) @code
-    )* :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 }) @commit;
+    )* :>> (']' >lua_long_close_res '='* $lua_long_close_inc
+             ']' when { close_count == equal_count }) @commit;
   lua_sq_str =
     '\'' @code (
       newline %{ entity = INTERNAL_NL; } %lua_ccallback
@@ -111,7 +114,8 @@ enum {
 
   lua_block_comment_entity =
     '--[' >lua_long_ec_res '='* $lua_long_ec_inc '[' any*
-    :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 });
+    :>> (']' >lua_long_close_res '='* $lua_long_close_inc
+             ']' when { close_count == equal_count });
   lua_line_comment_entity = '--' (nonnewline)*;
   lua_comment_entity = lua_block_comment_entity | lua_line_comment_entity;
 
@@ -162,6 +166,7 @@ void parse_lua(char *buffer, int length, int count,
   init
 
   int equal_count = 0;
+  int close_count = 0;
 
   %% write init;
   cs = (count) ? lua_en_lua_line : lua_en_lua_entity;
-- 
2.43.0


From ab28d4cf16bec39beddbf01e073a688d3d2febe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:24 +0000
Subject: [PATCH 20/69] fix: end Rebol strings at their quote and count the
 lines of braced ones

---
 src/parsers/rebol.rl | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/parsers/rebol.rl b/src/parsers/rebol.rl
index eb7fc59..dd5a9db 100644
--- a/src/parsers/rebol.rl
+++ b/src/parsers/rebol.rl
@@ -26,12 +26,10 @@ enum {
   write data;
   include common "common.rl";
 
+  action rebol_res_string { rebol_string_level = 0; }
   action rebol_inc_string { ++rebol_string_level; }
   action rebol_dec_string { --rebol_string_level; }
-  action rebol_is_nested { rebol_string_level > 0 }
-
-  rebol_cb_str_nest = '{'                       %rebol_inc_string
-                    | '}' when rebol_is_nested  %rebol_dec_string;
+  action rebol_not_nested { rebol_string_level == 0 }
 
   # Line counting machine
 
@@ -54,11 +52,23 @@ enum {
   rebol_line_comment = ';' @comment nonnewline*;
   rebol_comment = rebol_line_comment;
 
-  rebol_dq_str = '"' @code ([^\r\n\f"] | '^"')* [\r\n\f"];
-  rebol_cb_str_inner = [^{}] | '^{' | '^}'
-                     | newline %{ entity = INTERNAL_NL; } %rebol_ccallback
-                     | rebol_cb_str_nest;
-  rebol_cb_str = '{' @code rebol_cb_str_inner* @code '}' @code;
+  rebol_dq_str = '"' @code ([^\r\n\f"^] | '^' nonnewline)* '"';
+  rebol_cb_str =
+    '{' >rebol_res_string @code (
+      newline %{ entity = INTERNAL_NL; } %rebol_ccallback
+      |
+      '^' @code newline %{ entity = INTERNAL_NL; } %rebol_ccallback
+      |
+      ws
+      |
+      '^' nonnewline @code
+      |
+      '{' @rebol_inc_string @code
+      |
+      '}' @rebol_dec_string @code
+      |
+      [^\r\n\f\t {}^] @code
+    )* :>> ('}' when rebol_not_nested) @code;
   rebol_string = rebol_dq_str | rebol_cb_str;
 
   rebol_line := |*
@@ -78,8 +88,16 @@ enum {
   rebol_line_comment_entity = ';' nonnewline*;
   rebol_comment_entity = rebol_line_comment_entity;
 
-  rebol_dq_str_entity = '"' ([^\r\n\f"] | '^"')* [\r\n\f"];
-  rebol_cb_str_entity = '{' ([^{}] | '^{' | '^}' | rebol_cb_str_nest)* '}';
+  rebol_dq_str_entity = '"' ([^\r\n\f"^] | '^' nonnewline)* '"';
+  rebol_cb_str_entity = '{' >rebol_res_string (
+    '{' @rebol_inc_string
+    |
+    '}' @rebol_dec_string
+    |
+    '^' any
+    |
+    [^{}^]
+  )* :>> ('}' when rebol_not_nested);
   rebol_string_entiy = rebol_dq_str_entity | rebol_cb_str_entity;
 
   rebol_entity := |*
-- 
2.43.0


From 3f3a0767dd844bbad182830b0f2e5db0083e8c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:24 +0000
Subject: [PATCH 21/69] fix: fixed form Fortran has comments only in the first
 column

---
 src/parsers/fortranfixed.rl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parsers/fortranfixed.rl b/src/parsers/fortranfixed.rl
index 16ad9c1..fe5e2fa 100644
--- a/src/parsers/fortranfixed.rl
+++ b/src/parsers/fortranfixed.rl
@@ -44,7 +44,7 @@ enum {
     }
   }
 
-  ffixed_comment = 'C' @comment nonnewline*;
+  ffixed_comment = [cC*!] when starts_line @comment nonnewline*;
 
   ffixed_sq_str = '\'' @code nonnewline* '\'';
   ffixed_dq_str = '"' @code nonnewline* '"';
@@ -55,7 +55,8 @@ enum {
     ffixed_comment;
     ffixed_string;
     newline         ${ entity = NEWLINE;      } => ffixed_ccallback;
-    ^space          ${ entity = FFIXED_ANY;   } => ffixed_ccallback;
+    [cC*!] when !starts_line ${ entity = FFIXED_ANY; } => ffixed_ccallback;
+    ^(space | [cC*!]) ${ entity = FFIXED_ANY; } => ffixed_ccallback;
   *|;
 
   # Entity machine
@@ -65,7 +66,7 @@ enum {
              userdata);
   }
 
-  ffixed_comment_entity = 'C' nonnewline*;
+  ffixed_comment_entity = [cC*!] when starts_line nonnewline*;
 
   ffixed_entity := |*
     space+                ${ entity = FFIXED_SPACE;   } => ffixed_ecallback;
-- 
2.43.0


From 302ff8f317b04e14821847765cc60495ac4f4607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:24 +0000
Subject: [PATCH 22/69] fix: end a doc string or a Kotlin raw string at its
 first closing quotes

---
 src/parsers/boo.rl          | 14 ++++++++------
 src/parsers/fortranfixed.rl |  3 ++-
 src/parsers/julia.rl        | 32 ++++++++++++++++++--------------
 src/parsers/kotlin.rl       |  2 +-
 src/parsers/lisp.rl         | 14 ++++++++------
 src/parsers/python.rl       | 32 ++++++++++++++++++--------------
 6 files changed, 55 insertions(+), 42 deletions(-)

diff --git a/src/parsers/boo.rl b/src/parsers/boo.rl
index 8b3646f..ba88dc8 100644
--- a/src/parsers/boo.rl
+++ b/src/parsers/boo.rl
@@ -63,12 +63,14 @@ enum {
     )* :>> ('*/' when { nest_count == 0 && p > nest_last }) @comment;
   boo_doc_comment =
     '"""' @comment (
-      newline %{ entity = INTERNAL_NL; } %boo_ccallback
-      |
-      ws
-      |
-      (nonnewline - ws) @comment
-    )* :>> '"""' @comment;
+      ('"' @comment ('"' @comment)?)? ( # two at most, three close it
+        newline %{ entity = INTERNAL_NL; } %boo_ccallback
+        |
+        ws
+        |
+        (nonnewline - ws - '"') @comment
+      )
+    )* '"""' @comment;
   boo_comment = boo_line_comment | boo_block_comment | boo_doc_comment;
 
   boo_char = '\'' ([^\r\n\f'\\] | '\\' nonnewline) '\'';
diff --git a/src/parsers/fortranfixed.rl b/src/parsers/fortranfixed.rl
index fe5e2fa..7101d9d 100644
--- a/src/parsers/fortranfixed.rl
+++ b/src/parsers/fortranfixed.rl
@@ -72,7 +72,8 @@ enum {
     space+                ${ entity = FFIXED_SPACE;   } => ffixed_ecallback;
     ffixed_comment_entity ${ entity = FFIXED_COMMENT; } => ffixed_ecallback;
     # TODO:
-    ^space;
+    [cC*!] when !starts_line;
+    ^(space | [cC*!]);
   *|;
 }%%
 
diff --git a/src/parsers/julia.rl b/src/parsers/julia.rl
index d700570..758fc2b 100644
--- a/src/parsers/julia.rl
+++ b/src/parsers/julia.rl
@@ -53,20 +53,24 @@ enum {
     )* :>> '=#';
   julia_sq_doc_str =
     '\'\'\'' @comment (
-      newline %{ entity = INTERNAL_NL; } %julia_ccallback
-      |
-      ws
-      |
-      (nonnewline - ws) @comment
-    )* :>> '\'\'\'' @comment;
+      ('\'' @comment ('\'' @comment)?)? ( # two at most, three close it
+        newline %{ entity = INTERNAL_NL; } %julia_ccallback
+        |
+        ws
+        |
+        (nonnewline - ws - '\'') @comment
+      )
+    )* '\'\'\'' @comment;
   julia_dq_doc_str =
     '"""' @comment (
-      newline %{ entity = INTERNAL_NL; } %julia_ccallback
-      |
-      ws
-      |
-      (nonnewline - ws) @comment
-    )* :>> '"""' @comment;
+      ('"' @comment ('"' @comment)?)? ( # two at most, three close it
+        newline %{ entity = INTERNAL_NL; } %julia_ccallback
+        |
+        ws
+        |
+        (nonnewline - ws - '"') @comment
+      )
+    )* '"""' @comment;
   julia_comment = julia_line_comment | julia_block_comment |
                    julia_sq_doc_str | julia_dq_doc_str;
 
@@ -95,8 +99,8 @@ enum {
 
   julia_line_comment_entity = '#' nonnewline*;
   julia_block_comment_entity = '#=' any* :>> '=#';
-  julia_sq_doc_str_entity = '\'\'\'' any* :>> '\'\'\'';
-  julia_dq_doc_str_entity = '"""' any* :>> '"""';
+  julia_sq_doc_str_entity = '\'\'\'' ('\''{0,2} [^'])* '\'\'\'';
+  julia_dq_doc_str_entity = '"""' ('"'{0,2} [^"])* '"""';
   julia_comment_entity = julia_line_comment_entity | julia_block_comment_entity |
                            julia_sq_doc_str_entity | julia_dq_doc_str_entity;
 
diff --git a/src/parsers/kotlin.rl b/src/parsers/kotlin.rl
index c6873b9..53c2af5 100644
--- a/src/parsers/kotlin.rl
+++ b/src/parsers/kotlin.rl
@@ -76,7 +76,7 @@ enum {
       ws
       |
       [^\r\n\f\t ] @code
-    )* '"""' @code;
+    )* :>> '"""' @code;
   kotlin_string = kotlin_dq_str | kotlin_raw_str;
 
   kotlin_line := |*
diff --git a/src/parsers/lisp.rl b/src/parsers/lisp.rl
index 6cdf669..1018957 100644
--- a/src/parsers/lisp.rl
+++ b/src/parsers/lisp.rl
@@ -45,12 +45,14 @@ enum {
   }
 
   lisp_docstring = '"'{3} @comment (
-    newline %{ entity = INTERNAL_NL; } %lisp_ccallback
-    |
-    ws
-    |
-    (nonnewline - ws) @comment
-  )* :>> '"""' @comment;
+      ('"' @comment ('"' @comment)?)? ( # two at most, three close it
+        newline %{ entity = INTERNAL_NL; } %lisp_ccallback
+        |
+        ws
+        |
+        (nonnewline - ws - '"') @comment
+      )
+    )* '"""' @comment;
 
   lisp_line_comment = ';' @comment nonnewline*;
 
diff --git a/src/parsers/python.rl b/src/parsers/python.rl
index 9b73316..4977548 100644
--- a/src/parsers/python.rl
+++ b/src/parsers/python.rl
@@ -55,20 +55,24 @@ enum {
     )* :>> '*/';
   python_sq_doc_str =
     '\'\'\'' @comment (
-      newline %{ entity = INTERNAL_NL; } %python_ccallback
-      |
-      ws
-      |
-      (nonnewline - ws) @comment
-    )* :>> '\'\'\'' @comment;
+      ('\'' @comment ('\'' @comment)?)? ( # two at most, three close it
+        newline %{ entity = INTERNAL_NL; } %python_ccallback
+        |
+        ws
+        |
+        (nonnewline - ws - '\'') @comment
+      )
+    )* '\'\'\'' @comment;
   python_dq_doc_str =
     '"""' @comment (
-      newline %{ entity = INTERNAL_NL; } %python_ccallback
-      |
-      ws
-      |
-      (nonnewline - ws) @comment
-    )* :>> '"""' @comment;
+      ('"' @comment ('"' @comment)?)? ( # two at most, three close it
+        newline %{ entity = INTERNAL_NL; } %python_ccallback
+        |
+        ws
+        |
+        (nonnewline - ws - '"') @comment
+      )
+    )* '"""' @comment;
   python_comment = python_line_comment | python_block_comment |
                    python_sq_doc_str | python_dq_doc_str;
 
@@ -97,8 +101,8 @@ enum {
 
   python_line_comment_entity = ('#' | '//') nonnewline*;
   python_block_comment_entity = '/*' any* :>> '*/';
-  python_sq_doc_str_entity = '\'\'\'' any* :>> '\'\'\'';
-  python_dq_doc_str_entity = '"""' any* :>> '"""';
+  python_sq_doc_str_entity = '\'\'\'' ('\''{0,2} [^'])* '\'\'\'';
+  python_dq_doc_str_entity = '"""' ('"'{0,2} [^"])* '"""';
   python_comment_entity = python_line_comment_entity |
     python_block_comment_entity | python_sq_doc_str_entity |
     python_dq_doc_str_entity;
-- 
2.43.0


From 24cb4265baf74518c692a2d50b1193b09e47070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:22 +0000
Subject: [PATCH 23/69] fix: HTML lines after a closing script or style tag are
 HTML

The HTML parser did not forget the embedded language it had seen at the end
of a line, so a last line without a newline was reported in the language of
an earlier script or style section, and a line was reported differently with
and without its newline.
---
 src/parsers/html.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/html.rl b/src/parsers/html.rl
index f4ff387..9f62d97 100644
--- a/src/parsers/html.rl
+++ b/src/parsers/html.rl
@@ -44,10 +44,10 @@ enum {
       code
       break;
     case INTERNAL_NL:
-      std_internal_newline(HTML_LANG)
+      emb_internal_newline(HTML_LANG)
       break;
     case NEWLINE:
-      std_newline(HTML_LANG)
+      emb_newline(HTML_LANG)
       break;
     case CHECK_BLANK_ENTRY:
       check_blank_entry(HTML_LANG)
-- 
2.43.0


From 2341cae43f7833dcc2444592ec2a67ebc1c38848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:22 +0000
Subject: [PATCH 24/69] fix: line comments in embedded code end at the closing
 delimiter

A line comment of an embedded language swallowed the closing delimiter on its
line, so that the rest of the file was reported in the embedded language.
---
 src/parser_macros.h              | 39 ++++++++++++++++++++++++++++++++
 src/parsers/clearsilverhtml.rl   |  3 ++-
 src/parsers/coffeescript.rl      |  3 ++-
 src/parsers/cs_aspx.rl           |  6 +++--
 src/parsers/html.rl              |  3 ++-
 src/parsers/jsp.rl               |  6 +++--
 src/parsers/metapost_with_tex.rl |  2 +-
 src/parsers/mxml.rl              |  3 ++-
 src/parsers/nix.rl               |  4 ++--
 src/parsers/phphtml.rl           |  6 +++--
 src/parsers/rhtml.rl             |  6 +++--
 src/parsers/vb_aspx.rl           |  5 ++--
 12 files changed, 69 insertions(+), 17 deletions(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index 0efbdc0..fa3e9f2 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -6,6 +6,8 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
+#include <strings.h>
 
 #include "languages.h"
 
@@ -284,6 +286,43 @@ int is_blank_entry(char **p, char *pe) {
   return 1;
 }
 
+/**
+ * Looks for the closing delimiter of an embedded language.
+ * @param s The start of the text to look in.
+ * @param e The end of the text to look in.
+ * @param delim The delimiter. The case of a closing tag and spaces before its
+ *   '>' do not matter.
+ * @return the position of the delimiter, or NULL if it is not in the text.
+ */
+char *find_outry(char *s, char *e, const char *delim) {
+  size_t len = strlen(delim);
+  int tag = delim[0] == '<';
+  if (tag) len--; // without the '>'
+  for (; e - s >= len; s++) {
+    if (tag ? strncasecmp(s, delim, len) : strncmp(s, delim, len)) continue;
+    char *end = s + len;
+    while (tag && end < e && (*end == ' ' || *end == '\t' || *end == '\v'))
+      end++;
+    if (!tag || (end < e && *end == '>')) return s;
+  }
+  return NULL;
+}
+
+/**
+ * Ends the comment just matched at the closing delimiter of the embedded
+ * language, which line comments do not hide.
+ * This is typically used for the line comments of an embedded language.
+ * @param delim The closing delimiter.
+ * @note Applies only to line counting parsers.
+ */
+#define end_comment_at(delim) { \
+  char *outry = find_outry(ts, te, delim); \
+  if (outry) { \
+    te = outry; \
+    p = te - 1; \
+  } \
+}
+
 /**
  * If there is a transition into an embedded language and there is only parent
  * language code on the line (the rest of the line is blank with no child code),
diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 911e68e..c4bd510 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -104,7 +104,8 @@ enum {
     cshtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
     spaces      ${ entity = JS_SPACE; } => js_ccallback;
-    js_comment;
+    js_line_comment => { end_comment_at("</script>") };
+    js_block_comment;
     js_string;
     newline     ${ entity = NEWLINE;  } => js_ccallback;
     ^space      ${ entity = JS_ANY;   } => js_ccallback;
diff --git a/src/parsers/coffeescript.rl b/src/parsers/coffeescript.rl
index 249d7f0..2b09f29 100644
--- a/src/parsers/coffeescript.rl
+++ b/src/parsers/coffeescript.rl
@@ -108,7 +108,8 @@ enum {
     coffeescript_js_outry @{ p = ts; fret; };
     # unmodified JavaScript patterns
     spaces        ${ entity = JS_SPACE; } => js_ccallback;
-    js_comment;
+    js_line_comment => { end_comment_at("`") };
+    js_block_comment;
     js_string;
     newline       ${ entity = NEWLINE;    } => js_ccallback;
     ^space        ${ entity = JS_ANY;   } => js_ccallback;
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 6fe3375..3807856 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -102,7 +102,8 @@ enum {
     cs_aspx_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
     spaces     ${ entity = JS_SPACE; } => js_ccallback;
-    js_comment;
+    js_line_comment => { end_comment_at("</script>") };
+    js_block_comment;
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
     ^space     ${ entity = JS_ANY;   } => js_ccallback;
@@ -114,7 +115,8 @@ enum {
     cs_aspx_cs_outry @{ p = ts; fret; };
     # unmodified C patterns
     spaces        ${ entity = C_SPACE; } => c_ccallback;
-    c_comment;
+    c_line_comment => { end_comment_at("%>") end_comment_at("</script>") };
+    c_block_comment;
     c_string;
     newline       ${ entity = NEWLINE;    } => c_ccallback;
     ^space        ${ entity = C_ANY;   } => c_ccallback;
diff --git a/src/parsers/html.rl b/src/parsers/html.rl
index 9f62d97..a25adf7 100644
--- a/src/parsers/html.rl
+++ b/src/parsers/html.rl
@@ -87,7 +87,8 @@ enum {
     html_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
     spaces     ${ entity = JS_SPACE; } => js_ccallback;
-    js_comment;
+    js_line_comment => { end_comment_at("</script>") };
+    js_block_comment;
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
     ^space     ${ entity = JS_ANY;   } => js_ccallback;
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index 7ec8eaf..be1a2cc 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -104,7 +104,8 @@ enum {
     jsp_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
     spaces     ${ entity = JS_SPACE; } => js_ccallback;
-    js_comment;
+    js_line_comment => { end_comment_at("</script>") };
+    js_block_comment;
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
     ^space     ${ entity = JS_ANY;   } => js_ccallback;
@@ -116,7 +117,8 @@ enum {
     jsp_java_outry @{ p = ts; fret; };
     # unmodified JAVA patterns
     spaces        ${ entity = JAVA_SPACE; } => java_ccallback;
-    java_comment;
+    java_line_comment => { end_comment_at("%>") };
+    java_block_comment;
     java_string;
     newline       ${ entity = NEWLINE;    } => java_ccallback;
     ^space        ${ entity = JAVA_ANY;   } => java_ccallback;
diff --git a/src/parsers/metapost_with_tex.rl b/src/parsers/metapost_with_tex.rl
index 64040d9..605bf7f 100644
--- a/src/parsers/metapost_with_tex.rl
+++ b/src/parsers/metapost_with_tex.rl
@@ -61,7 +61,7 @@ enum {
     mptex_tex_outry @{ p = ts; fret; };
     # unmodified Tex patterns
     spaces       ${ entity = TEX_SPACE; } => tex_ccallback;
-    tex_comment;
+    tex_comment => { end_comment_at("etex") };
     newline      ${ entity = NEWLINE;   } => tex_ccallback;
     ^space       ${ entity = TEX_ANY;   } => tex_ccallback;
   *|;
diff --git a/src/parsers/mxml.rl b/src/parsers/mxml.rl
index cc8eead..75cf7de 100644
--- a/src/parsers/mxml.rl
+++ b/src/parsers/mxml.rl
@@ -109,7 +109,8 @@ enum {
     mxml_as_outry @{ p = ts; fret; };
     # unmodified Actionscript patterns
     spaces      ${ entity = AS_SPACE; } => as_ccallback;
-    as_comment;
+    as_line_comment => { end_comment_at("</mx:Script>") };
+    as_block_comment;
     as_string;
     newline     ${ entity = NEWLINE;  } => as_ccallback;
     ^space      ${ entity = AS_ANY;   } => as_ccallback;
diff --git a/src/parsers/nix.rl b/src/parsers/nix.rl
index dad6d0b..c871ae6 100644
--- a/src/parsers/nix.rl
+++ b/src/parsers/nix.rl
@@ -68,7 +68,7 @@ enum {
     # TODO: Add embeded Nix between '${' and '}'
     # unmodified SHELL patterns
     spaces         ${ entity = SHELL_SPACE; } => shell_ccallback;
-    shell_comment;
+    shell_comment => { end_comment_at("\"") };
     shell_string;
     newline        ${ entity = NEWLINE;     } => shell_ccallback;
     ^space         ${ entity = SHELL_ANY;   } => shell_ccallback;
@@ -81,7 +81,7 @@ enum {
     # TODO: Add embeded Nix between '${' and '}'
     # unmodified SHELL patterns
     spaces         ${ entity = SHELL_SPACE; } => shell_ccallback;
-    shell_comment;
+    shell_comment => { end_comment_at("''") };
     shell_string;
     newline        ${ entity = NEWLINE;     } => shell_ccallback;
     ^space         ${ entity = SHELL_ANY;   } => shell_ccallback;
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 5a7d8c9..7f72496 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -104,7 +104,8 @@ enum {
     phtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
     spaces     ${ entity = JS_SPACE; } => js_ccallback;
-    js_comment;
+    js_line_comment => { end_comment_at("</script>") };
+    js_block_comment;
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
     ^space     ${ entity = JS_ANY;   } => js_ccallback;
@@ -116,7 +117,8 @@ enum {
     phtml_php_outry @{ p = ts; fret; };
     # unmodified PHP patterns
     spaces       ${ entity = PHP_SPACE; } => php_ccallback;
-    php_comment;
+    php_line_comment => { end_comment_at("?>") };
+    php_block_comment;
     php_string;
     newline      ${ entity = NEWLINE;   } => php_ccallback;
     ^space       ${ entity = PHP_ANY;   } => php_ccallback;
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index b1cdcf7..ab0e204 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -104,7 +104,8 @@ enum {
     rhtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
     spaces     ${ entity = JS_SPACE; } => js_ccallback;
-    js_comment;
+    js_line_comment => { end_comment_at("</script>") };
+    js_block_comment;
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
     ^space     ${ entity = JS_ANY;   } => js_ccallback;
@@ -116,7 +117,8 @@ enum {
     rhtml_ruby_outry @{ p = ts; fret; };
     # unmodified Ruby patterns
     spaces        ${ entity = RUBY_SPACE; } => ruby_ccallback;
-    ruby_comment;
+    ruby_line_comment => { end_comment_at("%>") };
+    ruby_block_comment;
     ruby_string;
     newline       ${ entity = NEWLINE;    } => ruby_ccallback;
     ^space        ${ entity = RUBY_ANY;   } => ruby_ccallback;
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index eeed854..739feb3 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -102,7 +102,8 @@ enum {
     vb_aspx_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
     spaces     ${ entity = JS_SPACE; } => js_ccallback;
-    js_comment;
+    js_line_comment => { end_comment_at("</script>") };
+    js_block_comment;
     js_string;
     newline    ${ entity = NEWLINE;  } => js_ccallback;
     ^space     ${ entity = JS_ANY;   } => js_ccallback;
@@ -114,7 +115,7 @@ enum {
     vb_aspx_cs_outry @{ p = ts; fret; };
     # unmodified VB patterns
     spaces        ${ entity = VB_SPACE; } => vb_ccallback;
-    vb_comment;
+    vb_comment => { end_comment_at("%>") end_comment_at("</script>") };
     vb_string;
     newline       ${ entity = NEWLINE;    } => vb_ccallback;
     ^space        ${ entity = VB_ANY;   } => vb_ccallback;
-- 
2.43.0


From 9f9376b391a7be166f30bd01451731124f6959df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:29 +0000
Subject: [PATCH 25/69] fix: a blank line inside a PHP string is blank

---
 src/parsers/php.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/php.rl b/src/parsers/php.rl
index d85f8e2..978f669 100644
--- a/src/parsers/php.rl
+++ b/src/parsers/php.rl
@@ -67,7 +67,7 @@ enum {
       |
       ws
       |
-      [^\r\n\f'\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @commit @code;
@@ -79,7 +79,7 @@ enum {
       |
       ws
       |
-      [^\r\n\f"\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @commit @code;
-- 
2.43.0


From 12c4bfd9c4f021ebe20c8816a5a63d159682d1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:05 +0000
Subject: [PATCH 26/69] fix: do not read before the file path when it has no
 extension

For a path without '.' and '/' the byte before the path decided whether the
whole path was taken for an extension.
---
 src/sourcefile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 27a7327..39921b8 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -30,7 +30,8 @@ SourceFile *ohcount_sourcefile_new(const char *filepath) {
 
   while (p > sourcefile->filepath && *(p - 1) != '.' &&
          *(p - 1) != '/' && *(p - 1) != '\\') p--;
-  sourcefile->ext = (*(p - 1) == '.') ? p : sourcefile->filepath + length;
+  sourcefile->ext = (p > sourcefile->filepath && *(p - 1) == '.') ?
+    p : sourcefile->filepath + length;
 
   while (p > sourcefile->filepath &&
          *(p - 1) != '/' && *(p - 1) != '\\') p--;
-- 
2.43.0


From dce58a537e1342936c27fefc375ba5ed139aa664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:05 +0000
Subject: [PATCH 27/69] fix: keep a source file's contents given in memory
 after parsing it

Parsing released contents that cannot be read again from the disk, so later
queries read another file's contents, or none.
---
 src/sourcefile.c | 9 +++++++--
 src/structs.h    | 6 ++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 39921b8..8ede370 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -43,6 +43,7 @@ SourceFile *ohcount_sourcefile_new(const char *filepath) {
   sourcefile->diskpath = NULL;
 
   sourcefile->contents = NULL;
+  sourcefile->contents_set = 0;
   sourcefile->size = -1;
 
   sourcefile->language = NULL;
@@ -77,6 +78,7 @@ void ohcount_sourcefile_set_contents(SourceFile *sourcefile,
   sourcefile->contents = malloc(size + 1);
   strncpy(sourcefile->contents, contents, size);
   sourcefile->contents[size] = '\0';
+  sourcefile->contents_set = 1;
   sourcefile->size = size;
 }
 
@@ -200,8 +202,11 @@ void ohcount_sourcefile_parse(SourceFile *sourcefile) {
     // undesirable build-up of memory until the SourceFileList is 'free'd.
     // While it is expensive to re-read the contents from the disk, it is
     // unlikely they will need to be accessed again after parsing.
-    free(sourcefile->contents); // field is guaranteed to exist
-    sourcefile->contents = NULL;
+    // Contents that were not read from the disk must be kept.
+    if (!sourcefile->contents_set) {
+      free(sourcefile->contents); // field is guaranteed to exist
+      sourcefile->contents = NULL;
+    }
   }
 }
 
diff --git a/src/structs.h b/src/structs.h
index 82cdfc0..4772b57 100644
--- a/src/structs.h
+++ b/src/structs.h
@@ -266,6 +266,12 @@ typedef struct {
    */
   char *contents;
 
+  /**
+   * Flag used internally for keeping track of whether or not the contents were
+   * given by ohcount_sourcefile_set_contents() rather than read from the disk.
+   */
+  int contents_set;
+
   /**
    * The size of the file's contents in bytes.
    * Do not use this field. Use ohcount_sourcefile_get_contents_size() instead.
-- 
2.43.0


From 6e9338aee1e6a2fd9dce2ca290836f866f3dceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:05 +0000
Subject: [PATCH 28/69] fix: do not read files of unknown or excessive size

When seeking failed, an unlimited number of bytes was read into a buffer of
no size.
---
 src/sourcefile.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 8ede370..85b1e87 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -2,6 +2,7 @@
 // See COPYING for license information.
 
 #include <dirent.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -89,11 +90,15 @@ char *ohcount_sourcefile_get_contents(SourceFile *sourcefile) {
       path = sourcefile->diskpath;
     FILE *f = fopen(path, "rb");
     if (f) {
-      fseek(f, 0, SEEK_END);
-      int size = ftell(f);
+      long length = -1;
+      if (fseek(f, 0, SEEK_END) == 0)
+        length = ftell(f);
       rewind(f);
+      // The size is unknown for files that cannot be read as a whole, like pipes
+      // and directories.
+      int size = (length >= 0 && length < INT_MAX - 5) ? length : 0;
       sourcefile->contents = malloc(size + 1);
-      if (fread(sourcefile->contents, size, 1, f) != 1) {
+      if (sourcefile->contents == NULL || fread(sourcefile->contents, size, 1, f) != 1) {
         free(sourcefile->contents);
         sourcefile->contents = NULL;
         sourcefile->size = 0;
-- 
2.43.0


From 53aff65753434fc4bd3c9f3f1a26017230834587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:05 +0000
Subject: [PATCH 29/69] fix: skip directory entries that vanish or whose path
 is too long

The walk used the previous entry's status for an entry that could not be
examined, and wrote past the path buffer for paths that are too long.
---
 src/sourcefile.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 85b1e87..45432ab 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -381,6 +381,8 @@ void ohcount_sourcefile_list_add_file(SourceFileList *list,
 void ohcount_sourcefile_list_add_directory(SourceFileList *list,
                                            const char *directory) {
   char filepath[FILENAME_MAX];
+  if (strlen(directory) + 1 >= sizeof(filepath))
+    return; // the path is too long
   strncpy(filepath, directory, strlen(directory));
   *(filepath + strlen(directory)) = '/';
   char *f_p = filepath + strlen(directory) + 1;
@@ -392,11 +394,12 @@ void ohcount_sourcefile_list_add_directory(SourceFileList *list,
     while ((file = readdir(d))) {
       struct stat st;
       int length = strlen(file->d_name);
+      if (f_p + length >= filepath + sizeof(filepath))
+        continue; // the path is too long
       strncpy(f_p, (const char *)file->d_name, length);
       *(f_p + length) = '\0';
 
-      lstat(filepath, &st);
-      if(S_ISLNK(st.st_mode))
+      if (lstat(filepath, &st) != 0 || S_ISLNK(st.st_mode))
         continue;
 
       if (S_ISDIR(st.st_mode) && *file->d_name != '.') // no hidden dirs
-- 
2.43.0


From ca043c4cfa0b24593bc6f85938387ac349ec2e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 30/69] fix: detection wrote beyond its line buffers

---
 src/detector.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 1611c5b..715bf89 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -146,7 +146,7 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
     while (pe < eof) {
       // Get the contents of the first line.
       while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-      length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+      length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
       strncpy(line, p, length);
       line[length] = '\0';
       if (*line == '#' && *(line + 1) == '!') {
@@ -166,7 +166,7 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
       }
       pe = p;
       while (!isspace(*pe) && *pe != ';' && pe != strstr(pe, "-*-")) pe++;
-      length = (pe - p <= sizeof(buf)) ? pe - p : sizeof(buf);
+      length = (pe - p < sizeof(buf)) ? pe - p : sizeof(buf) - 1;
       strncpy(buf, p, length);
       buf[length] = '\0';
 
@@ -323,7 +323,7 @@ const char *disambiguate_basic(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *line_end = pe;
@@ -550,7 +550,7 @@ const char *disambiguate_h(SourceFile *sourcefile) {
   // If the directory contains a matching *.m file, likely Objective C.
   length = strlen(sourcefile->filename);
   if (strcmp(sourcefile->ext, "h") == 0) {
-    char path[length];
+    char path[length + 1];
     strncpy(path, sourcefile->filename, length);
     path[length] = '\0';
     *(path + length - 1) = 'm';
@@ -572,7 +572,7 @@ const char *disambiguate_h(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
@@ -741,7 +741,7 @@ const char *disambiguate_m(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
@@ -1029,7 +1029,7 @@ const char *disambiguate_st(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
@@ -1066,7 +1066,7 @@ int ohcount_is_binary_filename(const char *filename) {
     re = ohcount_hash_language_from_ext(p, length);
     if (re) return ISBINARY(re->value);
     // Try the lower-case version of this extension.
-    char lowerext[length];
+    char lowerext[length + 1];
     strncpy(lowerext, p, length);
     lowerext[length] = '\0';
     for (p = lowerext; p < lowerext + length; p++) *p = tolower(*p);
-- 
2.43.0


From 37fd7ad4b7429baacbaba530a782f3517b04eefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 31/69] fix: an emacs mode line without an end was read beyond
 the line

---
 src/detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index 715bf89..006c9cd 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -165,7 +165,7 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
         while (*p == ' ' || *p == '\t' || *p == ':') p++;
       }
       pe = p;
-      while (!isspace(*pe) && *pe != ';' && pe != strstr(pe, "-*-")) pe++;
+      while (*pe && !isspace(*pe) && *pe != ';' && pe != strstr(pe, "-*-")) pe++;
       length = (pe - p < sizeof(buf)) ? pe - p : sizeof(buf) - 1;
       strncpy(buf, p, length);
       buf[length] = '\0';
-- 
2.43.0


From 5e20f1e7ffc4cf72c692de229c24334809512172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 32/69] fix: only the first directive of an .aspx file was
 examined

---
 src/detector.c | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 006c9cd..f7910f4 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -233,21 +233,14 @@ const char *disambiguate_aspx(SourceFile *sourcefile) {
     if (!p)
 			break;
     char *pe = strstr(p, "%>");
-    if (p && pe) {
-      p += 3;
-      const int length = pe - p;
-      char buf[length];
-      strncpy(buf, p, length);
-      buf[length] = '\0';
-      char *eol = buf + strlen(buf);
-      for (p = buf; p < eol; p++) *p = tolower(*p);
-      p = buf;
-      while (*p == ' ' || *p == '\t') p++;
-      if (strncmp(p, "page", 4) == 0) {
-        p += 4;
-        if (strstr(p, "language=\"vb\""))
+    if (!pe)
+      break;
+    p += 3;
+    while (isspace(*p)) p++;
+    if (strncasecmp(p, "page", 4) == 0) {
+      for (; p < pe; p++)
+        if (strncasecmp(p, "language=\"vb\"", 13) == 0)
           return LANG_VB_ASPX;
-      }
     }
   }
   return LANG_CS_ASPX;
-- 
2.43.0


From b23bd32f872e9d57cd51d6970749f99f0a6ae938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 33/69] fix: a keyword at the start of a header's line was
 judged by the byte before the buffer

---
 src/detector.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index f7910f4..ae1244a 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -537,7 +537,7 @@ const char *disambiguate_fortran(SourceFile *sourcefile) {
 }
 
 const char *disambiguate_h(SourceFile *sourcefile) {
-  char *p, *pe, *bof;
+  char *p, *pe;
   int length;
 
   // If the directory contains a matching *.m file, likely Objective C.
@@ -558,8 +558,7 @@ const char *disambiguate_h(SourceFile *sourcefile) {
 
   // Attempt to detect based on file contents.
   char line[81], buf[81];
-  bof = ohcount_sourcefile_get_contents(sourcefile);
-  p = bof;
+  p = ohcount_sourcefile_get_contents(sourcefile);
   pe = p;
   char *eof = p + ohcount_sourcefile_get_contents_size(sourcefile);
   while (pe < eof) {
@@ -606,7 +605,8 @@ const char *disambiguate_h(SourceFile *sourcefile) {
     // Look for C++ keywords.
     p = line;
     while (p < eol) {
-      if (islower(*p) && p != bof && !isalnum(*(p - 1)) && *(p - 1) != '_') {
+      if (islower(*p) &&
+          (p == line || (!isalnum(*(p - 1)) && *(p - 1) != '_'))) {
         pe = p;
         while (islower(*pe)) pe++;
         if (!isalnum(*pe) && *pe != '_') {
-- 
2.43.0


From 053e501661e250dd7639db35f8e7acfcbb9c5ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 34/69] fix: the in rule wrote beyond its buffer and took names
 without a dot

---
 src/detector.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index ae1244a..4764cbc 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -640,10 +640,11 @@ const char *disambiguate_in(SourceFile *sourcefile) {
 
   p = sourcefile->filepath;
   pe = p + strlen(p) - 3;
-  if (strstr(p, ".") <= pe) {
+  char *dot = strstr(p, ".");
+  if (dot && dot <= pe) {
     // Only if the filename has an extension prior to the .in
     length = pe - p;
-    char buf[length];
+    char buf[length + 1];
     strncpy(buf, p, length);
     buf[length] = '\0';
     p = ohcount_sourcefile_get_contents(sourcefile);
-- 
2.43.0


From 5482ad50806c6e805a2a81956ad5a99fe51cd8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 35/69] fix: Limbo include lines were not recognised

---
 src/detector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/detector.c b/src/detector.c
index 4764cbc..3edd2ca 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -285,6 +285,7 @@ const char *disambiguate_b(SourceFile *sourcefile) {
       p += 7;
       while (*p == ' ' || *p == '\t') p++;
       if (*p == '"') {
+        p++;
         while (*p != '"' && p < eof) p++;
         if (*p == '"' && *(p + 1) == ';')
           return LANG_LIMBO;
@@ -774,6 +775,7 @@ const char *disambiguate_m(SourceFile *sourcefile) {
       if (*p == ' ' || *p == '\t') {
         while (*p == ' ' || *p == '\t') p++;
         if (*p == '"') {
+          p++;
           while (*p != '"' && p < eol) p++;
           if (*p == '"' && *(p - 2) == '.' && *(p - 1) == 'm')
             limbo_score++;
-- 
2.43.0


From 54a7cb1b64aabfec44c158e8d35dc604fe2db046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 36/69] fix: the answer of libmagic was read before its start

---
 src/detector.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 3edd2ca..773d02b 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -55,12 +55,12 @@ const char *magic_parse(char *line) {
   p = strstr(line, "script"); // Example: "PHP script, ASCII text"
   if (p) {
     do {
-      p--;
+      if (p > line) p--;
       pe = p;
-      while (*p == ' ') p--;
+      while (p > line && *p == ' ') p--;
       while (p != line && isalnum(*(p - 1))) p--;
       if (p != line && *(p - 1) == '-') p--;
-    } while (*p == '-'); // Skip over any switches.
+    } while (*p == '-' && p > line); // Skip over any switches.
     length = pe - p;
     strncpy(buf, p, length);
     buf[length] = '\0';
@@ -98,7 +98,10 @@ const char *detect_language_magic(SourceFile *sourcefile) {
     line[sizeof(line)-1] = '\0';
   } else {
     char *p = ohcount_sourcefile_get_contents(sourcefile);
-    if (!p) return NULL;
+    if (!p) {
+      magic_close(cookie);
+      return NULL;
+    }
 
     const char *magic = magic_buffer(cookie, p, strlen(p));
     if (magic == NULL) {
-- 
2.43.0


From dd8dc61ab4172ce7eb62c697f3da0983156b5463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 37/69] fix: companions of a .m file were recognised only with
 names of one letter

---
 src/detector.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 773d02b..74637ae 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -712,12 +712,14 @@ const char *disambiguate_m(SourceFile *sourcefile) {
           has_c_files = 1;
           break; // short circuit
         }
-      } else if (pe - p >= 3) {
+      }
+      if (pe - p >= 3) {
         if (*(pe - 3) == '.' && *(pe - 2) == 'c' && *(pe - 1) == 'c') {
           has_c_files = 1;
           break; // short circuit
         }
-      } else if (pe - p >= 2) {
+      }
+      if (pe - p >= 2) {
         if (*(pe - 2) == '.') {
           if (*(pe - 1) == 'h')
             has_h_headers = 1;
-- 
2.43.0


From a41112c9b10937cef1477b600f84419c2af44eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 38/69] fix: Octave keywords at the start of a line were not
 recognised

---
 src/detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index 74637ae..4b9dbd8 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -791,7 +791,7 @@ const char *disambiguate_m(SourceFile *sourcefile) {
     // Look for Octave keywords.
     p = line;
     while (p < eol) {
-      if (islower(*p) && p != line && !isalnum(*(p - 1))) {
+      if (islower(*p) && (p == line || !isalnum(*(p - 1)))) {
         pe = p;
         while (islower(*pe) || *pe == '_') pe++;
         if (!isalnum(*pe)) {
-- 
2.43.0


From 5a544e8e162d7ccb307c90f9b8c4a12d33c5cee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 39/69] fix: markers at the very end of .r and .rs files were
 not recognised

---
 src/detector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 4b9dbd8..2ba60e6 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -979,7 +979,7 @@ const char *disambiguate_r(SourceFile *sourcefile) {
   // block.
   char *needle = "rebol";
   int len = strlen(needle);
-  for (; contents < eof - len; ++contents)
+  for (; contents <= eof - len; ++contents)
     if (tolower(*contents) == *needle &&
           !strncasecmp(contents, needle, len))
       return LANG_REBOL;
@@ -1007,7 +1007,7 @@ const char *disambiguate_rs(SourceFile *sourcefile) {
 
   char *eof = contents + ohcount_sourcefile_get_contents_size(sourcefile);
 
-  for (; contents < eof - len; ++contents) {
+  for (; contents <= eof - len; ++contents) {
     if (!strncmp(contents, needle, len)) {
       return NULL;
     }
-- 
2.43.0


From e9964bc5be734738f3601cc6f5cc4398172f7856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 40/69] fix: short and leading empty lines made fixed form
 Fortran free

---
 src/detector.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index 2ba60e6..8eae491 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -489,6 +489,8 @@ const char *disambiguate_fortran(SourceFile *sourcefile) {
       blanklabel = (*p == ' ' || *p == '\t');
       while (*p != '\r' && *p != '\n' && p < eof) {
         p++; i++;
+        if (p == eof || *p == '\r' || *p == '\n')
+          break;
         if (i <= 5) {
           blanklabel = blanklabel && (*p == ' ');
           if ( !isdigit(*p) && *p != ' ' && *p != '!')
@@ -527,7 +529,8 @@ const char *disambiguate_fortran(SourceFile *sourcefile) {
       }
     } else {
       // Not a statement line in fixed format...
-      if (*p != 'C' && *p != 'c' && *p != '*' && *p != '!')
+      if (*p != 'C' && *p != 'c' && *p != '*' && *p != '!' &&
+          *p != '\r' && *p != '\n')
         // Not a valid fixed form comment, has to be free formatted source
         return LANG_FORTRANFREE;
       // Comment in fixed form, ignore this line
-- 
2.43.0


From 3da6e4662a1a2184e3f1518517866dde51c77386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:40 +0000
Subject: [PATCH 41/69] fix: only the licenses of a file's last language were
 reported

---
 src/licenses.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/licenses.c b/src/licenses.c
index 6cbaae6..215bfc3 100644
--- a/src/licenses.c
+++ b/src/licenses.c
@@ -767,7 +767,7 @@ void compile_regexps() {
 #define OVERRIDE_LICENSE(l, with) { \
   if (strcmp(license_map[i].name, l) == 0) { \
     for (j = 0; j < license_map_length; j++) \
-      if (potential_licenses_s[j] > -1 && \
+      if (found_licenses[j] && \
           strcmp(license_map[j].name, with) == 0) { \
         overridden = 1; \
         break; \
@@ -794,6 +794,10 @@ LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
   if (iter_language) {
     int potential_licenses_s[license_map_length];
     int potential_licenses_e[license_map_length];
+    // Licenses found in the comments of any language.
+    int found_licenses[license_map_length];
+    for (i = 0; i < license_map_length; i++)
+      found_licenses[i] = 0;
 
     while (iter_language) {
       // Before looking for licenses, strip whitespace and newlines
@@ -853,12 +857,16 @@ LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
           }
         }
       }
+      for (j = 0; j < license_map_length; j++)
+        if (potential_licenses_s[j] > -1)
+          found_licenses[j] = 1;
+      free(buffer);
       iter_language = iter_language->next;
     }
 
     // Create the list of licenses from potential licenses.
     for (i = 0; i < license_map_length; i++) {
-      if (potential_licenses_s[i] > -1) {
+      if (found_licenses[i]) {
         int overridden = 0;
         OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3);
         OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3_OR_LATER);
-- 
2.43.0


From 5e0616f57df2ecb8a587c6227e1f62e81e90bf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:40 +0000
Subject: [PATCH 42/69] fix: a log file that cannot be written crashed the diff

---
 src/log.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/log.c b/src/log.c
index d28686d..1b23732 100644
--- a/src/log.c
+++ b/src/log.c
@@ -4,6 +4,8 @@
 #define LOG_FILE "/tmp/ohcount.log"
 void log_it(char *log) {
 	FILE *f = fopen(LOG_FILE, "a");
+	if (!f)
+		return;
 	fputs(log, f);
 	fclose(f);
 }
-- 
2.43.0


From aae409ab905629ecc5cf38d3a8b3d6b8eb9359bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:17 +0000
Subject: [PATCH 43/69] fix: lines that end with a carriage return or form feed
 were diffed as one

---
 src/diff.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/diff.c b/src/diff.c
index 13f1922..2618ff1 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -292,6 +292,31 @@ static int compare_text(const void *a, const void *b) {
   return strcmp((*(struct line **)a)->text, (*(struct line **)b)->text);
 }
 
+/**
+ * Terminates the next non-empty line of a string buffer.
+ * A line ends at a newline, a form feed, or a carriage return; that of a
+ * carriage return and a newline is left in the line.
+ * @param pos The position to look from; set to the position after the line.
+ * @return the line, or NULL if there is none.
+ */
+static char *next_line(char **pos) {
+  char *l = *pos, *e;
+
+  while(*l == '\n' || *l == '\f' || (*l == '\r' && l[1] != '\n'))
+    l++;
+  if(*l == '\0')
+    return NULL;
+  e = l;
+  while(*e != '\0' && *e != '\n' && *e != '\f' && (*e != '\r' || e[1] == '\n'))
+    e++;
+  *pos = e;
+  if(*e != '\0') {
+    *e = '\0';
+    (*pos)++;
+  }
+  return l;
+}
+
 /**
  * Splits the given string buffer into lines and stores them internally.
  * @param i 0 for diff 'from', 1 for diff 'to'.
@@ -300,16 +325,15 @@ static int compare_text(const void *a, const void *b) {
 void prepare(int i, const char *buf) {
   struct line *p;
   int j;
-  char *l;
+  char *l, *pos;
 
   p = malloc(3*sizeof(struct line));
   j = 0;
   text[i] = strdup(buf);
-  l = strtok(text[i], "\n");
-  while (l) {
+  pos = text[i];
+  while ((l = next_line(&pos))) {
     p = realloc(p, (++j+3)*sizeof(struct line));
     p[j].text = l;
-    l = strtok(NULL, "\n");
   }
   len[i] = j;
   file[i] = p;
-- 
2.43.0


From 7e49f3934e2a9eb37ba01fc5a20c80effc8ce9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 44/69] fix: the long name of the WTF Public License was not
 recognised

---
 src/licenses.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/licenses.c b/src/licenses.c
index 215bfc3..439a0c1 100644
--- a/src/licenses.c
+++ b/src/licenses.c
@@ -724,7 +724,7 @@ License license_map[] = {
     LIC_WTFPL2,
     "",
     "WTF Public License",
-    "(\\bwtfpl\\b)|(\\bwtf\\s*public\\s*license\\b)|(\\b(do\\s*)?what\\s*the\\s*\\fuck\\s*public\\s*license\\b)",
+    "(\\bwtfpl\\b)|(\\bwtf\\s*public\\s*license\\b)|(\\b(do\\s*)?what\\s*the\\s*fuck\\s*public\\s*license\\b)",
     PCRE_CASELESS,
     NULL,
     0,
-- 
2.43.0


From 7c198c97121f5c00fc1d88ddbf888a5fd8b46e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 45/69] fix: an Apache-style license took in all licenses named
 after it

---
 src/licenses.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/licenses.c b/src/licenses.c
index 439a0c1..67a1447 100644
--- a/src/licenses.c
+++ b/src/licenses.c
@@ -694,7 +694,7 @@ License license_map[] = {
     LIC_APACHE_ISH,
     "",
     "Apache-ish License",
-    "(\\bapache-style.*license\\b)|(\\bapache-like.*license\\b)",
+    "(\\bapache-style.*?license\\b)|(\\bapache-like.*?license\\b)",
     PCRE_CASELESS,
     NULL,
     0,
-- 
2.43.0


From f1106dccc919b60be5831f86c144e52c0b2673c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:13 +0000
Subject: [PATCH 46/69] fix: CoffeeScript, TeX dtx and Octave had no name or
 display name

---
 src/hash/languages.gperf | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hash/languages.gperf b/src/hash/languages.gperf
index 20e57c0..01b416a 100755
--- a/src/hash/languages.gperf
+++ b/src/hash/languages.gperf
@@ -24,7 +24,7 @@ clearsilver, LANG_CLEARSILVER, "ClearSilver", 0
 clearsilver_template, LANG_CLEARSILVER_TEMPLATE, "ClearSilver", 0
 clojure, LANG_CLOJURE, "Clojure", 0
 cmake, LANG_CMAKE, "Cmake script", 2
-coffescript, LANG_COFFEESCRIPT, "CoffeeScript", 0
+coffeescript, LANG_COFFEESCRIPT, "CoffeeScript", 0
 coq, LANG_COQ, "Coq", 0
 cpp, LANG_CPP, "C++", 0
 crystal, LANG_CRYSTAL, "Crystal", 0
@@ -86,7 +86,7 @@ oberon, LANG_OBERON, "Oberon", 0
 objective_c, LANG_OBJECTIVE_C, "Objective-C", 0
 objective_j, LANG_OBJECTIVE_J, "Objective-J", 0
 ocaml, LANG_OCAML, "Objective Caml", 0
-octave, LANG_OCTAVE, "", 0
+octave, LANG_OCTAVE, "Octave", 0
 pascal, LANG_PASCAL, "Pascal", 0
 perl, LANG_PERL, "Perl", 0
 php, LANG_PHP, "PHP", 0
@@ -115,6 +115,7 @@ sql, LANG_SQL, "SQL", 0
 swift, LANG_SWIFT, "Swift", 0
 tcl, LANG_TCL, "TCL", 0
 tex, LANG_TEX, "TeX/LaTeX", 1
+tex_dtx, LANG_TEX_DTX, "TeX documented source", 1
 umple, LANG_UMPLE, "Umple", 0
 unrealscript, LANG_UNREALSCRIPT, "UnrealScript", 0
 typescript, LANG_TYPESCRIPT, "TypeScript", 0
-- 
2.43.0


From 74599bc4c4b6883a19c1f7abed20aab224289124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:35 +0000
Subject: [PATCH 47/69] fix: an empty file on disk was treated as one that
 cannot be read

---
 src/sourcefile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 45432ab..1d77cc2 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -98,7 +98,8 @@ char *ohcount_sourcefile_get_contents(SourceFile *sourcefile) {
       // and directories.
       int size = (length >= 0 && length < INT_MAX - 5) ? length : 0;
       sourcefile->contents = malloc(size + 1);
-      if (sourcefile->contents == NULL || fread(sourcefile->contents, size, 1, f) != 1) {
+      if (sourcefile->contents == NULL || length != size ||
+          (size > 0 && fread(sourcefile->contents, size, 1, f) != 1)) {
         free(sourcefile->contents);
         sourcefile->contents = NULL;
         sourcefile->size = 0;
-- 
2.43.0


From 0ff0547a08f08d05cdd0124932661ec444942368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 48/69] fix: annotated lines were cut at a NUL and one byte was
 written beyond their buffer

---
 src/ohcount.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ohcount.c b/src/ohcount.c
index ccf7c35..86a9fcf 100644
--- a/src/ohcount.c
+++ b/src/ohcount.c
@@ -12,11 +12,8 @@
 void annotate_callback(const char *language, const char *entity, int start,
                        int end, void *userdata) {
   SourceFile *sf = (SourceFile *)userdata;
-  int length = end - start;
-  char buf[length];
-  strncpy(buf, (const char*)sf->contents + start, length); // field exists
-  buf[length] = '\0';
-  printf("%s\t%s\t%s", language, entity, buf);
+  printf("%s\t%s\t", language, entity);
+  fwrite(sf->contents + start, 1, end - start, stdout); // field exists
 }
 
 void annotate(SourceFileList *list) {
-- 
2.43.0


From 544287103e2ddadf96af9b94c65855e0bbea63d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 49/69] fix: a last line without an end was annotated on one
 line with the next file's first

---
 src/ohcount.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ohcount.c b/src/ohcount.c
index 86a9fcf..e82dcff 100644
--- a/src/ohcount.c
+++ b/src/ohcount.c
@@ -14,6 +14,8 @@ void annotate_callback(const char *language, const char *entity, int start,
   SourceFile *sf = (SourceFile *)userdata;
   printf("%s\t%s\t", language, entity);
   fwrite(sf->contents + start, 1, end - start, stdout); // field exists
+  if (sf->contents[end - 1] != '\n')
+    putchar('\n'); // the next line must start at the left margin
 }
 
 void annotate(SourceFileList *list) {
-- 
2.43.0


From d2a2e806b6e40e12c4d2df58ec05d4f7df854bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 50/69] fix: detect printed the name (null) for files without a
 language

---
 src/ohcount.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ohcount.c b/src/ohcount.c
index e82dcff..14cd1bd 100644
--- a/src/ohcount.c
+++ b/src/ohcount.c
@@ -30,8 +30,9 @@ void annotate(SourceFileList *list) {
 void detect(SourceFileList *list) {
   SourceFileList *iter = list->head;
   while (iter) {
-    printf("%s\t%s\n", ohcount_sourcefile_get_language(iter->sf),
-           iter->sf->filepath);
+    const char *language = ohcount_sourcefile_get_language(iter->sf);
+    if (language)
+      printf("%s\t%s\n", language, iter->sf->filepath);
     iter = iter->next;
   }
 }
-- 
2.43.0


From b5e42dbe98001d4619c8f83b8ea28567580b5b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 51/69] fix: Limbo entities had a name from beyond the table of
 names

---
 src/parsers/limbo.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/limbo.rl b/src/parsers/limbo.rl
index 8cd8650..dff391e 100644
--- a/src/parsers/limbo.rl
+++ b/src/parsers/limbo.rl
@@ -109,7 +109,7 @@ enum {
     limbo_keyword_entity ${ entity = LIMBO_KEYWORD; } => limbo_ecallback;
     limbo_identifier_entity ${ entity = LIMBO_IDENTIFIER; } => limbo_ecallback;
     limbo_operator_entity ${ entity = LIMBO_OPERATOR; } => limbo_ecallback;
-    ^(space | digit)     ${ entity = C_ANY;         } => limbo_ecallback;
+    ^(space | digit | '#') ${ entity = LIMBO_ANY;    } => limbo_ecallback;
   *|;
 }%%
 
-- 
2.43.0


From d31b834cbe16f4b62c4b35e9b4053d4a2b3753b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:21 +0000
Subject: [PATCH 52/69] fix: a Rebol comment of one character was reported as
 any

---
 src/parsers/rebol.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/rebol.rl b/src/parsers/rebol.rl
index dd5a9db..7238449 100644
--- a/src/parsers/rebol.rl
+++ b/src/parsers/rebol.rl
@@ -104,7 +104,7 @@ enum {
     space+                  ${ entity = REBOL_SPACE; }      => rebol_ecallback;
     rebol_comment_entity    ${ entity = REBOL_COMMENT; }    => rebol_ecallback;
     rebol_string_entiy      ${ entity = REBOL_STRING; }     => rebol_ecallback;
-    ^space                  ${ entity = REBOL_ANY; }        => rebol_ecallback;
+    ^(space | ';')          ${ entity = REBOL_ANY; }        => rebol_ecallback;
   *|;
 
 }%%
-- 
2.43.0


From ac8f83da1f9acb21dceb3a615c8e28638abbebc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:40 +0000
Subject: [PATCH 53/69] fix: Modelica comments and strings were not reported as
 entities

---
 src/parsers/modelica.rl | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/parsers/modelica.rl b/src/parsers/modelica.rl
index 4a9b387..3dac001 100644
--- a/src/parsers/modelica.rl
+++ b/src/parsers/modelica.rl
@@ -80,24 +80,17 @@ enum {
     callback(MODELICA_LANG, modelica_entities[entity], cint(ts), cint(te), userdata);
   }
 
-  modelica_eline_comment = '//' @comment nonnewline*;
+  modelica_eline_comment = '//' nonnewline*;
 
-  modelica_eblock_comment =
-    '/*' @comment (
-      newline %{ entity = INTERNAL_NL; } %modelica_ccallback
-      |
-      ws
-      |
-      (nonnewline - ws) @comment
-    )* :>> '*/';
+  modelica_eblock_comment = '/*' any* :>> '*/';
 
-  modelica_ecomment = modelica_line_comment | modelica_block_comment;
+  modelica_ecomment = modelica_eline_comment | modelica_eblock_comment;
 
   modelica_entity := |*
     space+             ${ entity = MODELICA_SPACE;   } => modelica_ecallback;
     modelica_ecomment ${ entity = MODELICA_COMMENT; } => modelica_ecallback;
     identifier   ${ entity = MODELICA_ANY; } => modelica_ecallback;
-    string       ${ entity = MODELICA_ANY; } => modelica_ecallback;
+    dq_str_with_escapes ${ entity = MODELICA_STRING; } => modelica_ecallback;
     ^space;
   *|;
 }%%
-- 
2.43.0


From 559e54db5646c43ee5d646d54c99869dc65d1faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:58 +0000
Subject: [PATCH 54/69] fix: NSIS comments that start with a semicolon were not
 reported as entities

---
 src/parsers/nsis.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/nsis.rl b/src/parsers/nsis.rl
index 8b21586..18ae37c 100644
--- a/src/parsers/nsis.rl
+++ b/src/parsers/nsis.rl
@@ -74,7 +74,7 @@ enum {
     callback(NSIS_LANG, nsis_entities[entity], cint(ts), cint(te), userdata);
   }
 
-  nsis_line_comment_entity = ('#' | '//') nonnewline*;
+  nsis_line_comment_entity = ('#' | ';') nonnewline*;
   nsis_block_comment_entity = '/*' any* :>> '*/';
   nsis_comment_entity = nsis_line_comment_entity | nsis_block_comment_entity;
 
-- 
2.43.0


From 71d8ce8425cd7c0f020d28e3eccec3e5c11a2747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:16 +0000
Subject: [PATCH 55/69] fix: nested Kotlin comments ended early in entity
 reports

---
 src/parsers/kotlin.rl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parsers/kotlin.rl b/src/parsers/kotlin.rl
index 53c2af5..e4d769e 100644
--- a/src/parsers/kotlin.rl
+++ b/src/parsers/kotlin.rl
@@ -94,7 +94,13 @@ enum {
   }
 
   kotlin_line_comment_entity = '//' nonnewline*;
-  kotlin_block_comment_entity = '/*' any* :>> '*/';
+  kotlin_block_comment_entity = '/*' >kotlin_comment_nc_res (
+    '/*' @kotlin_comment_nc_inc
+    |
+    '*/' @kotlin_comment_nc_dec
+    |
+    any
+  )* :>> ('*/' when { kotlin_comment_nest_count == 0 && p > nest_last });
   kotlin_comment_entity = kotlin_line_comment_entity | kotlin_block_comment_entity;
 
   kotlin_raw_string_entity = '"""' any* :>> '"""';
-- 
2.43.0


From cb2b461c59d32fbccf23646ade2591533482fb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:37 +0000
Subject: [PATCH 56/69] fix: a failure of libmagic ended the process

---
 src/detector.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 8eae491..01afe69 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -79,12 +79,12 @@ const char *detect_language_magic(SourceFile *sourcefile) {
   magic_t cookie = magic_open(MAGIC_NONE);
   if (cookie == NULL) {
     fprintf(stderr, "libmagic: %s\n", magic_error(cookie));
-    exit(1);
+    return NULL;
   }
   if (magic_load(cookie, NULL) != 0) {
     fprintf(stderr, "libmagic: %s\n", magic_error(cookie));
     magic_close(cookie);
-    exit(1);
+    return NULL;
   }
 
   if (sourcefile->diskpath) {
@@ -92,7 +92,7 @@ const char *detect_language_magic(SourceFile *sourcefile) {
     if (magic == NULL) {
       fprintf(stderr, "libmagic: %s\n", magic_error(cookie));
       magic_close(cookie);
-      exit(1);
+      return NULL;
     }
     strncpy(line, magic, sizeof(line));
     line[sizeof(line)-1] = '\0';
@@ -107,7 +107,7 @@ const char *detect_language_magic(SourceFile *sourcefile) {
     if (magic == NULL) {
       fprintf(stderr, "libmagic: %s\n", magic_error(cookie));
       magic_close(cookie);
-      exit(1);
+      return NULL;
     }
     strncpy(line, magic, sizeof(line));
     line[sizeof(line)-1] = '\0';
-- 
2.43.0


From 4225588e1f261619549a0f854eff703b3e612831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:08 +0000
Subject: [PATCH 57/69] fix: companion file names given in Ruby were used after
 their strings were changed or collected

---
 ruby/ohcount.i | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ruby/ohcount.i b/ruby/ohcount.i
index 38212fa..5ff36bb 100644
--- a/ruby/ohcount.i
+++ b/ruby/ohcount.i
@@ -4,6 +4,14 @@
 #include "../src/detector.h"
 #include "../src/languages.h"
 #include "../src/sourcefile.h"
+
+static void free_filenames(char **filenames) {
+  int i;
+  if (filenames)
+    for (i = 0; filenames[i] != NULL; i++)
+      free(filenames[i]);
+  free(filenames);
+}
 %}
 
 %include typemaps.i
@@ -114,8 +122,10 @@
     int i, length = RARRAY_LEN(filenames);
     char **fnames = calloc(length + 1, sizeof(char *));
     VALUE *iter = RARRAY_PTR(filenames);
+    // The strings of the array may be changed or collected: keep copies.
     for (i = 0; i < length; i++, iter++)
-      fnames[i] = StringValuePtr(*iter);
+      fnames[i] = strdup(StringValuePtr(*iter));
+    free_filenames(self->filenames);
     self->filenames = fnames;
   }
   SourceFile(const char *filepath, VALUE opt_hash=NULL) {
@@ -203,8 +213,12 @@
 
 #endif
   ~SourceFile() {
+#if defined(SWIGRUBY)
+    free_filenames(self->filenames);
+#else
     if (self->filenames)
       free(self->filenames);
+#endif
     ohcount_sourcefile_free(self);
   }
 };
-- 
2.43.0


From 6e59b4f2ea528ac3b4c64c7129757ce08700c4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:08 +0000
Subject: [PATCH 58/69] fix: reading filenames or contents that a file does not
 have failed in Ruby

---
 ruby/ohcount.i  | 2 +-
 ruby/ohcount.rb | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruby/ohcount.i b/ruby/ohcount.i
index 5ff36bb..958ce8f 100644
--- a/ruby/ohcount.i
+++ b/ruby/ohcount.i
@@ -27,7 +27,7 @@ static void free_filenames(char **filenames) {
 %typemap(out) char ** {
   VALUE arr = rb_ary_new();
   int i;
-  for (i = 0; $1[i] != NULL; i++)
+  for (i = 0; $1 != NULL && $1[i] != NULL; i++)
     rb_ary_push(arr, rb_str_new2($1[i]));
   $result = arr;
 };
diff --git a/ruby/ohcount.rb b/ruby/ohcount.rb
index 7596a69..f67fe98 100644
--- a/ruby/ohcount.rb
+++ b/ruby/ohcount.rb
@@ -16,7 +16,7 @@ module Ohcount
 
     def contents
       data = get_contents()
-      data.force_encoding(Encoding.default_external)
+      data.force_encoding(Encoding.default_external) if data
     end
 
     def language_breakdowns
-- 
2.43.0


From 0f11caf4da200210c37ec0e8b41943030b550b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:19 +0000
Subject: [PATCH 59/69] fix: parts of collected files and lists were used in
 Ruby

---
 ruby/ohcount.rb | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ruby/ohcount.rb b/ruby/ohcount.rb
index f67fe98..b30496e 100644
--- a/ruby/ohcount.rb
+++ b/ruby/ohcount.rb
@@ -62,7 +62,10 @@ module Ohcount
       array = Array.new
       iter = list.head
       while (iter)
-        array << iter.send(method)
+        item = iter.send(method)
+        # The item is part of this file and must not outlive it.
+        item.instance_variable_set(:@source_file, self)
+        array << item
         iter = iter.next
       end
       return array
@@ -73,7 +76,10 @@ module Ohcount
     def each_source_file
       iter = self.head
       while (iter)
-        yield iter.sf if iter.sf.polyglot
+        sf = iter.sf
+        # The file is part of this list and must not outlive it.
+        sf.instance_variable_set(:@source_file_list, self)
+        yield sf if sf.polyglot
         iter = iter.next
       end
     end
-- 
2.43.0


From a41c2490e42232aabaa1635dc056d46672305c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:38 +0000
Subject: [PATCH 60/69] fix: finding the gestalts of a list of files failed in
 Ruby

---
 ruby/gestalt/base.rb           | 4 +++-
 ruby/gestalt/gestalt_engine.rb | 8 +++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ruby/gestalt/base.rb b/ruby/gestalt/base.rb
index 7584c17..fd91c5b 100644
--- a/ruby/gestalt/base.rb
+++ b/ruby/gestalt/base.rb
@@ -29,7 +29,9 @@ module Ohcount
 
       # will return an array of detected gestalts from a source_file_list
       def self.find_gestalts(source_file_list)
-        GestaltEngine.new.process(source_file_list).gestalts
+        engine = GestaltEngine.new
+        engine.process(source_file_list)
+        engine.calc_gestalts
       end
 
     end
diff --git a/ruby/gestalt/gestalt_engine.rb b/ruby/gestalt/gestalt_engine.rb
index a7ecae0..80bac74 100644
--- a/ruby/gestalt/gestalt_engine.rb
+++ b/ruby/gestalt/gestalt_engine.rb
@@ -27,8 +27,10 @@ module Ohcount
       end
 
       def process_source_files(source_file_list)
-        source_file_list.each_source_file do |source_file|
-          process_source_file source_file
+        iter = source_file_list.head
+        while (iter)
+          process_source_file iter.sf
+          iter = iter.next
         end
         self
       end
@@ -37,7 +39,7 @@ module Ohcount
         if what.is_a?(SourceFile)
           process_source_file(what)
         elsif what.is_a?(SourceFileList)
-          process_source_file_list(what)
+          process_source_files(what)
         else
           raise ArgumentError.new
         end
-- 
2.43.0


From e63abb85406ad95f49edb7aa0e4f0a1b97f1bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:38 +0000
Subject: [PATCH 61/69] fix: options of keywords in any language were taken for
 a keyword

---
 ruby/gestalt/rules/logical_rule.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/gestalt/rules/logical_rule.rb b/ruby/gestalt/rules/logical_rule.rb
index 32d1856..ec401e3 100644
--- a/ruby/gestalt/rules/logical_rule.rb
+++ b/ruby/gestalt/rules/logical_rule.rb
@@ -66,7 +66,7 @@ module Ohcount
 			end
 
 			def keywords(*args)
-				new_rule KeywordRule, *([nil] << args)
+				new_rule KeywordRule, *([nil] + args)
 			end
 
 			def c_keywords(*args)
-- 
2.43.0


From 65d376c9acd79d487e7e6cc78a7758080564a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:38 +0000
Subject: [PATCH 62/69] fix: C headers included with a tab or without a space
 were not recognized

---
 ruby/gestalt/rules/c_header_rule.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/gestalt/rules/c_header_rule.rb b/ruby/gestalt/rules/c_header_rule.rb
index fbbb630..4f2e930 100644
--- a/ruby/gestalt/rules/c_header_rule.rb
+++ b/ruby/gestalt/rules/c_header_rule.rb
@@ -23,7 +23,7 @@ module Ohcount
 			def regexp
 				@regexp ||= begin
 					header_term = "(" + headers.join("|") + ")"
-					Regexp.new("include\s+['<\"]#{ header_term }[\">']", Regexp::IGNORECASE)
+					Regexp.new("include\\s*['<\"]#{ header_term }[\">']", Regexp::IGNORECASE)
 				end
 			end
 		end
-- 
2.43.0


From 5d7e05edd920be354ddb517feb8ec00e0d167aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:38 +0000
Subject: [PATCH 63/69] fix: a language without code had no percentage when no
 code was found at all

---
 ruby/gestalt/gestalt_engine.rb | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruby/gestalt/gestalt_engine.rb b/ruby/gestalt/gestalt_engine.rb
index 80bac74..f03d289 100644
--- a/ruby/gestalt/gestalt_engine.rb
+++ b/ruby/gestalt/gestalt_engine.rb
@@ -100,6 +100,7 @@ module Ohcount
           @language_counts[lb.name.intern] ||= 0
           @language_counts[lb.name.intern] += lb.code_count
         end
+        @language_percents = nil
       end
 
       def includes_language?(language, min_percent = 0)
@@ -120,7 +121,7 @@ module Ohcount
 
           l = {}
           @language_counts.each do |k,v|
-           l[k] = 100.0 * v.to_i / total
+           l[k] = v == 0 ? 0.0 : 100.0 * v.to_i / total
           end
           l
 
-- 
2.43.0


From 9a244cbd2723a6d2fece98a282200dd4adde1986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:38 +0000
Subject: [PATCH 64/69] fix: Maven dependencies were known by the names of
 their exclusions

---
 ruby/gestalt/rules/maven_parser.rb | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/ruby/gestalt/rules/maven_parser.rb b/ruby/gestalt/rules/maven_parser.rb
index 305468e..fbf3a25 100755
--- a/ruby/gestalt/rules/maven_parser.rb
+++ b/ruby/gestalt/rules/maven_parser.rb
@@ -5,15 +5,18 @@ require 'rexml/streamlistener'
 class MavenListener
 	include REXML::StreamListener
 
-	attr_accessor :group_id, :artifact_id, :text
-
 	attr_accessor :callback
 	def initialize(callback)
 		@callback = callback
 		@is_pom_file = false
+		@text = ''
+		@open_tags = []
+		@ids = [] # of the plugins and dependencies around the current tag
 	end
 
 	def tag_start(name, attrs)
+		@open_tags << name
+		@text = ''
 		case name
 		when 'project'
 			@is_pom_file = true
@@ -22,20 +25,20 @@ class MavenListener
 				@is_pom_file = false
 			end
 		when 'plugin', 'dependency'
-			@group_id = nil
-			@artifact_id = nil
+			@ids << {}
 		end
 	end
 
 	def tag_end(name)
+		@open_tags.pop
 		case name
-		when 'groupId'
-			@group_id = clean(@text)
-		when 'artifactId'
-			@artifact_id = clean(@text)
-		when /^(plugin|dependency)$/
-			if @is_pom_file && @group_id && @artifact_id
-				@callback.call($1, @group_id, @artifact_id)
+		when 'groupId', 'artifactId'
+			# An exclusion, for instance, has its own
+			@ids.last[name] = clean(@text) if ['plugin', 'dependency'].include?(@open_tags.last)
+		when 'plugin', 'dependency'
+			ids = @ids.pop
+			if @is_pom_file && ids['groupId'] && ids['artifactId']
+				@callback.call(name, ids['groupId'], ids['artifactId'])
 			end
 		end
 	end
@@ -47,6 +50,6 @@ class MavenListener
 	end
 
 	def text(text)
-		@text = text
+		@text += text
 	end
 end
-- 
2.43.0


From 92791da0e9be61c7a522eb5fc75556be17141234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:38 +0000
Subject: [PATCH 65/69] fix: an XML file with an unknown encoding or character
 reference stopped the analysis

---
 ruby/gestalt/rules/csproj_rule.rb | 2 +-
 ruby/gestalt/rules/maven_rule.rb  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruby/gestalt/rules/csproj_rule.rb b/ruby/gestalt/rules/csproj_rule.rb
index f519422..c6e9275 100644
--- a/ruby/gestalt/rules/csproj_rule.rb
+++ b/ruby/gestalt/rules/csproj_rule.rb
@@ -20,7 +20,7 @@ module Ohcount
 
 					begin
           	REXML::Document.parse_stream(source_file.language_breakdown('xml').code, CsprojListener.new(callback))
-					rescue REXML::ParseException
+					rescue REXML::ParseException, ArgumentError, RangeError
 						# Malformed XML! -- ignore and move on
 					end
         end
diff --git a/ruby/gestalt/rules/maven_rule.rb b/ruby/gestalt/rules/maven_rule.rb
index 7aed4c7..ab9f909 100644
--- a/ruby/gestalt/rules/maven_rule.rb
+++ b/ruby/gestalt/rules/maven_rule.rb
@@ -28,7 +28,7 @@ module Ohcount
         if source_file.filename =~ /\bpom\.xml$/ && source_file.language_breakdown('xml')
 					begin
           	REXML::Document.parse_stream(source_file.language_breakdown('xml').code, MavenListener.new(callback))
-					rescue REXML::ParseException
+					rescue REXML::ParseException, ArgumentError, RangeError
 						# Malformed XML! -- ignore and move on
 					end
         end
-- 
2.43.0


From 5e36651e5faf011fd1f5e1e60c1716f624102cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:38 +0000
Subject: [PATCH 66/69] fix: gestalts named languages that do not exist

---
 ruby/gestalt/definitions.rb | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ruby/gestalt/definitions.rb b/ruby/gestalt/definitions.rb
index 548d745..63cf64a 100644
--- a/ruby/gestalt/definitions.rb
+++ b/ruby/gestalt/definitions.rb
@@ -336,7 +336,7 @@ module Ohcount
     ############################ Windows CE ############################
 		define_platform 'windows_ce_incomplete' do
 			csharp_keywords 'Microsoft\.WindowsCE', 'Microsoft\.WindowsMobile'
-			vb_keywords 'Microsoft\.WindowsCE', 'Microsoft\.WindowsMobile'
+			visualbasic_keywords 'Microsoft\.WindowsCE', 'Microsoft\.WindowsMobile'
 		end
 
 		######################### Native Code ##############################
@@ -346,7 +346,8 @@ module Ohcount
 			language :cncpp, :min_percent => 5
 			language :assembly, :min_percent => 5
 			language :d, :min_percent => 5
-			language :fortran, :min_percent => 5
+			language :fortranfixed, :min_percent => 5
+			language :fortranfree, :min_percent => 5
 			language :haskell, :min_percent => 5
 			language :cobol, :min_percent => 5
 		end
-- 
2.43.0


From 5504a20b2c4aee63a8c2f9ac14d2d04f36fef1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:06 +0000
Subject: [PATCH 67/69] fix: the OpenESB platform was reported twice

---
 ruby/gestalt/java_definitions.rb | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/ruby/gestalt/java_definitions.rb b/ruby/gestalt/java_definitions.rb
index 4a82a2d..7275de3 100644
--- a/ruby/gestalt/java_definitions.rb
+++ b/ruby/gestalt/java_definitions.rb
@@ -234,13 +234,6 @@ module Ohcount
 			end
 		end
 
-		define_platform 'openesb' do
-			_and do
-				gestalt(:platform, 'java')
-				java_import /^org\.openesb\b/
-			end
-		end
-
 		# Other Java Technologies
 
 		define_platform 'opensso' do
-- 
2.43.0


From 7816dc6313c6225521faa03caf7759a0cebf3529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:41 +0000
Subject: [PATCH 68/69] fix: code in D was not taken for native code

---
 ruby/gestalt/definitions.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/gestalt/definitions.rb b/ruby/gestalt/definitions.rb
index 63cf64a..19feb8c 100644
--- a/ruby/gestalt/definitions.rb
+++ b/ruby/gestalt/definitions.rb
@@ -345,7 +345,7 @@ module Ohcount
 			language :cpp, :min_percent => 5
 			language :cncpp, :min_percent => 5
 			language :assembly, :min_percent => 5
-			language :d, :min_percent => 5
+			language :dmd, :min_percent => 5
 			language :fortranfixed, :min_percent => 5
 			language :fortranfree, :min_percent => 5
 			language :haskell, :min_percent => 5
-- 
2.43.0


From 3f63923567730fee9b37fd43a0baa0c317c596bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:28 +0000
Subject: [PATCH 69/69] fix: the first lines of a tag on several lines were
 reported in the embedded language

---
 src/parser_macros.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index fa3e9f2..2b34b58 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -323,6 +323,16 @@ char *find_outry(char *s, char *e, const char *delim) {
   } \
 }
 
+/**
+ * Returns the beginning of the line that contains e, but not before s.
+ * @param *s The start of the text to search.
+ * @param *e A position in the text.
+ */
+char *last_line(char *s, char *e) {
+  while (e > s && *(e-1) != '\n' && *(e-1) != '\r' && *(e-1) != '\f') e--;
+  return e;
+}
+
 /**
  * If there is a transition into an embedded language and there is only parent
  * language code on the line (the rest of the line is blank with no child code),
@@ -337,6 +347,11 @@ char *find_outry(char *s, char *e, const char *delim) {
   if (is_blank_entry(&p, pe)) { \
     te = p + 1; \
     std_newline(lang) \
+  } else if (line_start) { /* only its last line is the embedded language's */ \
+    char *last = last_line(line_start, p); \
+    if (callback && last > line_start) \
+      callback(lang, "lcode", cint(line_start), cint(last), userdata); \
+    line_start = last; \
   } \
 }
 
-- 
2.43.0

