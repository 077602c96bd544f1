From e95aced1252ceab970da6638f62df9c21e948860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 01/42] fix: reject overlong, surrogate and out-of-range UTF-8
 in the decoder

The input byte was sign-extended, so the C0/C1 check never matched, and
overlong E0/F0 forms, surrogates and values above U+10FFFF were accepted.
---
 src/tsm/tsm-unicode.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index bc1609a..cc3fea7 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -501,7 +501,7 @@ int tsm_utf8_mach_feed(struct tsm_utf8_mach *mach, char ci)
 	if (!mach)
 		return TSM_UTF8_START;
 
-	c = ci;
+	c = (unsigned char)ci;
 
 	switch (mach->state) {
 	case TSM_UTF8_START:
@@ -536,14 +536,18 @@ int tsm_utf8_mach_feed(struct tsm_utf8_mach *mach, char ci)
 		break;
 	case TSM_UTF8_EXPECT3:
 		mach->ch |= (c & 0x3F) << 12;
-		if ((c & 0xC0) == 0x80)
+		/* reject overlong encodings and values beyond U+10FFFF */
+		if ((c & 0xC0) == 0x80 &&
+		    mach->ch >= 0x10000 && mach->ch <= 0x10FFFF)
 			mach->state = TSM_UTF8_EXPECT2;
 		else
 			mach->state = TSM_UTF8_REJECT;
 		break;
 	case TSM_UTF8_EXPECT2:
 		mach->ch |= (c & 0x3F) << 6;
-		if ((c & 0xC0) == 0x80)
+		/* reject overlong encodings and UTF16 surrogates */
+		if ((c & 0xC0) == 0x80 && mach->ch >= 0x800 &&
+		    (mach->ch < 0xD800 || mach->ch > 0xDFFF))
 			mach->state = TSM_UTF8_EXPECT1;
 		else
 			mach->state = TSM_UTF8_REJECT;
-- 
2.43.0


From d99d9cfadc8d99f232dd54a75e9916d49e3c6207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 02/42] fix: symbol table returned the wrong entry for combined
 symbols

IDs started one past their slot in the index array, so tsm_symbol_get() on a
freshly appended symbol found nothing and on older ones the next entry.
---
 src/tsm/tsm-unicode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index cc3fea7..9ecac87 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -155,7 +155,7 @@ int tsm_symbol_table_new(struct tsm_symbol_table **out)
 		return -ENOMEM;
 	memset(tbl, 0, sizeof(*tbl));
 	tbl->ref = 1;
-	tbl->next_id = TSM_UCS4_MAX + 2;
+	tbl->next_id = TSM_UCS4_MAX + 1;
 	shl_htable_init(&tbl->symbols, cmp_ucs4, hash_ucs4, NULL);
 
 	ret = shl_array_new(&tbl->index, sizeof(uint32_t*), 4);
-- 
2.43.0


From a6cc331643d7250153ff67163dfced8c5b901bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 03/42] fix: free the allocation rather than its interior in
 tsm_symbol_append's error path

---
 src/tsm/tsm-unicode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index 9ecac87..a36b8ad 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -307,7 +307,8 @@ err_symbol:
 	shl_htable_remove(&tbl->symbols, nval, hash_ucs4(nval, NULL), NULL);
 err_id:
 	--tbl->next_id;
-	free(nval);
+	/* the allocation starts at the hidden ID */
+	free(nval - 1);
 	return sym;
 }
 
-- 
2.43.0


From bcf872841b309a1107cc3900fb9b87cd7f54c7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:48 +0000
Subject: [PATCH 04/42] fix: keep the numeric scrollback position in step with
 the line shown

Dropping the oldest line at capacity, lowering the limit and resetting the
position left sb_pos_num pointing at a different line than sb_pos.
---
 src/tsm/tsm-screen.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index b8202d4..6a56d7b 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -230,13 +230,13 @@ static void link_to_scrollback(struct tsm_screen *con, struct line *line)
 		if (con->sb_pos) {
 			if (con->sb_pos == tmp ||
 			    !(con->flags & TSM_SCREEN_FIXED_POS)) {
-				if (con->sb_pos->next) {
+				if (con->sb_pos->next)
 					con->sb_pos = con->sb_pos->next;
-					++con->sb_pos_num;
-				} else {
+				else
 					con->sb_pos = line;
-					con->sb_pos_num = 0;
-				}
+			} else {
+				/* same line, but one line less above it */
+				--con->sb_pos_num;
 			}
 		}
 
@@ -800,6 +800,8 @@ void tsm_screen_set_max_sb(struct tsm_screen *con,
 		 * remove lines from the TOP of the scrollback buffer. */
 		if (con->sb_pos == line)
 			con->sb_pos = con->sb_first;
+		else if (con->sb_pos)
+			--con->sb_pos_num;
 
 		if (con->sel_active) {
 			if (con->sel_start.line == line) {
@@ -814,6 +816,9 @@ void tsm_screen_set_max_sb(struct tsm_screen *con,
 		line_free(line);
 	}
 
+	if (!con->sb_pos)
+		con->sb_pos_num = con->sb_count;
+
 	con->sb_max = max;
 }
 
@@ -931,7 +936,7 @@ void tsm_screen_sb_reset(struct tsm_screen *con)
 	con->age = con->age_cnt;
 
 	con->sb_pos = NULL;
-	con->sb_pos_num = 0;
+	con->sb_pos_num = con->sb_count;
 }
 
 unsigned int tsm_screen_sb_get_line_count(struct tsm_screen *con)
-- 
2.43.0


From 5255c90e413f0e4862320ffcfc081b2427c5b783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:12 +0000
Subject: [PATCH 05/42] fix: do not scroll the region when the cursor sits
 outside of it

At the first or last row of the screen outside the margins, index, reverse
index and auto-wrap scrolled the region although the cursor is not in it.
---
 src/tsm/tsm-screen.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 6a56d7b..b28d78c 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1138,7 +1138,9 @@ void tsm_screen_write(struct tsm_screen *con, tsm_symbol_t ch,
 
 	if (con->cursor_y > last) {
 		move_cursor(con, con->cursor_x, last);
-		screen_scroll_up(con, 1);
+		/* below the scroll-region there is nothing to scroll */
+		if (last == con->margin_bottom)
+			screen_scroll_up(con, 1);
 	}
 
 	screen_write(con, con->cursor_x, con->cursor_y, ch, len, attr);
@@ -1225,7 +1227,7 @@ void tsm_screen_move_up(struct tsm_screen *con, unsigned int num,
 	diff = con->cursor_y - size;
 	if (num > diff) {
 		num -= diff;
-		if (scroll)
+		if (scroll && con->cursor_y >= con->margin_top)
 			screen_scroll_down(con, num);
 		move_cursor(con, con->cursor_x, size);
 	} else {
@@ -1252,7 +1254,7 @@ void tsm_screen_move_down(struct tsm_screen *con, unsigned int num,
 	diff = size - con->cursor_y - 1;
 	if (num > diff) {
 		num -= diff;
-		if (scroll)
+		if (scroll && con->cursor_y <= con->margin_bottom)
 			screen_scroll_up(con, num);
 		move_cursor(con, con->cursor_x, size - 1);
 	} else {
-- 
2.43.0


From daf6e5a2c31dee29795d71ddaee7f8e0b6f7d039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:14 +0000
Subject: [PATCH 06/42] fix: unsigned wrap in insert-mode write overran the
 line

A wide character on a one-column screen made size_x - len negative, which the
unsigned arithmetic turned into a huge memmove.
---
 src/tsm/tsm-screen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index b28d78c..282e2be 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -404,7 +404,7 @@ static void screen_write(struct tsm_screen *con, unsigned int x,
 	line = con->lines[y];
 
 	if ((con->flags & TSM_SCREEN_INSERT_MODE) &&
-	    (int)x < ((int)con->size_x - len)) {
+	    x + len < con->size_x) {
 		line->age = con->age_cnt;
 		memmove(&line->cells[x + len], &line->cells[x],
 			sizeof(struct cell) * (con->size_x - len - x));
-- 
2.43.0


From 62cbc6422be5e04ad4b3760c651aa74d0aceec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 07/42] fix: out-of-bounds read in tsm_screen_tab_left with a
 pending wrap

---
 src/tsm/tsm-screen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 282e2be..66e117a 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1365,6 +1365,8 @@ void tsm_screen_tab_left(struct tsm_screen *con, unsigned int num)
 	screen_inc_age(con);
 
 	x = con->cursor_x;
+	if (x >= con->size_x)
+		x = con->size_x - 1;
 	for (i = 0; i < num; ++i) {
 		for (j = x - 1; j > 0; --j) {
 			if (con->tab_ruler[j])
-- 
2.43.0


From eacb716b9a4c153d759ef0ba698cf8054286cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 08/42] fix: integer overflow of the range in
 tsm_screen_erase_chars

---
 src/tsm/tsm-screen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 66e117a..d4cd491 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1562,6 +1562,9 @@ void tsm_screen_erase_chars(struct tsm_screen *con, unsigned int num)
 	else
 		x = con->cursor_x;
 
+	if (num > con->size_x - x)
+		num = con->size_x - x;
+
 	screen_erase_region(con, x, con->cursor_y, x + num - 1, con->cursor_y,
 			     false);
 }
-- 
2.43.0


From 439c0696a152f6295b9c5e63be8ea9a3c3fb7008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 09/42] fix: integer overflow in tsm_screen_move_to with
 relative origin

---
 src/tsm/tsm-screen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index d4cd491..35cda82 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -470,6 +470,10 @@ static inline unsigned int to_abs_y(struct tsm_screen *con, unsigned int y)
 	if (!(con->flags & TSM_SCREEN_REL_ORIGIN))
 		return y;
 
+	/* saturate, the caller limits it to the bottom margin */
+	if (y > con->margin_bottom)
+		return con->margin_bottom;
+
 	return con->margin_top + y;
 }
 
-- 
2.43.0


From 967a82fd999feef663c809b8547d6366cbe8d47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 10/42] fix: integer overflow in tsm_screen_sb_page_up and
 _down

---
 src/tsm/tsm-screen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 35cda82..bd47a45 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -58,6 +58,7 @@
 
 #include <errno.h>
 #include <inttypes.h>
+#include <limits.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
@@ -916,6 +917,8 @@ void tsm_screen_sb_page_up(struct tsm_screen *con, unsigned int num)
 		return;
 
 	screen_inc_age(con);
+	if (num > UINT_MAX / con->size_y)
+		num = UINT_MAX / con->size_y;
 	tsm_screen_sb_up(con, num * con->size_y);
 }
 
@@ -926,6 +929,8 @@ void tsm_screen_sb_page_down(struct tsm_screen *con, unsigned int num)
 		return;
 
 	screen_inc_age(con);
+	if (num > UINT_MAX / con->size_y)
+		num = UINT_MAX / con->size_y;
 	tsm_screen_sb_down(con, num * con->size_y);
 }
 
-- 
2.43.0


From 1f18558f55aa0aa854e68ee80b9c32819e5c07cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 11/42] fix: selection copy read rows above the screen and
 overran its buffer

A selection that scrolled into the scrollback while its end stayed on screen
indexed lines[-1]; the buffer had no room for the line breaks; selections made
upwards from the newest scrollback line lost everything but that line; empty
cells were copied as NUL bytes.
---
 src/tsm/tsm-selection.c | 55 +++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 7821f03..77128b3 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -163,7 +163,11 @@ static unsigned int copy_line(struct line *line, char *buf,
 	}
 
 	for (i = start; i < line->size && i < end; ++i) {
-		if (i < line->size || !line->cells[i].ch)
+		/* right half of a wide character */
+		if (!line->cells[i].width)
+			continue;
+
+		if (line->cells[i].ch)
 			pos += tsm_ucs4_to_utf8(line->cells[i].ch, pos);
 		else
 			pos += tsm_ucs4_to_utf8(' ', pos);
@@ -190,8 +194,10 @@ static void swap_selections(struct selection_pos **a, struct selection_pos **b)
  */
 static void norm_selection(struct tsm_screen *con, struct selection_pos **start, struct selection_pos **end)
 {
-	struct line *iter;
-	struct selection_pos *buffer;
+	/* a start above all available lines is first already */
+	if ((*start)->line == NULL && (*start)->y == SELECTION_TOP) {
+		return;
+	}
 
 	if ((*end)->line == NULL && (*end)->y == SELECTION_TOP) {
 		swap_selections(start, end);
@@ -209,25 +215,19 @@ static void norm_selection(struct tsm_screen *con, struct selection_pos **start,
 			return;
 		}
 
-		/*
-		 * multi line selection
-		 *
-		 * search from end->line to con->sb_last
-		 * if we find start->line on the way we
-		 * need to change start and end
-		*/
-		iter = (*end)->line;
-		while (iter && iter != con->sb_last) {
-			if (iter == (*start)->line) {
-				swap_selections(start, end);
-			}
-
-			iter = iter->next;
+		/* multi line selection; ids grow from old to new lines */
+		if ((*start)->line->sb_id > (*end)->line->sb_id) {
+			swap_selections(start, end);
 		}
 
 		return;
 	}
 
+	/* start is in scroll back buffer and end on screen */
+	if ((*start)->line && !(*end)->line) {
+		return;
+	}
+
 	/* end is in scroll back buffer and start on screen */
 	if (!(*start)->line && (*end)->line) {
 		swap_selections(start, end);
@@ -290,6 +290,11 @@ static int selection_count_lines(struct selection_pos *start, struct selection_p
 		return 0;
 	}
 
+	/* Selection starts in the scroll back buffer, i.e. above the first row */
+	if (start->line) {
+		return end->y + 1;
+	}
+
 	return end->y - start->y + 1;
 }
 
@@ -348,8 +353,8 @@ static int calc_selection_line_len(struct tsm_screen *con, struct selection_pos
  */
 static unsigned int calc_line_copy_buffer(struct tsm_screen *con, unsigned int num_lines)
 {
-	// 4 is the max size of a Unicode character
-	return con->size_x * num_lines * 4 + 1;
+	// 4 is the max size of a Unicode character, 1 for the line break
+	return (con->size_x * 4 + 1) * num_lines + 1;
 }
 
 /*
@@ -396,7 +401,7 @@ static int copy_lines(struct tsm_screen *con, struct selection_pos *start, struc
 		return pos;
 	}
 
-	for (i = start->y; i <= end->y; i++) {
+	for (i = start->line ? 0 : start->y; i <= end->y; i++) {
 		line_len = calc_selection_line_len(con, start, end, i);
 
 		line_x = 0;
@@ -436,11 +441,19 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 	start = &start_copy;
 	end   = &end_copy;
 
+	/* the screen may be smaller than when the selection was made */
+	if (start->x >= con->size_x) {
+		start->x = con->size_x - 1;
+	}
+	if (end->x >= con->size_x) {
+		end->x = con->size_x - 1;
+	}
+
 	/* invalid selection */
 	if (start->y == SELECTION_TOP && start->line == NULL &&
 		end->y == SELECTION_TOP && end->line == NULL) {
 		*out = strdup("");
-		return 0;
+		return *out ? 0 : -ENOMEM;
 	}
 
 	norm_selection(con, &start, &end);
-- 
2.43.0


From 951aca44cf067c4788839975919d889ab11eb1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 12/42] fix: keep selection positions inside of the screen

---
 src/tsm/tsm-selection.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 77128b3..d3cb3fb 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -66,6 +66,11 @@ static void selection_set(struct tsm_screen *con, struct selection_pos *sel,
 {
 	struct line *pos;
 
+	if (x >= con->size_x)
+		x = con->size_x - 1;
+	if (y >= con->size_y)
+		y = con->size_y - 1;
+
 	sel->line = NULL;
 	pos = con->sb_pos;
 
-- 
2.43.0


From db61887715c79115f47832572d8f2940a2dbf3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 13/42] fix: move the selection along with exactly the rows
 that move

Scrolling a region moved endpoints outside of it, scrolling the alternate
screen moved them into unrelated scrollback lines, scrolling down moved them
below the screen, and inserting or deleting lines did not move them at all.
---
 src/tsm/tsm-screen.c | 87 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 65 insertions(+), 22 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index bd47a45..ba791f5 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -270,6 +270,47 @@ static void link_to_scrollback(struct tsm_screen *con, struct line *line)
 	}
 }
 
+/* Rows top..bottom moved up by num rows, take the selection along. to_sb tells
+ * whether the rows that left the top went into the scrollback-buffer. */
+static void selection_rows_up(struct tsm_screen *con, struct selection_pos *sel,
+			      unsigned int top, unsigned int bottom,
+			      unsigned int num, bool to_sb)
+{
+	if (sel->line || sel->y < (int)top || sel->y > (int)bottom)
+		return;
+
+	sel->y -= num;
+	if (sel->y >= (int)top)
+		return;
+
+	if (!to_sb) {
+		/* row is gone, continue with the first one that is left */
+		sel->y = top;
+		sel->x = 0;
+		return;
+	}
+
+	sel->line = con->sb_last;
+	while (sel->line && ++sel->y < (int)top)
+		sel->line = sel->line->prev;
+	sel->y = SELECTION_TOP;
+}
+
+/* same as selection_rows_up() for the other direction */
+static void selection_rows_down(struct tsm_screen *con, struct selection_pos *sel,
+				unsigned int top, unsigned int bottom,
+				unsigned int num)
+{
+	if (sel->line || sel->y < (int)top || sel->y > (int)bottom)
+		return;
+
+	sel->y += num;
+	if (sel->y > (int)bottom) {
+		sel->y = bottom;
+		sel->x = con->size_x - 1;
+	}
+}
+
 static void screen_scroll_up(struct tsm_screen *con, unsigned int num)
 {
 	unsigned int i, j, max, pos;
@@ -322,24 +363,12 @@ static void screen_scroll_up(struct tsm_screen *con, unsigned int num)
 	       cache, num * sizeof(struct line*));
 
 	if (con->sel_active) {
-		if (!con->sel_start.line && con->sel_start.y >= 0) {
-			con->sel_start.y -= num;
-			if (con->sel_start.y < 0) {
-				con->sel_start.line = con->sb_last;
-				while (con->sel_start.line && ++con->sel_start.y < 0)
-					con->sel_start.line = con->sel_start.line->prev;
-				con->sel_start.y = SELECTION_TOP;
-			}
-		}
-		if (!con->sel_end.line && con->sel_end.y >= 0) {
-			con->sel_end.y -= num;
-			if (con->sel_end.y < 0) {
-				con->sel_end.line = con->sb_last;
-				while (con->sel_end.line && ++con->sel_end.y < 0)
-					con->sel_end.line = con->sel_end.line->prev;
-				con->sel_end.y = SELECTION_TOP;
-			}
-		}
+		selection_rows_up(con, &con->sel_start, con->margin_top,
+				  con->margin_bottom, num,
+				  !(con->flags & TSM_SCREEN_ALTERNATE));
+		selection_rows_up(con, &con->sel_end, con->margin_top,
+				  con->margin_bottom, num,
+				  !(con->flags & TSM_SCREEN_ALTERNATE));
 	}
 }
 
@@ -380,10 +409,10 @@ static void screen_scroll_down(struct tsm_screen *con, unsigned int num)
 	       cache, num * sizeof(struct line*));
 
 	if (con->sel_active) {
-		if (!con->sel_start.line && con->sel_start.y >= 0)
-			con->sel_start.y += num;
-		if (!con->sel_end.line && con->sel_end.y >= 0)
-			con->sel_end.y += num;
+		selection_rows_down(con, &con->sel_start, con->margin_top,
+				    con->margin_bottom, num);
+		selection_rows_down(con, &con->sel_end, con->margin_top,
+				    con->margin_bottom, num);
 	}
 }
 
@@ -1429,6 +1458,13 @@ void tsm_screen_insert_lines(struct tsm_screen *con, unsigned int num)
 		       cache, num * sizeof(struct line*));
 	}
 
+	if (con->sel_active) {
+		selection_rows_down(con, &con->sel_start, con->cursor_y,
+				    con->margin_bottom, num);
+		selection_rows_down(con, &con->sel_end, con->cursor_y,
+				    con->margin_bottom, num);
+	}
+
 	con->cursor_x = 0;
 }
 
@@ -1469,6 +1505,13 @@ void tsm_screen_delete_lines(struct tsm_screen *con, unsigned int num)
 		       cache, num * sizeof(struct line*));
 	}
 
+	if (con->sel_active) {
+		selection_rows_up(con, &con->sel_start, con->cursor_y,
+				  con->margin_bottom, num, false);
+		selection_rows_up(con, &con->sel_end, con->cursor_y,
+				  con->margin_bottom, num, false);
+	}
+
 	con->cursor_x = 0;
 }
 
-- 
2.43.0


From 0985c0d5fa17fcfe44a6a225a34cd6239920c076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 14/42] fix: selection highlight started on every scrollback
 row

An endpoint above the scrollback (y == -1) compared equal to k - 1 for k == 0,
and an endpoint right of a shrunken screen never ended the highlight.
---
 src/tsm/tsm-render.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/tsm/tsm-render.c b/src/tsm/tsm-render.c
index 88ad847..50c24f4 100644
--- a/src/tsm/tsm-render.c
+++ b/src/tsm/tsm-render.c
@@ -46,7 +46,7 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 			  void *data)
 {
 	unsigned int cur_x, cur_y;
-	unsigned int i, j, k;
+	unsigned int i, j, k, sel_start_x, sel_end_x;
 	struct line *iter, *line = NULL;
 	struct cell *cell, empty;
 	struct tsm_screen_attr attr;
@@ -75,6 +75,14 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 	iter = con->sb_pos;
 	k = 0;
 
+	/* the screen may be smaller than when the selection was made */
+	sel_start_x = con->sel_start.x;
+	if (sel_start_x >= con->size_x)
+		sel_start_x = con->size_x - 1;
+	sel_end_x = con->sel_end.x;
+	if (sel_end_x >= con->size_x)
+		sel_end_x = con->size_x - 1;
+
 	if (con->sel_active) {
 		if (!con->sel_start.line && con->sel_start.y == SELECTION_TOP)
 			in_sel = !in_sel;
@@ -100,13 +108,13 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 
 		if (con->sel_active) {
 			if (con->sel_start.line == line ||
-			    (!con->sel_start.line &&
+			    (!con->sel_start.line && k &&
 			     con->sel_start.y == k - 1))
 				sel_start = true;
 			else
 				sel_start = false;
 			if (con->sel_end.line == line ||
-			    (!con->sel_end.line &&
+			    (!con->sel_end.line && k &&
 			     con->sel_end.y == k - 1))
 				sel_end = true;
 			else
@@ -125,12 +133,12 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 
 			if (con->sel_active) {
 				if (sel_start &&
-				    j == con->sel_start.x) {
+				    j == sel_start_x) {
 					was_sel = in_sel;
 					in_sel = !in_sel;
 				}
 				if (sel_end &&
-				    j == con->sel_end.x) {
+				    j == sel_end_x) {
 					was_sel = in_sel;
 					in_sel = !in_sel;
 				}
-- 
2.43.0


From 794ed121eedc2d09af8a56815a119e53f5167f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:28 +0000
Subject: [PATCH 15/42] fix: stale default attributes for new main screen cells
 on resize

---
 src/tsm/tsm-screen.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index ba791f5..94f6490 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -636,6 +636,7 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 		      unsigned int y)
 {
 	struct line **cache;
+	struct tsm_screen_attr *main_attr;
 	unsigned int i, j, width, diff, start;
 	int ret;
 	bool *tab_ruler;
@@ -716,6 +717,13 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 
 	screen_inc_age(con);
 
+	/* def_attr belongs to the active screen, main screen attributes are
+	 * saved aside while the alternate screen is active */
+	if (con->flags & TSM_SCREEN_ALTERNATE)
+		main_attr = &con->def_attr_main;
+	else
+		main_attr = &con->def_attr;
+
 	/* clear expansion/padding area */
 	start = x;
 	if (x > con->size_x)
@@ -728,7 +736,7 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 
 		for ( ; i < con->main_lines[j]->size; ++i)
 			screen_cell_init_generic(con, &con->main_lines[j]->cells[i],
-				&con->def_attr_main);
+				main_attr);
 
 		/* alt-lines never go into SB, only clear visible cells */
 		i = 0;
-- 
2.43.0


From 33614ebdc68fbb90d4e26ff3c4637e57bc55dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 16/42] fix: age cells that look different after a resize or a
 change of default attributes

---
 src/tsm/tsm-screen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 94f6490..f94d066 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -716,6 +716,8 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 	}
 
 	screen_inc_age(con);
+	/* TODO: more sophisticated ageing */
+	con->age = con->age_cnt;
 
 	/* def_attr belongs to the active screen, main screen attributes are
 	 * saved aside while the alternate screen is active */
@@ -1009,6 +1011,9 @@ void tsm_screen_set_def_attr(struct tsm_screen *con,
 {
 	if (!con || !attr)
 		return;
+
+	/* default attributes are shown right of short scrollback lines */
+	screen_inc_age(con);
 	memcpy(&con->def_attr, attr, sizeof(*attr));
 }
 
-- 
2.43.0


From 40f412f346e5649ad75ed922da81961682b2cc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 17/42] fix: leaving the alternate screen (1047) erased the
 main screen

---
 src/tsm/tsm-vte.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 82dca19..6b515cb 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1657,7 +1657,9 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 				tsm_screen_set_flags(vte->con,
 						     TSM_SCREEN_ALTERNATE);
 			} else {
-				tsm_screen_erase_screen(vte->con, false);
+				if (tsm_screen_get_flags(vte->con) &
+				    TSM_SCREEN_ALTERNATE)
+					tsm_screen_erase_screen(vte->con, false);
 				tsm_screen_reset_flags(vte->con,
 						       TSM_SCREEN_ALTERNATE);
 			}
-- 
2.43.0


From b8b7fcdac7ca27895cb4236b7bd07e0e0eb1438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 18/42] fix: restore the cursor to the position that was saved
 in origin mode

---
 src/tsm/tsm-vte.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 6b515cb..b83f786 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -752,10 +752,22 @@ static void save_state(struct tsm_vte *vte)
 	vte->saved_state.origin_mode = vte->flags & TSM_VTE_FLAG_ORIGIN_MODE;
 }
 
+/* move the cursor to a position of the screen, regardless of origin mode */
+static void move_to_absolute(struct tsm_vte *vte, unsigned int x,
+			     unsigned int y)
+{
+	unsigned int rel;
+
+	rel = tsm_screen_get_flags(vte->con) & TSM_SCREEN_REL_ORIGIN;
+	tsm_screen_reset_flags(vte->con, rel);
+	tsm_screen_move_to(vte->con, x, y);
+	tsm_screen_set_flags(vte->con, rel);
+}
+
 static void restore_state(struct tsm_vte *vte)
 {
-	tsm_screen_move_to(vte->con, vte->saved_state.cursor_x,
-			       vte->saved_state.cursor_y);
+	move_to_absolute(vte, vte->saved_state.cursor_x,
+			 vte->saved_state.cursor_y);
 	vte->cattr = vte->saved_state.cattr;
 	to_rgb(vte, &vte->cattr);
 	if (vte->flags & TSM_VTE_FLAG_BACKGROUND_COLOR_ERASE_MODE)
@@ -1674,8 +1686,8 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 				vte->alt_cursor_y =
 					tsm_screen_get_cursor_y(vte->con);
 			} else {
-				tsm_screen_move_to(vte->con, vte->alt_cursor_x,
-						   vte->alt_cursor_y);
+				move_to_absolute(vte, vte->alt_cursor_x,
+						 vte->alt_cursor_y);
 			}
 			continue;
 		case 1049: /* Alternate screen buffer with pre-erase+cursor */
@@ -1693,8 +1705,8 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			} else {
 				tsm_screen_reset_flags(vte->con,
 						       TSM_SCREEN_ALTERNATE);
-				tsm_screen_move_to(vte->con, vte->alt_cursor_x,
-						   vte->alt_cursor_y);
+				move_to_absolute(vte, vte->alt_cursor_x,
+						 vte->alt_cursor_y);
 			}
 			continue;
 		case TSM_VTE_MOUSE_EVENT_BTN:
-- 
2.43.0


From 56199437b2d59b50d95adcac07911c2125fffb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 19/42] fix: cursor row of CHA and VPR in origin mode

---
 src/tsm/tsm-vte.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index b83f786..0f66064 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1846,8 +1846,13 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 		if (num <= 0)
 			num = 1;
 		x = tsm_screen_get_cursor_x(vte->con);
-		y = tsm_screen_get_cursor_y(vte->con);
-		tsm_screen_move_to(vte->con, x, y + num);
+		y = tsm_screen_get_cursor_y(vte->con) + num;
+		if (vte->flags & TSM_VTE_FLAG_ORIGIN_MODE) {
+			/* stay inside of the margins */
+			upper = vte->con->margin_top;
+			y = y > upper ? y - upper : 0;
+		}
+		tsm_screen_move_to(vte->con, x, y);
 		break;
 	case 'F': /* CPL */
 		/* Move cursor up the indicated # of rows, to column 1 */
@@ -1874,7 +1879,7 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 		if (num <= 0)
 			num = 1;
 		y = tsm_screen_get_cursor_y(vte->con);
-		tsm_screen_move_to(vte->con, num - 1, y);
+		move_to_absolute(vte, num - 1, y);
 		break;
 	case 'J':
 		if (vte->csi_flags & CSI_WHAT)
-- 
2.43.0


From 189c506feb6e0a2361851f2741bbf8695f433ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 20/42] fix: cursor position report with origin mode or a
 pending wrap

---
 src/tsm/tsm-vte.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 0f66064..aba908a 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1779,6 +1779,12 @@ static void csi_dsr(struct tsm_vte *vte)
 	} else if (vte->csi_argv[0] == 6) {
 		x = tsm_screen_get_cursor_x(vte->con);
 		y = tsm_screen_get_cursor_y(vte->con);
+		/* a pending wrap is still in the last column */
+		if (x >= tsm_screen_get_width(vte->con))
+			x = tsm_screen_get_width(vte->con) - 1;
+		if ((vte->flags & TSM_VTE_FLAG_ORIGIN_MODE) &&
+		    y >= vte->con->margin_top)
+			y -= vte->con->margin_top;
 		len = snprintf(buf, sizeof(buf), "\e[%u;%uR", y + 1, x + 1);
 		if (len >= sizeof(buf))
 			vte_write(vte, "\e[0;0R", 6);
-- 
2.43.0


From 20a06057693626c57c961d35db097cf94c04a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 21/42] fix: ignore control sequences with unknown markers and
 intermediates

---
 src/tsm/tsm-vte.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index aba908a..182ba78 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -110,6 +110,7 @@ enum parser_action {
 #define CSI_PLUS	0x0100		/* CSI: + */
 #define CSI_POPEN	0x0200		/* CSI: ( */
 #define CSI_PCLOSE	0x0400		/* CSI: ) */
+#define CSI_OTHER	0x0800		/* CSI: any other marker or intermediate */
 
 /* max CSI arguments */
 #define CSI_ARG_MAX 16
@@ -1011,6 +1012,9 @@ static void do_collect(struct tsm_vte *vte, uint32_t data)
 	case ')':
 		vte->csi_flags |= CSI_PCLOSE;
 		break;
+	default:
+		vte->csi_flags |= CSI_OTHER;
+		break;
 	}
 }
 
@@ -1793,11 +1797,41 @@ static void csi_dsr(struct tsm_vte *vte)
 	}
 }
 
+/*
+ * Private markers and intermediates select a function other than the plain
+ * final character does. Check whether it is one we know.
+ */
+static bool csi_is_known(struct tsm_vte *vte, uint32_t data)
+{
+	switch (data) {
+	case 'J':
+	case 'K':
+	case 'h':
+	case 'l':
+	case 'n':
+		return !(vte->csi_flags & ~CSI_WHAT);
+	case 'c':
+		return !(vte->csi_flags & ~CSI_GT);
+	case 'p':
+		return !vte->csi_flags || vte->csi_flags == CSI_GT ||
+		       vte->csi_flags == CSI_BANG ||
+		       vte->csi_flags == CSI_DQUOTE;
+	default:
+		return !vte->csi_flags;
+	}
+}
+
 static void do_csi(struct tsm_vte *vte, uint32_t data)
 {
 	int num, x, y, upper, lower;
 	bool protect;
 
+	if (!csi_is_known(vte, data)) {
+		llog_debug(vte, "unhandled CSI sequence %c with flags %x",
+			   data, vte->csi_flags);
+		return;
+	}
+
 	if (vte->csi_argc < CSI_ARG_MAX)
 		vte->csi_argc++;
 
-- 
2.43.0


From b8f79c576ea9b3475a4b43d3839e830aa7d9486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 22/42] fix: out-of-bounds read of the parameters in
 csi_attribute

---
 src/tsm/tsm-vte.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 182ba78..d5f10cd 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1396,6 +1396,10 @@ static void csi_attribute(struct tsm_vte *vte)
 			/* fallthrough */
 		case 48:
 			val = vte->csi_argv[i];
+			if (i + 1 >= vte->csi_argc) {
+				llog_debug(vte, "invalid SGR");
+				break;
+			}
 			if (vte->csi_argv[i + 1] == 5) { // 256color mode
 				if (i + 2 >= vte->csi_argc ||
 					vte->csi_argv[i + 2] < 0) {
-- 
2.43.0


From 409132778b8ad7fa379e0146604ab2b097ec9779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 23/42] fix: ignore SGR colors that are out of range

---
 src/tsm/tsm-vte.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index d5f10cd..f4631ee 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1407,6 +1407,11 @@ static void csi_attribute(struct tsm_vte *vte)
 					break;
 				}
 				code = vte->csi_argv[i + 2];
+				if (code > 255) {
+					llog_debug(vte, "invalid 256color SGR");
+					i += 2;
+					break;
+				}
 				if (code < 16) {
 					//no change
 					cb = cg = cr = 0;
@@ -1434,6 +1439,13 @@ static void csi_attribute(struct tsm_vte *vte)
 						llog_debug(vte, "invalid true color SGR");
 						break;
 					}
+				if (vte->csi_argv[i + 2] > 255 ||
+					vte->csi_argv[i + 3] > 255 ||
+					vte->csi_argv[i + 4] > 255) {
+						llog_debug(vte, "invalid true color SGR");
+						i += 4;
+						break;
+					}
 				cr = vte->csi_argv[i + 2];
 				cg = vte->csi_argv[i + 3];
 				cb = vte->csi_argv[i + 4];
-- 
2.43.0


From fbc024115f20ff93704a6448e781b74c26ba6e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 24/42] fix: sign extension of input in 8bit mode

---
 src/tsm/tsm-vte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index f4631ee..aa73f0c 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2597,7 +2597,7 @@ void tsm_vte_input(struct tsm_vte *vte, const char *u8, size_t len)
 					   (int)u8[i]);
 			parse_data(vte, u8[i] & 0x7f);
 		} else if (vte->flags & TSM_VTE_FLAG_8BIT_MODE) {
-			parse_data(vte, u8[i]);
+			parse_data(vte, (unsigned char)u8[i]);
 		} else {
 			state = tsm_utf8_mach_feed(vte->mach, u8[i]);
 			if (state == TSM_UTF8_ACCEPT ||
-- 
2.43.0


From 4ea8c9b3156d9fb6b8d1d845cfdb11f4921a6056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 25/42] fix: 7bit keyboard input of characters above U+00FF

---
 src/tsm/tsm-vte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index aa73f0c..482ace8 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3169,7 +3169,7 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 	if (unicode != TSM_VTE_INVALID) {
 		if (vte->flags & TSM_VTE_FLAG_7BIT_MODE) {
 			val = unicode;
-			if (unicode & 0x80) {
+			if (unicode > 0x7f) {
 				llog_debug(vte, "invalid keyboard input in 7bit mode U+%x; mapping to '?'",
 					   unicode);
 				val = '?';
-- 
2.43.0


From e4fc22250ddce14421597f425dd056807570d003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 26/42] fix: escape prefix of alt keys with local echo

---
 src/tsm/tsm-vte.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 482ace8..2747ce2 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -683,6 +683,8 @@ unsigned int tsm_vte_get_mouse_event(struct tsm_vte *vte)
 static void vte_write_debug(struct tsm_vte *vte, const char *u8, size_t len,
 			    bool raw, const char *file, int line)
 {
+	bool escape = vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE;
+
 #ifdef BUILD_ENABLE_DEBUG
 	/* in debug mode we check that escape sequences are always <0x7f so they
 	 * are correctly parsed by non-unicode and non-8bit-mode clients. */
@@ -697,18 +699,19 @@ static void vte_write_debug(struct tsm_vte *vte, const char *u8, size_t len,
 	}
 #endif
 
+	/* the prefix is for this data only, not for replies to its echo */
+	vte->flags &= ~TSM_VTE_FLAG_PREPEND_ESCAPE;
+
 	/* in local echo mode, directly parse the data again */
 	if (!vte->parse_cnt && !(vte->flags & TSM_VTE_FLAG_SEND_RECEIVE_MODE)) {
-		if (vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE)
+		if (escape)
 			tsm_vte_input(vte, "\e", 1);
 		tsm_vte_input(vte, u8, len);
 	}
 
-	if (vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE)
+	if (escape)
 		vte->write_cb(vte, "\e", 1, vte->data);
 	vte->write_cb(vte, u8, len, vte->data);
-
-	vte->flags &= ~TSM_VTE_FLAG_PREPEND_ESCAPE;
 }
 
 #define vte_write(_vte, _u8, _len) \
-- 
2.43.0


From ba57ac588a1b366e2ef5697b08a285b20f124f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 27/42] fix: forget the alternate screen cursor on reset

---
 src/tsm/tsm-vte.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 2747ce2..6a44224 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -832,6 +832,8 @@ void tsm_vte_reset(struct tsm_vte *vte)
 	vte->mouse_event = 0;
 	vte->mouse_last_col = 0;
 	vte->mouse_last_row = 0;
+	vte->alt_cursor_x = 0;
+	vte->alt_cursor_y = 0;
 
 	memcpy(&vte->cattr, &vte->def_attr, sizeof(vte->cattr));
 	to_rgb(vte, &vte->cattr);
-- 
2.43.0


From cc3c9a5923b8e7d79d202ae765f045d5e53c007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:56 +0000
Subject: [PATCH 28/42] fix: tell the mouse callback that a reset ends tracking

---
 src/tsm/tsm-vte.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 6a44224..e4ec4e1 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -828,6 +828,8 @@ void tsm_vte_reset(struct tsm_vte *vte)
 	vte->g2 = &tsm_vte_unicode_lower;
 	vte->g3 = &tsm_vte_unicode_upper;
 
+	if (vte->mouse_cb && vte->mouse_event)
+		vte->mouse_cb(vte, TSM_MOUSE_TRACK_DISABLE, false, vte->mouse_data);
 	vte->mouse_mode = 0;
 	vte->mouse_event = 0;
 	vte->mouse_last_col = 0;
-- 
2.43.0


From 24678ab0fb270316a7d14a980a2b2e0be2ae161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 29/42] fix: disabling X10 mouse mode enabled button tracking

---
 src/tsm/tsm-vte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index e4ec4e1..87fd743 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1645,7 +1645,7 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			continue;
 		case TSM_VTE_MOUSE_MODE_X10:
 			vte->mouse_mode = set ? vte->csi_argv[i] : 0;
-			vte->mouse_event = TSM_VTE_MOUSE_EVENT_BTN;
+			vte->mouse_event = set ? TSM_VTE_MOUSE_EVENT_BTN : 0;
 
 			if (vte->mouse_cb) {
 			    vte->mouse_cb(vte, vte->mouse_event, false, vte->mouse_data);
-- 
2.43.0


From b07e1a39d0cb8b3a5875fa562881cd4ab2d69e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 30/42] fix: truncate long operating system commands instead of
 leaving characters out

---
 src/tsm/tsm-vte.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 87fd743..d8a18a3 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -169,6 +169,7 @@ struct tsm_vte {
 	tsm_vte_osc_cb osc_cb;
 	void *osc_data;
 	unsigned int osc_len;
+	bool osc_full;
 	char osc_arg[OSC_MAX_LEN];
 
 	tsm_vte_mouse_cb mouse_cb;
@@ -980,6 +981,7 @@ static void do_clear(struct tsm_vte *vte)
 	vte->csi_flags = 0;
 
 	vte->osc_len = 0;
+	vte->osc_full = false;
 	memset(vte->osc_arg, 0, sizeof(vte->osc_arg));
 }
 
@@ -2133,7 +2135,8 @@ static uint32_t vte_map(struct tsm_vte *vte, uint32_t val)
 static void do_osc_collect(struct tsm_vte *vte, uint32_t val) {
 	char buf[4];
 	int len = tsm_ucs4_to_utf8(val, buf);
-	if (vte->osc_len + len > sizeof(vte->osc_arg) - 1) {
+	if (vte->osc_full || vte->osc_len + len > sizeof(vte->osc_arg) - 1) {
+		vte->osc_full = true;
 		return;
 	}
 
-- 
2.43.0


From fdd45bb3d76cbb6d004bfd37a3fffb7f4b05660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 31/42] fix: truncated mouse reports for large coordinates

---
 src/tsm/tsm-vte.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index d8a18a3..26a56f3 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3208,7 +3208,7 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		unsigned int cell_y, unsigned int pixel_x, unsigned int pixel_y,
 		unsigned int button, unsigned int event, unsigned char modifiers)
 {
-	char buffer[24];
+	char buffer[40];
 	unsigned char reply_flags = 0;
 	bool pressed = event & TSM_MOUSE_EVENT_PRESSED;
 
@@ -3270,7 +3270,7 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 			vte->mouse_last_row = cell_y;
 		}
 
-		snprintf((char*) &buffer, sizeof(buffer), "\e[<%d;%d;%d%c", reply_flags, cell_x, cell_y, pressed ? 'M' : 'm');
+		snprintf((char*) &buffer, sizeof(buffer), "\e[<%u;%u;%u%c", reply_flags, cell_x, cell_y, pressed ? 'M' : 'm');
 
 		vte_write(vte, buffer, strlen(buffer));
 		return true;
@@ -3280,7 +3280,7 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 			pressed = true;
 		}
 
-		snprintf((char*) &buffer, sizeof(buffer), "\e[<%d;%d;%d%c", reply_flags, pixel_x, pixel_y, pressed ? 'M' : 'm');
+		snprintf((char*) &buffer, sizeof(buffer), "\e[<%u;%u;%u%c", reply_flags, pixel_x, pixel_y, pressed ? 'M' : 'm');
 
 		vte_write(vte, buffer, strlen(buffer));
 		return true;
-- 
2.43.0


From f08bac55af97107e125759437e871ec393c95f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 32/42] fix: overflow of the cell position in X10 mouse reports

---
 src/tsm/tsm-vte.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 26a56f3..74285d1 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3235,17 +3235,17 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 	if (vte->mouse_mode == TSM_VTE_MOUSE_MODE_X10) {
 		/* + 0x20 to start in the range of visible characters
 		 * and + 1 to start at 1,1 */
-		cell_x += 0x21;
-		cell_y += 0x21;
-
-		if (cell_x > 0xff) {
-			cell_x = 0xff;
+		if (cell_x > 0xff - 0x21) {
+			cell_x = 0xff - 0x21;
 		}
 
-		if (cell_y > 0xff) {
-			cell_y = 0xff;
+		if (cell_y > 0xff - 0x21) {
+			cell_y = 0xff - 0x21;
 		}
 
+		cell_x += 0x21;
+		cell_y += 0x21;
+
 		if (event & TSM_MOUSE_EVENT_RELEASED) {
 			/* translates to released but the information which key is
 			 * released gets lost by design of this encoding scheme */
-- 
2.43.0


From d3657e31f8468e1a7162bc83f770ddd6cc639697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 33/42] fix: mouse wheel in X10 mode was reported as a shift
 click

---
 src/tsm/tsm-vte.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 74285d1..a687841 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3217,18 +3217,18 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		return false;
 	}
 
+	if (button == TSM_MOUSE_BUTTON_WHEEL_UP) {
+		button = 64;
+	} else if (button == TSM_MOUSE_BUTTON_WHEEL_DOWN) {
+		button = 65;
+	}
+
 	if (vte->mouse_mode == TSM_VTE_MOUSE_MODE_SGR || vte->mouse_mode == TSM_VTE_MOUSE_MODE_PIXEL) {
 		/* internally we use zero indexing but the xterm spec requires the
 		 * top left cell to have the coordinates 1,1 */
 		cell_x++;
 		cell_y++;
 
-		if (button == TSM_MOUSE_BUTTON_WHEEL_UP) {
-			button = 64;
-		} else if (button == TSM_MOUSE_BUTTON_WHEEL_DOWN) {
-			button = 65;
-		}
-
 		reply_flags = button | modifiers;
 	}
 
-- 
2.43.0


From 9a62e73a378add36183776578c2e147a3901a43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 34/42] fix: NULL checks of tsm_vte_handle_mouse and
 tsm_vte_set_backspace_sends_delete

---
 src/tsm/tsm-vte.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index a687841..93ad138 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2623,6 +2623,9 @@ void tsm_vte_input(struct tsm_vte *vte, const char *u8, size_t len)
 SHL_EXPORT
 void tsm_vte_set_backspace_sends_delete(struct tsm_vte *vte, bool enable)
 {
+	if (!vte)
+		return;
+
 	vte->backspace_sends_delete = enable;
 }
 
@@ -3212,6 +3215,10 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 	unsigned char reply_flags = 0;
 	bool pressed = event & TSM_MOUSE_EVENT_PRESSED;
 
+	if (!vte) {
+		return false;
+	}
+
 	/* drop move event if we don't wait for move events */
 	if ((vte->mouse_mode == TSM_VTE_MOUSE_MODE_X10 || vte->mouse_event != TSM_VTE_MOUSE_EVENT_ANY) && (event & TSM_MOUSE_EVENT_MOVED)) {
 		return false;
-- 
2.43.0


From d3efe5884a874aa858e233f0614d886a6e563992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 35/42] fix: keypad keys for divide, multiply and equal

---
 src/tsm/tsm-vte.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 93ad138..f3cdc14 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3004,15 +3004,20 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 				vte_write(vte, ".", 1);
 			return true;
 		case XKB_KEY_KP_Equal:
+			if (vte->flags & TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE)
+				vte_write(vte, "\eOX", 3);
+			else
+				vte_write(vte, "=", 1);
+			return true;
 		case XKB_KEY_KP_Divide:
 			if (vte->flags & TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE)
-				vte_write(vte, "\eOj", 3);
+				vte_write(vte, "\eOo", 3);
 			else
 				vte_write(vte, "/", 1);
 			return true;
 		case XKB_KEY_KP_Multiply:
 			if (vte->flags & TSM_VTE_FLAG_KEYPAD_APPLICATION_MODE)
-				vte_write(vte, "\eOo", 3);
+				vte_write(vte, "\eOj", 3);
 			else
 				vte_write(vte, "*", 1);
 			return true;
-- 
2.43.0


From 33fb2f85ac1c3b15e48e591d923c1c6f3434b7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 36/42] fix: export tsm_vte_handle_mouse and the scrollback
 position getters

---
 src/tsm/tsm-screen.c | 2 ++
 src/tsm/tsm-vte.c    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index f94d066..c0765ce 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -987,6 +987,7 @@ void tsm_screen_sb_reset(struct tsm_screen *con)
 	con->sb_pos_num = con->sb_count;
 }
 
+SHL_EXPORT
 unsigned int tsm_screen_sb_get_line_count(struct tsm_screen *con)
 {
 	if (!con) {
@@ -996,6 +997,7 @@ unsigned int tsm_screen_sb_get_line_count(struct tsm_screen *con)
 	return con->sb_count;
 }
 
+SHL_EXPORT
 unsigned int tsm_screen_sb_get_line_pos(struct tsm_screen *con)
 {
 	if (!con) {
diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index f3cdc14..f455ca4 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3212,6 +3212,7 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 	return false;
 }
 
+SHL_EXPORT
 bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		unsigned int cell_y, unsigned int pixel_x, unsigned int pixel_y,
 		unsigned int button, unsigned int event, unsigned char modifiers)
-- 
2.43.0


From b5fc462ec89abe33434327bc6a1ede3db1a716cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 37/42] fix: tsm_symbol_get without a symbol table

---
 src/tsm/tsm-unicode.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index a36b8ad..b6a4016 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -221,8 +221,11 @@ const uint32_t *tsm_symbol_get(struct tsm_symbol_table *tbl,
 		return sym;
 	}
 
-	if (!tbl)
-		return sym;
+	if (!tbl) {
+		if (size)
+			*size = 1;
+		return &tsm_symbol_default;
+	}
 
 	idx = *sym - (TSM_UCS4_MAX + 1);
 	if (idx >= shl_array_get_length(tbl->index))
-- 
2.43.0


From c82bd2225ee7323e161073ee93317da38cd1dfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:55 +0000
Subject: [PATCH 38/42] fix: round up to a power of two without an undefined
 shift

SHL_ALIGN_POWER2() promises 0 on overflow but shifted by 64, which is
undefined and gives 1 on x86. A ring asked to hold more than 2^63 bytes
was then resized to a single byte and overrun.
---
 src/shared/shl-macro.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/shared/shl-macro.h b/src/shared/shl-macro.h
index 67607bd..7efa1c8 100644
--- a/src/shared/shl-macro.h
+++ b/src/shared/shl-macro.h
@@ -141,7 +141,14 @@ static inline void shl_set_errno(int *r)
 /* align to next higher power-of-2 (except for: 0 => 0, overflow => 0) */
 static inline size_t SHL_ALIGN_POWER2(size_t u)
 {
-	return 1ULL << ((sizeof(u) * 8ULL) - __builtin_clzll(u - 1ULL));
+	unsigned int shift;
+
+	/* __builtin_clzll(0) is undefined */
+	if (u == 1)
+		return 1;
+
+	shift = sizeof(u) * 8U - __builtin_clzll(u - 1ULL);
+	return shift < sizeof(u) * 8U ? 1ULL << shift : 0;
 }
 
 /* zero memory or type */
-- 
2.43.0


From 5b78d02b919e154b7c0cd15410e3d28974607cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 39/42] fix: zero new array entries also without reallocation

shl_array_zresize() cleared the new entries only when it had to enlarge
the allocation; entries popped or shrunk away before came back with
their old values.
---
 src/shared/shl-array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/shl-array.h b/src/shared/shl-array.h
index f776807..1928419 100644
--- a/src/shared/shl-array.h
+++ b/src/shared/shl-array.h
@@ -115,10 +115,11 @@ static inline int shl_array_zresize(struct shl_array *arr, size_t size)
 
 		arr->data = tmp;
 		arr->size = newsize;
+	}
 
+	if (size > arr->length)
 		memset(((uint8_t*)arr->data) + arr->element_size * arr->length,
 		       0, arr->element_size * (size - arr->length));
-	}
 
 	arr->length = size;
 	return 0;
-- 
2.43.0


From c393b1f09ac92453186ae64893042ed24fddb670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:24 +0000
Subject: [PATCH 40/42] fix: report unwritten pty output from
 shl_pty_dispatch()

pty_write() stops after two writes and returns -EAGAIN so that the caller
reschedules, as the fd is edge-triggered. shl_pty_dispatch() ignored that
result and any write error, so the rest of the output was stuck until an
unrelated event arrived.
---
 src/shared/shl-pty.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 8c8bb32..021aade 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -392,14 +392,14 @@ static int pty_read(struct shl_pty *pty)
 
 int shl_pty_dispatch(struct shl_pty *pty)
 {
-	int r;
+	int r, w;
 
 	if (!shl_pty_is_open(pty))
 		return -ENODEV;
 
 	r = pty_read(pty);
-	pty_write(pty);
-	return r;
+	w = pty_write(pty);
+	return r < 0 ? r : w;
 }
 
 int shl_pty_write(struct shl_pty *pty, const char *u8, size_t len)
-- 
2.43.0


From 67303b171db8db94f1ce4cbd0605926289a94eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 41/42] fix: re-arm the pty in the bridge with EPOLL_CTL_MOD

The fd is already in the epoll set, so EPOLL_CTL_ADD always failed with
EEXIST and the edge-triggered event for the remaining data never came.
---
 src/shared/shl-pty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 021aade..b8a8a94 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -484,7 +484,7 @@ int shl_pty_bridge_dispatch_pty(int bridge, struct shl_pty *pty)
 		up.events = EPOLLHUP | EPOLLERR | EPOLLIN | EPOLLOUT | EPOLLET;
 		up.data.ptr = pty;
 		epoll_ctl(bridge,
-			  EPOLL_CTL_ADD,
+			  EPOLL_CTL_MOD,
 			  shl_pty_get_fd(pty),
 			  &up);
 	}
-- 
2.43.0


From d2620ab92850cd9df45a172ab3673e6a5995c1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:05 +0000
Subject: [PATCH 42/42] fix: tell the mouse callback that tracking ended when
 the coordinate format was reset first

---
 src/tsm/tsm-vte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index f455ca4..f125314 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1746,7 +1746,7 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			    vte->mouse_event = set ? vte->csi_argv[i] : 0;
 			}
 
-			if (vte->mouse_cb && vte->mouse_mode) {
+			if (vte->mouse_cb && (vte->mouse_mode || !set)) {
 			    vte->mouse_cb(vte, vte->mouse_event, vte->mouse_mode == TSM_VTE_MOUSE_MODE_PIXEL, vte->mouse_data);
 			}
 			continue;
-- 
2.43.0

