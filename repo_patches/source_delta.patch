From 234e797797a11adc2db86d27be7ccc23aee0e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 01/68] fix: cancel_event unlinks an event that is not at the
 head of the list

---
 src/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 6d186ba..fdd455f 100644
--- a/src/event.c
+++ b/src/event.c
@@ -122,7 +122,7 @@ cancel_event(struct _device *dev, _callback func)
            }
            /* Point previous event next to next */
            if (ptr_event->prev != NULL) {
-               ptr_event->next = ptr_event->next;
+               ptr_event->prev->next = ptr_event->next;
            } else {
                /* No previous, at head of list */
                event_head = ptr_event->next;
-- 
2.43.0


From c1a714ddc5e250cafb58ff0a00de52f74b696194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 02/68] fix: remove an event from the list before calling its
 callback

---
 src/event.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/event.c b/src/event.c
index fdd455f..51e2a69 100644
--- a/src/event.c
+++ b/src/event.c
@@ -150,15 +150,16 @@ advance()
     log_event("Advance event %d\n", ptr_event->time);
     ptr_event->time--;
     while (ptr_event != NULL && ptr_event->time == 0) {
-         (*ptr_event->func)(ptr_event->dev, ptr_event->arg, ptr_event->iarg);
+         /* Remove event before calling it, callback may add or cancel events */
          event_head = ptr_event->next;
-         free(ptr_event);
-         ptr_event = event_head;
-         if (ptr_event != NULL) {
-             ptr_event->prev = NULL;
+         if (event_head != NULL) {
+             event_head->prev = NULL;
          } else {
              event_tail = NULL;
          }
+         (*ptr_event->func)(ptr_event->dev, ptr_event->arg, ptr_event->iarg);
+         free(ptr_event);
+         ptr_event = event_head;
     }
 }
 
-- 
2.43.0


From 44581d97be4959879cdf068e2ff0a66e5699dbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 03/68] fix: writing right after reading a full tape buffer
 overwrote that buffer's place on the tape

---
 src/device/tape.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index e51db5a..6e5cc4a 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -287,9 +287,10 @@ tape_write_byte(struct _tape_buffer *tape, uint8_t data)
                  log_error("Tape write failed %s %d\n", tape->file_name, r);
                  return TAPE_STATUS_FILE_ERROR;
              }
-             tape->pos += tape->len_buff;
              tape->dirty = 0;
          }
+         /* Advance tape by size of buffer, even if it was only read */
+         tape->pos += tape->len_buff;
          tape->len_buff = 0;
          tape->pos_buff = 0;
      }
-- 
2.43.0


From 20e8de28d4405319bd8574d35937c41345bb3f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 04/68] fix: rewinding a tape clears its end of tape flag

---
 src/device/tape.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index 6e5cc4a..ad597b6 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -994,6 +994,7 @@ tape_start_rewind(struct _tape_buffer *tape)
     tape->pos = 0;
     tape->pos_buff = 0;
     tape->len_buff = 0;
+    tape->format &= ~TAPE_EOT;
     return TAPE_STATUS_OK;
 }
 
-- 
2.43.0


From db404eff27663e70d4a76e787124b33a0242dc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 05/68] fix: last record of a P7B tape image ends at the end of
 the file

---
 src/device/tape.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index ad597b6..f759e6c 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -771,6 +771,11 @@ tape_read_frame(struct _tape_buffer *tape, uint8_t *data)
                        if (tape->lrecl == 2)
                            return TAPE_STATUS_EOB;
                        r = tape_read_byte(tape, data);
+                       /* End of file also ends the last record */
+                       if (tape->lrecl == 1 && r == TAPE_STATUS_EOT) {
+                           tape->lrecl = 2;
+                           return TAPE_STATUS_EOB;
+                       }
                        if (tape->lrecl == 1 && (*data & IRG_MASK) != 0) {
                        r = tape_readbk_byte(tape, data);
                            tape->lrecl = 2;
-- 
2.43.0


From 62ea19b998a4497d041988979dac2674b7876332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 06/68] fix: a P7B record written over a longer one no longer
 runs into its remains

---
 src/device/tape.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index f759e6c..2315365 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -952,6 +952,11 @@ tape_finish_rec(struct _tape_buffer *tape)
                    }
                    switch ((tape->format >> FUNC_V) & FUNC_M) {
                    case FUNC_WRITE:
+                        /* Old data after this record is not part of it */
+                        if (tape_peek_byte(tape, &lrecl[0]) == TAPE_STATUS_OK) {
+                            tape->buffer[tape->pos_buff] |= IRG_MASK;
+                            tape->dirty = 1;
+                        }
                         break;
                    case FUNC_MARK:
                    case FUNC_REW:
-- 
2.43.0


From 52a133539e767c00e5adb762bf26b74ef2b35948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 07/68] fix: the card after a line of ~ in a deck is no longer
 lost

---
 src/device/card.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/device/card.c b/src/device/card.c
index 036d5cd..f2fd833 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -380,6 +380,8 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                 case '\0':
                 case '\r':
                     col = 80;
+                    i--;                /* Leave for end of line scan */
+                    break;
                 case ' ':
                     break;              /* Ignore these */
                 case '\t':
-- 
2.43.0


From 8e34b1c1e3c4b501d3863a172b86530112f4a288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 08/68] fix: a short ~raw line leaves the rest of the card
 blank

---
 src/device/card.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index f2fd833..87c55c1 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -403,8 +403,6 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                 if (buf->buffer[i] >= '0' && buf->buffer[i] <= '7') {
                     (*image)[col] = ((*image)[col] << 3) | (buf->buffer[i] - '0');
                     j++;
-                } else if (buf->buffer[i] == '\n' || buf->buffer[i] == '\r') {
-                   (*image)[0] |= 0xfff;
                 } else {
                     break;
                 }
-- 
2.43.0


From 8acbd0607f7dbb33b2744dc4ef64897bd1293afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 09/68] fix: a short binary deck no longer reads for ever

---
 src/device/card.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device/card.c b/src/device/card.c
index 87c55c1..928f834 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -466,6 +466,7 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
         log_card( "bin\n");
         if (buf->len < 160) {
             (*image)[0] = 0xfff;
+            buf->size = buf->len;
             return;
         }
         /* Move data to buffer */
-- 
2.43.0


From d8129453acb26fcf0ea4830119d7941bba7d5394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 10/68] fix: an empty deck file holds no cards

---
 src/device/card.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/device/card.c b/src/device/card.c
index 928f834..dbce8a0 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -672,6 +672,10 @@ read_deck(struct card_context *card_ctx, char *file_name)
                 buf.len += l;
         }
 
+        /* Nothing left, an empty file has no cards */
+        if (buf.len <= 0)
+            break;
+
         /* Allocate space for some more cards if needed */
         if (card_ctx->hopper_cards >= card_ctx->hopper_size) {
             card_ctx->hopper_size += DECK_SIZE;
-- 
2.43.0


From 9081b621d42710657171c6fb6c64b6dbdb727727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 11/68] fix: characters above 127 in a text deck no longer
 index outside the table

---
 src/device/card.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/card.c b/src/device/card.c
index dbce8a0..29de496 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -440,7 +440,7 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                     break;
                 default:
                     log_card_c("%c", c);
-                    temp = ascii_to_hol_029[(int)c];
+                    temp = (c & 0x80) ? 0xf000 : ascii_to_hol_029[(int)c];
                     if (temp & 0xf000)
                         temp = 0xfff;
                     (*image)[col++] = temp & 0xfff;
-- 
2.43.0


From 901ab16a3d95e4093048d7b89c82eba4c55773f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 12/68] fix: a card punched only in column one is not saved as
 ~eoraw

---
 src/device/card.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index 29de496..515a9cc 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -560,21 +560,25 @@ _punch_card(struct card_context *card_ctx, uint16_t (*image)[80])
         }
         /* Check if special card */
         if (i == 0) {
-            out[outp++] = 'e';
-            out[outp++] = 'o';
             if ((*image)[0] == 07) {
+               out[outp++] = 'e';
+               out[outp++] = 'o';
                out[outp++] = 'r';
                out[outp++] = '\n';
                log_card( "eor\n");
                break;
             }
             if ((*image)[0] == 015) {
+               out[outp++] = 'e';
+               out[outp++] = 'o';
                out[outp++] = 'f';
                out[outp++] = '\n';
                log_card( "eof\n");
                break;
             }
             if ((*image)[0] == 017) {
+               out[outp++] = 'e';
+               out[outp++] = 'o';
                out[outp++] = 'i';
                out[outp++] = '\n';
                log_card( "eoi\n");
-- 
2.43.0


From 3e595bf4d52f1f7a6b2b5ea84257c30a39307219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 13/68] fix: a card starting with ~ is not saved as a control
 line in automatic mode

---
 src/device/card.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/device/card.c b/src/device/card.c
index 515a9cc..048bb1b 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -529,6 +529,9 @@ _punch_card(struct card_context *card_ctx, uint16_t (*image)[80])
                 ok = 0;
              }
          }
+         /* Text starting with ~ would be taken as a control line */
+         if (out[0] == '~')
+             ok = 0;
          mode = ok?MODE_TEXT:MODE_OCTAL;
     }
 
-- 
2.43.0


From 1f86f35aa3ad046454c909925c8746f352d2cda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 14/68] fix: save_deck to a file that can not be created no
 longer leaves a freed file name

---
 src/device/card.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device/card.c b/src/device/card.c
index 048bb1b..457c5f5 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -838,6 +838,7 @@ save_deck(struct card_context *card_ctx, char *file_name)
         fclose(card_ctx->file);
     }
     free(card_ctx->file_name);
+    card_ctx->file_name = NULL;
 
 	card_ctx->file = fopen(file_name, "wb");
 	if (card_ctx->file == NULL)
-- 
2.43.0


From 78421bc85e32065cd47aac9060b1030166edcf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 15/68] fix: empty_cards writes the cards left, not what is
 behind them

---
 src/device/card.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/card.c b/src/device/card.c
index 457c5f5..7727f01 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -728,7 +728,7 @@ empty_cards(struct card_context *card_ctx)
     /* Flush any cards in hopper out to file */
     if (card_ctx->file != NULL) {
         while (card_ctx->hopper_pos < card_ctx->hopper_cards) {
-            _punch_card(card_ctx, &(*card_ctx->images)[card_ctx->hopper_cards]);
+            _punch_card(card_ctx, &(*card_ctx->images)[card_ctx->hopper_pos]);
         }
         fflush(card_ctx->file);
     }
-- 
2.43.0


From 7c6bfc314a3b58e11375e92eba9a0819b5106798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 16/68] fix: a text deck of many blank cards is no longer taken
 for a binary deck

---
 src/device/card.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/device/card.c b/src/device/card.c
index 7727f01..32c8e12 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -354,9 +354,21 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
         for (i = 0, temp = 0; i < 160 && i <buf->len; i+=2)
             temp |= (uint16_t)(buf->buffer[i] & 0xFF);
         /* Check if every other char < 16 & full buffer */
-        if ((temp & 0x0f) == 0 && i == 160)
+        if ((temp & 0x0f) == 0 && i == 160 && buf->len >= 160) {
             mode = MODE_BIN;        /* Probably binary */
 
+            /* Unless it is lines of text, such as those of blank cards */
+            for (i = 0, col = 0; i < 160; i++) {
+                if (buf->buffer[i] == '\n')
+                    col++;
+                else if (buf->buffer[i] != '\r' && buf->buffer[i] != '\t' &&
+                             (buf->buffer[i] < ' ' || buf->buffer[i] > '~'))
+                    break;
+            }
+            if (i == 160 && col != 0)
+                mode = MODE_TEXT;
+        }
+
         /* Check if modes match */
         if (card_ctx->mode != MODE_AUTO && card_ctx->mode != mode) {
             (*image)[0] = 0xfff;
-- 
2.43.0


From ac521da0c63a11928e968fb431e369bb572ef871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 17/68] fix: model2050: EXECUTE tests the base field of its
 subject instruction

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index d92a6af..19ed6d8 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3301,7 +3301,7 @@ cycle_2050()
             s_update &= ~(BIT0|BIT1);     /* <-- */
             if ((cpu_2050.aob_latch & 0x000f0000) == 0)
                 s_update |= BIT0;     /* <-- */
-            if ((cpu_2050.aob_latch & 0xf0000000) == 0)
+            if ((cpu_2050.aob_latch & 0x0000f000) == 0)
                 s_update |= BIT1;     /* <-- */
             if ((cpu_2050.aob_latch >> 28) <= 3) {
                 cpu_2050.SYLS1 = 1;
-- 
2.43.0


From ce916de381ed3ee3c6e987db222f71653379cda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:40 +0000
Subject: [PATCH 18/68] fix: model2030: check every main storage address, and
 the new one, for validity

---
 src/model2030/cpu2030.c | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 06e3cfa..8743cf6 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1176,23 +1176,6 @@ cycle_2030()
                    mem_wrap_req = 0;
                    switch (sal->CU) {
                    case 0:
-                       /* Check if in range of memory */
-                       if (((0xFFFF ^ mem_max) & cpu_2030.MN_REG) != 0) {
-                            mem_wrap_req = 1;
-                            log_trace("Memory wrap %04x\n", cpu_2030.MN_REG);
-                       }
-                       if (i_wrap_cpu && sal->CM == 3 && (cpu_2030.H_REG & BIT6) == 0) {
-                            mem_wrap_req = 1;
-                            log_trace("Memory wrap i wrap\n");
-                       }
-                       if (u_wrap_cpu && sal->CM == 4 && (cpu_2030.H_REG & BIT6) == 0) {
-                            mem_wrap_req = 1;
-                            log_trace("Memory wrap u wrap\n");
-                       }
-                       if (u_wrap_mpx && sal->CM == 4 && (cpu_2030.H_REG & BIT6) != 0) {
-                            mem_wrap_req = 1;
-                            log_trace("Memory wrap u wrap\n");
-                       }
                        break;
                    case 1:
                        cpu_2030.store = LOCAL;
@@ -1212,6 +1195,27 @@ cycle_2030()
                            cpu_2030.store = LOCAL;
                        }
                    }
+                   if (cpu_2030.store == MAIN) {
+                       /* Check if in range of memory */
+                       if (((0xFFFF ^ mem_max) & (((cpu_2030.M_REG & 0xff) << 8) |
+                                 (cpu_2030.N_REG & 0xff))) != 0) {
+                            mem_wrap_req = 1;
+                            log_trace("Memory wrap %02x%02x\n", cpu_2030.M_REG & 0xff,
+                                 cpu_2030.N_REG & 0xff);
+                       }
+                       if (i_wrap_cpu && sal->CM == 3 && (cpu_2030.H_REG & BIT6) == 0) {
+                            mem_wrap_req = 1;
+                            log_trace("Memory wrap i wrap\n");
+                       }
+                       if (u_wrap_cpu && sal->CM == 4 && (cpu_2030.H_REG & BIT6) == 0) {
+                            mem_wrap_req = 1;
+                            log_trace("Memory wrap u wrap\n");
+                       }
+                       if (u_wrap_mpx && sal->CM == 4 && (cpu_2030.H_REG & BIT6) != 0) {
+                            mem_wrap_req = 1;
+                            log_trace("Memory wrap u wrap\n");
+                       }
+                   }
                    if (!cpu_2030.allow_write && !mem_wrap_req) {
                        read_call = 1;
                    }
-- 
2.43.0


From 284bb5733f1747384af02266e4678b8c82a6f7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:17 +0000
Subject: [PATCH 19/68] fix: model2050: in ASCII mode change only the signs and
 zones the microcode supplies

---
 src/model2050/cpu2050.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 19ed6d8..bd0380e 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4034,12 +4034,13 @@ cycle_2050()
                 cpu_2050.G2NEG = 0;
                 break;
         case 12: /* W->MMB(E?)  */
+                /* Only signs and zones that come from the E field */
                 if ((cpu_2050.AMWP & 0x8) != 0) {
-                    if ((cpu_2050.w_bus & 0xf) == 0xc)
+                    if (sal->ur == 0 && (cpu_2050.w_bus & 0xf) == 0xc)
                         cpu_2050.w_bus = (cpu_2050.w_bus & 0xf0) | 0xa;
-                    if ((cpu_2050.w_bus & 0xf) == 0xd)
+                    if (sal->ur == 0 && (cpu_2050.w_bus & 0xf) == 0xd)
                         cpu_2050.w_bus = (cpu_2050.w_bus & 0xf0) | 0xb;
-                    if ((cpu_2050.w_bus & 0xf0) == 0xf0)
+                    if (sal->ul == 0 && (cpu_2050.w_bus & 0xf0) == 0xf0)
                         cpu_2050.w_bus = (cpu_2050.w_bus & 0x0f) | 0x50;
                 }
                 cpu_2050.M_REG &= ~(0xff << (8 * (3-cpu_2050.MB_REG)));
-- 
2.43.0


From 1a2bca61549a5097b949afab255656565728a280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 20/68] fix: 2050 floating add: sign of an effective
 subtraction with a negative first operand

---
 src/model2050/cpu2050.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index bd0380e..3d9b4ef 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3426,10 +3426,6 @@ cycle_2050()
                       But not both. (Add type result minus)
                    If S0 and S1 == 0 and left adder input bit 0 != right adder input
                      bit 0 */
-            if ((s_update & (BIT0|BIT1)) != 0 && t1 && t) {
-                s_update |= BIT4;     /* <-- */
-            }
-
             if (((s_update & (BIT0)) != 0 && t1 == 0 && t2 == 0 && carry_out) ||     /* <-- */
                 ((s_update & (BIT0)) != 0 && t1 == 0 && t2 != 0 && !t && carry_out) ||     /* <-- */
                 ((s_update & (BIT1)) != 0 && t1 == 0 && t2 != 0 && t && carry_out) ||     /* <-- */
-- 
2.43.0


From 35cc2e8a56c584819e02f44a8f5729e4c6b2cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 21/68] fix: 2050 floating add: exponent differences of 16 or
 more taken as small

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 3d9b4ef..0042e03 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3404,7 +3404,7 @@ cycle_2050()
                 s_update |= BIT7;
             /* Stat 6 turned on:
                    If abs(ED) < 16. */
-            if ((t & 0x70) == 0 || (t & 0x70) == 0x70) {
+            if ((t1 != 0 && (t & 0x70) == 0) || (t1 == 0 && (t & 0x70) == 0x70)) {
                 s_update |= BIT6;
             }
             t = (carries & CPOS0) != 0;
-- 
2.43.0


From 1b5fc7901e90e27219d06d32135588b0c4ce9acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 22/68] fix: 2050 floating compare: wrong sign with a negative
 second operand

---
 src/model2050/cpu2050.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 0042e03..4fd0ce5 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3417,6 +3417,7 @@ cycle_2050()
                 s_update |= BIT5;     /* <-- */
             /* S0 = add
                S1 = sub
+               S0 and S1 = compare
                S2 = unorm
                S3 = comp sign when S0 and S1 zero (Multiply or divide).
             */
@@ -3426,11 +3427,11 @@ cycle_2050()
                       But not both. (Add type result minus)
                    If S0 and S1 == 0 and left adder input bit 0 != right adder input
                      bit 0 */
-            if (((s_update & (BIT0)) != 0 && t1 == 0 && t2 == 0 && carry_out) ||     /* <-- */
+            if (((s_update & (BIT0|BIT1)) == BIT0 && t1 == 0 && t2 == 0 && carry_out) ||     /* <-- */
                 ((s_update & (BIT0)) != 0 && t1 == 0 && t2 != 0 && !t && carry_out) ||     /* <-- */
                 ((s_update & (BIT1)) != 0 && t1 == 0 && t2 != 0 && t && carry_out) ||     /* <-- */
                 ((s_update & (BIT0|BIT1)) != 0 && t1 != 0 && t2 == 0 && !t) ||     /* <-- */
-                ((s_update & (BIT0)) != 0 && t1 != 0 && t2 == 0 && t && carry_out) ||     /* <-- */
+                ((s_update & (BIT0|BIT1)) == BIT0 && t1 != 0 && t2 == 0 && t && carry_out) ||     /* <-- */
                 ((s_update & (BIT0)) != 0 && t1 != 0 && t2 != 0 && !carry_out) ||     /* <-- */
                 ((s_update & (BIT1)) != 0 && t1 != 0 && t2 != 0) ||     /* <-- */
                 ((s_update & (BIT0|BIT1|BIT3)) == 0 && t1 != t2) ||     /* <-- */
-- 
2.43.0


From 21bd9a0f7e4d0b0e0b0f50b8ba22a85d5c955825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 23/68] fix: 2050 microcode: unnormalized add took every result
 with a guard digit for zero

---
 src/model2050/ros.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/ros.txt b/src/model2050/ros.txt
index b9449c2..d5b5894 100644
--- a/src/model2050/ros.txt
+++ b/src/model2050/ros.txt
@@ -53,7 +53,7 @@ add   binary address   sheet  box  mode  binary bit pattern
 0020 0 0000 0010 0000  qv104  j1   io    0 000 00 101001 0100 100 00000 0  1  01 101 1 001 00000 000 0  000 00 001 01 01 0 0000 000 1  000 000 0 000001 00001 0  000000
 0021 0 0000 0010 0001  qv540  j3   io    1 100 10 000000 1010 100 00000 0  0  00 111 1 000 00000 000 0  101 00 011 11 11 1 1000 000 1  000 000 0 000001 00001 0  000000
                                          p lu  mv zp     zf   zn  tr    zr ws  sf  p iv  al    wm   up md lb mb dg  ul ur p ce   lx  tc ry  ad   ab     bb    ux ss       92--97
-0022 0 0000 0010 0010  qg420  n4   -     0 000 00 100111 0101 100 00000 0  100 111 0 000 00000 0000 10 0  0  0  000 01 01 1 0000 000 1  000 0001 000001 00001 0  000000 00 0000000
+0022 0 0000 0010 0010  qg420  n4   -     0 000 00 100111 0101 100 00000 0  100 111 0 000 00000 0000 10 0  0  0  000 01 01 1 0000 000 1  000 0001 000010 00001 0  000000 00 0000000
                                          p lu  mv zp     zf   zn  tr    zr cs sa sf  p ct  al    wl  hc ms  cg mg  ul ur p ce   lx  tc ry  cl    ab     bb    ux ss       92--97
 0023 0 0000 0010 0011  qv110  g2   io    0 001 00 000000 1111 100 00000 0  0  00 111 0 011 00000 000 0  001 11 011 00 00 1 0000 001 1  000 000 0 000000 00000 0  000000
 0024 0 0000 0010 0100  qv105  j1   io    1 000 00 101000 0100 111 00000 0  1  01 101 1 001 00000 000 0  000 00 001 01 01 0 0000 000 1  000 000 0 011100 11010 0  000000
-- 
2.43.0


From 8304efab7111c342c0f95132af7e70800be295f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 24/68] fix: the 2030 serves its interval timer: an update
 request interrupts the instruction stream

---
 src/model2030/cpu2030.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 8743cf6..3a9166b 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -676,6 +676,9 @@ cycle_2030()
            timer_update = 1;
        }
    }
+   if (timer_update && !process_stop) {
+       interrupt = 1;
+   }
    if ((cpu_2030.MASK & BIT7) && cpu_2030.F_REG != 0) {
        interrupt = 1;
    }
-- 
2.43.0


From 048641112a72c71fe57bee18c9663aca788e049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 25/68] fix: 2030 storage protection: a suppressed store left
 its storage cycle open, and the next register write stored stale data

---
 src/model2030/cpu2030.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 3a9166b..34c10f5 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1106,8 +1106,13 @@ cycle_2030()
            if (cpu_2030.dead_cycle == 0) {
                switch (sal->CM) {
                case 2:       /* Store */
-                       if (stg_prot_req)
+                       if (stg_prot_req) {
+                           /* Location keeps its value, storage cycle is done */
+                           cpu_2030.allow_write = 0;
+                           read_call = 0;
+                           inh_stg_prot = 0;
                            break;
+                       }
                        /* Fall through */
                case 0:       /* Write */
                       /* Do write to memory from this request */
-- 
2.43.0


From 826dec4ca62988deada8deb7d22e30596b3dbade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:31 +0000
Subject: [PATCH 26/68] fix: 2030 storage protection: put back the byte that
 was read when the store is suppressed

---
 src/model2030/cpu2030.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 34c10f5..a533f68 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1097,7 +1097,8 @@ cycle_2030()
                         break;
                    }
                }
-               cpu_2030.allow_write = 1;
+               /* A protected location that was not read has nothing to write back */
+               cpu_2030.allow_write = !(sal->CM == 2 && stg_prot_req);
                read_call = 0;
            }
 
@@ -1106,8 +1107,8 @@ cycle_2030()
            if (cpu_2030.dead_cycle == 0) {
                switch (sal->CM) {
                case 2:       /* Store */
-                       if (stg_prot_req) {
-                           /* Location keeps its value, storage cycle is done */
+                       if (stg_prot_req && mem_prot) {
+                           /* No such location, storage cycle is done */
                            cpu_2030.allow_write = 0;
                            read_call = 0;
                            inh_stg_prot = 0;
-- 
2.43.0


From 3b6b5ad01097f860b25a1a0ecc344cefb29c53d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:54 +0000
Subject: [PATCH 27/68] fix: 2030 system reset left external signals pending

---
 src/model2030/cpu2030.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index a533f68..e30b080 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -393,6 +393,7 @@ cycle_2030()
       cpu_2030.S_REG = 0;
       cpu_2030.MC_REG = 0;
       cpu_2030.C_REG = 0;
+      cpu_2030.F_REG = 0;
       cpu_2030.I_REG = 0x100;
       cpu_2030.J_REG = 0x100;
       cpu_2030.U_REG = 0x100;
-- 
2.43.0


From 6cd56194c7f825f405a6d842ff714fa432fc541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:16 +0000
Subject: [PATCH 28/68] fix: configuration: stale model options, over-long
 names, and free() of a stack object in get_model

---
 src/conf.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 9449ad3..6142968 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -104,6 +104,12 @@ get_model(struct _option *opt)
     char            temp1[20];
     char            temp2[20];
     int             flags = 0;
+    /* Nothing is carried over from the previous line */
+    opt->opt[0] = '\0';
+    opt->model = '\0';
+    opt->dash_num = 0;
+    opt->slash_num = 0;
+    opt->flags = 0;
     /* Skip leading space */
     while(isspace(*line_ptr))
         line_ptr++;
@@ -113,7 +119,7 @@ get_model(struct _option *opt)
     /* Grab either a word or a number */
     p = &opt->opt[0];
     len = 0;
-    while (len < 20 && (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/')) {
+    while (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/') {
         /* Start of -#, save in temp1 */
         if (*line_ptr == '-' && (flags & 1) == 0) {
            flags |= 1;
@@ -128,12 +134,14 @@ get_model(struct _option *opt)
            len = 0;
         /* Otherwise save it away */
         } else if (isalnum(*line_ptr)) {
-           *p = toupper(*line_ptr);
-            p++;
-            len++;
+            /* No name or number is this long, drop what does not fit */
+            if (len < 19) {
+                *p = toupper(*line_ptr);
+                p++;
+                len++;
+            }
         } else {
             fprintf(stderr, "Invalid character in option\n");
-            free(opt);
             return 0;
         }
         line_ptr++;
-- 
2.43.0


From 2dd48e911d7fb89d9f7e685dfd2e92e0ea2d4530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:16 +0000
Subject: [PATCH 29/68] fix: configuration: an address of many digits overran
 its buffer or was cut to 16 bits

---
 src/conf.c | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 6142968..1961648 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -183,36 +183,25 @@ get_model(struct _option *opt)
 int
 get_addr(struct _option *opt)
 {
-    char           *p;
-    int             len;
     int             i;
-    char            temp1[20];
     /* Skip leading space */
     while(isspace(*line_ptr))
         line_ptr++;
     /* If comment or end of line, we got nothing */
-    if (*line_ptr == '#' || *line_ptr == '\n' || *line_ptr == '\0')
-        return 0;
-    p = &temp1[0];
-    len = 0;
-    while (len < 20 && isxdigit(*line_ptr)) {
-       *p = toupper(*line_ptr);
-       p++;
-       line_ptr++;
-    }
-    *p = '\0';
-    if (temp1[0] == '\0')
+    if (!isxdigit(*line_ptr))
         return 0;
     i = 0;
-    p = &temp1[0];
-    while (*p != '\0') {
+    while (isxdigit(*line_ptr)) {
         i <<= 4;
-        if (isalpha(*p)) {
-            i += (*p - 'A' + 10);
+        if (isalpha(*line_ptr)) {
+            i += (toupper(*line_ptr) - 'A' + 10);
         } else {
-            i += (*p - '0');
+            i += (*line_ptr - '0');
         }
-        p++;
+        /* Address must fit */
+        if (i > 0xffff)
+            return 0;
+        line_ptr++;
     }
     opt->addr = i;
     return 1;
-- 
2.43.0


From 5cfd34414cf411a7533e1f69cab5732404680b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:16 +0000
Subject: [PATCH 30/68] fix: configuration: option values with quotes, missing
 values, comma separators and over-long options

---
 src/conf.c | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 1961648..726a521 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -227,19 +227,25 @@ get_string(struct _option *opt)
         quote = 1;
         line_ptr++;
     }
-    while (len < 1024) {
+    while (len < (int)sizeof(opt->string) - 1) {
+       if (*line_ptr == '\n' || *line_ptr == '\0') {
+           *p = '\0';
+           /* No closing quote */
+           return quote == 0;
+       }
        if (*line_ptr == '"' && quote) {
            line_ptr++;
            if (*line_ptr == '"') {
-               *p = '"';
+               *p++ = '"';
                line_ptr++;
                len++;
-           } else if (isspace(*line_ptr) || *line_ptr == '\n' || *line_ptr == '\0') {
+           } else {
                *p = '\0';
-               return 1;
+               /* Must be followed by a seperator */
+               return isspace(*line_ptr) || *line_ptr == ',' || *line_ptr == '#' || *line_ptr == '\0';
            }
        } else {
-           if (quote == 0 && (isspace(*line_ptr) || *line_ptr == '\n' || *line_ptr == '\0')) {
+           if (quote == 0 && (isspace(*line_ptr) || *line_ptr == ',')) {
                *p = '\0';
                return 1;
            }
@@ -251,7 +257,7 @@ get_string(struct _option *opt)
        }
     }
     *p = '\0';
-    return 1;
+    return 0;
 }
 
 int
@@ -263,8 +269,8 @@ get_option(struct _option *opt)
     opt->opt[0] = '\0';
     opt->string[0] = '\0';
     opt->flags = 0;
-    /* Skip leading space */
-    while(isspace(*line_ptr))
+    /* Skip leading space and seperators */
+    while(isspace(*line_ptr) || *line_ptr == ',')
         line_ptr++;
     /* If comment or end of line, we got nothing */
     if (*line_ptr == '#' || *line_ptr == '\n' || *line_ptr == '\0')
@@ -272,20 +278,31 @@ get_option(struct _option *opt)
     /* Grab either a word or a number */
     p = &opt->opt[0];
     len = 0;
-    while (len < 20 && (isalnum(*line_ptr) || *line_ptr == '-')) {
-       *p = toupper(*line_ptr);
-       p++;
-       len++;
+    while (isalnum(*line_ptr) || *line_ptr == '-') {
+       /* No option is this long, drop what does not fit */
+       if (len < (int)sizeof(opt->opt) - 1) {
+           *p = toupper(*line_ptr);
+           p++;
+           len++;
+       }
        line_ptr++;
     }
     *p = '\0';
+    /* Not an option, return it as one without a name */
+    if (len == 0) {
+        fprintf(stderr, "Invalid character %c in options\n", *line_ptr);
+        line_ptr++;
+        return 1;
+    }
     /* Check if we have equals sign */
     if (*line_ptr == '=') {
         line_ptr++;
         if (get_string(opt)) {
             opt->flags = 1;
         } else {
-            return 0;
+            fprintf(stderr, "Invalid value for option %s\n", opt->opt);
+            opt->opt[0] = '\0';
+            opt->string[0] = '\0';
         }
     }
     return 1;
-- 
2.43.0


From e0353f83f10231552cdf53c17518963d3a09cfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:16 +0000
Subject: [PATCH 31/68] fix: configuration: the rest of an over-long line was
 taken for another line

---
 src/conf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/conf.c b/src/conf.c
index 726a521..5a96f1a 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -379,6 +379,12 @@ load_config(char *name)
 
     while (fgets(line_buffer, sizeof(line_buffer), config) != NULL) {
        line_ptr = line_buffer;
+       /* What does not fit would be taken for another line */
+       if (strchr(line_buffer, '\n') == NULL && !feof(config)) {
+           fprintf(stderr, "Line too long in configuration file: %s\n", name);
+           fclose(config);
+           return 0;
+       }
 /*       fprintf(stderr, "line=%s", line_buffer); */
        fnd = 0;
        if (get_model(&opt)) {
-- 
2.43.0


From 4e1de68a939b070a2d1e908cea770312f3dba966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:38 +0000
Subject: [PATCH 32/68] fix: devices at channel addresses 6 and 7 were chained
 outside of the channel table

---
 src/device/device.c | 2 +-
 src/device/device.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/device/device.c b/src/device/device.c
index 0d6f7d7..c96e648 100644
--- a/src/device/device.c
+++ b/src/device/device.c
@@ -41,7 +41,7 @@ static char *state_tags[] = {
 
 
 struct _disk *disk = NULL;       /* Disk controllers */
-struct _device *chan[6];         /* Channels */
+struct _device *chan[8];         /* Channels */
 uint32_t      *M;
 uint32_t      mem_max;
 
diff --git a/src/device/device.h b/src/device/device.h
index 6d2abac..ca616e0 100644
--- a/src/device/device.h
+++ b/src/device/device.h
@@ -162,7 +162,7 @@ struct _control {
     unsigned int    magic;
 };
 
-extern device_t       *chan[6];         /* Channels */
+extern device_t       *chan[8];         /* Channels */
 extern struct _disk   *disk;            /* Disk controller that need to be run */
 
 void print_tags(char *name, int state, uint16_t tags, uint16_t bus_out);
-- 
2.43.0


From a7338b4512b4002612f201f0ba4413d76a3135d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:38 +0000
Subject: [PATCH 33/68] fix: get_index took a missing value for the first of
 the list

---
 src/conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index 5a96f1a..e46aa90 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -337,7 +337,7 @@ get_index(struct _option *opt, char *list[])
 
     if (opt->string[0] == '\0') {
        fprintf(stderr, "Option %s requires a value\n", opt->opt);
-       return 0;
+       return -1;
     }
 
     for (i = 0; list[i] != NULL; i++) {
-- 
2.43.0


From 6c1e954613a9c9e8dd9f4091aa6791359563cb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:58 +0000
Subject: [PATCH 34/68] fix: 1442 option BLANK refused every valid number

---
 src/model1442/panel1442.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1442/panel1442.c b/src/model1442/panel1442.c
index 271c812..1720de9 100644
--- a/src/model1442/panel1442.c
+++ b/src/model1442/panel1442.c
@@ -98,7 +98,7 @@ model1442_create(struct _option *opt)
                empty_cards(ctx->feed);
            } else if (strcmp(opts.opt, "BLANK") == 0 && opts.flags == 1) {
                int num;
-               if (get_integer(&opts, &num) != 0)
+               if (get_integer(&opts, &num) == 0)
                    return 0;
                blank_deck(ctx->feed, num);
            } else if (strcmp(opts.opt, "FORMAT") == 0) {
-- 
2.43.0


From 7466836dcc793dd35a2e2aaf6ec3614a49d1e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:58 +0000
Subject: [PATCH 35/68] fix: 2302 unit could never be created

---
 src/model2841/model2841.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2841/model2841.c b/src/model2841/model2841.c
index 8f37963..4b16f5a 100644
--- a/src/model2841/model2841.c
+++ b/src/model2841/model2841.c
@@ -1147,7 +1147,7 @@ model2302_create(struct _option *opt)
          return 0;
      }
      ctx->disk[i] = (struct _dasd_t *)calloc(1, sizeof(struct _dasd_t));
-     if (ctx->disk[i] != NULL) {
+     if (ctx->disk[i] == NULL) {
          fprintf(stderr, "Unable to create device %s %03x\n", opt->opt, opt->addr);
          return 0;
      }
-- 
2.43.0


From b65f7784ea8501dc21d48d90cef6c9c460cc71fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:14 +0000
Subject: [PATCH 36/68] fix: a refused 1442 or 1443 line left its device on the
 channel

---
 src/model1442/panel1442.c | 15 ++++++++++++---
 src/model1443/model1443.c |  3 +--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/model1442/panel1442.c b/src/model1442/panel1442.c
index 1720de9..e1f0931 100644
--- a/src/model1442/panel1442.c
+++ b/src/model1442/panel1442.c
@@ -92,19 +92,28 @@ model1442_create(struct _option *opt)
            if (strcmp(opts.opt, "FILE") == 0 && opts.flags == 1) {
                if (read_deck(ctx->feed, opts.string) != 1) {
                   log_error("Unable to attach deck %s\n", opts.string);
+                  del_chan(dev1442, opt->addr);
+                  free(dev1442);
                   return 0;
                }
            } else if (strcmp(opts.opt, "EMPTY") == 0) {
                empty_cards(ctx->feed);
            } else if (strcmp(opts.opt, "BLANK") == 0 && opts.flags == 1) {
                int num;
-               if (get_integer(&opts, &num) == 0)
+               if (get_integer(&opts, &num) == 0) {
+                   del_chan(dev1442, opt->addr);
+                   free(dev1442);
                    return 0;
+               }
                blank_deck(ctx->feed, num);
            } else if (strcmp(opts.opt, "FORMAT") == 0) {
                i = get_index(&opts, card_fmt_type);
-               if (i >= 0)
-                   ctx->feed->mode = i;
+               if (i < 0) {
+                   del_chan(dev1442, opt->addr);
+                   free(dev1442);
+                   return 0;
+               }
+               ctx->feed->mode = i;
            } else {
                fprintf(stderr, "Invalid option %s to 1442\n", opts.opt);
                del_chan(dev1442, opt->addr);
diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 3096da5..6118ad3 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -1090,8 +1090,6 @@ model1443_create(struct _option *opt)
      lpr->form = 1;
      lpr->fcb = &cctape_legacy[0];
      lpr->lpp = 66;
-     add_chan(dev1443, opt->addr);
-
      /* Parse options given on definition */
      while (get_option(&opts)) {
            if (strcmp(opts.opt, "START") == 0 && lpr->file != NULL) {
@@ -1123,6 +1121,7 @@ model1443_create(struct _option *opt)
            }
      }
 
+     add_chan(dev1443, opt->addr);
      return 1;
 }
 
-- 
2.43.0


From a317994156f9fd3d4b21d2f63df93f381e5dbd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:31 +0000
Subject: [PATCH 37/68] fix: initial status and data were presented while
 command-out was still up

A channel that takes its answer back late was taken to stack the initial
status (1442, 2415) or to stop the transfer.
---
 src/model1442/model1442.c | 7 +++++--
 src/model2415/model2415.c | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index b0cc740..07cffdb 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -474,6 +474,9 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     case STATE_STATUS:
              /* Wait for Command out to drop */
              *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN);      /* Drop address in */
+             if ((*tags & CHAN_CMD_OUT) != 0) {
+                  break;
+             }
 
              *bus_in = ctx->status | odd_parity[ctx->status];
              log_device("1442: %03x initial status %02x\n",unit->addr, ctx->status);
@@ -694,8 +697,8 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
       case STATE_DATA_1:      /* Send or recieve data from CPU */
              *tags &= ~CHAN_SEL_OUT;
-             if ((*tags & CHAN_SRV_OUT) != 0) {
-                  /* Wait for service out to drop */
+             if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
+                  /* Wait for service out and command out to drop */
                   break;
              }
              if ((*tags & CHAN_SUP_OUT) != 0) {
diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 5f2ff55..9d8e0c5 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1066,6 +1066,9 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     case STATE_STATUS:
              /* Wait for Command out to drop */
              *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN);      /* Drop address in */
+             if ((*tags & CHAN_CMD_OUT) != 0) {
+                  break;
+             }
              *bus_in = ctx->status | odd_parity[ctx->status];
              log_device("2415: %03x initial status %02x\n",unit->addr, ctx->status);
              *tags |= (CHAN_STA_IN);
@@ -1286,8 +1289,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
       case STATE_DATA_1:      /* Send or recieve data from CPU */
              *tags &= ~CHAN_SEL_OUT;
-             if ((*tags & CHAN_SRV_OUT) != 0) {
-                  /* Wait for service out to drop */
+             if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
+                  /* Wait for service out and command out to drop */
                   break;
              }
              if ((*tags & CHAN_SUP_OUT) != 0) {
-- 
2.43.0


From 52f22c6e6dd726d69cef564fdc5013e4b91056ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:02 +0000
Subject: [PATCH 38/68] fix: 2415 put the address of the control unit instead
 of the selected drive on the bus

---
 src/model2415/model2415.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 9d8e0c5..ce8318e 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1014,7 +1014,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             unit->request = 0;
 
             log_device("2415: %03x waiting command %02x\n",unit->addr, ctx->status);
-            *bus_in = (unit->addr & 0xff) | odd_parity[unit->addr & 0xff];
+            *bus_in = ctx->cur_unit | (unit->addr & 0xf8);
+            *bus_in |= odd_parity[*bus_in];
             /* we get command out, process command */
             if ((*tags & (CHAN_CMD_OUT)) != 0) {
                 *tags &= ~(CHAN_ADR_IN);        /* Command out, drop addressin */
-- 
2.43.0


From cd515a7b0ccaa11c752eeb8cf045ebc82b2a9ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:53 +0000
Subject: [PATCH 39/68] fix: 2415 presented a drive's device end under another
 drive, again and again

---
 src/model2415/model2415.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index ce8318e..8065be2 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -981,7 +981,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  if ((*tags & CHAN_SUP_OUT) == 0 && (unit->request || unit->stacked)) {
                      *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);
                      *tags |= CHAN_OPR_IN;      /* Put our address on bus */
-                     if ((ctx->rdy_flags & (1 << ctx->t_scan)) == 0) {
+                     if ((ctx->rdy_flags & (1 << ctx->t_scan)) != 0) {
                          *bus_in = (unit->addr & 0xf8) | ctx->t_scan;
                          *bus_in |= odd_parity[*bus_in];
                          ctx->cur_unit = ctx->t_scan;
-- 
2.43.0


From 9f150e85178671e9de8ea98740a035c347d6b5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 40/68] fix: every write to a 2415 drive ended in intervention
 required

---
 src/model2415/model2415.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 8065be2..e99cc02 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -641,14 +641,14 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            }
            /* Do a write start */
            r = tape_write_start(ctx->tape[ctx->cur_unit]);
-           if (r == 1) {
+           if (r == TAPE_STATUS_OK) {
               ctx->sense[0] = SENSE_WCZERO;
               ctx->sense[1] |= SENSE_WRITE;
               add_event(unit, &tape_callback, START_DELAY,
                        (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
               ctx->cmd_done = 0;
               ctx->data_rdy = 1;
-           } else if (r == 2) {
+           } else if (r == TAPE_STATUS_WRP) {
                ctx->sense[0] = SENSE_CMDREJ;
            } else {
                ctx->sense[0] = SENSE_INTERV;
-- 
2.43.0


From e48d68dc285d8cdfdc48687203a34db41ac400c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:37 +0000
Subject: [PATCH 41/68] fix: 2415 presented device end of a rewind at once and
 under whatever drive came next

---
 src/model2415/model2415.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index e99cc02..e2f0ab6 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -474,7 +474,6 @@ tape_callback(struct _device *unit, void *arg, int u)
                 ctx->data_end = 1;
                 if (ctx->chaining == 0) {
                     ctx->cmd_done = 1;
-                    ctx->status |= SNS_DEVEND;
                     ctx->cmd = 0;
                 }
                 break;
-- 
2.43.0


From bb84bfa898e8c7d59a2538f1eda4261f99e60d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:15 +0000
Subject: [PATCH 42/68] fix: the next write byte was requested with garbage
 from past the parity table on the bus

---
 src/model1052/model1052.c | 2 +-
 src/model1442/model1442.c | 2 +-
 src/model1443/model1443.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index b71378f..221a553 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -671,7 +671,7 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           ctx->busy = 0;
                           ctx->cmd_done = 1;
                       } else {
-                          ctx->data = bus_out;
+                          ctx->data = bus_out & 0xff;
                           add_event(unit, &send_callback, 5000, NULL, 0);
                       }
                  }
diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 07cffdb..acb06d9 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -727,7 +727,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           ctx->busy = 0;
                           ctx->cmd_done = 1;
                       } else {
-                          ctx->data = bus_out; /* Grab data */
+                          ctx->data = bus_out & 0xff; /* Grab data */
                       }
                  }
                  ctx->state = STATE_OPR;   /* Go to process this data */
diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 6118ad3..496f694 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -608,7 +608,7 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                       ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
                       ctx->state = STATE_END;
                   } else {
-                      ctx->data = bus_out; /* Grab data */
+                      ctx->data = bus_out & 0xff; /* Grab data */
                       ctx->state = STATE_INIT_STAT;       /* Wait for channel to be idle again */
                       ctx->buf[ctx->col] = ctx->data & 0xff;
                       ctx->col++;
-- 
2.43.0


From cd1835f5f8a998a26921b5d8ad3b64a90e9b65d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:37 +0000
Subject: [PATCH 43/68] fix: reading or spacing past the end of a tape image
 hung the 2415

---
 src/model2415/model2415.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index e2f0ab6..c3438c7 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -674,7 +674,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            }
            /* Do a read start */
            r = tape_read_forw(ctx->tape[ctx->cur_unit]);
-           if (r < 0) {
+           if (r != TAPE_STATUS_OK && r != TAPE_STATUS_MARK) {
                ctx->sense[0] = SENSE_INTERV;
            } else {
                log_trace("Buffer = %x\n", (void *)&ctx->tape[ctx->cur_unit]);
@@ -710,7 +710,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            /* Do a read start */
            r = tape_read_back(ctx->tape[ctx->cur_unit]);
            log_device("Tape read back %d : %d\n", ctx->cur_unit, r);
-           if (r < 0) {
+           if (r != TAPE_STATUS_OK && r != TAPE_STATUS_MARK) {
                ctx->sense[0] = SENSE_INTERV;
            } else {
                add_event(unit, &tape_callback, START_DELAY,
@@ -812,7 +812,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
                 ctx->data_end = 1;
                 /* Do a read start */
                 r = tape_read_forw(ctx->tape[ctx->cur_unit]);
-                if (r >= 0) {
+                if (r == TAPE_STATUS_OK || r == TAPE_STATUS_MARK) {
                     add_event(unit, &tape_callback, START_DELAY,
                             (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
                  ctx->cmd_done = 0;
@@ -833,7 +833,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
                 }
                 /* Do a read start */
                 r = tape_read_back(ctx->tape[ctx->cur_unit]);
-                if (r >= 0) {
+                if (r == TAPE_STATUS_OK || r == TAPE_STATUS_MARK) {
                     add_event(unit, &tape_callback, START_DELAY,
                              (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
                  ctx->cmd_done = 0;
-- 
2.43.0


From 29d8ca72ef5001e122ddf2ed7110babd42e9c74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:54 +0000
Subject: [PATCH 44/68] fix: a 2415 drive in motion left the control unit open
 to commands that changed what it did

---
 src/model2415/model2415.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index c3438c7..e775754 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -200,6 +200,7 @@ done_callback(struct _device *unit, void *arg, int u)
     struct _2415_context *ctx = (struct _2415_context *)unit->dev;
 
     ctx->cmd_done = 1;
+    ctx->busy = 0;
     if ((ctx->cmd & 0x3) == 0x3) {
         ctx->rdy_flags |= 1 << u;  /* Set ready flag for device */
     }
@@ -458,6 +459,7 @@ tape_callback(struct _device *unit, void *arg, int u)
            switch (ctx->cmd & 0xff) {
            case 0x0f:    /* Rewind and unload */
                 tape_start_rewind(tape);
+                ctx->busy = 0;
                 add_event(unit, model2415_rewind_callback, REWIND_DELAY, (void *)tape, u);
                 ctx->data_end = 1;
                 ctx->cmd_done = 1;
@@ -469,6 +471,7 @@ tape_callback(struct _device *unit, void *arg, int u)
            case 0x07:    /* Rewind */
                 log_device("start rewind %d\n", ctx->chaining);
                 tape_start_rewind(tape);
+                ctx->busy = 0;
                 ctx->rew_flags |= 1 << ctx->cur_unit;
                 add_event(unit, model2415_rewind_callback, REWIND_DELAY, (void *)tape, u);
                 ctx->data_end = 1;
@@ -871,6 +874,10 @@ device_cmd(struct _device *unit, uint8_t bus_out)
     if (ctx->cmd_done != 0) {
         ctx->status |= SNS_DEVEND;
     }
+    /* Control unit can't do anything else until tape stops moving */
+    if ((ctx->cmd & 0x7) == 0x7 && ctx->cmd_done == 0) {
+        ctx->busy = 1;
+    }
 }
 
 /* Process channel */
-- 
2.43.0


From 7341c33160e4b555b74e62273a55e87d906e7bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:33 +0000
Subject: [PATCH 45/68] fix: a record whose length runs past the end of the
 tape image hung the simulator

---
 src/device/tape.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index 2315365..88a7aa4 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -859,6 +859,8 @@ tape_finish_rec(struct _tape_buffer *tape)
                         /* Make sure we are at end of record. */
                         while (tape->lrecl < tape->orecl) {
                              r = tape_read_frame(tape, &lrecl[0]);
+                             if (r != TAPE_STATUS_OK)
+                                 return r;
                         }
                         /* If simH style tape, make sure even number of bytes per record */
                         if ((tape->format & TAPE_FMT) == TYPE_TAP && tape->orecl & 1) {
@@ -928,6 +930,8 @@ tape_finish_rec(struct _tape_buffer *tape)
                         while (tape->lrecl > 0) {
                              r = tape_read_frame(tape, &lrecl[0]);
                              log_tape(" Tape read bk lrecl=%d\n", tape->lrecl);
+                             if (r != TAPE_STATUS_OK)
+                                 return r;
                         }
                         /* Read in 4 byte trailing record length logical record length */
                         for (i = 0; i < 4; i++) {
-- 
2.43.0


From a04e5c597529b55885678e652c0465f2f2180558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:18 +0000
Subject: [PATCH 46/68] fix: 1442 lost device end that came up while the
 channel was taking other status

---
 src/model1442/model1442.c | 14 ++++++++------
 src/model1442/model1442.h |  1 +
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index acb06d9..0032321 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -478,6 +478,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                   break;
              }
 
+             ctx->sta_in = ctx->status;
              *bus_in = ctx->status | odd_parity[ctx->status];
              log_device("1442: %03x initial status %02x\n",unit->addr, ctx->status);
              *tags |= (CHAN_STA_IN);
@@ -488,7 +489,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     case STATE_STATUS_ACCEPT:
              /* CPU will respond in a couple ways. */
              *tags &= ~(CHAN_SEL_OUT);
-             *bus_in = ctx->status | odd_parity[ctx->status];
+             *bus_in = ctx->sta_in | odd_parity[ctx->sta_in];
              if ((*tags & CHAN_CMD_OUT) != 0) {      /* CPU does not want status, stack it */
                  log_device("1442: %03x status stacked\n",unit->addr);
                  unit->stacked = 1;
@@ -499,10 +500,10 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              if ((*tags & CHAN_SRV_OUT) != 0) {   /* CPU accepted the status, continue on */
                 log_device("1442: %03x status accepted\n",unit->addr);
 
-                ctx->status = 0;
+                ctx->status &= ~ctx->sta_in;   /* More may have come up meanwhile */
                 *tags &= ~(CHAN_STA_IN);
                 /* If end of command, and status accepted, all done */
-                if (ctx->cmd_done || ctx->cmd == 0) {
+                if ((ctx->cmd_done || ctx->cmd == 0) && ctx->status == 0) {
                     *tags &= ~(CHAN_OPR_IN);
                     unit->stacked = 0;
                     ctx->data_end = 0;
@@ -575,6 +576,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                   break;
              }
 
+             ctx->sta_in = ctx->status;
              *bus_in = ctx->status | odd_parity[ctx->status];
              *tags |= (CHAN_STA_IN);
 
@@ -586,7 +588,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
      case STATE_END_ACCEPT:
              *tags &= ~(CHAN_SEL_OUT);
 
-             *bus_in = ctx->status | odd_parity[ctx->status];
+             *bus_in = ctx->sta_in | odd_parity[ctx->sta_in];
              /* CPU does not want status right now. stack it */
              if ((*tags & CHAN_CMD_OUT) != 0) {
                  log_device("1442: %03x status stacked %d\n",unit->addr, unit->request);
@@ -600,9 +602,9 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              if ((*tags & CHAN_SRV_OUT) != 0) {
 
                  log_device("1442: %03x status accepted %d\n",unit->addr, unit->request);
-                 ctx->status = 0;
+                 ctx->status &= ~ctx->sta_in;   /* More may have come up meanwhile */
                  /* If end of command, and status accepted, all done */
-                 if (ctx->cmd_done) {
+                 if (ctx->cmd_done && ctx->status == 0) {
                      *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
                      unit->stacked = 0;
                      ctx->cmd = 0;
diff --git a/src/model1442/model1442.h b/src/model1442/model1442.h
index 4c35811..7e80033 100644
--- a/src/model1442/model1442.h
+++ b/src/model1442/model1442.h
@@ -51,6 +51,7 @@ struct _1442_context {
     int                    cmd_done;     /* Command finished */
     int                    status;       /* Current bus status */
     int                    data;         /* Current byte to send/recieve */
+    uint8_t                sta_in;       /* Status being presented to channel */
     int                    data_rdy;     /* Data is valid */
     int                    data_end;     /* Data transfer over */
     int                    data_end_post;     /* Data end sent to CPU */
-- 
2.43.0


From 8c1fedb9ea697caebb5d9a332dff6fe34b2e1e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:52 +0000
Subject: [PATCH 47/68] fix: 2415 lost device end of a rewind that finished
 while its drive was being tested

---
 src/model2415/model2415.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index e775754..5842641 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -151,7 +151,7 @@ model2415_rewind_callback(struct _device *unit, void *arg, int u)
                log_device("Detach device %d\n", u);
                tape_detach(tape);
                ctx->run_flags &= ~(1 << u);
-           } else if (ctx->cur_unit == u && ctx->state != STATE_IDLE) {
+           } else if (ctx->busy && ctx->cur_unit == u) {
                if (ctx->chaining) {
                    log_device("Chain done device %d\n", u);
                }
@@ -159,6 +159,10 @@ model2415_rewind_callback(struct _device *unit, void *arg, int u)
                ctx->status &= ~(SNS_CTLEND|SNS_UNITCHK);
                ctx->cmd = 0;
                ctx->cmd_done = 1;
+               ctx->busy = 0;
+               if (ctx->state == STATE_IDLE) {
+                   ctx->rdy_flags |= 1 << u;
+               }
                log_device("Rewind finished %d\n", u);
            } else {
                ctx->rdy_flags |= 1 << u;
@@ -178,7 +182,7 @@ model2415_rewind_callback(struct _device *unit, void *arg, int u)
         if (ctx->run_flags & (1 << u)) {
             tape_detach(tape);
             ctx->run_flags &= ~(1 << u);
-        } else if (ctx->cur_unit == u && ctx->state != STATE_IDLE) {
+        } else if (ctx->busy && ctx->cur_unit == u) {
             if (ctx->chaining) {
                 log_device("Chain done device %d\n", u);
             }
@@ -186,6 +190,10 @@ model2415_rewind_callback(struct _device *unit, void *arg, int u)
             ctx->cmd = 0;
             ctx->status &= ~(SNS_CTLEND|SNS_UNITCHK);
             ctx->cmd_done = 1;
+            ctx->busy = 0;
+            if (ctx->state == STATE_IDLE) {
+                ctx->rdy_flags |= 1 << u;
+            }
         } else {
             ctx->rdy_flags |= 1 << u;
         }
@@ -471,12 +479,12 @@ tape_callback(struct _device *unit, void *arg, int u)
            case 0x07:    /* Rewind */
                 log_device("start rewind %d\n", ctx->chaining);
                 tape_start_rewind(tape);
-                ctx->busy = 0;
                 ctx->rew_flags |= 1 << ctx->cur_unit;
                 add_event(unit, model2415_rewind_callback, REWIND_DELAY, (void *)tape, u);
                 ctx->data_end = 1;
                 if (ctx->chaining == 0) {
                     ctx->cmd_done = 1;
+                    ctx->busy = 0;
                     ctx->cmd = 0;
                 }
                 break;
-- 
2.43.0


From 0de561c4d0ed6b6e697e9663121b572e5ea2fbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:56 +0000
Subject: [PATCH 48/68] fix: busy from a rewinding 2415 drive came with a
 device end

---
 src/model2415/model2415.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 5842641..8988413 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -866,6 +866,13 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            ctx->cmd_done = 1;
            break;
     }
+    /* Busy drive does not end anything */
+    if ((ctx->status & SNS_BSY) != 0) {
+        ctx->cmd = 0;
+        ctx->data_end = 0;
+        ctx->cmd_done = 0;
+        return;
+    }
     if (ctx->cmd != 4 && ((ctx->sense[0] & ~(SENSE_WCZERO)) != 0 ||
                             (ctx->sense[1] & BIT7) != 0)) {
         ctx->status |= SNS_UNITCHK;
-- 
2.43.0


From e9e1b8be1f1c3e5c52557371dc907b3c77ef2c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:47 +0000
Subject: [PATCH 49/68] fix: control unit end of a 2415 unload came with
 whatever drive was next used

---
 src/model2415/model2415.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 8988413..0a0d095 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -474,6 +474,7 @@ tape_callback(struct _device *unit, void *arg, int u)
                 ctx->rew_flags |= 1 << ctx->cur_unit;
                 ctx->run_flags |= 1 << ctx->cur_unit;
                 ctx->status = SNS_CTLEND|SNS_DEVEND|SNS_UNITCHK;
+                ctx->rdy_flags |= 1 << u;
                 ctx->cmd = 0;
                 break;
            case 0x07:    /* Rewind */
-- 
2.43.0


From 825bb0810a5659dc65200c5f391a480755cd5dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:44 +0000
Subject: [PATCH 50/68] fix: a program naming a tape drive that is not there
 crashed the simulator

---
 src/model2415/model2415.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 0a0d095..5da95f4 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -640,7 +640,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
                              SENSE_LOAD|SENSE_NORING);
            ctx->sense[3] = 0;
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit]->file_name == NULL) {
+           if (ctx->tape[ctx->cur_unit] == NULL || ctx->tape[ctx->cur_unit]->file_name == NULL) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
@@ -680,7 +680,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            ctx->sense[2] = SENSE_2;
            ctx->sense[3] = 0;
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit]->file_name == NULL) {
+           if (ctx->tape[ctx->cur_unit] == NULL || ctx->tape[ctx->cur_unit]->file_name == NULL) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
@@ -707,7 +707,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            ctx->sense[3] = 0;
 
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit]->file_name == 0) {
+           if (ctx->tape[ctx->cur_unit] == NULL || ctx->tape[ctx->cur_unit]->file_name == NULL) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
@@ -794,7 +794,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
                              SENSE_LOAD|SENSE_NORING);
            ctx->sense[3] = 0;
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit]->file_name == 0) {
+           if (ctx->tape[ctx->cur_unit] == NULL || ctx->tape[ctx->cur_unit]->file_name == NULL) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
@@ -970,7 +970,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             if ((*tags & CHAN_SEL_OUT) != 0) {
                  /* Check if looking for this device */
                  if ((*tags & CHAN_ADR_OUT) != 0) {
-                     if ((bus_out & 0xf8) == (unit->addr & 0xf8)) {
+                     if ((bus_out & 0xf8) == (unit->addr & 0xf8) && (bus_out & 0x7) < ctx->nunits) {
                         *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);
                         /* Check if parity error on bus */
                         if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
@@ -1380,6 +1380,10 @@ model2415_create(struct _option *opt)
          }
          i = opt->addr & 0x7;
          tape = (struct _2415_context *)dev2415->dev;
+         if (i >= tape->nunits) {
+             fprintf(stderr, "Device not found %s %03x\n", opt->opt, opt->addr);
+             return 0;
+         }
          tape->tape[i] = (struct _tape_buffer *)calloc(1, sizeof(struct _tape_buffer));
          tape->tape[i]->format = TRACK9;
          tape->supply_color[i] = 2;
-- 
2.43.0


From c2782d8d064fffd68daa5473ca1efe50581193d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:30 +0000
Subject: [PATCH 51/68] fix: 2415 drive that is not ready answered busy for
 ever instead of intervention required

---
 src/model2415/model2415.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 5da95f4..3628ef4 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -631,7 +631,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
     case 0x5: /* Write */
     case 0x9: /* Write */
     case 0xD: /* Write */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
+           if ((ctx->sense[1] & (SENSE_TUA|SENSE_TUB)) == (SENSE_TUA|SENSE_TUB)) {
                ctx->status = SNS_BSY;
                break;
            }
@@ -640,7 +640,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
                              SENSE_LOAD|SENSE_NORING);
            ctx->sense[3] = 0;
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit] == NULL || ctx->tape[ctx->cur_unit]->file_name == NULL) {
+           if (!tape_ready(ctx->tape[ctx->cur_unit])) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
@@ -670,7 +670,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
     case 0x6: /* Read */
     case 0xa: /* Read */
     case 0xe: /* Read */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
+           if ((ctx->sense[1] & (SENSE_TUA|SENSE_TUB)) == (SENSE_TUA|SENSE_TUB)) {
                ctx->status = SNS_BSY;
                break;
            }
@@ -680,7 +680,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            ctx->sense[2] = SENSE_2;
            ctx->sense[3] = 0;
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit] == NULL || ctx->tape[ctx->cur_unit]->file_name == NULL) {
+           if (!tape_ready(ctx->tape[ctx->cur_unit])) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
@@ -697,7 +697,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            break;
 
       case 0xc:  /* Read backwords. */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
+           if ((ctx->sense[1] & (SENSE_TUA|SENSE_TUB)) == (SENSE_TUA|SENSE_TUB)) {
                ctx->status = SNS_BSY;
                break;
            }
@@ -707,7 +707,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            ctx->sense[3] = 0;
 
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit] == NULL || ctx->tape[ctx->cur_unit]->file_name == NULL) {
+           if (!tape_ready(ctx->tape[ctx->cur_unit])) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
@@ -740,7 +740,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
 
     case 0x3: /* Mode command */
     case 0xb: /* Mode command */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
+           if ((ctx->sense[1] & (SENSE_TUA|SENSE_TUB)) == (SENSE_TUA|SENSE_TUB)) {
                ctx->status = SNS_BSY;
                ctx->cmd = 0;
                ctx->cmd_done = 1;
@@ -785,7 +785,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
 
     case 0x7:  /* Tape motion control */
     case 0xf:  /* Tape motion control */
-           if ((ctx->sense[1] & SENSE_TUB) != 0) {
+           if ((ctx->sense[1] & (SENSE_TUA|SENSE_TUB)) == (SENSE_TUA|SENSE_TUB)) {
                ctx->status = SNS_BSY;
                break;
            }
@@ -794,7 +794,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
                              SENSE_LOAD|SENSE_NORING);
            ctx->sense[3] = 0;
            /* Check if tape attached */
-           if (ctx->tape[ctx->cur_unit] == NULL || ctx->tape[ctx->cur_unit]->file_name == NULL) {
+           if (!tape_ready(ctx->tape[ctx->cur_unit])) {
                ctx->sense[0] = SENSE_INTERV;
                break;
            }
-- 
2.43.0


From dd5c9eb77b1a201f9bb5d37233b96b79c9947912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:16 +0000
Subject: [PATCH 52/68] fix: 1442 presented busy as ending status after stacked
 channel end

---
 src/model1442/model1442.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 0032321..e3385c1 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -501,6 +501,8 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 log_device("1442: %03x status accepted\n",unit->addr);
 
                 ctx->status &= ~ctx->sta_in;   /* More may have come up meanwhile */
+                unit->stacked = 0;
+                unit->request = ctx->status != 0;
                 *tags &= ~(CHAN_STA_IN);
                 /* If end of command, and status accepted, all done */
                 if ((ctx->cmd_done || ctx->cmd == 0) && ctx->status == 0) {
@@ -603,6 +605,8 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
                  log_device("1442: %03x status accepted %d\n",unit->addr, unit->request);
                  ctx->status &= ~ctx->sta_in;   /* More may have come up meanwhile */
+                 unit->stacked = 0;
+                 unit->request = ctx->status != 0;
                  /* If end of command, and status accepted, all done */
                  if (ctx->cmd_done && ctx->status == 0) {
                      *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
-- 
2.43.0


From d48a68340af01511980323653f8291b387f8f9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:59 +0000
Subject: [PATCH 53/68] fix: overrun left a 2415 tape in the middle of the
 record

---
 src/model2415/model2415.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 3628ef4..abbd8aa 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -353,7 +353,7 @@ tape_callback(struct _device *unit, void *arg, int u)
                ctx->data_end = 1;
                ctx->sense[0] |= SENSE_OVRRUN;
                ctx->status |= SNS_CHNEND|SNS_UNITCHK;
-               add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
+               add_event(unit, tape_callback, FRAME_DELAY, (void *)tape, u);
            } else {
                r = tape_read_frame(tape, &ctx->data);
                log_device("Tape read frame %d\n", r);
-- 
2.43.0


From 9bfb5436dc8f97ba7b3528fb0e4e8808ecbb2d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:30 +0000
Subject: [PATCH 54/68] fix: 2415 never ended a command that ran off a damaged
 tape

---
 src/model2415/model2415.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index abbd8aa..a35c2a1 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -360,6 +360,9 @@ tape_callback(struct _device *unit, void *arg, int u)
                switch(r) {
                case TAPE_STATUS_FILE_ERROR:
                    /* Set up read error */
+                    ctx->data_end = 1;
+                    ctx->status |= SNS_UNITCHK|SNS_CHNEND;
+                    add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
                     break;
 
                case TAPE_STATUS_EOT:
@@ -505,6 +508,8 @@ tape_callback(struct _device *unit, void *arg, int u)
                 log_device("space tape %d\n", r);
                 switch(r) {
                 case TAPE_STATUS_FILE_ERROR:
+                case TAPE_STATUS_EOT:
+                case TAPE_STATUS_BOT:
                      /* Set up read error */
                      ctx->status |= SNS_UNITCHK;
                      add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
-- 
2.43.0


From e62263ef3da4d8517d584a05f3ef7bad3db44b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:18 +0000
Subject: [PATCH 55/68] fix: device end of a rewound 2415 drive was lost when
 the drive was selected before it was polled

---
 src/model2415/model2415.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index a35c2a1..6e00c0d 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -992,6 +992,10 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                             break;
                         }
                         ctx->cur_unit = bus_out & 0x7;
+                        /* Drive has come ready, that comes first */
+                        if ((ctx->rdy_flags & (1 << ctx->cur_unit)) != 0) {
+                            ctx->status |= SNS_DEVEND;
+                        }
 
                         /* Clear select in, and raise operation in */
                         *tags |= CHAN_OPR_IN;             /* Put our address on bus */
-- 
2.43.0


From 63f4397953ad3e3c83f7d9f5ac48fe3957ddc49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 56/68] fix: 2415 status of one drive was lost or mixed with
 another's when a rewind ended at the wrong moment

Bytes skipped after the channel stopped were put on the bus, a stacked
status went out under whatever drive was selected next, and device end of
a rewind was dropped when it came up during another selection.
---
 src/model2415/model2415.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 6e00c0d..49ec4b8 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -221,6 +221,7 @@ tape_callback(struct _device *unit, void *arg, int u)
 {
     struct _2415_context *ctx = (struct _2415_context *)unit->dev;
     struct _tape_buffer  *tape = (struct _tape_buffer *)arg;
+    uint8_t  skip;
     int      r;
 
     log_trace("Tape = %x, arg=%d\n", tape, u);
@@ -337,7 +338,7 @@ tape_callback(struct _device *unit, void *arg, int u)
               the rest of the data */
            log_device("Do read command %d %d %d\n", ctx->data_end, ctx->data_rdy, ctx->state);
            if (ctx->data_end) {
-               r = tape_read_frame(tape, &ctx->data);
+               r = tape_read_frame(tape, &skip);
                log_device("Tape read frame dataend %d\n", r);
                if (r != TAPE_STATUS_OK) {
                    /* Process end */
@@ -949,7 +950,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                if (ctx->t_scan >= 6) {
                    ctx->t_scan = 0;
                }
-            } else {
+            } else if (ctx->busy == 0) {
                unit->request = 1;
             }
 
@@ -983,7 +984,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                         }
                         /* If device in operation, respond with busy status */
                         /* If another unit has pending status. */
-                        if (ctx->busy || (ctx->rdy_flags != 0 && (ctx->rdy_flags & (1 << (bus_out & 0x7))) == 0)) {
+                        if (ctx->busy || (unit->stacked && (bus_out & 0x7) != ctx->cur_unit) ||
+                            (ctx->rdy_flags != 0 && (ctx->rdy_flags & (1 << (bus_out & 0x7))) == 0)) {
                             *bus_in = SNS_BSY|SNS_SMS | odd_parity[SNS_BSY|SNS_SMS];
                             *tags |= CHAN_STA_IN;             /* Put Busy flag on bus */
                             ctx->state = STATE_BUSY;
@@ -1012,7 +1014,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  if ((*tags & CHAN_SUP_OUT) == 0 && (unit->request || unit->stacked)) {
                      *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);
                      *tags |= CHAN_OPR_IN;      /* Put our address on bus */
-                     if ((ctx->rdy_flags & (1 << ctx->t_scan)) != 0) {
+                     if (!unit->stacked && (ctx->rdy_flags & (1 << ctx->t_scan)) != 0) {
                          *bus_in = (unit->addr & 0xf8) | ctx->t_scan;
                          *bus_in |= odd_parity[*bus_in];
                          ctx->cur_unit = ctx->t_scan;
@@ -1074,6 +1076,10 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                     break;
                 }
                 ctx->state = STATE_STATUS; /* Present status out */
+                /* Drive could have come ready since it was selected */
+                if ((ctx->rdy_flags & (1 << ctx->cur_unit)) != 0) {
+                    ctx->status |= SNS_DEVEND;
+                }
                 if (!unit->stacked && ctx->status == 0) {       /* If no stacked status, process command */
                     device_cmd(unit, bus_out & 0xff);
                 }
@@ -1128,6 +1134,10 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                     ctx->chaining = 0;
                  }
 
+                /* Device end of drive has been taken */
+                if ((ctx->status & SNS_DEVEND) != 0) {
+                    ctx->rdy_flags &= ~(1 << ctx->cur_unit);
+                }
                 ctx->status = 0;
                 *tags &= ~(CHAN_STA_IN);
                 /* If end of command, and status accepted, all done */
@@ -1140,7 +1150,6 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                     ctx->cmd = 0;
                     ctx->busy = 0;
                     ctx->state = STATE_STATUS_WAIT;
-                    ctx->rdy_flags &= ~(1 << ctx->cur_unit);
                     break;
                 }
 
-- 
2.43.0


From 4f5b04c976daaa5d2f74dab3c5e8dfc7332d7399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 57/68] fix: saving stacker 2 of the 1442 saved stacker 1

---
 src/model1442/panel1442.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1442/panel1442.c b/src/model1442/panel1442.c
index e1f0931..d8449a2 100644
--- a/src/model1442/panel1442.c
+++ b/src/model1442/panel1442.c
@@ -295,7 +295,7 @@ static void model1442_update(void *arg, int iarg)
           break;
 
     case 10: /* Save Stacker 2 */
-          r = save_deck(ctx->stack[0], get_textbuffer(ctx->input[2]));
+          r = save_deck(ctx->stack[1], get_textbuffer(ctx->input[2]));
           break;
     }
     ctx->hop_cnt = hopper_size(ctx->feed);
-- 
2.43.0


From 862c2cdfd29bad9d6ea5d4d9fd44a88b8ca638d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:14 +0000
Subject: [PATCH 58/68] fix: 1442 went on punching and asking for data after a
 byte with bad parity had ended the write

---
 src/model1442/model1442.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index e3385c1..26cea8e 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -732,6 +732,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           ctx->status |= SNS_CHNEND|SNS_DEVEND;
                           ctx->busy = 0;
                           ctx->cmd_done = 1;
+                          cancel_event(unit, &write_callback);
                       } else {
                           ctx->data = bus_out & 0xff; /* Grab data */
                       }
-- 
2.43.0


From 5216e05fa1ee32ec8ff2a2a9d8bb8f3034885305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:18 +0000
Subject: [PATCH 59/68] fix: a write of no bytes put two tape marks on a 2415
 tape

---
 src/model2415/model2415.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 49ec4b8..2e77978 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -268,10 +268,18 @@ tape_callback(struct _device *unit, void *arg, int u)
                       r = tape_write_frame(tape, ctx->data);
                    }
                }
-               r = tape_finish_rec(tape);
+               if ((ctx->sense[0] & SENSE_WCZERO) != 0) {
+                  /* Nothing came, nothing was written */
+                  ctx->status |= SNS_UNITCHK;
+               } else {
+                  r = tape_finish_rec(tape);
+               }
                add_event(unit, done_callback, STOP_DELAY, (void *)tape, u);
            } else if (ctx->data_rdy == 0) {
               /* Do a write start */
+              if ((ctx->sense[0] & SENSE_WCZERO) != 0) {
+                  r = tape_write_start(tape);
+              }
                ctx->sense[0] &= ~(SENSE_WCZERO);
                if (!tape_9_track(ctx->tape[ctx->cur_unit])) {
                    uint8_t   mode = (ctx->mode7 & MT_ODD) ? 0 : 0x100;
@@ -656,20 +664,13 @@ device_cmd(struct _device *unit, uint8_t bus_out)
                ctx->sense[0] = SENSE_CMDREJ;
                break;
            }
-           /* Do a write start */
-           r = tape_write_start(ctx->tape[ctx->cur_unit]);
-           if (r == TAPE_STATUS_OK) {
-              ctx->sense[0] = SENSE_WCZERO;
-              ctx->sense[1] |= SENSE_WRITE;
-              add_event(unit, &tape_callback, START_DELAY,
-                       (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
-              ctx->cmd_done = 0;
-              ctx->data_rdy = 1;
-           } else if (r == TAPE_STATUS_WRP) {
-               ctx->sense[0] = SENSE_CMDREJ;
-           } else {
-               ctx->sense[0] = SENSE_INTERV;
-           }
+           /* Record is started with its first byte */
+           ctx->sense[0] = SENSE_WCZERO;
+           ctx->sense[1] |= SENSE_WRITE;
+           add_event(unit, &tape_callback, START_DELAY,
+                    (void *)ctx->tape[ctx->cur_unit], ctx->cur_unit);
+           ctx->cmd_done = 0;
+           ctx->data_rdy = 1;
            break;
 
     case 0x2: /* Read */
-- 
2.43.0


From eb034f32d3603fe7c9d0a6e3bd665296a4e94125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:22 +0000
Subject: [PATCH 60/68] fix: a byte with bad parity left a 2415 record
 unfinished

---
 src/model2415/model2415.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 2e77978..367c72a 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1356,10 +1356,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                       if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
                           ctx->sense[0] |= SENSE_BUSCHK;
                           ctx->status |= (SNS_UNITCHK);
-                          ctx->data_end = 1;
-                          ctx->status |= SNS_CHNEND|SNS_DEVEND;
-                          ctx->busy = 0;
-                          ctx->cmd_done = 1;
+                          ctx->data_end = 1;     /* Record ends here */
+                          ctx->status |= SNS_CHNEND;
                       } else {
                           ctx->data = bus_out; /* Grab data */
                       }
-- 
2.43.0


From 41ab74e045788ec1ed9edae9c051b0b9eeb83da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:16 +0000
Subject: [PATCH 61/68] fix: unit exception of one 2415 drive came with the
 device end of another that had rewound

---
 src/model2415/model2415.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 367c72a..d24fff4 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -985,7 +985,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                         }
                         /* If device in operation, respond with busy status */
                         /* If another unit has pending status. */
-                        if (ctx->busy || (unit->stacked && (bus_out & 0x7) != ctx->cur_unit) ||
+                        if (ctx->busy || ((unit->stacked || ctx->status != 0) && (bus_out & 0x7) != ctx->cur_unit) ||
                             (ctx->rdy_flags != 0 && (ctx->rdy_flags & (1 << (bus_out & 0x7))) == 0)) {
                             *bus_in = SNS_BSY|SNS_SMS | odd_parity[SNS_BSY|SNS_SMS];
                             *tags |= CHAN_STA_IN;             /* Put Busy flag on bus */
@@ -1015,7 +1015,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  if ((*tags & CHAN_SUP_OUT) == 0 && (unit->request || unit->stacked)) {
                      *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);
                      *tags |= CHAN_OPR_IN;      /* Put our address on bus */
-                     if (!unit->stacked && (ctx->rdy_flags & (1 << ctx->t_scan)) != 0) {
+                     /* Status of a command is of the drive it was for */
+                     if (!unit->stacked && ctx->status == 0 && (ctx->rdy_flags & (1 << ctx->t_scan)) != 0) {
                          *bus_in = (unit->addr & 0xf8) | ctx->t_scan;
                          *bus_in |= odd_parity[*bus_in];
                          ctx->cur_unit = ctx->t_scan;
-- 
2.43.0


From 0fcc457f28e36e58ba6c57aa78cbf9e49491865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:35 +0000
Subject: [PATCH 62/68] fix: 2030 selector channel stopped a device that asked
 for a byte while data chaining fetched the next CCW

---
 src/model2030/cpu2030.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index e30b080..33d5b40 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -2583,7 +2583,7 @@ chan_scan:
 
                  if (sel_cnt_rdy_zero[i] != 0 && sel_gr_full[i] == 0 &&
                      (cpu_2030.GE[i] & (BIT1|BIT2|BIT3|BIT4|BIT5|BIT6)) == 0 &&
-                      sel_chan_busy[i]) {
+                      (cpu_2030.GF[i] & BIT0) == 0 && sel_chan_busy[i]) {
                      log_selchn("Read end\n");
                      if ((cpu_2030.GF[i] & BIT2) == 0)
                          cpu_2030.GE[i] |= BIT1;
@@ -2603,7 +2603,7 @@ chan_scan:
                  /* Check for stop condition */
                  if (sel_cnt_rdy_zero[i] != 0 && sel_gr_full[i] == 0 &&
                      (cpu_2030.GE[i] & (BIT1|BIT2|BIT3|BIT4|BIT5|BIT6)) == 0 &&
-                      sel_chan_busy[i]) {
+                      (cpu_2030.GF[i] & BIT0) == 0 && sel_chan_busy[i]) {
                      cpu_2030.SEL_TAGS[i] |= CHAN_CMD_OUT;
                      if ((cpu_2030.GF[i] & BIT2) == 0) {  /* Set length error */
                           cpu_2030.GE[i] |= BIT1;
-- 
2.43.0


From 68216ebaa91dbf4079cf28c636ec3bd158d99f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:35 +0000
Subject: [PATCH 63/68] fix: 2030 selector channel lost incorrect length,
 chained past it, and used bytes and count of the last command

Output fetches a byte ahead, so a device that ended a write early was not
seen to have left any, the byte went to the next command, and the count that
was left started fetching for the next command before it was set up. With
command chaining, incorrect length did not end the chain.
---
 src/model2030/cpu2030.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 33d5b40..33bc944 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -242,6 +242,20 @@ static char  dis_buffer[1024];
 
 DEV_LIST_STRUCT(2030, CPU_TYPE, CHAR_OPT|NUM_MOD);
 
+/* Did the device end before the count was used up, and should it have not?
+   A byte waiting in GR has been counted: for output the device did not take
+   it, for input it is still to be stored. The SLI flag does not count when
+   data chaining is on. */
+static int
+sel_short(int i)
+{
+    if ((cpu_2030.GI[i] & SNS_CHNEND) == 0 || (cpu_2030.GF[i] & (BIT0|BIT2)) == BIT2)
+        return 0;
+    if ((cpu_2030.GG[i] & 1) != 0 && sel_gr_full[i] != 0)
+        return 1;
+    return sel_cnt_rdy_not_zero[i] != 0 && sel_gr_full[i] == 0;
+}
+
 void
 cycle_2030()
 {
@@ -2199,6 +2213,9 @@ cycle_2030()
            case 0x19:
                    /* Selector R to selector command */
                    cpu_2030.GG[cpu_2030.ch_sel] = cpu_2030.GR[cpu_2030.ch_sel];
+                   /* Count and byte in GR are left over from the last command */
+                   sel_cnt_rdy_not_zero[cpu_2030.ch_sel] = 0;
+                   sel_gr_full[cpu_2030.ch_sel] = 0;
                    break;
            case 0x1a:
                    /* Selector R to address U */
@@ -2685,8 +2702,7 @@ chan_scan:
              } else if (((cpu_2030.SEL_TI[i] & (CHAN_STA_IN|CHAN_SRV_OUT)) == (CHAN_STA_IN)) &&
                    sel_poll_ctrl[i] && (cpu_2030.GF[i] & (BIT0|BIT1)) == (0)) {
                  /* Check if length incomplete */
-                 if (sel_cnt_rdy_not_zero[i] &&
-                      sel_gr_full[i] == 0 && (cpu_2030.GF[i] & BIT2) == 0) {
+                 if (sel_short(i)) {
                       cpu_2030.GE[i] |= BIT1;
                  }
 
@@ -2751,7 +2767,11 @@ chan_scan:
                  cpu_2030.SEL_TI[i] == (CHAN_OPR_OUT|CHAN_HLD_OUT|CHAN_OPR_IN|CHAN_STA_IN|CHAN_SUP_OUT))) {
                   /* Command chaining */
                    if ((cpu_2030.GF[i] & (BIT1)) != (0)) {
-                        if ((cpu_2030.GI[i] & SNS_DEVEND) != 0) {
+                        if (sel_short(i))
+                             cpu_2030.GE[i] |= BIT1;
+                        if ((cpu_2030.GE[i] & (BIT1|BIT2|BIT3|BIT4|BIT5|BIT6)) != 0) {
+                             sel_ros_req |= 1 << i;
+                        } else if ((cpu_2030.GI[i] & SNS_DEVEND) != 0) {
                              sel_chain_req[i] = 1;
                              sel_ros_req |= 1 << i;
                              log_selchn("Status chain interrupt\n");
@@ -2762,7 +2782,7 @@ chan_scan:
                    }
                    if ((cpu_2030.GF[i] & (BIT1)) == (0)) {
                         /* Check if length incomplete */
-                        if (sel_cnt_rdy_not_zero[i] && sel_gr_full[i] == 0 && (cpu_2030.GF[i] & BIT2) == 0) {
+                        if (sel_short(i)) {
                              cpu_2030.GE[i] |= BIT1;
                         }
                         sel_ros_req |= 1 << i;
-- 
2.43.0


From 74aa8a9f99e9f5b8ac33a0b36de15d5dbe6f2a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:55 +0000
Subject: [PATCH 64/68] fix: 2030 selector channel chained to the next command
 after unit check or unit exception

---
 src/model2030/cpu2030.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 33bc944..8805f88 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -2769,7 +2769,8 @@ chan_scan:
                    if ((cpu_2030.GF[i] & (BIT1)) != (0)) {
                         if (sel_short(i))
                              cpu_2030.GE[i] |= BIT1;
-                        if ((cpu_2030.GE[i] & (BIT1|BIT2|BIT3|BIT4|BIT5|BIT6)) != 0) {
+                        if ((cpu_2030.GE[i] & (BIT1|BIT2|BIT3|BIT4|BIT5|BIT6)) != 0 ||
+                            (cpu_2030.GI[i] & (BIT0|BIT2|BIT3|BIT6|BIT7)) != 0) {
                              sel_ros_req |= 1 << i;
                         } else if ((cpu_2030.GI[i] & SNS_DEVEND) != 0) {
                              sel_chain_req[i] = 1;
-- 
2.43.0


From 753b7beaec40f839548626dde3deca73e4c7b1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:24 +0000
Subject: [PATCH 65/68] fix: 2030 selector channel reported interface control
 check for unit check in the initial status of a chained command word

---
 src/model2030/cpu2030.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 8805f88..4c0bc09 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1703,9 +1703,9 @@ cycle_2030()
                            if (sel_poll_ctrl[cpu_2030.ch_sel] == 0 ||
                                    (cpu_2030.GI[cpu_2030.ch_sel] & BIT4) != 0)
                               cpu_2030.Abus |= BIT3;
-                           if ((cpu_2030.GI[cpu_2030.ch_sel] & (BIT0|BIT2|BIT3|BIT6|BIT7)) != 0)
-                              cpu_2030.Abus |= BIT3;
                       }
+                      if ((cpu_2030.GI[cpu_2030.ch_sel] & (BIT0|BIT2|BIT3|BIT6|BIT7)) != 0)
+                          cpu_2030.Abus |= BIT3;
                   }
                   /* CD */
                   if ((cpu_2030.GF[cpu_2030.ch_sel] & BIT0) != 0)
@@ -2686,11 +2686,6 @@ chan_scan:
                      cpu_2030.SEL_TAGS[i] |= CHAN_SUP_OUT;
                  }
 
-                 /* If there are errors, set interrupt */
-                 if ((cpu_2030.GI[i] & 0xf3) != 0) {
-                     sel_ros_req |= 1 << i;
-                 }
-
                  /* On device end, trigger channel ROS request */
                  if ((cpu_2030.H_REG & BIT5) == 0 && sel_cnt_rdy_zero[i] &&
                                  (cpu_2030.GI[i] & SNS_DEVEND) != 0) {
-- 
2.43.0


From 29cb0add16b8f0528ad44b14446e9d61552666c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:26 +0000
Subject: [PATCH 66/68] fix: Model 30 stop selecting on a selector channel when
 no device answers

---
 src/model2030/cpu2030.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 4c0bc09..a445ec7 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -2312,6 +2312,9 @@ cycle_2030()
                             cpu_2030.GE[cpu_2030.ch_sel] = 0;
                             cpu_2030.GF[cpu_2030.ch_sel] = 0;
                             cpu_2030.SEL_TAGS[cpu_2030.ch_sel] &= ~CHAN_SUP_OUT;
+                            /* No device answered, stop selecting it */
+                            if ((cpu_2030.SEL_TI[cpu_2030.ch_sel] & CHAN_SEL_IN) != 0)
+                                cpu_2030.SEL_TAGS[cpu_2030.ch_sel] &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT);
                             break;
                    /* Set Suppress out */
                    case 0xa: if (sal->PK)
-- 
2.43.0


From 23bda4f15d3c6b7bbe28865e6f5064fc126d4cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:02 +0000
Subject: [PATCH 67/68] fix: Model 30 interruptions from selector channel 2

---
 src/model2030/cpu2030.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index a445ec7..8357a8b 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1426,7 +1426,7 @@ cycle_2030()
            case 0x1A: /* Select interrupt SEL1 -> 0,x SEL2 -> x,0, timer -> 0,0 */
                        if ((cpu_2030.MASK & BIT1) && (sel_intrp_lch[0] || (cpu_2030.GF[0] & BIT4) != 0))
                           nextWX &= 0xffe;
-                       else if ((cpu_2030.MASK & BIT2) && (sel_intrp_lch[0] || (cpu_2030.GF[1] & BIT4) != 0))
+                       else if ((cpu_2030.MASK & BIT2) && (sel_intrp_lch[1] || (cpu_2030.GF[1] & BIT4) != 0))
                           nextWX &= 0xffd;
                        else if (((cpu_2030.MASK & BIT7) && cpu_2030.F_REG != 0) || timer_update)
                           nextWX &= 0xffc;
-- 
2.43.0


From cf539342891b1c1b8a23947068a1186d9ce97a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:00 +0000
Subject: [PATCH 68/68] fix: Model 30 selector channel 2 transfers and chaining
 use the other channel's state

---
 src/model2030/cpu2030.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 8357a8b..f25b3cf 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -826,7 +826,7 @@ cycle_2030()
            sel_read_cycle[i] = 0;
        } else if (sel_write_cycle[i]) {
            /* If moving backwards, address - 1 */
-           if (cpu_2030.GG[cpu_2030.ch_sel] == 0x10c) {
+           if (cpu_2030.GG[i] == 0x10c) {
                cpu_2030.GHZ = (cpu_2030.GD[i] - 1) & 0xff;
                cpu_2030.GHY = (cpu_2030.GC[i] & 0xff);
                if (cpu_2030.GHZ == 0xff)
@@ -2736,7 +2736,7 @@ chan_scan:
 
              /* Set poll control if halt I/O and not chaining requests */
              if (sel_halt_io[i] && sel_chain_req[i] == 0 && sel_intrp_lch[i] == 0) {
-                 sel_poll_ctrl[cpu_2030.ch_sel] = 1;
+                 sel_poll_ctrl[i] = 1;
                  cpu_2030.SEL_TAGS[i] &= ~(CHAN_ADR_OUT);  /* Drop address out */
              }
 
@@ -2775,7 +2775,7 @@ chan_scan:
                              sel_ros_req |= 1 << i;
                              log_selchn("Status chain interrupt\n");
                         } else {
-                             cpu_2030.SEL_TAGS[cpu_2030.ch_sel] |= (CHAN_SRV_OUT|CHAN_SUP_OUT);
+                             cpu_2030.SEL_TAGS[i] |= (CHAN_SRV_OUT|CHAN_SUP_OUT);
                              log_selchn("Status chain hold\n");
                         }
                    }
-- 
2.43.0

