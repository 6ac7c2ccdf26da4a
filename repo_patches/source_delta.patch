From 4585711a725ea85f178b3cda4c7718d946fb9589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:53 +0000
Subject: [PATCH 01/27] fix: synchsafe encoding relied on signed overflow
 (endless loop in optimised builds)

---
 src/modules/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/utils.c b/src/modules/utils.c
index 3986782..84d1085 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -110,7 +110,7 @@ char* itob(int integer)
 
 int syncint_encode(int value)
 {
-    int out, mask = 0x7F;
+    unsigned int out, mask = 0x7F;
 
     while (mask ^ 0x7FFFFFFF)
     {
-- 
2.43.0


From f9a3f6d0d669eea78fa421856cf06853bae539b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:53 +0000
Subject: [PATCH 02/27] fix: byte order mark test read past the end of an empty
 string

---
 src/modules/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/utils.c b/src/modules/utils.c
index 84d1085..fb236b5 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -152,7 +152,7 @@ bool string_has_bom(const char* string)
         return false;
     }
 
-    if (memcmp("\xFF\xFE", string, 2) == 0 || memcmp("\xFE\xFF", string, 2) == 0)
+    if (strncmp("\xFF\xFE", string, 2) == 0 || strncmp("\xFE\xFF", string, 2) == 0)
     {
         return true;
     }
-- 
2.43.0


From 4826b6b9edfe0dc4427a5f028cc23a4f907bc851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:53 +0000
Subject: [PATCH 03/27] fix: adding a frame did not account for its header in
 the tag size

---
 src/modules/tag.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 5350666..acd153c 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -207,7 +207,7 @@ void ID3v2_Tag_set_text_frame(ID3v2_Tag* tag, ID3v2_TextFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -341,7 +341,7 @@ void ID3v2_Tag_set_comment_frame(ID3v2_Tag* tag, ID3v2_CommentFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -360,7 +360,7 @@ void ID3v2_Tag_add_comment_frame(ID3v2_Tag* tag, ID3v2_CommentFrameInput* input)
     ID3v2_CommentFrame* new_frame =
         CommentFrame_new(input->flags, input->language, input->short_description, input->comment);
     FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-    tag->header->tag_size += new_frame->header->size;
+    tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
 }
 
 void ID3v2_Tag_set_comment(ID3v2_Tag* tag, const char* lang, const char* comment)
@@ -394,7 +394,7 @@ void ID3v2_Tag_set_apic_frame(ID3v2_Tag* tag, ID3v2_ApicFrameInput* input)
     if (existing_frame == NULL)
     {
         FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-        tag->header->tag_size += new_frame->header->size;
+        tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
     else
     {
@@ -419,7 +419,7 @@ void ID3v2_Tag_add_apic_frame(ID3v2_Tag* tag, ID3v2_ApicFrameInput* input)
         input->data
     );
     FrameList_add_frame(tag->frames, (ID3v2_Frame*) new_frame);
-    tag->header->tag_size += new_frame->header->size;
+    tag->header->tag_size += new_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
 }
 
 /**
-- 
2.43.0


From 42547d6f777efc3d7e6e80f1456a2055a542d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:53 +0000
Subject: [PATCH 04/27] fix: deleting a frame that is not in the tag crashed

---
 src/modules/frame_list.c | 2 +-
 src/modules/tag.c        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/frame_list.c b/src/modules/frame_list.c
index 13e464f..cbe8b8b 100644
--- a/src/modules/frame_list.c
+++ b/src/modules/frame_list.c
@@ -117,7 +117,7 @@ ID3v2_Frame* FrameList_remove_frame_by_id(ID3v2_FrameList* list, const char* fra
 {
     if (list == NULL) return NULL;
 
-    while (list != NULL)
+    while (list != NULL && list->frame != NULL)
     {
         if (strncmp(list->frame->header->id, frame_id, 4) == 0)
         {
diff --git a/src/modules/tag.c b/src/modules/tag.c
index acd153c..53bff8d 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -455,6 +455,7 @@ void ID3v2_Tag_free(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_frame(ID3v2_Tag* tag, const char* frame_id)
 {
     ID3v2_Frame* deleted = FrameList_remove_frame_by_id(tag->frames, frame_id);
+    if (deleted == NULL) return; // nothing to delete
     tag->header->tag_size -= deleted->header->size + ID3v2_FRAME_HEADER_LENGTH;
     // Maybe we should just return the frame instead of taking the responsibility
     // of freeing it?
-- 
2.43.0


From 5959fd8ccc859b4191325ed3eda9734b96d3de8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:53 +0000
Subject: [PATCH 05/27] fix: removing the last of several frames left an empty
 node in the list

---
 src/modules/frame_list.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/modules/frame_list.c b/src/modules/frame_list.c
index cbe8b8b..4245d71 100644
--- a/src/modules/frame_list.c
+++ b/src/modules/frame_list.c
@@ -113,21 +113,37 @@ void ID3v2_FrameList_unlink(ID3v2_FrameList* list)
     }
 }
 
+static void remove_node(ID3v2_FrameList* node, ID3v2_FrameList* previous)
+{
+    if (node->next == NULL && previous != NULL)
+    {
+        // The last node can't take the place of a successor, so it has to go
+        previous->next = NULL;
+        free(node);
+        return;
+    }
+
+    ID3v2_FrameList* new_head_old_ptr = node->next != NULL ? node->next : FrameList_new();
+    *node = *new_head_old_ptr;
+    free(new_head_old_ptr);
+}
+
 ID3v2_Frame* FrameList_remove_frame_by_id(ID3v2_FrameList* list, const char* frame_id)
 {
     if (list == NULL) return NULL;
 
+    ID3v2_FrameList* previous = NULL;
+
     while (list != NULL && list->frame != NULL)
     {
         if (strncmp(list->frame->header->id, frame_id, 4) == 0)
         {
             ID3v2_Frame* removed = list->frame;
-            ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
-            *list = *new_head_old_ptr;
-            free(new_head_old_ptr);
+            remove_node(list, previous);
             return removed;
         }
 
+        previous = list;
         list = list->next;
     }
 
@@ -138,16 +154,17 @@ ID3v2_Frame* FrameList_remove_frame(ID3v2_FrameList* list, ID3v2_Frame* to_remov
 {
     if (list == NULL) return NULL;
 
+    ID3v2_FrameList* previous = NULL;
+
     while (list != NULL)
     {
         if (list->frame == to_remove)
         {
-            ID3v2_FrameList* new_head_old_ptr = list->next != NULL ? list->next : FrameList_new();
-            *list = *new_head_old_ptr;
-            free(new_head_old_ptr);
+            remove_node(list, previous);
             return to_remove;
         }
 
+        previous = list;
         list = list->next;
     }
 
-- 
2.43.0


From defefbb736751200f6b66e54449a70d0943192f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:53 +0000
Subject: [PATCH 06/27] fix: deleting a comment or picture by index left the
 tag size unchanged and leaked the sublist

---
 src/modules/tag.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 53bff8d..d7d34dd 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -510,15 +510,17 @@ void ID3v2_Tag_delete_composer(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_comment_frame(ID3v2_Tag* tag, const int index)
 {
     int i = 0;
-    ID3v2_FrameList* head = ID3v2_Tag_get_comment_frames(tag);
+    ID3v2_FrameList* frames = ID3v2_Tag_get_comment_frames(tag);
+    ID3v2_FrameList* head = frames;
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_CommentFrame* to_delete = (ID3v2_CommentFrame*) head->frame;
 
         if (i == index)
         {
             FrameList_remove_frame(tag->frames, (ID3v2_Frame*) to_delete);
+            tag->header->tag_size -= to_delete->header->size + ID3v2_FRAME_HEADER_LENGTH;
             ID3v2_Frame_free((ID3v2_Frame*) to_delete);
             break;
         }
@@ -527,7 +529,7 @@ void ID3v2_Tag_delete_comment_frame(ID3v2_Tag* tag, const int index)
         head = head->next;
     }
 
-    ID3v2_FrameList_unlink(head);
+    ID3v2_FrameList_unlink(frames);
 }
 
 void ID3v2_Tag_delete_comment(ID3v2_Tag* tag)
@@ -538,15 +540,17 @@ void ID3v2_Tag_delete_comment(ID3v2_Tag* tag)
 void ID3v2_Tag_delete_apic_frame(ID3v2_Tag* tag, const int index)
 {
     int i = 0;
-    ID3v2_FrameList* head = ID3v2_Tag_get_apic_frames(tag);
+    ID3v2_FrameList* frames = ID3v2_Tag_get_apic_frames(tag);
+    ID3v2_FrameList* head = frames;
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_ApicFrame* to_delete = (ID3v2_ApicFrame*) head->frame;
 
         if (i == index)
         {
             FrameList_remove_frame(tag->frames, (ID3v2_Frame*) to_delete);
+            tag->header->tag_size -= to_delete->header->size + ID3v2_FRAME_HEADER_LENGTH;
             ID3v2_Frame_free((ID3v2_Frame*) to_delete);
             break;
         }
@@ -555,7 +559,7 @@ void ID3v2_Tag_delete_apic_frame(ID3v2_Tag* tag, const int index)
         head = head->next;
     }
 
-    ID3v2_FrameList_unlink(head);
+    ID3v2_FrameList_unlink(frames);
 }
 
 void ID3v2_Tag_delete_album_cover(ID3v2_Tag* tag)
-- 
2.43.0


From d2e6c144b6b0607401c82553f2c3a89abe6d2567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:53 +0000
Subject: [PATCH 07/27] fix: frames of unknown kind were leaked when written
 and when freed

---
 src/modules/frame.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/frame.c b/src/modules/frame.c
index 29d775e..c2461fb 100644
--- a/src/modules/frame.c
+++ b/src/modules/frame.c
@@ -79,6 +79,7 @@ CharStream* Frame_to_char_stream(ID3v2_Frame* frame)
         CharStream* header_cs = FrameHeader_to_char_stream(frame->header);
         CharStream_write(frame_cs, header_cs->stream, ID3v2_FRAME_HEADER_LENGTH);
         CharStream_write(frame_cs, frame->data, frame->header->size);
+        CharStream_free(header_cs);
         return frame_cs;
     }
 }
@@ -104,5 +105,6 @@ void ID3v2_Frame_free(ID3v2_Frame* frame)
         // Unknown frame id, naively try our best to free it
         free(frame->header);
         free(frame->data);
+        free(frame);
     }
 }
-- 
2.43.0


From 1b8b93594aa0a1f248518d23cf05f392537886b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:53 +0000
Subject: [PATCH 08/27] fix: every frame whose id starts with C or A was taken
 for a comment or a picture

---
 src/modules/frame_header.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index 4f755d2..2a1579a 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -13,6 +13,7 @@
 #include <string.h>
 
 #include "modules/char_stream.private.h"
+#include "modules/frame_ids.h"
 #include "modules/utils.private.h"
 
 #include "frame_header.private.h"
@@ -77,12 +78,12 @@ bool FrameHeader_isTextFrame(ID3v2_FrameHeader* header)
 
 bool FrameHeader_isCommentFrame(ID3v2_FrameHeader* header)
 {
-    return header->id[0] == 'C';
+    return memcmp(header->id, ID3v2_COMMENT_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
 }
 
 bool FrameHeader_isApicFrame(ID3v2_FrameHeader* header)
 {
-    return header->id[0] == 'A';
+    return memcmp(header->id, ID3v2_ALBUM_COVER_FRAME_ID, ID3v2_FRAME_HEADER_ID_LENGTH) == 0;
 }
 
 void FrameHeader_free(ID3v2_FrameHeader* header)
-- 
2.43.0


From 06a937c4fe29dcfbdf782968bdea556bb5309fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:01 +0000
Subject: [PATCH 09/27] fix: padding was neither part of the written tag nor
 counted in its size

---
 src/id3v2lib.c    | 1 +
 src/modules/tag.c | 9 +++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index b245bad..3541ef9 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -94,6 +94,7 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
         ID3v2_TAG_DEFAULT_PADDING_LENGTH
     );
     tag->padding_size += extra_padding_length;
+    tag->header->tag_size += extra_padding_length;
     CharStream* tag_cs = Tag_to_char_stream(tag);
 
     // Perform operations on a temp file in case things go wrong
diff --git a/src/modules/tag.c b/src/modules/tag.c
index d7d34dd..9b5f509 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -31,7 +31,8 @@ ID3v2_Tag* ID3v2_Tag_new(ID3v2_TagHeader* header, const int padding_size)
     ID3v2_Tag* tag = (ID3v2_Tag*) malloc(sizeof(ID3v2_Tag));
     tag->header = header == NULL ? TagHeader_new_empty() : header;
     tag->frames = FrameList_new();
-    tag->padding_size = 0;
+    tag->padding_size = padding_size;
+    tag->header->tag_size = padding_size; // there are no frames yet
 
     return tag;
 }
@@ -46,7 +47,8 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
     ID3v2_TagHeader* header = TagHeader_parse(tag_cs);
     if (header == NULL) return NULL;
 
-    ID3v2_Tag* tag = ID3v2_Tag_new(header, 0);
+    // Whatever turns out not to be a frame is padding
+    ID3v2_Tag* tag = ID3v2_Tag_new(header, header->tag_size);
 
     if (header->extended_header_size > 0)
     {
@@ -60,10 +62,9 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
         current_frame = Frame_parse(tag_cs, tag->header->major_version);
         if (current_frame == NULL) break;
         FrameList_add_frame(tag->frames, current_frame);
+        tag->padding_size -= current_frame->header->size + ID3v2_FRAME_HEADER_LENGTH;
     }
 
-    tag->padding_size = tag_cs->size - tag_cs->cursor;
-
     return tag;
 }
 
-- 
2.43.0


From dede29f9d4f4258e5f164f8cea0a493da096efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:01 +0000
Subject: [PATCH 10/27] fix: frame sizes of v2.4 tags were not written as
 synchsafe integers

---
 src/id3v2lib.compat.c                      |  2 +-
 src/modules/frame.c                        | 10 +++++-----
 src/modules/frame.private.h                |  2 +-
 src/modules/frame_header.c                 |  5 +++--
 src/modules/frame_header.private.h         |  2 +-
 src/modules/frames/apic_frame.c            |  4 ++--
 src/modules/frames/apic_frame.private.h    |  2 +-
 src/modules/frames/comment_frame.c         |  4 ++--
 src/modules/frames/comment_frame.private.h |  2 +-
 src/modules/frames/text_frame.c            |  4 ++--
 src/modules/frames/text_frame.private.h    |  2 +-
 src/modules/tag.c                          |  2 +-
 12 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index cb16591..59c7752 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -44,7 +44,7 @@ ID3v2_frame* frame_to_compat_frame(ID3v2_Frame* frame)
     memcpy(compat_frame->flags, frame->header->flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
 
     // Frame data
-    CharStream* frame_cs = Frame_to_char_stream(frame);
+    CharStream* frame_cs = Frame_to_char_stream(frame, 3); // only the data is of interest
     CharStream_seek(frame_cs, ID3v2_FRAME_HEADER_LENGTH, SEEK_SET);
     compat_frame->data = (char*) malloc(compat_frame->size * sizeof(char));
     CharStream_read(frame_cs, compat_frame->data, compat_frame->size);
diff --git a/src/modules/frame.c b/src/modules/frame.c
index c2461fb..4612d3d 100644
--- a/src/modules/frame.c
+++ b/src/modules/frame.c
@@ -56,27 +56,27 @@ ID3v2_Frame* Frame_parse(CharStream* frame_cs, int id3_major_version)
     return frame;
 }
 
-CharStream* Frame_to_char_stream(ID3v2_Frame* frame)
+CharStream* Frame_to_char_stream(ID3v2_Frame* frame, const int id3_major_version)
 {
     if (frame == NULL) return NULL;
 
     if (FrameHeader_isTextFrame(frame->header))
     {
-        return TextFrame_to_char_stream((ID3v2_TextFrame*) frame);
+        return TextFrame_to_char_stream((ID3v2_TextFrame*) frame, id3_major_version);
     }
     else if (FrameHeader_isCommentFrame(frame->header))
     {
-        return CommentFrame_to_char_stream((ID3v2_CommentFrame*) frame);
+        return CommentFrame_to_char_stream((ID3v2_CommentFrame*) frame, id3_major_version);
     }
     else if (FrameHeader_isApicFrame(frame->header))
     {
-        return ApicFrame_to_char_stream((ID3v2_ApicFrame*) frame);
+        return ApicFrame_to_char_stream((ID3v2_ApicFrame*) frame, id3_major_version);
     }
     else
     {
         // Unknown frame type, dump whatever we have in memory for that frame
         CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
-        CharStream* header_cs = FrameHeader_to_char_stream(frame->header);
+        CharStream* header_cs = FrameHeader_to_char_stream(frame->header, id3_major_version);
         CharStream_write(frame_cs, header_cs->stream, ID3v2_FRAME_HEADER_LENGTH);
         CharStream_write(frame_cs, frame->data, frame->header->size);
         CharStream_free(header_cs);
diff --git a/src/modules/frame.private.h b/src/modules/frame.private.h
index 0e90da2..808eb8b 100644
--- a/src/modules/frame.private.h
+++ b/src/modules/frame.private.h
@@ -16,6 +16,6 @@ typedef struct _CharStream CharStream;
 
 ID3v2_Frame* Frame_parse(CharStream* frame_cs, int id3_major_version);
 
-CharStream* Frame_to_char_stream(ID3v2_Frame* frame);
+CharStream* Frame_to_char_stream(ID3v2_Frame* frame, const int id3_major_version);
 
 #endif
diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index 2a1579a..8e05ea8 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -58,12 +58,13 @@ ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_
     return FrameHeader_new(id, flags, size);
 }
 
-CharStream* FrameHeader_to_char_stream(ID3v2_FrameHeader* header)
+CharStream* FrameHeader_to_char_stream(ID3v2_FrameHeader* header, const int id3_major_version)
 {
     CharStream* header_cs = CharStream_new(ID3v2_FRAME_HEADER_LENGTH);
 
     CharStream_write(header_cs, header->id, ID3v2_FRAME_HEADER_ID_LENGTH);
-    char* size_bytes = itob(header->size);
+    char* size_bytes =
+        itob(id3_major_version == 4 ? syncint_encode(header->size) : header->size);
     CharStream_write(header_cs, size_bytes, ID3v2_FRAME_HEADER_SIZE_LENGTH);
     free(size_bytes);
     CharStream_write(header_cs, (const char*) &header->flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
diff --git a/src/modules/frame_header.private.h b/src/modules/frame_header.private.h
index 6ca82fb..66694c1 100644
--- a/src/modules/frame_header.private.h
+++ b/src/modules/frame_header.private.h
@@ -19,7 +19,7 @@ typedef struct _CharStream CharStream;
 ID3v2_FrameHeader* FrameHeader_new(const char* id, const char* flags, const int size);
 ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_version);
 
-CharStream* FrameHeader_to_char_stream(ID3v2_FrameHeader* header);
+CharStream* FrameHeader_to_char_stream(ID3v2_FrameHeader* header, const int id3_major_version);
 
 bool FrameHeader_isTextFrame(ID3v2_FrameHeader* header);
 bool FrameHeader_isCommentFrame(ID3v2_FrameHeader* header);
diff --git a/src/modules/frames/apic_frame.c b/src/modules/frames/apic_frame.c
index ba1d9cd..1969463 100644
--- a/src/modules/frames/apic_frame.c
+++ b/src/modules/frames/apic_frame.c
@@ -73,11 +73,11 @@ ID3v2_ApicFrame* ApicFrame_parse(CharStream* frame_cs, const int id3_major_versi
     return frame;
 }
 
-CharStream* ApicFrame_to_char_stream(ID3v2_ApicFrame* frame)
+CharStream* ApicFrame_to_char_stream(ID3v2_ApicFrame* frame, const int id3_major_version)
 {
     if (frame == NULL) return NULL;
 
-    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header);
+    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header, id3_major_version);
     CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
 
     // Header
diff --git a/src/modules/frames/apic_frame.private.h b/src/modules/frames/apic_frame.private.h
index b968d58..bcc8a35 100644
--- a/src/modules/frames/apic_frame.private.h
+++ b/src/modules/frames/apic_frame.private.h
@@ -23,7 +23,7 @@ ID3v2_ApicFrame* ApicFrame_new(
     const char* data
 );
 ID3v2_ApicFrame* ApicFrame_parse(CharStream* frame_cs, const int id3_major_version);
-CharStream* ApicFrame_to_char_stream(ID3v2_ApicFrame* frame);
+CharStream* ApicFrame_to_char_stream(ID3v2_ApicFrame* frame, const int id3_major_version);
 
 void ApicFrame_free(ID3v2_ApicFrame* frame);
 
diff --git a/src/modules/frames/comment_frame.c b/src/modules/frames/comment_frame.c
index 947f72d..69916c6 100644
--- a/src/modules/frames/comment_frame.c
+++ b/src/modules/frames/comment_frame.c
@@ -63,11 +63,11 @@ ID3v2_CommentFrame* CommentFrame_parse(CharStream* frame_cs, const int id3_major
     return frame;
 }
 
-CharStream* CommentFrame_to_char_stream(ID3v2_CommentFrame* frame)
+CharStream* CommentFrame_to_char_stream(ID3v2_CommentFrame* frame, const int id3_major_version)
 {
     if (frame == NULL) return NULL;
 
-    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header);
+    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header, id3_major_version);
     CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
 
     // Header
diff --git a/src/modules/frames/comment_frame.private.h b/src/modules/frames/comment_frame.private.h
index b956fed..8c95bc6 100644
--- a/src/modules/frames/comment_frame.private.h
+++ b/src/modules/frames/comment_frame.private.h
@@ -21,7 +21,7 @@ ID3v2_CommentFrame* CommentFrame_new(
     const char* comment
 );
 ID3v2_CommentFrame* CommentFrame_parse(CharStream* frame_cs, const int id3_major_version);
-CharStream* CommentFrame_to_char_stream(ID3v2_CommentFrame* frame);
+CharStream* CommentFrame_to_char_stream(ID3v2_CommentFrame* frame, const int id3_major_version);
 
 void CommentFrame_free(ID3v2_CommentFrame* frame);
 
diff --git a/src/modules/frames/text_frame.c b/src/modules/frames/text_frame.c
index 54cec80..6293fef 100644
--- a/src/modules/frames/text_frame.c
+++ b/src/modules/frames/text_frame.c
@@ -47,11 +47,11 @@ ID3v2_TextFrame* TextFrame_parse(CharStream* frame_cs, const int id3_major_versi
     return frame;
 }
 
-CharStream* TextFrame_to_char_stream(ID3v2_TextFrame* frame)
+CharStream* TextFrame_to_char_stream(ID3v2_TextFrame* frame, const int id3_major_version)
 {
     if (frame == NULL) return NULL;
 
-    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header);
+    CharStream* frame_header_cs = FrameHeader_to_char_stream(frame->header, id3_major_version);
     CharStream* frame_cs = CharStream_new(frame->header->size + ID3v2_FRAME_HEADER_LENGTH);
 
     // Header
diff --git a/src/modules/frames/text_frame.private.h b/src/modules/frames/text_frame.private.h
index da96c2b..ab069d8 100644
--- a/src/modules/frames/text_frame.private.h
+++ b/src/modules/frames/text_frame.private.h
@@ -16,7 +16,7 @@ typedef struct _CharStream CharStream;
 
 ID3v2_TextFrame* TextFrame_new(const char* id, const char* flags, const char* text);
 ID3v2_TextFrame* TextFrame_parse(CharStream* frame_cs, const int id3_major_version);
-CharStream* TextFrame_to_char_stream(ID3v2_TextFrame* frame);
+CharStream* TextFrame_to_char_stream(ID3v2_TextFrame* frame, const int id3_major_version);
 
 void TextFrame_free(ID3v2_TextFrame* frame);
 
diff --git a/src/modules/tag.c b/src/modules/tag.c
index 9b5f509..d5e9c9e 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -93,7 +93,7 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
 
     while (frames != NULL)
     {
-        CharStream* frame_cs = Frame_to_char_stream(frames->frame);
+        CharStream* frame_cs = Frame_to_char_stream(frames->frame, tag->header->major_version);
 
         if (frame_cs == NULL) exit(1);
 
-- 
2.43.0


From 3f3e0ad9577d7d4e8e565f3a3424c464d0ba6b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:01 +0000
Subject: [PATCH 11/27] fix: text frames lost their encoding, further values
 and the terminator in memory

---
 src/modules/frames/text_frame.c | 21 ++++++++++++++++-----
 src/modules/utils.private.h     |  3 +++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/modules/frames/text_frame.c b/src/modules/frames/text_frame.c
index 6293fef..2c73e01 100644
--- a/src/modules/frames/text_frame.c
+++ b/src/modules/frames/text_frame.c
@@ -34,15 +34,26 @@ ID3v2_TextFrame* TextFrame_parse(CharStream* frame_cs, const int id3_major_versi
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    if (header->size < ID3v2_FRAME_ENCODING_LENGTH)
+    {
+        FrameHeader_free(header);
+        return NULL; // no valid frame found
+    }
 
+    const char encoding = CharStream_getc(frame_cs);
+
+    // Keep the content as it is, it may hold several strings. The string in memory
+    // is always terminated, even though the one in the frame doesn't need to be.
     const int text_size = header->size - ID3v2_FRAME_ENCODING_LENGTH;
-    char text[text_size];
+    char* text = (char*) calloc(text_size + MAX_STR_TERMINATION_LENGTH, sizeof(char));
     CharStream_read(frame_cs, text, text_size);
 
-    ID3v2_TextFrame* frame = TextFrame_new(header->id, header->flags, text);
-
-    FrameHeader_free(header); // we only needed the header to parse the data
+    ID3v2_TextFrame* frame = (ID3v2_TextFrame*) malloc(sizeof(ID3v2_TextFrame));
+    frame->header = header;
+    frame->data = (ID3v2_TextFrameData*) malloc(sizeof(ID3v2_TextFrameData));
+    frame->data->encoding = encoding;
+    frame->data->size = text_size;
+    frame->data->text = text;
 
     return frame;
 }
diff --git a/src/modules/utils.private.h b/src/modules/utils.private.h
index b58892f..b6fd2c8 100644
--- a/src/modules/utils.private.h
+++ b/src/modules/utils.private.h
@@ -14,6 +14,9 @@
 
 #include "modules/utils.h"
 
+// Enough to terminate an utf-16 string, even if it misses its very last byte
+#define MAX_STR_TERMINATION_LENGTH 3
+
 unsigned int btoi(const char* bytes, int size);
 char* itob(int integer);
 int syncint_encode(int value);
-- 
2.43.0


From eeae9cf0d3f847bf3bb773c9e303de16adb6b4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:01 +0000
Subject: [PATCH 12/27] fix: comment frames were parsed beyond their end and
 lost their encoding

---
 src/modules/frames/comment_frame.c | 42 +++++++++++++++++++++++-------
 src/modules/utils.c                | 16 ++++++++++++
 src/modules/utils.private.h        |  6 +++++
 3 files changed, 55 insertions(+), 9 deletions(-)

diff --git a/src/modules/frames/comment_frame.c b/src/modules/frames/comment_frame.c
index 69916c6..2fe5e30 100644
--- a/src/modules/frames/comment_frame.c
+++ b/src/modules/frames/comment_frame.c
@@ -43,22 +43,45 @@ ID3v2_CommentFrame* CommentFrame_parse(CharStream* frame_cs, const int id3_major
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    const int strings_size =
+        header->size - ID3v2_FRAME_ENCODING_LENGTH - ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH;
+
+    if (strings_size < 0)
+    {
+        FrameHeader_free(header);
+        return NULL; // no valid frame found
+    }
+
+    const char encoding = CharStream_getc(frame_cs);
 
     char lang[ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH];
     CharStream_read(frame_cs, lang, ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH);
 
-    const int short_desc_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char short_desc[short_desc_size];
+    const int short_desc_size =
+        string_size(CharStream_get_cur(frame_cs), strings_size, encoding);
+
+    if (short_desc_size < 0)
+    {
+        FrameHeader_free(header);
+        return NULL; // no valid frame found
+    }
+
+    char* short_desc = (char*) malloc(short_desc_size * sizeof(char));
     CharStream_read(frame_cs, short_desc, short_desc_size);
 
-    const int comment_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char comment[comment_size];
+    // The comment is always terminated in memory, even though it doesn't need to be in the frame
+    const int comment_size = strings_size - short_desc_size;
+    char* comment = (char*) calloc(comment_size + MAX_STR_TERMINATION_LENGTH, sizeof(char));
     CharStream_read(frame_cs, comment, comment_size);
 
-    ID3v2_CommentFrame* frame = CommentFrame_new(header->flags, lang, short_desc, comment);
-
-    FrameHeader_free(header); // we only needed the header to parse the data
+    ID3v2_CommentFrame* frame = (ID3v2_CommentFrame*) malloc(sizeof(ID3v2_CommentFrame));
+    frame->header = header;
+    frame->data = (ID3v2_CommentFrameData*) malloc(sizeof(ID3v2_CommentFrameData));
+    frame->data->encoding = encoding;
+    frame->data->size = comment_size;
+    memcpy(frame->data->language, lang, ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH);
+    frame->data->short_description = short_desc;
+    frame->data->comment = comment;
 
     return frame;
 }
@@ -80,7 +103,8 @@ CharStream* CommentFrame_to_char_stream(ID3v2_CommentFrame* frame, const int id3
     CharStream_write(
         frame_cs,
         frame->data->short_description,
-        ID3v2_strlent(frame->data->short_description)
+        frame->header->size - ID3v2_FRAME_ENCODING_LENGTH - ID3v2_COMMENT_FRAME_LANGUAGE_LENGTH -
+            frame->data->size
     );
     CharStream_write(frame_cs, frame->data->comment, frame->data->size);
 
diff --git a/src/modules/utils.c b/src/modules/utils.c
index fb236b5..abeffcc 100644
--- a/src/modules/utils.c
+++ b/src/modules/utils.c
@@ -159,3 +159,19 @@ bool string_has_bom(const char* string)
 
     return false;
 }
+
+int string_size(const char* buffer, const int buffer_size, const char encoding)
+{
+    // Both utf-16 encodings (1: with BOM, 2: without BOM) use two byte characters
+    const int char_length = encoding == 1 || encoding == 2 ? 2 : 1;
+
+    for (int i = 0; i + char_length <= buffer_size; i += char_length)
+    {
+        if (buffer[i] == 0x00 && buffer[i + char_length - 1] == 0x00)
+        {
+            return i + char_length;
+        }
+    }
+
+    return -1;
+}
diff --git a/src/modules/utils.private.h b/src/modules/utils.private.h
index b6fd2c8..450c929 100644
--- a/src/modules/utils.private.h
+++ b/src/modules/utils.private.h
@@ -24,4 +24,10 @@ unsigned int syncint_decode(int value);
 int clamp_int(const int value, const int min, const int max);
 bool string_has_bom(const char* string);
 
+/**
+ * Size, including its terminator, of the string in the given encoding at the start of
+ * the buffer. Returns -1 if the buffer ends before the string does.
+ */
+int string_size(const char* buffer, const int buffer_size, const char encoding);
+
 #endif
-- 
2.43.0


From d6613ab5af951d612f658302f6708bf2c93d5993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:01 +0000
Subject: [PATCH 13/27] fix: picture frames were parsed beyond their end, lost
 their encoding and lived on the stack

---
 src/modules/frames/apic_frame.c | 53 +++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/modules/frames/apic_frame.c b/src/modules/frames/apic_frame.c
index 1969463..9b78d32 100644
--- a/src/modules/frames/apic_frame.c
+++ b/src/modules/frames/apic_frame.c
@@ -48,27 +48,42 @@ ID3v2_ApicFrame* ApicFrame_parse(CharStream* frame_cs, const int id3_major_versi
 {
     ID3v2_FrameHeader* header = FrameHeader_parse(frame_cs, id3_major_version);
 
-    CharStream_seek(frame_cs, ID3v2_FRAME_ENCODING_LENGTH, SEEK_CUR); // skip encoding
+    const int encoding = CharStream_getc(frame_cs);
+
+    // Find the end of every field first, so that a broken frame is left alone
+    const char* content = CharStream_get_cur(frame_cs);
+    const int content_size = header->size - ID3v2_FRAME_ENCODING_LENGTH;
+    const int mime_type_size = string_size(content, content_size, ID3v2_ENCODING_ISO);
+    const int description_start = mime_type_size + ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH;
+    const int description_size =
+        mime_type_size < 0
+            ? -1
+            : string_size(content + description_start, content_size - description_start, encoding);
+
+    if (description_size < 0)
+    {
+        FrameHeader_free(header);
+        return NULL; // no valid frame found
+    }
 
-    const int mime_type_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char mime_type[mime_type_size];
-    CharStream_read(frame_cs, mime_type, mime_type_size);
+    ID3v2_ApicFrame* frame = (ID3v2_ApicFrame*) malloc(sizeof(ID3v2_ApicFrame));
+    frame->header = header;
+    frame->data = (ID3v2_ApicFrameData*) malloc(sizeof(ID3v2_ApicFrameData));
+    frame->data->encoding = encoding;
+
+    frame->data->mime_type = (char*) malloc(mime_type_size * sizeof(char));
+    CharStream_read(frame_cs, frame->data->mime_type, mime_type_size);
 
-    const char picture_type = CharStream_getc(frame_cs);
+    frame->data->picture_type = CharStream_getc(frame_cs);
 
-    const int description_size = ID3v2_strlent(CharStream_get_cur(frame_cs));
-    char description[description_size];
-    CharStream_read(frame_cs, description, description_size);
+    frame->data->description = (char*) malloc(description_size * sizeof(char));
+    CharStream_read(frame_cs, frame->data->description, description_size);
 
     const int pic_size = header->size - ID3v2_FRAME_ENCODING_LENGTH - mime_type_size -
                          ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH - description_size;
-    char pic_data[pic_size];
-    CharStream_read(frame_cs, pic_data, pic_size);
-
-    ID3v2_ApicFrame* frame =
-        ApicFrame_new(header->flags, description, picture_type, mime_type, pic_size, pic_data);
-
-    FrameHeader_free(header); // we only needed the header to parse the data
+    frame->data->picture_size = pic_size;
+    frame->data->data = (char*) malloc(pic_size * sizeof(char));
+    CharStream_read(frame_cs, frame->data->data, pic_size);
 
     return frame;
 }
@@ -88,7 +103,13 @@ CharStream* ApicFrame_to_char_stream(ID3v2_ApicFrame* frame, const int id3_major
     CharStream_write(frame_cs, &frame->data->encoding, ID3v2_FRAME_ENCODING_LENGTH);
     CharStream_write(frame_cs, frame->data->mime_type, ID3v2_strlent(frame->data->mime_type));
     CharStream_write(frame_cs, &frame->data->picture_type, ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH);
-    CharStream_write(frame_cs, frame->data->description, ID3v2_strlent(frame->data->description));
+    CharStream_write(
+        frame_cs,
+        frame->data->description,
+        frame->header->size - ID3v2_FRAME_ENCODING_LENGTH -
+            ID3v2_strlent(frame->data->mime_type) - ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH -
+            frame->data->picture_size
+    );
     CharStream_write(frame_cs, frame->data->data, frame->data->picture_size);
 
     return frame_cs;
-- 
2.43.0


From d40ac5f2e1bbd5f02b54e9c67f25a9df87b5a1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:01 +0000
Subject: [PATCH 14/27] fix: truncated or malformed tags were read out of
 bounds

---
 src/id3v2lib.c             | 11 +++++++++--
 src/modules/frame_header.c |  3 +++
 src/modules/tag.c          |  5 ++++-
 src/modules/tag_header.c   |  2 ++
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index 3541ef9..fd41acd 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -49,6 +49,13 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
     if (tag_header == NULL) return NULL;
 
     FILE* file = fopen(file_name, "rb");
+
+    if (file == NULL)
+    {
+        ID3v2_TagHeader_free(tag_header);
+        return NULL;
+    }
+
     int buffer_length = tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH;
     char* tag_buffer = (char*) malloc((buffer_length) * sizeof(char));
 
@@ -60,10 +67,10 @@ ID3v2_Tag* ID3v2_read_tag(const char* file_name)
         return NULL;
     }
 
-    fread(tag_buffer, buffer_length, 1, file);
+    const int bytes_read = fread(tag_buffer, sizeof(char), buffer_length, file);
     fclose(file);
 
-    ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(tag_buffer, buffer_length);
+    ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(tag_buffer, bytes_read);
 
     free(tag_buffer);
     ID3v2_TagHeader_free(tag_header);
diff --git a/src/modules/frame_header.c b/src/modules/frame_header.c
index 8e05ea8..9833f2f 100644
--- a/src/modules/frame_header.c
+++ b/src/modules/frame_header.c
@@ -55,6 +55,9 @@ ID3v2_FrameHeader* FrameHeader_parse(CharStream* header_cs, const int id3_major_
     char flags[ID3v2_FRAME_HEADER_FLAGS_LENGTH];
     CharStream_read(header_cs, flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
 
+    // A frame can't be larger than what's left of the tag
+    if (size < 0 || size > header_cs->size - header_cs->cursor) return NULL;
+
     return FrameHeader_new(id, flags, size);
 }
 
diff --git a/src/modules/tag.c b/src/modules/tag.c
index d5e9c9e..32a2382 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -56,8 +56,11 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
         CharStream_seek(tag_cs, header->extended_header_size, SEEK_SET);
     }
 
+    // The stream may end before the tag does, and the other way around
+    tag_cs->size = clamp_int(header->tag_size + ID3v2_TAG_HEADER_LENGTH, 0, tag_cs->size);
+
     ID3v2_Frame* current_frame;
-    while (tag_cs->cursor < tag->header->tag_size)
+    while (tag_cs->cursor + ID3v2_FRAME_HEADER_LENGTH <= tag_cs->size)
     {
         current_frame = Frame_parse(tag_cs, tag->header->major_version);
         if (current_frame == NULL) break;
diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index 8ecc1f0..bd41bf1 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -47,6 +47,8 @@ ID3v2_TagHeader* TagHeader_new_empty()
 
 ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
 {
+    if (header_cs->size < ID3v2_TAG_HEADER_LENGTH) return NULL;
+
     bool has_id3v2_tag = memcmp(header_cs->stream, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH) == 0;
     if (!has_id3v2_tag) return NULL;
 
-- 
2.43.0


From 6bf1e2e254e6ea08c18247f6b55b0922378228b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:01 +0000
Subject: [PATCH 15/27] fix: extended headers were skipped wrongly and
 announced when not written

---
 src/modules/tag.c                | 15 ++++++++++++---
 src/modules/tag_header.c         |  2 +-
 src/modules/tag_header.private.h |  3 +++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 32a2382..730352c 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -52,8 +52,11 @@ ID3v2_Tag* Tag_parse(CharStream* tag_cs)
 
     if (header->extended_header_size > 0)
     {
-        // An extended header exists, skip it
-        CharStream_seek(tag_cs, header->extended_header_size, SEEK_SET);
+        // An extended header exists, skip it. Its size field, which has already been
+        // read, is only part of the size in v2.4.
+        const int size_field_length =
+            header->major_version == 4 ? ID3v2_EXTENDED_HEADER_SIZE_LENGTH : 0;
+        CharStream_seek(tag_cs, header->extended_header_size - size_field_length, SEEK_CUR);
     }
 
     // The stream may end before the tag does, and the other way around
@@ -79,7 +82,13 @@ CharStream* Tag_to_char_stream(ID3v2_Tag* tag)
     CharStream_write(tag_cs, tag->header->identifier, ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
     CharStream_write(tag_cs, &tag->header->major_version, ID3v2_TAG_HEADER_MAJOR_VERSION_LENGTH);
     CharStream_write(tag_cs, &tag->header->minor_version, ID3v2_TAG_HEADER_MINOR_VERSION_LENGTH);
-    CharStream_write(tag_cs, &tag->header->flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
+
+    // Neither the extended header nor the footer are written, so don't announce them
+    const char unwritten = tag->header->major_version == 4
+                               ? ID3v2_TAG_FLAG_EXTENDED_HEADER | ID3v2_TAG_FLAG_FOOTER
+                               : ID3v2_TAG_FLAG_EXTENDED_HEADER;
+    const char flags = tag->header->flags & ~unwritten;
+    CharStream_write(tag_cs, &flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
 
     char* size_bytes = itob(syncint_encode(tag->header->tag_size));
     CharStream_write(tag_cs, size_bytes, ID3v2_TAG_HEADER_TAG_SIZE_LENGTH);
diff --git a/src/modules/tag_header.c b/src/modules/tag_header.c
index bd41bf1..92cffe6 100644
--- a/src/modules/tag_header.c
+++ b/src/modules/tag_header.c
@@ -75,7 +75,7 @@ ID3v2_TagHeader* TagHeader_parse(CharStream* header_cs)
     if ((flags & (1 << 6)) == (1 << 6))
     {
         // An extended header exists, retrieve its size
-        char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH];
+        char raw_eh_size[ID3v2_EXTENDED_HEADER_SIZE_LENGTH] = {0};
         CharStream_read(header_cs, raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH);
         extended_header_size = syncint_decode(btoi(raw_eh_size, ID3v2_EXTENDED_HEADER_SIZE_LENGTH));
     }
diff --git a/src/modules/tag_header.private.h b/src/modules/tag_header.private.h
index 011e39c..2af489b 100644
--- a/src/modules/tag_header.private.h
+++ b/src/modules/tag_header.private.h
@@ -12,6 +12,9 @@
 
 #include "modules/tag_header.h"
 
+#define ID3v2_TAG_FLAG_EXTENDED_HEADER (1 << 6)
+#define ID3v2_TAG_FLAG_FOOTER (1 << 4) // v2.4 only
+
 typedef struct _CharStream CharStream;
 
 ID3v2_TagHeader* TagHeader_new(
-- 
2.43.0


From f5f3e7c2fb2292c62cd562cde78a5a4095907516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:05 +0000
Subject: [PATCH 16/27] fix: a failing file operation crashed or damaged the
 file on write and delete

---
 src/id3v2lib.c | 91 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 67 insertions(+), 24 deletions(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index fd41acd..b6a10ed 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -86,14 +86,42 @@ ID3v2_Tag* ID3v2_read_tag_from_buffer(const char* tag_buffer, const int buffer_l
     return tag;
 }
 
+/**
+ * Length of the tag at the beginning of an open file, 0 if there is none. Errors
+ * are left in the error indicator of the file.
+ */
+static int read_tag_length(FILE* fp)
+{
+    char tag_header_buffer[ID3v2_TAG_HEADER_LENGTH];
+
+    const int bytes_read = fread(tag_header_buffer, sizeof(char), ID3v2_TAG_HEADER_LENGTH, fp);
+
+    if (bytes_read < ID3v2_TAG_HEADER_LENGTH) return 0;
+
+    ID3v2_TagHeader* tag_header = ID3v2_read_tag_header_from_buffer(tag_header_buffer);
+    const int tag_length = tag_header != NULL ? tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH : 0;
+    ID3v2_TagHeader_free(tag_header);
+
+    return tag_length;
+}
+
 void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
 {
     if (tag == NULL) return;
 
-    ID3v2_TagHeader* existing_tag_header = ID3v2_read_tag_header(file_name);
-    const int original_size =
-        existing_tag_header != NULL ? existing_tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH : 0;
-    free(existing_tag_header);
+    FILE* dest_fp = fopen(file_name, "r+b");
+    if (dest_fp == NULL) return;
+
+    // Perform operations on a temp file in case things go wrong
+    FILE* temp_fp = tmpfile();
+
+    if (temp_fp == NULL)
+    {
+        fclose(dest_fp);
+        return;
+    }
+
+    const int original_size = read_tag_length(dest_fp);
 
     const int extra_padding_length = clamp_int(
         ID3v2_TAG_DEFAULT_PADDING_LENGTH - tag->padding_size,
@@ -104,16 +132,14 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
     tag->header->tag_size += extra_padding_length;
     CharStream* tag_cs = Tag_to_char_stream(tag);
 
-    // Perform operations on a temp file in case things go wrong
-    FILE* temp_fp = tmpfile();
-
     // First write the tag to the temp file
     fwrite(tag_cs->stream, sizeof(char), tag_cs->size, temp_fp);
+    CharStream_free(tag_cs);
 
     // And then, read the original audio data and copy it to
     // the temp file so it's located after the tag
-    FILE* dest_fp = fopen(file_name, "r+b");
-    fseek(dest_fp, original_size, SEEK_SET); // move to the end of the original tag
+    // move to the end of the original tag
+    int failed = fseek(dest_fp, original_size, SEEK_SET) != 0;
 
     int c = 0;
 
@@ -122,11 +148,19 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
         putc(c, temp_fp);
     }
 
-    // Finally copy the temp file back into the destination file
+    // The destination file can only be touched once everything is in the temp file
+    failed = failed || ferror(dest_fp) || ferror(temp_fp) || fflush(temp_fp) != 0 ||
+             fseek(temp_fp, 0L, SEEK_SET) != 0;
     fclose(dest_fp);
-    dest_fp = fopen(file_name, "w+b");
-    fseek(temp_fp, 0L, SEEK_SET);
+    dest_fp = failed ? NULL : fopen(file_name, "w+b");
+
+    if (dest_fp == NULL)
+    {
+        fclose(temp_fp);
+        return;
+    }
 
+    // Finally copy the temp file back into the destination file
     while ((c = getc(temp_fp)) != EOF)
     {
         putc(c, dest_fp);
@@ -134,20 +168,23 @@ void ID3v2_write_tag(const char* file_name, ID3v2_Tag* tag)
 
     fclose(temp_fp);
     fclose(dest_fp);
-
-    CharStream_free(tag_cs);
 }
 
 void ID3v2_delete_tag(const char* file_name)
 {
-    ID3v2_TagHeader* tag_header = ID3v2_read_tag_header(file_name);
+    FILE* file_fp = fopen(file_name, "rb");
+    if (file_fp == NULL) return;
 
-    if (tag_header == NULL) return;
+    const int original_size = read_tag_length(file_fp);
+    FILE* temp_fp = original_size > 0 ? tmpfile() : NULL;
 
-    FILE* file_fp = fopen(file_name, "rb");
-    FILE* temp_fp = tmpfile();
+    if (temp_fp == NULL)
+    {
+        fclose(file_fp);
+        return;
+    }
 
-    fseek(file_fp, tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH, SEEK_SET);
+    int failed = fseek(file_fp, original_size, SEEK_SET) != 0;
 
     int c = 0;
 
@@ -156,18 +193,24 @@ void ID3v2_delete_tag(const char* file_name)
         putc(c, temp_fp);
     }
 
-    // Finally copy the temp file back into the destination file
+    // The file can only be touched once everything is in the temp file
+    failed = failed || ferror(file_fp) || ferror(temp_fp) || fflush(temp_fp) != 0 ||
+             fseek(temp_fp, 0L, SEEK_SET) != 0;
     fclose(file_fp);
-    file_fp = fopen(file_name, "w+b");
-    fseek(temp_fp, 0L, SEEK_SET);
+    file_fp = failed ? NULL : fopen(file_name, "w+b");
 
+    if (file_fp == NULL)
+    {
+        fclose(temp_fp);
+        return;
+    }
+
+    // Finally copy the temp file back into the destination file
     while ((c = getc(temp_fp)) != EOF)
     {
         putc(c, file_fp);
     }
 
-    ID3v2_TagHeader_free(tag_header);
-
     fclose(temp_fp);
     fclose(file_fp);
 }
-- 
2.43.0


From 1332b69fdd0f5842e0ecbf305c7eafc514bc10d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:05 +0000
Subject: [PATCH 17/27] fix: the footer of a v2.4 tag was left in front of the
 audio on write and delete

---
 src/id3v2lib.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/id3v2lib.c b/src/id3v2lib.c
index b6a10ed..1285cd2 100644
--- a/src/id3v2lib.c
+++ b/src/id3v2lib.c
@@ -99,7 +99,17 @@ static int read_tag_length(FILE* fp)
     if (bytes_read < ID3v2_TAG_HEADER_LENGTH) return 0;
 
     ID3v2_TagHeader* tag_header = ID3v2_read_tag_header_from_buffer(tag_header_buffer);
-    const int tag_length = tag_header != NULL ? tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH : 0;
+
+    if (tag_header == NULL) return 0;
+
+    int tag_length = tag_header->tag_size + ID3v2_TAG_HEADER_LENGTH;
+
+    if (tag_header->major_version == 4 && (tag_header->flags & ID3v2_TAG_FLAG_FOOTER) != 0)
+    {
+        // The footer is a copy of the header that is not part of the tag size
+        tag_length += ID3v2_TAG_HEADER_LENGTH;
+    }
+
     ID3v2_TagHeader_free(tag_header);
 
     return tag_length;
-- 
2.43.0


From af1c50d30b44419a26406310825b25468a699ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:05 +0000
Subject: [PATCH 18/27] fix: the description of a plain comment was written in
 the wrong encoding

---
 src/modules/tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/tag.c b/src/modules/tag.c
index 730352c..6c5b290 100644
--- a/src/modules/tag.c
+++ b/src/modules/tag.c
@@ -383,7 +383,7 @@ void ID3v2_Tag_set_comment(ID3v2_Tag* tag, const char* lang, const char* comment
         &(ID3v2_CommentFrameInput){
             .flags = "\0\0",
             .language = lang,
-            .short_description = EMPTY_UNICODE_STR,
+            .short_description = string_has_bom(comment) ? EMPTY_UNICODE_STR : "",
             .comment = comment,
         }
     );
-- 
2.43.0


From 31fda6dde9aafc1c65f411572fd971d62b77e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:40 +0000
Subject: [PATCH 19/27] fix: a comment and a description in different encodings
 were written under the encoding of the comment

---
 src/modules/frames/comment_frame.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/modules/frames/comment_frame.c b/src/modules/frames/comment_frame.c
index 2fe5e30..b541f94 100644
--- a/src/modules/frames/comment_frame.c
+++ b/src/modules/frames/comment_frame.c
@@ -28,6 +28,19 @@ ID3v2_CommentFrame* CommentFrame_new(
 {
     ID3v2_CommentFrame* frame = (ID3v2_CommentFrame*) malloc(sizeof(ID3v2_CommentFrame));
 
+    // Both strings share the encoding of the frame, so if only one of them is unicode
+    // the other one has to be converted
+    char* converted = NULL;
+
+    if (string_has_bom(short_desc) && !string_has_bom(comment))
+    {
+        comment = converted = ID3v2_to_unicode((char*) comment);
+    }
+    else if (string_has_bom(comment) && !string_has_bom(short_desc))
+    {
+        short_desc = converted = ID3v2_to_unicode((char*) short_desc);
+    }
+
     frame->data = CommentFrameData_new(lang, short_desc, comment);
 
     const int short_desc_size = ID3v2_strlent(short_desc);
@@ -36,6 +49,8 @@ ID3v2_CommentFrame* CommentFrame_new(
 
     frame->header = FrameHeader_new(ID3v2_COMMENT_FRAME_ID, flags, frame_size);
 
+    free(converted);
+
     return frame;
 }
 
-- 
2.43.0


From 095fa4e298a93238f4286fe050dee97bf9508bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:40 +0000
Subject: [PATCH 20/27] fix: loading a file without tag crashed in the
 compatibility layer

---
 src/id3v2lib.compat.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 59c7752..6450d92 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -126,13 +126,23 @@ ID3v2_tag* new_tag()
 ID3v2_tag* load_tag(const char* file_name)
 {
     ID3v2_TagHeader* header = ID3v2_read_tag_header(file_name);
+
+    if (header == NULL) return NULL;
+
     FILE* fp = fopen(file_name, "rb");
+
+    if (fp == NULL)
+    {
+        ID3v2_TagHeader_free(header);
+        return NULL;
+    }
+
     const int buffer_size = header->tag_size + ID3v2_TAG_HEADER_LENGTH;
     char* buffer = (char*) malloc(buffer_size * sizeof(char));
-    fread(buffer, sizeof(char), buffer_size, fp);
+    const int bytes_read = fread(buffer, sizeof(char), buffer_size, fp);
     fclose(fp);
 
-    ID3v2_tag* tag = load_tag_with_buffer(buffer, buffer_size);
+    ID3v2_tag* tag = load_tag_with_buffer(buffer, bytes_read);
 
     free(buffer);
     ID3v2_TagHeader_free(header);
@@ -143,6 +153,9 @@ ID3v2_tag* load_tag(const char* file_name)
 ID3v2_tag* load_tag_with_buffer(const char* buffer, int length)
 {
     ID3v2_Tag* tag = ID3v2_read_tag_from_buffer(buffer, length);
+
+    if (tag == NULL) return NULL;
+
     ID3v2_tag* compat_tag = (ID3v2_tag*) malloc(sizeof(ID3v2_tag));
 
     compat_tag->tag_header = (ID3v2_header*) malloc(sizeof(ID3v2_header));
-- 
2.43.0


From aaeadb8b27e6194e4e60434aa551b227e6c659be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:40 +0000
Subject: [PATCH 21/27] fix: new or empty tags crashed in the compatibility
 layer, and so did setting a frame they lacked

---
 src/id3v2lib.compat.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 6450d92..7be41d2 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -78,20 +78,22 @@ void add_to_list(ID3v2_frame_list* main, ID3v2_frame* frame)
 
 void add_uniq_to_list(ID3v2_frame_list* head, ID3v2_frame* frame)
 {
-    while (head != NULL)
+    ID3v2_frame_list* current = head;
+
+    while (current != NULL && current->frame != NULL)
     {
-        if (memcmp(head->frame->frame_id, frame->frame_id, 4) == 0)
+        if (memcmp(current->frame->frame_id, frame->frame_id, 4) == 0)
         {
-            free_frame(head->frame);
-            head->frame = frame;
+            free_frame(current->frame);
+            current->frame = frame;
             return;
         }
 
-        head = head->next;
+        current = current->next;
     }
 
     // not found
-    add_to_list(head->start, frame);
+    add_to_list(head, frame);
 }
 
 ID3v2_frame* get_from_list(ID3v2_frame_list* list, const char* frame_id)
@@ -116,10 +118,17 @@ ID3v2_tag* new_tag()
 
     memcpy(header->tag, "ID3", ID3v2_TAG_HEADER_IDENTIFIER_LENGTH);
 
+    tag->raw = NULL;
     tag->tag_header = header;
     tag->frames = new_frame_list();
     tag->tag = ID3v2_Tag_new_empty();
 
+    header->major_version = tag->tag->header->major_version;
+    header->minor_version = tag->tag->header->minor_version;
+    header->flags = tag->tag->header->flags;
+    header->tag_size = tag->tag->header->tag_size;
+    header->extended_header_size = tag->tag->header->extended_header_size;
+
     return tag;
 }
 
@@ -179,7 +188,7 @@ ID3v2_tag* load_tag_with_buffer(const char* buffer, int length)
     ID3v2_FrameList* head = tag->frames;
     ID3v2_frame_list* compat_frames = new_frame_list();
 
-    while (head != NULL)
+    while (head != NULL && head->frame != NULL)
     {
         ID3v2_frame* compat_frame = frame_to_compat_frame(head->frame);
         add_to_list(compat_frames, compat_frame);
@@ -203,6 +212,8 @@ void set_tag(const char* file_name, ID3v2_tag* tag)
 
 void free_frame(ID3v2_frame* frame)
 {
+    if (frame == NULL) return;
+
     free(frame->data);
     free(frame);
 }
-- 
2.43.0


From a55a200491897124d2438c8ae7abe6f949f9d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:40 +0000
Subject: [PATCH 22/27] fix: only the first flag byte of a frame was set in the
 compatibility layer

---
 src/id3v2lib.compat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 7be41d2..018cf45 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -41,7 +41,7 @@ ID3v2_frame* frame_to_compat_frame(ID3v2_Frame* frame)
     // Frame header
     memcpy(compat_frame->frame_id, frame->header->id, ID3v2_FRAME_HEADER_ID_LENGTH);
     compat_frame->size = frame->header->size;
-    memcpy(compat_frame->flags, frame->header->flags, ID3v2_TAG_HEADER_FLAGS_LENGTH);
+    memcpy(compat_frame->flags, frame->header->flags, ID3v2_FRAME_HEADER_FLAGS_LENGTH);
 
     // Frame data
     CharStream* frame_cs = Frame_to_char_stream(frame, 3); // only the data is of interest
-- 
2.43.0


From 54df936635590cae85df822ae01bd37b348ce136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:40 +0000
Subject: [PATCH 23/27] fix: parsing the content of an absent frame crashed in
 the compatibility layer

---
 src/id3v2lib.compat.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 018cf45..f5ed90a 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -294,6 +294,8 @@ ID3v2_frame* tag_get_album_cover(ID3v2_tag* tag)
 
 ID3v2_frame_text_content* parse_text_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_text_content* content =
         (ID3v2_frame_text_content*) malloc(sizeof(ID3v2_frame_text_content));
     ID3v2_TextFrame* text_frame = (ID3v2_TextFrame*) frame->frame;
@@ -308,6 +310,8 @@ ID3v2_frame_text_content* parse_text_frame_content(ID3v2_frame* frame)
 
 ID3v2_frame_comment_content* parse_comment_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_comment_content* content =
         (ID3v2_frame_comment_content*) malloc(sizeof(ID3v2_frame_comment_content));
     ID3v2_CommentFrame* comment_frame = (ID3v2_CommentFrame*) frame->frame;
@@ -324,6 +328,8 @@ ID3v2_frame_comment_content* parse_comment_frame_content(ID3v2_frame* frame)
 
 ID3v2_frame_apic_content* parse_apic_frame_content(ID3v2_frame* frame)
 {
+    if (frame == NULL) return NULL;
+
     ID3v2_frame_apic_content* content =
         (ID3v2_frame_apic_content*) malloc(sizeof(ID3v2_frame_apic_content));
     ID3v2_ApicFrame* apic_frame = (ID3v2_ApicFrame*) frame->frame;
-- 
2.43.0


From 98489ac39850969bc6e9cf146bf6ea5882541927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:40 +0000
Subject: [PATCH 24/27] fix: parsed text contents were not terminated in the
 compatibility layer

---
 src/id3v2lib.compat.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index f5ed90a..2a4799e 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -17,6 +17,7 @@
 #include "modules/frame_list.private.h"
 #include "modules/tag.private.h"
 #include "modules/tag_header.private.h"
+#include "modules/utils.private.h"
 
 #include "id3v2lib.compat.h"
 
@@ -302,7 +303,8 @@ ID3v2_frame_text_content* parse_text_frame_content(ID3v2_frame* frame)
 
     content->encoding = text_frame->data->encoding;
     content->size = text_frame->data->size;
-    content->data = (char*) malloc(content->size * sizeof(char));
+    // Terminated in memory, like the text it comes from
+    content->data = (char*) calloc(content->size + MAX_STR_TERMINATION_LENGTH, sizeof(char));
     memcpy(content->data, text_frame->data->text, content->size);
 
     return content;
-- 
2.43.0


From 90177c943724666f9e7db7a5480dd4ba70e852ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:40 +0000
Subject: [PATCH 25/27] fix: a missing cover file or one without extension
 crashed in the compatibility layer

---
 src/id3v2lib.compat.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index 2a4799e..abafc1a 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -449,6 +449,9 @@ void tag_set_composer(char* composer, char encoding, ID3v2_tag* tag)
 void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
 {
     FILE* album_cover = fopen(filename, "rb");
+
+    if (album_cover == NULL) return;
+
     char* album_cover_bytes;
     int image_size;
     char* mimetype;
@@ -458,12 +461,13 @@ void tag_set_album_cover(const char* filename, ID3v2_tag* tag)
     fseek(album_cover, 0, SEEK_SET);
 
     album_cover_bytes = (char*) malloc(image_size * sizeof(char));
-    fread(album_cover_bytes, sizeof(char), image_size, album_cover);
+    image_size = (int) fread(album_cover_bytes, sizeof(char), image_size, album_cover);
 
     fclose(album_cover);
 
-    mimetype =
-        strcmp(strrchr(filename, '.') + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG : ID3v2_MIME_TYPE_JPG;
+    const char* extension = strrchr(filename, '.');
+    mimetype = extension != NULL && strcmp(extension + 1, "png") == 0 ? ID3v2_MIME_TYPE_PNG
+                                                                      : ID3v2_MIME_TYPE_JPG;
     tag_set_album_cover_from_bytes(album_cover_bytes, mimetype, image_size, tag);
 
     free(album_cover_bytes);
-- 
2.43.0


From 018e97b752f2c8201e6b4d19d8b3be6bf1b8f988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:21 +0000
Subject: [PATCH 26/27] fix: a MIME type that starts like a byte order mark was
 measured as unicode

---
 src/modules/frames/apic_frame.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/frames/apic_frame.c b/src/modules/frames/apic_frame.c
index 9b78d32..4c2bbac 100644
--- a/src/modules/frames/apic_frame.c
+++ b/src/modules/frames/apic_frame.c
@@ -34,7 +34,7 @@ ID3v2_ApicFrame* ApicFrame_new(
     frame->data = ApicFrameData_new(description, picture_type, mime_type, picture_size, data);
 
     const int description_size = ID3v2_strlent(description);
-    const int mime_type_size = ID3v2_strlent(mime_type);
+    const int mime_type_size = strlen(mime_type) + 1; // always in ISO-8859-1
     const int frame_size = ID3v2_FRAME_ENCODING_LENGTH + mime_type_size +
                            ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH + description_size +
                            frame->data->picture_size;
@@ -101,13 +101,13 @@ CharStream* ApicFrame_to_char_stream(ID3v2_ApicFrame* frame, const int id3_major
 
     // Data
     CharStream_write(frame_cs, &frame->data->encoding, ID3v2_FRAME_ENCODING_LENGTH);
-    CharStream_write(frame_cs, frame->data->mime_type, ID3v2_strlent(frame->data->mime_type));
+    CharStream_write(frame_cs, frame->data->mime_type, strlen(frame->data->mime_type) + 1);
     CharStream_write(frame_cs, &frame->data->picture_type, ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH);
     CharStream_write(
         frame_cs,
         frame->data->description,
         frame->header->size - ID3v2_FRAME_ENCODING_LENGTH -
-            ID3v2_strlent(frame->data->mime_type) - ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH -
+            (strlen(frame->data->mime_type) + 1) - ID3v2_APIC_FRAME_PICTURE_TYPE_LENGTH -
             frame->data->picture_size
     );
     CharStream_write(frame_cs, frame->data->data, frame->data->picture_size);
@@ -142,7 +142,7 @@ ID3v2_ApicFrameData* ApicFrameData_new(
     data->description = (char*) malloc(desc_size * sizeof(char));
     memcpy(data->description, description, desc_size);
 
-    const int mime_type_size = ID3v2_strlent(mime_type);
+    const int mime_type_size = strlen(mime_type) + 1; // always in ISO-8859-1
     data->mime_type = (char*) malloc(mime_type_size * sizeof(char));
     memcpy(data->mime_type, mime_type, mime_type_size);
 
-- 
2.43.0


From 59b0c5f75b4f55a8b81e1c546612075fdd815fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:15 +0000
Subject: [PATCH 27/27] fix: the compatibility layer crashed without a tag
 where the library does nothing

---
 src/id3v2lib.compat.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/id3v2lib.compat.c b/src/id3v2lib.compat.c
index abafc1a..9cf93a7 100644
--- a/src/id3v2lib.compat.c
+++ b/src/id3v2lib.compat.c
@@ -208,6 +208,7 @@ void remove_tag(const char* file_name)
 
 void set_tag(const char* file_name, ID3v2_tag* tag)
 {
+    if (tag == NULL) return;
     ID3v2_write_tag(file_name, tag->tag);
 }
 
@@ -238,59 +239,65 @@ void free_tag(ID3v2_tag* tag)
     free(tag);
 }
 
+static ID3v2_frame* get_from_tag(ID3v2_tag* tag, const char* frame_id)
+{
+    if (tag == NULL) return NULL;
+    return get_from_list(tag->frames, frame_id);
+}
+
 ID3v2_frame* tag_get_title(ID3v2_tag* tag)
 {
-    return get_from_list(tag->frames, ID3v2_TITLE_FRAME_ID);
+    return get_from_tag(tag, ID3v2_TITLE_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_artist(ID3v2_tag* tag)
 {
-    return get_from_list(tag->frames, ID3v2_ARTIST_FRAME_ID);
+    return get_from_tag(tag, ID3v2_ARTIST_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_album(ID3v2_tag* tag)
 {
-    return get_from_list(tag->frames, ID3v2_ALBUM_FRAME_ID);
+    return get_from_tag(tag, ID3v2_ALBUM_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_album_artist(ID3v2_tag* tag)
 {
-    return get_from_list(tag->frames, ID3v2_ALBUM_ARTIST_FRAME_ID);
+    return get_from_tag(tag, ID3v2_ALBUM_ARTIST_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_genre(ID3v2_tag* tag)
 {
-    return get_from_list(tag->frames, ID3v2_GENRE_FRAME_ID);
+    return get_from_tag(tag, ID3v2_GENRE_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_track(ID3v2_tag* tag)
 {
-    return get_from_list(tag->frames, ID3v2_TRACK_FRAME_ID);
+    return get_from_tag(tag, ID3v2_TRACK_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_year(ID3v2_tag* tag)
 {
-    return get_from_list(tag->frames, ID3v2_YEAR_FRAME_ID);
+    return get_from_tag(tag, ID3v2_YEAR_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_comment(ID3v2_tag* tag)
 {
-    return get_from_list(tag->frames, ID3v2_COMMENT_FRAME_ID);
+    return get_from_tag(tag, ID3v2_COMMENT_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_disc_number(ID3v2_tag* tag)
 {
-    return get_from_list(tag->frames, ID3v2_DISC_NUMBER_FRAME_ID);
+    return get_from_tag(tag, ID3v2_DISC_NUMBER_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_composer(ID3v2_tag* tag)
 {
-    return get_from_list(tag->frames, ID3v2_COMPOSER_FRAME_ID);
+    return get_from_tag(tag, ID3v2_COMPOSER_FRAME_ID);
 }
 
 ID3v2_frame* tag_get_album_cover(ID3v2_tag* tag)
 {
-    return get_from_list(tag->frames, ID3v2_ALBUM_COVER_FRAME_ID);
+    return get_from_tag(tag, ID3v2_ALBUM_COVER_FRAME_ID);
 }
 
 ID3v2_frame_text_content* parse_text_frame_content(ID3v2_frame* frame)
-- 
2.43.0

